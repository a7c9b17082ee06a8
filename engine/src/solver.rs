//! SMT-LIB2 conversation with an external solver process.  The assertion
//! stack mirrors the path condition of the state being explored.

use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub fallback: u64,
    pub secs: f64,
    pub max_secs: f64,
}

pub struct Solver {
    child: Child,
    inp: BufWriter<ChildStdin>,
    out: BufReader<ChildStdout>,
    stack: Vec<Tid>,
    levels: Vec<Vec<Tid>>, // terms emitted per level (0 = base)
    emitted: HashSet<Tid>,
    vars_emitted: HashMap<u32, ()>,
    pub stats: Stats,
    pub timeout_ms: u64,
    pub log: Option<std::fs::File>,
    since_restart: u64,
    /// terms mentioned by the last query, for model extraction
    deadline: Option<Instant>,
    no_fallback: bool,
    /// how many fallback steps to try
    pub plan: usize,
    tool: Tool,
    /// limit of the first attempt
    pub first_ms: u64,
}

fn num(v: i128) -> String {
    if v < 0 {
        format!("(- {})", v.unsigned_abs())
    } else {
        v.to_string()
    }
}
fn rnum(r: Rat) -> String {
    let n = if r.n < 0 {
        format!("(- {}.0)", r.n.unsigned_abs())
    } else {
        format!("{}.0", r.n)
    };
    if r.d == 1 {
        n
    } else {
        format!("(/ {} {}.0)", n, r.d)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tool {
    Z3,
    /// one query per process
    Cvc5,
}

fn spawn(tool: Tool, ms: u64) -> (Child, BufWriter<ChildStdin>, BufReader<ChildStdout>) {
    let mut cmd = match tool {
        Tool::Z3 => {
            let bin = std::env::var("PGSYM_Z3").unwrap_or_else(|_| "z3-new".to_string());
            let mut c = Command::new(bin);
            c.arg("-in").arg("-memory:3000");
            c
        }
        Tool::Cvc5 => {
            let mut c = Command::new("cvc5");
            c.arg("--lang=smt2").arg("--produce-models").arg("--arith-rewrite-equalities").arg(format!("--tlimit={}", ms));
            c
        }
    };
    let mut child = cmd
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot start the solver");
    let inp = BufWriter::with_capacity(1 << 16, child.stdin.take().unwrap());
    let out = BufReader::new(child.stdout.take().unwrap());
    (child, inp, out)
}

impl Solver {
    pub fn new(timeout_ms: u64) -> Solver {
        Solver::with(Tool::Z3, timeout_ms)
    }
    fn with(tool: Tool, timeout_ms: u64) -> Solver {
        let (child, inp, out) = spawn(tool, timeout_ms);
        let mut s = Solver {
            child,
            inp,
            out,
            stack: vec![],
            levels: vec![vec![]],
            emitted: HashSet::new(),
            vars_emitted: HashMap::new(),
            stats: Stats::default(),
            timeout_ms,
            log: std::env::var("PGSYM_LOG").ok().map(|p| {
                std::fs::File::create(format!("{}.{:?}", p, std::thread::current().id())).unwrap()
            }),
            since_restart: 0,
            deadline: None,
            no_fallback: false,
            plan: 3,
            tool,
            first_ms: timeout_ms,
        };
        s.prelude();
        s
    }
    fn prelude(&mut self) {
        if self.tool == Tool::Cvc5 {
            self.send("(set-logic ALL)\n");
            return;
        }
        let t = self.first_ms;
        self.send(&format!(
            "(set-option :print-success false)\n(set-option :timeout {})\n(set-option :global-declarations false)\n",
            t
        ));
        if let Ok(o) = std::env::var("PGSYM_Z3OPTS") {
            self.send(&o);
        }
    }
    pub fn set_first(&mut self, ms: u64) {
        self.first_ms = ms;
        self.send(&format!("(set-option :timeout {})\n", ms));
    }
    pub fn set_deadline(&mut self, d: Option<Instant>) {
        self.deadline = d;
    }
    fn restart(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let (c, i, o) = spawn(self.tool, self.timeout_ms);
        self.child = c;
        self.inp = i;
        self.out = o;
        self.stack.clear();
        self.levels = vec![vec![]];
        self.emitted.clear();
        self.vars_emitted.clear();
        self.since_restart = 0;
        self.prelude();
    }
    fn send(&mut self, s: &str) {
        if let Some(f) = &mut self.log {
            let _ = f.write_all(s.as_bytes());
        }
        let _ = self.inp.write_all(s.as_bytes());
    }
    fn read_line(&mut self) -> Option<String> {
        let _ = self.inp.flush();
        let mut l = String::new();
        match self.out.read_line(&mut l) {
            Ok(0) | Err(_) => None,
            Ok(_) => Some(l.trim().to_string()),
        }
    }

    fn push(&mut self) {
        self.send("(push 1)\n");
        self.levels.push(vec![]);
    }
    fn pop(&mut self, n: usize) {
        if n == 0 {
            return;
        }
        self.send(&format!("(pop {})\n", n));
        for _ in 0..n {
            for t in self.levels.pop().unwrap() {
                self.emitted.remove(&t);
            }
        }
    }

    /// Emits definitions for a term and returns its name.
    fn emit(&mut self, a: &Arena, t: Tid) -> String {
        match a.node(t) {
            Node::True => return "true".into(),
            Node::False => return "false".into(),
            Node::Const(c) => return num(*c),
            _ => {}
        }
        let name = format!("t{}", t);
        if self.emitted.contains(&t) {
            return name;
        }
        let mut side = String::new();
        let (sort, expr): (&str, Option<String>) = match a.node(t) {
            Node::Var(v) => {
                let i = &a.vars[*v as usize];
                side = format!(
                    "(assert (and (<= {} {n}) (<= {n} {})))\n",
                    num(i.lo),
                    num(i.hi),
                    n = name
                );
                ("Int", None)
            }
            Node::Lin(c, ts) => {
                let mut s = String::from("(+");
                if *c != 0 {
                    s.push(' ');
                    s.push_str(&num(*c));
                }
                for (x, k) in ts.iter() {
                    let n = self.emit(a, *x);
                    if *k == 1 {
                        s.push_str(&format!(" {}", n));
                    } else {
                        s.push_str(&format!(" (* {} {})", num(*k), n));
                    }
                }
                if *c == 0 && ts.len() == 1 {
                    s.push_str(" 0");
                }
                s.push(')');
                ("Int", Some(s))
            }
            Node::Div(x, k) if self.tool == Tool::Cvc5 => {
                let n = self.emit(a, *x);
                ("Int", Some(format!("(div {} {})", n, k)))
            }
            Node::Div(x, k) => {
                let n = self.emit(a, *x);
                side = format!(
                    "(assert (and (<= (* {k} {d}) {n}) (<= {n} (+ (* {k} {d}) {k1}))))\n",
                    k = k,
                    d = name,
                    n = n,
                    k1 = k - 1
                );
                ("Int", None)
            }
            Node::Mul(x, y) => {
                let (p, q) = (self.emit(a, *x), self.emit(a, *y));
                ("Int", Some(format!("(* {} {})", p, q)))
            }
            Node::Ite(c, x, y) => {
                let (c, p, q) = (self.emit(a, *c), self.emit(a, *x), self.emit(a, *y));
                ("Int", Some(format!("(ite {} {} {})", c, p, q)))
            }
            Node::RFloor(x) => {
                let n = self.emit(a, *x);
                side = format!(
                    "(assert (and (<= (to_real {d}) {n}) (< {n} (+ (to_real {d}) 1.0))))\n",
                    d = name,
                    n = n
                );
                ("Int", None)
            }
            Node::Le0(x) => {
                let n = self.emit(a, *x);
                ("Bool", Some(format!("(<= {} 0)", n)))
            }
            Node::Eq0(x) => {
                let n = self.emit(a, *x);
                ("Bool", Some(format!("(and (<= {n} 0) (>= {n} 0))", n = n)))
            }
            Node::Not(x) => {
                let n = self.emit(a, *x);
                ("Bool", Some(format!("(not {})", n)))
            }
            Node::And(v) | Node::Or(v) => {
                let o = if let Node::And(_) = a.node(t) { "and" } else { "or" };
                let mut s = format!("({}", o);
                for x in v.iter() {
                    let n = self.emit(a, *x);
                    s.push(' ');
                    s.push_str(&n);
                }
                s.push(')');
                ("Bool", Some(s))
            }
            Node::RLin(c, ts) => {
                let mut s = format!("(+ {}", rnum(*c));
                for (x, k) in ts.iter() {
                    let n = self.emit(a, *x);
                    let n = if a.is_int(*x) { format!("(to_real {})", n) } else { n };
                    s.push_str(&format!(" (* {} {})", rnum(*k), n));
                }
                s.push_str(" 0.0)");
                ("Real", Some(s))
            }
            Node::Round(e, p) => {
                let two = 1i128 << *p;
                let (dn, up) = (two - 1, two + 1);
                let n = self.emit(a, *e);
                let (lo, hi) = a.rrange(*e, &NoBounds, 0);
                let fl = format!("f{}", t);
                // fl(x) lies between floor(x) and ceil(x) (integers below 2^53
                // are representable and rounding is monotone)
                let mut big = true;
                let mut s2 = String::new();
                if let (Some(l), Some(h)) = (lo, hi) {
                    let m = l.n.abs() / l.d.max(1);
                    let m2 = h.n.abs() / h.d.max(1);
                    let m = m.max(m2) + 1;
                    big = m >= two as _;
                    // absolute error bound: half an ulp of the largest magnitude
                    let bits = 128 - (m as u128).leading_zeros() as i32; // m < 2^bits
                    let e = bits - 1 - *p as i32;
                    let err = if e >= 0 {
                        format!("{}.0", 1i128 << e)
                    } else {
                        format!("(/ 1.0 {}.0)", 1i128 << (-e))
                    };
                    s2.push_str(&format!(
                        "(assert (and (<= (- {n} {e}) {d}) (<= {d} (+ {n} {e}))))\n",
                        n = n,
                        d = name,
                        e = err
                    ));
                } else {
                    s2.push_str(&format!(
                        "(assert (and (=> (>= {n} 0.0) (and (<= (* {n} (/ {dn}.0 {two}.0)) {d}) (<= {d} (* {n} (/ {up}.0 {two}.0))))) (=> (<= {n} 0.0) (and (>= (* {n} (/ {dn}.0 {two}.0)) {d}) (>= {d} (* {n} (/ {up}.0 {two}.0)))))))\n",
                        n = n, d = name, dn = dn, up = up, two = two));
                }
                if !big {
                    s2.push_str(&format!(
                        "(declare-const {f} Int)\n(assert (and (<= (to_real {f}) {n}) (< {n} (+ (to_real {f}) 1.0)) (<= (to_real {f}) {d}) (<= {d} (+ (to_real {f}) 1.0)) (=> (= {n} (to_real {f})) (= {d} (to_real {f})))))\n",
                        f = fl, n = n, d = name));
                } else {
                    s2.push_str(&format!(
                        "(assert (and (=> (>= {n} 0.0) (and (<= (* {n} (/ {dn}.0 {two}.0)) {d}) (<= {d} (* {n} (/ {up}.0 {two}.0))))) (=> (<= {n} 0.0) (and (>= (* {n} (/ {dn}.0 {two}.0)) {d}) (>= {d} (* {n} (/ {up}.0 {two}.0)))))))\n",
                        n = n, d = name, dn = dn, up = up, two = two));
                }
                side = s2;
                ("Real", None)
            }
            Node::RIte(c, x, y) => {
                let (c, p, q) = (self.emit(a, *c), self.emit(a, *x), self.emit(a, *y));
                ("Real", Some(format!("(ite {} {} {})", c, p, q)))
            }
            Node::RMul(x, y) => {
                let (p, q) = (self.emit(a, *x), self.emit(a, *y));
                ("Real", Some(format!("(* {} {})", p, q)))
            }
            Node::RDiv(x, y) => {
                let (p, q) = (self.emit(a, *x), self.emit(a, *y));
                ("Real", Some(format!("(/ {} {})", p, q)))
            }
            Node::RLe0(x) => {
                let n = self.emit(a, *x);
                ("Bool", Some(format!("(<= {} 0.0)", n)))
            }
            Node::RLt0(x) => {
                let n = self.emit(a, *x);
                ("Bool", Some(format!("(< {} 0.0)", n)))
            }
            Node::REq0(x) => {
                let n = self.emit(a, *x);
                ("Bool", Some(format!("(= {} 0.0)", n)))
            }
            Node::True | Node::False | Node::Const(_) | Node::BVar(_) => unreachable!(),
        };
        let text = match expr {
            Some(e) => format!("(define-fun {} () {} {})\n", name, sort, e),
            None => format!("(declare-const {} {})\n{}", name, sort, side),
        };
        self.send(&text);
        self.emitted.insert(t);
        self.levels.last_mut().unwrap().push(t);
        name
    }

    fn sync(&mut self, a: &Arena, pc: &[Tid]) {
        let mut k = 0;
        while k < pc.len() && k < self.stack.len() && pc[k] == self.stack[k] {
            k += 1;
        }
        let extra = self.stack.len() - k;
        self.pop(extra);
        self.stack.truncate(k);
        for &c in &pc[k..] {
            self.push();
            let n = self.emit(a, c);
            self.send(&format!("(assert {})\n", n));
            self.stack.push(c);
        }
    }

    /// Is pc and conds satisfiable?  Returns a model for the inputs.
    pub fn check(
        &mut self,
        a: &Arena,
        pc: &[Tid],
        conds: &[Tid],
        want_model: bool,
    ) -> (Sat, Option<Model>) {
        let t0 = Instant::now();
        self.since_restart += 1;
        if self.since_restart > 20000 {
            self.restart();
        }
        self.sync(a, pc);
        self.push();
        for &c in conds {
            let n = self.emit(a, c);
            self.send(&format!("(assert {})\n", n));
        }
        self.send("(check-sat)\n");
        let mut r = match self.read_line().as_deref() {
            Some("sat") => Sat::Sat,
            Some("unsat") => Sat::Unsat,
            Some("unknown") => Sat::Unknown,
            Some(x) => {
                if std::env::var("PGSYM_DEBUG").is_ok() {
                    eprintln!("solver said: {}", x);
                }
                self.restart();
                Sat::Unknown
            }
            None => {
                self.restart();
                Sat::Unknown
            }
        };
        let mut model = None;
        if r == Sat::Sat && want_model {
            let vars: Vec<Tid> = self
                .emitted
                .iter()
                .copied()
                .filter(|t| matches!(a.node(*t), Node::Var(_)))
                .collect();
            model = self.get_model(a, &vars);
        }
        if self.levels.len() > 1 {
            self.pop(1);
        }
        if r == Sat::Unknown && !self.no_fallback {
            self.stats.fallback += 1;
            let (r2, m2) = self.fallback(a, pc, conds, want_model);
            r = r2;
            model = m2;
        }
        let dt = t0.elapsed().as_secs_f64();
        if let Ok(d) = std::env::var("PGSYM_SLOW") {
            if dt > std::env::var("PGSYM_SLOW_S").ok().and_then(|x| x.parse().ok()).unwrap_or(2.0) {
                self.dump(a, pc, conds, &format!("{}/q{:05.1}-{:?}-{}.smt2", d, dt, r, pc.last().unwrap_or(&0) + 7919 * conds.get(0).unwrap_or(&0)));
            }
        }
        self.stats.queries += 1;
        self.stats.secs += dt;
        if dt > self.stats.max_secs {
            self.stats.max_secs = dt;
        }
        match r {
            Sat::Sat => self.stats.sat += 1,
            Sat::Unsat => self.stats.unsat += 1,
            Sat::Unknown => self.stats.unknown += 1,
        }
        (r, model)
    }

    fn dump(&mut self, a: &Arena, pc: &[Tid], conds: &[Tid], path: &str) {
        let mut s = Solver::with(Tool::Cvc5, 1000);
        s.log = std::fs::File::create(path).ok();
        for &c in pc.iter().chain(conds.iter()) {
            let n = s.emit(a, c);
            s.send(&format!("(assert {})\n", n));
        }
        s.send("(check-sat)\n");
    }
    /// Cheap query without fallback.
    pub fn quick(&mut self, a: &Arena, pc: &[Tid], conds: &[Tid], ms: u64) -> (Sat, Option<Model>) {
        let old = self.first_ms;
        self.send(&format!("(set-option :timeout {})\n", ms));
        self.no_fallback = true;
        let r = self.check(a, pc, conds, true);
        self.no_fallback = false;
        self.send(&format!("(set-option :timeout {})\n", old));
        r
    }

    fn get_model(&mut self, a: &Arena, vars: &[Tid]) -> Option<Model> {
        let mut m = Model::default();
        if vars.is_empty() {
            return Some(m);
        }
        let mut s = String::from("(get-value (");
        for t in vars {
            s.push_str(&format!("t{} ", t));
        }
        s.push_str("))\n");
        self.send(&s);
        // read balanced parens
        let mut text = String::new();
        let mut depth = 0i32;
        loop {
            let l = self.read_line()?;
            for c in l.bytes() {
                match c {
                    b'(' => depth += 1,
                    b')' => depth -= 1,
                    _ => {}
                }
            }
            text.push_str(&l);
            text.push(' ');
            if depth <= 0 {
                break;
            }
        }
        for t in vars {
            let key = format!("(t{} ", t);
            let i = text.find(&key)? + key.len();
            let rest = &text[i..];
            let v: i128 = if rest.starts_with("(- ") {
                let e = rest.find(')')?;
                -rest[3..e].trim().parse::<i128>().ok()?
            } else {
                let e = rest.find(')')?;
                rest[..e].trim().parse::<i128>().ok()?
            };
            if let Node::Var(k) = a.node(*t) {
                m.vals.insert(*k, v);
            }
        }
        Some(m)
    }

    /// One-shot query in a fresh process with a longer limit (default tactic,
    /// then a second configuration).
    fn fallback(
        &mut self,
        a: &Arena,
        pc: &[Tid],
        conds: &[Tid],
        want_model: bool,
    ) -> (Sat, Option<Model>) {
        let plan = [
            (Tool::Cvc5, "", self.timeout_ms),
            (Tool::Z3, "(set-option :smt.arith.solver 2)\n", self.timeout_ms),
            (Tool::Cvc5, "", self.timeout_ms * 6),
        ];
        for (tool, opts, ms) in plan.into_iter().take(self.plan) {
            let mut ms = ms;
            if let Some(d) = self.deadline {
                let left = d.saturating_duration_since(Instant::now()).as_millis() as u64;
                if left == 0 {
                    return (Sat::Unknown, None);
                }
                ms = ms.min(left);
            }
            let mut s = Solver::with(tool, ms);
            s.send(opts);
            for &c in pc.iter().chain(conds.iter()) {
                let n = s.emit(a, c);
                s.send(&format!("(assert {})\n", n));
            }
            s.send("(check-sat)\n");
            let r = match s.read_line().as_deref() {
                Some("sat") => Sat::Sat,
                Some("unsat") => Sat::Unsat,
                _ => Sat::Unknown,
            };
            if r == Sat::Unknown {
                continue;
            }
            let mut m = None;
            if r == Sat::Sat && want_model {
                let vars: Vec<Tid> = s
                    .emitted
                    .iter()
                    .copied()
                    .filter(|t| matches!(a.node(*t), Node::Var(_)))
                    .collect();
                m = s.get_model(a, &vars);
            }
            return (r, m);
        }
        (Sat::Unknown, None)
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
