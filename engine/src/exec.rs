//! Forking symbolic executor over LLVM IR.

use crate::ir::*;
use crate::solver::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    C(i128),
    S(Tid),
    B(Tid),
    F(f64),
    R(Tid),
    Agg(Rc<Vec<Val>>),
    Undef,
    Opaque,
    Raw(Rc<Vec<Cell>>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cell {
    U,
    O,
    C(u8),
    S(Tid, u8, u8),
    R(Tid, u8),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum OKind {
    Stack,
    Heap,
    Const,
    Mut,
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub data: Vec<Cell>,
    pub kind: OKind,
}

#[derive(Clone)]
pub struct Frame {
    pub func: Arc<Func>,
    pub module: usize,
    pub block: u32,
    pub ip: usize,
    pub regs: Vec<Val>,
    pub dst: Option<Reg>,
    pub normal: Option<u32>,
    pub allocas: Vec<u64>,
    /// path condition length and facts at entry of a mergeable call
    pub merge: Option<(usize, Rc<Facts>)>,
}

#[derive(Clone, Default)]
pub struct Facts {
    pub ranges: HashMap<Tid, Range>,
    pub known: HashMap<Tid, bool>,
    pub subst: HashMap<Tid, Tid>,
    pub version: u64,
}
impl Bounds for Facts {
    fn get(&self, t: Tid) -> Option<Range> {
        self.ranges.get(&t).copied()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum D {
    B(bool),
    V(i128),
    N(u32),
    /// candidate number, hint (or none for a constant), offset
    E(u32, Option<u32>, i128),
    /// the paths through the call that just returned were all joined
    Join(u32),
}

#[derive(Clone, Debug)]
pub enum Input {
    Int(Tid),
    Choice(u32),
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: BTreeMap<u64, Rc<Obj>>,
    pub facts: Rc<Facts>,
    pub pc: Vec<Tid>,
    pub model: Option<Rc<Model>>,
    pub inputs: Vec<Input>,
    pub decisions: Vec<D>,
    pub replay: Rc<Vec<D>>,
    pub rpos: usize,
    pub next: u64,
    pub steps: u64,
    pub obs: Vec<(String, Val)>,
    pub asserts: u32,
    pub uncertain: bool,
    pub nvar: u32,
    pub hints: Rc<Vec<Tid>>,
    /// the statics of the runs around an isolated run
    pub statics: Vec<Rc<BTreeMap<u64, Rc<Obj>>>>,
    pub cand: u32,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Infeasible,
    AssertFalse,
    Panic(String),
    Ub(String),
    Unsupported(String),
    Budget,
    NeedFormat,
    NoFork,
    /// the state was replaced by others
    Moved,
    Deadline,
}

pub type X<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<i128>,
    pub stack: Vec<String>,
    pub certain: bool,
}

#[derive(Clone, Debug)]
pub struct PathRec {
    pub inputs: Vec<i128>,
    pub obs: Vec<(String, String)>,
    pub fp: bool,
}

#[derive(Default, Clone)]
pub struct RunStats {
    pub paths: u64,
    pub forks: u64,
    pub insts: u64,
    pub asserts: u64,
    pub asserts_by_range: u64,
    pub infeasible: u64,
    pub unknown_branches: u64,
    pub undecided_asserts: u64,
    pub budget: u64,
    pub unsupported: BTreeMap<String, u64>,
    pub max_steps: u64,
    pub dropped: u64,
    pub swept: u64,
    pub sweep_tried: u64,
    pub searched: u64,
    pub joined: u64,
    pub merged: u64,
    pub light: u64,
    pub light_fail: u64,
    pub cached: u64,
}

/// Queries found unsatisfiable by any worker.
static PROVED: std::sync::Mutex<Option<HashSet<u128>>> = std::sync::Mutex::new(None);

fn proved(key: u128) -> bool {
    PROVED.lock().unwrap().as_ref().is_some_and(|s| s.contains(&key))
}
fn prove(key: u128) {
    PROVED.lock().unwrap().get_or_insert_with(HashSet::new).insert(key);
}

pub struct Config {
    pub max_steps: u64,
    pub real_format: bool,
    pub keep_paths: usize,
    pub deadline: Option<std::time::Instant>,
    pub conc_limit: usize,
    pub max_violations: usize,
    pub first_ms: u64,
    pub hot: bool,
    /// functions whose paths are joined when their effects agree
    pub merge: Vec<String>,
}

pub struct Exec<'p> {
    pub prog: &'p Program,
    pub a: Arena,
    pub solver: Solver,
    /// solver for queries over the cheap conjuncts only
    pub light: Solver,
    supp: HashMap<Tid, Rc<Vec<u32>>>,
    pub cfg: Config,
    pub stats: RunStats,
    pub stack: Vec<State>,
    pub globals: BTreeMap<u64, Rc<Obj>>,
    sym_cache: HashMap<Sym, u64>,
    addr_func: HashMap<u64, Sym>,
    pub violations: Vec<Violation>,
    pub seen_viol: HashSet<String>,
    pub paths: Vec<PathRec>,
    pub covers: BTreeMap<String, u64>,
    pub funcs: BTreeSet<String>,
    pub assert_ids: BTreeMap<String, u64>,
    rcache: HashMap<Tid, Range>,
    rcache_ver: u64,
    version: u64,
    pub native_cache: HashMap<Sym, Native>,
    samples: Vec<(Model, Memo)>,
    good: (usize, Tid, usize, Vec<usize>),
    sweep_fail: HashSet<(Tid, Tid)>,
    rng: u64,
    /// evaluating a region that must not fork
    nofork: bool,
    /// the last step entered a mergeable call
    enter: bool,
    /// states that ended inside a mergeable call
    pub pending: Vec<(State, Stop)>,
    /// hands pending states to idle workers
    pub donate: Option<Box<dyn Fn(&mut Vec<State>) + 'p>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Native {
    Ir,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Noop,
    Zero,
    Panic,
    Format,
    MemCmp,
    BCmp,
    MemCpy,
    MemSet,
    VfInt,
    VfChoice,
    VfAssume,
    VfAssert,
    VfCover,
    VfObs,
    VfConc,
    VfHint,
    VfDiv,
    VfAlone,
    VfAloneEnd,
    Intrinsic,
    Unknown,
}

fn mask_u(v: i128, w: u32) -> i128 {
    if w >= 127 {
        v
    } else {
        v & ((1i128 << w) - 1)
    }
}
fn sext(v: i128, w: u32) -> i128 {
    if w >= 128 {
        return v;
    }
    let v = mask_u(v, w);
    if w == 127 {
        return v;
    }
    if v >> (w - 1) & 1 == 1 {
        v - (1i128 << w)
    } else {
        v
    }
}
/// 2^w, capped: wider values are only handled while they stay far below.
fn p2(w: u32) -> i128 {
    1i128 << w.min(126)
}

pub fn fresh_state(prog: &Program, entry: Sym, replay: Vec<D>) -> Result<State, String> {
    let info = prog.info(entry);
    let (m, n) = match &info.kind {
        Kind::Func(m, n) => (*m, n.clone()),
        _ => return Err(format!("entry {} is not a function", info.name)),
    };
    let f = prog.func(m, &n)?;
    let regs = vec![Val::Undef; f.nregs];
    Ok(State {
        frames: vec![Frame {
            func: f,
            module: m,
            block: 0,
            ip: 0,
            regs,
            dst: None,
            normal: None,
            allocas: vec![], merge: None,
        }],
        mem: BTreeMap::new(),
        facts: Rc::new(Facts::default()),
        pc: vec![],
        model: Some(Rc::new(Model::default())),
        inputs: vec![],
        decisions: vec![],
        replay: Rc::new(replay),
        rpos: 0,
        next: 0x30_0000_0000,
        steps: 0,
        obs: vec![],
        asserts: 0,
        uncertain: false,
        nvar: 0,
        hints: Rc::new(vec![]),
        statics: vec![],
        cand: 0,
    })
}

fn unsup<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Unsupported(s.into()))
}
fn ub<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Ub(s.into()))
}

impl<'p> Exec<'p> {
    pub fn new(prog: &'p Program, cfg: Config, timeout_ms: u64) -> Exec<'p> {
        let mut solver = Solver::new(timeout_ms);
        solver.set_deadline(cfg.deadline);
        solver.set_first(cfg.first_ms);
        let light = Solver::new(timeout_ms);
        Exec {
            prog,
            a: Arena::new(),
            solver,
            light,
            supp: HashMap::new(),
            cfg,
            stats: RunStats::default(),
            stack: vec![],
            globals: BTreeMap::new(),
            sym_cache: HashMap::new(),
            addr_func: HashMap::new(),
            violations: vec![],
            seen_viol: HashSet::new(),
            paths: vec![],
            covers: BTreeMap::new(),
            funcs: BTreeSet::new(),
            assert_ids: BTreeMap::new(),
            rcache: HashMap::new(),
            rcache_ver: 0,
            version: 0,
            native_cache: HashMap::new(),
            samples: vec![],
            good: (usize::MAX, 0, 0, vec![]),
            sweep_fail: HashSet::new(),
            rng: 0x9e3779b97f4a7c15,
            donate: None,
            nofork: false,
            enter: false,
            pending: vec![],
        }
    }

    // ------------------------------------------------------------ facts

    fn key(&mut self, t: Tid) -> (Tid, i128, i128) {
        // t = k*key + c
        let (c, v) = self.a.parts(t);
        if v.is_empty() {
            return (t, 0, c);
        }
        if v.len() == 1 {
            return (v[0].0, v[0].1, c);
        }
        let mut g = 0;
        for x in &v {
            g = gcd(g, x.1);
        }
        let g = if v[0].1 < 0 { -g } else { g };
        let v2: Vec<_> = v.iter().map(|x| (x.0, x.1 / g)).collect();
        (self.a.mk_lin(0, v2), g, c)
    }

    pub fn range(&mut self, st: &State, t: Tid) -> Range {
        if st.facts.version != self.rcache_ver {
            self.rcache.clear();
            self.rcache_ver = st.facts.version;
        }
        let f = st.facts.clone();
        self.range_in(&f, t, 0)
    }
    fn range_in(&mut self, f: &Facts, t: Tid, depth: u32) -> Range {
        if let Node::Const(c) = self.a.node(t) {
            return (*c, *c);
        }
        if f.ranges.is_empty() || depth > 40 {
            return self.a.ranges[t as usize];
        }
        if let Some(r) = self.rcache.get(&t) {
            return *r;
        }
        let mut r = self.a.ranges[t as usize];
        match self.a.node(t).clone() {
            Node::Lin(c, ts) => {
                let mut m: HashMap<Tid, Range> = HashMap::new();
                for (x, _) in ts.iter() {
                    let v = self.range_in(f, *x, depth + 1);
                    m.insert(*x, v);
                }
                let a = &self.a;
                let look = |x: Tid| m.get(&x).copied().unwrap_or(a.ranges[x as usize]);
                r = rmeet(r, self.a.lin_range(c, &ts, &look));
                let (k, g, off) = self.key(t);
                if let Some(b) = f.ranges.get(&k) {
                    let s = rmulc(*b, g);
                    r = rmeet(r, radd(s, (off, off)));
                }
            }
            Node::Div(u, k) => {
                let x = self.range_in(f, u, depth + 1);
                let lo = if x.0 <= -INF { -INF } else { x.0.div_euclid(k) };
                let hi = if x.1 >= INF { INF } else { x.1.div_euclid(k) };
                r = rmeet(r, (lo, hi));
            }
            Node::Ite(c, x, y) => {
                let kc = self.tri_in(f, c, depth + 1);
                let (p, q) = (self.range_in(f, x, depth + 1), self.range_in(f, y, depth + 1));
                r = match kc {
                    Some(true) => rmeet(r, p),
                    Some(false) => rmeet(r, q),
                    None => rmeet(r, (p.0.min(q.0), p.1.max(q.1))),
                };
            }
            Node::Mul(x, y) => {
                let (p, q) = (self.range_in(f, x, depth + 1), self.range_in(f, y, depth + 1));
                r = rmeet(r, rmul(p, q));
            }
            Node::RFloor(e) => {
                let (l, h) = self.a.rrange(e, f, 0);
                r = rmeet(
                    r,
                    (
                        l.map_or(-INF, |x| sat(x.floor())),
                        h.map_or(INF, |x| sat(x.floor())),
                    ),
                );
            }
            _ => {}
        }
        if let Some(b) = f.ranges.get(&t) {
            r = rmeet(r, *b);
        }
        self.rcache.insert(t, r);
        r
    }

    /// Truth of a condition from interval facts alone.
    pub fn tri(&mut self, st: &State, c: Tid) -> Option<bool> {
        match c {
            TRUE => return Some(true),
            FALSE => return Some(false),
            _ => {}
        }
        if st.facts.version != self.rcache_ver {
            self.rcache.clear();
            self.rcache_ver = st.facts.version;
        }
        let f = st.facts.clone();
        self.tri_in(&f, c, 0)
    }
    fn tri_in(&mut self, f: &Facts, c: Tid, depth: u32) -> Option<bool> {
        if c == TRUE {
            return Some(true);
        }
        if c == FALSE {
            return Some(false);
        }
        if let Some(b) = f.known.get(&c) {
            return Some(*b);
        }
        if depth > 40 {
            return None;
        }
        match self.a.node(c).clone() {
            Node::Le0(t) => {
                let r = self.range_in(f, t, depth + 1);
                if r.1 <= 0 {
                    Some(true)
                } else if r.0 > 0 {
                    Some(false)
                } else {
                    None
                }
            }
            Node::Eq0(t) => {
                let r = self.range_in(f, t, depth + 1);
                if r.0 > 0 || r.1 < 0 {
                    Some(false)
                } else if r == (0, 0) {
                    Some(true)
                } else {
                    None
                }
            }
            Node::Not(x) => self.tri_in(f, x, depth + 1).map(|b| !b),
            Node::And(v) => {
                let mut all = true;
                for x in v.iter() {
                    match self.tri_in(f, *x, depth + 1) {
                        Some(false) => return Some(false),
                        Some(true) => {}
                        None => all = false,
                    }
                }
                if all {
                    Some(true)
                } else {
                    None
                }
            }
            Node::Or(v) => {
                let mut none = true;
                for x in v.iter() {
                    match self.tri_in(f, *x, depth + 1) {
                        Some(true) => return Some(true),
                        Some(false) => {}
                        None => none = false,
                    }
                }
                if none {
                    Some(false)
                } else {
                    None
                }
            }
            Node::RLe0(t) => {
                let (l, h) = self.a.rrange(t, f, 0);
                if h.map_or(false, |h| h.n <= 0) {
                    Some(true)
                } else if l.map_or(false, |l| l.n > 0) {
                    Some(false)
                } else {
                    None
                }
            }
            Node::RLt0(t) => {
                let (l, h) = self.a.rrange(t, f, 0);
                if h.map_or(false, |h| h.n < 0) {
                    Some(true)
                } else if l.map_or(false, |l| l.n >= 0) {
                    Some(false)
                } else {
                    None
                }
            }
            Node::REq0(t) => {
                let (l, h) = self.a.rrange(t, f, 0);
                if h.map_or(false, |h| h.n < 0) || l.map_or(false, |l| l.n > 0) {
                    Some(false)
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    fn learn(&mut self, f: &mut Facts, c: Tid, val: bool, depth: u32) {
        if depth > 8 {
            return;
        }
        f.known.insert(c, val);
        let n = self.a.not(c);
        f.known.insert(n, !val);
        match self.a.node(c).clone() {
            Node::Le0(t) => {
                if val {
                    self.bound(f, t, (-INF, 0), 0);
                } else {
                    self.bound(f, t, (1, INF), 0);
                }
            }
            Node::Eq0(t) => {
                if val {
                    self.bound(f, t, (0, 0), 0);
                } else {
                    // shave an end point
                    let (k, g, off) = self.key(t);
                    if g != 0 && off % g == 0 {
                        let x = -off / g;
                        let r = self.range_now(f, k);
                        if r.0 == x {
                            self.bound(f, k, (x + 1, INF), 0);
                        } else if r.1 == x {
                            self.bound(f, k, (-INF, x - 1), 0);
                        }
                    }
                }
            }
            Node::Not(x) => self.learn(f, x, !val, depth + 1),
            Node::And(v) if val => {
                for x in v.iter() {
                    self.learn(f, *x, true, depth + 1);
                }
            }
            Node::Or(v) if !val => {
                for x in v.iter() {
                    self.learn(f, *x, false, depth + 1);
                }
            }
            _ => {}
        }
    }
    fn range_now(&mut self, f: &Facts, t: Tid) -> Range {
        self.rcache.clear();
        self.rcache_ver = u64::MAX;
        let r = self.range_in(f, t, 0);
        self.rcache.clear();
        r
    }
    /// t in [lo,hi]
    fn bound(&mut self, f: &mut Facts, t: Tid, r: Range, depth: u32) {
        if depth > 10 {
            return;
        }
        let (k, g, off) = self.key(t);
        if g == 0 {
            return;
        }
        // g*k + off in r
        let lo = if r.0 <= -INF { -INF } else { r.0 - off };
        let hi = if r.1 >= INF { INF } else { r.1 - off };
        let (lo, hi) = if g > 0 {
            (
                if lo <= -INF { -INF } else { -((-lo).div_euclid(g)) },
                if hi >= INF { INF } else { hi.div_euclid(g) },
            )
        } else {
            let gg = -g;
            (
                if hi >= INF { -INF } else { -(hi.div_euclid(gg)) },
                if lo <= -INF { INF } else { (-lo).div_euclid(gg) },
            )
        };
        let old = f.ranges.get(&k).copied().unwrap_or(self.a.ranges[k as usize]);
        let nr = rmeet(old, (lo, hi));
        if nr == old {
            return;
        }
        f.ranges.insert(k, nr);
        match self.a.node(k).clone() {
            Node::Div(u, d) => {
                let l = if nr.0 <= -INF { -INF } else { smul(nr.0, d) };
                let h = if nr.1 >= INF { INF } else { smul(nr.1, d) + d - 1 };
                self.bound(f, u, (l, h), depth + 1);
            }
            Node::Lin(_, ts) if ts.len() <= 4 => {
                // interval propagation onto each atom
                for i in 0..ts.len() {
                    let mut rest = (0, 0);
                    for (j, (x, c)) in ts.iter().enumerate() {
                        if i != j {
                            let rx = f
                                .ranges
                                .get(x)
                                .copied()
                                .unwrap_or(self.a.ranges[*x as usize]);
                            rest = radd(rest, rmulc(rx, *c));
                        }
                    }
                    // c_i*x_i in nr - rest
                    let lo = if nr.0 <= -INF || rest.1 >= INF { -INF } else { nr.0 - rest.1 };
                    let hi = if nr.1 >= INF || rest.0 <= -INF { INF } else { nr.1 - rest.0 };
                    let t = self.a.mulc(ts[i].0, ts[i].1);
                    self.bound(f, t, (lo, hi), depth + 3);
                }
            }
            Node::Ite(c, x, y) => {
                if let (Some(p), Some(q)) = (self.a.as_const(x), self.a.as_const(y)) {
                    let inp = p >= nr.0 && p <= nr.1;
                    let inq = q >= nr.0 && q <= nr.1;
                    if inp && !inq {
                        self.learn(f, c, true, depth + 1);
                    } else if inq && !inp {
                        self.learn(f, c, false, depth + 1);
                    }
                }
            }
            _ => {}
        }
    }

    fn add_pc(&mut self, st: &mut State, c: Tid) {
        st.pc.push(c);
        let mut f = (*st.facts).clone();
        self.learn(&mut f, c, true, 0);
        self.version += 1;
        f.version = self.version;
        st.facts = Rc::new(f);
    }

    fn eval_model(&self, m: &Model, c: Tid) -> Option<bool> {
        Eval::new(&self.a, m).bool(c)
    }

    /// Variables a term depends on.
    fn support(&mut self, t: Tid) -> Rc<Vec<u32>> {
        if let Some(v) = self.supp.get(&t) {
            return v.clone();
        }
        let mut kids: Vec<Tid> = vec![];
        let mut out: BTreeSet<u32> = BTreeSet::new();
        match self.a.node(t) {
            Node::Var(v) => {
                out.insert(*v);
            }
            Node::Lin(_, ts) => kids.extend(ts.iter().map(|x| x.0)),
            Node::RLin(_, ts) => kids.extend(ts.iter().map(|x| x.0)),
            Node::Div(x, _) | Node::RFloor(x) | Node::Le0(x) | Node::Eq0(x) | Node::Not(x) | Node::Round(x, _)
            | Node::RLe0(x) | Node::RLt0(x) | Node::REq0(x) => kids.push(*x),
            Node::Mul(x, y) | Node::RMul(x, y) | Node::RDiv(x, y) => kids.extend([*x, *y]),
            Node::Ite(c, x, y) | Node::RIte(c, x, y) => kids.extend([*c, *x, *y]),
            Node::And(v) | Node::Or(v) => kids.extend(v.iter().copied()),
            Node::True | Node::False | Node::Const(_) | Node::BVar(_) => {}
        }
        for k in kids {
            let s = self.support(k);
            out.extend(s.iter().copied());
        }
        let r = Rc::new(out.into_iter().collect::<Vec<_>>());
        self.supp.insert(t, r.clone());
        r
    }
    /// The conjuncts of `pc` connected to `conds` through shared variables.
    fn slice(&mut self, pc: &[Tid], conds: &[Tid]) -> Vec<Tid> {
        let mut vars: HashSet<u32> = HashSet::new();
        for &c in conds {
            vars.extend(self.support(c).iter().copied());
        }
        let sups: Vec<Rc<Vec<u32>>> = pc.iter().map(|c| self.support(*c)).collect();
        let mut take = vec![false; pc.len()];
        loop {
            let mut more = false;
            for i in 0..pc.len() {
                if !take[i] && sups[i].iter().any(|v| vars.contains(v)) {
                    take[i] = true;
                    more = true;
                    vars.extend(sups[i].iter().copied());
                }
            }
            if !more {
                break;
            }
        }
        pc.iter().zip(take).filter(|x| x.1).map(|x| *x.0).collect()
    }
    /// Satisfiability of the path condition with `conds`; the path condition
    /// alone is known to be satisfiable.
    fn query(&mut self, st: &State, conds: &[Tid]) -> (Sat, Option<Model>) {
        if let Some(m) = self.search_model(st, conds) {
            self.stats.searched += 1;
            return (Sat::Sat, Some(m));
        }
        let pc = if conds.is_empty() { st.pc.clone() } else { self.slice(&st.pc, conds) };
        let base = st.model.clone();
        let merge = |m: Model| -> Model {
            match &base {
                Some(b) if !conds.is_empty() => {
                    let mut r = (**b).clone();
                    r.vals.extend(m.vals);
                    r
                }
                _ => m,
            }
        };
        let mut goal: BTreeSet<u32> = BTreeSet::new();
        for &c in conds {
            goal.extend(self.support(c).iter().copied());
        }
        // constraints that speak of nothing else than the goal's inputs
        let mut tight = vec![];
        if !conds.is_empty() {
            for &c in &pc {
                if self.support(c).iter().all(|v| goal.contains(v)) {
                    tight.push(c);
                }
            }
        }
        tight.sort();
        tight.dedup();
        if !conds.is_empty() {
            let key = self.a.query_key(&tight, conds);
            if proved(key) {
                self.stats.cached += 1;
                return (Sat::Unsat, None);
            }
            if tight.len() < pc.len() {
                let (mut r, mut m) = self.light.quick(&self.a, &tight, conds, 400);
                self.stats.light += 1;
                if r == Sat::Unknown {
                    self.solver.plan = 1;
                    (r, m) = self.solver.check(&self.a, &tight, conds, true);
                    self.solver.plan = 3;
                }
                match r {
                    Sat::Unsat => {
                        prove(key);
                        return (Sat::Unsat, None);
                    }
                    Sat::Sat => {
                        if let Some(m) = m {
                            let m = merge(m);
                            let mut e = Eval::new(&self.a, &m);
                            if st.pc.iter().chain(conds.iter()).all(|c| e.bool(*c) == Some(true)) {
                                return (Sat::Sat, Some(m));
                            }
                        }
                    }
                    Sat::Unknown => {}
                }
            }
        }
        let lpc: Vec<Tid> = pc.iter().copied().filter(|t| self.a.dd[*t as usize] < 2).collect();
        if lpc.len() < pc.len() && lpc != tight {
            let (r, m) = self.light.quick(&self.a, &lpc, conds, 300);
            self.stats.light += 1;
            match r {
                Sat::Unsat => return (Sat::Unsat, None),
                Sat::Sat => {
                    if let Some(m) = m {
                        let m = merge(m);
                        let mut e = Eval::new(&self.a, &m);
                        if st.pc.iter().chain(conds.iter()).all(|c| e.bool(*c) == Some(true)) {
                            return (Sat::Sat, Some(m));
                        }
                    }
                }
                Sat::Unknown => {}
            }
            self.stats.light_fail += 1;
        }
        let t0 = std::time::Instant::now();
        let (r, m) = self.solver.check(&self.a, &pc, conds, true);
        if self.cfg.hot && t0.elapsed().as_secs_f64() > 0.5 {
            let g: Vec<String> = conds.iter().map(|c| self.a.show(*c)).collect();
            eprintln!(
                "SLOWQ {:.1} {:?} pc {} of {} at {} goal {}",
                t0.elapsed().as_secs_f64(),
                r,
                pc.len(),
                st.pc.len(),
                self.place(st),
                g.join(" & ")
            );
        }
        if r == Sat::Unsat && tight.len() >= pc.len() && !conds.is_empty() {
            prove(self.a.query_key(&tight, conds));
        }
        (r, m.map(merge))
    }
    /// Looks for a model near the current one by changing one input.
    fn search_model(&mut self, st: &State, conds: &[Tid]) -> Option<Model> {
        let base = st.model.clone()?;
        if conds.is_empty() {
            return None;
        }
        let mut vars: BTreeSet<u32> = BTreeSet::new();
        for &c in conds {
            vars.extend(self.support(c).iter().copied());
        }
        if vars.is_empty() {
            return None;
        }
        let mut m = (*base).clone();
        for &v in &vars {
            let (lo0, hi0) = (self.a.vars[v as usize].lo, self.a.vars[v as usize].hi);
            let t = self.a.intern(Node::Var(v));
            let (lo, hi) = rmeet((lo0, hi0), self.range(st, t));
            let cur = *base.vals.get(&v).unwrap_or(&0i128.clamp(lo0, hi0));
            let had = base.vals.get(&v).copied();
            let mut cand: Vec<i128> = vec![lo, hi, cur - 1, cur + 1, (lo + hi) / 2, cur + 2, cur - 2, 0];
            let w = (hi - lo + 1).max(1);
            for k in 0..12 {
                let x = self.rand() as i128;
                cand.push(match k % 4 {
                    0 => lo + x % w,
                    1 => cur + x % 400,
                    2 => cur - x % 400,
                    _ => cur + x % 2001 - 1000,
                });
            }
            cand.extend([cur + 4, cur - 4, cur + 400, cur - 400, cur + 100, cur - 100, -1, 1]);
            for x in cand {
                if x < lo || x > hi || x == cur {
                    continue;
                }
                m.vals.insert(v, x);
                let mut e = Eval::new(&self.a, &m);
                if conds.iter().chain(st.pc.iter()).all(|c| e.bool(*c) == Some(true)) {
                    return Some(m);
                }
            }
            match had {
                Some(x) => {
                    m.vals.insert(v, x);
                }
                None => {
                    m.vals.remove(&v);
                }
            }
        }
        None
    }

    fn ensure_model(&mut self, st: &mut State) -> X<()> {
        if st.model.is_some() {
            return Ok(());
        }
        let (r, m) = self.solver.check(&self.a, &st.pc, &[], true);
        match r {
            Sat::Unsat => Err(Stop::Infeasible),
            Sat::Unknown => {
                st.uncertain = true;
                Ok(())
            }
            Sat::Sat => {
                if let Some(m) = m {
                    // floating point terms are relaxed in the solver: keep the
                    // model only if it really satisfies the path condition
                    let mut ok = true;
                    {
                        let mut e = Eval::new(&self.a, &m);
                        for &c in &st.pc {
                            if e.bool(c) != Some(true) {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        st.model = Some(Rc::new(m));
                    }
                }
                Ok(())
            }
        }
    }
    fn good_model(&self, pc: &[Tid], extra: Tid, m: &Model) -> bool {
        let mut e = Eval::new(&self.a, m);
        for &c in pc {
            if e.bool(c) != Some(true) {
                return false;
            }
        }
        e.bool(extra) == Some(true)
    }

    /// Decides a condition, forking the state when both outcomes are possible.
    /// Restartable: instructions that call it must not have side effects
    /// before the call.
    pub fn branch(&mut self, st: &mut State, c: Tid) -> X<bool> {
        if let Some(b) = self.tri(st, c) {
            return Ok(b);
        }
        if self.nofork {
            return Err(Stop::NoFork);
        }
        let nc = self.a.not(c);
        if st.rpos < st.replay.len() {
            let d = st.replay[st.rpos].clone();
            match d {
                D::B(b) => {
                    st.rpos += 1;
                    st.decisions.push(D::B(b));
                    self.add_pc(st, if b { c } else { nc });
                    if st.rpos == st.replay.len() {
                        st.model = None;
                    }
                    return Ok(b);
                }
                d => return unsup(format!("replay mismatch {:?}", d)),
            }
        }
        if let Some(d) = self.cfg.deadline {
            if std::time::Instant::now() > d {
                return Err(Stop::Deadline);
            }
        }
        if !self.stack.is_empty() {
            if let Some(f) = &self.donate {
                f(&mut self.stack);
            }
        }
        self.ensure_model(st)?;
        let mut known: Option<bool> = None;
        if let Some(m) = &st.model {
            known = self.eval_model(m, c);
        }
        // the side the model takes is feasible
        let (pos, pm) = match known {
            Some(true) => (true, st.model.clone()),
            _ => {
                let (r, m) = self.query(st, &[c]);
                if r == Sat::Unknown {
                    self.stats.unknown_branches += 1;
                }
                let m = m.filter(|m| self.good_model(&st.pc, c, m)).map(Rc::new);
                (r != Sat::Unsat, m)
            }
        };
        let (neg, nm) = match known {
            Some(false) => (true, st.model.clone()),
            _ => {
                let (r, m) = self.query(st, &[nc]);
                if r == Sat::Unknown {
                    self.stats.unknown_branches += 1;
                }
                let m = m.filter(|m| self.good_model(&st.pc, nc, m)).map(Rc::new);
                (r != Sat::Unsat, m)
            }
        };
        match (pos, neg) {
            (false, false) => Err(Stop::Infeasible),
            (true, false) => {
                st.decisions.push(D::B(true));
                if pm.is_some() {
                    st.model = pm;
                }
                self.add_fact(st, c, true);
                Ok(true)
            }
            (false, true) => {
                st.decisions.push(D::B(false));
                if nm.is_some() {
                    st.model = nm;
                }
                self.add_fact(st, c, false);
                Ok(false)
            }
            (true, true) => {
                self.stats.forks += 1;
                if self.cfg.hot {
                    eprintln!("FORK {}", self.place(st));
                }
                let take = known.unwrap_or(true);
                let mut alt = st.clone();
                let (mc, ac) = if take { (c, nc) } else { (nc, c) };
                let (mm, am) = if take { (pm, nm) } else { (nm, pm) };
                alt.decisions.push(D::B(!take));
                alt.model = am;
                self.add_pc(&mut alt, ac);
                self.stack.push(alt);
                st.decisions.push(D::B(take));
                st.model = mm;
                self.add_pc(st, mc);
                Ok(take)
            }
        }
    }
    fn place(&self, st: &State) -> String {
        let mut v = vec![];
        for f in st.frames.iter().rev().take(3) {
            let b = f.func.blocks.get(f.block as usize);
            v.push(format!("{}#{}.{}", short_name(&f.func.name), b.map(|_| f.block).unwrap_or(0), f.ip));
        }
        v.join(" < ")
    }
    /// Implied fact: learned, but not needed in the path condition.
    fn add_fact(&mut self, st: &mut State, c: Tid, val: bool) {
        let mut f = (*st.facts).clone();
        self.learn(&mut f, c, val, 0);
        self.version += 1;
        f.version = self.version;
        st.facts = Rc::new(f);
    }

    /// Enumerates all values of a term (complete case split by the solver).
    pub fn concretize(&mut self, st: &mut State, t: Tid) -> X<i128> {
        let mut n = 0;
        loop {
            let r = self.range(st, t);
            if r.0 == r.1 {
                return Ok(r.0);
            }
            if self.nofork {
                return Err(Stop::NoFork);
            }
            n += 1;
            if n > self.cfg.conc_limit {
                return unsup("too many values to enumerate");
            }
            let v;
            if st.rpos < st.replay.len() {
                match st.replay[st.rpos].clone() {
                    D::V(x) => {
                        v = x;
                        st.rpos += 1;
                    }
                    d => return unsup(format!("replay mismatch {:?} (value)", d)),
                }
            } else {
                self.ensure_model(st)?;
                let m = match &st.model {
                    Some(m) => m.clone(),
                    None => return unsup("no model to enumerate from"),
                };
                v = match Eval::new(&self.a, &m).int(t) {
                    Some(v) => v,
                    None => return unsup("model evaluation"),
                };
            }
            let e = self.a.eq_c(t, v);
            if let Some(b) = self.tri(st, e) {
                if b {
                    return Ok(v);
                }
                return unsup("concretize inconsistency");
            }
            st.decisions.push(D::V(v));
            if self.branch(st, e)? {
                return Ok(v);
            }
        }
    }

    // ------------------------------------------------------------ sweeping
    //
    // A harness names terms of interest (`hint`).  A complicated value that
    // agrees with `hint + c` (or a constant) on sample inputs is handed to
    // the solver; when equality holds for every input of the path, the
    // simple form replaces the complicated one from here on.

    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    fn eval_in(&mut self, i: usize, t: Tid) -> Option<i128> {
        let (m, memo) = &mut self.samples[i];
        let mm = std::mem::take(memo);
        let mut e = Eval { a: &self.a, m, memo: mm };
        let r = e.int(t);
        let mm = e.memo;
        self.samples[i].1 = mm;
        r
    }
    fn holds_in(&mut self, i: usize, pc: &[Tid]) -> bool {
        let (m, memo) = &mut self.samples[i];
        let mm = std::mem::take(memo);
        let mut e = Eval { a: &self.a, m, memo: mm };
        let r = pc.iter().all(|c| e.bool(*c) == Some(true));
        let mm = e.memo;
        self.samples[i].1 = mm;
        r
    }

    fn good_samples(&mut self, st: &State) -> Vec<usize> {
        let key = (st.pc.len(), st.pc.last().copied().unwrap_or(TRUE), self.samples.len());
        if self.good.0 == key.0 && self.good.1 == key.1 && self.good.2 == key.2 {
            return self.good.3.clone();
        }
        let mut g = vec![];
        for i in 0..self.samples.len() {
            if self.holds_in(i, &st.pc) {
                g.push(i);
            }
        }
        if g.len() < 6 && self.samples.len() < 3000 {
            // random inputs that satisfy the path condition
            let vars: Vec<u32> = st
                .inputs
                .iter()
                .filter_map(|x| match x {
                    Input::Int(t) => match self.a.node(*t) {
                        Node::Var(v) => Some(*v),
                        _ => None,
                    },
                    _ => None,
                })
                .collect();
            for k in 0..120 {
                if g.len() >= 6 {
                    break;
                }
                let mut m = Model::default();
                for &v in &vars {
                    let (lo, hi) = (self.a.vars[v as usize].lo, self.a.vars[v as usize].hi);
                    let t = self.a.intern(Node::Var(v));
                    let r = rmeet((lo, hi), self.range(st, t));
                    let w = (r.1 - r.0 + 1).max(1);
                    let x = self.rand() as i128;
                    let mut val = r.0 + x % w;
                    if k % 3 == 1 && w > 4000 {
                        val = (self.rand() % 4000) as i128 + if r.0 > 0 { r.0 } else { 0 };
                        val = val.clamp(r.0, r.1);
                    }
                    m.vals.insert(v, val);
                }
                // start from the state's model sometimes: keep its other values
                if k % 3 == 2 {
                    if let Some(b) = &st.model {
                        let keep = vars.get(self.rng as usize % vars.len().max(1)).copied();
                        for &v in &vars {
                            if Some(v) != keep {
                                if let Some(x) = b.vals.get(&v) {
                                    m.vals.insert(v, *x);
                                }
                            }
                        }
                    }
                }
                self.samples.push((m, Memo::default()));
                let i = self.samples.len() - 1;
                if self.holds_in(i, &st.pc) {
                    g.push(i);
                } else {
                    self.samples.pop();
                }
            }
        }
        if g.len() < 3 {
            if let Some(m) = &st.model {
                self.samples.push(((**m).clone(), Memo::default()));
                g.push(self.samples.len() - 1);
            }
            // let the solver spread the hints
            for h in st.hints.iter().copied().collect::<Vec<_>>() {
                let r = self.range(st, h);
                if r.0 <= -INF || r.1 >= INF || r.0 == r.1 {
                    continue;
                }
                for k in 0..2 {
                    let p = r.0 + (self.rand() as i128) % (r.1 - r.0 + 1);
                    let d = self.a.addc(h, -p);
                    let d = if k == 0 { d } else { self.a.mulc(d, -1) };
                    let c = self.a.le0(d);
                    let (q, m) = self.solver.quick(&self.a, &st.pc, &[c], 300);
                    if q == Sat::Sat {
                        if let Some(m) = m {
                            self.samples.push((m, Memo::default()));
                            let i = self.samples.len() - 1;
                            if self.holds_in(i, &st.pc) {
                                g.push(i);
                            } else {
                                self.samples.pop();
                            }
                        }
                    }
                }
            }
        }
        self.good = (key.0, key.1, self.samples.len(), g.clone());
        g
    }

    fn sweep(&mut self, st: &mut State, v: Val) -> Val {
        match v {
            Val::S(t) => Val::S(self.sweep_term(st, t)),
            Val::Agg(items) if items.iter().any(|x| matches!(x, Val::S(_))) => {
                let mut out = Vec::with_capacity(items.len());
                for x in items.iter() {
                    out.push(self.sweep(st, x.clone()));
                }
                Val::Agg(Rc::new(out))
            }
            v => v,
        }
    }

    /// Replaces divisions and conditionals the path has decided.
    fn simp(&mut self, st: &State, t: Tid) -> Tid {
        let (c, v) = self.a.parts(t);
        let mut c = c;
        let mut out = vec![];
        let mut changed = false;
        for (x, k) in v {
            let y = match *self.a.node(x) {
                Node::Div(..) => {
                    let r = self.range(st, x);
                    if r.0 == r.1 {
                        c += k * r.0;
                        changed = true;
                        continue;
                    }
                    x
                }
                Node::Ite(cnd, p, q) => match self.tri(st, cnd) {
                    Some(true) => p,
                    Some(false) => q,
                    None => x,
                },
                _ => x,
            };
            changed |= y != x;
            out.push((y, k));
        }
        if !changed {
            return t;
        }
        let mut acc = self.a.c(c);
        for (x, k) in out {
            acc = match self.a.lin2(acc, 1, x, k, 0) {
                Some(t) => t,
                None => return t,
            };
        }
        acc
    }

    fn sweep_term(&mut self, st: &mut State, t: Tid) -> Tid {
        if self.a.dd[t as usize] == 0 {
            return t;
        }
        let r = self.range(st, t);
        if r.0 == r.1 {
            return self.a.c(r.0);
        }
        let t = self.simp(st, t);
        if self.a.dd[t as usize] < 2 {
            // a calendar formula of the code under test?
            let long = matches!(self.a.node(t), Node::Lin(_, ts) if ts.len() > 3);
            let deep = st.frames.iter().any(|f| f.merge.is_some());
            if !long || !deep {
                return t;
            }
        }
        if let Some(&u) = st.facts.subst.get(&t) {
            return u;
        }
        st.cand += 1;
        let cand = st.cand;
        if st.rpos < st.replay.len() {
            if let D::E(n, h, off) = st.replay[st.rpos] {
                if n == cand {
                    st.rpos += 1;
                    st.decisions.push(D::E(n, h, off));
                    let u = match h {
                        Some(i) => self.a.addc(st.hints[i as usize], off),
                        None => self.a.c(off),
                    };
                    self.learn_eq(st, t, u);
                    if st.rpos == st.replay.len() {
                        st.model = None;
                    }
                    return u;
                }
            }
            return t;
        }
        let good = self.good_samples(st);
        if good.len() < 3 {
            return t;
        }
        let mut tv = Vec::with_capacity(good.len());
        for &i in &good {
            match self.eval_in(i, t) {
                Some(x) => tv.push(x),
                None => return t,
            }
        }
        let mut cands: Vec<(Option<u32>, i128)> = vec![];
        if tv.iter().all(|x| *x == tv[0]) {
            cands.push((None, tv[0]));
        }
        for (hi, h) in st.hints.iter().copied().collect::<Vec<_>>().into_iter().enumerate() {
            let mut off = None;
            let mut ok = true;
            let mut distinct = false;
            let mut first = None;
            for (k, &i) in good.iter().enumerate() {
                match self.eval_in(i, h) {
                    Some(x) => {
                        let o = tv[k] - x;
                        if *off.get_or_insert(o) != o {
                            ok = false;
                            break;
                        }
                        if *first.get_or_insert(x) != x {
                            distinct = true;
                        }
                    }
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok && distinct {
                cands.push((Some(hi as u32), off.unwrap()));
            }
        }
        for (h, off) in cands {
            let u = match h {
                Some(i) => self.a.addc(st.hints[i as usize], off),
                None => self.a.c(off),
            };
            if u == t || self.sweep_fail.contains(&(t, u)) {
                continue;
            }
            let e = self.a.eq(t, u);
            let proved = match self.tri(st, e) {
                Some(b) => b,
                None => {
                    self.stats.sweep_tried += 1;
                    let ne = self.a.not(e);
                    let (r, m) = self.query(st, &[ne]);
                    match r {
                        Sat::Unsat => true,
                        Sat::Sat => {
                            if let Some(m) = m {
                                self.samples.push((m, Memo::default()));
                                let i = self.samples.len() - 1;
                                if !self.holds_in(i, &st.pc) {
                                    self.samples.pop();
                                }
                            }
                            false
                        }
                        Sat::Unknown => {
                            self.sweep_fail.insert((t, u));
                            false
                        }
                    }
                }
            };
            if proved {
                self.stats.swept += 1;
                st.decisions.push(D::E(cand, h, off));
                self.learn_eq(st, t, u);
                return u;
            }
        }
        t
    }
    fn learn_eq(&mut self, st: &mut State, t: Tid, u: Tid) {
        let e = self.a.eq(t, u);
        let mut f = (*st.facts).clone();
        if self.tri(st, e).is_none() {
            self.learn(&mut f, e, true, 0);
        }
        f.subst.insert(t, u);
        self.version += 1;
        f.version = self.version;
        st.facts = Rc::new(f);
    }

    // ------------------------------------------------------------ values

    fn sym_addr(&mut self, s: Sym) -> X<u64> {
        if let Some(a) = self.sym_cache.get(&s) {
            return Ok(*a);
        }
        let info = self.prog.info(s);
        self.sym_cache.insert(s, info.addr);
        match &info.kind {
            Kind::Func(..) | Kind::Extern => {
                self.addr_func.insert(info.addr, s);
            }
            Kind::Global(m, n) => {
                let (ty, init) = match self.prog.global_init(*m, n) {
                    Ok(x) => x,
                    Err(e) => return unsup(format!("global {}: {}", n, e)),
                };
                let mut data = vec![Cell::C(0); ty.size() as usize];
                if let Some(v) = init {
                    self.write_const(&ty, &v, 0, &mut data)?;
                }
                let kind = if info.constant { OKind::Const } else { OKind::Mut };
                self.globals.insert(info.addr, Rc::new(Obj { data, kind }));
            }
        }
        Ok(info.addr)
    }

    fn write_const(&mut self, ty: &Ty, v: &Op, off: usize, out: &mut Vec<Cell>) -> X<()> {
        match v {
            Op::Agg(items) => {
                for (i, (t, x)) in items.iter().enumerate() {
                    let o = off + ty.offset(i) as usize;
                    self.write_const(t, x, o, out)?;
                }
            }
            Op::Bytes(b) => {
                for (i, c) in b.iter().enumerate() {
                    out[off + i] = Cell::C(*c);
                }
            }
            Op::Zero | Op::Null => {
                for i in 0..ty.size() as usize {
                    out[off + i] = Cell::C(0);
                }
            }
            Op::Undef => {
                for i in 0..ty.size() as usize {
                    out[off + i] = Cell::U;
                }
            }
            _ => {
                let x = self.const_op(v, ty)?;
                let cells = self.to_cells(&x, ty)?;
                for (i, c) in cells.into_iter().enumerate() {
                    out[off + i] = c;
                }
            }
        }
        Ok(())
    }

    fn const_op(&mut self, v: &Op, ty: &Ty) -> X<Val> {
        Ok(match v {
            Op::Int(k) => match ty {
                Ty::Int(w) => Val::C(mask_u(*k, *w)),
                _ => Val::C(*k),
            },
            Op::F(f) => Val::F(*f),
            Op::Null => Val::C(0),
            Op::Undef => self.undef_of(ty),
            Op::Zero => self.zero_of(ty),
            Op::Sym(s) => Val::C(self.sym_addr(*s)? as i128),
            Op::Off(b, o) => match self.const_op(b, &Ty::Ptr)? {
                Val::C(x) => Val::C(mask_u(x + *o as i128, 64)),
                _ => return unsup("const offset"),
            },
            Op::Agg(items) => {
                let mut out = vec![];
                for (t, x) in items {
                    out.push(self.const_op(x, t)?);
                }
                Val::Agg(Rc::new(out))
            }
            Op::Bytes(b) => Val::Agg(Rc::new(b.iter().map(|c| Val::C(*c as i128)).collect())),
            Op::Bin(o, a, b, w) => {
                let t = Ty::Int(*w);
                match (self.const_op(a, &t)?, self.const_op(b, &t)?) {
                    (Val::C(x), Val::C(y)) => {
                        let r = match o {
                            BinOp::Add => x.wrapping_add(y),
                            BinOp::Sub => x.wrapping_sub(y),
                            BinOp::Mul => x.wrapping_mul(y),
                            _ => x ^ y,
                        };
                        Val::C(mask_u(r, *w))
                    }
                    _ => return unsup("const bin"),
                }
            }
            Op::Trunc(a, w) => match self.const_op(a, &Ty::Int(64))? {
                Val::C(x) => Val::C(mask_u(x, *w)),
                _ => return unsup("const trunc"),
            },
            Op::Reg(_) => return unsup("register in constant"),
        })
    }
    fn undef_of(&self, ty: &Ty) -> Val {
        match ty {
            Ty::Struct(f, _) => Val::Agg(Rc::new(f.iter().map(|t| self.undef_of(t)).collect())),
            Ty::Arr(n, t) => Val::Agg(Rc::new(vec![self.undef_of(t); *n as usize])),
            Ty::Vec(n, t) => Val::Agg(Rc::new(vec![self.undef_of(t); *n as usize])),
            _ => Val::Undef,
        }
    }
    fn zero_of(&self, ty: &Ty) -> Val {
        match ty {
            Ty::Struct(f, _) => Val::Agg(Rc::new(f.iter().map(|t| self.zero_of(t)).collect())),
            Ty::Arr(n, t) => Val::Agg(Rc::new(vec![self.zero_of(t); *n as usize])),
            Ty::Vec(n, t) => Val::Agg(Rc::new(vec![self.zero_of(t); *n as usize])),
            Ty::F64 | Ty::F32 => Val::F(0.0),
            _ => Val::C(0),
        }
    }

    fn val(&mut self, st: &State, o: &Op, ty: &Ty) -> X<Val> {
        match o {
            Op::Reg(r) => Ok(st.frames.last().unwrap().regs[*r as usize].clone()),
            Op::Int(k) => Ok(match ty {
                Ty::Int(w) => Val::C(mask_u(*k, *w)),
                _ => Val::C(*k),
            }),
            _ => self.const_op(o, ty),
        }
    }
    fn set(&mut self, st: &mut State, r: Reg, v: Val) {
        let v = if st.hints.is_empty() || self.nofork { v } else { self.sweep(st, v) };
        st.frames.last_mut().unwrap().regs[r as usize] = v;
    }

    /// Normalises a term into a value (concrete when the facts pin it).
    fn ival(&mut self, t: Tid, w: u32) -> Val {
        match self.a.as_const(t) {
            Some(c) => Val::C(mask_u(c, w)),
            None => Val::S(t),
        }
    }
    fn bval(&mut self, b: Tid) -> Val {
        match b {
            TRUE => Val::C(1),
            FALSE => Val::C(0),
            _ => Val::B(b),
        }
    }
    /// A term congruent to the value modulo 2^w.
    fn term(&mut self, v: &Val, w: u32) -> X<Tid> {
        match v {
            Val::C(c) => Ok(self.a.c(sext(*c, w))),
            Val::S(t) => Ok(*t),
            Val::B(b) => Ok(self.a.of_bool(*b)),
            Val::Undef => ub("use of uninitialised value"),
            Val::Opaque => Err(Stop::NeedFormat),
            Val::Raw(c) => {
                let c = c.clone();
                let t = self.cells_to_val(&c, &Ty::Int(c.len() as u32 * 8))?;
                match t {
                    Val::Raw(_) => ub("use of partly uninitialised value"),
                    t => self.term(&t, w),
                }
            }
            Val::F(_) | Val::R(_) | Val::Agg(_) => unsup("integer expected"),
        }
    }
    fn signed(&mut self, st: &State, v: &Val, w: u32) -> X<Tid> {
        let t = self.term(v, w)?;
        let r = self.range(st, t);
        if r.0 >= -p2(w - 1) && r.1 < p2(w - 1) {
            return Ok(t);
        }
        if w > 120 {
            return unsup("wide integer");
        }
        let h = self.a.addc(t, p2(w - 1));
        let q = self.a.div(h, p2(w));
        match self.a.lin2(t, 1, q, -p2(w), 0) {
            Some(x) => Ok(x),
            None => unsup("coefficient overflow"),
        }
    }
    fn unsigned(&mut self, st: &State, v: &Val, w: u32) -> X<Tid> {
        if let Val::C(c) = v {
            return Ok(self.a.c(mask_u(*c, w)));
        }
        let t = self.term(v, w)?;
        let r = self.range(st, t);
        if r.0 >= 0 && r.1 < p2(w) {
            return Ok(t);
        }
        if w > 120 {
            return unsup("wide integer");
        }
        let q = self.a.div(t, p2(w));
        match self.a.lin2(t, 1, q, -p2(w), 0) {
            Some(x) => Ok(x),
            None => unsup("coefficient overflow"),
        }
    }
    fn boolean(&mut self, st: &State, v: &Val) -> X<Tid> {
        let _ = st;
        match v {
            Val::C(c) => Ok(if c & 1 == 1 { TRUE } else { FALSE }),
            Val::B(b) => Ok(*b),
            Val::S(t) => {
                let m = self.a.modk(*t, 2);
                Ok(self.a.ne_c(m, 0))
            }
            Val::Undef => ub("branch on uninitialised value"),
            Val::Opaque => Err(Stop::NeedFormat),
            Val::Raw(_) => ub("branch on uninitialised value"),
            _ => unsup("boolean expected"),
        }
    }
    fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> X<u64> {
        match v {
            Val::C(c) => Ok(*c as u64),
            _ => {
                let t = self.unsigned(st, v, w)?;
                Ok(self.concretize(st, t)? as u64)
            }
        }
    }

    // ------------------------------------------------------------ memory

    fn to_cells(&mut self, v: &Val, ty: &Ty) -> X<Vec<Cell>> {
        let n = ty.size() as usize;
        Ok(match v {
            Val::C(c) => {
                let b = c.to_le_bytes();
                (0..n).map(|i| Cell::C(if i < 16 { b[i] } else { 0 })).collect()
            }
            Val::S(t) => (0..n).map(|i| Cell::S(*t, i as u8, n as u8)).collect(),
            Val::B(b) => {
                let t = self.a.of_bool(*b);
                (0..n).map(|i| Cell::S(t, i as u8, n as u8)).collect()
            }
            Val::F(f) => {
                if *ty == Ty::F32 {
                    (*f as f32).to_bits().to_le_bytes().iter().map(|b| Cell::C(*b)).collect()
                } else {
                    f.to_bits().to_le_bytes().iter().map(|b| Cell::C(*b)).collect()
                }
            }
            Val::R(t) => (0..8).map(|i| Cell::R(*t, i as u8)).collect(),
            Val::Undef => vec![Cell::U; n],
            Val::Opaque => vec![Cell::O; n],
            Val::Raw(c) => {
                let mut c = (**c).clone();
                c.resize(n, Cell::U);
                c
            }
            Val::Agg(items) => {
                let mut out = vec![Cell::U; n];
                if let Ty::Vec(_, e) = ty {
                    if let Ty::Int(w) = **e {
                        if w % 8 != 0 {
                            return unsup("vector of odd ints in memory");
                        }
                    }
                }
                for (i, x) in items.iter().enumerate() {
                    let t = ty.field(i);
                    let o = ty.offset(i) as usize;
                    for (k, c) in self.to_cells(x, &t)?.into_iter().enumerate() {
                        out[o + k] = c;
                    }
                }
                out
            }
        })
    }

    fn cells_to_val(&mut self, cells: &[Cell], ty: &Ty) -> X<Val> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let n = match ty {
                    Ty::Struct(f, _) => f.len(),
                    Ty::Arr(n, _) => *n as usize,
                    Ty::Vec(n, t) => {
                        if let Ty::Int(w) = **t {
                            if w % 8 != 0 {
                                return unsup("vector of odd ints in memory");
                            }
                        }
                        *n as usize
                    }
                    _ => 0,
                };
                let mut out = vec![];
                for i in 0..n {
                    let t = ty.field(i);
                    let o = ty.offset(i) as usize;
                    let s = t.size() as usize;
                    out.push(self.cells_to_val(&cells[o..o + s], &t)?);
                }
                return Ok(Val::Agg(Rc::new(out)));
            }
            _ => {}
        }
        let n = cells.len();
        let mut all_c = true;
        let mut any_u = false;
        let mut all_u = true;
        let mut any_o = false;
        for c in cells {
            match c {
                Cell::C(_) => all_u = false,
                Cell::U => {
                    any_u = true;
                    all_c = false;
                }
                Cell::O => {
                    any_o = true;
                    all_c = false;
                    all_u = false
                }
                _ => {
                    all_c = false;
                    all_u = false;
                }
            }
        }
        if all_c {
            let mut v: u128 = 0;
            for (i, c) in cells.iter().enumerate() {
                if let Cell::C(b) = c {
                    if i < 16 {
                        v |= (*b as u128) << (8 * i);
                    }
                }
            }
            return Ok(match ty {
                Ty::F64 => Val::F(f64::from_bits(v as u64)),
                Ty::F32 => Val::F(f32::from_bits(v as u32) as f64),
                Ty::Int(w) => Val::C(mask_u(v as i128, *w)),
                _ => Val::C(v as i128),
            });
        }
        if any_o {
            return Ok(Val::Opaque);
        }
        if all_u {
            return Ok(Val::Undef);
        }
        if any_u {
            return Ok(Val::Raw(Rc::new(cells.to_vec())));
        }
        // one whole symbolic value
        if let Cell::S(t, 0, m) = cells[0] {
            if m as usize == n
                && cells.iter().enumerate().all(|(i, c)| *c == Cell::S(t, i as u8, m))
            {
                return match ty {
                    Ty::F64 => unsup("integer bits as double"),
                    Ty::Int(1) => {
                        let m = self.a.modk(t, 2);
                        let b = self.a.ne_c(m, 0);
                        Ok(self.bval(b))
                    }
                    _ => Ok(Val::S(t)),
                };
            }
        }
        if let Cell::R(t, 0) = cells[0] {
            if n == 8 && cells.iter().enumerate().all(|(i, c)| *c == Cell::R(t, i as u8)) {
                return Ok(Val::R(t));
            }
        }
        // assemble byte by byte
        let mut acc = self.a.c(0);
        for (i, c) in cells.iter().enumerate() {
            let b = match *c {
                Cell::C(b) => self.a.c(b as i128),
                Cell::S(t, k, _) => {
                    let d = self.a.div(t, p2(8 * k as u32));
                    self.a.modk(d, 256)
                }
                _ => return unsup("bits of a symbolic double"),
            };
            acc = match self.a.lin2(acc, 1, b, p2(8 * i as u32), 0) {
                Some(x) => x,
                None => return unsup("assemble"),
            };
        }
        match ty {
            Ty::F64 | Ty::F32 => unsup("assembled double"),
            Ty::Int(w) => Ok(self.ival(acc, *w)),
            _ => Ok(self.ival(acc, 64)),
        }
    }

    fn find(&self, st: &State, addr: u64, n: u64) -> X<(u64, Rc<Obj>)> {
        let a = st.mem.range(..=addr).next_back();
        if let Some((b, o)) = a {
            if addr + n <= b + o.data.len() as u64 {
                return Ok((*b, o.clone()));
            }
        }
        let g = self.globals.range(..=addr).next_back();
        if let Some((b, o)) = g {
            if addr + n <= b + o.data.len() as u64 {
                return Ok((*b, o.clone()));
            }
        }
        ub(format!("out-of-bounds access of {} bytes at {:#x}", n, addr))
    }
    pub fn read(&mut self, st: &State, addr: u64, n: u64) -> X<Vec<Cell>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (b, o) = self.find(st, addr, n)?;
        let s = (addr - b) as usize;
        Ok(o.data[s..s + n as usize].to_vec())
    }
    fn write(&mut self, st: &mut State, addr: u64, cells: &[Cell]) -> X<()> {
        if cells.is_empty() {
            return Ok(());
        }
        let n = cells.len() as u64;
        let key = match st.mem.range(..=addr).next_back() {
            Some((b, o)) if addr + n <= b + o.data.len() as u64 => *b,
            _ => {
                let (b, o) = self.find(st, addr, n)?;
                if o.kind == OKind::Const {
                    return ub("write to constant memory");
                }
                st.mem.insert(b, o);
                b
            }
        };
        let o = st.mem.get_mut(&key).unwrap();
        let o = Rc::make_mut(o);
        let s = (addr - key) as usize;
        o.data[s..s + cells.len()].copy_from_slice(cells);
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: OKind, init: Cell) -> u64 {
        let al = align.max(16);
        let a = (st.next + al - 1) / al * al;
        st.next = a + size + 16;
        st.mem.insert(a, Rc::new(Obj { data: vec![init; size as usize], kind }));
        a
    }
    fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> X<Val> {
        let c = self.read(st, addr, ty.size())?;
        self.cells_to_val(&c, ty)
    }
    fn store(&mut self, st: &mut State, addr: u64, v: &Val, ty: &Ty) -> X<()> {
        let c = self.to_cells(v, ty)?;
        self.write(st, addr, &c)
    }
    pub fn read_str(&mut self, st: &State, addr: u64, n: u64) -> String {
        match self.read(st, addr, n) {
            Ok(c) => c
                .iter()
                .map(|x| match x {
                    Cell::C(b) => *b as char,
                    _ => '?',
                })
                .collect(),
            Err(_) => "<unreadable>".into(),
        }
    }

    // ------------------------------------------------------------ ints

    fn bin(&mut self, st: &mut State, op: BinOp, w: u32, x: &Val, y: &Val) -> X<Val> {
        if let (Val::C(a), Val::C(b)) = (x, y) {
            return self.bin_c(op, w, *a, *b);
        }
        match (x, y) {
            (Val::Opaque, _) | (_, Val::Opaque) => return Err(Stop::NeedFormat),
            (Val::Undef, _) | (_, Val::Undef) => return Ok(Val::Undef),
            _ => {}
        }
        if w == 1 {
            let (a, b) = (self.boolean(st, x)?, self.boolean(st, y)?);
            let r = match op {
                BinOp::And | BinOp::Mul => self.a.and(a, b),
                BinOp::Or => self.a.or(a, b),
                BinOp::Xor | BinOp::Add | BinOp::Sub => {
                    let e = self.a.iff(a, b);
                    self.a.not(e)
                }
                _ => return unsup("i1 arithmetic"),
            };
            return Ok(self.bval(r));
        }
        let lim = 1i128 << 100;
        match op {
            BinOp::Add | BinOp::Sub | BinOp::Mul => {
                for attempt in 0..2 {
                    let (a, b) = if attempt == 0 {
                        (self.term(x, w)?, self.term(y, w)?)
                    } else {
                        (self.signed(st, x, w)?, self.signed(st, y, w)?)
                    };
                    let r = match op {
                        BinOp::Add => self.a.lin2(a, 1, b, 1, 0),
                        BinOp::Sub => self.a.lin2(a, 1, b, -1, 0),
                        _ => {
                            if let Some(k) = self.a.as_const(a) {
                                let z = self.a.c(0);
                                self.a.lin2(b, k, z, 0, 0)
                            } else if let Some(k) = self.a.as_const(b) {
                                let z = self.a.c(0);
                                self.a.lin2(a, k, z, 0, 0)
                            } else {
                                // small-range operand: enumerate it
                                let (ra, rb) = (self.range(st, a), self.range(st, b));
                                if rb.1 - rb.0 <= 64 {
                                    let k = self.concretize(st, b)?;
                                    let z = self.a.c(0);
                                    self.a.lin2(a, k, z, 0, 0)
                                } else if ra.1 - ra.0 <= 64 {
                                    let k = self.concretize(st, a)?;
                                    let z = self.a.c(0);
                                    self.a.lin2(b, k, z, 0, 0)
                                } else {
                                    let (a, b) =
                                        (self.signed(st, x, w)?, self.signed(st, y, w)?);
                                    Some(self.a.mul(a, b))
                                }
                            }
                        }
                    };
                    if let Some(r) = r {
                        let rg = self.range(st, r);
                        if (rg.0 > -lim && rg.1 < lim) || attempt == 1 {
                            return Ok(self.ival(r, w));
                        }
                    }
                }
                unsup("arithmetic coefficient overflow")
            }
            BinOp::UDiv | BinOp::URem => {
                let b = match y {
                    Val::C(b) => *b,
                    _ => {
                        let t = self.unsigned(st, y, w)?;
                        self.concretize(st, t)?
                    }
                };
                if b == 0 {
                    return ub("division by zero");
                }
                let a = self.unsigned(st, x, w)?;
                let q = self.a.div(a, b);
                let r = if op == BinOp::UDiv {
                    q
                } else {
                    match self.a.lin2(a, 1, q, -b, 0) {
                        Some(r) => r,
                        None => return unsup("urem"),
                    }
                };
                Ok(self.ival(r, w))
            }
            BinOp::FRem => {
                let b = match y {
                    Val::C(b) => sext(*b, w),
                    _ => return unsup("frem"),
                };
                let a = self.signed(st, x, w)?;
                let r = self.a.modk(a, b);
                Ok(self.ival(r, w))
            }
            BinOp::SDiv | BinOp::SRem => {
                let b = match y {
                    Val::C(b) => sext(*b, w),
                    _ => {
                        let t = self.signed(st, y, w)?;
                        self.concretize(st, t)?
                    }
                };
                if b == 0 {
                    return ub("division by zero");
                }
                let a = self.signed(st, x, w)?;
                let q = self.tdiv(st, a, b)?;
                let r = if op == BinOp::SDiv {
                    q
                } else {
                    match self.a.lin2(a, 1, q, -b, 0) {
                        Some(r) => r,
                        None => return unsup("srem"),
                    }
                };
                Ok(self.ival(r, w))
            }
            BinOp::Shl | BinOp::LShr | BinOp::AShr => {
                let k = match y {
                    Val::C(b) => *b as u32,
                    _ => {
                        let t = self.unsigned(st, y, w)?;
                        self.concretize(st, t)? as u32
                    }
                };
                if k >= w {
                    return Ok(Val::Undef);
                }
                if k == 0 {
                    return Ok(x.clone());
                }
                match op {
                    BinOp::Shl => {
                        let a = self.term(x, w)?;
                        let z = self.a.c(0);
                        match self.a.lin2(a, p2(k), z, 0, 0) {
                            Some(r) => {
                                let rg = self.range(st, r);
                                if rg.0 > -lim && rg.1 < lim {
                                    return Ok(self.ival(r, w));
                                }
                                let m = self.a.modk(a, p2(w - k));
                                let r = self.a.mulc(m, p2(k));
                                Ok(self.ival(r, w))
                            }
                            None => unsup("shl"),
                        }
                    }
                    BinOp::LShr => {
                        let a = self.unsigned(st, x, w)?;
                        let r = self.a.div(a, p2(k));
                        Ok(self.ival(r, w))
                    }
                    _ => {
                        let a = self.signed(st, x, w)?;
                        let r = self.a.div(a, p2(k));
                        Ok(self.ival(r, w))
                    }
                }
            }
            BinOp::And | BinOp::Or | BinOp::Xor => self.bitop(st, op, w, x, y),
        }
    }

    /// truncating division by a constant
    fn tdiv(&mut self, st: &mut State, a: Tid, b: i128) -> X<Tid> {
        if b < 0 {
            let q = self.tdiv(st, a, -b)?;
            return Ok(self.a.mulc(q, -1));
        }
        if b == 1 {
            return Ok(a);
        }
        let c = self.a.ge_c(a, 0);
        if self.branch(st, c)? {
            Ok(self.a.div(a, b))
        } else {
            let n = self.a.mulc(a, -1);
            let q = self.a.div(n, b);
            Ok(self.a.mulc(q, -1))
        }
    }

    /// Forks on a conditional atom inside a term (makes bit tricks linear).
    fn split_ites(&mut self, st: &mut State, t: Tid) -> X<Tid> {
        let mut t = t;
        loop {
            let (c, v) = self.a.parts(t);
            let mut done = true;
            for (i, &(x, k)) in v.iter().enumerate() {
                if let Node::Ite(cnd, p, q) = *self.a.node(x) {
                    let b = self.branch(st, cnd)?;
                    let mut rest = v.clone();
                    rest.remove(i);
                    let r = self.a.mk_lin(c, rest);
                    let pick = if b { p } else { q };
                    t = match self.a.lin2(r, 1, pick, k, 0) {
                        Some(t) => t,
                        None => return unsup("split"),
                    };
                    done = false;
                    break;
                }
            }
            if done {
                return Ok(t);
            }
        }
    }

    fn and_mask(&mut self, st: &State, t: Tid, mask: i128, w: u32) -> X<Tid> {
        // t in [0, 2^w)
        let r = self.range(st, t);
        let mut acc = self.a.c(0);
        let mut i = 0;
        while i < w {
            if (mask >> i) & 1 == 0 {
                i += 1;
                continue;
            }
            let mut j = i;
            while j < w && (mask >> j) & 1 == 1 {
                j += 1;
            }
            // bits [i,j)
            let d = self.a.div(t, p2(i));
            let part = if j >= w || r.1 < p2(j) { d } else { self.a.modk(d, p2(j - i)) };
            acc = match self.a.lin2(acc, 1, part, p2(i), 0) {
                Some(x) => x,
                None => return unsup("mask"),
            };
            i = j;
        }
        Ok(acc)
    }

    fn bitop(&mut self, st: &mut State, op: BinOp, w: u32, x: &Val, y: &Val) -> X<Val> {
        let (x, y) = if let Val::C(_) = x { (y, x) } else { (x, y) };
        let a = self.unsigned(st, x, w)?;
        if let Val::C(m) = y {
            let m = mask_u(*m, w);
            if m == 0 {
                return Ok(match op {
                    BinOp::And => Val::C(0),
                    _ => x.clone(),
                });
            }
            let full = mask_u(-1, w);
            if m == full {
                return Ok(match op {
                    BinOp::And => x.clone(),
                    BinOp::Or => Val::C(full),
                    _ => {
                        // not x = -1 - x
                        let t = self.term(x, w)?;
                        let z = self.a.c(0);
                        let r = self.a.lin2(t, -1, z, 0, -1).unwrap();
                        self.ival(r, w)
                    }
                });
            }
            let a = self.split_ites(st, a)?;
            let an = self.and_mask(st, a, m, w)?;
            let r = match op {
                BinOp::And => an,
                BinOp::Or => self.a.lin2(a, 1, an, -1, m).unwrap(),
                _ => self.a.lin2(a, 1, an, -2, m).unwrap(),
            };
            return Ok(self.ival(r, w));
        }
        let b = self.unsigned(st, y, w)?;
        if a == b {
            return Ok(match op {
                BinOp::Xor => Val::C(0),
                _ => x.clone(),
            });
        }
        // disjoint bit ranges
        for (p, q) in [(a, b), (b, a)] {
            let rp = self.range(st, p);
            if rp.0 >= 0 {
                let k = 128 - (rp.1.max(0) as u128).leading_zeros();
                let (c, v) = self.a.parts(q);
                let m = p2(k.min(126));
                if c % m == 0 && v.iter().all(|z| z.1 % m == 0) {
                    return Ok(match op {
                        BinOp::And => Val::C(0),
                        _ => {
                            let r = self.a.add(a, b);
                            self.ival(r, w)
                        }
                    });
                }
            }
        }
        let a2 = self.split_ites(st, a)?;
        let b2 = self.split_ites(st, b)?;
        if a2 != a || b2 != b {
            let (va, vb) = (self.ival(a2, w), self.ival(b2, w));
            if let (Val::C(p), Val::C(q)) = (&va, &vb) {
                return self.bin_c(op, w, *p, *q);
            }
            return self.bitop(st, op, w, &va, &vb);
        }
        // bit by bit
        let (ra, rb) = (self.range(st, a), self.range(st, b));
        let bits = 128 - (ra.1.max(rb.1) as u128).leading_zeros();
        let and_bits = 128 - (ra.1.min(rb.1) as u128).leading_zeros();
        let _ = bits;
        let mut acc = self.a.c(0);
        for i in 0..and_bits.min(w) {
            let da = self.a.div(a, p2(i));
            let ba = self.a.modk(da, 2);
            let db = self.a.div(b, p2(i));
            let bb = self.a.modk(db, 2);
            let (ca, cb) = (self.a.ne_c(ba, 0), self.a.ne_c(bb, 0));
            let c = self.a.and(ca, cb);
            let t = self.a.of_bool(c);
            acc = match self.a.lin2(acc, 1, t, p2(i), 0) {
                Some(x) => x,
                None => return unsup("bit expansion"),
            };
        }
        let s = self.a.add(a, b);
        let r = match op {
            BinOp::And => acc,
            BinOp::Or => self.a.lin2(s, 1, acc, -1, 0).unwrap(),
            _ => self.a.lin2(s, 1, acc, -2, 0).unwrap(),
        };
        Ok(self.ival(r, w))
    }

    fn bin_c(&mut self, op: BinOp, w: u32, a: i128, b: i128) -> X<Val> {
        let (sa, sb) = (sext(a, w), sext(b, w));
        let r = match op {
            BinOp::Add => a.wrapping_add(b),
            BinOp::Sub => a.wrapping_sub(b),
            BinOp::Mul => a.wrapping_mul(b),
            BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if b == 0 => {
                return ub("division by zero")
            }
            BinOp::UDiv => ((a as u128) / (b as u128)) as i128,
            BinOp::URem => ((a as u128) % (b as u128)) as i128,
            BinOp::SDiv => sa.wrapping_div(sb),
            BinOp::SRem => sa.wrapping_rem(sb),
            BinOp::FRem => sa.rem_euclid(sb),
            BinOp::Shl | BinOp::LShr | BinOp::AShr if b as u128 >= w as u128 => {
                return Ok(Val::Undef)
            }
            BinOp::Shl => a.wrapping_shl(b as u32),
            BinOp::LShr => ((a as u128) >> b) as i128,
            BinOp::AShr => sa >> b,
            BinOp::And => a & b,
            BinOp::Or => a | b,
            BinOp::Xor => a ^ b,
        };
        Ok(Val::C(mask_u(r, w)))
    }

    fn icmp(&mut self, st: &mut State, p: Pred, w: u32, x: &Val, y: &Val) -> X<Val> {
        if let (Val::C(a), Val::C(b)) = (x, y) {
            let (sa, sb) = (sext(*a, w), sext(*b, w));
            let (ua, ub_) = (mask_u(*a, w) as u128, mask_u(*b, w) as u128);
            let r = match p {
                Pred::Eq => ua == ub_,
                Pred::Ne => ua != ub_,
                Pred::Ult => ua < ub_,
                Pred::Ule => ua <= ub_,
                Pred::Ugt => ua > ub_,
                Pred::Uge => ua >= ub_,
                Pred::Slt => sa < sb,
                Pred::Sle => sa <= sb,
                Pred::Sgt => sa > sb,
                Pred::Sge => sa >= sb,
            };
            return Ok(Val::C(r as i128));
        }
        match (x, y) {
            (Val::Opaque, _) | (_, Val::Opaque) => return Err(Stop::NeedFormat),
            (Val::Undef, _) | (_, Val::Undef) => return Ok(Val::Undef),
            _ => {}
        }
        if w == 1 {
            let (a, b) = (self.boolean(st, x)?, self.boolean(st, y)?);
            let (na, nb) = (self.a.not(a), self.a.not(b));
            let r = match p {
                Pred::Eq => self.a.iff(a, b),
                Pred::Ne => self.a.iff(a, nb),
                Pred::Ult | Pred::Sgt => self.a.and(na, b),
                Pred::Ule | Pred::Sge => self.a.or(na, b),
                Pred::Ugt | Pred::Slt => self.a.and(a, nb),
                Pred::Uge | Pred::Sle => self.a.or(a, nb),
            };
            return Ok(self.bval(r));
        }
        let r = match p {
            Pred::Eq | Pred::Ne => {
                let e = self.eqv(st, w, x, y)?;
                if p == Pred::Eq {
                    e
                } else {
                    self.a.not(e)
                }
            }
            Pred::Slt | Pred::Sle | Pred::Sgt | Pred::Sge => {
                let (a, b) = (self.signed(st, x, w)?, self.signed(st, y, w)?);
                match p {
                    Pred::Slt => self.a.lt(a, b),
                    Pred::Sle => self.a.le(a, b),
                    Pred::Sgt => self.a.lt(b, a),
                    _ => self.a.le(b, a),
                }
            }
            _ => self.ucmp(st, p, w, x, y)?,
        };
        Ok(match self.tri(st, r) {
            Some(b) => Val::C(b as i128),
            None => self.bval(r),
        })
    }

    fn eqv(&mut self, st: &State, w: u32, x: &Val, y: &Val) -> X<Tid> {
        let (a, b) = (self.term(x, w)?, self.term(y, w)?);
        let d = match self.a.lin2(a, 1, b, -1, 0) {
            Some(d) => d,
            None => return unsup("eq"),
        };
        let r = self.range(st, d);
        let m = p2(w);
        let klo = if r.0 <= -INF { -INF } else { -((-r.0).div_euclid(m)) };
        let khi = if r.1 >= INF { INF } else { r.1.div_euclid(m) };
        if klo > -INF && khi < INF && khi - klo <= 3 {
            let mut ors = vec![];
            let mut k = klo;
            while k <= khi {
                ors.push(self.a.eq_c(d, k * m));
                k += 1;
            }
            return Ok(self.a.orn(&ors));
        }
        let z = self.a.modk(d, m);
        Ok(self.a.eq_c(z, 0))
    }

    fn ucmp(&mut self, st: &mut State, p: Pred, w: u32, x: &Val, y: &Val) -> X<Tid> {
        // normalise to a < b or a <= b
        let (x, y, strict) = match p {
            Pred::Ult => (x, y, true),
            Pred::Ule => (x, y, false),
            Pred::Ugt => (y, x, true),
            _ => (y, x, false),
        };
        let m = p2(w);
        // x ? const
        if let Val::C(k) = y {
            let k = mask_u(*k, w);
            let k = if strict { k - 1 } else { k }; // x <= k
            let t = self.term(x, w)?;
            let r = self.range(st, t);
            if r.0 >= -m && r.1 < m {
                let nonneg = self.a.ge_c(t, 0);
                let le = self.a.le_c(t, k);
                let c1 = self.a.and(nonneg, le);
                let le2 = self.a.le_c(t, k - m);
                let c2 = if r.0 > k - m { FALSE } else { le2 };
                return Ok(self.a.or(c1, c2));
            }
        }
        if let Val::C(k) = x {
            let k = mask_u(*k, w);
            let k = if strict { k + 1 } else { k }; // k <= y
            let t = self.term(y, w)?;
            let r = self.range(st, t);
            if r.0 >= -m && r.1 < m {
                let ge = self.a.ge_c(t, k);
                let neg = self.a.le_c(t, -1);
                let ge2 = self.a.ge_c(t, k - m);
                let c2 = self.a.and(neg, ge2);
                return Ok(self.a.or(ge, c2));
            }
        }
        let (a, b) = (self.unsigned(st, x, w)?, self.unsigned(st, y, w)?);
        Ok(if strict { self.a.lt(a, b) } else { self.a.le(a, b) })
    }

    fn cast(&mut self, st: &mut State, c: Cast, from: &Ty, to: &Ty, v: Val) -> X<Val> {
        match &v {
            Val::Undef => return Ok(Val::Undef),
            Val::Opaque => return Ok(Val::Opaque),
            _ => {}
        }
        if let (Ty::Vec(n, ft), Ty::Vec(n2, tt)) = (from, to) {
            if n == n2 && c != Cast::Bitcast {
                if let Val::Agg(items) = &v {
                    let mut out = vec![];
                    for i in items.iter() {
                        out.push(self.cast(st, c, ft, tt, i.clone())?);
                    }
                    return Ok(Val::Agg(Rc::new(out)));
                }
            }
        }
        let (fw, tw) = (from.bits(), to.bits());
        match c {
            Cast::Trunc => match &v {
                Val::C(k) => Ok(Val::C(mask_u(*k, tw))),
                Val::B(_) => Ok(v),
                Val::S(t) => {
                    if tw == 1 {
                        // common: 0/1 valued
                        let r = self.range(st, *t);
                        let b = if r.0 >= 0 && r.1 <= 1 {
                            self.a.ne_c(*t, 0)
                        } else {
                            let m = self.a.modk(*t, 2);
                            self.a.ne_c(m, 0)
                        };
                        Ok(self.bval(b))
                    } else {
                        Ok(v)
                    }
                }
                Val::Raw(cells) => {
                    let n = (tw / 8) as usize;
                    let part = cells[..n.min(cells.len())].to_vec();
                    self.cells_to_val(&part, to)
                }
                _ => unsup("trunc"),
            },
            Cast::ZExt => match &v {
                Val::C(k) => Ok(Val::C(mask_u(*k, fw))),
                Val::B(b) => {
                    let t = self.a.of_bool(*b);
                    Ok(self.ival(t, tw))
                }
                Val::Raw(_) => Ok(Val::Undef),
                _ => {
                    let t = self.unsigned(st, &v, fw)?;
                    Ok(self.ival(t, tw))
                }
            },
            Cast::SExt => match &v {
                Val::C(k) => Ok(Val::C(mask_u(sext(*k, fw), tw))),
                Val::B(b) => {
                    let (m, z) = (self.a.c(-1), self.a.c(0));
                    let t = self.a.ite(*b, m, z);
                    Ok(self.ival(t, tw))
                }
                Val::Raw(_) => Ok(Val::Undef),
                _ => {
                    let t = self.signed(st, &v, fw)?;
                    Ok(self.ival(t, tw))
                }
            },
            Cast::PtrToInt | Cast::IntToPtr => {
                if fw > tw {
                    if let Val::C(k) = v {
                        return Ok(Val::C(mask_u(k, tw)));
                    }
                }
                Ok(v)
            }
            Cast::Bitcast => {
                if from == to {
                    return Ok(v);
                }
                let cells = match (from, to) {
                    (Ty::Vec(n, e), Ty::Int(w)) if **e == Ty::Int(1) && n == w => {
                        // mask bits
                        if let Val::Agg(items) = &v {
                            let mut acc = self.a.c(0);
                            for (i, x) in items.iter().enumerate() {
                                let b = self.boolean(st, x)?;
                                let t = self.a.of_bool(b);
                                acc = self.a.lin2(acc, 1, t, p2(i as u32), 0).unwrap();
                            }
                            return Ok(self.ival(acc, *w));
                        }
                        return unsup("bitcast mask");
                    }
                    _ => self.to_cells(&v, from)?,
                };
                self.cells_to_val(&cells, to)
            }
            Cast::SiToFp | Cast::UiToFp => match &v {
                Val::C(k) => {
                    let k = if c == Cast::SiToFp { sext(*k, fw) } else { mask_u(*k, fw) };
                    Ok(Val::F(if *to == Ty::F32 { k as f32 as f64 } else { k as f64 }))
                }
                _ => {
                    let t = if c == Cast::SiToFp {
                        self.signed(st, &v, fw)?
                    } else {
                        self.unsigned(st, &v, fw)?
                    };
                    let e = self.a.of_int(t);
                    self.rnd(st, Some(e), *to == Ty::F32)
                }
            },
            Cast::FpToSi | Cast::FpToUi => match &v {
                Val::F(f) => Ok(Val::C(mask_u(*f as i128, tw))),
                _ => unsup("fptosi"),
            },
            Cast::FpTrunc => match &v {
                Val::F(f) => Ok(Val::F(*f as f32 as f64)),
                Val::R(e) => self.rnd(st, Some(*e), true),
                Val::Undef => Ok(Val::Undef),
                _ => unsup("fptrunc"),
            },
            Cast::FpExt => Ok(v),
        }
    }

    // ------------------------------------------------------------ floats

    fn rnd(&mut self, st: &State, e: Option<Tid>, f32_: bool) -> X<Val> {
        let e = match e {
            Some(e) => e,
            None => return unsup("rational overflow"),
        };
        let f = st.facts.clone();
        match self.a.round(e, if f32_ { 24 } else { 53 }, &*f) {
            Some(r) => match self.a.as_rconst(r) {
                Some(c) => Ok(Val::F(c.to_f64().unwrap_or(f64::NAN))),
                None => Ok(Val::R(r)),
            },
            None => unsup("rounding"),
        }
    }
    fn real(&mut self, v: &Val) -> X<Tid> {
        match v {
            Val::R(t) => Ok(*t),
            Val::F(f) => match Rat::from_f64(*f) {
                Some(r) => Ok(self.a.rconst(r)),
                None => unsup(format!("double constant {}", f)),
            },
            Val::Undef => ub("use of uninitialised double"),
            _ => unsup("double expected"),
        }
    }
    fn fbin(&mut self, st: &mut State, op: FOp, x: &Val, y: &Val, f32_: bool) -> X<Val> {
        if let (Val::F(a), Val::F(b)) = (x, y) {
            let r = match op {
                FOp::Add => a + b,
                FOp::Sub => a - b,
                FOp::Mul => a * b,
                FOp::Div => a / b,
                FOp::Rem => a % b,
            };
            return Ok(Val::F(if f32_ { r as f32 as f64 } else { r }));
        }
        // special constants
        for (i, v) in [x, y].iter().enumerate() {
            if let Val::F(f) = v {
                if f.is_nan() {
                    return Ok(Val::F(f64::NAN));
                }
                if f.is_infinite() {
                    let other = if i == 0 { y } else { x };
                    return match op {
                        FOp::Add => Ok(Val::F(*f)),
                        FOp::Sub => Ok(Val::F(if i == 0 { *f } else { -*f })),
                        FOp::Mul => {
                            let r = self.real(other)?;
                            let z = self.a.req0(r);
                            if self.branch(st, z)? {
                                return Ok(Val::F(f64::NAN));
                            }
                            let n = self.a.rlt0(r);
                            Ok(Val::F(if self.branch(st, n)? { -*f } else { *f }))
                        }
                        FOp::Div if i == 1 => Ok(Val::F(0.0)),
                        _ => unsup("infinite operand"),
                    };
                }
            }
        }
        let (a, b) = (self.real(x)?, self.real(y)?);
        let one = Rat::int(1);
        let e = match op {
            FOp::Add => self.a.radd2(a, one, b, one),
            FOp::Sub => self.a.radd2(a, one, b, Rat::int(-1)),
            FOp::Mul => {
                if let Some(k) = self.a.as_rconst(a) {
                    self.a.rscale(b, k)
                } else if let Some(k) = self.a.as_rconst(b) {
                    self.a.rscale(a, k)
                } else {
                    let m = self.a.intern(Node::RMul(a.min(b), a.max(b)));
                    Some(self.a.mk_rlin(Rat::ZERO, vec![(m, one)]))
                }
            }
            FOp::Div => {
                if let Some(k) = self.a.as_rconst(b) {
                    if k.n == 0 {
                        // x / 0
                        let z = self.a.req0(a);
                        if self.branch(st, z)? {
                            return Ok(Val::F(f64::NAN));
                        }
                        let n = self.a.rlt0(a);
                        let neg = self.branch(st, n)?;
                        let zneg = matches!(y, Val::F(f) if f.is_sign_negative());
                        return Ok(Val::F(if neg != zneg {
                            f64::NEG_INFINITY
                        } else {
                            f64::INFINITY
                        }));
                    }
                    k.inv().and_then(|i| self.a.rscale(a, i))
                } else {
                    let z = self.a.req0(b);
                    if self.branch(st, z)? {
                        return unsup("division by symbolic zero");
                    }
                    let m = self.a.intern(Node::RDiv(a, b));
                    Some(self.a.mk_rlin(Rat::ZERO, vec![(m, one)]))
                }
            }
            FOp::Rem => {
                // x - y * trunc(x / y), which is a double
                let k = match self.a.as_rconst(b) {
                    Some(k) if k.n != 0 => k,
                    Some(_) => return Ok(Val::F(f64::NAN)),
                    None => return unsup("frem"),
                };
                let q = match k.inv().and_then(|i| self.a.rscale(a, i)) {
                    Some(q) => q,
                    None => return unsup("frem"),
                };
                let t = self.rtrunc(st, q)?;
                let t = self.a.of_int(t);
                let r = self.a.rscale(t, k).and_then(|m| self.a.radd2(a, one, m, Rat::int(-1)));
                return match r {
                    Some(r) => Ok(match self.a.as_rconst(r) {
                        Some(c) => Val::F(c.to_f64().unwrap_or(f64::NAN)),
                        None => Val::R(r),
                    }),
                    None => unsup("frem"),
                };
            }
        };
        self.rnd(st, e, f32_)
    }
    fn fcmp(&mut self, st: &mut State, p: &str, x: &Val, y: &Val) -> X<Val> {
        if let (Val::F(a), Val::F(b)) = (x, y) {
            let un = a.is_nan() || b.is_nan();
            let r = match p {
                "oeq" => a == b,
                "ogt" => a > b,
                "oge" => a >= b,
                "olt" => a < b,
                "ole" => a <= b,
                "one" => !un && a != b,
                "ord" => !un,
                "ueq" => un || a == b,
                "ugt" => un || a > b,
                "uge" => un || a >= b,
                "ult" => un || a < b,
                "ule" => un || a <= b,
                "une" => a != b,
                "uno" => un,
                "true" => true,
                _ => false,
            };
            return Ok(Val::C(r as i128));
        }
        if let (Val::Undef, _) | (_, Val::Undef) = (x, y) {
            return Ok(Val::Undef);
        }
        // symbolic doubles are finite
        for (i, v) in [x, y].iter().enumerate() {
            if let Val::F(f) = v {
                if f.is_nan() {
                    return Ok(Val::C(p.starts_with('u') as i128));
                }
                if Rat::from_f64(*f).is_none() {
                    // infinite, or of a magnitude no exact rational here has:
                    // compare with the interval of the other side
                    let o = if i == 0 { y } else { x };
                    let r = self.real(o)?;
                    let (lo, hi) = self.a.rrange(r, &*st.facts.clone(), 0);
                    let fits = |b: Option<Rat>| b.and_then(|b| b.to_f64());
                    let (lo, hi) = (fits(lo), fits(hi));
                    let above = f.is_infinite() && *f > 0.0
                        || hi.map_or(false, |h| h < *f);
                    let below = f.is_infinite() && *f < 0.0
                        || lo.map_or(false, |l| l > *f);
                    let d = if above { 1 } else if below { -1 } else { return unsup("double magnitude") };
                    // sign of f - o
                    let lt = if i == 0 { d < 0 } else { d > 0 }; // x < y
                    let r = match &p[1..] {
                        "eq" => false,
                        "ne" => true,
                        "rd" => true,
                        "lt" | "le" => lt,
                        "gt" | "ge" => !lt,
                        _ => p == "true",
                    };
                    return Ok(Val::C(r as i128));
                }
            }
        }
        if p == "ord" {
            return Ok(Val::C(1));
        }
        if p == "uno" {
            return Ok(Val::C(0));
        }
        let (a, b) = (self.real(x)?, self.real(y)?);
        let one = Rat::int(1);
        let d = match self.a.radd2(a, one, b, Rat::int(-1)) {
            Some(d) => d,
            None => return unsup("fcmp overflow"),
        };
        let r = match &p[1..] {
            "eq" => self.a.req0(d),
            "ne" => {
                let e = self.a.req0(d);
                self.a.not(e)
            }
            "lt" => self.a.rlt0(d),
            "le" => self.a.rle0(d),
            "gt" => {
                let n = self.a.rle0(d);
                self.a.not(n)
            }
            "ge" => {
                let n = self.a.rlt0(d);
                self.a.not(n)
            }
            _ => return Ok(Val::C((p == "true") as i128)),
        };
        Ok(match self.tri(st, r) {
            Some(b) => Val::C(b as i128),
            None => self.bval(r),
        })
    }
    /// truncation of a real toward zero, as an integer term
    fn rtrunc(&mut self, st: &mut State, r: Tid) -> X<Tid> {
        let neg = self.a.rlt0(r);
        if self.branch(st, neg)? {
            let n = self.a.rneg(r);
            let f = self.a.rfloor(n);
            Ok(self.a.mulc(f, -1))
        } else {
            Ok(self.a.rfloor(r))
        }
    }

    // ------------------------------------------------------------ control

    /// Evaluates a short-circuit region without forking; its truth values
    /// become terms.  False: not possible, nothing changed.
    fn merge_region(&mut self, st: &mut State, func: &Arc<Func>, from: u32, c: Tid, t: u32, e: u32, j: u32) -> X<bool> {
        let saved = self.nofork;
        self.nofork = true;
        let x = self.region(st, func, from, t, j);
        let r = match x {
            Ok(x) => match self.region(st, func, from, e, j) {
                Ok(y) => Ok((x, y)),
                Err(z) => Err(z),
            },
            Err(z) => Err(z),
        };
        self.nofork = saved;
        {
            let f = st.frames.last_mut().unwrap();
            f.block = from;
            f.ip = func.blocks[from as usize].insts.len() - 1;
        }
        let (x, y) = match r {
            Ok(p) => p,
            Err(_) => return Ok(false),
        };
        let jb = &func.blocks[j as usize];
        for k in 0..jb.nphi {
            if let Inst::Phi(d, ty, _) = &jb.insts[k] {
                let b = self.a.bite(c, x[k], y[k]);
                let v = if ty.bits() == 1 {
                    self.bval(b)
                } else {
                    let (one, zero) = (self.a.c(1), self.a.c(0));
                    let t = self.a.ite(b, one, zero);
                    self.ival(t, ty.bits())
                };
                st.frames.last_mut().unwrap().regs[*d as usize] = v;
            }
        }
        let f = st.frames.last_mut().unwrap();
        f.block = j;
        f.ip = jb.nphi;
        self.stats.merged += 1;
        Ok(true)
    }
    fn region(&mut self, st: &mut State, func: &Arc<Func>, from: u32, to: u32, j: u32) -> X<Vec<Tid>> {
        if to == j {
            let jb = &func.blocks[j as usize];
            let mut out = vec![];
            for k in 0..jb.nphi {
                if let Inst::Phi(_, ty, ins) = &jb.insts[k] {
                    let (o, _) = match ins.iter().find(|x| x.1 == from) {
                        Some(x) => x,
                        None => return Err(Stop::NoFork),
                    };
                    let v = self.val(st, o, ty)?;
                    out.push(match v {
                        Val::C(0) => FALSE,
                        Val::C(1) => TRUE,
                        Val::B(b) => b,
                        Val::S(t) => match *self.a.node(t) {
                            Node::Ite(c, p, q) if self.a.as_const(p) == Some(1) && self.a.as_const(q) == Some(0) => c,
                            Node::Ite(c, p, q) if self.a.as_const(p) == Some(0) && self.a.as_const(q) == Some(1) => {
                                self.a.not(c)
                            }
                            _ => return Err(Stop::NoFork),
                        },
                        _ => return Err(Stop::NoFork),
                    });
                }
            }
            return Ok(out);
        }
        let b = &func.blocks[to as usize];
        let n = b.insts.len();
        {
            let f = st.frames.last_mut().unwrap();
            f.block = to;
            f.ip = 0;
        }
        for _ in 0..n - 1 {
            self.step(st)?;
        }
        match &b.insts[n - 1] {
            Inst::Br(x) => self.region(st, func, to, *x, j),
            Inst::CondBr(c, x, y) => {
                let v = self.val(st, c, &Ty::Int(1))?;
                let c = self.boolean(st, &v)?;
                match self.tri(st, c) {
                    Some(true) => self.region(st, func, to, *x, j),
                    Some(false) => self.region(st, func, to, *y, j),
                    None => {
                        let p = self.region(st, func, to, *x, j)?;
                        let q = self.region(st, func, to, *y, j)?;
                        Ok(p.into_iter().zip(q).map(|(p, q)| self.a.bite(c, p, q)).collect())
                    }
                }
            }
            _ => Err(Stop::NoFork),
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) -> X<()> {
        let fr = st.frames.last().unwrap();
        let from = fr.block;
        let func = fr.func.clone();
        let b = &func.blocks[to as usize];
        let mut vals = vec![];
        for i in 0..b.nphi {
            if let Inst::Phi(d, ty, ins) = &b.insts[i] {
                match ins.iter().find(|x| x.1 == from) {
                    Some((o, _)) => {
                        let v = self.val(st, o, ty)?;
                        vals.push((*d, v));
                    }
                    None => return unsup("phi without matching predecessor"),
                }
            } else {
                return unsup("phi order");
            }
        }
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
        fr.block = to;
        fr.ip = b.nphi;
        Ok(())
    }

    fn ret(&mut self, st: &mut State, v: Option<Val>) -> X<()> {
        let fr = st.frames.pop().unwrap();
        for a in &fr.allocas {
            st.mem.remove(a);
        }
        if st.frames.is_empty() {
            return Err(Stop::Done);
        }
        let fmerge = fr.merge.clone();
        if let (Some(d), Some(v)) = (fr.dst, v) {
            self.set(st, d, v);
        }
        match fr.normal {
            Some(b) => self.jump(st, b)?,
            None => st.frames.last_mut().unwrap().ip += 1,
        }
        if let Some((n, f)) = fmerge {
            if st.rpos < st.replay.len() && st.replay[st.rpos] == D::Join(st.frames.len() as u32) {
                st.rpos += 1;
                st.decisions.push(D::Join(st.frames.len() as u32));
                st.pc.truncate(n);
                st.facts = f;
                if st.rpos == st.replay.len() {
                    st.model = None;
                }
            }
        }
        Ok(())
    }

    fn finish_call(&mut self, st: &mut State, dst: Option<Reg>, normal: Option<u32>, v: Val) -> X<()> {
        if let Some(d) = dst {
            self.set(st, d, v);
        }
        match normal {
            Some(b) => self.jump(st, b),
            None => {
                st.frames.last_mut().unwrap().ip += 1;
                Ok(())
            }
        }
    }

    fn classify(&self, s: Sym) -> Native {
        let info = self.prog.info(s);
        let n = info.name.as_str();
        if n.starts_with("llvm.") {
            return Native::Intrinsic;
        }
        match n {
            "memcmp" => return Native::MemCmp,
            "bcmp" => return Native::BCmp,
            "memcpy" | "memmove" => return Native::MemCpy,
            "memset" => return Native::MemSet,
            "vf_int" => return Native::VfInt,
            "vf_choice" => return Native::VfChoice,
            "vf_assume" => return Native::VfAssume,
            "vf_assert" => return Native::VfAssert,
            "vf_cover" => return Native::VfCover,
            "vf_obs" => return Native::VfObs,
            "vf_concrete" => return Native::VfConc,
            "vf_hint" => return Native::VfHint,
            "vf_div" => return Native::VfDiv,
            "vf_alone_begin" => return Native::VfAlone,
            "vf_alone_end" => return Native::VfAloneEnd,
            // destructors of thread-locals run when the thread ends
            "__cxa_thread_atexit_impl" => return Native::Zero,
            "abort" | "_Unwind_Resume" => return Native::Panic,
            _ => {}
        }
        if n.contains("___rustc") {
            if n.ends_with("___rust_alloc") {
                return Native::Alloc;
            }
            if n.ends_with("___rust_alloc_zeroed") {
                return Native::AllocZeroed;
            }
            if n.ends_with("___rust_dealloc") {
                return Native::Dealloc;
            }
            if n.ends_with("___rust_realloc") {
                return Native::Realloc;
            }
            if n.contains("no_alloc_shim") {
                return Native::Noop;
            }
        }
        if n.contains("5alloc3fmt6format12format_inner") && !self.cfg.real_format {
            return Native::Format;
        }
        const PANICS: &[&str] = &[
            "4core9panicking",
            "unwrap_failed",
            "expect_failed",
            "slice_index_fail",
            "slice_error_fail",
            "len_mismatch_fail",
            "7raw_vec12handle_error",
            "17capacity_overflow",
            "18panic_access_error",
            "panic_already_",
            "panic_const",
            "handle_alloc_error",
            "panic_for_nonpositive",
            "14overflow_panic",
            "7process5abort",
            "panic_display",
            "begin_panic",
        ];
        if PANICS.iter().any(|p| n.contains(p)) {
            return Native::Panic;
        }
        match info.kind {
            Kind::Func(..) => Native::Ir,
            _ => Native::Unknown,
        }
    }

    fn panic_msg(&mut self, st: &mut State, s: Sym, args: &[(Ty, Op)]) -> String {
        let info = self.prog.info(s);
        let mut vals = vec![];
        for (t, o) in args {
            vals.push(self.val(st, o, t).unwrap_or(Val::Undef));
        }
        let mut loc = String::new();
        if let Some(Val::C(a)) = vals.last() {
            let a = *a as u64;
            if a > 0x1000 {
                if let (Ok(Val::C(p)), Ok(Val::C(l)), Ok(Val::C(line))) = (
                    self.load(st, a, &Ty::Int(64)),
                    self.load(st, a + 8, &Ty::Int(64)),
                    self.load(st, a + 16, &Ty::Int(32)),
                ) {
                    if l < 400 {
                        let f = self.read_str(st, p as u64, l as u64);
                        loc = format!("{}:{}", f, line);
                    }
                }
            }
        }
        let mut text = String::new();
        if info.name.contains("9panicking5panic") && vals.len() == 3 {
            if let (Val::C(p), Val::C(l)) = (&vals[0], &vals[1]) {
                if *l < 400 {
                    text = self.read_str(st, *p as u64, *l as u64);
                }
            }
        }
        let short = short_name(&info.name);
        format!("{} {} at {}", short, text, loc)
    }

    pub fn inputs_of(&mut self, st: &State, m: &Model) -> Vec<i128> {
        let mut e = Eval::new(&self.a, m);
        st.inputs
            .iter()
            .map(|i| match i {
                Input::Int(t) => e.int(*t).unwrap_or(0),
                Input::Choice(c) => *c as i128,
            })
            .collect()
    }

    pub fn report(&mut self, st: &State, kind: &str, msg: &str, m: &Model, certain: bool) {
        let stack: Vec<String> = st
            .frames
            .iter()
            .rev()
            .take(12)
            .map(|f| short_name(&f.func.name))
            .collect();
        let key = format!("{}|{}", kind, msg);
        let n = self.violations.iter().filter(|v| format!("{}|{}", v.kind, v.msg) == key).count();
        if n >= 6 || self.violations.len() >= self.cfg.max_violations {
            return;
        }
        self.seen_viol.insert(key);
        let inputs = self.inputs_of(st, m);
        self.violations.push(Violation {
            kind: kind.into(),
            msg: msg.into(),
            inputs,
            stack,
            certain,
        });
    }

    /// Some(true): a model satisfying the path was found; Some(false): the
    /// path is infeasible; None: not settled.
    pub fn settle_model(&mut self, st: &mut State) -> Option<bool> {
        match self.ensure_model(st) {
            Ok(()) => st.model.as_ref().map(|_| true),
            Err(_) => Some(false),
        }
    }
    pub fn report_stop(&mut self, st: &State, kind: &str, msg: &str) {
        match st.model.clone() {
            Some(m) => self.report(st, kind, msg, &m, true),
            None => {
                let (_, m) = self.solver.check(&self.a, &st.pc, &[], true);
                self.report(st, kind, msg, &m.unwrap_or_default(), false)
            }
        }
    }
    pub fn path_record(&mut self, st: &State) -> Option<PathRec> {
        let m = st.model.clone()?;
        let inputs = self.inputs_of(st, &m);
        let fp = st.pc.iter().any(|c| self.a.fp[*c as usize]);
        let mut obs = vec![];
        let mut e = Eval::new(&self.a, &m);
        for (k, v) in &st.obs {
            if k.starts_with("cover:") {
                continue;
            }
            let s = match v {
                Val::C(c) => c.to_string(),
                Val::S(t) => match e.int(*t) {
                    Some(x) => x.to_string(),
                    None => "?".into(),
                },
                _ => "?".into(),
            };
            obs.push((k.clone(), s));
        }
        Some(PathRec { inputs, obs, fp })
    }

    /// Runs the current state until it stops.
    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
            if self.enter {
                self.enter = false;
                if !self.joined_call(st) {
                    return Stop::Moved;
                }
            }
            st.steps += 1;
            self.stats.insts += 1;
            if st.steps > self.cfg.max_steps {
                return Stop::Budget;
            }
        }
    }

    /// Do both states continue alike?  Values that differ in form must be
    /// equal on every input of `b`.
    fn same_effect(&mut self, a: &State, b: &mut State) -> bool {
        let shape = a.frames.len() == b.frames.len()
            && a.inputs.len() == b.inputs.len()
            && a.asserts == b.asserts
            && a.obs == b.obs
            && a.uncertain == b.uncertain
            && a.frames.iter().zip(&b.frames).all(|(x, y)| {
                Arc::ptr_eq(&x.func, &y.func)
                    && x.block == y.block
                    && x.ip == y.ip
                    && x.allocas == y.allocas
                    && x.regs.len() == y.regs.len()
            })
            && a.mem.len() == b.mem.len()
            && a.mem.iter().zip(&b.mem).all(|((p, x), (q, y))| {
                p == q && (Rc::ptr_eq(x, y) || (x.kind == y.kind && x.data.len() == y.data.len()))
            });
        if !shape {
            return false;
        }
        // (bits, value, value)
        let mut pairs: Vec<(u32, Val, Val)> = vec![];
        for (x, y) in a.frames.iter().zip(&b.frames) {
            for (u, v) in x.regs.iter().zip(&y.regs) {
                if u != v && !self.pair(u, v, 64, &mut pairs) {
                    return false;
                }
            }
        }
        for ((_, x), (_, y)) in a.mem.iter().zip(&b.mem) {
            if Rc::ptr_eq(x, y) {
                continue;
            }
            let mut i = 0;
            while i < x.data.len() {
                if x.data[i] == y.data[i] {
                    i += 1;
                    continue;
                }
                let w = match (x.data[i], y.data[i]) {
                    (Cell::S(_, 0, w), _) => w as usize,
                    (_, Cell::S(_, 0, w)) => w as usize,
                    _ => return false,
                };
                if i + w > x.data.len() {
                    return false;
                }
                let (u, v) = match (whole(&x.data[i..i + w]), whole(&y.data[i..i + w])) {
                    (Some(u), Some(v)) => (u, v),
                    _ => return false,
                };
                pairs.push((8 * w as u32, u, v));
                i += w;
            }
        }
        for (w, u, v) in pairs {
            let e = match self.eqv(b, w, &u, &v) {
                Ok(e) => e,
                Err(_) => return false,
            };
            if self.tri(b, e) == Some(true) {
                continue;
            }
            let ne = self.a.not(e);
            if let Some(m) = &b.model {
                if self.eval_model(m, e) == Some(false) {
                    return false;
                }
            }
            if self.query(b, &[ne]).0 != Sat::Unsat {
                return false;
            }
        }
        true
    }
    fn pair(&self, u: &Val, v: &Val, w: u32, out: &mut Vec<(u32, Val, Val)>) -> bool {
        match (u, v) {
            (Val::Agg(x), Val::Agg(y)) if x.len() == y.len() => {
                x.iter().zip(y.iter()).all(|(p, q)| p == q || self.pair(p, q, w, out))
            }
            (Val::C(_) | Val::S(_), Val::C(_) | Val::S(_)) => {
                out.push((w, u.clone(), v.clone()));
                true
            }
            _ => false,
        }
    }
    fn explain(&self, a: &State, b: &State) {
        let f = a.frames.last().unwrap();
        eprintln!("NOJOIN in {} pending {}", short_name(&f.func.name), self.pending.len());
        if a.mem.len() != b.mem.len() {
            eprintln!("  objects {} {}", a.mem.len(), b.mem.len());
        }
        for (x, y) in a.frames.iter().zip(&b.frames) {
            for (i, (p, q)) in x.regs.iter().zip(&y.regs).enumerate() {
                if p != q {
                    eprintln!("  reg {} {} / {}", i, self.show(p), self.show(q));
                }
            }
        }
        for (p, x) in &a.mem {
            if let Some(y) = b.mem.get(p) {
                for (i, (u, v)) in x.data.iter().zip(&y.data).enumerate() {
                    if u != v {
                        let g = |c: &Cell| match c {
                            Cell::S(t, k, _) if *k == 0 => self.show(&Val::S(*t)),
                            c => format!("{:?}", c),
                        };
                        if !matches!(u, Cell::S(_, k, _) if *k > 0) {
                            eprintln!("  mem {:x}+{} {} / {}", p, i, g(u), g(v));
                        }
                    }
                }
            }
        }
    }
    fn show(&self, v: &Val) -> String {
        match v {
            Val::S(t) | Val::B(t) => self.a.show(*t),
            v => format!("{:?}", v),
        }
    }
    /// Explores a call to its end on every path.  When all paths leave the
    /// same registers and memory they continue as one state.
    fn joined_call(&mut self, st: &mut State) -> bool {
        let depth = st.frames.len() - 1;
        let (pcn, facts) = st.frames[depth].merge.clone().unwrap();
        let stack = std::mem::take(&mut self.stack);
        let donate = self.donate.take();
        let npend = self.pending.len();
        let mut ends: Vec<State> = vec![];
        self.stack.push(st.clone());
        while let Some(mut s) = self.stack.pop() {
            loop {
                if s.frames.len() <= depth {
                    ends.push(s);
                    break;
                }
                if let Err(e) = self.step(&mut s) {
                    self.enter = false;
                    self.pending.push((s, e));
                    break;
                }
                s.steps += 1;
                self.stats.insts += 1;
                if s.steps > self.cfg.max_steps {
                    self.pending.push((s, Stop::Budget));
                    break;
                }
                if self.enter {
                    self.enter = false;
                    if !self.joined_call(&mut s) {
                        break;
                    }
                }
            }
        }
        self.stack = stack;
        self.donate = donate;
        if ends.is_empty() {
            return false;
        }
        if self.pending.len() == npend && ends.len() > 1 {
            // the state with the least specialised values stands for all
            let consts = |e: &State| -> usize {
                let r: usize = e.frames.last().map_or(0, |f| f.regs.iter().filter(|v| matches!(v, Val::C(_))).count());
                let m: usize = e
                    .mem
                    .values()
                    .filter(|o| o.kind == OKind::Stack)
                    .map(|o| o.data.iter().filter(|c| matches!(c, Cell::C(_))).count())
                    .sum();
                r + m
            };
            let rep = (0..ends.len()).min_by_key(|i| consts(&ends[*i])).unwrap();
            ends.swap(0, rep);
            let mut ok = true;
            for i in 1..ends.len() {
                let (x, y) = ends.split_at_mut(i);
                if !self.same_effect(&x[0], &mut y[0]) {
                    if self.cfg.hot {
                        self.explain(&x[0], &y[0]);
                    }
                    ok = false;
                    break;
                }
            }
            if ok {
                self.stats.joined += ends.len() as u64 - 1;
                let mut a = ends.swap_remove(0);
                a.pc.truncate(pcn);
                a.facts = facts;
                a.decisions.push(D::Join(depth as u32));
                *st = a;
                return true;
            }
        }
        *st = ends.pop().unwrap();
        self.stack.extend(ends);
        true
    }

    fn step(&mut self, st: &mut State) -> X<()> {
        let (func, block, ip) = {
            let f = st.frames.last().unwrap();
            (f.func.clone(), f.block, f.ip)
        };
        let inst = &func.blocks[block as usize].insts[ip];
        macro_rules! done {
            ($d:expr, $v:expr) => {{
                let v = $v;
                self.set(st, *$d, v);
            }};
        }
        match inst {
            Inst::Bin(d, op, ty, x, y) => {
                let (a, b) = (self.val(st, x, ty)?, self.val(st, y, ty)?);
                if let Ty::Vec(n, e) = ty {
                    let (a, b) = match (a, b) {
                        (Val::Agg(a), Val::Agg(b)) => (a, b),
                        _ => return unsup("vector operand"),
                    };
                    let mut out = vec![];
                    for i in 0..*n as usize {
                        out.push(self.bin(st, *op, e.bits(), &a[i], &b[i])?);
                    }
                    done!(d, Val::Agg(Rc::new(out)));
                } else {
                    let v = self.bin(st, *op, ty.bits(), &a, &b)?;
                    done!(d, v);
                }
            }
            Inst::FBin(d, op, ty, x, y) => {
                let (a, b) = (self.val(st, x, ty)?, self.val(st, y, ty)?);
                let v = self.fbin(st, *op, &a, &b, *ty == Ty::F32)?;
                done!(d, v);
            }
            Inst::FNeg(d, ty, x) => {
                let a = self.val(st, x, ty)?;
                let v = match a {
                    Val::F(f) => Val::F(-f),
                    Val::R(t) => Val::R(self.a.rneg(t)),
                    Val::Undef => Val::Undef,
                    _ => return unsup("fneg"),
                };
                done!(d, v);
            }
            Inst::ICmp(d, p, ty, x, y) => {
                let (a, b) = (self.val(st, x, ty)?, self.val(st, y, ty)?);
                if let Ty::Vec(n, e) = ty {
                    let (a, b) = match (a, b) {
                        (Val::Agg(a), Val::Agg(b)) => (a, b),
                        _ => return unsup("vector operand"),
                    };
                    let mut out = vec![];
                    for i in 0..*n as usize {
                        out.push(self.icmp(st, *p, e.bits(), &a[i], &b[i])?);
                    }
                    done!(d, Val::Agg(Rc::new(out)));
                } else {
                    let v = self.icmp(st, *p, ty.bits(), &a, &b)?;
                    done!(d, v);
                }
            }
            Inst::FCmp(d, p, ty, x, y) => {
                let (a, b) = (self.val(st, x, ty)?, self.val(st, y, ty)?);
                let v = self.fcmp(st, p, &a, &b)?;
                done!(d, v);
            }
            Inst::Select(d, c, ty, x, y) => {
                let cv = self.val(st, c, &Ty::Int(1))?;
                let (a, b) = (self.val(st, x, ty)?, self.val(st, y, ty)?);
                let v = match &cv {
                    Val::C(k) => {
                        if k & 1 == 1 {
                            a
                        } else {
                            b
                        }
                    }
                    Val::Undef => {
                        // unobservable if both arms agree
                        match (&a, &b) {
                            (Val::C(p), Val::C(q)) if p == q => a,
                            _ => Val::Undef,
                        }
                    }
                    _ => {
                        let cb = self.boolean(st, &cv)?;
                        match (self.tri(st, cb), &a, &b) {
                            (Some(true), _, _) => a,
                            (Some(false), _, _) => b,
                            _ if ty.bits() == 1 => {
                                match (&a, &b) {
                                    (Val::Undef, _) | (_, Val::Undef) => {
                                        if self.branch(st, cb)? {
                                            a
                                        } else {
                                            b
                                        }
                                    }
                                    _ => {
                                        let (p, q) =
                                            (self.boolean(st, &a)?, self.boolean(st, &b)?);
                                        let r = self.a.bite(cb, p, q);
                                        self.bval(r)
                                    }
                                }
                            }
                            (None, Val::C(p), Val::C(q)) if matches!(ty, Ty::Int(_)) => {
                                let w = ty.bits();
                                let (p, q) = (self.a.c(sext(*p, w)), self.a.c(sext(*q, w)));
                                let t = self.a.ite(cb, p, q);
                                self.ival(t, w)
                            }
                            _ => {
                                if self.branch(st, cb)? {
                                    a
                                } else {
                                    b
                                }
                            }
                        }
                    }
                };
                done!(d, v);
            }
            Inst::Phi(..) => return unsup("stray phi"),
            Inst::Call { dst, ret, callee, args, normal } => {
                return self.call(st, *dst, ret, callee, args, *normal);
            }
            Inst::Load(d, ty, p) => {
                let a = self.val(st, p, &Ty::Ptr)?;
                let a = self.conc(st, &a, 64)?;
                let v = self.load(st, a, ty)?;
                done!(d, v);
            }
            Inst::Store(ty, v, p) => {
                let a = self.val(st, p, &Ty::Ptr)?;
                let a = self.conc(st, &a, 64)?;
                let v = self.val(st, v, ty)?;
                self.store(st, a, &v, ty)?;
            }
            Inst::Alloca(d, size, al) => {
                let a = self.alloc(st, *size, *al, OKind::Stack, Cell::U);
                st.frames.last_mut().unwrap().allocas.push(a);
                done!(d, Val::C(a as i128));
            }
            Inst::Gep(d, base, off, vars) => {
                let mut acc = self.val(st, base, &Ty::Ptr)?;
                if *off != 0 {
                    acc = self.bin(st, BinOp::Add, 64, &acc, &Val::C(mask_u(*off as i128, 64)))?;
                }
                for (o, w, scale) in vars {
                    let v = self.val(st, o, &Ty::Int(*w))?;
                    let v = match v {
                        Val::C(k) => Val::C(mask_u(sext(k, *w), 64)),
                        v => {
                            let t = self.signed(st, &v, *w)?;
                            self.ival(t, 64)
                        }
                    };
                    let v = self.bin(st, BinOp::Mul, 64, &v, &Val::C(*scale as i128))?;
                    acc = self.bin(st, BinOp::Add, 64, &acc, &v)?;
                }
                done!(d, acc);
            }
            Inst::Cast(d, c, from, to, v) => {
                let x = self.val(st, v, from)?;
                let r = self.cast(st, *c, from, to, x)?;
                done!(d, r);
            }
            Inst::Extract(d, agg, idx) => {
                let mut v = self.val(st, agg, &Ty::Void)?;
                for i in idx {
                    v = match &v {
                        Val::Agg(items) => items[*i as usize].clone(),
                        Val::Undef => Val::Undef,
                        _ => return unsup("extractvalue"),
                    };
                }
                done!(d, v);
            }
            Inst::Insert(d, ty, agg, t2, x, idx) => {
                let base = self.val(st, agg, ty)?;
                let x = self.val(st, x, t2)?;
                let v = insert(base, &idx[..], x);
                done!(d, v);
            }
            Inst::ExtractElem(d, v, i) => {
                let a = self.val(st, v, &Ty::Void)?;
                let i = self.val(st, i, &Ty::Int(64))?;
                match (a, i) {
                    (Val::Agg(items), Val::C(k)) => done!(d, items[k as usize].clone()),
                    _ => return unsup("extractelement"),
                }
            }
            Inst::InsertElem(d, ty, v, x, i) => {
                let a = self.val(st, v, ty)?;
                let x = self.val(st, x, &ty.field(0))?;
                let i = self.val(st, i, &Ty::Int(64))?;
                match (a, i) {
                    (Val::Agg(items), Val::C(k)) => {
                        let mut n = (*items).clone();
                        n[k as usize] = x;
                        done!(d, Val::Agg(Rc::new(n)))
                    }
                    _ => return unsup("insertelement"),
                }
            }
            Inst::Shuffle(d, ty, a, b, mask) => {
                let (x, y) = (self.val(st, a, ty)?, self.val(st, b, ty)?);
                let n = match ty {
                    Ty::Vec(n, _) => *n as i64,
                    _ => return unsup("shuffle"),
                };
                let mut out = vec![];
                for &m in mask {
                    let src = if m < 0 {
                        out.push(Val::Undef);
                        continue;
                    } else if m < n {
                        (&x, m)
                    } else {
                        (&y, m - n)
                    };
                    match src.0 {
                        Val::Agg(v) => out.push(v[src.1 as usize].clone()),
                        Val::Undef => out.push(Val::Undef),
                        _ => return unsup("shuffle operand"),
                    }
                }
                done!(d, Val::Agg(Rc::new(out)));
            }
            Inst::Freeze(d, ty, v) => {
                let x = self.val(st, v, ty)?;
                let x = match x {
                    Val::Undef => self.zero_of(ty),
                    Val::Raw(c) => {
                        let c: Vec<Cell> = c
                            .iter()
                            .map(|x| if *x == Cell::U { Cell::C(0) } else { *x })
                            .collect();
                        self.cells_to_val(&c, ty)?
                    }
                    x => x,
                };
                done!(d, x);
            }
            Inst::AtomicRmw(d, op, p, ty, v) => {
                let a = self.val(st, p, &Ty::Ptr)?;
                let a = self.conc(st, &a, 64)?;
                let x = self.val(st, v, ty)?;
                let old = self.load(st, a, ty)?;
                let w = ty.bits();
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" => self.bin(st, BinOp::Add, w, &old, &x)?,
                    "sub" => self.bin(st, BinOp::Sub, w, &old, &x)?,
                    "and" => self.bin(st, BinOp::And, w, &old, &x)?,
                    "or" => self.bin(st, BinOp::Or, w, &old, &x)?,
                    _ => return unsup("atomicrmw"),
                };
                self.store(st, a, &new, ty)?;
                done!(d, old);
            }
            Inst::CmpXchg(d, p, ty, e, n) => {
                let a = self.val(st, p, &Ty::Ptr)?;
                let a = self.conc(st, &a, 64)?;
                let e = self.val(st, e, ty)?;
                let n = self.val(st, n, ty)?;
                let old = self.load(st, a, ty)?;
                let c = self.icmp(st, Pred::Eq, ty.bits(), &old, &e)?;
                let c = self.boolean(st, &c)?;
                let ok = self.branch(st, c)?;
                if ok {
                    self.store(st, a, &n, ty)?;
                }
                done!(d, Val::Agg(Rc::new(vec![old, Val::C(ok as i128)])));
            }
            Inst::Nop => {}
            Inst::Br(b) => return self.jump(st, *b),
            Inst::CondBr(c, t, e) => {
                let v = self.val(st, c, &Ty::Int(1))?;
                let b = match &v {
                    Val::C(k) => k & 1 == 1,
                    _ => {
                        let c = self.boolean(st, &v)?;
                        match (self.tri(st, c), func.blocks[block as usize].join) {
                            (Some(b), _) => b,
                            (None, Some(j)) => {
                                if self.merge_region(st, &func, block, c, *t, *e, j)? {
                                    return Ok(());
                                }
                                self.branch(st, c)?
                            }
                            _ => self.branch(st, c)?,
                        }
                    }
                };
                return self.jump(st, if b { *t } else { *e });
            }
            Inst::Switch(ty, v, def, cases) => {
                let x = self.val(st, v, ty)?;
                let w = ty.bits();
                match &x {
                    Val::C(k) => {
                        for (c, b) in cases {
                            if mask_u(*c, w) == *k {
                                return self.jump(st, *b);
                            }
                        }
                        return self.jump(st, *def);
                    }
                    Val::Undef | Val::Raw(_) => return ub("switch on uninitialised value"),
                    Val::Opaque => return Err(Stop::NeedFormat),
                    Val::B(_) => {
                        let b = self.boolean(st, &x)?;
                        let k = self.branch(st, b)? as i128;
                        for (c, bl) in cases {
                            if mask_u(*c, w) == k {
                                return self.jump(st, *bl);
                            }
                        }
                        return self.jump(st, *def);
                    }
                    _ => {}
                }
                // group by destination, in order of appearance
                let mut dests: Vec<(u32, Vec<i128>)> = vec![];
                for (c, b) in cases {
                    if b == def {
                        continue;
                    }
                    match dests.iter_mut().find(|d| d.0 == *b) {
                        Some(d) => d.1.push(*c),
                        None => dests.push((*b, vec![*c])),
                    }
                }
                for (b, cs) in dests {
                    let mut ors = vec![];
                    for c in cs {
                        ors.push(self.eqv(st, w, &x, &Val::C(mask_u(c, w)))?);
                    }
                    let c = self.a.orn(&ors);
                    if self.branch(st, c)? {
                        return self.jump(st, b);
                    }
                }
                return self.jump(st, *def);
            }
            Inst::Ret(ty, v) => {
                let v = match v {
                    Some(o) => Some(self.val(st, o, ty)?),
                    None => None,
                };
                return self.ret(st, v);
            }
            Inst::Unreachable => return ub("unreachable code reached"),
            Inst::Unsupported(s) => return unsup(s.clone()),
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    fn call(
        &mut self,
        st: &mut State,
        dst: Option<Reg>,
        ret: &Ty,
        callee: &Op,
        args: &[(Ty, Op)],
        normal: Option<u32>,
    ) -> X<()> {
        let s = match callee {
            Op::Sym(s) => *s,
            o => {
                let v = self.val(st, o, &Ty::Ptr)?;
                let a = self.conc(st, &v, 64)?;
                match self.addr_func.get(&a) {
                    Some(s) => *s,
                    None => return ub(format!("call of non-function {:#x}", a)),
                }
            }
        };
        let nat = match self.native_cache.get(&s) {
            Some(n) => *n,
            None => {
                let n = self.classify(s);
                self.native_cache.insert(s, n);
                n
            }
        };
        if nat == Native::Ir {
            let info = self.prog.info(s);
            let (m, n) = match &info.kind {
                Kind::Func(m, n) => (*m, n),
                _ => unreachable!(),
            };
            let f = match self.prog.func(m, n) {
                Ok(f) => f,
                Err(e) => return unsup(format!("parse {}: {}", n, e)),
            };
            if st.frames.len() > 200 {
                return unsup("call depth");
            }
            let mut regs = vec![Val::Undef; f.nregs];
            for (i, (t, o)) in args.iter().enumerate() {
                if i < f.params.len() {
                    regs[f.params[i].1 as usize] = self.val(st, o, t)?;
                }
            }
            if !self.funcs.contains(&f.name) {
                self.funcs.insert(f.name.clone());
            }
            let merge = if !st.hints.is_empty() && self.cfg.merge.iter().any(|x| f.name.contains(x.as_str())) {
                self.enter = st.rpos >= st.replay.len();
                Some((st.pc.len(), st.facts.clone()))
            } else {
                None
            };
            st.frames.push(Frame {
                func: f,
                module: m,
                block: 0,
                ip: 0,
                regs,
                dst,
                normal,
                allocas: vec![],
                merge,
            });
            return Ok(());
        }
        if nat == Native::Panic {
            let m = self.panic_msg(st, s, args);
            return Err(Stop::Panic(m));
        }
        let mut vals = Vec::with_capacity(args.len());
        for (t, o) in args {
            if *t == Ty::Meta {
                vals.push(Val::Undef);
            } else {
                vals.push(self.val(st, o, t)?);
            }
        }
        let v = match nat {
            Native::Intrinsic => {
                let info = self.prog.info(s);
                self.intrinsic(st, &info.name, &vals, args, ret)?
            }
            Native::Alloc | Native::AllocZeroed => {
                let n = self.conc(st, &vals[0], 64)?;
                let al = self.conc(st, &vals[1], 64)?;
                if n > 1 << 20 {
                    return unsup("large allocation");
                }
                let c = if nat == Native::Alloc { Cell::U } else { Cell::C(0) };
                Val::C(self.alloc(st, n, al, OKind::Heap, c) as i128)
            }
            Native::Dealloc => {
                let a = self.conc(st, &vals[0], 64)?;
                match st.mem.get(&a) {
                    Some(o) if o.kind == OKind::Heap => {
                        st.mem.remove(&a);
                    }
                    _ => return ub("free of a non-heap pointer"),
                }
                Val::Undef
            }
            Native::Realloc => {
                let a = self.conc(st, &vals[0], 64)?;
                let al = self.conc(st, &vals[2], 64)?;
                let n = self.conc(st, &vals[3], 64)?;
                if n > 1 << 20 {
                    return unsup("large allocation");
                }
                let old = match st.mem.get(&a) {
                    Some(o) if o.kind == OKind::Heap => o.clone(),
                    _ => return ub("realloc of a non-heap pointer"),
                };
                let b = self.alloc(st, n, al, OKind::Heap, Cell::U);
                let k = old.data.len().min(n as usize);
                let cells = old.data[..k].to_vec();
                self.write(st, b, &cells)?;
                st.mem.remove(&a);
                Val::C(b as i128)
            }
            Native::Noop => Val::Undef,
            Native::Zero => Val::C(0),
            Native::Format => {
                // String { cap: 0, ptr: dangling, len: opaque }
                let p = self.conc(st, &vals[0], 64)?;
                let mut cells = vec![Cell::C(0); 16];
                cells[8] = Cell::C(1);
                cells.extend(vec![Cell::O; 8]);
                self.write(st, p, &cells)?;
                Val::Undef
            }
            Native::MemCmp | Native::BCmp => {
                let (p, q) = (self.conc(st, &vals[0], 64)?, self.conc(st, &vals[1], 64)?);
                let n = self.conc(st, &vals[2], 64)?;
                self.memcmp(st, p, q, n, nat == Native::BCmp)?
            }
            Native::MemCpy => {
                let (p, q) = (self.conc(st, &vals[0], 64)?, self.conc(st, &vals[1], 64)?);
                let n = self.conc(st, &vals[2], 64)?;
                let c = self.read(st, q, n)?;
                self.write(st, p, &c)?;
                Val::C(p as i128)
            }
            Native::MemSet => {
                let p = self.conc(st, &vals[0], 64)?;
                let n = self.conc(st, &vals[2], 64)?;
                let c = self.fill_cell(&vals[1])?;
                self.write(st, p, &vec![c; n as usize])?;
                Val::C(p as i128)
            }
            Native::VfInt => {
                let (lo, hi) = match (&vals[0], &vals[1]) {
                    (Val::C(a), Val::C(b)) => (sext(*a, 64), sext(*b, 64)),
                    _ => return unsup("vf_int bounds must be concrete"),
                };
                if lo > hi {
                    return Err(Stop::Infeasible);
                }
                let name = format!("in{}", st.nvar);
                st.nvar += 1;
                let t = self.a.var(&name, lo, hi);
                st.inputs.push(Input::Int(t));
                if lo == hi {
                    Val::C(mask_u(lo, 64))
                } else {
                    Val::S(t)
                }
            }
            Native::VfChoice => {
                let n = match &vals[0] {
                    Val::C(k) => *k as u32,
                    _ => return unsup("vf_choice"),
                };
                if st.rpos < st.replay.len() {
                    match st.replay[st.rpos].clone() {
                        D::N(k) => {
                            st.rpos += 1;
                            st.decisions.push(D::N(k));
                            st.inputs.push(Input::Choice(k));
                            if st.rpos == st.replay.len() {
                                st.model = None;
                            }
                            Val::C(k as i128)
                        }
                        d => return unsup(format!("replay mismatch {:?} (choice)", d)),
                    }
                } else {
                    for k in (1..n).rev() {
                        let mut alt = st.clone();
                        alt.decisions.push(D::N(k));
                        alt.inputs.push(Input::Choice(k));
                        self.finish_call(&mut alt, dst, normal, Val::C(k as i128))?;
                        self.stack.push(alt);
                    }
                    st.decisions.push(D::N(0));
                    st.inputs.push(Input::Choice(0));
                    Val::C(0)
                }
            }
            Native::VfAssume => {
                let c = self.boolean(st, &vals[0])?;
                match self.tri(st, c) {
                    Some(true) => {}
                    Some(false) => return Err(Stop::Infeasible),
                    None => {
                        // keep only the true side
                        let mut keep = None;
                        if let Some(m) = &st.model {
                            if self.eval_model(m, c) == Some(true) {
                                keep = st.model.clone();
                            }
                        }
                        self.add_pc(st, c);
                        st.model = keep;
                        if st.model.is_none() && st.rpos >= st.replay.len() {
                            self.ensure_model(st)?;
                        }
                    }
                }
                Val::Undef
            }
            Native::VfAssert => {
                let c = self.boolean(st, &vals[0])?;
                let (p, n) = (self.conc(st, &vals[1], 64)?, self.conc(st, &vals[2], 64)?);
                let id = self.read_str(st, p, n);
                self.check_assert(st, c, &id)?;
                Val::Undef
            }
            Native::VfCover => {
                let (p, n) = (self.conc(st, &vals[0], 64)?, self.conc(st, &vals[1], 64)?);
                let id = self.read_str(st, p, n);
                st.obs.push((format!("cover:{}", id), Val::C(1)));
                Val::Undef
            }
            Native::VfObs => {
                let (p, n) = (self.conc(st, &vals[0], 64)?, self.conc(st, &vals[1], 64)?);
                let id = self.read_str(st, p, n);
                let v = match &vals[2] {
                    Val::C(k) => Val::C(sext(*k, 64)),
                    v => {
                        let t = self.signed(st, v, 64)?;
                        Val::S(t)
                    }
                };
                st.obs.push((id, v));
                Val::Undef
            }
            Native::VfHint => {
                if let Val::S(_) = &vals[0] {
                    let t = self.signed(st, &vals[0], 64)?;
                    let mut h = (*st.hints).clone();
                    if !h.contains(&t) {
                        h.push(t);
                    }
                    st.hints = Rc::new(h);
                }
                Val::Undef
            }
            Native::VfDiv => {
                let k = match &vals[1] {
                    Val::C(k) => sext(*k, 64),
                    _ => return unsup("vf_div by a non-constant"),
                };
                if k <= 0 {
                    return unsup("vf_div divisor");
                }
                match &vals[0] {
                    Val::C(a) => Val::C(mask_u(sext(*a, 64).div_euclid(k), 64)),
                    v => {
                        let t = self.signed(st, v, 64)?;
                        let q = self.a.div(t, k);
                        self.ival(q, 64)
                    }
                }
            }
            Native::VfAlone => {
                // statics (thread-local or not) start afresh
                let keys: Vec<u64> = st.mem.keys().filter(|a| self.globals.contains_key(a)).cloned().collect();
                let old: BTreeMap<u64, Rc<Obj>> = keys.iter().map(|k| (*k, st.mem.remove(k).unwrap())).collect();
                st.statics.push(Rc::new(old));
                Val::C(1)
            }
            Native::VfAloneEnd => {
                let keys: Vec<u64> = st.mem.keys().filter(|a| self.globals.contains_key(a)).cloned().collect();
                for k in keys {
                    st.mem.remove(&k);
                }
                match st.statics.pop() {
                    Some(old) => st.mem.extend(old.iter().map(|(k, v)| (*k, v.clone()))),
                    None => return unsup("vf_alone_end"),
                }
                Val::Undef
            }
            Native::VfConc => match &vals[0] {
                Val::C(k) => Val::C(*k),
                v => {
                    let t = self.signed(st, v, 64)?;
                    Val::C(mask_u(self.concretize(st, t)?, 64))
                }
            },
            Native::Unknown => {
                let info = self.prog.info(s);
                // functions of the C mathematics library
                let math = match info.name.as_str() {
                    "fma" => "llvm.fma.f64",
                    "round" => "llvm.round.f64",
                    "floor" => "llvm.floor.f64",
                    "ceil" => "llvm.ceil.f64",
                    "trunc" => "llvm.trunc.f64",
                    "rint" | "nearbyint" | "roundeven" => "llvm.roundeven.f64",
                    "fabs" => "llvm.fabs.f64",
                    "copysign" => "llvm.copysign.f64",
                    "fmin" => "llvm.minnum.f64",
                    "fmax" => "llvm.maxnum.f64",
                    _ => "",
                };
                if info.name == "fmod" {
                    let (x, y) = (vals[0].clone(), vals[1].clone());
                    self.fbin(st, FOp::Rem, &x, &y, false)?
                } else if !math.is_empty() {
                    self.intrinsic(st, math, &vals, args, ret)?
                } else {
                    return unsup(format!("external function {}", info.name));
                }
            }
            Native::Ir | Native::Panic => unreachable!(),
        };
        self.finish_call(st, dst, normal, v)
    }

    fn check_assert(&mut self, st: &mut State, c: Tid, id: &str) -> X<()> {
        let replaying = st.rpos < st.replay.len();
        if !replaying {
            self.stats.asserts += 1;
            *self.assert_ids.entry(id.to_string()).or_insert(0) += 1;
        }
        st.asserts += 1;
        match self.tri(st, c) {
            Some(true) => {
                if !replaying {
                    self.stats.asserts_by_range += 1;
                }
                return Ok(());
            }
            Some(false) => {
                if replaying {
                    return Err(Stop::AssertFalse);
                }
                self.ensure_model(st)?;
                let (m, cert) = match &st.model {
                    Some(m) => (m.clone(), true),
                    None => (Rc::new(Model::default()), false),
                };
                self.report(&st.clone(), "assert", id, &m, cert);
                return Err(Stop::AssertFalse);
            }
            None => {}
        }
        if replaying {
            self.add_fact(st, c, true);
            st.pc.push(c);
            return Ok(());
        }
        let facts = st.facts.clone();
        let mut bad: Option<Rc<Model>> = None;
        if let Some(m) = &st.model {
            if self.eval_model(m, c) == Some(false) {
                bad = Some(m.clone());
            }
        }
        let mut unsat = false;
        if bad.is_none() {
            // refute the conjuncts one by one: smaller queries
            let parts: Vec<Tid> = match self.a.node(c) {
                Node::And(v) => v.to_vec(),
                _ => vec![c],
            };
            unsat = true;
            for p in parts {
                if self.tri(st, p) == Some(true) {
                    continue;
                }
                let np = self.a.not(p);
                let (r, m) = self.query(st, &[np]);
                match r {
                    Sat::Unsat => {
                        self.add_fact(st, p, true);
                    }
                    Sat::Unknown => {
                        self.stats.undecided_asserts += 1;
                        unsat = false;
                    }
                    Sat::Sat => {
                        unsat = false;
                        match m {
                            Some(m) => {
                                let good = self.good_model(&st.pc, np, &m);
                                if good {
                                    bad = Some(Rc::new(m));
                                } else {
                                    // relaxed floating point: candidate only
                                    if std::env::var("PGSYM_HOT").is_ok() {
                                        eprintln!("CAND {} {}", id, self.a.show(np));
                                    }
                                    self.stats.undecided_asserts += 1;
                                    self.report(&st.clone(), "assert", id, &m, false);
                                }
                            }
                            None => self.stats.undecided_asserts += 1,
                        }
                    }
                }
                if bad.is_some() {
                    break;
                }
            }
        }
        // as a replay leaves them
        st.facts = facts;
        if unsat {
            self.add_fact(st, c, true);
            if id.starts_with("lemma") {
                st.pc.push(c);
            }
            return Ok(());
        }
        if let Some(m) = bad {
            self.report(&st.clone(), "assert", id, &m, true);
            // continue on the side where it holds, if there is one
            let (r, m2) = self.query(st, &[c]);
            if r == Sat::Unsat {
                return Err(Stop::AssertFalse);
            }
            let m2 = m2.filter(|m| self.good_model(&st.pc, c, m)).map(Rc::new);
            st.model = m2;
        } else if let Some(m) = &st.model {
            if self.eval_model(m, c) != Some(true) {
                st.model = None;
            }
        }
        self.add_pc(st, c);
        Ok(())
    }

    fn fill_cell(&mut self, v: &Val) -> X<Cell> {
        Ok(match v {
            Val::C(k) => Cell::C(*k as u8),
            Val::S(t) => Cell::S(*t, 0, 1),
            Val::Undef => Cell::U,
            _ => return unsup("memset value"),
        })
    }

    fn memcmp(&mut self, st: &mut State, p: u64, q: u64, n: u64, eq_only: bool) -> X<Val> {
        let (a, b) = (self.read(st, p, n)?, self.read(st, q, n)?);
        let mut diffs = vec![];
        for i in 0..n as usize {
            if a[i] == b[i] && !matches!(a[i], Cell::U | Cell::O) {
                continue;
            }
            if let (Cell::C(x), Cell::C(y)) = (a[i], b[i]) {
                diffs.push((i, Some((x, y))));
                if !eq_only {
                    break; // later bytes cannot matter
                }
                continue;
            }
            diffs.push((i, None));
        }
        if eq_only {
            if diffs.iter().any(|d| d.1.is_some()) {
                return Ok(Val::C(1));
            }
            let mut es = vec![];
            for (i, _) in &diffs {
                let (x, y) = (self.byte(a[*i])?, self.byte(b[*i])?);
                es.push(self.a.eq(x, y));
            }
            let all = self.a.andn(&es);
            let (z, o) = (self.a.c(0), self.a.c(1));
            let t = self.a.ite(all, z, o);
            return Ok(self.ival(t, 32));
        }
        for (i, k) in diffs {
            if let Some((x, y)) = k {
                return Ok(Val::C(if x < y { mask_u(-1, 32) } else { 1 }));
            }
            let (x, y) = (self.byte(a[i])?, self.byte(b[i])?);
            let e = self.a.eq(x, y);
            if self.branch(st, e)? {
                continue;
            }
            let l = self.a.lt(x, y);
            return Ok(Val::C(if self.branch(st, l)? { mask_u(-1, 32) } else { 1 }));
        }
        Ok(Val::C(0))
    }
    fn byte(&mut self, c: Cell) -> X<Tid> {
        match c {
            Cell::C(b) => Ok(self.a.c(b as i128)),
            Cell::S(t, k, _) => {
                let d = self.a.div(t, p2(8 * k as u32));
                Ok(self.a.modk(d, 256))
            }
            Cell::U => ub("comparison of uninitialised memory"),
            Cell::O => Err(Stop::NeedFormat),
            _ => unsup("byte of a double"),
        }
    }

    fn overflow(&mut self, st: &mut State, op: BinOp, sgn: bool, w: u32, x: &Val, y: &Val) -> X<Val> {
        if let (Val::C(a), Val::C(b)) = (x, y) {
            let (fa, fb) = if sgn {
                (sext(*a, w), sext(*b, w))
            } else {
                (mask_u(*a, w), mask_u(*b, w))
            };
            let full = match op {
                BinOp::Add => fa.checked_add(fb),
                BinOp::Sub => fa.checked_sub(fb),
                _ => fa.checked_mul(fb),
            };
            let (lo, hi) = if sgn { (-p2(w - 1), p2(w - 1) - 1) } else { (0, p2(w) - 1) };
            let (v, o) = match full {
                Some(f) => (f, f < lo || f > hi),
                None => {
                    let f = match op {
                        BinOp::Mul => fa.wrapping_mul(fb),
                        BinOp::Add => fa.wrapping_add(fb),
                        _ => fa.wrapping_sub(fb),
                    };
                    (f, true)
                }
            };
            return Ok(Val::Agg(Rc::new(vec![Val::C(mask_u(v, w)), Val::C(o as i128)])));
        }
        if let (Val::Undef, _) | (_, Val::Undef) = (x, y) {
            return Ok(Val::Agg(Rc::new(vec![Val::Undef, Val::Undef])));
        }
        let (a, b) = if sgn {
            (self.signed(st, x, w)?, self.signed(st, y, w)?)
        } else {
            (self.unsigned(st, x, w)?, self.unsigned(st, y, w)?)
        };
        let r = match op {
            BinOp::Add => self.a.lin2(a, 1, b, 1, 0),
            BinOp::Sub => self.a.lin2(a, 1, b, -1, 0),
            _ => {
                if let Some(k) = self.a.as_const(a) {
                    let z = self.a.c(0);
                    self.a.lin2(b, k, z, 0, 0)
                } else if let Some(k) = self.a.as_const(b) {
                    let z = self.a.c(0);
                    self.a.lin2(a, k, z, 0, 0)
                } else {
                    Some(self.a.mul(a, b))
                }
            }
        };
        let r = match r {
            Some(r) => r,
            None => return unsup("overflow op"),
        };
        let (lo, hi) = if sgn { (-p2(w - 1), p2(w - 1) - 1) } else { (0, p2(w) - 1) };
        let rg = self.range(st, r);
        let o = if rg.0 >= lo && rg.1 <= hi {
            FALSE
        } else if w > 120 {
            return unsup("wide integer");
        } else {
            let p = self.a.le_c(r, lo - 1);
            let q = self.a.ge_c(r, hi + 1);
            self.a.or(p, q)
        };
        let v = self.ival(r, w);
        let ov = match self.tri(st, o) {
            Some(b) => Val::C(b as i128),
            None => self.bval(o),
        };
        Ok(Val::Agg(Rc::new(vec![v, ov])))
    }

    fn minmax(&mut self, st: &mut State, p: Pred, w: u32, x: &Val, y: &Val) -> X<Val> {
        let c = self.icmp(st, p, w, x, y)?;
        let c = self.boolean(st, &c)?;
        Ok(if self.branch(st, c)? { x.clone() } else { y.clone() })
    }

    fn intrinsic(
        &mut self,
        st: &mut State,
        name: &str,
        v: &[Val],
        args: &[(Ty, Op)],
        ret: &Ty,
    ) -> X<Val> {
        let base = &name["llvm.".len()..];
        let w = ret.bits();
        if base.starts_with("lifetime")
            || base.starts_with("experimental.noalias")
            || base.starts_with("dbg")
            || base.starts_with("invariant")
            || base.starts_with("prefetch")
        {
            return Ok(Val::Undef);
        }
        if base.starts_with("assume") {
            if let Val::Undef = v[0] {
                return Ok(Val::Undef);
            }
            let c = self.boolean(st, &v[0])?;
            if self.tri(st, c) == Some(false) {
                return ub("assumption violated");
            }
            return Ok(Val::Undef);
        }
        if base.starts_with("expect") {
            return Ok(v[0].clone());
        }
        if base.starts_with("is.constant") {
            return Ok(Val::C(0));
        }
        if base.starts_with("memcpy") || base.starts_with("memmove") {
            let (p, q) = (self.conc(st, &v[0], 64)?, self.conc(st, &v[1], 64)?);
            let n = self.conc(st, &v[2], 64)?;
            let c = self.read(st, q, n)?;
            self.write(st, p, &c)?;
            return Ok(Val::Undef);
        }
        if base.starts_with("memset") {
            let p = self.conc(st, &v[0], 64)?;
            let n = self.conc(st, &v[2], 64)?;
            let c = self.fill_cell(&v[1])?;
            self.write(st, p, &vec![c; n as usize])?;
            return Ok(Val::Undef);
        }
        for (pre, op, s) in [
            ("sadd.with.overflow", BinOp::Add, true),
            ("uadd.with.overflow", BinOp::Add, false),
            ("ssub.with.overflow", BinOp::Sub, true),
            ("usub.with.overflow", BinOp::Sub, false),
            ("smul.with.overflow", BinOp::Mul, true),
            ("umul.with.overflow", BinOp::Mul, false),
        ] {
            if base.starts_with(pre) {
                let w = args[0].0.bits();
                return self.overflow(st, op, s, w, &v[0], &v[1]);
            }
        }
        for (pre, op, s) in [
            ("sadd.sat", BinOp::Add, true),
            ("uadd.sat", BinOp::Add, false),
            ("ssub.sat", BinOp::Sub, true),
            ("usub.sat", BinOp::Sub, false),
        ] {
            if base.starts_with(pre) {
                let o = self.overflow(st, op, s, w, &v[0], &v[1])?;
                let (r, ov) = match &o {
                    Val::Agg(x) => (x[0].clone(), x[1].clone()),
                    _ => return unsup("sat"),
                };
                let c = self.boolean(st, &ov)?;
                if !self.branch(st, c)? {
                    return Ok(r);
                }
                if !s {
                    return Ok(Val::C(if op == BinOp::Add { mask_u(-1, w) } else { 0 }));
                }
                // sign of the overflow: sign of x
                let z = self.icmp(st, Pred::Slt, w, &v[0], &Val::C(0))?;
                let z = self.boolean(st, &z)?;
                return Ok(Val::C(if self.branch(st, z)? { p2(w - 1) } else { p2(w - 1) - 1 }));
            }
        }
        for (pre, p) in [
            ("umax", Pred::Ugt),
            ("umin", Pred::Ult),
            ("smax", Pred::Sgt),
            ("smin", Pred::Slt),
        ] {
            if base.starts_with(pre) {
                return self.minmax(st, p, w, &v[0], &v[1]);
            }
        }
        if base.starts_with("abs.") {
            let t = self.signed(st, &v[0], w)?;
            let c = self.a.ge_c(t, 0);
            return Ok(if self.branch(st, c)? {
                self.ival(t, w)
            } else {
                let n = self.a.mulc(t, -1);
                self.ival(n, w)
            });
        }
        if base.starts_with("ucmp") || base.starts_with("scmp") {
            let s = base.starts_with('s');
            let w0 = args[0].0.bits();
            let lt = self.icmp(st, if s { Pred::Slt } else { Pred::Ult }, w0, &v[0], &v[1])?;
            let lt = self.boolean(st, &lt)?;
            if self.branch(st, lt)? {
                return Ok(Val::C(mask_u(-1, w)));
            }
            let eq = self.eqv(st, w0, &v[0], &v[1])?;
            return Ok(Val::C(if self.branch(st, eq)? { 0 } else { 1 }));
        }
        if base.starts_with("threadlocal.address") {
            return Ok(v[0].clone());
        }
        if base.starts_with("fptosi.sat") || base.starts_with("fptoui.sat") {
            let sgn = base.starts_with("fptosi");
            let (lo, hi) = if sgn { (-p2(w - 1), p2(w - 1) - 1) } else { (0, p2(w) - 1) };
            return match &v[0] {
                Val::F(f) => {
                    let r = if f.is_nan() {
                        0
                    } else if *f <= lo as f64 {
                        lo
                    } else if *f >= hi as f64 {
                        hi
                    } else {
                        (*f as i128).clamp(lo, hi)
                    };
                    Ok(Val::C(mask_u(r, w)))
                }
                Val::R(t) => {
                    let t = *t;
                    // below lo or above hi saturate
                    let one = Rat::int(1);
                    let lc = self.a.rconst(Rat::int(lo));
                    let d = match self.a.radd2(t, one, lc, Rat::int(-1)) {
                        Some(d) => d,
                        None => return unsup("fptosi"),
                    };
                    let under = self.a.rlt0(d);
                    if self.branch(st, under)? {
                        return Ok(Val::C(mask_u(lo, w)));
                    }
                    let hc = self.a.rconst(Rat::int(hi + 1));
                    let d = match self.a.radd2(hc, one, t, Rat::int(-1)) {
                        Some(d) => d,
                        None => return unsup("fptosi"),
                    };
                    let over = self.a.rle0(d);
                    if self.branch(st, over)? {
                        return Ok(Val::C(mask_u(hi, w)));
                    }
                    let r = self.rtrunc(st, t)?;
                    // implied by the branches above
                    let n = self.a.mulc(r, -1);
                    for f in [self.a.addc(n, lo), self.a.addc(r, -hi)] {
                        let c = self.a.le0(f);
                        self.add_fact(st, c, true);
                    }
                    Ok(self.ival(r, w))
                }
                Val::Undef => Ok(Val::Undef),
                _ => unsup("fptosi operand"),
            };
        }
        if base.starts_with("round.f")
            || base.starts_with("floor.f")
            || base.starts_with("ceil.f")
            || base.starts_with("trunc.f")
            || base.starts_with("fabs.f")
            || base.starts_with("rint.f")
            || base.starts_with("roundeven.f")
            || base.starts_with("nearbyint.f")
        {
            if let Val::F(f) = &v[0] {
                return Ok(Val::F(if base.starts_with("roundeven") || base.starts_with("rint") || base.starts_with("nearby") {
                    round_even(*f)
                } else if base.starts_with("round") {
                    f.round()
                } else if base.starts_with("floor") {
                    f.floor()
                } else if base.starts_with("ceil") {
                    f.ceil()
                } else if base.starts_with("trunc") {
                    f.trunc()
                } else {
                    f.abs()
                }));
            }
            let t = match &v[0] {
                Val::R(t) => *t,
                Val::Undef => return Ok(Val::Undef),
                _ => return unsup("round operand"),
            };
            let one = Rat::int(1);
            let half = Rat::new(1, 2).unwrap();
            let r = if base.starts_with("floor") {
                self.a.rfloor(t)
            } else if base.starts_with("ceil") {
                let n = self.a.rneg(t);
                let f = self.a.rfloor(n);
                self.a.mulc(f, -1)
            } else if base.starts_with("trunc") {
                self.rtrunc(st, t)?
            } else if base.starts_with("fabs") {
                let n = self.a.rlt0(t);
                return Ok(Val::R(if self.branch(st, n)? { self.a.rneg(t) } else { t }));
            } else if base.starts_with("round.f") {
                let n = self.a.rlt0(t);
                let h = self.a.rconst(half);
                if self.branch(st, n)? {
                    let m = self.a.rneg(t);
                    let s = match self.a.radd2(m, one, h, one) {
                        Some(s) => s,
                        None => return unsup("round"),
                    };
                    let f = self.a.rfloor(s);
                    self.a.mulc(f, -1)
                } else {
                    let s = match self.a.radd2(t, one, h, one) {
                        Some(s) => s,
                        None => return unsup("round"),
                    };
                    self.a.rfloor(s)
                }
            } else {
                // to the nearest, ties to even: floor(t + 1/2), less one where
                // that is odd and t was halfway
                let h = self.a.rconst(half);
                let s = match self.a.radd2(t, one, h, one) {
                    Some(s) => s,
                    None => return unsup("round"),
                };
                let f = self.a.rfloor(s);
                let fr = self.a.of_int(f);
                let d = match self.a.radd2(s, one, fr, Rat::int(-1)) {
                    Some(d) => d,
                    None => return unsup("round"),
                };
                let tie = self.a.req0(d);
                if self.branch(st, tie)? {
                    let q = self.a.div(f, 2);
                    let rem = self.a.lin2(f, 1, q, -2, 0);
                    match rem.and_then(|m| self.a.lin2(f, 1, m, -1, 0)) {
                        Some(x) => x,
                        None => return unsup("round"),
                    }
                } else {
                    f
                }
            };
            let e = self.a.of_int(r);
            // the result of these operations is an exactly representable integer
            return Ok(match self.a.as_rconst(e) {
                Some(c) => Val::F(c.to_f64().unwrap_or(f64::NAN)),
                None => Val::R(e),
            });
        }
        if base.starts_with("fma.f") || base.starts_with("fmuladd.f") {
            if let (Val::F(a), Val::F(b), Val::F(c)) = (&v[0], &v[1], &v[2]) {
                if args[0].0 == Ty::F64 {
                    return Ok(Val::F(a.mul_add(*b, *c)));
                }
            }
            let (x, y, z) = (self.real(&v[0])?, self.real(&v[1])?, self.real(&v[2])?);
            let m = if let Some(k) = self.a.as_rconst(x) {
                self.a.rscale(y, k)
            } else if let Some(k) = self.a.as_rconst(y) {
                self.a.rscale(x, k)
            } else {
                let m = self.a.intern(Node::RMul(x.min(y), x.max(y)));
                Some(self.a.mk_rlin(Rat::ZERO, vec![(m, Rat::int(1))]))
            };
            let s = m.and_then(|m| self.a.radd2(m, Rat::int(1), z, Rat::int(1)));
            return self.rnd(st, s, args[0].0 == Ty::F32);
        }
        if base.starts_with("copysign.f") {
            if let (Val::F(a), Val::F(b)) = (&v[0], &v[1]) {
                return Ok(Val::F(a.copysign(*b)));
            }
            let m = match &v[0] {
                Val::F(f) => Val::F(f.abs()),
                Val::R(t) => {
                    let t = *t;
                    let n = self.a.rlt0(t);
                    Val::R(if self.branch(st, n)? { self.a.rneg(t) } else { t })
                }
                Val::Undef => return Ok(Val::Undef),
                _ => return unsup("copysign"),
            };
            let neg = match &v[1] {
                Val::F(f) => f.is_sign_negative(),
                Val::R(t) => {
                    // a symbolic zero is taken as positive
                    let n = self.a.rlt0(*t);
                    self.branch(st, n)?
                }
                Val::Undef => return Ok(Val::Undef),
                _ => return unsup("copysign"),
            };
            return Ok(match m {
                Val::R(t) if neg => Val::R(self.a.rneg(t)),
                Val::F(f) if neg => Val::F(-f),
                m => m,
            });
        }
        if base.starts_with("is.fpclass") {
            let m = match &v[1] {
                Val::C(m) => *m as u32,
                _ => return unsup("fpclass"),
            };
            return match &v[0] {
                Val::F(f) => {
                    let cls = if f.is_nan() {
                        3
                    } else if *f == f64::NEG_INFINITY {
                        4
                    } else if *f == f64::INFINITY {
                        0x200
                    } else if *f == 0.0 {
                        if f.is_sign_negative() {
                            0x20
                        } else {
                            0x40
                        }
                    } else if f.is_subnormal() {
                        if *f < 0.0 {
                            0x10
                        } else {
                            0x80
                        }
                    } else if *f < 0.0 {
                        8
                    } else {
                        0x100
                    };
                    Ok(Val::C((m & cls != 0) as i128))
                }
                _ => {
                    // finite symbolic value: only nan/inf tests supported
                    if m & !0x207 == 0 {
                        Ok(Val::C(0))
                    } else if m & 0x1f8 == 0x1f8 {
                        Ok(Val::C(1))
                    } else {
                        unsup("fpclass")
                    }
                }
            };
        }
        if base.starts_with("minnum.f") || base.starts_with("maxnum.f")
            || base.starts_with("minimumnum.f") || base.starts_with("maximumnum.f")
        {
            if let (Val::F(a), Val::F(b)) = (&v[0], &v[1]) {
                return Ok(Val::F(if base.starts_with("min") { a.min(*b) } else { a.max(*b) }));
            }
            let c = self.fcmp(st, "olt", &v[0], &v[1])?;
            let c = self.boolean(st, &c)?;
            let lt = self.branch(st, c)?;
            return Ok(if lt == base.starts_with("min") { v[0].clone() } else { v[1].clone() });
        }
        if base.starts_with("ctpop")
            || base.starts_with("ctlz")
            || base.starts_with("cttz")
            || base.starts_with("bswap")
            || base.starts_with("bitreverse")
            || base.starts_with("fshl")
            || base.starts_with("fshr")
        {
            let mut cs = vec![];
            for (i, x) in v.iter().enumerate() {
                let wi = args[i].0.bits();
                match x {
                    Val::C(k) => cs.push(*k),
                    Val::Undef => return Ok(Val::Undef),
                    x => {
                        if base.starts_with("ctlz") && i == 0 {
                            // number of leading zeros: split on magnitude
                            let t = self.unsigned(st, x, wi)?;
                            for b in 0..wi {
                                let c = self.a.le_c(t, p2(b) - 1);
                                if self.branch(st, c)? {
                                    return Ok(Val::C((wi - b) as i128));
                                }
                            }
                            return Ok(Val::C(0));
                        }
                        if base.starts_with("bswap") {
                            let t = self.unsigned(st, x, wi)?;
                            let n = wi / 8;
                            let mut acc = self.a.c(0);
                            for k in 0..n {
                                let d = self.a.div(t, p2(8 * k));
                                let b = self.a.modk(d, 256);
                                acc = match self.a.lin2(acc, 1, b, p2(8 * (n - 1 - k)), 0) {
                                    Some(x) => x,
                                    None => return unsup("bswap"),
                                };
                            }
                            return Ok(self.ival(acc, wi));
                        }
                        let t = self.unsigned(st, x, wi)?;
                        cs.push(self.concretize(st, t)?)
                    }
                }
            }
            let x = mask_u(cs[0], w) as u128;
            let r: i128 = if base.starts_with("ctpop") {
                x.count_ones() as i128
            } else if base.starts_with("ctlz") {
                (x.leading_zeros() - (128 - w)) as i128
            } else if base.starts_with("cttz") {
                (x.trailing_zeros().min(w)) as i128
            } else if base.starts_with("bswap") {
                (x.swap_bytes() >> (128 - w)) as i128
            } else if base.starts_with("bitreverse") {
                (x.reverse_bits() >> (128 - w)) as i128
            } else {
                if w > 64 {
                    return unsup("funnel shift");
                }
                let y = mask_u(cs[1], w) as u128;
                let k = (cs[2] as u32) % w;
                let cat = (x << w) | y;
                if base.starts_with("fshl") {
                    mask_u(((cat << k) >> w) as i128, w)
                } else {
                    mask_u((cat >> k) as i128, w)
                }
            };
            return Ok(Val::C(mask_u(r, w)));
        }
        if base.starts_with("vector.reduce.") {
            if let Val::Agg(items) = &v[0] {
                let op = if base.contains(".and.") {
                    BinOp::And
                } else if base.contains(".or.") {
                    BinOp::Or
                } else if base.contains(".add.") {
                    BinOp::Add
                } else {
                    return unsup(name);
                };
                let mut acc = items[0].clone();
                for x in items.iter().skip(1) {
                    acc = self.bin(st, op, w, &acc, x)?;
                }
                return Ok(acc);
            }
        }
        if base == "trap" || base == "ubsantrap" {
            return Err(Stop::Panic("trap".into()));
        }
        unsup(format!("intrinsic {}", name))
    }
}

fn smul(a: i128, b: i128) -> i128 {
    match a.checked_mul(b) {
        Some(v) => sat(v),
        None => {
            if (a > 0) == (b > 0) {
                INF
            } else {
                -INF
            }
        }
    }
}

fn round_even(f: f64) -> f64 {
    let r = f.round();
    if (f - f.trunc()).abs() == 0.5 && r % 2.0 != 0.0 {
        r - f.signum()
    } else {
        r
    }
}

fn insert(base: Val, idx: &[u32], x: Val) -> Val {
    if idx.is_empty() {
        return x;
    }
    match base {
        Val::Agg(items) => {
            let mut v = (*items).clone();
            let i = idx[0] as usize;
            let old = std::mem::replace(&mut v[i], Val::Undef);
            v[i] = insert(old, &idx[1..], x);
            Val::Agg(Rc::new(v))
        }
        other => other,
    }
}

/// Readable tail of a mangled name (v0): identifiers joined by `::`.
pub fn short_name(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut parts: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b's' {
            // disambiguator: s <base62> _
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i <= 14 {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut l = 0usize;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                l = l * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if l >= 2 && j + l <= b.len() {
                let w = &n[j..j + l];
                if w.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_')
                    && w.bytes().any(|c| c.is_ascii_lowercase() || c.is_ascii_uppercase())
                {
                    parts.push(w.to_string());
                    i = j + l;
                    continue;
                }
            }
        }
        i += 1;
    }
    if parts.is_empty() {
        n.to_string()
    } else {
        parts.join("::")
    }
}


/// The integer stored in all these bytes.
fn whole(c: &[Cell]) -> Option<Val> {
    if let Cell::S(t, 0, w) = c[0] {
        if w as usize == c.len() && c.iter().enumerate().all(|(i, x)| *x == Cell::S(t, i as u8, w)) {
            return Some(Val::S(t));
        }
        return None;
    }
    let mut v: i128 = 0;
    for (i, x) in c.iter().enumerate() {
        match x {
            Cell::C(b) => v |= (*b as i128) << (8 * i),
            _ => return None,
        }
    }
    Some(Val::C(v))
}
