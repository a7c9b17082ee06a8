//! Hash-consed terms: mathematical integers, booleans and exact rationals
//! with IEEE rounding nodes.  Integers are kept in a linear normal form, so
//! recombining the digits of a number gives the number back syntactically.

use std::collections::HashMap;

pub type Tid = u32;
pub const TRUE: Tid = 0;
pub const FALSE: Tid = 1;

/// Saturation limit of interval arithmetic.
pub const INF: i128 = 1 << 120;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Rat {
    pub n: i128,
    pub d: i128, // > 0, coprime
}

pub fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        let r = a % b;
        a = b;
        b = r;
    }
    a as i128
}

impl Rat {
    pub fn show(&self) -> String {
        if self.d == 1 { self.n.to_string() } else { format!("{}/{}", self.n, self.d) }
    }
    pub fn new(n: i128, d: i128) -> Option<Rat> {
        if d == 0 || d == i128::MIN || n == i128::MIN {
            return None;
        }
        let (n, d) = if d < 0 { (-n, -d) } else { (n, d) };
        let g = gcd(n, d).max(1);
        Some(Rat { n: n / g, d: d / g })
    }
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub fn add(self, o: Rat) -> Option<Rat> {
        let g = gcd(self.d, o.d);
        let od = o.d / g;
        let sd = self.d / g;
        let n = self.n.checked_mul(od)?.checked_add(o.n.checked_mul(sd)?)?;
        Rat::new(n, self.d.checked_mul(od)?)
    }
    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn sub(self, o: Rat) -> Option<Rat> {
        self.add(o.neg())
    }
    pub fn mul(self, o: Rat) -> Option<Rat> {
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        Rat::new(
            (self.n / g1).checked_mul(o.n / g2)?,
            (self.d / g2).checked_mul(o.d / g1)?,
        )
    }
    pub fn inv(self) -> Option<Rat> {
        Rat::new(self.d, self.n)
    }
    pub fn div(self, o: Rat) -> Option<Rat> {
        self.mul(o.inv()?)
    }
    pub fn cmp0(self) -> i32 {
        self.n.signum() as i32
    }
    pub fn cmp(self, o: Rat) -> Option<std::cmp::Ordering> {
        Some(self.sub(o)?.n.cmp(&0))
    }
    pub fn floor(self) -> i128 {
        self.n.div_euclid(self.d)
    }
    pub fn ceil(self) -> i128 {
        -((-self.n).div_euclid(self.d))
    }
    pub fn is_pow2_den(self) -> bool {
        self.d & (self.d - 1) == 0
    }
    pub fn from_f64(f: f64) -> Option<Rat> {
        if !f.is_finite() {
            return None;
        }
        if f == 0.0 {
            return Some(Rat::ZERO);
        }
        let bits = f.to_bits();
        let e = ((bits >> 52) & 0x7ff) as i32;
        let m = (bits & ((1 << 52) - 1)) as i128;
        let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
        let tz = m.trailing_zeros() as i32;
        let (m, e) = (m >> tz, e + tz);
        let m = if f < 0.0 { -m } else { m };
        if e >= 0 {
            if e > 66 {
                return None;
            }
            Some(Rat::int(m.checked_mul(1 << e)?))
        } else {
            if e < -120 {
                return None;
            }
            Rat::new(m, 1 << (-e))
        }
    }
    /// Correctly rounded (nearest even) conversion to f64.
    pub fn to_f64(self) -> Option<f64> {
        self.rounded(53)
    }
    /// Correctly rounded to a binary format of that precision (53 or 24 bits);
    /// none outside its normal range.
    pub fn rounded(self, p: u8) -> Option<f64> {
        if self.n == 0 {
            return Some(0.0);
        }
        let neg = self.n < 0;
        let n = self.n.unsigned_abs();
        let d = self.d as u128;
        // scale so that the quotient has at least 55 bits and fits
        let nb = 128 - n.leading_zeros() as i32;
        let db = 128 - d.leading_zeros() as i32;
        // want (n << s) / d to have 56..64 bits
        let s = 58 - (nb - db);
        // big shift arithmetic through long division
        let (q, rem) = if s >= 0 {
            // n << s may overflow u128: do binary long division
            let mut q = n / d;
            let mut r = n % d;
            for _ in 0..s {
                if q >> 100 != 0 {
                    return None;
                }
                r <<= 1;
                q <<= 1;
                if r >= d {
                    r -= d;
                    q |= 1;
                }
                if r >> 126 != 0 {
                    return None;
                }
            }
            (q, r != 0)
        } else {
            let sh = (-s) as u32;
            if (d >> (127 - sh.min(127))) != 0 {
                // d << sh overflows
                let lost = n & ((1u128 << sh) - 1);
                let q = (n >> sh) / d;
                let r = (n >> sh) % d;
                (q, r != 0 || lost != 0)
            } else {
                let dd = d << sh;
                (n / dd, n % dd != 0)
            }
        };
        // value = (q + frac) * 2^-s, with 57..60 significant bits in q
        let mut q = q;
        if rem {
            q = (q << 1) | 1; // sticky bit
        } else {
            q <<= 1;
        }
        let e = -s - 1;
        let qb = 128 - q.leading_zeros() as i32;
        let drop = qb - p as i32;
        let mut m;
        let mut ee = e;
        if drop > 0 {
            let half = 1u128 << (drop - 1);
            let low = q & ((1u128 << drop) - 1);
            m = q >> drop;
            ee += drop;
            if low > half || (low == half && (m & 1) == 1) {
                m += 1;
                if m == 1 << p {
                    m >>= 1;
                    ee += 1;
                }
            }
        } else {
            m = q;
        }
        if ee < -1074 || ee > 900 || p == 24 && (ee < -149 || ee > 103) {
            return None;
        }
        let v = m as f64 * pow2(ee)?;
        Some(if neg { -v } else { v })
    }
}

fn pow2(e: i32) -> Option<f64> {
    if !(-1022..=1023).contains(&e) {
        return None;
    }
    Some(f64::from_bits(((e + 1023) as u64) << 52))
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    True,
    False,
    Const(i128),
    /// integer input
    Var(u32),
    /// c0 + sum coef*atom (atoms sorted by id, at least one, not `1*a+0`)
    Lin(i128, Box<[(Tid, i128)]>),
    /// floor division by a positive constant
    Div(Tid, i128),
    Mul(Tid, Tid),
    Ite(Tid, Tid, Tid),
    /// floor of a real
    RFloor(Tid),
    BVar(u32),
    Le0(Tid),
    Eq0(Tid),
    Not(Tid),
    And(Box<[Tid]>),
    Or(Box<[Tid]>),
    /// real: c0 + sum coef*atom; atoms are integer atoms, Round or RIte nodes
    RLin(Rat, Box<[(Tid, Rat)]>),
    /// IEEE double rounding (nearest even) of an exact real
    /// to this many bits (53: double, 24: float)
    Round(Tid, u8),
    RIte(Tid, Tid, Tid),
    RMul(Tid, Tid),
    RDiv(Tid, Tid),
    RLe0(Tid),
    RLt0(Tid),
    REq0(Tid),
}

pub type Range = (i128, i128);

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub lo: i128,
    pub hi: i128,
}

fn digest<T: std::hash::Hash>(x: &T) -> u128 {
    use std::hash::{DefaultHasher, Hash, Hasher};
    let mut a = DefaultHasher::new();
    0x9e37_79b9_7f4a_7c15u64.hash(&mut a);
    x.hash(&mut a);
    let mut b = DefaultHasher::new();
    0xc2b2_ae3d_27d4_eb4fu64.hash(&mut b);
    x.hash(&mut b);
    ((a.finish() as u128) << 64) | b.finish() as u128
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub ranges: Vec<Range>,
    map: HashMap<Node, Tid>,
    pub vars: Vec<VarInfo>,
    consts: HashMap<i128, Tid>,
    /// node depends on a Round node
    pub fp: Vec<bool>,
    /// nesting depth of divisions
    pub dd: Vec<u8>,
    /// structural hash, the same in every arena
    pub key: Vec<u128>,
}

pub fn sat(x: i128) -> i128 {
    x.clamp(-INF, INF)
}
fn sadd(a: i128, b: i128) -> i128 {
    if a <= -INF || b <= -INF {
        return -INF;
    }
    if a >= INF || b >= INF {
        return INF;
    }
    sat(a + b)
}
fn smulc(a: i128, k: i128) -> i128 {
    if k == 0 {
        return 0;
    }
    if a >= INF || a <= -INF {
        return if (a > 0) == (k > 0) { INF } else { -INF };
    }
    match a.checked_mul(k) {
        Some(v) => sat(v),
        None => {
            if (a > 0) == (k > 0) {
                INF
            } else {
                -INF
            }
        }
    }
}
pub fn rmulc(r: Range, k: i128) -> Range {
    let (a, b) = (smulc(r.0, k), smulc(r.1, k));
    if a <= b {
        (a, b)
    } else {
        (b, a)
    }
}
pub fn radd(a: Range, b: Range) -> Range {
    let lo = if a.0 <= -INF || b.0 <= -INF { -INF } else { sadd(a.0, b.0) };
    let hi = if a.1 >= INF || b.1 >= INF { INF } else { sadd(a.1, b.1) };
    (lo, hi)
}
pub fn rmeet(a: Range, b: Range) -> Range {
    (a.0.max(b.0), a.1.min(b.1))
}
fn rdiv(a: Range, k: i128) -> Range {
    (
        if a.0 <= -INF { -INF } else { a.0.div_euclid(k) },
        if a.1 >= INF { INF } else { a.1.div_euclid(k) },
    )
}

/// Range lookups refined by a path's facts.
pub trait Bounds {
    fn get(&self, t: Tid) -> Option<Range>;
}
pub struct NoBounds;
impl Bounds for NoBounds {
    fn get(&self, _: Tid) -> Option<Range> {
        None
    }
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: vec![],
            ranges: vec![],
            map: HashMap::new(),
            vars: vec![],
            consts: HashMap::new(),
            fp: vec![],
            dd: vec![],
            key: vec![],
        };
        a.intern(Node::True);
        a.intern(Node::False);
        a
    }

    pub fn intern(&mut self, n: Node) -> Tid {
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let r = self.static_range(&n);
        let fp = match &n {
            Node::Round(..) => true,
            Node::True | Node::False | Node::Const(_) | Node::Var(_) | Node::BVar(_) => false,
            Node::Lin(_, v) => v.iter().any(|x| self.fp[x.0 as usize]),
            Node::RLin(_, v) => v.iter().any(|x| self.fp[x.0 as usize]),
            Node::And(v) | Node::Or(v) => v.iter().any(|x| self.fp[*x as usize]),
            Node::Div(t, _)
            | Node::RFloor(t)
            | Node::Le0(t)
            | Node::Eq0(t)
            | Node::Not(t)
            | Node::RLe0(t)
            | Node::RLt0(t)
            | Node::REq0(t) => self.fp[*t as usize],
            Node::Mul(a, b) | Node::RMul(a, b) | Node::RDiv(a, b) => {
                self.fp[*a as usize] || self.fp[*b as usize]
            }
            Node::Ite(a, b, c) | Node::RIte(a, b, c) => {
                self.fp[*a as usize] || self.fp[*b as usize] || self.fp[*c as usize]
            }
        };
        let dd = {
            let g = |x: Tid| self.dd[x as usize];
            match &n {
                Node::Div(t, _) | Node::RFloor(t) | Node::Round(t, _) => g(*t).saturating_add(1),
                Node::Lin(_, v) => v.iter().map(|x| g(x.0)).max().unwrap_or(0),
                Node::RLin(_, v) => v.iter().map(|x| g(x.0)).max().unwrap_or(0),
                Node::Mul(a, b) | Node::RMul(a, b) | Node::RDiv(a, b) => g(*a).max(g(*b)),
                Node::Ite(c, a, b) | Node::RIte(c, a, b) => g(*a).max(g(*b)).saturating_add(1).max(g(*c)),
                Node::Le0(t) | Node::Eq0(t) | Node::Not(t) | Node::RLe0(t) | Node::RLt0(t) | Node::REq0(t) => g(*t),
                Node::And(v) | Node::Or(v) => v.iter().map(|x| g(*x)).max().unwrap_or(0),
                _ => 0,
            }
        };
        let t = self.nodes.len() as Tid;
        self.key.push(self.structural(&n));
        self.dd.push(dd);
        self.nodes.push(n.clone());
        self.ranges.push(r);
        self.fp.push(fp);
        self.map.insert(n, t);
        t
    }

    fn structural(&self, n: &Node) -> u128 {
        let k = |x: Tid| self.key[x as usize];
        let all = |v: &[Tid]| v.iter().fold(0u128, |a, x| a.wrapping_add(digest(&k(*x))));
        match n {
            Node::True => digest(&1u8),
            Node::False => digest(&2u8),
            Node::Const(c) => digest(&(3u8, c)),
            Node::Var(v) => {
                let i = &self.vars[*v as usize];
                digest(&(4u8, &i.name, i.lo, i.hi))
            }
            Node::Lin(c, v) => {
                let s = v.iter().fold(0u128, |a, x| a.wrapping_add(digest(&(k(x.0), x.1))));
                digest(&(5u8, c, s))
            }
            Node::Div(t, c) => digest(&(6u8, k(*t), c)),
            Node::Mul(a, b) => digest(&(7u8, k(*a).wrapping_add(k(*b)))),
            Node::Ite(a, b, c) => digest(&(8u8, k(*a), k(*b), k(*c))),
            Node::RFloor(t) => digest(&(9u8, k(*t))),
            Node::BVar(v) => digest(&(10u8, v, self as *const Arena as usize)),
            Node::Le0(t) => digest(&(11u8, k(*t))),
            Node::Eq0(t) => digest(&(12u8, k(*t))),
            Node::Not(t) => digest(&(13u8, k(*t))),
            Node::And(v) => digest(&(14u8, all(v))),
            Node::Or(v) => digest(&(15u8, all(v))),
            Node::RLin(c, v) => {
                let s = v.iter().fold(0u128, |a, x| a.wrapping_add(digest(&(k(x.0), &x.1))));
                digest(&(16u8, c, s))
            }
            Node::Round(t, p) => digest(&(17u8, k(*t), *p)),
            Node::RIte(a, b, c) => digest(&(18u8, k(*a), k(*b), k(*c))),
            Node::RMul(a, b) => digest(&(19u8, k(*a), k(*b))),
            Node::RDiv(a, b) => digest(&(20u8, k(*a), k(*b))),
            Node::RLe0(t) => digest(&(21u8, k(*t))),
            Node::RLt0(t) => digest(&(22u8, k(*t))),
            Node::REq0(t) => digest(&(23u8, k(*t))),
        }
    }
    /// The same for equal queries in all arenas.
    pub fn query_key(&self, pc: &[Tid], conds: &[Tid]) -> u128 {
        let f = |v: &[Tid]| v.iter().fold(0u128, |a, x| a.wrapping_add(digest(&self.key[*x as usize])));
        digest(&(f(pc), f(conds)))
    }

    pub fn node(&self, t: Tid) -> &Node {
        &self.nodes[t as usize]
    }

    fn static_range(&self, n: &Node) -> Range {
        match n {
            Node::Const(c) => (sat(*c), sat(*c)),
            Node::Var(v) => {
                let i = &self.vars[*v as usize];
                (i.lo, i.hi)
            }
            Node::Lin(c, ts) => {
                let f = |t: Tid| self.ranges[t as usize];
                self.lin_range(*c, ts, &f)
            }
            Node::Div(t, k) => rdiv(self.ranges[*t as usize], *k),
            Node::Mul(a, b) => rmul(self.ranges[*a as usize], self.ranges[*b as usize]),
            Node::Ite(_, a, b) => {
                let (x, y) = (self.ranges[*a as usize], self.ranges[*b as usize]);
                (x.0.min(y.0), x.1.max(y.1))
            }
            Node::RFloor(r) => {
                let (l, h) = self.rrange(*r, &NoBounds, 0);
                (l.map_or(-INF, |x| sat(x.floor())), h.map_or(INF, |x| sat(x.floor())))
            }
            _ => (-INF, INF),
        }
    }

    /// Interval of a linear form given intervals of its atoms; uses the
    /// `x - k*(x div k)` patterns to stay precise on digit extraction.
    pub fn lin_range(&self, c: i128, ts: &[(Tid, i128)], f: &dyn Fn(Tid) -> Range) -> Range {
        let mut naive = (sat(c), sat(c));
        let mut ndiv = 0;
        for &(t, k) in ts {
            naive = radd(naive, rmulc(f(t), k));
            if let Node::Div(..) = self.node(t) {
                ndiv += 1;
            }
        }
        if ndiv == 0 || ts.len() > 24 {
            return naive;
        }
        let mut best = naive;
        // chains of Div(u, a1), Div(u, a2) with a1 | a2
        best = rmeet(best, self.chain_range(c, ts, f));
        // u - m*Div(u,m) with u a general linear form
        for &(t, e) in ts {
            if let Node::Div(u, m) = self.node(t) {
                if e % *m == 0 {
                    let fct = -e / *m;
                    // rest = L - fct*(u - m*D)
                    if let Some((rc, rts)) = self.lin_sub_scaled(c, ts, *u, fct, t, *m) {
                        if rts.len() < ts.len() {
                            let rest = self.lin_range(rc, &rts, f);
                            let part = rmulc((0, *m - 1), fct);
                            best = rmeet(best, radd(rest, part));
                        }
                    }
                }
            }
        }
        best
    }

    fn chain_range(&self, c: i128, ts: &[(Tid, i128)], f: &dyn Fn(Tid) -> Range) -> Range {
        // group atoms by base u: atom itself is Div(atom,1)
        let mut groups: Vec<(Tid, Vec<(i128, Tid, i128)>)> = vec![];
        for &(t, e) in ts {
            let (u, a) = match self.node(t) {
                Node::Div(u, a) => (*u, *a),
                _ => (t, 1),
            };
            match groups.iter_mut().find(|g| g.0 == u) {
                Some(g) => g.1.push((a, t, e)),
                None => groups.push((u, vec![(a, t, e)])),
            }
        }
        let mut r = (sat(c), sat(c));
        for (_, mut g) in groups {
            g.sort_by_key(|x| x.0);
            let mut carry = 0i128;
            for i in 0..g.len() {
                let (a, t, e) = g[i];
                let coef = e + carry;
                carry = 0;
                if i + 1 < g.len() && g[i + 1].0 % a == 0 {
                    let cc = g[i + 1].0 / a;
                    // D_i = cc*D_{i+1} + m, m in [0,cc-1]
                    let m = rmeet((0, cc - 1), (-INF, INF));
                    let split = rmulc(m, coef);
                    r = radd(r, split);
                    match coef.checked_mul(cc) {
                        Some(x) => carry = x,
                        None => return (-INF, INF),
                    }
                } else {
                    r = radd(r, rmulc(f(t), coef));
                }
            }
        }
        r
    }

    fn lin_sub_scaled(
        &self,
        c: i128,
        ts: &[(Tid, i128)],
        u: Tid,
        fct: i128,
        d: Tid,
        m: i128,
    ) -> Option<(i128, Vec<(Tid, i128)>)> {
        let mut v: Vec<(Tid, i128)> = ts.to_vec();
        let mut c = c;
        let addt = |v: &mut Vec<(Tid, i128)>, t: Tid, k: i128| -> Option<()> {
            match v.iter().position(|x| x.0 == t) {
                Some(i) => {
                    v[i].1 = v[i].1.checked_add(k)?;
                    if v[i].1 == 0 {
                        v.remove(i);
                    }
                }
                None => v.push((t, k)),
            }
            Some(())
        };
        match self.node(u) {
            Node::Const(k) => c = c.checked_sub(k.checked_mul(fct)?)?,
            Node::Lin(c0, us) => {
                c = c.checked_sub(c0.checked_mul(fct)?)?;
                for &(t, k) in us.iter() {
                    addt(&mut v, t, k.checked_mul(fct)?.checked_neg()?)?;
                }
            }
            _ => addt(&mut v, u, -fct)?,
        }
        addt(&mut v, d, fct.checked_mul(m)?)?;
        Some((c, v))
    }

    // ---------- integer constructors ----------
    pub fn c(&mut self, v: i128) -> Tid {
        if let Some(&t) = self.consts.get(&v) {
            return t;
        }
        let t = self.intern(Node::Const(v));
        self.consts.insert(v, t);
        t
    }
    pub fn as_const(&self, t: Tid) -> Option<i128> {
        match self.node(t) {
            Node::Const(c) => Some(*c),
            _ => None,
        }
    }
    pub fn var(&mut self, name: &str, lo: i128, hi: i128) -> Tid {
        // variables are identified by name (deterministic along a path)
        if let Some(i) = self.vars.iter().position(|v| v.name == name && v.lo == lo && v.hi == hi) {
            return self.intern(Node::Var(i as u32));
        }
        self.vars.push(VarInfo { name: name.to_string(), lo, hi });
        self.intern(Node::Var(self.vars.len() as u32 - 1))
    }
    pub fn bvar(&mut self, name: &str) -> Tid {
        let v = self.var(name, 0, 1);
        self.ne_c(v, 0)
    }

    pub fn parts(&self, t: Tid) -> (i128, Vec<(Tid, i128)>) {
        match self.node(t) {
            Node::Const(c) => (*c, vec![]),
            Node::Lin(c, v) => (*c, v.to_vec()),
            _ => (0, vec![(t, 1)]),
        }
    }

    pub fn mk_lin(&mut self, c: i128, mut v: Vec<(Tid, i128)>) -> Tid {
        v.retain(|x| x.1 != 0);
        if v.is_empty() {
            return self.c(c);
        }
        if c == 0 && v.len() == 1 && v[0].1 == 1 {
            return v[0].0;
        }
        v.sort_by_key(|x| x.0);
        // k*(u) with u = Ite(..const..) handled elsewhere
        self.intern(Node::Lin(c, v.into_boxed_slice()))
    }

    /// a*ka + b*kb + k; None on coefficient overflow
    pub fn lin2(&mut self, a: Tid, ka: i128, b: Tid, kb: i128, k: i128) -> Option<Tid> {
        let (ca, va) = self.parts(a);
        let (cb, vb) = self.parts(b);
        let c = ca
            .checked_mul(ka)?
            .checked_add(cb.checked_mul(kb)?)?
            .checked_add(k)?;
        let mut out: Vec<(Tid, i128)> = Vec::with_capacity(va.len() + vb.len());
        let (mut i, mut j) = (0, 0);
        while i < va.len() || j < vb.len() {
            if j >= vb.len() || (i < va.len() && va[i].0 < vb[j].0) {
                out.push((va[i].0, va[i].1.checked_mul(ka)?));
                i += 1;
            } else if i >= va.len() || vb[j].0 < va[i].0 {
                out.push((vb[j].0, vb[j].1.checked_mul(kb)?));
                j += 1;
            } else {
                out.push((
                    va[i].0,
                    va[i].1.checked_mul(ka)?.checked_add(vb[j].1.checked_mul(kb)?)?,
                ));
                i += 1;
                j += 1;
            }
        }
        // keep coefficients sane
        for x in &out {
            if x.1.abs() > INF {
                return None;
            }
        }
        Some(self.mk_lin(c, out))
    }
    pub fn add(&mut self, a: Tid, b: Tid) -> Tid {
        self.lin2(a, 1, b, 1, 0).expect("lin overflow")
    }
    pub fn sub(&mut self, a: Tid, b: Tid) -> Tid {
        self.lin2(a, 1, b, -1, 0).expect("lin overflow")
    }
    pub fn addc(&mut self, a: Tid, k: i128) -> Tid {
        let z = self.c(0);
        self.lin2(a, 1, z, 0, k).expect("lin overflow")
    }
    pub fn mulc(&mut self, a: Tid, k: i128) -> Tid {
        let z = self.c(0);
        self.lin2(a, k, z, 0, 0).expect("lin overflow")
    }
    pub fn mul(&mut self, a: Tid, b: Tid) -> Tid {
        if let Some(k) = self.as_const(a) {
            return self.mulc(b, k);
        }
        if let Some(k) = self.as_const(b) {
            return self.mulc(a, k);
        }
        // distribute over Ite with constant branches
        if let Node::Ite(c, x, y) = *self.node(a) {
            if let (Some(kx), Some(ky)) = (self.as_const(x), self.as_const(y)) {
                let p = self.mulc(b, kx);
                let q = self.mulc(b, ky);
                return self.ite(c, p, q);
            }
        }
        if let Node::Ite(c, x, y) = *self.node(b) {
            if let (Some(kx), Some(ky)) = (self.as_const(x), self.as_const(y)) {
                let p = self.mulc(a, kx);
                let q = self.mulc(a, ky);
                return self.ite(c, p, q);
            }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.intern(Node::Mul(a, b))
    }

    /// floor division by k > 0
    pub fn div(&mut self, t: Tid, k: i128) -> Tid {
        assert!(k > 0);
        if k == 1 {
            return t;
        }
        if let Some(c) = self.as_const(t) {
            return self.c(c.div_euclid(k));
        }
        let r = self.ranges[t as usize];
        if r.0 > -INF && r.1 < INF && r.0.div_euclid(k) == r.1.div_euclid(k) {
            return self.c(r.0.div_euclid(k));
        }
        let (c, v) = self.parts(t);
        let mut out = vec![];
        let mut rest = vec![];
        for &(a, e) in &v {
            // e = q*k + s: pull the multiple out when it is exact
            if e % k == 0 {
                out.push((a, e / k));
            } else {
                rest.push((a, e));
            }
        }
        let qc = c.div_euclid(k);
        let rc = c.rem_euclid(k);
        let inner: Tid;
        if rest.is_empty() {
            inner = self.c(0); // floor(rc/k)=0
        } else {
            let rt = self.mk_lin(rc, rest.clone());
            let rr = self.ranges[rt as usize];
            if rr.0 > -INF && rr.1 < INF && rr.0.div_euclid(k) == rr.1.div_euclid(k) {
                inner = self.c(rr.0.div_euclid(k));
            } else {
                // common gcd with k
                let mut g = k;
                for &(_, e) in &rest {
                    g = gcd(g, e);
                }
                if g > 1 {
                    let v2: Vec<_> = rest.iter().map(|&(a, e)| (a, e / g)).collect();
                    let t2 = self.mk_lin(rc.div_euclid(g), v2);
                    inner = self.div(t2, k / g);
                } else if rest.len() == 1 && rest[0].1 == 1 {
                    // Div(Div(x,a)+c, b) = Div(x + a*c, a*b)
                    match *self.node(rest[0].0) {
                        Node::Div(x, a) if a.checked_mul(k).map_or(false, |p| p < INF) => {
                            let x2 = self.addc(x, a * rc);
                            inner = self.div(x2, a * k);
                        }
                        Node::Ite(cnd, x, y)
                            if self.as_const(x).is_some() && self.as_const(y).is_some() =>
                        {
                            let kx = (self.as_const(x).unwrap() + rc).div_euclid(k);
                            let ky = (self.as_const(y).unwrap() + rc).div_euclid(k);
                            let (a, b) = (self.c(kx), self.c(ky));
                            inner = self.ite(cnd, a, b);
                        }
                        _ => inner = self.intern(Node::Div(rt, k)),
                    }
                } else {
                    inner = self.intern(Node::Div(rt, k));
                }
            }
        }
        let (ci, vi) = self.parts(inner);
        let o = self.mk_lin(qc + ci, vec![]);
        let mut acc = o;
        let lo = {
            out.sort_by_key(|x: &(Tid, i128)| x.0);
            self.mk_lin(0, out)
        };
        acc = self.add(acc, lo);
        let iv = self.mk_lin(0, vi);
        self.add(acc, iv)
    }
    /// t mod k (euclidean), k > 0
    pub fn modk(&mut self, t: Tid, k: i128) -> Tid {
        let q = self.div(t, k);
        self.lin2(t, 1, q, -k, 0).expect("lin overflow")
    }

    pub fn ite(&mut self, c: Tid, a: Tid, b: Tid) -> Tid {
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        if let Node::Not(n) = *self.node(c) {
            return self.ite(n, b, a);
        }
        // nested with the same condition
        let a = match *self.node(a) {
            Node::Ite(c2, x, _) if c2 == c => x,
            _ => a,
        };
        let b = match *self.node(b) {
            Node::Ite(c2, _, y) if c2 == c => y,
            _ => b,
        };
        if a == b {
            return a;
        }
        // factor the common linear part: keep Ite over constants when possible
        let (ca, va) = self.parts(a);
        let (cb, vb) = self.parts(b);
        if va == vb && !va.is_empty() {
            let x = self.c(ca);
            let y = self.c(cb);
            let i = self.ite(c, x, y);
            let l = self.mk_lin(0, va);
            return self.add(i, l);
        }
        self.intern(Node::Ite(c, a, b))
    }

    pub fn of_bool(&mut self, b: Tid) -> Tid {
        let (o, z) = (self.c(1), self.c(0));
        self.ite(b, o, z)
    }

    // ---------- boolean constructors ----------
    pub fn not(&mut self, b: Tid) -> Tid {
        match self.node(b).clone() {
            Node::True => FALSE,
            Node::False => TRUE,
            Node::Not(x) => x,
            Node::Le0(t) => {
                let n = self.lin2_neg1(t);
                self.le0(n)
            }
            Node::RLe0(t) => {
                let n = self.rneg(t);
                self.intern(Node::RLt0(n))
            }
            Node::RLt0(t) => {
                let n = self.rneg(t);
                self.intern(Node::RLe0(n))
            }
            _ => self.intern(Node::Not(b)),
        }
    }
    fn lin2_neg1(&mut self, t: Tid) -> Tid {
        // t <= 0 negated: t >= 1  <=>  1 - t <= 0
        let z = self.c(0);
        self.lin2(t, -1, z, 0, 1).unwrap()
    }
    /// t <= 0
    pub fn le0(&mut self, t: Tid) -> Tid {
        if let Some(c) = self.as_const(t) {
            return if c <= 0 { TRUE } else { FALSE };
        }
        let r = self.ranges[t as usize];
        if r.1 <= 0 {
            return TRUE;
        }
        if r.0 > 0 {
            return FALSE;
        }
        // single Ite over constants
        let (c, v) = self.parts(t);
        if v.len() == 1 {
            if let Some(b) = self.ite_pred(c, v[0], &|x| x <= 0) {
                return b;
            }
        }
        let mut g = 0;
        for x in &v {
            g = gcd(g, x.1);
        }
        let t = if g > 1 || v.len() == 1 {
            // c + g*X <= 0 <=> X <= floor(-c/g)  <=> X - floor(-c/g) <= 0
            let g = g.max(1);
            let b = (-c).div_euclid(g);
            let v2 = v.iter().map(|x| (x.0, x.1 / g)).collect();
            self.mk_lin(-b, v2)
        } else {
            t
        };
        // simplification of Div(u,k) - q <= 0  <=>  u - (k*q + k-1) <= 0
        let (c, v) = self.parts(t);
        if v.len() == 1 {
            if let Node::Div(u, k) = *self.node(v[0].0) {
                if v[0].1 == 1 {
                    let q = -c;
                    if let Some(b) = q.checked_mul(k) {
                        let n = self.addc(u, -(b + k - 1));
                        return self.le0(n);
                    }
                } else if v[0].1 == -1 {
                    // c - D <= 0  <=> D >= c <=> u >= k*c
                    if let Some(b) = c.checked_mul(k) {
                        let n = self.mulc(u, -1);
                        let n = self.addc(n, b);
                        return self.le0(n);
                    }
                }
            }
        }
        self.intern(Node::Le0(t))
    }
    fn ite_pred(&mut self, c: i128, at: (Tid, i128), f: &dyn Fn(i128) -> bool) -> Option<Tid> {
        if let Node::Ite(cnd, x, y) = *self.node(at.0) {
            let (kx, ky) = (self.as_const(x), self.as_const(y));
            if let (Some(kx), Some(ky)) = (kx, ky) {
                let bx = f(c + at.1 * kx);
                let by = f(c + at.1 * ky);
                return Some(match (bx, by) {
                    (true, true) => TRUE,
                    (false, false) => FALSE,
                    (true, false) => cnd,
                    (false, true) => self.not(cnd),
                });
            }
        }
        None
    }
    pub fn le(&mut self, a: Tid, b: Tid) -> Tid {
        let d = self.sub(a, b);
        self.le0(d)
    }
    pub fn lt(&mut self, a: Tid, b: Tid) -> Tid {
        let d = self.lin2(a, 1, b, -1, 1).unwrap();
        self.le0(d)
    }
    pub fn le_c(&mut self, a: Tid, k: i128) -> Tid {
        let d = self.addc(a, -k);
        self.le0(d)
    }
    pub fn ge_c(&mut self, a: Tid, k: i128) -> Tid {
        let z = self.c(k);
        self.le(z, a)
    }
    pub fn eq0(&mut self, t: Tid) -> Tid {
        if let Some(c) = self.as_const(t) {
            return if c == 0 { TRUE } else { FALSE };
        }
        let r = self.ranges[t as usize];
        if r.0 > 0 || r.1 < 0 {
            return FALSE;
        }
        let (c, v) = self.parts(t);
        if v.len() == 1 {
            if let Some(b) = self.ite_pred(c, v[0], &|x| x == 0) {
                return b;
            }
        }
        let mut g = 0;
        for x in &v {
            g = gcd(g, x.1);
        }
        let g = g.max(1);
        if c % g != 0 {
            return FALSE;
        }
        let s = if v[0].1 < 0 { -g } else { g };
        let v2: Vec<_> = v.iter().map(|x| (x.0, x.1 / s)).collect();
        let t = self.mk_lin(c / s, v2);
        // Div(u,k) == q  <=> kq <= u <= kq+k-1
        let (c, v) = self.parts(t);
        if v.len() == 1 && v[0].1 == 1 {
            if let Node::Div(u, k) = *self.node(v[0].0) {
                let q = -c;
                let a = self.ge_c(u, k * q);
                let b = self.le_c(u, k * q + k - 1);
                return self.and(a, b);
            }
        }
        self.intern(Node::Eq0(t))
    }
    pub fn eq(&mut self, a: Tid, b: Tid) -> Tid {
        let d = self.sub(a, b);
        self.eq0(d)
    }
    pub fn eq_c(&mut self, a: Tid, k: i128) -> Tid {
        let d = self.addc(a, -k);
        self.eq0(d)
    }
    pub fn ne_c(&mut self, a: Tid, k: i128) -> Tid {
        let e = self.eq_c(a, k);
        self.not(e)
    }
    pub fn and(&mut self, a: Tid, b: Tid) -> Tid {
        self.andn(&[a, b])
    }
    pub fn andn(&mut self, v: &[Tid]) -> Tid {
        let mut out: Vec<Tid> = vec![];
        for &x in v {
            match self.node(x) {
                Node::True => {}
                Node::False => return FALSE,
                Node::And(w) => out.extend_from_slice(w),
                _ => out.push(x),
            }
        }
        out.sort_unstable();
        out.dedup();
        for &x in &out.clone() {
            let n = self.not(x);
            if out.binary_search(&n).is_ok() {
                return FALSE;
            }
        }
        match out.len() {
            0 => TRUE,
            1 => out[0],
            _ => self.intern(Node::And(out.into_boxed_slice())),
        }
    }
    pub fn or(&mut self, a: Tid, b: Tid) -> Tid {
        self.orn(&[a, b])
    }
    pub fn orn(&mut self, v: &[Tid]) -> Tid {
        let mut out: Vec<Tid> = vec![];
        for &x in v {
            match self.node(x) {
                Node::False => {}
                Node::True => return TRUE,
                Node::Or(w) => out.extend_from_slice(w),
                _ => out.push(x),
            }
        }
        out.sort_unstable();
        out.dedup();
        for &x in &out.clone() {
            let n = self.not(x);
            if out.binary_search(&n).is_ok() {
                return TRUE;
            }
        }
        match out.len() {
            0 => FALSE,
            1 => out[0],
            _ => self.intern(Node::Or(out.into_boxed_slice())),
        }
    }
    pub fn iff(&mut self, a: Tid, b: Tid) -> Tid {
        if a == b {
            return TRUE;
        }
        let (na, nb) = (self.not(a), self.not(b));
        if na == b {
            return FALSE;
        }
        match (a, b) {
            (TRUE, _) => return b,
            (_, TRUE) => return a,
            (FALSE, _) => return nb,
            (_, FALSE) => return na,
            _ => {}
        }
        let x = self.and(a, b);
        let y = self.and(na, nb);
        self.or(x, y)
    }
    pub fn bite(&mut self, c: Tid, a: Tid, b: Tid) -> Tid {
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        let nc = self.not(c);
        let x = self.and(c, a);
        let y = self.and(nc, b);
        self.or(x, y)
    }

    // ---------- reals ----------
    pub fn rconst(&mut self, r: Rat) -> Tid {
        self.intern(Node::RLin(r, Box::new([])))
    }
    pub fn rparts(&self, t: Tid) -> (Rat, Vec<(Tid, Rat)>) {
        match self.node(t) {
            Node::RLin(c, v) => (*c, v.to_vec()),
            Node::Const(c) => (Rat::int(*c), vec![]),
            Node::Lin(c, v) => (
                Rat::int(*c),
                v.iter().map(|x| (x.0, Rat::int(x.1))).collect(),
            ),
            _ => (Rat::ZERO, vec![(t, Rat::int(1))]),
        }
    }
    pub fn mk_rlin(&mut self, c: Rat, mut v: Vec<(Tid, Rat)>) -> Tid {
        v.retain(|x| x.1.n != 0);
        v.sort_by_key(|x| x.0);
        self.intern(Node::RLin(c, v.into_boxed_slice()))
    }
    pub fn of_int(&mut self, t: Tid) -> Tid {
        let (c, v) = self.rparts(t);
        self.mk_rlin(c, v)
    }
    pub fn radd2(&mut self, a: Tid, ka: Rat, b: Tid, kb: Rat) -> Option<Tid> {
        let (ca, va) = self.rparts(a);
        let (cb, vb) = self.rparts(b);
        let c = ca.mul(ka)?.add(cb.mul(kb)?)?;
        let mut out: Vec<(Tid, Rat)> = vec![];
        for (t, k) in va {
            out.push((t, k.mul(ka)?));
        }
        for (t, k) in vb {
            let k = k.mul(kb)?;
            match out.iter().position(|x| x.0 == t) {
                Some(i) => out[i].1 = out[i].1.add(k)?,
                None => out.push((t, k)),
            }
        }
        Some(self.mk_rlin(c, out))
    }
    pub fn rneg(&mut self, a: Tid) -> Tid {
        let z = self.rconst(Rat::ZERO);
        self.radd2(a, Rat::int(-1), z, Rat::ZERO).expect("rat overflow")
    }
    pub fn rscale(&mut self, a: Tid, k: Rat) -> Option<Tid> {
        let z = self.rconst(Rat::ZERO);
        self.radd2(a, k, z, Rat::ZERO)
    }
    pub fn as_rconst(&self, t: Tid) -> Option<Rat> {
        match self.node(t) {
            Node::RLin(c, v) if v.is_empty() => Some(*c),
            _ => None,
        }
    }
    /// All atoms integers: (integer linear form, denominator)
    pub fn rational_of_ints(&mut self, t: Tid) -> Option<(Tid, i128)> {
        let (c, v) = self.rparts(t);
        let mut d = c.d;
        for (a, k) in &v {
            if !self.is_int(*a) {
                return None;
            }
            d = (d / gcd(d, k.d)).checked_mul(k.d)?;
        }
        let c0 = c.n.checked_mul(d / c.d)?;
        let mut out = vec![];
        for (a, k) in v {
            out.push((a, k.n.checked_mul(d / k.d)?));
        }
        Some((self.mk_lin(c0, out), d))
    }
    pub fn is_int(&self, t: Tid) -> bool {
        matches!(
            self.node(t),
            Node::Const(_)
                | Node::Var(_)
                | Node::Lin(..)
                | Node::Div(..)
                | Node::Mul(..)
                | Node::Ite(..)
                | Node::RFloor(_)
        )
    }
    pub fn is_bool(&self, t: Tid) -> bool {
        matches!(
            self.node(t),
            Node::True
                | Node::False
                | Node::BVar(_)
                | Node::Le0(_)
                | Node::Eq0(_)
                | Node::Not(_)
                | Node::And(_)
                | Node::Or(_)
                | Node::RLe0(_)
                | Node::RLt0(_)
                | Node::REq0(_)
        )
    }
    pub fn rle0(&mut self, t: Tid) -> Tid {
        if let Some((l, _)) = self.rational_of_ints(t) {
            return self.le0(l);
        }
        let (lo, hi) = self.rrange(t, &NoBounds, 0);
        if hi.map_or(false, |h| h.n <= 0) {
            return TRUE;
        }
        if lo.map_or(false, |l| l.n > 0) {
            return FALSE;
        }
        self.intern(Node::RLe0(t))
    }
    pub fn rlt0(&mut self, t: Tid) -> Tid {
        if let Some((l, _)) = self.rational_of_ints(t) {
            let l = self.addc(l, 1);
            return self.le0(l);
        }
        let (lo, hi) = self.rrange(t, &NoBounds, 0);
        if hi.map_or(false, |h| h.n < 0) {
            return TRUE;
        }
        if lo.map_or(false, |l| l.n >= 0) {
            return FALSE;
        }
        self.intern(Node::RLt0(t))
    }
    pub fn req0(&mut self, t: Tid) -> Tid {
        if let Some((l, _)) = self.rational_of_ints(t) {
            return self.eq0(l);
        }
        let (lo, hi) = self.rrange(t, &NoBounds, 0);
        if hi.map_or(false, |h| h.n < 0) || lo.map_or(false, |l| l.n > 0) {
            return FALSE;
        }
        self.intern(Node::REq0(t))
    }
    pub fn rfloor(&mut self, t: Tid) -> Tid {
        if let Some((l, d)) = self.rational_of_ints(t) {
            return self.div(l, d);
        }
        // pull integer parts out
        let (c, v) = self.rparts(t);
        let mut ints = vec![];
        let mut rest = vec![];
        for (a, k) in v {
            if k.d == 1 && self.is_int(a) {
                ints.push((a, k.n));
            } else {
                rest.push((a, k));
            }
        }
        let fl = c.floor();
        let r = self.mk_rlin(c.sub(Rat::int(fl)).unwrap(), rest);
        let f = self.intern(Node::RFloor(r));
        let l = self.mk_lin(fl, ints);
        self.add(f, l)
    }
    pub fn rite(&mut self, c: Tid, a: Tid, b: Tid) -> Tid {
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        let t = self.intern(Node::RIte(c, a, b));
        self.mk_rlin(Rat::ZERO, vec![(t, Rat::int(1))])
    }

    /// Interval of a real term.
    pub fn rrange(&self, t: Tid, b: &dyn Bounds, depth: u32) -> (Option<Rat>, Option<Rat>) {
        if depth > 12 {
            return (None, None);
        }
        match self.node(t) {
            Node::RLin(c, v) => {
                let (mut lo, mut hi) = (Some(*c), Some(*c));
                // the integer atoms together, as correlations between them count
                let mut den = Some(1i128);
                for (a, k) in v.iter() {
                    if self.is_int(*a) {
                        den = den.and_then(|d| d.checked_mul(k.d / gcd(d, k.d)));
                    }
                }
                let mut den = den.filter(|d| *d < 1 << 40);
                if let Some(d) = den {
                    let ints: Option<Vec<(Tid, i128)>> = v
                        .iter()
                        .filter(|(a, _)| self.is_int(*a))
                        .map(|(a, k)| Some((*a, k.n.checked_mul(d / k.d)?)))
                        .collect();
                    if let Some(ints) = ints.filter(|i| i.len() > 1) {
                        let r = self.lin_range(0, &ints, &|x| match b.get(x) {
                            Some(y) => rmeet(self.ranges[x as usize], y),
                            None => self.ranges[x as usize],
                        });
                        let f = |acc: Option<Rat>, x: i128| acc?.add(Rat::new(x, d)?);
                        lo = if r.0 <= -INF { None } else { f(lo, r.0) };
                        hi = if r.1 >= INF { None } else { f(hi, r.1) };
                    } else {
                        den = None;
                    }
                }
                for (a, k) in v.iter() {
                    if den.is_some() && self.is_int(*a) {
                        continue;
                    }
                    let (l, h) = self.rrange(*a, b, depth + 1);
                    let (l, h) = if k.n > 0 { (l, h) } else { (h, l) };
                    let f = |acc: Option<Rat>, x: Option<Rat>| -> Option<Rat> {
                        acc?.add(x?.mul(*k)?)
                    };
                    lo = f(lo, l);
                    hi = f(hi, h);
                }
                (lo, hi)
            }
            Node::Round(e, p) => {
                let (l, h) = self.rrange(*e, b, depth + 1);
                // rounding is monotone
                let f = |x: Option<Rat>| -> Option<Rat> { Rat::from_f64(x?.rounded(*p)?) };
                (f(l), f(h))
            }
            Node::RIte(_, x, y) => {
                let (a, c) = (self.rrange(*x, b, depth + 1), self.rrange(*y, b, depth + 1));
                let mn = |p: Option<Rat>, q: Option<Rat>| -> Option<Rat> {
                    let (p, q) = (p?, q?);
                    Some(if p.cmp(q)? == std::cmp::Ordering::Less { p } else { q })
                };
                let mx = |p: Option<Rat>, q: Option<Rat>| -> Option<Rat> {
                    let (p, q) = (p?, q?);
                    Some(if p.cmp(q)? == std::cmp::Ordering::Less { q } else { p })
                };
                (mn(a.0, c.0), mx(a.1, c.1))
            }
            Node::RMul(x, y) => {
                let (a, c) = (self.rrange(*x, b, depth + 1), self.rrange(*y, b, depth + 1));
                (|| -> Option<(Option<Rat>, Option<Rat>)> {
                    let ps = [
                        a.0?.mul(c.0?)?,
                        a.0?.mul(c.1?)?,
                        a.1?.mul(c.0?)?,
                        a.1?.mul(c.1?)?,
                    ];
                    let mut lo = ps[0];
                    let mut hi = ps[0];
                    for p in ps {
                        if p.cmp(lo)? == std::cmp::Ordering::Less {
                            lo = p;
                        }
                        if p.cmp(hi)? == std::cmp::Ordering::Greater {
                            hi = p;
                        }
                    }
                    Some((Some(lo), Some(hi)))
                })()
                .unwrap_or((None, None))
            }
            Node::RDiv(..) => (None, None),
            _ => {
                let mut r = self.ranges[t as usize];
                if let Some(x) = b.get(t) {
                    r = rmeet(r, x);
                }
                (
                    if r.0 <= -INF { None } else { Some(Rat::int(r.0)) },
                    if r.1 >= INF { None } else { Some(Rat::int(r.1)) },
                )
            }
        }
    }

    /// IEEE rounding of an exact real; exact when provably representable.
    pub fn round(&mut self, e: Tid, p: u8, b: &dyn Bounds) -> Option<Tid> {
        let (c, v) = self.rparts(e);
        if v.is_empty() {
            let f = c.rounded(p)?;
            let r = Rat::from_f64(f)?;
            return Some(self.rconst(r));
        }
        let (lo, hi) = self.rrange(e, b, 0);
        if let (Some(lo), Some(hi)) = (lo, hi) {
            // dyadic exactness: all coefficients multiples of 2^-k, |e| <= 2^(53-k)
            let mut den = c.d;
            let mut ok = c.is_pow2_den();
            for (a, k) in &v {
                if !k.is_pow2_den() {
                    ok = false;
                }
                match self.node(*a) {
                    _ if self.is_int(*a) => den = den.max(k.d),
                    _ => ok = false,
                }
            }
            if ok && den < (1 << 60) {
                let m = lo.n.abs() / lo.d;
                let m2 = hi.n.abs() / hi.d;
                let lim = (1i128 << p) / den;
                // also: common power-of-two factor of all terms widens the limit
                let mut g = c.n.checked_mul(den / c.d).unwrap_or(1);
                for (_, k) in &v {
                    g = gcd(g, k.n.checked_mul(den / k.d).unwrap_or(1));
                }
                let tz = if g == 0 { 0 } else { g.trailing_zeros().min(40) };
                let lim = lim.saturating_mul(1 << tz);
                if m < lim && m2 < lim {
                    return Some(e);
                }
            }
            // already a double: Round(x) or its negation / power-of-two multiple
            if v.len() == 1 && c.n == 0 {
                if matches!(self.node(v[0].0), Node::Round(_, q) if *q <= p) {
                    let k = v[0].1;
                    let a = k.n.abs();
                    if k.is_pow2_den() && a & (a - 1) == 0 {
                        return Some(e);
                    }
                }
            }
        }
        let r = self.intern(Node::Round(e, p));
        Some(self.mk_rlin(Rat::ZERO, vec![(r, Rat::int(1))]))
    }
}

pub fn rmul(a: Range, b: Range) -> Range {
    let big = |x: i128| x >= INF || x <= -INF;
    if big(a.0) || big(a.1) || big(b.0) || big(b.1) {
        return (-INF, INF);
    }
    let m = |x: i128, y: i128| match x.checked_mul(y) {
        Some(v) => sat(v),
        None => {
            if (x > 0) == (y > 0) {
                INF
            } else {
                -INF
            }
        }
    };
    let p = [m(a.0, b.0), m(a.0, b.1), m(a.1, b.0), m(a.1, b.1)];
    (*p.iter().min().unwrap(), *p.iter().max().unwrap())
}

// ---------- evaluation under a model ----------

#[derive(Clone, Default, Debug)]
pub struct Model {
    pub vals: HashMap<u32, i128>, // var index -> value
}

#[derive(Clone, Default, Debug)]
pub struct Memo {
    i: HashMap<Tid, i128>,
    b: HashMap<Tid, bool>,
    r: HashMap<Tid, Rat>,
}

pub struct Eval<'a> {
    pub a: &'a Arena,
    pub m: &'a Model,
    pub memo: Memo,
}

impl<'a> Eval<'a> {
    pub fn new(a: &'a Arena, m: &'a Model) -> Eval<'a> {
        Eval { a, m, memo: Memo::default() }
    }
    pub fn int(&mut self, t: Tid) -> Option<i128> {
        match self.a.node(t) {
            Node::Const(c) => return Some(*c),
            Node::Var(v) => {
                let i = &self.a.vars[*v as usize];
                return Some(match self.m.vals.get(v) {
                    Some(x) => *x,
                    None => 0i128.clamp(i.lo, i.hi),
                });
            }
            _ => {}
        }
        if let Some(v) = self.memo.i.get(&t) {
            return Some(*v);
        }
        let v = match self.a.node(t) {
            Node::Lin(c, ts) => {
                let mut s = *c;
                for (x, k) in ts.iter() {
                    s = s.checked_add(self.int(*x)?.checked_mul(*k)?)?;
                }
                s
            }
            Node::Div(x, k) => self.int(*x)?.div_euclid(*k),
            Node::Mul(x, y) => self.int(*x)?.checked_mul(self.int(*y)?)?,
            Node::Ite(c, x, y) => {
                if self.bool(*c)? {
                    self.int(*x)?
                } else {
                    self.int(*y)?
                }
            }
            Node::RFloor(r) => self.real(*r)?.floor(),
            _ => return None,
        };
        self.memo.i.insert(t, v);
        Some(v)
    }
    pub fn bool(&mut self, t: Tid) -> Option<bool> {
        match self.a.node(t) {
            Node::True => return Some(true),
            Node::False => return Some(false),
            _ => {}
        }
        if let Some(v) = self.memo.b.get(&t) {
            return Some(*v);
        }
        let v = match self.a.node(t) {
            Node::Le0(x) => self.int(*x)? <= 0,
            Node::Eq0(x) => self.int(*x)? == 0,
            Node::Not(x) => !self.bool(*x)?,
            Node::And(v) => {
                let mut r = true;
                for x in v.iter() {
                    if !self.bool(*x)? {
                        r = false;
                        break;
                    }
                }
                r
            }
            Node::Or(v) => {
                let mut r = false;
                for x in v.iter() {
                    if self.bool(*x)? {
                        r = true;
                        break;
                    }
                }
                r
            }
            Node::RLe0(x) => self.real(*x)?.n <= 0,
            Node::RLt0(x) => self.real(*x)?.n < 0,
            Node::REq0(x) => self.real(*x)?.n == 0,
            _ => return None,
        };
        self.memo.b.insert(t, v);
        Some(v)
    }
    pub fn real(&mut self, t: Tid) -> Option<Rat> {
        if self.a.is_int(t) {
            return Some(Rat::int(self.int(t)?));
        }
        if let Some(v) = self.memo.r.get(&t) {
            return Some(*v);
        }
        let v = match self.a.node(t) {
            Node::RLin(c, ts) => {
                let mut s = *c;
                for (x, k) in ts.iter() {
                    s = s.add(self.real(*x)?.mul(*k)?)?;
                }
                s
            }
            Node::Round(e, p) => Rat::from_f64(self.real(*e)?.rounded(*p)?)?,
            Node::RIte(c, x, y) => {
                if self.bool(*c)? {
                    self.real(*x)?
                } else {
                    self.real(*y)?
                }
            }
            Node::RMul(x, y) => self.real(*x)?.mul(self.real(*y)?)?,
            Node::RDiv(x, y) => self.real(*x)?.div(self.real(*y)?)?,
            _ => return None,
        };
        self.memo.r.insert(t, v);
        Some(v)
    }
}

impl Arena {
    /// Readable form, for diagnostics.
    pub fn show(&self, t: Tid) -> String {
        let list = |v: &[Tid], o: &str| v.iter().map(|x| self.show(*x)).collect::<Vec<_>>().join(o);
        match self.node(t) {
            Node::Var(v) => format!("v{}", v),
            Node::Const(c) => c.to_string(),
            Node::Lin(c, ts) => {
                let mut s = format!("({}", c);
                for (x, k) in ts.iter() {
                    s.push_str(&format!(" + {}*{}", k, self.show(*x)));
                }
                s + ")"
            }
            Node::Div(x, k) => format!("{}/{}", self.show(*x), k),
            Node::Ite(c, p, q) => format!("({} ? {} : {})", self.show(*c), self.show(*p), self.show(*q)),
            Node::Le0(x) => format!("{}<=0", self.show(*x)),
            Node::Eq0(x) => format!("{}==0", self.show(*x)),
            Node::Not(x) => format!("!{}", self.show(*x)),
            Node::And(v) => format!("({})", list(v, " & ")),
            Node::Or(v) => format!("({})", list(v, " | ")),
            Node::RFloor(x) => format!("floor[{}]", self.show(*x)),
            Node::Round(x, p) => format!("fl{}[{}]", p, self.show(*x)),
            Node::RLin(c, ts) => {
                let mut s = format!("({}", c.show());
                for (x, k) in ts.iter() {
                    s.push_str(&format!(" + {}*{}", k.show(), self.show(*x)));
                }
                s + ")"
            }
            n => format!("{:?}", n),
        }
    }
}
