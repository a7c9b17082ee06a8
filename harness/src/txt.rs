//! Texts with symbolic digits.
use crate::vf::*;

pub struct Txt {
    b: [u8; 192],
    n: usize,
}
impl Txt {
    #[inline(always)]
    pub fn new() -> Txt {
        Txt { b: [0; 192], n: 0 }
    }
    pub fn of(s: &str) -> Txt {
        let mut t = Txt::new();
        t.lit(s);
        t
    }
    pub fn lit(&mut self, s: &str) {
        for c in s.as_bytes() {
            self.ch(*c);
        }
    }
    #[inline(always)]
    pub fn ch(&mut self, c: u8) {
        self.b[self.n] = c;
        self.n += 1;
    }
    /// `w` decimal digits whose value lies in `lo..=hi`; the value.
    pub fn num(&mut self, w: usize, lo: i64, hi: i64) -> i64 {
        let mut p = 1;
        for _ in 1..w {
            p *= 10;
        }
        let mut v = 0;
        for k in 0..w {
            let d = if k == 0 { int(0, if hi / p < 9 { hi / p } else { 9 }) } else { int(0, 9) };
            self.ch(b'0' + d as u8);
            v += d * p;
            p /= 10;
        }
        assume(v >= lo && v <= hi);
        hint(v);
        v
    }
    pub fn s(&self) -> &str {
        unsafe { std::str::from_utf8_unchecked(&self.b[..self.n]) }
    }
}
