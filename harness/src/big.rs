//! containers that are larger than the exhaustive harnesses build: the length is one of a few, contents are arbitrary
use crate::env::*;
use crate::{check, sx};
use lokky::small_vec::SmallVec;
use lokky::vec::Vec;

const FILE: u32 = 35;

pub const MAX: usize = 360;
/// reference sequence
#[derive(Clone)]
pub struct Seq {
    pub v: [u32; MAX],
    pub n: usize,
}
impl Seq {
    pub fn new() -> Seq { Seq { v: [0; MAX], n: 0 } }
    pub fn push(&mut self, x: u32) {
        self.v[self.n] = x;
        self.n += 1;
    }
    pub fn insert(&mut self, i: usize, x: u32) {
        let mut j = self.n;
        while j > i {
            self.v[j] = self.v[j - 1];
            j -= 1;
        }
        self.v[i] = x;
        self.n += 1;
    }
    pub fn remove(&mut self, i: usize) -> u32 {
        let r = self.v[i];
        self.cut(i, i + 1);
        r
    }
    /// without a..b
    pub fn cut(&mut self, a: usize, b: usize) {
        let mut j = b;
        while j < self.n {
            self.v[a + j - b] = self.v[j];
            j += 1;
        }
        self.n -= b - a;
    }
    pub fn extend(&mut self, o: &Seq) {
        let mut i = 0;
        while i < o.n {
            self.push(o.v[i]);
            i += 1;
        }
    }
    pub fn same(&self, s: &[Tok]) { self.same_part(0, self.n, s) }
    /// s holds a..b
    pub fn same_part(&self, a: usize, b: usize, s: &[Tok]) {
        check!(s.len() == b - a);
        let mut i = a;
        while i < b {
            let t = &s[i - a];
            t.ok();
            check!(t.val == self.v[i]);
            i += 1;
        }
        if b > a { sx::log(9500, s[0].val as u64); sx::log(9501, s[b - a - 1].val as u64); }
    }
}

const LENS: [usize; 8] = [7, 16, 17, 33, 64, 65, 130, 260];
pub fn len() -> usize { LENS[sx::choose(8)] }
/// a position in 0..n (n > 2), near the ends or inside
pub fn pos(n: usize) -> usize {
    match sx::choose(6) {
        0 => 0,
        1 => 1,
        2 => n / 4,
        3 => n / 2 + 1,
        4 => n - 2,
        _ => n - 1,
    }
}
pub fn fill(mut put: impl FnMut(Tok), n: usize) -> Seq {
    let mut m = Seq::new();
    for _ in 0..n {
        let x = sx::u32();
        put(Tok::new(x));
        m.push(x);
    }
    m
}
/// a vector of n elements, full or with room
pub fn vec(n: usize, spare: usize) -> (Vec<Tok>, Seq) {
    let mut v = Vec::<Tok>::with_capacity(n + spare);
    let p = v.as_mut_ptr();
    let mut i = 0;
    let m = fill(|t| unsafe { p.add(i).write(t); i += 1 }, n);
    unsafe { v.set_len(n) };
    (v, m)
}
pub fn any_vec() -> (Vec<Tok>, Seq) { vec(len(), sx::choose(2) * 3) }
/// inline capacity 33: inline, filling it exactly, or on the heap
pub type Sv = SmallVec<Tok, 33>;
pub fn sv(n: usize, heap: bool) -> (Sv, Seq) {
    let mut v = if heap { Sv::with_capacity(if n > 33 { n } else { 34 }) } else { Sv::new() };
    let m = fill(|t| v.push(t), n);
    check!(v.is_heap() == heap && v.len() == n);
    (v, m)
}
pub fn any_sv() -> (Sv, Seq) {
    let n = len();
    let heap = n > 33 || sx::choose(2) == 1;
    sv(n, heap)
}
