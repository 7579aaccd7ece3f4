//! longer iterators, with claims around the truth
use crate::big::*;
use crate::env::*;
use crate::{check, sx};
use lokky::small_vec::SmallVec;
use lokky::string::String;
use lokky::vec::Vec;

const FILE: u32 = 49;

harnesses! { lt_vec lt_sv lt_str lt_text }

struct It { a: Seq, i: usize, lo: usize, hi: Option<usize> }
impl Iterator for It {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        check!(self.i <= self.a.n);
        self.i += 1;
        if self.i > self.a.n { return None; }
        Some(Tok::new(self.a.v[self.i - 1]))
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.lo, self.hi) }
}
fn claim(n: usize) -> (usize, Option<usize>) {
    match sx::choose(6) {
        0 => (0, None),
        1 => (n, Some(n)),
        2 => (n / 2, Some(n + 1)),
        3 => (n + 1, Some(n)),
        4 => (n + 100, None),
        _ => (0, Some(0)),
    }
}
fn it(n: usize) -> (It, Seq) {
    let mut a = Seq::new();
    for _ in 0..n { a.push(sx::u32()); }
    let (lo, hi) = claim(n);
    (It { a: a.clone(), i: 0, lo, hi }, a)
}

macro_rules! both {
    ($f:ident, $T:ty, $mk:expr) => {
        #[no_mangle]
        pub fn $f() {
            init();
            let (i, k) = it(len());
            if sx::bool() {
                let v: $T = i.collect();
                k.same(&v);
                check!(v.capacity() >= v.len());
                drop(v);
            } else {
                let (mut v, mut m) = $mk;
                v.extend(i);
                m.extend(&k);
                m.same(&v);
                check!(toks_live() == m.n);
                drop(v);
            }
            done();
        }
    };
}
trait Ext { fn extend(&mut self, i: It); }
impl Ext for Vec<Tok> { fn extend(&mut self, i: It) { self.extend_from_iter(i) } }
both!(lt_vec, Vec<Tok>, vec([3, 33, 64][sx::choose(3)], [0, 1, 40][sx::choose(3)]));
both!(lt_sv, SmallVec<Tok, 33>, { let n = [3, 32, 33, 64][sx::choose(4)]; sv(n, n > 33 || sx::bool()) });

struct Ch { c: [char; 280], n: usize, i: usize, lo: usize }
impl Iterator for Ch {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        check!(self.i <= self.n);
        self.i += 1;
        if self.i > self.n { None } else { Some(self.c[self.i - 1]) }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.lo, None) }
}
const CS: [char; 5] = ['a', 'é', 'z', '€', '😀'];
fn chars() -> (Ch, [u8; 1000], usize) {
    let n = [7, 17, 33, 65, 130][sx::choose(5)];
    let mut c = ['x'; 280];
    let mut b = [0; 1000];
    let mut k = 0;
    for i in 0..n {
        c[i] = if sx::conc(i) == n / 2 { match sx::choose(3) { 0 => 'q', 1 => 'ß', _ => '한' } } else { CS[i % 5] };
        k += c[i].encode_utf8(&mut b[k..]).len();
    }
    (Ch { c, n, i: 0, lo: [0, n, n + 50][sx::choose(3)] }, b, k)
}
fn same(s: &str, b: &[u8]) {
    check!(s.len() == b.len());
    let t = s.as_bytes();
    for i in 0..b.len() { check!(t[i] == b[i]); }
}
/// characters
#[no_mangle]
pub fn lt_str() {
    init();
    let (c, b, k) = chars();
    if sx::bool() { let s: String = c.collect(); same(&s, &b[..k]); }
    else { let mut s = String::from("ab"); s.extend(c); check!(s.starts_with("ab")); same(&s[2..], &b[..k]); }
    done();
}

/// many pieces of text
#[no_mangle]
pub fn lt_text() {
    init();
    let n = len();
    let p = ["", "a", "é€", "0123456789abcdefghij"];
    let o = sx::choose(4);
    let mut b = [0u8; 2800];
    let mut k = 0;
    for i in 0..n { let t = p[(i + o) % 4].as_bytes(); for x in t { b[k] = *x; k += 1; } }
    let s: String = match sx::choose(3) {
        0 => (0..n).map(|i| p[(i + o) % 4]).collect(),
        1 => (0..n).map(|i| String::from(p[(i + o) % 4])).collect(),
        _ => { let mut s = String::new(); for i in 0..n { s += p[(i + o) % 4]; } s }
    };
    same(&s, &b[..k]);
    drop(s);
    done();
}
