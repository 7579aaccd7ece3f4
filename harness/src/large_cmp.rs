//! comparing and viewing longer contents
use crate::big::*;
use crate::env::*;
use crate::{check, sx};
use lokky::arc::Arc;
use lokky::boxed::Box;
use lokky::rc::Rc;
use lokky::small_vec::SmallVec;
use lokky::string::String;
use lokky::vec::Vec;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

const FILE: u32 = 50;

harnesses! { lc_vec lc_sv lc_str lc_box lc_view }

pub struct Rec { b: [u8; 2400], n: usize }
impl Rec {
    fn of<T: Hash + ?Sized>(t: &T) -> Rec { let mut r = Rec { b: [0; 2400], n: 0 }; t.hash(&mut r); r }
    fn same(&self, o: &Rec) {
        check!(self.n == o.n);
        let mut i = 0;
        while i < self.n { check!(self.b[i] == o.b[i]); i += 1; }
    }
}
impl Hasher for Rec {
    fn finish(&self) -> u64 { self.n as u64 }
    fn write(&mut self, bytes: &[u8]) {
        let mut i = 0;
        while i < bytes.len() { self.b[self.n] = bytes[i]; self.n += 1; i += 1; }
    }
}
fn total<T: Ord + Hash>(a: &T, b: &T, o: Ordering) {
    check!((a == b) == (o == Ordering::Equal));
    check!((a != b) == (o != Ordering::Equal));
    check!(a.partial_cmp(b) == Some(o) && a.cmp(b) == o && b.cmp(a) == o.reverse());
    check!((a < b) == (o == Ordering::Less));
    check!((a > b) == (o == Ordering::Greater));
    check!((a <= b) == (o != Ordering::Greater));
    check!((a >= b) == (o != Ordering::Less));
    if o == Ordering::Equal { Rec::of(a).same(&Rec::of(b)); }
    sx::log(1, o as i8 as u8 as u64);
}

/// two sequences that agree but for one position, and perhaps end at different places
struct Pair { a: Seq, b: Seq, o: Ordering }
fn pair() -> Pair {
    let n = [7, 33, 65, 260][sx::choose(4)];
    let mut a = Seq::new();
    for i in 0..n { a.push(if i % 16 == 3 { sx::u32() } else { i as u32 }); }
    let mut b = a.clone();
    let mut o = Ordering::Equal;
    if sx::bool() {
        let p = pos(n);
        let x = sx::u32();
        if a.v[p] != x { o = if a.v[p] < x { Ordering::Less } else { Ordering::Greater }; }
        b.v[p] = x;
    }
    match sx::choose(4) {
        0 => { a.n -= 1; if o_tail(&a, &b) == Ordering::Equal { o = Ordering::Less; } else { o = o_tail(&a, &b); } }
        1 => { b.n = n / 2; o = o_tail(&a, &b); if o == Ordering::Equal { o = Ordering::Greater; } }
        _ => {}
    }
    Pair { a, b, o }
}
/// order over the common length
fn o_tail(a: &Seq, b: &Seq) -> Ordering {
    let n = if a.n < b.n { a.n } else { b.n };
    let mut i = 0;
    while i < n {
        if a.v[i] != b.v[i] { return if a.v[i] < b.v[i] { Ordering::Less } else { Ordering::Greater }; }
        i += 1;
    }
    Ordering::Equal
}
fn vec_of(s: &Seq, spare: usize) -> Vec<u32> {
    let mut v = Vec::with_capacity(s.n + spare);
    let mut i = 0;
    while i < s.n { v.push(s.v[i]); i += 1; }
    v
}

#[no_mangle]
pub fn lc_vec() {
    init();
    let p = pair();
    let (a, b) = (vec_of(&p.a, 0), vec_of(&p.b, 5));
    total(&a, &b, p.o);
    check!((a.as_slice() == b.as_slice()) == (p.o == Ordering::Equal));
    drop((a, b));
    done();
}
#[no_mangle]
pub fn lc_sv() {
    init();
    let p = pair();
    let mut a = SmallVec::<u32, 33>::new();
    let mut b = SmallVec::<u32, 33>::with_capacity(40);
    let mut i = 0;
    while i < p.a.n { a.push(p.a.v[i]); i += 1; }
    i = 0;
    while i < p.b.n { b.push(p.b.v[i]); i += 1; }
    total(&a, &b, p.o);
    drop((a, b));
    done();
}
#[no_mangle]
pub fn lc_box() {
    init();
    let p = pair();
    let (a, b) = (vec_of(&p.a, 0), vec_of(&p.b, 5));
    match sx::choose(3) {
        0 => total(&a.into_boxed_slice(), &b.into_boxed_slice(), p.o),
        1 => total(&Rc::new(a), &Rc::new(b), p.o),
        _ => total(&Arc::new(a), &Box::<Vec<u32>>::new(b).into_inner_arc(), p.o),
    }
    done();
}
trait ToArc { fn into_inner_arc(self) -> Arc<Vec<u32>>; }
impl ToArc for Box<Vec<u32>> { fn into_inner_arc(self) -> Arc<Vec<u32>> { Arc::new(Box::into_inner(self)) } }

/// texts: bytes decide
#[no_mangle]
pub fn lc_str() {
    init();
    let n = [7, 16, 33, 65][sx::choose(4)];
    let p = pos(n);
    let (x, y) = (sx::u8() & 0x7f, sx::u8() & 0x7f);
    let cut = sx::choose(3);
    let mut a = String::with_capacity(n + 9);
    let mut b = String::new();
    for i in 0..n {
        if !(cut == 1 && i == n - 1) { if i == p { a.push(x as char) } else { a.push_str(["k", "ü", "€"][i % 3]) } }
        if !(cut == 2 && i == n - 1) { if i == p { b.push(y as char) } else { b.push_str(["k", "ü", "€"][i % 3]) } }
    }
    let short = p == n - 1 && cut != 0;
    let o = if !short && x != y { if x < y { Ordering::Less } else { Ordering::Greater } }
        else if cut == 1 { Ordering::Less } else if cut == 2 { Ordering::Greater } else { Ordering::Equal };
    total(&a, &b, o);
    check!((a.as_str() == b.as_str()) == (o == Ordering::Equal));
    drop((a, b));
    done();
}

/// every way to look at a long sequence
#[no_mangle]
pub fn lc_view() {
    init();
    let (mut v, mut m) = vec([7, 33, 130, 260][sx::choose(4)], sx::choose(2) * 3);
    let n = m.n;
    let i = pos(n);
    let y = sx::u32();
    check!(v[i].val == m.v[i] && v.get(i).is_some() && v.get(n).is_none());
    m.same_part(i, n, &v[i..]);
    m.same_part(0, i, &v[..i]);
    m.same_part(1, i + 1, if i > 0 { &v[1..=i] } else { &v[1..1] });
    v[i].val = y;
    m.v[i] = y;
    let s: &[Tok] = v.borrow();
    m.same(s);
    m.same(v.as_ref());
    m.same(v.as_mut_slice());
    let mut k = 0;
    for t in v.iter() { check!(t.val == m.v[k]); k += 1; }
    check!(k == n);
    check!(sx::catch(|| v[n].val).is_none());
    check!(sx::catch(|| v[i..n + 1].len()).is_none());
    if sx::bool() {
        let c = v.clone();
        m.same(&c);
        check!(c == v && toks_live() == 2 * n);
    }
    drop(v);
    done();
}
