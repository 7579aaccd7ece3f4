//! comparison, hashing, views and formatting agree with the contents
use crate::env::*;
use crate::strs::*;
use crate::vecs::*;
use crate::{check, sx};
use lokky::arc::Arc;
use lokky::boxed::Box;
use lokky::rc::Rc;
use lokky::scope::AllocMarker;
use lokky::small_vec::SmallVec;
use lokky::string::String;
use lokky::urc::Urc;
use lokky::vec::Vec;
use std::borrow::{Borrow, BorrowMut};
use std::cmp::Ordering;
use std::fmt::{self, Write};
use std::hash::{Hash, Hasher};
use std::ops::Bound;

const FILE: u32 = 28;

harnesses! { cm_vec cm_vec_bytes cm_vec_partial cm_sv cm_sv_partial cm_str cm_ptr cm_ptr_partial cm_box_slice cm_box_str cm_box_fwd
    cm_view_vec cm_view_vec_range cm_view_sv cm_view_str cm_view_str_mut cm_view_ptr cm_fmt cm_fmt_opts cm_fmt_pad cm_fmt_addr cm_fmt_weak cm_marker cm_vec_t cm_str_t }

/// records everything that is hashed
pub struct Rec { b: [u8; 64], n: usize }
impl Rec {
    fn new() -> Rec { Rec { b: [0; 64], n: 0 } }
    fn of<T: Hash + ?Sized>(t: &T) -> Rec { let mut r = Rec::new(); t.hash(&mut r); r }
    fn same(&self, o: &Rec) {
        check!(self.n == o.n);
        let mut i = 0;
        while i < self.n { check!(self.b[i] == o.b[i]); i += 1; }
    }
}
impl Hasher for Rec {
    fn finish(&self) -> u64 { self.n as u64 }
    fn write(&mut self, bytes: &[u8]) {
        let mut i = 0;
        while i < bytes.len() { self.b[self.n] = bytes[i]; self.n += 1; i += 1; }
    }
}

/// lexicographic order of the reference sequences
fn order(a: &Arr, b: &Arr) -> Ordering {
    let mut i = 0;
    loop {
        if i == a.n { return if i == b.n { Ordering::Equal } else { Ordering::Less }; }
        if i == b.n { return Ordering::Greater; }
        if a.v[i] < b.v[i] { return Ordering::Less; }
        if a.v[i] > b.v[i] { return Ordering::Greater; }
        i += 1;
    }
}

/// all operators say what the contents say
fn agree<T: PartialOrd>(a: &T, b: &T, eq: bool, ne: bool, o: Option<Ordering>) {
    check!((a == b) == eq);
    check!((a != b) == ne);
    check!(a.partial_cmp(b) == o);
    check!((a < b) == (o == Some(Ordering::Less)));
    check!((a > b) == (o == Some(Ordering::Greater)));
    check!((a <= b) == matches!(o, Some(Ordering::Less | Ordering::Equal)));
    check!((a >= b) == matches!(o, Some(Ordering::Greater | Ordering::Equal)));
}
fn total<T: Ord>(a: &T, b: &T, o: Ordering) {
    agree(a, b, o == Ordering::Equal, o != Ordering::Equal, Some(o));
    check!(a.cmp(b) == o);
    sx::log(1, o as i8 as u8 as u64);
}

fn vecs(n: usize) {
    init();
    let (a, m) = any_vec(n, 1);
    let (b, k) = any_vec(n, 1);
    total(&a, &b, order(&m, &k));
    Rec::of(&a).same(&Rec::of(a.as_slice()));
    m.same(&a);
    k.same(&b);
    drop((a, b));
    done();
}
#[no_mangle] pub fn cm_vec() { vecs(2) }
#[no_mangle] pub fn cm_vec_t() { vecs(4) }

fn bytes_of(max: usize, spare: usize, mark: bool) -> (Vec<u8>, [u8; 4], usize) {
    let n = sx::choose(max + 1);
    let mut v = if mark { Vec::with_capacity_and_marker(n + spare, AllocMarker::new::<MarkA>()) } else { Vec::with_capacity(n + spare) };
    let mut b = [0; 4];
    for i in 0..n { b[i] = sx::u8(); v.push(b[i]); }
    (v, b, n)
}

/// byte contents, other capacity and allocator
#[no_mangle]
pub fn cm_vec_bytes() {
    init();
    let (a, x, n) = bytes_of(3, 0, false);
    let (b, y, m) = bytes_of(3, 3, true);
    let mut o = Ordering::Equal;
    let mut i = 0;
    loop {
        if i == n { if i < m { o = Ordering::Less; } break; }
        if i == m { o = Ordering::Greater; break; }
        if x[i] != y[i] { o = if x[i] < y[i] { Ordering::Less } else { Ordering::Greater }; break; }
        i += 1;
    }
    total(&a, &b, o);
    Rec::of(&a).same(&Rec::of(&x[..n]));
    Rec::of(&b).same(&Rec::of(&y[..m]));
    drop((a, b));
    done();
}

/// partially ordered: values with the top bit are incomparable, even with themselves
#[derive(Clone)]
struct P(u8);
impl P { fn odd(&self) -> bool { self.0 & 0x80 != 0 } }
impl PartialEq for P {
    fn eq(&self, o: &P) -> bool { !self.odd() && !o.odd() && self.0 == o.0 }
}
impl PartialOrd for P {
    fn partial_cmp(&self, o: &P) -> Option<Ordering> { if self.odd() || o.odd() { None } else { Some(self.0.cmp(&o.0)) } }
}
fn porder(x: &[u8], y: &[u8]) -> (bool, Option<Ordering>) {
    let mut eq = x.len() == y.len();
    if eq { for i in 0..x.len() { if x[i] & 0x80 != 0 || y[i] & 0x80 != 0 || x[i] != y[i] { eq = false; } } }
    let mut i = 0;
    loop {
        if i == x.len() { return (eq, Some(if i == y.len() { Ordering::Equal } else { Ordering::Less })); }
        if i == y.len() { return (eq, Some(Ordering::Greater)); }
        if x[i] & 0x80 != 0 || y[i] & 0x80 != 0 { return (eq, None); }
        if x[i] != y[i] { return (eq, Some(if x[i] < y[i] { Ordering::Less } else { Ordering::Greater })); }
        i += 1;
    }
}

#[no_mangle]
pub fn cm_vec_partial() {
    init();
    let (n, m) = (sx::choose(3), sx::choose(3));
    let (mut a, mut b) = (Vec::<P>::new(), Vec::<P>::new());
    let (mut x, mut y) = ([0; 2], [0; 2]);
    for i in 0..n { x[i] = sx::u8(); a.push(P(x[i])); }
    for i in 0..m { y[i] = sx::u8(); b.push(P(y[i])); }
    let (eq, o) = porder(&x[..n], &y[..m]);
    agree(&a, &b, eq, !eq, o);
    // a vector is not equal to itself unless its elements are
    let (eq, o) = porder(&x[..n], &x[..n]);
    agree(&a, &a, eq, !eq, o);
    drop((a, b));
    done();
}

#[no_mangle]
pub fn cm_sv() {
    init();
    let (a, m) = any_sv::<2>(3);
    let (b, k) = any_sv::<2>(3);
    total(&a, &b, order(&m, &k));
    Rec::of(&a).same(&Rec::of(a.as_slice()));
    m.same(&a);
    k.same(&b);
    drop((a, b));
    done();
}

#[no_mangle]
pub fn cm_sv_partial() {
    init();
    let (n, m) = (sx::choose(3), sx::choose(3));
    let (mut a, mut b) = (SmallVec::<P, 1>::new(), SmallVec::<P, 1>::with_capacity(2));
    let (mut x, mut y) = ([0; 2], [0; 2]);
    for i in 0..n { x[i] = sx::u8(); a.push(P(x[i])); }
    for i in 0..m { y[i] = sx::u8(); b.push(P(y[i])); }
    let (eq, o) = porder(&x[..n], &y[..m]);
    agree(&a, &b, eq, !eq, o);
    let (eq, o) = porder(&y[..m], &y[..m]);
    agree(&b, &b, eq, !eq, o);
    drop((a, b));
    done();
}

fn strings(k: usize) {
    init();
    let (a, t) = any_string(k, 1);
    let (b, u) = any_string(k, 1);
    // code point order is the order of the encodings
    let mut o = Ordering::Equal;
    let mut i = 0;
    loop {
        if i == t.n { if i < u.n { o = Ordering::Less; } break; }
        if i == u.n { o = Ordering::Greater; break; }
        if t.c[i] != u.c[i] { o = if t.c[i] < u.c[i] { Ordering::Less } else { Ordering::Greater }; break; }
        i += 1;
    }
    total(&a, &b, o);
    Rec::of(&a).same(&Rec::of(a.as_str()));
    let c = a.clone();
    check!(c == a);
    Rec::of(&c).same(&Rec::of(&a));
    drop((a, b, c));
    done();
}
#[no_mangle] pub fn cm_str() { strings(1) }
#[no_mangle] pub fn cm_str_t() { strings(2) }

trait Dup { fn dup(&self) -> Self; }
impl<T> Dup for Rc<T> { fn dup(&self) -> Self { self.clone() } }
impl<T> Dup for Arc<T> { fn dup(&self) -> Self { self.clone() } }
impl<T: 'static> Dup for Urc<T> { fn dup(&self) -> Self { self.clone() } }
impl<T: Clone + 'static> Dup for Box<T> { fn dup(&self) -> Self { Box::new((**self).clone()) } }

macro_rules! pair {
    ($m:ident, $a:expr, $b:expr) => {{
        match sx::choose(4) {
            0 => { let (a, b) = (Box::new($a), Box::new($b)); $m!(a, b); }
            1 => { let (a, b) = (Rc::new($a), Rc::new($b)); $m!(a, b); }
            2 => { let (a, b) = (Arc::new($a), Arc::new($b)); $m!(a, b); }
            _ => { let (a, b) = (Urc::new($a), Urc::new($b)); $m!(a, b); }
        }
    }};
}

#[no_mangle]
pub fn cm_ptr() {
    init();
    let (x, y) = (sx::u32(), sx::u32());
    let o = x.cmp(&y);
    macro_rules! go { ($a:ident, $b:ident) => {
        total(&$a, &$b, o);
        Rec::of(&$a).same(&Rec::of(&x));
        let c = $a.dup();
        total(&$a, &c, Ordering::Equal);
        Rec::of(&c).same(&Rec::of(&x));
    } }
    pair!(go, Tok::new(x), Tok::new(y));
    done();
}

#[no_mangle]
pub fn cm_ptr_partial() {
    init();
    let (x, y) = (sx::u8(), sx::u8());
    let (eq, o) = (P(x) == P(y), P(x).partial_cmp(&P(y)));
    let (eqs, os) = (P(x) == P(x), P(x).partial_cmp(&P(x)));
    macro_rules! go { ($a:ident, $b:ident) => {
        agree(&$a, &$b, eq, !eq, o);
        // identity of the box says nothing about equality of the contents
        let c = $a.dup();
        agree(&$a, &c, eqs, !eqs, os);
        agree(&$a, &$a, eqs, !eqs, os);
    } }
    pair!(go, P(x), P(y));
    done();
}

#[no_mangle]
pub fn cm_box_slice() {
    init();
    let (a, m) = any_vec(2, 1);
    let (b, k) = any_vec(2, 0);
    let (a, b) = (a.into_boxed_slice(), b.into_boxed_slice());
    total(&a, &b, order(&m, &k));
    Rec::of(&a).same(&Rec::of(&*a));
    drop((a, b));
    done();
}

#[no_mangle]
pub fn cm_box_str() {
    init();
    let (t, u) = (any_text(1), any_text(1));
    let (a, b) = (boxed_str(&t), boxed_str(&u));
    let o = if t.n != u.n { t.n.cmp(&u.n) } else if t.n == 0 { Ordering::Equal } else { t.c[0].cmp(&u.c[0]) };
    total(&a, &b, o);
    Rec::of(&a).same(&Rec::of(&*a));
    drop((a, b));
    done();
}

struct Count { a: usize, b: usize, log: usize }
impl Iterator for Count {
    type Item = usize;
    fn next(&mut self) -> Option<usize> { self.log += 1; if self.a < self.b { self.a += 1; Some(self.a - 1) } else { None } }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.b - self.a, Some(self.b - self.a)) }
    fn nth(&mut self, n: usize) -> Option<usize> { self.log += 100; if n < self.b - self.a { self.a += n + 1; Some(self.a - 1) } else { self.a = self.b; None } }
}
impl DoubleEndedIterator for Count {
    fn next_back(&mut self) -> Option<usize> { self.log += 1; if self.a < self.b { self.b -= 1; Some(self.b) } else { None } }
    fn nth_back(&mut self, n: usize) -> Option<usize> { self.log += 100; if n < self.b - self.a { self.b -= n + 1; Some(self.b) } else { self.b = self.a; None } }
}
impl ExactSizeIterator for Count {}

/// a boxed iterator or hasher is that iterator or hasher
#[no_mangle]
pub fn cm_box_fwd() {
    init();
    let n = sx::choose(4);
    let mut m = Count { a: 0, b: n, log: 0 };
    let mut b = Box::new(Count { a: 0, b: n, log: 0 });
    for _ in 0..2 {
        let k = sx::choose(3);
        match sx::choose(4) {
            0 => check!(b.next() == m.next()),
            1 => check!(b.next_back() == m.next_back()),
            2 => check!(Iterator::nth(&mut b, k) == m.nth(k)),
            _ => check!(DoubleEndedIterator::nth_back(&mut b, k) == m.nth_back(k)),
        }
        check!(b.size_hint() == m.size_hint());
        check!(ExactSizeIterator::len(&b) == m.len());
        check!(b.a == m.a && b.b == m.b);
    }
    drop(b);
    let mut h = Box::new(Rec::new());
    let v = sx::u32();
    v.hash(&mut h);
    sx::u8().hash(&mut h);
    check!(h.finish() == 5 && h.n == 5);
    Rec::of(&v).b[..4].iter().zip(&h.b[..4]).for_each(|(a, b)| check!(a == b));
    drop(h);
    done();
}

#[no_mangle]
pub fn cm_view_vec() {
    init();
    let (mut v, mut m) = any_vec(3, 1);
    let i = sx::usize();
    let y = sx::u32();
    m.same(&v);
    m.same(v.as_slice());
    m.same(AsRef::<[Tok]>::as_ref(&v));
    m.same(Borrow::<[Tok]>::borrow(&v));
    m.same(&v[..]);
    check!(v.len() == m.n && v.is_empty() == (m.n == 0));
    check!(v.as_ptr() == v.as_slice().as_ptr());
    match sx::choose(6) {
        0 => match sx::catch(|| v[i].val) {
            Some(x) => { check!(i < m.n); check!(x == m.v[sx::conc(i)]); }
            None => check!(i >= m.n),
        },
        1 => match sx::catch(|| v[i].val = y) {
            Some(()) => { check!(i < m.n); m.v[sx::conc(i)] = y; }
            None => check!(i >= m.n),
        },
        2 => { for t in v.as_mut_slice() { t.val ^= y; } for j in 0..m.n { m.v[j] ^= y; } }
        3 => { for t in AsMut::<[Tok]>::as_mut(&mut v) { t.val ^= y; } for j in 0..m.n { m.v[j] ^= y; } }
        4 => { for t in BorrowMut::<[Tok]>::borrow_mut(&mut v) { t.val ^= y; } for j in 0..m.n { m.v[j] ^= y; } }
        _ => { v.reverse(); let o = m; for j in 0..m.n { m.v[j] = o.v[m.n - 1 - j]; } }
    }
    m.same(&v);
    drop(v);
    done();
}

#[no_mangle]
pub fn cm_view_vec_range() {
    init();
    let (mut v, mut m) = any_vec(3, 1);
    let (a, b) = (sx::usize(), sx::usize());
    let n = m.n;
    let base = v.as_ptr() as usize;
    let part = |x: &[Tok]| (x.as_ptr() as usize - base, x.len());
    let ((lo, hi), got) = match sx::choose(7) {
        0 => { let r = sx::catch(|| part(&v[a..b])); check!(r.is_some() == (a <= b && b <= n)); ((a, b), r) }
        1 => { let r = sx::catch(|| part(&v[a..])); check!(r.is_some() == (a <= n)); ((a, n), r) }
        2 => { let r = sx::catch(|| part(&v[..b])); check!(r.is_some() == (b <= n)); ((0, b), r) }
        3 => { let r = sx::catch(|| part(&v[a..=b])); check!(r.is_some() == (b < n && a <= b + 1)); ((a, b.wrapping_add(1)), r) }
        4 => { let r = sx::catch(|| part(&v[..=b])); check!(r.is_some() == (b < n)); ((0, b.wrapping_add(1)), r) }
        5 => { let r = sx::catch(|| part(&v[(Bound::Included(a), Bound::Excluded(b))])); check!(r.is_some() == (a <= b && b <= n)); ((a, b), r) }
        _ => ((0, n), Some(part(&v[..]))),
    };
    if let Some((off, len)) = got { check!(off == lo * 8 && len == hi - lo); }
    let y = sx::u32();
    match sx::choose(3) {
        0 => match sx::catch(|| for t in &mut v[a..b] { t.val = y }) {
            Some(()) => { check!(a <= b && b <= n); let (a, b) = (sx::conc(a), sx::conc(b)); for j in a..b { m.v[j] = y; } }
            None => check!(a > b || b > n),
        },
        1 => match sx::catch(|| for t in &mut v[a..] { t.val = y }) {
            Some(()) => { check!(a <= n); for j in sx::conc(a)..n { m.v[j] = y; } }
            None => check!(a > n),
        },
        _ => match sx::catch(|| for t in &mut v[..b] { t.val = y }) {
            Some(()) => { check!(b <= n); for j in 0..sx::conc(b) { m.v[j] = y; } }
            None => check!(b > n),
        },
    }
    m.same(&v);
    drop(v);
    done();
}

#[no_mangle]
pub fn cm_view_sv() {
    init();
    let (mut v, mut m) = any_sv::<2>(3);
    let i = sx::usize();
    let y = sx::u32();
    m.same(&v);
    m.same(v.as_slice());
    m.same(AsRef::<[Tok]>::as_ref(&v));
    m.same(Borrow::<[Tok]>::borrow(&v));
    m.same(AsRef::<SmallVec<Tok, 2>>::as_ref(&v));
    check!(v.len() == m.n && v.is_empty() == (m.n == 0));
    match sx::choose(7) {
        0 => match sx::catch(|| v[i].val) {
            Some(x) => { check!(i < m.n); check!(x == m.v[sx::conc(i)]); }
            None => check!(i >= m.n),
        },
        1 => match sx::catch(|| v[i].val = y) {
            Some(()) => { check!(i < m.n); m.v[sx::conc(i)] = y; }
            None => check!(i >= m.n),
        },
        2 => { for t in v.as_mut_slice() { t.val ^= y; } for j in 0..m.n { m.v[j] ^= y; } }
        3 => { for t in AsMut::<[Tok]>::as_mut(&mut v) { t.val ^= y; } for j in 0..m.n { m.v[j] ^= y; } }
        4 => { for t in BorrowMut::<[Tok]>::borrow_mut(&mut v) { t.val ^= y; } for j in 0..m.n { m.v[j] ^= y; } }
        5 => match v.get(i) { Some(t) => { check!(i < m.n); check!(t.val == m.v[sx::conc(i)]); } None => check!(i >= m.n) },
        _ => match v.get_mut(i) { Some(t) => { check!(i < m.n); t.val = y; m.v[sx::conc(i)] = y; } None => check!(i >= m.n) },
    }
    m.same(&v);
    drop(v);
    done();
}

/// is that byte position a boundary of characters
fn bound(t: &Text, i: usize) -> bool { t.at(i).is_some() }

#[no_mangle]
pub fn cm_view_str() {
    init();
    let (s, t) = any_string(2, 0);
    t.same(&s);
    t.same_str(&s);
    t.same_str(AsRef::<str>::as_ref(&s));
    t.same_str(Borrow::<str>::borrow(&s));
    let l = t.len();
    let (a, b) = (sx::usize(), sx::usize());
    let base = s.as_ptr() as usize;
    let part = |x: &str| (x.as_ptr() as usize - base, x.len());
    let inb = |i: usize| i <= l && bound(&t, sx::conc(i));
    match sx::choose(6) {
        0 => match sx::catch(|| part(&s[a..b])) {
            Some(r) => { check!(a <= b && inb(a) && inb(b)); check!(r == (a, b - a)); }
            None => check!(a > b || !inb(a) || !inb(b)),
        },
        1 => match sx::catch(|| part(&s[a..])) {
            Some(r) => { check!(inb(a)); check!(r == (a, l - a)); }
            None => check!(!inb(a)),
        },
        2 => match sx::catch(|| part(&s[..b])) {
            Some(r) => { check!(inb(b)); check!(r == (0, b)); }
            None => check!(!inb(b)),
        },
        3 => match sx::catch(|| part(&s[a..=b])) {
            Some(r) => { check!(b < usize::MAX && a <= b + 1 && inb(a) && inb(b + 1)); check!(r == (a, b + 1 - a)); }
            None => check!(b == usize::MAX || a > b + 1 || !inb(a) || !inb(b + 1)),
        },
        4 => match sx::catch(|| part(&s[..=b])) {
            Some(r) => { check!(b < usize::MAX && inb(b + 1)); check!(r == (0, b + 1)); }
            None => check!(b == usize::MAX || !inb(b + 1)),
        },
        _ => check!(part(&s[..]) == (0, l)),
    }
    drop(s);
    done();
}

#[no_mangle]
pub fn cm_view_str_mut() {
    init();
    let (mut s, mut t) = any_string(2, 0);
    let l = t.len();
    let (a, b) = (sx::usize(), sx::usize());
    let t0 = t;
    let inb = |i: usize| i <= l && bound(&t0, sx::conc(i));
    let (lo, hi) = match sx::choose(6) {
        0 => match sx::catch(|| s[a..b].make_ascii_uppercase()) { Some(()) => { check!(a <= b && inb(a) && inb(b)); (a, b) } None => { check!(a > b || !inb(a) || !inb(b)); (0, 0) } },
        1 => match sx::catch(|| s[a..].make_ascii_uppercase()) { Some(()) => { check!(inb(a)); (a, l) } None => { check!(!inb(a)); (0, 0) } },
        2 => match sx::catch(|| s[..b].make_ascii_uppercase()) { Some(()) => { check!(inb(b)); (0, b) } None => { check!(!inb(b)); (0, 0) } },
        3 => match sx::catch(|| s[a..=b].make_ascii_uppercase()) { Some(()) => { check!(b < l && a <= b + 1 && inb(a) && inb(b + 1)); (a, b + 1) } None => { check!(b >= l || a > b + 1 || !inb(a) || !inb(b + 1)); (0, 0) } },
        4 => match sx::catch(|| s[..=b].make_ascii_uppercase()) { Some(()) => { check!(b < l && inb(b + 1)); (0, b + 1) } None => { check!(b >= l || !inb(b + 1)); (0, 0) } },
        _ => { match sx::choose(3) { 0 => s[..].make_ascii_uppercase(), 1 => AsMut::<str>::as_mut(&mut s).make_ascii_uppercase(), _ => BorrowMut::<str>::borrow_mut(&mut s).make_ascii_uppercase() } (0, l) }
    };
    let (lo, hi) = (sx::conc(lo), sx::conc(hi));
    let mut k = 0;
    for i in 0..t.n {
        if k >= lo && k < hi && t.l[i] == 1 && t.c[i] >= 97 && t.c[i] <= 122 { t.c[i] -= 32; }
        k += t.l[i];
    }
    t.same(&s);
    drop(s);
    done();
}

#[no_mangle]
pub fn cm_view_ptr() {
    init();
    let (x, y) = (sx::u32(), sx::u32());
    macro_rules! see { ($a:ident) => {
        check!($a.val == x);
        check!((*$a).val == x);
        check!(AsRef::<Tok>::as_ref(&$a).val == x);
        check!(Borrow::<Tok>::borrow(&$a).val == x);
        check!(&*$a as *const Tok == AsRef::<Tok>::as_ref(&$a) as *const Tok);
    } }
    match sx::choose(4) {
        0 => {
            let mut a = Box::new(Tok::new(x));
            see!(a);
            match sx::choose(3) { 0 => a.val = y, 1 => AsMut::<Tok>::as_mut(&mut a).val = y, _ => BorrowMut::<Tok>::borrow_mut(&mut a).val = y }
            check!(a.val == y);
            check!(AsRef::<Tok>::as_ref(&a).val == y);
        }
        1 => { let a = Rc::new(Tok::new(x)); see!(a); let b = a.clone(); see!(b); drop(a); see!(b); }
        2 => { let a = Arc::new(Tok::new(x)); see!(a); let b = a.clone(); see!(b); drop(a); see!(b); }
        _ => { let a = Urc::new(Tok::new(x)); see!(a); let b = a.clone(); see!(b); drop(a); see!(b); }
    }
    done();
}

struct F(u8);
impl fmt::Display for F { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_char((b'a' + self.0) as char) } }
impl fmt::Debug for F { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_char((b'A' + self.0) as char) } }
struct Sink { b: [u8; 64], n: usize }
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for x in s.as_bytes() { self.b[self.n] = *x; self.n += 1; }
        Ok(())
    }
}
fn shown(d: bool, t: &(impl fmt::Display + fmt::Debug)) -> Sink {
    let mut s = Sink { b: [0; 64], n: 0 };
    let r = if d { write!(s, "{}", t) } else { write!(s, "{:?}", t) };
    check!(r.is_ok());
    s
}
fn debugged(t: &impl fmt::Debug) -> Sink {
    let mut s = Sink { b: [0; 64], n: 0 };
    check!(write!(s, "{:?}", t).is_ok());
    s
}

#[no_mangle]
pub fn cm_fmt() {
    init();
    let k = sx::choose(3) as u8;
    let d = sx::bool();
    let want = if d { b'a' + k } else { b'A' + k };
    let s = match sx::choose(6) {
        0 => shown(d, &Box::new(F(k))),
        1 => shown(d, &Rc::new(F(k))),
        2 => shown(d, &Arc::new(F(k))),
        3 => shown(d, &Urc::new(F(k))),
        4 => {
            let mut v = Vec::new();
            let mut w = SmallVec::<F, 1>::new();
            let n = sx::choose(3);
            for i in 0..n as u8 { v.push(F(i)); w.push(F(i)); }
            for s in [debugged(&v), debugged(&w)] {
                let e: &[u8] = match n { 0 => b"[]", 1 => b"[A]", _ => b"[A, B]" };
                check!(s.n == e.len());
                for i in 0..s.n { check!(s.b[i] == e[i]); }
            }
            Sink { b: [want; 64], n: 1 }
        }
        _ => {
            let (x, t) = any_string(1, 1);
            let mut s = Sink { b: [0; 64], n: 0 };
            check!(write!(s, "{}", x).is_ok());
            t.same_bytes(&s.b[..s.n]);
            Sink { b: [want; 64], n: 1 }
        }
    };
    check!(s.n == 1 && s.b[0] == want);
    done();
}

/// writes down the options it is asked for
struct Opt(u8);
fn opts(k: u8, f: &mut fmt::Formatter) -> fmt::Result {
    f.write_char((b'a' + k) as char)?;
    f.write_char((b'0' + f.width().unwrap_or(0) as u8) as char)?;
    f.write_char((b'0' + f.precision().unwrap_or(0) as u8) as char)?;
    f.write_char(f.fill())?;
    f.write_char(if f.alternate() { '#' } else { '-' })?;
    f.write_char(if f.sign_plus() { '+' } else { '-' })
}
impl fmt::Display for Opt { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { opts(self.0, f) } }
impl fmt::Debug for Opt { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { opts(self.0 + 10, f) } }

/// formatting options reach what is shown, and an error on the way is reported
#[no_mangle]
pub fn cm_fmt_opts() {
    init();
    let k = sx::choose(3) as u8;
    let way = sx::choose(4);
    fn put(s: &mut Sink, way: usize, t: &(impl fmt::Display + fmt::Debug + ?Sized)) {
        let r = match way {
            0 => write!(s, "{:*<7.3}", t),
            1 => write!(s, "{:+#}", t),
            2 => write!(s, "{:.^5?}", t),
            _ => write!(s, "{:#.2?}", t),
        };
        check!(r.is_ok());
    }
    let mut e = Sink { b: [0; 64], n: 0 };
    put(&mut e, way, &Opt(k));
    let mut s = Sink { b: [0; 64], n: 0 };
    match sx::choose(5) {
        0 => put(&mut s, way, &Box::new(Opt(k))),
        1 => put(&mut s, way, &Rc::new(Opt(k))),
        2 => put(&mut s, way, &Arc::new(Opt(k))),
        3 => put(&mut s, way, &Urc::new(Opt(k))),
        // the elements of a sequence are shown with its options
        _ => {
            let a = [Opt(k), Opt(k + 1)];
            let n = sx::choose(3);
            let a = &a[..n];
            let mut v = Vec::new();
            let mut w = SmallVec::<Opt, 1>::new();
            for x in a { v.push(Opt(x.0)); w.push(Opt(x.0)); }
            fn put(s: &mut Sink, way: usize, t: &(impl fmt::Debug + ?Sized)) {
                let r = match way {
                    0 => write!(s, "{:*<7.3?}", t),
                    1 => write!(s, "{:#?}", t),
                    2 => write!(s, "{:.^5?}", t),
                    _ => write!(s, "{:+.2?}", t),
                };
                check!(r.is_ok());
            }
            e.n = 0;
            put(&mut e, way, a);
            if sx::bool() { put(&mut s, way, &v) } else { put(&mut s, way, &w) }
        }
    }
    check!(s.n == e.n);
    for i in 0..s.n { check!(s.b[i] == e.b[i]); }
    done();
}

/// a string is padded and cut as its text is
#[no_mangle]
pub fn cm_fmt_pad() {
    init();
    let (x, t) = any_string(2, 1);
    let (b, n) = t.bytes();
    let text = unsafe { core::str::from_utf8_unchecked(&b[..n]) };
    let (mut s, mut e) = (Sink { b: [0; 64], n: 0 }, Sink { b: [0; 64], n: 0 });
    let r = match sx::choose(4) {
        0 => (write!(s, "{:4}", x), write!(e, "{:4}", text)),
        1 => (write!(s, "{:>3}", x), write!(e, "{:>3}", text)),
        2 => (write!(s, "{:.1}", x), write!(e, "{:.1}", text)),
        _ => (write!(s, "{:*^4.1}", x), write!(e, "{:*^4.1}", text)),
    };
    check!(r.0.is_ok() && r.1.is_ok());
    check!(s.n == e.n);
    for i in 0..s.n { check!(s.b[i] == e.b[i]); }
    drop(x);
    done();
}

/// the address shown is that of the value
#[no_mangle]
pub fn cm_fmt_addr() {
    init();
    let (mut s, mut e) = (Sink { b: [0; 64], n: 0 }, Sink { b: [0; 64], n: 0 });
    let alt = sx::bool();
    macro_rules! put { ($a:expr) => {{
        let (a, b);
        let x = $a;
        if alt { a = write!(s, "{:#p}", x); b = write!(e, "{:#p}", &*x as *const Tok); }
        else { a = write!(s, "{:p}", x); b = write!(e, "{:p}", &*x as *const Tok); }
        check!(a.is_ok() && b.is_ok());
    }} }
    match sx::choose(2) {
        0 => put!(Arc::new(Tok::new(1))),
        _ => put!(Urc::new(Tok::new(1))),
    }
    check!(s.n == e.n);
    for i in 0..s.n { check!(s.b[i] == e.b[i]); }
    done();
}

struct W(Tok);
static mut SHOWN: usize = 0;
impl fmt::Debug for W {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.ok(); unsafe { SHOWN += 1 }; f.write_char((self.0.val & 63) as u8 as char) }
}
/// a weak reference shows the value while there is one, and never a value that is gone
#[no_mangle]
pub fn cm_fmt_weak() {
    init();
    let x = sx::u32();
    let r = Rc::new(W(Tok::new(x)));
    let w = Rc::downgrade(&r);
    let s = if sx::bool() { Some(r.clone()) } else { None };
    let c = (x & 63) as u8;
    let live = debugged(&w);
    check!(unsafe { SHOWN } == 1);
    check!(live.b[..live.n].contains(&c));
    let r = if sx::bool() { drop(r); None } else { Some(r) };
    let dead = r.is_none() && s.is_none();
    debugged(&w);
    check!(unsafe { SHOWN } == if dead { 1 } else { 2 });
    drop((r, s));
    debugged(&w);
    debugged(&w.clone());
    debugged(&lokky::rc::Weak::<W>::new());
    check!(unsafe { SHOWN } == if dead { 1 } else { 2 });
    check!(toks_live() == 0);
    drop(w);
    done();
}

/// the marker and its allocator do not take part in comparisons
#[no_mangle]
pub fn cm_marker() {
    init();
    let n = sx::choose(3);
    let mut a = Vec::<Tok>::with_capacity_and_marker(2, AllocMarker::new::<MarkB>());
    let mut b = Vec::<Tok>::new();
    let mut m = Arr::new();
    let mut k = Arr::new();
    for _ in 0..n {
        let (x, y) = (sx::u32(), sx::u32());
        a.push(Tok::new(x));
        b.push(Tok::new(y));
        m.push(x);
        k.push(y);
    }
    let o = order(&m, &k);
    total(&a, &b, o);
    if o == Ordering::Equal { sx::cover(1); Rec::of(&a).same(&Rec::of(&b)); }
    let (a, b) = (a.into_boxed_slice(), b.into_boxed_slice());
    total(&a, &b, o);
    drop((a, b));
    done();
}
