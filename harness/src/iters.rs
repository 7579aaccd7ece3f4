//! building and extending from iterators with any size hint
use crate::env::*;
use crate::strs::*;
use crate::vecs::*;
use crate::{check, sx};
use lokky::boxed::Box;
use lokky::small_vec::SmallVec;
use lokky::string::String;
use lokky::vec::Vec;

const FILE: u32 = 31;

harnesses! { it_vec_ext it_vec_from it_vec_zst it_vec_big it_sv_ext it_sv_ext0 it_sv_copy it_sv_from it_str_char it_str_charref it_str_str it_str_string
    it_str_box it_str_from it_vec_two it_sv_two it_vec_ext_t it_sv_ext_t it_str_char_t it_str_string_t }

static mut ASKED: usize = 0;
static mut ENDED: bool = false;

/// yields the prepared items, claims whatever it likes
struct It<T, const K: usize> { a: [Option<T>; K], i: usize, lo: usize, hi: Option<usize> }
impl<T, const K: usize> Iterator for It<T, K> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        unsafe {
            // not asked again after the end
            check!(!ENDED);
            ASKED += 1;
        }
        if self.i < K {
            self.i += 1;
            if let Some(t) = self.a[self.i - 1].take() { return Some(t); }
        }
        unsafe { ENDED = true };
        None
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.lo, self.hi) }
}
fn it<T, const K: usize>(a: [Option<T>; K]) -> It<T, K> {
    unsafe { ASKED = 0; ENDED = false; }
    let lo = sx::usize();
    let u = sx::usize();
    let hi = sx::bool().then_some(u);
    It { a, i: 0, lo, hi }
}
fn asked() -> usize { unsafe { ASKED } }
fn ended() -> bool { unsafe { ENDED } }

/// up to K tokens
fn toks<const K: usize>() -> ([Option<Tok>; K], Arr) {
    let n = sx::choose(K + 1);
    let mut m = Arr::new();
    let mut a = [const { None }; K];
    for i in 0..n { let x = sx::u32(); a[i] = Some(Tok::new(x)); m.push(x); }
    (a, m)
}

/// the claim goes beyond what `size`-byte elements leave room for
fn absurd(len: usize, hint: usize, size: usize) -> bool {
    hint > usize::MAX - len || (len + hint > LIMIT / size)
}

/// outcome of a call that reserves the claimed number first
fn judge(ok: bool, refuse: bool, items: usize) {
    sx::log(1, ok as u64);
    if refuse {
        check!(!ok);
        check!(asked() == 0);
        sx::cover(1);
    } else {
        check!(ok);
        check!(asked() == items + 1);
        check!(ended());
        sx::cover(2);
    }
}

// ------------------------------------------------------------------------------ Vec

fn vec_ext<const K: usize>(max: usize, spare: usize) {
    init();
    let (mut v, mut m) = any_vec(max, spare);
    let (a, k) = toks::<K>();
    let i = it(a);
    let lo = i.lo;
    // spare room is room too
    let fits = lo <= v.capacity() - v.len();
    let r = sx::catch(|| v.extend_from_iter(i));
    let bad = !fits && absurd(m.n, lo, 8);
    judge(r.is_some(), bad, k.n);
    if !bad {
        check!(v.capacity() - m.n >= lo);
        m.extend(&k);
    }
    m.same(&v);
    drop(v);
    done();
}
#[no_mangle] pub fn it_vec_ext() { vec_ext::<3>(2, 1) }
#[no_mangle] pub fn it_vec_ext_t() { vec_ext::<5>(3, 3) }

#[no_mangle]
pub fn it_vec_from() {
    init();
    let (a, k) = toks::<4>();
    let i = it(a);
    let lo = i.lo;
    let r = sx::catch(|| i.collect::<Vec<Tok>>());
    judge(r.is_some(), absurd(0, lo, 8), k.n);
    if let Some(v) = r {
        check!(v.capacity() >= lo);
        k.same(&v);
    }
    done();
}

#[no_mangle]
pub fn it_vec_zst() {
    init();
    let n = sx::choose(4);
    let mut v = Vec::<Zst>::new();
    for _ in 0..n { v.push(Zst::new()); }
    let k = sx::choose(4);
    let mut a = [const { None }; 3];
    for i in 0..k { a[i] = Some(Zst::new()); }
    let i = it(a);
    let lo = i.lo;
    let t = traffic();
    if sx::choose(2) == 0 {
        let r = sx::catch(|| v.extend_from_iter(i));
        judge(r.is_some(), lo > usize::MAX - n, k);
        check!(v.len() == if r.is_some() { n + k } else { n });
        check!(zlive() == v.len() as isize);
    } else {
        let r = sx::catch(|| i.collect::<Vec<Zst>>());
        judge(r.is_some(), false, k);
        if let Some(w) = r { check!(w.len() == k); sx::cover(1); }
        check!(zlive() == n as isize);
    }
    check!(traffic() == t);
    drop(v);
    check!(zlive() == 0);
}

#[no_mangle]
pub fn it_vec_big() {
    init();
    let k = sx::choose(3);
    let x = sx::u64();
    let mut a = [None; 2];
    for i in 0..k { a[i] = Some(Big(x ^ i as u64)); }
    let i = it(a);
    let lo = i.lo;
    let r = sx::catch(|| i.collect::<Vec<Big>>());
    judge(r.is_some(), absurd(0, lo, 32), k);
    if let Some(v) = r {
        check!(v.len() == k);
        for i in 0..k { check!(v[i].0 == x ^ i as u64); }
    }
    done();
}

/// two extensions of one vector, the first may be refused
#[no_mangle]
pub fn it_vec_two() {
    init();
    let (mut v, mut m) = any_vec(1, 1);
    for _ in 0..2 {
        let (a, k) = toks::<2>();
        let i = it(a);
        // (between the two, doubling a huge capacity may be refused although the claim would not be)
        sx::assume(i.lo <= 6 || i.lo > LIMIT / 8);
        let bad = i.lo > v.capacity() - v.len() && absurd(m.n, i.lo, 8);
        let r = sx::catch(|| v.extend_from_iter(i));
        judge(r.is_some(), bad, k.n);
        if !bad { m.extend(&k); }
        m.same(&v);
    }
    drop(v);
    done();
}

// ------------------------------------------------------------------------------ SmallVec

fn sv_ext<const N: usize, const K: usize>(max: usize) {
    init();
    let (mut v, mut m) = any_sv::<N>(max);
    let (a, k) = toks::<K>();
    let i = it(a);
    let lo = i.lo;
    let bad = lo > v.capacity() - v.len() && absurd(m.n, lo, 8);
    let stack = v.is_stack();
    let t = traffic();
    let r = sx::catch(|| v.extend(i));
    judge(r.is_some(), bad, k.n);
    if bad {
        check!(v.is_stack() == stack);
    } else {
        let claim = m.n + lo;
        m.extend(&k);
        // the heap is used exactly if the claim or the items do not fit inline
        if stack {
            check!(v.is_stack() == (m.n <= N && claim <= N));
            if v.is_stack() { check!(traffic() == t); }
        } else { check!(v.is_heap()); }
    }
    m.same(&v);
    drop(v);
    done();
}
#[no_mangle] pub fn it_sv_ext() { sv_ext::<2, 3>(3) }
#[no_mangle] pub fn it_sv_ext0() { sv_ext::<0, 2>(1) }
#[no_mangle] pub fn it_sv_ext_t() { sv_ext::<3, 5>(5) }

static mut POOL: [u32; 4] = [0; 4];

#[no_mangle]
pub fn it_sv_copy() {
    init();
    let n = sx::choose(4);
    let mut v = SmallVec::<u32, 2>::new();
    let mut m = Arr::new();
    for _ in 0..n { let x = sx::u32(); v.push(x); m.push(x); }
    let k = sx::choose(4);
    let mut a = [None; 3];
    for j in 0..k {
        unsafe { POOL[j] = sx::u32() };
        let r: &'static u32 = unsafe { &(*(&raw const POOL))[j] };
        a[j] = Some(r);
    }
    let i = it(a);
    let bad = i.lo > v.capacity() - v.len() && absurd(n, i.lo, 4);
    let r = sx::catch(|| v.extend(i));
    judge(r.is_some(), bad, k);
    if !bad { for j in 0..k { m.push(unsafe { POOL[j] }); } }
    check!(v.len() == m.n);
    for j in 0..m.n { check!(v[j] == m.v[j]); }
    drop(v);
    done();
}

#[no_mangle]
pub fn it_sv_from() {
    init();
    let (a, k) = toks::<4>();
    let i = it(a);
    let lo = i.lo;
    let r = sx::catch(|| i.collect::<SmallVec<Tok, 2>>());
    judge(r.is_some(), lo > 2 && absurd(0, lo, 8), k.n);
    if let Some(v) = r {
        check!(v.is_stack() == (k.n <= 2 && lo <= 2));
        k.same(&v);
    }
    done();
}

#[no_mangle]
pub fn it_sv_two() {
    init();
    let (mut v, mut m) = any_sv::<2>(2);
    for _ in 0..2 {
        let (a, k) = toks::<2>();
        let i = it(a);
        // (between the two, doubling a huge capacity may be refused although the claim would not be)
        sx::assume(i.lo <= 6 || i.lo > LIMIT / 8);
        let bad = i.lo > v.capacity() - v.len() && absurd(m.n, i.lo, 8);
        let r = sx::catch(|| v.extend(i));
        judge(r.is_some(), bad, k.n);
        if !bad { m.extend(&k); }
        m.same(&v);
    }
    drop(v);
    done();
}

// ------------------------------------------------------------------------------ String

fn fin(s: String, m: &Text) {
    m.same(&s);
    check!(std::str::from_utf8(s.as_bytes()).is_ok());
    drop(s);
    check!(sx::live() == 0);
}

/// up to K characters as an item list
fn chars<const K: usize>() -> ([Option<char>; K], Text) {
    let t = any_text(K);
    let mut a = [None; K];
    for i in 0..t.n { a[i] = Some(ch((t.c[i], t.l[i]))); }
    (a, t)
}

fn str_char<const K: usize>(max: usize) {
    init();
    let (mut s, mut m) = start(max, 1);
    let (a, t) = chars::<K>();
    let i = it(a);
    let bad = i.lo > s.capacity() - s.len() && absurd(m.len(), i.lo, 1);
    let r = sx::catch(|| s.extend(i));
    judge(r.is_some(), bad, t.n);
    if !bad { m.extend(&t); }
    fin(s, &m);
}
#[no_mangle] pub fn it_str_char() { str_char::<2>(1) }
#[no_mangle] pub fn it_str_char_t() { str_char::<3>(2) }

#[no_mangle]
pub fn it_str_charref() {
    init();
    let (mut s, mut m) = start(1, 1);
    let (b, t) = chars::<2>();
    let mut a = [None; 2];
    for j in 0..2 { if let Some(c) = &b[j] { a[j] = Some(c); } }
    let i = it(a);
    let bad = i.lo > s.capacity() - s.len() && absurd(m.len(), i.lo, 1);
    let r = sx::catch(|| s.extend(i));
    judge(r.is_some(), bad, t.n);
    if !bad { m.extend(&t); }
    fin(s, &m);
}

/// a string of up to `max` one-byte characters
fn start(max: usize, spare: usize) -> (String, Text) {
    let n = sx::choose(max + 1);
    let mut t = Text::new();
    for _ in 0..n { t.push(char_of(1)); }
    (string_of(&t, sx::choose(spare + 1)), t)
}
/// empty, a character of one byte or one of four
fn part() -> Text {
    let mut t = Text::new();
    match sx::choose(3) { 0 => {} 1 => t.push(char_of(1)), _ => t.push(char_of(4)) }
    t
}

/// number of items and what they hold, each of up to one character
fn parts<const K: usize>() -> ([Text; K], usize) {
    let n = sx::choose(K + 1);
    let mut p = [const { Text { c: [0; MAXC], l: [0; MAXC], n: 0 } }; K];
    for i in 0..n { p[i] = part(); }
    (p, n)
}

/// items with a text of their own: the claimed number of them says nothing about bytes
fn judge_all(ok: bool, items: usize) {
    check!(ok);
    check!(asked() == items + 1);
    check!(ended());
    sx::cover(2);
}

#[no_mangle]
pub fn it_str_str() {
    init();
    let (mut s, mut m) = start(1, 1);
    let (p, n) = parts::<2>();
    let mut b = [([0u8; MAXB], 0usize); 2];
    for j in 0..n { b[j] = p[j].bytes(); }
    let mut a: [Option<&str>; 2] = [None; 2];
    for j in 0..n { a[j] = Some(unsafe { std::str::from_utf8_unchecked(&b[j].0[..b[j].1]) }); m.extend(&p[j]); }
    let i = it(a);
    if sx::choose(2) == 0 {
        judge_all(sx::catch(|| s.extend(i)).is_some(), n);
        fin(s, &m);
    } else {
        drop(s);
        let r = sx::catch(|| i.collect::<String>());
        check!(r.is_some());
        let mut m = Text::new();
        for j in 0..n { m.extend(&p[j]); }
        judge_all(r.is_some(), n);
        if let Some(s) = r { fin(s, &m); }
    }
}

fn str_string<const K: usize>(max: usize, spare: usize) {
    init();
    let (mut s, mut m) = start(max, spare);
    let (p, n) = parts::<K>();
    let mut a = [const { None }; K];
    for j in 0..n { a[j] = Some(string_of(&p[j], sx::choose(spare + 1))); m.extend(&p[j]); }
    let i = it(a);
    judge_all(sx::catch(|| s.extend(i)).is_some(), n);
    fin(s, &m);
}
#[no_mangle] pub fn it_str_string() { str_string::<2>(1, 1) }
#[no_mangle] pub fn it_str_string_t() { str_string::<3>(1, 1) }

#[no_mangle]
pub fn it_str_box() {
    init();
    let (mut s, mut m) = start(1, 1);
    let (p, n) = parts::<2>();
    let mut a: [Option<Box<str>>; 2] = [const { None }; 2];
    for j in 0..n { a[j] = Some(boxed_str(&p[j])); m.extend(&p[j]); }
    let i = it(a);
    judge_all(sx::catch(|| s.extend(i)).is_some(), n);
    fin(s, &m);
}

/// collecting the other kinds of items
#[no_mangle]
pub fn it_str_from() {
    init();
    match sx::choose(4) {
        0 => {
            let (a, t) = chars::<2>();
            let i = it(a);
            let bad = absurd(0, i.lo, 1);
            let r = sx::catch(|| i.collect::<String>());
            judge(r.is_some(), bad, t.n);
            if let Some(s) = r { fin(s, &t); }
        }
        1 => {
            let (b, t) = chars::<2>();
            let mut a = [None; 2];
            for j in 0..2 { if let Some(c) = &b[j] { a[j] = Some(c); } }
            let i = it(a);
            let bad = absurd(0, i.lo, 1);
            let r = sx::catch(|| i.collect::<String>());
            judge(r.is_some(), bad, t.n);
            if let Some(s) = r { fin(s, &t); }
        }
        2 => {
            let (p, n) = parts::<2>();
            let mut m = Text::new();
            let mut a = [const { None }; 2];
            for j in 0..n { a[j] = Some(string_of(&p[j], 1)); m.extend(&p[j]); }
            let i = it(a);
            let r = sx::catch(|| i.collect::<String>());
            judge_all(r.is_some(), n);
            if let Some(s) = r { fin(s, &m); }
        }
        _ => {
            let (p, n) = parts::<2>();
            let mut m = Text::new();
            let mut a: [Option<Box<str>>; 2] = [const { None }; 2];
            for j in 0..n { a[j] = Some(boxed_str(&p[j])); m.extend(&p[j]); }
            let i = it(a);
            let r = sx::catch(|| i.collect::<String>());
            judge_all(r.is_some(), n);
            if let Some(s) = r { fin(s, &m); }
        }
    }
    check!(sx::live() == 0);
}
