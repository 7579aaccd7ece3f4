//! panics in user code: callbacks, clones, destructors, iterators
use crate::env::*;
use crate::strs::*;
use crate::vecs::*;
use crate::{check, sx};
use lokky::arc::Arc;
use lokky::boxed::Box;
use lokky::rc::Rc;
use lokky::scope::{Envelop, ScopeRecv};
use lokky::small_vec::SmallVec;
use lokky::urc::Urc;
use lokky::vec::Vec;

const FILE: u32 = 30;

harnesses! { pa_vec_call pa_sv_call pa_vec_clone pa_sv_clone pa_vec_drop pa_sv_drop pa_vec_iter pa_sv_iter pa_into_iter pa_sv_into
    pa_drain pa_str pa_box pa_rc pa_arc pa_urc pa_mut_rc pa_mut_arc pa_mut_urc pa_cmp pa_vec_call_t pa_sv_call_t pa_drain_t pa_str_t }

/// an answer, or a panic
fn ask() -> bool {
    match sx::choose(3) { 0 => false, 1 => true, _ => { unsafe { PANICKED += 1 }; panic!() } }
}
fn maybe() { if sx::bool() { unsafe { PANICKED += 1 }; panic!() } }
fn panicked() -> usize { unsafe { PANICKED } }
fn clone_panics(b: bool) { unsafe { CLONE_PANICS = b } }
fn drop_panics(b: bool) { unsafe { DROP_PANICS = b } }

/// only live elements, at most n
fn valid(s: &[Tok], n: usize) {
    check!(s.len() <= n);
    for t in s { t.ok(); }
    sx::log(2, s.len() as u64);
}

/// afterwards the vector works: grows, shrinks and goes without dropping anything twice
macro_rules! works {
    ($v:ident) => {{
        let n = $v.len();
        $v.push(Tok::new(5));
        check!($v.len() == n + 1 && $v[n].val == 5);
        if n > 0 { let t = $v.remove(0); t.ok(); drop(t); }
        match $v.pop() { Some(t) => check!(t.val == 5), None => check!(false) }
        valid(&$v, n);
        drop($v);
        // the memory goes with the vector, whatever was lost in the panic
        check!(sx::live() == 0);
    }};
}

macro_rules! calls {
    ($f:ident, $mk:expr) => {
        #[no_mangle]
        pub fn $f() {
            init();
            let (mut v, m) = $mk;
            let before = panicked();
            let r = match sx::choose(5) {
                0 => sx::catch(|| v.retain(|t| { t.ok(); ask() })),
                1 => sx::catch(|| v.dedup_by(|a, b| { a.ok(); b.ok(); ask() })),
                2 => sx::catch(|| v.dedup_by_key(|a| { a.ok(); ask() })),
                3 => { let l = m.n + sx::choose(3); sx::catch(|| v.resize_with(l, || { maybe(); Tok::new(1) })) }
                _ => { let l = sx::choose(m.n + 1); sx::catch(|| v.resize_with(l, || { maybe(); Tok::new(1) })) }
            };
            check!(r.is_none() == (panicked() > before));
            if r.is_none() { sx::cover(1); }
            valid(&v, m.n + 2);
            works!(v);
        }
    };
}
calls!(pa_vec_call, any_vec(4, 1));
calls!(pa_vec_call_t, any_vec(6, 1));
calls!(pa_sv_call, any_sv::<2>(4));
calls!(pa_sv_call_t, any_sv::<3>(6));

macro_rules! clones {
    ($f:ident, $T:ty, $mk:expr) => {
        #[no_mangle]
        pub fn $f() {
            init();
            let (mut v, mut m) = $mk;
            let a = [Tok::new(7), Tok::new(8)];
            clone_panics(true);
            let before = panicked();
            let how = sx::choose(5);
            let r = match how {
                0 => sx::catch(|| v.extend_from_slice(&a)),
                4 => { let mut o = <$T>::from([Tok::new(1)]); let r = sx::catch(|| o.clone_from(&v)); clone_panics(false); valid(&o, 3); let n = o.len(); o.push(Tok::new(5)); check!(o.len() == n + 1 && o[n].val == 5); valid(&o, n + 1); drop(o); r }
                1 => { let l = m.n + sx::choose(3); let t = Tok::new(9); sx::catch(|| v.resize(l, t)) }
                2 => sx::catch(|| { let c = v.clone(); m.same(&c); }),
                _ => sx::catch(|| { let c = <$T>::from(v.as_slice()); m.same(&c); }),
            };
            clone_panics(false);
            check!(r.is_none() == (panicked() > before));
            a[0].ok();
            a[1].ok();
            valid(&v, m.n + 2);
            // what it held is unharmed
            check!(v.len() >= m.n);
            let n = v.len();
            for i in m.n..n { m.push(v[i].val); }
            m.same(&v);
            drop(a);
            works!(v);
            done();
        }
    };
}
clones!(pa_vec_clone, Vec<Tok>, any_vec(2, 0));
clones!(pa_sv_clone, SmallVec<Tok, 2>, any_sv::<2>(2));

/// destructors: one of them panics
macro_rules! drops {
    ($f:ident, $mk:expr) => {
        #[no_mangle]
        pub fn $f() {
            init();
            let (mut v, m) = $mk;
            let before = panicked();
            drop_panics(true);
            let r = match sx::choose(6) {
                0 => { let l = sx::choose(m.n + 1); sx::catch(|| v.truncate(l)) }
                1 => sx::catch(|| v.clear()),
                2 => sx::catch(|| v.retain(|t| { t.ok(); sx::bool() })),
                3 => sx::catch(|| v.dedup_by(|a, b| { a.ok(); b.ok(); sx::bool() })),
                4 => { let (a, b) = (sx::choose(m.n + 1), sx::choose(m.n + 1)); if a <= b { sx::catch(|| drop(v.drain(a..b))) } else { Some(()) } }
                _ => { let r = sx::catch(move || drop(v)); drop_panics(false); check!(r.is_none() == (panicked() > before)); sx::cover(2); return; }
            };
            drop_panics(false);
            check!(r.is_none() == (panicked() > before));
            valid(&v, m.n);
            works!(v);
        }
    };
}
drops!(pa_vec_drop, any_vec(4, 1));
drops!(pa_sv_drop, any_sv::<2>(4));

struct It { n: usize, hint: usize }
impl Iterator for It {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> { maybe(); if self.n > 0 { self.n -= 1; Some(Tok::new(self.n as u32)) } else { None } }
    fn size_hint(&self) -> (usize, Option<usize>) { maybe(); (self.hint, None) }
}
fn it() -> It { It { n: sx::choose(3), hint: sx::choose(3) } }

#[no_mangle]
pub fn pa_vec_iter() {
    init();
    let (mut v, mut m) = any_vec(2, 0);
    let before = panicked();
    let i = it();
    let k = i.n;
    let r = match sx::choose(2) {
        0 => sx::catch(|| v.extend_from_iter(i)),
        _ => sx::catch(|| { let w: Vec<Tok> = i.collect(); valid(&w, k); check!(w.len() == k); }),
    };
    check!(r.is_none() == (panicked() > before));
    valid(&v, m.n + k);
    check!(v.len() >= m.n);
    let n = v.len();
    for i in m.n..n { m.push(v[i].val); }
    m.same(&v);
    works!(v);
    done();
}

#[no_mangle]
pub fn pa_sv_iter() {
    init();
    let (mut v, mut m) = any_sv::<2>(2);
    let before = panicked();
    let i = it();
    let k = i.n;
    let r = match sx::choose(2) {
        0 => sx::catch(|| v.extend(i)),
        _ => sx::catch(|| { let w: SmallVec<Tok, 2> = i.collect(); valid(&w, k); check!(w.len() == k); }),
    };
    check!(r.is_none() == (panicked() > before));
    valid(&v, m.n + k);
    check!(v.len() >= m.n);
    let n = v.len();
    for i in m.n..n { m.push(v[i].val); }
    m.same(&v);
    works!(v);
    done();
}

/// IntoIter dropped half way
#[no_mangle]
pub fn pa_into_iter() {
    init();
    let (v, m) = any_vec(3, 1);
    let mut i = v.into_iter();
    let a = sx::choose(3);
    let b = sx::choose(2);
    let mut got = 0;
    for _ in 0..a { if let Some(t) = i.next() { t.ok(); got += 1; } }
    for _ in 0..b { if let Some(t) = i.next_back() { t.ok(); got += 1; } }
    check!(toks_live() == m.n - got);
    let before = panicked();
    drop_panics(true);
    let r = sx::catch(move || drop(i));
    drop_panics(false);
    check!(r.is_none() == (panicked() > before));
    if r.is_some() { done(); }
}

/// conversions and small vectors that own elements with panicking destructors
#[no_mangle]
pub fn pa_sv_into() {
    init();
    let (v, m) = any_sv::<2>(3);
    let before = panicked();
    drop_panics(true);
    let r = match sx::choose(3) {
        0 => sx::catch(move || { let w = v.into_vec(); m.same(&w); }),
        1 => sx::catch(move || { let w = v.into_boxed_slice(); m.same(&w); }),
        _ => sx::catch(move || { let mut v = v; let w = v.split_off(0); m.same(&w); check!(v.len() == 0); drop(w); drop(v); }),
    };
    drop_panics(false);
    check!(r.is_none() == (panicked() > before));
    if r.is_some() { done(); }
}

macro_rules! drains {
    ($v:ident, $m:ident, $steps:expr) => {{
        let (a, b) = (sx::choose($m.n + 1), sx::choose($m.n + 1));
        if a > b { return; }
        let before = panicked();
        drop_panics(true);
        let r = sx::catch(|| {
            let mut d = $v.drain(a..b);
            for _ in 0..sx::choose($steps) {
                // a taken element dies at once
                let t = if sx::bool() { d.next() } else { d.next_back() };
                if let Some(t) = &t { t.ok(); }
            }
        });
        drop_panics(false);
        check!(r.is_none() == (panicked() > before));
        valid(&$v, $m.n);
        // the elements before the range are untouched
        check!($v.len() >= a);
        $m.slice(0, a).same(&$v.as_slice()[..a]);
        works!($v);
    }};
}
fn drains(k: usize, steps: usize) {
    init();
    if sx::bool() { let (mut v, m) = any_vec(k, 0); drains!(v, m, steps) } else { let (mut v, m) = any_sv::<2>(k); drains!(v, m, steps) }
}
#[no_mangle] pub fn pa_drain() { drains(4, 3) }
#[no_mangle] pub fn pa_drain_t() { drains(5, 5) }

#[no_mangle] pub fn pa_str() { strs(2) }
#[no_mangle] pub fn pa_str_t() { strs(3) }
fn strs(k: usize) {
    init();
    let (mut s, t) = any_string(k, 0);
    let before = panicked();
    let r = match sx::choose(2) {
        0 => sx::catch(|| s.retain(|_| ask())),
        _ => {
            let mut n = 2;
            sx::catch(|| s.extend(std::iter::from_fn(|| { maybe(); if n == 0 { None } else { n -= 1; Some('\u{e9}') } })))
        }
    };
    check!(r.is_none() == (panicked() > before));
    // still text
    check!(s.len() <= t.len() + 4);
    check!(core::str::from_utf8(s.as_bytes()).is_ok());
    let n = s.len();
    s.push('\u{20ac}');
    check!(s.len() == n + 3);
    check!(s.pop() == Some('\u{20ac}'));
    check!(s.len() == n);
    drop(s);
    done();
}

#[no_mangle]
pub fn pa_box() {
    init();
    let before = panicked();
    let r = match sx::choose(2) {
        0 => { let b = Box::new(Tok::new(1)); drop_panics(true); sx::catch(move || drop(b)) }
        _ => { let (v, _) = any_vec(2, 1); let b = v.into_boxed_slice(); drop_panics(true); sx::catch(move || drop(b)) }
    };
    drop_panics(false);
    check!(r.is_none() == (panicked() > before));
    if r.is_some() { done(); }
    // dropped at any rate
    check!(toks_live() <= 1);
}

struct Recv;
impl<'a> ScopeRecv<'a> for Recv {}

/// the destructor of a shared value panics
macro_rules! shared {
    ($f:ident, $T:ident, $again:expr, $gone:expr) => {
        #[no_mangle]
        pub fn $f() {
            init();
            let x = sx::u32();
            let r = $T::new(Tok::new(x));
            let q = match sx::choose(3) { 0 => None, 1 => Some(r.clone()), _ => Some($again(&r)) };
            let w = if sx::bool() { Some($T::downgrade(&r)) } else { None };
            let before = panicked();
            drop_panics(true);
            let a = sx::catch(move || drop(r));
            if q.is_some() { check!(a.is_some() && toks_live() == 1); }
            let b = sx::catch(move || drop(q));
            drop_panics(false);
            check!((a.is_none() || b.is_none()) == (panicked() > before));
            // dropped once, and never seen again
            check!(toks_live() == 0);
            if let Some(w) = &w { $gone(w); }
            drop(w);
            if panicked() == before { done(); }
        }
    };
}
shared!(pa_rc, Rc, |r: &Rc<Tok>| r.clone(), |w: &lokky::rc::Weak<Tok>| { check!(w.upgrade().is_none()); check!(w.strong_count() == 0); });
shared!(pa_arc, Arc, |r: &Arc<Tok>| Recv.recv(r.envelop(&Recv)), |_w| ());
shared!(pa_urc, Urc, |r: &Urc<Tok>| Recv.recv(r.envelop(&Recv)), |_w| ());

/// the clone made by make_mut panics: nothing happened
macro_rules! muts {
    ($f:ident, $T:ident, $strong:path, $weak:path) => {
        #[no_mangle]
        pub fn $f() {
            init();
            let (x, y) = (sx::u32(), sx::u32());
            let mut r = $T::new(Tok::new(x));
            let q = if sx::bool() { Some(r.clone()) } else { None };
            let w = if sx::bool() { Some($T::downgrade(&r)) } else { None };
            clone_panics(true);
            let before = panicked();
            let a = sx::catch(|| $T::make_mut(&mut r).val = y);
            clone_panics(false);
            check!(a.is_none() == (panicked() > before));
            if a.is_none() {
                check!(q.is_some());
                check!(r.val == x && $strong(&r) == 2 && $weak(&r) == w.is_some() as usize);
                check!(toks_live() == 1);
            } else {
                check!(r.val == y && $strong(&r) == 1 && $weak(&r) == 0);
            }
            if let Some(q) = &q { check!(q.val == x); }
            if sx::bool() { drop(r); drop(q); drop(w); } else { drop(w); drop(q); drop(r); }
            done();
        }
    };
}
muts!(pa_mut_rc, Rc, Rc::strong_count, Rc::weak_count);
muts!(pa_mut_arc, Arc, Arc::strong_count, Arc::weak_count);
muts!(pa_mut_urc, Urc, Urc::fence_strong_count, Urc::fence_weak_count);

/// comparisons panic
struct C(Tok);
impl PartialEq for C { fn eq(&self, o: &C) -> bool { self.0.ok(); o.0.ok(); ask() } }
#[no_mangle]
pub fn pa_cmp() {
    init();
    let n = sx::choose(4);
    if sx::bool() {
        let mut v = Vec::<C>::new();
        for i in 0..n { v.push(C(Tok::new(i as u32))); }
        let r = sx::catch(|| v.dedup());
        check!(r.is_none() == (panicked() > 0));
        check!(v.len() <= n);
        for c in v.iter() { c.0.ok(); }
        v.push(C(Tok::new(9)));
        drop(v);
    } else {
        let mut v = SmallVec::<C, 2>::new();
        for i in 0..n { v.push(C(Tok::new(i as u32))); }
        let r = sx::catch(|| v.dedup());
        check!(r.is_none() == (panicked() > 0));
        check!(v.len() <= n);
        for c in v.iter() { c.0.ok(); }
        v.push(C(Tok::new(9)));
        drop(v);
    }
    check!(sx::live() == 0);
}
