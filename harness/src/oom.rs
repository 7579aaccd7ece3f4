//! any request to the allocator may be refused
use crate::env::*;
use crate::strs::*;
use crate::vecs::*;
use crate::{check, sx};
use lokky::arc::Arc;
use lokky::boxed::Box;
use lokky::rc::Rc;
use lokky::scope::{AllocMarker, AllocSelector, Envelop, ScopeRecv};
use lokky::small_vec::SmallVec;
use lokky::string::String;
use lokky::urc::Urc;
use lokky::vec::Vec;
use lokky::ScopePtr;

const FILE: u32 = 29;

harnesses! { om_vec om_vec_two om_vec_make om_vec_shrink om_vec_zst om_sv om_sv_two om_sv_make om_sv_into om_str om_str_make
    om_box om_ptr om_rc_mut om_arc_mut om_urc_mut om_urc_env om_scope_ptr om_vec_two_t om_sv_two_t }

/// run with failing requests; (result, requests refused)
fn run<R>(f: impl FnOnce() -> R) -> (Option<R>, usize) {
    let n = failed();
    set_may_fail(true);
    let r = sx::catch(f);
    set_may_fail(false);
    let k = failed() - n;
    sx::log(1, (k > 0) as u64);
    (r, k)
}
/// panics exactly if a request was refused
fn plain(f: impl FnOnce()) -> bool {
    let (r, k) = run(f);
    check!(r.is_none() == (k > 0));
    k > 0
}
/// reports exactly if a request was refused, and does not panic
fn tried<T, E>(f: impl FnOnce() -> Result<T, E>) -> Result<T, E> {
    let (r, k) = run(f);
    match r {
        Some(r) => { check!(r.is_err() == (k > 0)); r }
        None => { check!(false); loop {} }
    }
}

struct It { a: [u32; 3], i: usize, n: usize, hint: usize }
impl Iterator for It {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> { if self.i < self.n { self.i += 1; Some(Tok::new(self.a[self.i - 1])) } else { None } }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.hint, None) }
}
fn it() -> It {
    let n = sx::choose(3);
    let hint = sx::choose(3);
    It { a: [sx::u32(), sx::u32(), 0], i: 0, n, hint }
}

// ------------------------------------------------------------------------------ Vec

fn vec_step(v: &mut Vec<Tok>, m: &mut Arr) {
    let cap = v.capacity();
    let x = sx::u32();
    let bad = match sx::choose(12) {
        0 => { let k = sx::choose(3); tried(|| v.try_reserve(k)).is_err() }
        1 => { let k = sx::choose(3); tried(|| v.try_reserve_exact(k)).is_err() }
        2 => plain(|| v.reserve(1)),
        3 => plain(|| v.reserve_exact(1)),
        4 => { let t = Tok::new(x); let b = plain(|| v.push(t)); if !b { m.push(x); } b }
        5 => { let i = sx::choose(m.n + 1); let t = Tok::new(x); let b = plain(|| v.insert(i, t)); if !b { m.insert(i, x); } b }
        6 => {
            let (mut w, k) = any_vec(2, 0);
            let b = plain(|| v.append(&mut w));
            if b { k.same(&w); } else { check!(w.len() == 0); m.extend(&k); }
            b
        }
        7 => {
            let a = [Tok::new(x), Tok::new(!x)];
            let n = sx::choose(3);
            let b = plain(|| v.extend_from_slice(&a[..n]));
            if !b { for t in &a[..n] { m.push(t.val); } }
            a[0].ok();
            a[1].ok();
            b
        }
        8 => {
            let i = it();
            let a = i.a;
            let n = i.n;
            let hint = i.hint;
            let (r, k) = run(|| v.extend_from_iter(i));
            check!(r.is_none() == (k > 0));
            // what it held stays, followed by the first items
            let got = v.len();
            check!(got >= m.n && got <= m.n + n);
            let kept = got - m.n;
            for j in 0..kept { m.push(a[j]); }
            if k == 0 { check!(kept == n); }
            // the claimed number was reserved at first
            else { check!(kept == 0 || kept >= hint); }
            false
        }
        9 => {
            let l = sx::choose(m.n + 3);
            let t = Tok::new(x);
            let b = plain(|| v.resize(l, t));
            if !b { m.truncate(l); while m.n < l { m.push(x); } }
            b
        }
        10 => {
            let l = sx::choose(m.n + 3);
            let b = plain(|| v.resize_with(l, || Tok::new(x)));
            if !b { m.truncate(l); while m.n < l { m.push(x); } }
            b
        }
        _ => {
            let at = sx::choose(m.n + 1);
            let (r, k) = run(|| v.split_off(at));
            check!(r.is_none() == (k > 0));
            if let Some(w) = r { m.slice(at, m.n).same(&w); *m = m.slice(0, at); }
            k > 0
        }
    };
    m.same(v);
    if bad { sx::cover(1); check!(v.capacity() == cap); }
}

fn vec_fin(mut v: Vec<Tok>, mut m: Arr) {
    m.same(&v);
    // still usable
    v.push(Tok::new(77));
    m.push(77);
    m.same(&v);
    drop(v);
    done();
}

#[no_mangle]
pub fn om_vec() {
    init();
    let (mut v, mut m) = any_vec(3, 1);
    vec_step(&mut v, &mut m);
    vec_fin(v, m);
}
#[no_mangle]
pub fn om_vec_two() {
    init();
    let (mut v, mut m) = any_vec(1, 0);
    vec_step(&mut v, &mut m);
    vec_step(&mut v, &mut m);
    vec_fin(v, m);
}
#[no_mangle]
pub fn om_vec_two_t() {
    init();
    let (mut v, mut m) = any_vec(2, 1);
    vec_step(&mut v, &mut m);
    vec_step(&mut v, &mut m);
    vec_fin(v, m);
}

/// construction
#[no_mangle]
pub fn om_vec_make() {
    init();
    let (v, m) = any_vec(2, 1);
    let c = sx::choose(3);
    let (r, k) = match sx::choose(7) {
        0 => run(|| { let w = v.clone(); m.same(&w); w }),
        1 => run(|| { let w = Vec::from(v.as_slice()); m.same(&w); w }),
        2 => { let a = [Tok::new(1), Tok::new(2)]; run(move || { let w = Vec::from(a); check!(w.len() == 2 && w[0].val == 1 && w[1].val == 2); w }) }
        3 => { let i = it(); let n = i.n; let a = i.a; run(move || { let w: Vec<Tok> = i.collect(); check!(w.len() == n); for j in 0..n { check!(w[j].val == a[j]); } w }) }
        4 => run(|| { let w = Vec::with_capacity(c); check!(w.capacity() >= c); w }),
        5 => run(|| { let w = Vec::with_capacity_and_marker(c, AllocMarker::new::<MarkA>()); check!(w.capacity() >= c); w }),
        _ => {
            let a = sx::bool();
            let r = tried(|| if a { Vec::<Tok>::try_with_capacity(c) } else { Vec::try_with_capacity_and_marker(c, AllocMarker::new::<MarkB>()) });
            if let Ok(w) = &r { check!(w.capacity() >= c && w.len() == 0); }
            (r.ok(), 1)
        }
    };
    if k == 0 { check!(r.is_some()); }
    m.same(&v);
    drop(r);
    vec_fin(v, m);
}

#[no_mangle]
pub fn om_vec_shrink() {
    init();
    let (mut v, m) = any_vec(3, 2);
    let cap = v.capacity();
    match sx::choose(3) {
        0 => { if plain(|| v.shrink_to_fit()) { check!(v.capacity() == cap); } else { check!(v.capacity() == m.n); } vec_fin(v, m); }
        1 => { let k = sx::choose(6); if plain(|| v.shrink_to(k)) { check!(v.capacity() == cap); } vec_fin(v, m); }
        _ => {
            let (r, k) = run(move || v.into_boxed_slice());
            check!(r.is_none() == (k > 0));
            // the elements went with the vector
            if let Some(b) = r { m.same(&b); drop(b); }
            done();
        }
    }
}

/// elements without size never need the allocator
#[no_mangle]
pub fn om_vec_zst() {
    init();
    let mut v = Vec::<Zst>::new();
    let n = sx::choose(3);
    check!(!plain(|| { for _ in 0..n { v.push(Zst::new()); } }));
    check!(tried(|| v.try_reserve(100)).is_ok());
    check!(!plain(|| v.insert(0, Zst::new())));
    let (c, k) = run(|| v.clone());
    check!(k == 0);
    check!(c.map(|c| c.len()) == Some(n + 1));
    let (b, k) = run(move || v.into_boxed_slice());
    check!(k == 0 && b.is_some());
    drop(b);
    check!(zlive() == 0);
    done();
}

// ------------------------------------------------------------------------------ SmallVec

fn sv_step(v: &mut SmallVec<Tok, 2>, m: &mut Arr) {
    let (cap, heap) = (v.capacity(), v.is_heap());
    let x = sx::u32();
    let bad = match sx::choose(14) {
        0 => { let k = sx::choose(4); tried(|| v.try_reserve(k)).is_err() }
        1 => { let k = sx::choose(4); tried(|| v.try_reserve_exact(k)).is_err() }
        2 => { let k = sx::choose(3); tried(|| v.try_move_to_heap_and_reserve_exact(k)).is_err() }
        3 => plain(|| v.reserve(2)),
        4 => plain(|| v.reserve_exact(2)),
        5 => plain(|| v.move_to_heap()),
        6 => { let t = Tok::new(x); let b = plain(|| v.push(t)); if !b { m.push(x); } b }
        7 => { let i = sx::choose(m.n + 1); let t = Tok::new(x); let b = plain(|| v.insert(i, t)); if !b { m.insert(i, x); } b }
        8 => {
            let (mut w, k) = any_sv::<2>(2);
            let b = plain(|| v.append(&mut w));
            if b { k.same(&w); } else { check!(w.len() == 0); m.extend(&k); }
            b
        }
        9 => {
            let a = [Tok::new(x), Tok::new(!x)];
            let n = sx::choose(3);
            let b = plain(|| v.extend_from_slice(&a[..n]));
            if !b { for t in &a[..n] { m.push(t.val); } }
            a[0].ok();
            a[1].ok();
            b
        }
        10 => {
            let l = sx::choose(m.n + 3);
            let t = Tok::new(x);
            let b = plain(|| v.resize(l, t));
            if !b { m.truncate(l); while m.n < l { m.push(x); } }
            b
        }
        11 => {
            let l = sx::choose(m.n + 3);
            let b = plain(|| v.resize_with(l, || Tok::new(x)));
            if !b { m.truncate(l); while m.n < l { m.push(x); } }
            b
        }
        12 => {
            let at = sx::choose(m.n + 1);
            let (r, k) = run(|| v.split_off(at));
            check!(r.is_none() == (k > 0));
            if let Some(w) = r { m.slice(at, m.n).same(&w); *m = m.slice(0, at); }
            k > 0
        }
        _ => {
            let at = sx::choose(m.n + 1);
            let (r, k) = run(|| v.split_off_into::<0>(at));
            check!(r.is_none() == (k > 0));
            if let Some(w) = r { m.slice(at, m.n).same(&w); *m = m.slice(0, at); }
            k > 0
        }
    };
    m.same(v);
    if bad { sx::cover(2); check!(v.capacity() == cap && v.is_heap() == heap); }
}
fn sv_fin(mut v: SmallVec<Tok, 2>, mut m: Arr) {
    m.same(&v);
    v.push(Tok::new(77));
    m.push(77);
    m.same(&v);
    drop(v);
    done();
}
#[no_mangle]
pub fn om_sv() {
    init();
    let (mut v, mut m) = any_sv::<2>(3);
    sv_step(&mut v, &mut m);
    sv_fin(v, m);
}
#[no_mangle]
pub fn om_sv_two() {
    init();
    let (mut v, mut m) = sv_of::<2>(2, false);
    sv_step(&mut v, &mut m);
    sv_step(&mut v, &mut m);
    sv_fin(v, m);
}
#[no_mangle]
pub fn om_sv_two_t() {
    init();
    let (mut v, mut m) = any_sv::<2>(2);
    sv_step(&mut v, &mut m);
    sv_step(&mut v, &mut m);
    sv_fin(v, m);
}

#[no_mangle]
pub fn om_sv_make() {
    init();
    let (v, m) = any_sv::<2>(3);
    let c = sx::choose(4);
    let (r, k) = match sx::choose(5) {
        0 => run(|| { let w = v.clone(); m.same(&w); w }),
        1 => run(|| { let w = SmallVec::<Tok, 2>::from(v.as_slice()); m.same(&w); w }),
        2 => { let a = [Tok::new(1), Tok::new(2), Tok::new(3)]; run(move || { let w = SmallVec::<Tok, 2>::from(a); check!(w.len() == 3 && w[0].val == 1 && w[2].val == 3); w }) }
        3 => run(|| { let w = SmallVec::with_capacity(c); check!(w.capacity() >= c); w }),
        _ => {
            let a = sx::bool();
            let r = tried(|| if a { SmallVec::<Tok, 2>::try_with_capacity(c) } else { SmallVec::try_with_capacity_and_marker(c, AllocMarker::new::<MarkB>()) });
            if let Ok(w) = &r { check!(w.capacity() >= c && w.len() == 0); }
            (r.ok(), 1)
        }
    };
    if k == 0 { check!(r.is_some()); }
    m.same(&v);
    drop(r);
    sv_fin(v, m);
}

/// conversions that consume the vector either deliver or drop every element
#[no_mangle]
pub fn om_sv_into() {
    init();
    let (mut v, m) = any_sv::<2>(3);
    match sx::choose(4) {
        0 => { let (r, k) = run(move || v.into_vec()); check!(r.is_none() == (k > 0)); if let Some(w) = r { m.same(&w); } }
        1 => { let (r, k) = run(move || v.into_boxed_slice()); check!(r.is_none() == (k > 0)); if let Some(w) = r { m.same(&w); } }
        2 => {
            let cap = v.capacity();
            let b = plain(|| v.shrink_to_fit());
            if b { check!(v.capacity() == cap); }
            m.same(&v);
            drop(v);
        }
        _ => {
            let (r, k) = run(|| v.try_move_to_stack());
            check!(k == 0);
            check!(r.map(|r| r.is_ok()) == Some(m.n <= 2 || !v.is_heap()));
            m.same(&v);
            drop(v);
        }
    }
    done();
}

// ------------------------------------------------------------------------------ String

#[no_mangle]
pub fn om_str() {
    init();
    let (mut s, mut t) = any_string(1, 1);
    let cap = s.capacity();
    let bad = match sx::choose(11) {
        0 => { let k = sx::choose(4); tried(|| s.try_reserve(k)).is_err() }
        1 => { let k = sx::choose(4); tried(|| s.try_reserve_exact(k)).is_err() }
        2 => plain(|| s.reserve(2)),
        3 => plain(|| s.reserve_exact(2)),
        4 => { let c = any_char(); let b = plain(|| s.push(ch(c))); if !b { t.push(c); } b }
        5 => { let c = any_char(); let b = plain(|| s.insert(0, ch(c))); if !b { t.insert(0, c); } b }
        6 => { let (o, u) = any_string(1, 0); let b = plain(|| s.push_str(&o)); if !b { t.extend(&u); } b }
        7 => { let (o, u) = any_string(1, 0); let b = plain(|| s.insert_str(0, &o)); if !b { let mut w = u; w.extend(&t); t = w; } b }
        8 => { let (o, u) = any_string(1, 0); let b = plain(|| s += &o); if !b { t.extend(&u); } b }
        9 => {
            let k = sx::choose(t.n + 1);
            let at = t.slice(0, k).len();
            let (r, f) = run(|| s.split_off(at));
            check!(r.is_none() == (f > 0));
            if let Some(w) = r { t.slice(k, t.n).same(&w); t = t.slice(0, k); }
            f > 0
        }
        _ => { use std::fmt::Write; let (o, u) = any_string(1, 0); let b = plain(|| { let _ = s.write_str(&o); }); if !b { t.extend(&u); } b }
    };
    t.same(&s);
    if bad { sx::cover(3); check!(s.capacity() == cap); }
    s.push('!');
    t.push((33, 1));
    t.same(&s);
    drop(s);
    done();
}

#[no_mangle]
pub fn om_str_make() {
    init();
    let (s, t) = any_string(1, 1);
    let c = sx::choose(3);
    let (r, k) = match sx::choose(8) {
        0 => run(|| { let w = s.clone(); t.same(&w); w }),
        1 => run(|| { let w = String::from(s.as_str()); t.same(&w); w }),
        2 => run(|| { let w = String::from(&s); t.same(&w); w }),
        3 => { let c = any_char(); run(|| { let w = String::from(ch(c)); let mut e = Text::new(); e.push(c); e.same(&w); w }) }
        4 => { let u = [sx::u16(), 0x41]; let (r, k) = run(|| String::from_utf16(&u)); (match r { Some(Ok(w)) => Some(w), Some(Err(_)) => Some(String::new()), None => None }, k) }
        5 => run(|| String::with_capacity(c)),
        6 => { let c = any_char(); run(|| { let w: String = [ch(c), 'x'].iter().collect(); check!(w.len() == c.1 + 1); w }) }
        _ => {
            let a = sx::bool();
            let r = tried(|| if a { String::try_with_capacity(c) } else { String::try_with_capacity_and_marker(c, AllocMarker::new::<MarkB>()) });
            (r.ok(), 1)
        }
    };
    if k == 0 { check!(r.is_some()); }
    if let Some(w) = &r { check!(core::str::from_utf8(w.as_bytes()).is_ok()); }
    t.same(&s);
    drop(r);
    drop(s);
    done();
}

// ------------------------------------------------------------------------------ pointers

#[no_mangle]
pub fn om_box() {
    init();
    let x = sx::u32();
    let t = Tok::new(x);
    let m = sx::bool();
    let (r, k) = run(move || if m { Box::new_with(t, AllocMarker::new::<MarkA>()) } else { Box::new(t) });
    check!(r.is_none() == (k > 0));
    check!(toks_live() == r.is_some() as usize);
    if let Some(b) = r {
        check!(b.val == x);
        // moved on into a counted pointer
        let (r, k) = run(move || Rc::from(b));
        check!(r.is_none() == (k > 0));
        if let Some(r) = r { check!(r.val == x); }
        else { check!(toks_live() == 0); }
    }
    done();
}

#[no_mangle]
pub fn om_ptr() {
    init();
    let x = sx::u32();
    let t = Tok::new(x);
    match sx::choose(9) {
        0 => { let (r, k) = run(move || Rc::new(t)); check!(r.is_none() == (k > 0)); if let Some(r) = r { check!(r.val == x); } }
        1 => { let (r, k) = run(move || Arc::new(t)); check!(r.is_none() == (k > 0)); if let Some(r) = r { check!(r.val == x); } }
        2 => { let (r, k) = run(move || Urc::new(t)); check!(r.is_none() == (k > 0)); if let Some(r) = r { check!(r.val == x); } }
        3 => { if let Ok(r) = tried(move || Arc::try_new(t)) { check!(r.val == x); } }
        4 => { if let Ok(r) = tried(move || Urc::try_new(t)) { check!(r.val == x); } }
        5 => { if let Ok(r) = tried(move || Arc::try_pin(t)) { check!(r.val == x); } }
        6 => { if let Ok(r) = tried(move || Urc::try_pin(t)) { check!(r.val == x); } }
        7 => { drop(t); let _ = tried(|| Arc::<Tok>::try_new_uninit()); }
        _ => { drop(t); let _ = tried(|| Urc::<Tok>::try_new_uninit()); }
    }
    done();
}

#[no_mangle]
pub fn om_scope_ptr() {
    init();
    let x = sx::u32();
    match sx::choose(2) {
        0 => { let t = Tok::new(x); if let Ok(p) = tried(move || ScopePtr::alloc(t, AllocSelector::new::<Tok>())) { check!(p.val == x); } }
        _ => {
            if let Ok(mut p) = ScopePtr::<[u64]>::alloc_array_uninit(2, AllocSelector::new::<u64>()) {
                p[0] = x as u64;
                p[1] = 5;
                let k = 1 + sx::choose(4);
                let (old, len) = (p.as_ptr(), p.len());
                match tried(|| unsafe { p.realloc_array(k) }) {
                    Ok(()) => check!(p.len() == k),
                    Err(_) => check!(p.as_ptr() == old && p.len() == len && p[1] == 5),
                }
                check!(p[0] == x as u64);
                drop(p);
            } else { check!(false); }
        }
    }
    done();
}

macro_rules! make_mut {
    ($f:ident, $T:ident, $strong:path, $weak:path) => {
        #[no_mangle]
        pub fn $f() {
            init();
            let (x, y) = (sx::u32(), sx::u32());
            let mut r = $T::new(Tok::new(x));
            let q = if sx::bool() { Some(r.clone()) } else { None };
            let w = if sx::bool() { Some($T::downgrade(&r)) } else { None };
            let at = $T::as_ptr(&r);
            let bad = plain(|| $T::make_mut(&mut r).val = y);
            if bad {
                // as it was
                check!(r.val == x && $T::as_ptr(&r) == at);
                check!($strong(&r) == 1 + q.is_some() as usize && $weak(&r) == w.is_some() as usize);
                check!(toks_live() == 1);
            } else {
                check!(r.val == y);
                check!($strong(&r) == 1 && $weak(&r) == 0);
                check!(toks_live() == 1 + q.is_some() as usize);
            }
            if let Some(q) = &q { check!(q.val == x); check!($strong(q) == 1 + bad as usize); check!($weak(q) == w.is_some() as usize); }
            match sx::choose(3) {
                0 => { drop(r); drop(q); drop(w); }
                1 => { drop(w); drop(q); drop(r); }
                _ => { drop(q); drop(w); check!(r.val == if bad { x } else { y }); check!($T::try_unwrap(r).is_ok()); }
            }
            done();
        }
    };
}
make_mut!(om_rc_mut, Rc, Rc::strong_count, Rc::weak_count);
make_mut!(om_arc_mut, Arc, Arc::strong_count, Arc::weak_count);
make_mut!(om_urc_mut, Urc, Urc::fence_strong_count, Urc::fence_weak_count);

struct Recv;
impl<'a> ScopeRecv<'a> for Recv {}

/// a fence that cannot be allocated does not count
#[no_mangle]
pub fn om_urc_env() {
    init();
    let x = sx::u32();
    let mut r = Urc::new(Tok::new(x));
    let q: Option<Urc<Tok>> = if sx::bool() { Some(Recv.recv(r.envelop(&Recv))) } else { None };
    let (e, k) = run(|| r.envelop(&Recv));
    check!(e.is_none() == (k > 0));
    let other = q.is_some() || e.is_some();
    check!(Urc::is_sole_strong_fence(&r) == !other);
    check!(Urc::fence_strong_count(&r) == 1 && r.val == x && toks_live() == 1);
    if let Some(e) = e { let p: Urc<Tok> = Recv.recv(e); check!(p.val == x); }
    // a fence made again needs memory for itself
    if sx::bool() {
        if let Ok(f) = Urc::try_into_fence(r) {
            let (u, k) = run(move || f.into_inner().into_urc());
            check!(u.is_none() == (k > 0));
            check!(toks_live() == (u.is_some() || q.is_some()) as usize);
            if let Some(u) = u { check!(u.val == x); }
            if let Some(q) = q { check!(q.val == x); check!(Urc::try_unwrap(q).is_ok()); }
        } else { check!(false); }
    } else {
        let bad = plain(|| { Urc::make_mut(&mut r); });
        check!(Urc::is_sole_strong_fence(&r) == (q.is_none() || !bad));
        check!(r.val == x);
        drop(q);
        check!(Urc::get_mut(&mut r).is_some());
        drop(r);
    }
    done();
}
