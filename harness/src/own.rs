//! ownership over sequences of operations and conversions: every element is dropped exactly once
use crate::env::*;
use crate::vecs::*;
use crate::{check, sx};
use lokky::boxed::Box;
use lokky::small_vec::SmallVec;
use lokky::vec::Vec;

const FILE: u32 = 14;

harnesses! {
    ow_vec ow_sv ow_convert ow_boxes ow_zst_vec ow_zst_sv ow_big ow_zst_convert ow_leak ow_drop_cascade
    ow_vec_t ow_sv_t ow_convert_t ow_zst_vec_t
}

/// n elements of the sequence are owned by v (and k more elsewhere)
fn hold(v: &[Tok], n: usize, k: usize) {
    check!(v.len() == n);
    for t in v { t.ok(); }
    check!(toks_live() == n + k);
}

fn vec_ops(steps: usize, max: usize) {
    init();
    let (mut v, m) = any_vec(max, 1);
    let mut n = m.n;
    for _ in 0..steps {
        match sx::choose(12) {
            0 => { v.push(Tok::new(1)); n += 1; }
            1 => { if v.pop().is_some() { n -= 1; } }
            2 => { v.insert(sx::choose(n + 1), Tok::new(2)); n += 1; }
            3 => { if n > 0 { let t = v.remove(sx::choose(n)); hold(&v, n - 1, 1); t.ok(); n -= 1; } }
            4 => { if n > 0 { let t = v.swap_remove(sx::choose(n)); hold(&v, n - 1, 1); t.ok(); n -= 1; } }
            5 => { let k = sx::choose(n + 2); v.truncate(k); if k < n { n = k; } }
            6 => { let k = sx::choose(n + 1); let w = v.split_off(k); hold(&v, k, n - k); hold(&w, n - k, k); n = k; }
            7 => { let k = sx::choose(5); v.resize(k, Tok::new(3)); n = k; }
            8 => { let mut w = v.clone(); hold(&w, n, n); v.append(&mut w); n *= 2; check!(w.len() == 0); if n > 4 { v.truncate(4); n = 4; } }
            9 => { v.retain(|_| { let k = sx::bool(); if !k { n -= 1; } k }); }
            10 => { let b = v.into_boxed_slice(); hold(&b, n, 0); v = Vec::from(b); }
            _ => { v.clear(); n = 0; }
        }
        hold(&v, n, 0);
    }
    drop(v);
    done();
}
#[no_mangle]
pub fn ow_vec() { vec_ops(2, 2) }
#[no_mangle]
pub fn ow_vec_t() { vec_ops(3, 3) }

fn sv_ops(steps: usize, max: usize) {
    init();
    let (mut v, m) = any_sv::<2>(max);
    let mut n = m.n;
    for _ in 0..steps {
        match sx::choose(12) {
            0 => { v.push(Tok::new(1)); n += 1; }
            1 => { if v.pop().is_some() { n -= 1; } }
            2 => { v.insert(sx::choose(n + 1), Tok::new(2)); n += 1; }
            3 => { if n > 0 { let t = v.remove(sx::choose(n)); hold(&v, n - 1, 1); t.ok(); n -= 1; } }
            4 => { if n > 0 { let t = v.swap_remove(sx::choose(n)); hold(&v, n - 1, 1); t.ok(); n -= 1; } }
            5 => { let k = sx::choose(n + 2); v.truncate(k); if k < n { n = k; } }
            6 => { let k = sx::choose(n + 1); let w: SmallVec<Tok, 1> = v.split_off_into(k); hold(&v, k, n - k); hold(&w, n - k, k); n = k; }
            7 => { let k = sx::choose(5); v.resize(k, Tok::new(3)); n = k; }
            8 => { let mut w = v.clone(); hold(&w, n, n); v.append(&mut w); n *= 2; check!(w.len() == 0); if n > 4 { v.truncate(4); n = 4; } }
            9 => { v.move_to_heap(); check!(v.is_heap()); }
            10 => { let r = v.try_move_to_stack(); check!(r.is_ok() == (v.is_stack())); }
            _ => { v.clear(); n = 0; }
        }
        hold(&v, n, 0);
    }
    drop(v);
    done();
}
#[no_mangle]
pub fn ow_sv() { sv_ops(2, 3) }
#[no_mangle]
pub fn ow_sv_t() { sv_ops(3, 3) }

/// the same elements moved through every container form
fn convert(steps: usize) {
    init();
    let (v, m) = any_vec(3, 1);
    enum C { V(Vec<Tok>), S(SmallVec<Tok, 2>), B(Box<[Tok]>) }
    let mut c = C::V(v);
    for _ in 0..steps {
        let go = sx::choose(3);
        c = match (c, go) {
            (C::V(v), 0) => C::B(v.into_boxed_slice()),
            (C::V(v), 1) => C::S(SmallVec::from(v)),
            (C::V(v), _) => { let mut w = Vec::new(); for t in v { w.push(t); } C::V(w) }
            (C::B(b), 0) => C::V(Vec::from(b)),
            (C::B(b), 1) => C::S(SmallVec::from(b)),
            (C::B(b), _) => C::B(b),
            (C::S(s), 0) => C::B(s.into_boxed_slice()),
            (C::S(s), 1) => C::V(s.into_vec()),
            (C::S(mut s), _) => { let _ = s.try_move_to_stack(); C::S(s) }
        };
        match &c {
            C::V(v) => m.same(v),
            C::S(v) => m.same(v),
            C::B(v) => m.same(v),
        }
        check!(toks_live() == m.n);
    }
    drop(c);
    done();
}
#[no_mangle]
pub fn ow_convert() { convert(3) }
#[no_mangle]
pub fn ow_convert_t() { convert(5) }

#[no_mangle]
pub fn ow_boxes() {
    init();
    let x = sx::u32();
    let a = Box::new(Tok::new(x));
    check!(a.val == x);
    check!(toks_live() == 1);
    if sx::bool() {
        let t = a.into_inner();
        t.ok();
        check!(t.val == x);
        check!(toks_live() == 1);
        check!(sx::live() == 0);
        let mut v = Vec::new();
        v.push(Box::new(t));
        v.push(Box::new(Tok::new(4)));
        let b = v.swap_remove(0);
        check!(b.val == x && toks_live() == 2);
        drop(v);
        check!(toks_live() == 1);
        b.ok();
        sx::cover(1);
        drop(b);
    } else {
        drop(a);
    }
    done();
}

/// nested owners
#[no_mangle]
pub fn ow_drop_cascade() {
    init();
    let n = sx::choose(3);
    let k = sx::choose(3);
    let mut v: Vec<SmallVec<Tok, 1>> = Vec::new();
    for _ in 0..n {
        let mut s = SmallVec::new();
        for i in 0..k { s.push(Tok::new(i as u32)); }
        v.push(s);
    }
    check!(toks_live() == n * k);
    if n > 0 && sx::bool() {
        let s = v.remove(sx::choose(n));
        check!(s.len() == k);
        check!(toks_live() == n * k);
        drop(s);
        check!(toks_live() == (n - 1) * k);
    }
    let w = v.clone();
    check!(toks_live() == 2 * w.len() * k);
    let b = v.into_boxed_slice();
    drop(w);
    check!(toks_live() == b.len() * k);
    drop(b);
    done();
}

macro_rules! zst_ops {
    ($name:ident, $ty:ty, $steps:expr) => {
        #[no_mangle]
        pub fn $name() {
            init();
            let mut v = <$ty>::new();
            let mut n = sx::choose(4);
            for _ in 0..n { v.push(Zst::new()); }
            for _ in 0..$steps {
                match sx::choose(11) {
                    0 => { v.push(Zst::new()); n += 1; }
                    1 => { check!(v.pop().is_some() == (n > 0)); if n > 0 { n -= 1; } }
                    2 => { v.insert(sx::choose(n + 1), Zst::new()); n += 1; }
                    3 => { if n > 0 { let _z = v.remove(sx::choose(n)); check!(zlive() as usize == n); n -= 1; } }
                    4 => { if n > 0 { let _z = v.swap_remove(sx::choose(n)); check!(zlive() as usize == n); n -= 1; } }
                    5 => { let k = sx::choose(n + 2); v.truncate(k); if k < n { n = k; } }
                    6 => { let k = sx::choose(n + 1); let w = v.split_off(k); check!(v.len() == k && w.len() == n - k && zlive() as usize == n); n = k; }
                    7 => { let k = sx::choose(4); v.resize(k, Zst::new()); n = k; }
                    8 => { let mut w = v.clone(); check!(w.len() == n && zlive() as usize == 2 * n); v.append(&mut w); n *= 2; check!(w.len() == 0); }
                    9 => { v.shrink_to_fit(); }
                    _ => { v.clear(); n = 0; }
                }
                check!(v.len() == n);
                check!(zlive() as usize == n);
            }
            check!(v.as_slice().len() == n);
            drop(v);
            check!(zlive() == 0);
            check!(traffic() == 0);
            done();
        }
    };
}
zst_ops!(ow_zst_vec, Vec<Zst>, 2);
zst_ops!(ow_zst_sv, SmallVec<Zst, 2>, 2);
zst_ops!(ow_zst_vec_t, Vec<Zst>, 3);

#[no_mangle]
pub fn ow_zst_convert() {
    init();
    let n = sx::choose(4);
    let mut v = Vec::<Zst>::new();
    for _ in 0..n { v.push(Zst::new()); }
    let b = v.into_boxed_slice();
    check!(b.len() == n && zlive() as usize == n);
    let v = Vec::from(b);
    check!(v.len() == n && zlive() as usize == n);
    let mut s = SmallVec::<Zst, 2>::from(v);
    check!(s.len() == n && zlive() as usize == n);
    check!(s.try_move_to_stack().is_ok() == (n <= 2));
    check!(s.len() == n && zlive() as usize == n);
    let b = s.into_boxed_slice();
    check!(b.len() == n && zlive() as usize == n);
    drop(b);
    check!(zlive() == 0);
    let x = Box::new(Zst::new());
    check!(zlive() == 1);
    if sx::bool() { let _z = x.into_inner(); check!(zlive() == 1); } else { drop(x) }
    check!(zlive() == 0);
    check!(traffic() == 0);
}

/// over-aligned elements keep their values and their alignment
#[no_mangle]
pub fn ow_big() {
    init();
    let n = sx::choose(4);
    let mut v = Vec::<Big>::new();
    let mut s = SmallVec::<Big, 2>::new();
    let mut want = [0u64; 4];
    for i in 0..n {
        want[i] = sx::u64();
        v.push(Big(want[i]));
        s.push(Big(want[i]));
    }
    check!(v.as_ptr() as usize % 32 == 0);
    check!(s.as_ptr() as usize % 32 == 0);
    for i in 0..n { check!(v[i].0 == want[i] && s[i].0 == want[i]); }
    let b = v.into_boxed_slice();
    check!(b.as_ptr() as usize % 32 == 0);
    for i in 0..n { check!(b[i].0 == want[i]); }
    let c = Box::new(Big(9));
    check!(&*c as *const Big as usize % 32 == 0);
    drop((b, s, c));
    done();
}

/// leak: elements and memory stay for ever
#[no_mangle]
pub fn ow_leak() {
    init();
    let (v, m) = any_vec(3, 1);
    let blocks = sx::live();
    let s = v.leak();
    m.same(s);
    check!(toks_live() == m.n);
    check!(sx::live() == blocks);
    if m.n > 0 {
        s[0].val = 5;
        check!(s[0].val == 5);
        sx::cover(2);
    }
    let (w, k) = any_vec(2, 0);
    let n = toks_live();
    w.dealloc_without_drop();
    check!(toks_live() == n);
    check!(sx::live() == blocks);
    let _ = k;
}
