//! capacity arithmetic for all 64-bit amounts
use crate::env::*;
use crate::{check, sx};
use lokky::small_vec::SmallVec;
use lokky::string::String;
use lokky::vec::Vec;

const FILE: u32 = 15;

harnesses! {
    ca_with_u8 ca_with_tok ca_with_b24 ca_with_big ca_with_2k ca_with_zst
    ca_res_u8 ca_res_tok ca_res_b24 ca_res_big ca_res_2k ca_res_zst
    ca_exact_u8 ca_exact_tok ca_exact_b24 ca_exact_big ca_exact_2k ca_exact_zst
    ca_shrink_u8 ca_shrink_b24 ca_shrink_zst ca_grow_u8 ca_grow_b24
    ca_resize_u8 ca_resize_b24 ca_resize_zst
    ca_sv_with_b24 ca_sv_res_b24 ca_sv_exact_b24 ca_sv_res_zst ca_sv_exact_u8 ca_sv_resize ca_sv_heap
    ca_string ca_string_shrink
}

type B24 = [u64; 3];
type K2 = [u8; 2048];

trait Elem: Clone + 'static {
    fn mk(i: u8) -> Self;
    fn is(&self, i: u8) -> bool;
}
impl Elem for u8 { fn mk(i: u8) -> u8 { i } fn is(&self, i: u8) -> bool { *self == i } }
impl Elem for Tok { fn mk(i: u8) -> Tok { Tok::new(i as u32) } fn is(&self, i: u8) -> bool { self.ok(); self.val == i as u32 } }
impl Elem for B24 { fn mk(i: u8) -> B24 { [i as u64, 1, 2] } fn is(&self, i: u8) -> bool { self[0] == i as u64 && self[2] == 2 } }
impl Elem for Big { fn mk(i: u8) -> Big { Big(i as u64) } fn is(&self, i: u8) -> bool { self.0 == i as u64 } }
impl Elem for K2 { fn mk(i: u8) -> K2 { [i; 2048] } fn is(&self, i: u8) -> bool { self[0] == i && self[2047] == i } }
impl Elem for Zst { fn mk(_i: u8) -> Zst { Zst::new() } fn is(&self, _i: u8) -> bool { true } }

/// the largest element count the model allocators serve
fn max_count<T>() -> usize {
    if std::mem::size_of::<T>() == 0 { usize::MAX } else { LIMIT / std::mem::size_of::<T>() }
}

fn same<T: Elem>(v: &[T], n: usize) {
    check!(v.len() == n);
    for i in 0..n { check!(v[i].is(i as u8)); }
}

fn state<T: Elem>(max: usize) -> (Vec<T>, usize) {
    let n = sx::choose(max + 1);
    let mut v = Vec::<T>::with_capacity(n + sx::choose(3));
    for i in 0..n { v.push(T::mk(i as u8)); }
    (v, n)
}

fn with<T: Elem>() {
    init();
    let c = sx::usize();
    if sx::bool() {
        match Vec::<T>::try_with_capacity(c) {
            Ok(v) => {
                check!(v.capacity() >= c);
                check!(v.len() == 0);
                sx::log(1, v.capacity() as u64);
            }
            Err(_) => check!(c > max_count::<T>()),
        }
    } else {
        match sx::catch(|| Vec::<T>::with_capacity(c)) {
            Some(v) => { check!(v.capacity() >= c); check!(v.is_empty()); }
            None => check!(c > max_count::<T>()),
        }
    }
    done();
}

fn reserve<T: Elem>(exact: bool) {
    init();
    let (mut v, n) = state::<T>(2);
    let k = sx::usize();
    let cap = v.capacity();
    let before = traffic();
    let (ok, _) = match (exact, sx::bool()) {
        (false, false) => (sx::catch(|| v.reserve(k)).is_some(), 0),
        (false, true) => (v.try_reserve(k).is_ok(), 0),
        (true, false) => (sx::catch(|| v.reserve_exact(k)).is_some(), 0),
        (true, true) => (v.try_reserve_exact(k).is_ok(), 0),
    };
    if ok {
        check!(n.checked_add(k).is_some());
        check!(v.capacity() >= n.wrapping_add(k));
        if k <= cap - n {
            // already there
            check!(traffic() == before);
            check!(v.capacity() == cap);
        }
    } else {
        check!(k > max_count::<T>() - n);
        check!(v.capacity() == cap);
    }
    same(v.as_slice(), n);
    drop(v);
    done();
}

fn shrink<T: Elem>() {
    init();
    let (mut v, n) = state::<T>(2);
    let cap = v.capacity();
    let k = sx::usize();
    if sx::bool() {
        v.shrink_to(k);
        check!(v.capacity() >= n);
        check!(v.capacity() >= k || v.capacity() == cap);
        check!(v.capacity() <= cap);
    } else {
        v.shrink_to_fit();
        check!(v.capacity() >= n);
        check!(v.capacity() <= cap);
    }
    same(v.as_slice(), n);
    v.push(T::mk(n as u8));
    same(v.as_slice(), n + 1);
    drop(v);
    done();
}

/// growth by pushing: length never above capacity, capacity never goes down
fn grow<T: Elem>() {
    init();
    let mut v = Vec::<T>::new();
    let mut last = v.capacity();
    for i in 0..12 {
        if sx::choose(2) == 1 && i < 4 { v.reserve(1); }
        v.push(T::mk(i as u8));
        check!(v.capacity() >= v.len());
        check!(v.capacity() >= last);
        check!(v.spare_len() == v.capacity() - v.len());
        check!(v.spare_capacity().len() == v.spare_len());
        check!(v.spare_capacity_mut().len() == v.spare_len());
        check!(v.is_full() == (v.spare_len() == 0));
        last = v.capacity();
    }
    same(v.as_slice(), 12);
    drop(v);
    done();
}

fn resize<T: Elem>() {
    init();
    let (mut v, n) = state::<T>(2);
    let cap = v.capacity();
    // lengths that fit are bounded, lengths that cannot exist are all of them
    let k = sx::usize();
    let big = max_count::<T>();
    sx::assume(k <= 4 || k > big);
    let r = sx::catch(|| v.resize(k, T::mk(7)));
    if k <= 4 {
        check!(r.is_some());
        let k = sx::conc(k);
        check!(v.len() == k);
        for i in 0..k { check!(if i < n { v[i].is(i as u8) } else { v[i].is(7) }); }
    } else {
        check!(r.is_none());
        check!(v.capacity() == cap);
        same(v.as_slice(), n);
    }
    drop(v);
    done();
}

macro_rules! inst {
    ($($name:ident $call:expr;)*) => { $(#[no_mangle] pub fn $name() { $call })* };
}
inst! {
    ca_with_u8 with::<u8>(); ca_with_tok with::<Tok>(); ca_with_b24 with::<B24>(); ca_with_big with::<Big>(); ca_with_2k with::<K2>(); ca_with_zst with::<Zst>();
    ca_res_u8 reserve::<u8>(false); ca_res_tok reserve::<Tok>(false); ca_res_b24 reserve::<B24>(false); ca_res_big reserve::<Big>(false); ca_res_2k reserve::<K2>(false); ca_res_zst reserve::<Zst>(false);
    ca_exact_u8 reserve::<u8>(true); ca_exact_tok reserve::<Tok>(true); ca_exact_b24 reserve::<B24>(true); ca_exact_big reserve::<Big>(true); ca_exact_2k reserve::<K2>(true); ca_exact_zst reserve::<Zst>(true);
    ca_shrink_u8 shrink::<u8>(); ca_shrink_b24 shrink::<B24>(); ca_shrink_zst shrink::<Zst>();
    ca_grow_u8 grow::<u8>(); ca_grow_b24 grow::<B24>();
    ca_resize_u8 resize::<u8>(); ca_resize_b24 resize::<B24>(); ca_resize_zst resize_zst();
}

/// unbounded capacity, but lengths cannot exceed the machine integer
fn resize_zst() {
    init();
    let mut v = Vec::<Zst>::new();
    check!(v.capacity() == usize::MAX);
    let k = sx::choose(4);
    v.resize(k, Zst::new());
    check!(v.len() == k && zlive() as usize == k);
    check!(v.capacity() == usize::MAX);
    check!(v.try_reserve(usize::MAX).is_ok() == (k == 0));
    check!(traffic() == 0);
    drop(v);
    check!(zlive() == 0);
}

// ------------------------------------------------------------------------------- small vector

fn sv_state<T: Elem, const N: usize>(max: usize) -> (SmallVec<T, N>, usize) {
    let n = sx::choose(max + 1);
    let mut v = if sx::choose(2) == 1 { SmallVec::<T, N>::with_capacity(N + 1) } else { SmallVec::<T, N>::new() };
    for i in 0..n { v.push(T::mk(i as u8)); }
    (v, n)
}

fn sv_with<T: Elem, const N: usize>() {
    init();
    let c = sx::usize();
    let r = if sx::bool() { SmallVec::<T, N>::try_with_capacity(c).ok() } else { sx::catch(|| SmallVec::<T, N>::with_capacity(c)) };
    match r {
        Some(v) => {
            check!(v.capacity() >= c);
            check!(v.len() == 0);
        }
        None => check!(c > max_count::<T>()),
    }
    done();
}

fn sv_reserve<T: Elem, const N: usize>(exact: bool) {
    init();
    let (mut v, n) = sv_state::<T, N>(N + 1);
    let k = sx::usize();
    let cap = v.capacity();
    let heap = v.is_heap();
    let before = traffic();
    let ok = match (exact, sx::bool()) {
        (false, false) => sx::catch(|| v.reserve(k)).is_some(),
        (false, true) => v.try_reserve(k).is_ok(),
        (true, false) => sx::catch(|| v.reserve_exact(k)).is_some(),
        (true, true) => v.try_reserve_exact(k).is_ok(),
    };
    if ok {
        check!(n.checked_add(k).is_some());
        check!(v.capacity() >= n.wrapping_add(k));
        if k <= cap - n {
            check!(traffic() == before);
            check!(v.capacity() == cap);
            check!(v.is_heap() == heap);
        }
    } else {
        check!(k > max_count::<T>() - n);
        check!(v.capacity() == cap);
        check!(v.is_heap() == heap);
    }
    same(v.as_slice(), n);
    drop(v);
    done();
}

inst! {
    ca_sv_with_b24 sv_with::<B24, 2>();
    ca_sv_res_b24 sv_reserve::<B24, 2>(false); ca_sv_exact_b24 sv_reserve::<B24, 2>(true);
    ca_sv_res_zst sv_reserve::<Zst, 2>(false); ca_sv_exact_u8 sv_reserve::<u8, 3>(true);
}

#[no_mangle]
pub fn ca_sv_resize() {
    init();
    let (mut v, n) = sv_state::<B24, 2>(3);
    let cap = v.capacity();
    let k = sx::usize();
    sx::assume(k <= 5 || k > max_count::<B24>());
    let r = sx::catch(|| v.resize(k, B24::mk(7)));
    if k <= 5 {
        check!(r.is_some());
        let k = sx::conc(k);
        check!(v.len() == k);
        for i in 0..k { check!(if i < n { v[i].is(i as u8) } else { v[i].is(7) }); }
    } else {
        check!(r.is_none());
        check!(v.capacity() == cap);
        same(v.as_slice(), n);
        sx::cover(1);
    }
    drop(v);
    done();
}

/// explicit move to the heap with a reservation
#[no_mangle]
pub fn ca_sv_heap() {
    init();
    let (mut v, n) = sv_state::<B24, 2>(3);
    let k = sx::usize();
    let cap = v.capacity();
    let heap = v.is_heap();
    match v.try_move_to_heap_and_reserve_exact(k) {
        Ok(()) => {
            check!(v.is_heap());
            check!(n.checked_add(k).is_some());
            check!(v.capacity() >= n.wrapping_add(k));
        }
        Err(_) => {
            check!(k > max_count::<B24>() - n);
            check!(v.is_heap() == heap);
            check!(v.capacity() == cap);
        }
    }
    same(v.as_slice(), n);
    drop(v);
    done();
}

// ------------------------------------------------------------------------------- string

#[no_mangle]
pub fn ca_string() {
    init();
    let mut s = String::from("ab");
    let k = sx::usize();
    let cap = s.capacity();
    let ok = match sx::choose(6) {
        0 => s.try_reserve(k).is_ok(),
        1 => s.try_reserve_exact(k).is_ok(),
        2 => sx::catch(|| s.reserve(k)).is_some(),
        3 => sx::catch(|| s.reserve_exact(k)).is_some(),
        4 => {
            match String::try_with_capacity(k) {
                Ok(t) => check!(t.capacity() >= k && t.is_empty()),
                Err(_) => check!(k > LIMIT),
            }
            return;
        }
        _ => {
            match sx::catch(|| String::with_capacity(k)) {
                Some(t) => check!(t.capacity() >= k && t.is_empty()),
                None => check!(k > LIMIT),
            }
            return;
        }
    };
    if ok {
        check!(k <= LIMIT);
        check!(s.capacity() >= 2 + k);
    } else {
        check!(k > LIMIT - 2);
        check!(s.capacity() == cap);
    }
    check!(s.as_bytes() == b"ab");
    drop(s);
    done();
}

#[no_mangle]
pub fn ca_string_shrink() {
    init();
    let mut s = String::with_capacity(2 + sx::choose(3));
    s.push_str("ab");
    let cap = s.capacity();
    let k = sx::usize();
    if sx::bool() { s.shrink_to(k) } else { s.shrink_to_fit() }
    check!(s.capacity() >= 2 && s.capacity() <= cap);
    check!(s.as_bytes() == b"ab");
    drop(s);
    done();
}
