//! SmallVec: the heap is used only when the elements do not fit inline
use crate::env::*;
use crate::vecs::*;
use crate::{check, sx};
use lokky::small_vec::SmallVec;

const FILE: u32 = 20;

harnesses! { sl_stack sl_reserve sl_with sl_make sl_ops sl_stay sl_ops_t }

/// arbitrary inline state
fn inline<const N: usize>() -> (SmallVec<Tok, N>, Arr) {
    let n = sx::choose(N + 1);
    let r = sv_of::<N>(n, false);
    check!(traffic() == 0);
    check!(r.0.capacity() == N);
    r
}

/// one operation that needs `need` places in all
fn rule<const N: usize>(v: &SmallVec<Tok, N>, was_heap: bool, t0: usize, need: usize) {

    check!(v.capacity() >= v.len());
    if was_heap {
        check!(v.is_heap());
    } else if need <= N {
        check!(v.is_stack());
        check!(v.capacity() == N);
        check!(nalloc() + nfree() == t0);
    } else {
        check!(v.is_heap());
        check!(v.capacity() >= need);
        // one block taken, nothing released
        check!(nalloc() + nfree() == t0 + 1);
    }
}

fn grow<const N: usize>(v: &mut SmallVec<Tok, N>, m: &mut Arr) {
    let heap = v.is_heap();
    let t0 = nalloc() + nfree();
    let n = m.n;
    let x = sx::u32();
    let need = match sx::choose(10) {
        0 => { v.push(Tok::new(x)); m.push(x); n + 1 }
        1 => { let i = sx::choose(n + 1); v.insert(i, Tok::new(x)); m.insert(i, x); n + 1 }
        2 => { let k = sx::choose(5); v.resize(k, Tok::new(x)); if k <= n { m.n = k; } while m.n < k { m.push(x); } k }
        3 => { let k = sx::choose(5); v.resize_with(k, || Tok::new(x)); if k <= n { m.n = k; } while m.n < k { m.push(x); } k }
        4 => { let k = sx::choose(4); for _ in 0..k { m.push(x); } v.extend((0..k).map(|_| Tok::new(x))); n + k }
        5 => {
            let k = sx::choose(4);
            let (w, mw) = sv_of::<3>(k, false);
            check!(nalloc() + nfree() == t0);
            v.extend_from_slice(&w);
            m.extend(&mw);
            n + k
        }
        6 => {
            let k = sx::choose(N + 1);
            let (mut w, mw) = sv_of::<N>(k, false);
            v.append(&mut w);
            m.extend(&mw);
            check!(w.is_stack());
            n + k
        }
        7 => { let k = sx::choose(4); v.reserve(k); n + k }
        8 => { let k = sx::choose(4); v.reserve_exact(k); n + k }
        _ => {
            // nothing here can need the heap
            v.shrink_to_fit();
            if n > 0 { let t = v.swap_remove(0); check!(t.val == m.v[0]); m.v[0] = m.v[n - 1]; m.n -= 1; }
            v.truncate(3);
            m.truncate(3);
            if sx::bool() { v.retain(|_| true); } else { v.dedup_by(|_, _| false); }
            0
        }
    };
    // the list operations above take no memory of their own
    rule(v, heap, t0, need);
    m.same(v);
}

#[no_mangle]
pub fn sl_stack() {
    init();
    match sx::choose(3) {
        0 => { let (mut v, mut m) = inline::<2>(); grow(&mut v, &mut m); }
        1 => { let (mut v, mut m) = inline::<3>(); grow(&mut v, &mut m); }
        _ => { let (mut v, mut m) = inline::<0>(); grow(&mut v, &mut m); }
    }
    done();
}

fn ops(steps: usize) {
    init();
    let (mut v, mut m) = inline::<2>();
    for _ in 0..steps {
        grow(&mut v, &mut m);
        if m.n > 4 { v.truncate(4); m.truncate(4); }
    }
    drop(v);
    done();
}
#[no_mangle] pub fn sl_ops() { ops(2) }
#[no_mangle] pub fn sl_ops_t() { ops(3) }

/// reservations of any amount
#[no_mangle]
pub fn sl_reserve() {
    init();
    let (mut v, m) = inline::<3>();
    let k = sx::usize();
    let r = match sx::choose(4) {
        0 => v.try_reserve(k).is_ok(),
        1 => v.try_reserve_exact(k).is_ok(),
        2 => sx::catch(|| v.reserve(k)).is_some(),
        _ => sx::catch(|| v.reserve_exact(k)).is_some(),
    };
    if k <= 3 - m.n {
        check!(r);
        check!(v.is_stack() && traffic() == 0 && v.capacity() == 3);
        sx::cover(1);
    } else if r {
        check!(v.is_heap() && v.capacity() - m.n >= k);
        check!(nalloc() == 1 && nfree() == 0 && nrealloc() == 0);
        sx::cover(2);
    } else {
        // refused: still inline
        check!(v.is_stack() && v.capacity() == 3);
        check!(sx::live() == 0);
        sx::cover(3);
    }
    m.same(&v);
    drop(v);
    done();
}

/// construction with any capacity
#[no_mangle]
pub fn sl_with() {
    init();
    let c = sx::usize();
    let r = if sx::bool() { SmallVec::<Tok, 3>::try_with_capacity(c).ok() } else { sx::catch(|| SmallVec::<Tok, 3>::with_capacity(c)) };
    match r {
        Some(v) => {
            check!(v.capacity() >= c && v.capacity() >= v.len() && v.is_empty());
            check!(v.is_stack() == (c <= 3));
            check!(nalloc() == (c > 3) as usize);
            if c <= 3 { check!(v.capacity() == 3); }
        }
        None => check!(c > 3),
    }
    done();
}

/// every other way to make one
#[no_mangle]
pub fn sl_make() {
    init();
    let n = sx::choose(4);
    let (mut src, m) = sv_of::<3>(n, false);
    match sx::choose(6) {
        0 => { let v = SmallVec::<Tok, 2>::from(src.as_slice()); m.same(&v); check!(v.is_stack() == (n <= 2) && nalloc() == (n > 2) as usize && traffic() == nalloc()); }
        1 => { let v = src.clone(); m.same(&v); check!(v.is_stack() && traffic() == 0); }
        2 => { let v: SmallVec<Tok, 2> = src.iter().cloned().collect(); m.same(&v); check!(v.is_stack() == (n <= 2) && nalloc() == (n > 2) as usize && traffic() == nalloc()); }
        3 => { let v = SmallVec::<Tok, 2>::from([Tok::new(1), Tok::new(2)]); check!(v.is_stack() && traffic() == 0 && v.len() == 2); }
        4 => { let v = SmallVec::<Tok, 1>::from([Tok::new(1), Tok::new(2)]); check!(v.is_heap() && v.len() == 2 && nalloc() == 1); }
        _ => {
            let k = sx::choose(n + 1);
            let w = src.split_off(k);
            check!(w.is_stack() && src.is_stack() && traffic() == 0);
            check!(w.len() == n - k);
        }
    }
    drop(src);
    done();
}

/// once on the heap it stays there until moved back
#[no_mangle]
pub fn sl_stay() {
    init();
    let n = sx::choose(4);
    let (mut v, mut m) = sv_of::<2>(n, true);
    for _ in 0..2 {
        match sx::choose(8) {
            0 => { v.pop(); if m.n > 0 { m.n -= 1; } }
            1 => { v.clear(); m.n = 0; }
            2 => { v.truncate(1); m.truncate(1); }
            3 => v.shrink_to_fit(),
            4 => v.shrink_to(sx::choose(3)),
            5 => { if m.n > 0 { v.remove(0); m.remove(0); } }
            6 => { v.resize(1, Tok::new(7)); if m.n == 0 { m.push(7); } m.truncate(1); }
            _ => { drop(v.drain(..)); m.n = 0; }
        }
        check!(v.is_heap());
        check!(v.capacity() >= v.len());
        m.same(&v);
    }
    let f0 = nfree();
    let r = v.try_move_to_stack();
    check!(r.is_ok() == (m.n <= 2));
    check!(v.is_stack() == (m.n <= 2));
    if r.is_ok() {
        check!(v.capacity() == 2);
        check!(sx::live() == 0);
        let t = traffic();
        while m.n < 2 { v.push(Tok::new(3)); m.push(3); }
        check!(traffic() == t && v.is_stack());
        v.push(Tok::new(4));
        m.push(4);
        check!(v.is_heap() && nalloc() + nfree() == t - nrealloc() + 1);
        sx::cover(4);
    }
    let _ = f0;
    m.same(&v);
    drop(v);
    done();
}
