//! containers of elements without size, of any length up to the largest integer
use crate::env::*;
use crate::{check, sx};
use lokky::small_vec::SmallVec;
use lokky::vec::Vec;

const FILE: u32 = 57;

harnesses! { hu_vec hu_sv hu_into hu_zip }

type V = Vec<()>;
type S = SmallVec<(), 2>;

macro_rules! ops {
    ($f:ident, $T:ty, $mk:expr) => {
        #[no_mangle]
        pub fn $f() {
            init();
            let (n, k) = (sx::usize(), sx::usize());
            let mk: fn(usize) -> $T = $mk;
            let mut v = mk(n);
            check!(v.len() == n && v.as_slice().len() == n && v.is_empty() == (n == 0));
            check!(v.capacity() >= n);
            // the length afterwards
            let mut m = n;
            match sx::choose(17) {
                0 => match sx::catch(|| v.push(())) { Some(()) => m = n.wrapping_add(1), None => check!(n == usize::MAX) },
                1 => match sx::catch(|| v.insert(k, ())) { Some(()) => { check!(k <= n && n < usize::MAX); m = n + 1; } None => check!(k > n || n == usize::MAX) },
                2 => match sx::catch(|| v.remove(k)) { Some(()) => { check!(k < n); m = n - 1; } None => check!(k >= n) },
                3 => match sx::catch(|| v.swap_remove(k)) { Some(()) => { check!(k < n); m = n - 1; } None => check!(k >= n) },
                4 => match v.pop() { Some(()) => { check!(n > 0); m = n - 1; } None => check!(n == 0) },
                5 => { v.truncate(k); if k < n { m = k } }
                6 => match sx::catch(|| v.split_off(k)) {
                    Some(w) => { if k < n { m = k; } check!(w.len() == n - m); w.gone(); }
                    // beyond the end: refused or nothing to split off
                    None => check!(k > n),
                },
                7 => {
                    let mut w = mk(k);
                    match sx::catch(|| v.append(&mut w)) {
                        Some(()) => { check!(n.checked_add(k).is_some() && w.len() == 0); m = n + k; }
                        None => { check!(n.checked_add(k).is_none() && w.len() == k); sx::cover(1); }
                    }
                    w.gone();
                }
                8 => { let r = v.try_reserve(k); check!(r.is_ok() == n.checked_add(k).is_some()); check!(!r.is_ok() || v.capacity() - n >= k); }
                9 => { let r = v.try_reserve_exact(k); check!(r.is_ok() == n.checked_add(k).is_some()); check!(!r.is_ok() || v.capacity() - n >= k); }
                10 => match sx::catch(|| v.reserve(k)) { Some(()) => check!(n.checked_add(k).is_some() && v.capacity() - n >= k), None => check!(n.checked_add(k).is_none()) },
                11 => match sx::catch(|| v.extend_from_slice(&[(); 3])) { Some(()) => { check!(n <= usize::MAX - 3); m = n + 3; } None => { check!(n > usize::MAX - 3); m = v.len(); check!(m >= n); } },
                12 => { v.shrink_to_fit(); v.shrink_to(k); }
                13 => {
                    let w = sx::choose(3);
                    sx::assume(k <= usize::MAX - w);
                    match sx::catch(|| { let mut d = v.drain(k..k + w); check!(d.len() == w && d.as_slice().len() == w); if sx::bool() { let _ = d.next(); } else { let _ = d.next_back(); } }) {
                        Some(()) => { check!(k + w <= n); m = n - w; }
                        None => check!(k + w > n),
                    }
                }
                14 => match sx::catch(|| v[k]) { Some(()) => check!(k < n), None => check!(k >= n) },
                15 => { sx::assume(k <= n || k - n <= 2); if sx::bool() { v.resize(k, ()) } else { v.resize_with(k, || ()) } m = k; }
                _ => { check!(v.get(k).is_some() == (k < n)); check!(v.first().is_some() == (n > 0) && v.last().is_some() == (n > 0)); v.clear(); m = 0; }
            }
            check!(v.len() == m && v.as_slice().len() == m);
            check!(v.capacity() >= m);
            sx::log(1, m as u64);
            v.gone();
            done();
        }
    };
}
fn vec(n: usize) -> V { let mut v = V::new(); unsafe { v.set_len(n) }; v }
/// gets rid of one without going through its elements
trait Gone { fn gone(self); }
impl Gone for V { fn gone(mut self) { unsafe { self.set_len(0) } } }
impl Gone for S { fn gone(self) { self.into_vec().gone() } }
ops!(hu_vec, V, vec);
ops!(hu_sv, S, |n| S::from(vec(n)));

/// consuming one, and turning it into a box and back
#[no_mangle]
pub fn hu_into() {
    init();
    let n = sx::usize();
    let v = vec(n);
    match sx::choose(3) {
        0 => {
            let mut it = v.into_iter();
            check!(it.len() == n && it.as_slice().len() == n);
            let mut left = n;
            for _ in 0..3 {
                let r = if sx::bool() { it.next() } else { it.next_back() };
                check!(r.is_some() == (left > 0));
                if r.is_some() { left -= 1; }
                check!(it.len() == left && it.size_hint() == (left, Some(left)) && it.as_slice().len() == left);
            }
            std::mem::forget(it);
        }
        1 => {
            let b = v.into_boxed_slice();
            check!(b.len() == n);
            let v = V::from(b);
            check!(v.len() == n && v.capacity() >= n);
            v.gone();
        }
        _ => {
            let s = S::from(v);
            check!(s.len() == n);
            let v = s.into_vec();
            check!(v.len() == n);
            v.gone();
        }
    }
    done();
}

/// moving between the forms of a small vector
#[no_mangle]
pub fn hu_zip() {
    init();
    let n = sx::usize();
    let mut s = S::from(vec(n));
    if sx::bool() { s.move_to_heap(); check!(s.is_heap() && s.len() == n); }
    let r = s.try_move_to_stack();
    check!(r.is_ok() == (n <= 2));
    check!(s.len() == n && s.is_heap() == (n > 2));
    if sx::bool() { s.move_to_heap(); check!(s.is_heap() && s.len() == n); }
    s.gone();
    done();
}
