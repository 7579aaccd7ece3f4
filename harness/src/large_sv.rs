//! SmallVec: editing operations on longer ones, on both sides of the inline capacity
use crate::big::*;
use crate::env::*;
use crate::{check, sx};
use lokky::small_vec::SmallVec;
use lokky::vec::Vec;

const FILE: u32 = 37;

harnesses! { lw_at lw_end lw_many lw_conv }

fn fin(v: Sv, m: &Seq) {
    check!(v.capacity() >= v.len());
    check!(v.is_heap() || v.capacity() == 33);
    m.same(v.as_slice());
    check!(toks_live() == m.n);
    drop(v);
    done();
}

/// operations at a position
#[no_mangle]
pub fn lw_at() {
    init();
    let (mut v, mut m) = any_sv();
    let n = m.n;
    let h = v.is_heap();
    let i = pos(n);
    match sx::choose(6) {
        0 => { let x = sx::u32(); v.insert(i, Tok::new(x)); m.insert(i, x); check!(v.is_heap() == (h || n == 33)); }
        1 => { let t = v.remove(i); t.ok(); check!(t.val == m.remove(i)); }
        2 => { let t = v.swap_remove(i); t.ok(); check!(t.val == m.v[i]); m.v[i] = m.v[n - 1]; m.n -= 1; }
        3 => { v.truncate(i); m.n = i; }
        4 => {
            let w = v.split_off(i);
            m.same_part(i, n, w.as_slice());
            m.n = i;
            m.same(v.as_slice());
        }
        _ => { v.resize(i, Tok::new(3)); m.n = i; }
    }
    fin(v, &m);
}

/// operations at the end, moves between stack and heap
#[no_mangle]
pub fn lw_end() {
    init();
    let (mut v, mut m) = any_sv();
    match sx::choose(6) {
        0 => { for _ in 0..5 { let x = sx::u32(); v.push(Tok::new(x)); m.push(x); } }
        1 => { for _ in 0..5 { let t = v.pop().unwrap(); t.ok(); m.n -= 1; check!(t.val == m.v[m.n]); } }
        2 => { v.clear(); m.n = 0; }
        3 => { v.shrink_to_fit(); }
        4 => { v.move_to_heap(); check!(v.is_heap()); }
        _ => { let r = v.try_move_to_stack(); check!(r.is_ok() == (m.n <= 33)); check!(v.is_stack() == (m.n <= 33)); }
    }
    fin(v, &m);
}

/// operations that add many elements
#[no_mangle]
pub fn lw_many() {
    init();
    let (mut v, mut m) = any_sv();
    let k = [1, 16, 70][sx::choose(3)];
    match sx::choose(5) {
        0 => { let (mut w, o) = sv(k, k > 33 || sx::bool()); v.append(&mut w); check!(w.is_empty()); m.extend(&o); }
        1 => { let (w, o) = vec(k, 0); v.extend_from_slice(w.as_slice()); m.extend(&o); o.same(w.as_slice()); }
        2 => { let x = sx::u32(); v.resize(m.n + k, Tok::new(x)); for _ in 0..k { m.push(x); } }
        3 => { let mut x = sx::u32(); let mut y = x; v.resize_with(m.n + k, || { x ^= x << 3; Tok::new(x) }); for _ in 0..k { y ^= y << 3; m.push(y); } }
        _ => { let x = sx::u32(); v.extend((0..k).map(|i| Tok::new(x ^ i as u32))); for i in 0..k { m.push(x ^ i as u32); } }
    }
    fin(v, &m);
}

/// whole-vector operations
#[no_mangle]
pub fn lw_conv() {
    init();
    let (v, m) = any_sv();
    let v: Sv = match sx::choose(5) {
        0 => { let w = v.clone(); m.same(v.as_slice()); drop(v); w }
        1 => { let w = SmallVec::from(v.as_slice()); drop(v); w }
        2 => { let b = v.into_boxed_slice(); m.same(&b); SmallVec::from(b) }
        3 => { let b: Vec<Tok> = v.into_vec(); m.same(&b); SmallVec::from(b) }
        _ => v.into_vec().into_iter().collect(),
    };
    fin(v, &m);
}
