//! Vec: editing operations on longer vectors
use crate::big::*;
use crate::env::*;
use crate::{check, sx};
use lokky::vec::Vec;

const FILE: u32 = 36;

harnesses! { lv_at lv_end lv_many lv_conv }

fn fin(v: Vec<Tok>, m: &Seq) {
    check!(v.capacity() >= v.len());
    m.same(v.as_slice());
    check!(toks_live() == m.n);
    drop(v);
    done();
}

/// operations at a position
#[no_mangle]
pub fn lv_at() {
    init();
    let (mut v, mut m) = any_vec();
    let n = m.n;
    let i = pos(n);
    match sx::choose(6) {
        0 => { let x = sx::u32(); v.insert(i, Tok::new(x)); m.insert(i, x); }
        1 => { let t = v.remove(i); t.ok(); check!(t.val == m.remove(i)); }
        2 => { let t = v.swap_remove(i); t.ok(); check!(t.val == m.v[i]); m.v[i] = m.v[n - 1]; m.n -= 1; }
        3 => { v.truncate(i); m.n = i; }
        4 => {
            let w = v.split_off(i);
            m.same_part(i, n, w.as_slice());
            m.n = i;
            m.same(v.as_slice());
        }
        _ => { v.resize(i, Tok::new(3)); m.n = i; }
    }
    fin(v, &m);
}

/// operations at the end
#[no_mangle]
pub fn lv_end() {
    init();
    let (mut v, mut m) = any_vec();
    let c = v.capacity();
    match sx::choose(5) {
        0 => { for _ in 0..5 { let x = sx::u32(); v.push(Tok::new(x)); m.push(x); } }
        1 => { for _ in 0..5 { let t = v.pop().unwrap(); t.ok(); m.n -= 1; check!(t.val == m.v[m.n]); } }
        2 => { v.clear(); m.n = 0; check!(v.capacity() == c); }
        3 => { v.shrink_to_fit(); }
        _ => { let n = m.n; let x = sx::u32(); v.insert(n, Tok::new(x)); m.push(x); }
    }
    fin(v, &m);
}

/// operations that add many elements
#[no_mangle]
pub fn lv_many() {
    init();
    let (mut v, mut m) = any_vec();
    let k = [1, 9, 70][sx::choose(3)];
    match sx::choose(6) {
        0 => { let (mut w, o) = vec(k, 1); v.append(&mut w); check!(w.is_empty()); m.extend(&o); }
        1 => { let (w, o) = vec(k, 0); v.extend_from_slice(w.as_slice()); m.extend(&o); o.same(w.as_slice()); }
        2 => { let x = sx::u32(); v.resize(m.n + k, Tok::new(x)); for _ in 0..k { m.push(x); } }
        3 => { let mut x = sx::u32(); let mut y = x; v.resize_with(m.n + k, || { x ^= x << 3; Tok::new(x) }); for _ in 0..k { y ^= y << 3; m.push(y); } }
        4 => { let x = sx::u32(); v.extend_from_iter((0..k).map(|i| Tok::new(x ^ i as u32))); for i in 0..k { m.push(x ^ i as u32); } }
        _ => {
            // grows as often as it takes
            v.shrink_to_fit();
            for i in 0..k { v.push(Tok::new(i as u32)); m.push(i as u32); check!(v.capacity() >= v.len()); }
        }
    }
    fin(v, &m);
}

/// whole-vector operations
#[no_mangle]
pub fn lv_conv() {
    init();
    let (v, m) = any_vec();
    let v = match sx::choose(4) {
        0 => { let w = v.clone(); m.same(v.as_slice()); drop(v); w }
        1 => { let w = Vec::from(v.as_slice()); drop(v); w }
        2 => { let b = v.into_boxed_slice(); m.same(&b); Vec::from(b) }
        _ => v.into_iter().collect(),
    };
    fin(v, &m);
}
