//! Vec: element-editing operations against the reference sequence, from an arbitrary state.
use crate::env::*;
use crate::vecs::any_vec;
use crate::{check, sx};
use lokky::vec::Vec;

const FILE: u32 = 10;

harnesses! {
    ve_push ve_pop ve_insert ve_remove ve_swap_remove ve_truncate ve_clear ve_append ve_split_off
    ve_resize ve_resize_with ve_extend_slice ve_extend_iter ve_clone ve_from_slice ve_from_array ve_from_iter
    ve_boxed ve_shrink ve_two_ops ve_clone_from
}

fn fin(v: Vec<Tok>, m: &Arr) {
    check!(v.len() == m.n);
    check!(v.capacity() >= v.len());
    m.same(v.as_slice());
    check!(toks_live() == m.n);
    drop(v);
    done();
}

#[no_mangle]
pub fn ve_push() {
    init();
    let (mut v, mut m) = any_vec(4, 2);
    let x = sx::u32();
    v.push(Tok::new(x));
    m.push(x);
    sx::cover(1);
    fin(v, &m);
}

#[no_mangle]
pub fn ve_pop() {
    init();
    let (mut v, mut m) = any_vec(4, 1);
    match v.pop() {
        None => check!(m.n == 0),
        Some(t) => {
            t.ok();
            check!(m.n > 0);
            check!(t.val == m.v[m.n - 1]);
            m.n -= 1;
            sx::cover(2);
        }
    }
    fin(v, &m);
}

#[no_mangle]
pub fn ve_insert() {
    init();
    let (mut v, mut m) = any_vec(4, 2);
    let i = sx::usize();
    let x = sx::u32();
    let n = m.n;
    let r = sx::catch(|| v.insert(i, Tok::new(x)));
    if i <= n {
        check!(r.is_some());
        m.insert(sx::conc(i), x);
        sx::cover(3);
    } else {
        // out of range: refused, nothing changes
        check!(r.is_none());
        sx::cover(4);
    }
    fin(v, &m);
}

#[no_mangle]
pub fn ve_remove() {
    init();
    let (mut v, mut m) = any_vec(4, 1);
    let i = sx::usize();
    let n = m.n;
    let r = sx::catch(|| v.remove(i));
    if i < n {
        check!(r.is_some());
        let t = r.unwrap();
        t.ok();
        check!(t.val == m.remove(sx::conc(i)));
        sx::cover(5);
    } else {
        check!(r.is_none());
        sx::cover(6);
    }
    fin(v, &m);
}

#[no_mangle]
pub fn ve_swap_remove() {
    init();
    let (mut v, mut m) = any_vec(4, 1);
    let i = sx::usize();
    let n = m.n;
    let r = sx::catch(|| v.swap_remove(i));
    if i < n {
        check!(r.is_some());
        let t = r.unwrap();
        t.ok();
        let i = sx::conc(i);
        check!(t.val == m.v[i]);
        m.v[i] = m.v[n - 1];
        m.n -= 1;
        sx::cover(7);
    } else {
        check!(r.is_none());
        sx::cover(8);
    }
    fin(v, &m);
}

#[no_mangle]
pub fn ve_truncate() {
    init();
    let (mut v, mut m) = any_vec(4, 1);
    let k = sx::usize();
    v.truncate(k);
    if k < m.n {
        m.n = sx::conc(k);
        sx::cover(9);
    }
    fin(v, &m);
}

#[no_mangle]
pub fn ve_clear() {
    init();
    let (mut v, mut m) = any_vec(4, 1);
    let c = v.capacity();
    v.clear();
    check!(v.is_empty());
    check!(v.capacity() == c);
    m.n = 0;
    fin(v, &m);
}

#[no_mangle]
pub fn ve_append() {
    init();
    let (mut v, mut m) = any_vec(3, 2);
    let (mut w, k) = any_vec(3, 1);
    v.append(&mut w);
    check!(w.is_empty());
    m.extend(&k);
    drop(w);
    fin(v, &m);
}

#[no_mangle]
pub fn ve_split_off() {
    init();
    let (mut v, mut m) = any_vec(4, 1);
    let at = sx::usize();
    sx::assume(at <= m.n);
    let w = v.split_off(at);
    let at = sx::conc(at);
    let tail = m.slice(at, m.n);
    m.n = at;
    tail.same(w.as_slice());
    m.same(v.as_slice());
    drop(w);
    fin(v, &m);
}

#[no_mangle]
pub fn ve_resize() {
    init();
    let (mut v, mut m) = any_vec(3, 1);
    let k = sx::choose(6);
    let x = sx::u32();
    v.resize(k, Tok::new(x));
    if k <= m.n {
        m.n = k;
    } else {
        while m.n < k { m.push(x); }
        sx::cover(10);
    }
    fin(v, &m);
}

#[no_mangle]
pub fn ve_resize_with() {
    init();
    let (mut v, mut m) = any_vec(3, 1);
    let k = sx::choose(6);
    let x = sx::u32();
    let mut c = 0u32;
    v.resize_with(k, || { c += 1; Tok::new(x ^ c) });
    if k <= m.n {
        m.n = k;
        check!(c == 0);
    } else {
        let mut c = 0;
        while m.n < k { c += 1; m.push(x ^ c); }
    }
    fin(v, &m);
}

#[no_mangle]
pub fn ve_extend_slice() {
    init();
    let (mut v, mut m) = any_vec(3, 2);
    let (w, k) = any_vec(3, 0);
    v.extend_from_slice(w.as_slice());
    m.extend(&k);
    k.same(w.as_slice());
    drop(w);
    fin(v, &m);
}

/// iterator whose size hint is only a lower bound
struct Gen { left: usize, hint: usize, x: u32 }
impl Iterator for Gen {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        if self.left == 0 { return None; }
        self.left -= 1;
        self.x = self.x.wrapping_add(1);
        Some(Tok::new(self.x))
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.hint, None) }
}

#[no_mangle]
pub fn ve_extend_iter() {
    init();
    let (mut v, mut m) = any_vec(2, 2);
    let left = sx::choose(4);
    let hint = sx::choose(left + 1);
    let x = sx::u32();
    v.extend_from_iter(Gen { left, hint, x });
    for i in 0..left { m.push(x.wrapping_add(1 + i as u32)); }
    fin(v, &m);
}

#[no_mangle]
pub fn ve_clone() {
    init();
    let (v, m) = any_vec(4, 1);
    let w = v.clone();
    m.same(w.as_slice());
    m.same(v.as_slice());
    check!(toks_live() == 2 * m.n);
    drop(v);
    fin(w, &m);
}

#[no_mangle]
pub fn ve_from_slice() {
    init();
    let (v, m) = any_vec(3, 0);
    let w = Vec::from(v.as_slice());
    m.same(w.as_slice());
    drop(v);
    fin(w, &m);
}

#[no_mangle]
pub fn ve_from_array() {
    init();
    let (a, b, c) = (sx::u32(), sx::u32(), sx::u32());
    let mut m = Arr::new();
    m.push(a);
    m.push(b);
    m.push(c);
    let v = Vec::from([Tok::new(a), Tok::new(b), Tok::new(c)]);
    fin(v, &m);
    let v = Vec::<Tok>::from([]);
    fin(v, &Arr::new());
}

#[no_mangle]
pub fn ve_from_iter() {
    init();
    let left = sx::choose(4);
    let hint = sx::choose(left + 1);
    let x = sx::u32();
    let v: Vec<Tok> = Gen { left, hint, x }.collect();
    let mut m = Arr::new();
    for i in 0..left { m.push(x.wrapping_add(1 + i as u32)); }
    fin(v, &m);
}

#[no_mangle]
pub fn ve_boxed() {
    init();
    let (v, m) = any_vec(3, 2);
    let b = v.into_boxed_slice();
    m.same(&b);
    if sx::bool() {
        drop(b);
        done();
        return;
    }
    let v = Vec::from(b);
    fin(v, &m);
}

#[no_mangle]
pub fn ve_shrink() {
    init();
    let (mut v, m) = any_vec(3, 2);
    if sx::bool() {
        v.shrink_to_fit();
    } else {
        v.shrink_to(sx::usize());
    }
    check!(v.capacity() >= m.n);
    fin(v, &m);
}

/// two arbitrary operations in sequence
#[no_mangle]
pub fn ve_two_ops() {
    init();
    let (mut v, mut m) = any_vec(2, 1);
    for _ in 0..2 {
        let x = sx::u32();
        match sx::choose(6) {
            0 => { v.push(Tok::new(x)); m.push(x); }
            1 => { let a = v.pop().map(|t| t.val); if m.n > 0 { check!(a == Some(m.v[m.n - 1])); m.n -= 1; } else { check!(a.is_none()); } }
            2 => { let i = sx::choose(m.n + 1); v.insert(i, Tok::new(x)); m.insert(i, x); }
            3 => { if m.n > 0 { let i = sx::choose(m.n); let t = v.remove(i); check!(t.val == m.remove(i)); } }
            4 => { if m.n > 0 { let i = sx::choose(m.n); let t = v.swap_remove(i); check!(t.val == m.v[i]); m.v[i] = m.v[m.n - 1]; m.n -= 1; } }
            _ => { v.shrink_to_fit(); }
        }
    }
    fin(v, &m);
}

/// assignment of a copy, whatever was there before
#[no_mangle]
pub fn ve_clone_from() {
    init();
    let (mut v, m) = any_vec(3, 2);
    let (w, k) = any_vec(3, 1);
    v.clone_from(&w);
    k.same(v.as_slice());
    k.same(w.as_slice());
    check!(toks_live() == 2 * k.n && v.capacity() >= v.len());
    if k.n < m.n { sx::cover(40); }
    if k.n > m.n { sx::cover(41); }
    v.push(Tok::new(5));
    check!(v.len() == k.n + 1 && v[k.n].val == 5);
    k.same(w.as_slice());
    drop(v);
    fin(w, &k);
}
