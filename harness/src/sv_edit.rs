//! SmallVec: element-editing operations against the reference sequence, in both storage modes and
//! across the move between them
use crate::env::*;
use crate::vecs::*;
use crate::{check, sx};
use lokky::boxed::Box;
use lokky::small_vec::SmallVec;
use lokky::vec::Vec;

const FILE: u32 = 19;

harnesses! {
    sv_push sv_pop sv_insert sv_remove sv_swap_remove sv_truncate sv_clear sv_append sv_split_off sv_split_into
    sv_resize sv_resize_with sv_extend_slice sv_extend_iter sv_clone sv_from_slice sv_from_array sv_from_iter
    sv_to_vec sv_boxed sv_shrink sv_moves sv_spare sv_slices sv_two_ops sv_n0 sv_n1 sv_clone_from sv_three_ops_t
}

type S = SmallVec<Tok, 2>;

fn any() -> (S, Arr) { any_sv::<2>(4) }

fn fin<const N: usize>(v: SmallVec<Tok, N>, m: &Arr) {
    check!(v.len() == m.n);
    check!(v.is_empty() == (m.n == 0));
    check!(v.capacity() >= v.len());
    check!(v.is_full() == (v.capacity() == v.len()));
    check!(v.spare_len() == v.capacity() - v.len());
    check!(v.is_heap() != v.is_stack());
    if v.is_stack() { check!(v.capacity() == N); }
    m.same(v.as_slice());
    check!(toks_live() == m.n);
    drop(v);
    done();
}

#[no_mangle]
pub fn sv_push() {
    init();
    let (mut v, mut m) = any();
    for _ in 0..2 {
        let x = sx::u32();
        v.push(Tok::new(x));
        m.push(x);
        m.same(&v);
    }
    fin(v, &m);
}

#[no_mangle]
pub fn sv_pop() {
    init();
    let (mut v, mut m) = any();
    match v.pop() {
        None => check!(m.n == 0),
        Some(t) => {
            t.ok();
            check!(m.n > 0);
            check!(t.val == m.v[m.n - 1]);
            m.n -= 1;
            sx::cover(1);
        }
    }
    fin(v, &m);
}

#[no_mangle]
pub fn sv_insert() {
    init();
    let (mut v, mut m) = any();
    let i = sx::usize();
    let x = sx::u32();
    let n = m.n;
    let stack = v.is_stack();
    let r = sx::catch(|| v.insert(i, Tok::new(x)));
    if i <= n {
        check!(r.is_some());
        m.insert(sx::conc(i), x);
        if stack && v.is_heap() { sx::cover(2); }
    } else {
        check!(r.is_none());
        sx::cover(3);
    }
    fin(v, &m);
}

#[no_mangle]
pub fn sv_remove() {
    init();
    let (mut v, mut m) = any();
    let i = sx::usize();
    let n = m.n;
    let r = sx::catch(|| v.remove(i));
    if i < n {
        check!(r.is_some());
        let t = r.unwrap();
        t.ok();
        check!(t.val == m.remove(sx::conc(i)));
        sx::cover(4);
    } else {
        check!(r.is_none());
        sx::cover(5);
    }
    fin(v, &m);
}

#[no_mangle]
pub fn sv_swap_remove() {
    init();
    let (mut v, mut m) = any();
    let i = sx::usize();
    let n = m.n;
    let r = sx::catch(|| v.swap_remove(i));
    if i < n {
        check!(r.is_some());
        let t = r.unwrap();
        t.ok();
        let i = sx::conc(i);
        check!(t.val == m.v[i]);
        m.v[i] = m.v[n - 1];
        m.n -= 1;
        sx::cover(6);
    } else {
        check!(r.is_none());
        sx::cover(7);
    }
    fin(v, &m);
}

#[no_mangle]
pub fn sv_truncate() {
    init();
    let (mut v, mut m) = any();
    let k = sx::usize();
    v.truncate(k);
    if k < m.n {
        m.n = sx::conc(k);
        sx::cover(8);
    }
    fin(v, &m);
}

#[no_mangle]
pub fn sv_clear() {
    init();
    let (mut v, mut m) = any();
    let heap = v.is_heap();
    v.clear();
    check!(v.is_empty());
    check!(v.is_heap() == heap);
    m.n = 0;
    check!(toks_live() == 0);
    let x = sx::u32();
    v.push(Tok::new(x));
    m.push(x);
    fin(v, &m);
}

#[no_mangle]
pub fn sv_append() {
    init();
    let (mut v, mut m) = any_sv::<2>(3);
    let (mut w, k) = any_sv::<2>(3);
    v.append(&mut w);
    check!(w.is_empty());
    m.extend(&k);
    m.same(&v);
    let x = sx::u32();
    w.push(Tok::new(x));
    check!(w.len() == 1 && w[0].val == x);
    drop(w);
    fin(v, &m);
}

#[no_mangle]
pub fn sv_split_off() {
    init();
    let (mut v, mut m) = any();
    let at = sx::usize();
    let n = m.n;
    let r = sx::catch(|| v.split_off(at));
    if at <= n {
        let w = r.unwrap();
        let at = sx::conc(at);
        let tail = m.slice(at, m.n);
        m.n = at;
        tail.same(w.as_slice());
        m.same(v.as_slice());
        drop(w);
        sx::cover(9);
    } else {
        check!(r.is_none());
        sx::cover(10);
    }
    fin(v, &m);
}

#[no_mangle]
pub fn sv_split_into() {
    init();
    let (mut v, mut m) = any();
    let at = sx::choose(m.n + 1);
    let tail = m.slice(at, m.n);
    match sx::choose(3) {
        0 => { let w: SmallVec<Tok, 1> = v.split_off_into(at); tail.same(&w); check!(w.is_heap() == (tail.n > 1)); }
        1 => { let w: SmallVec<Tok, 5> = v.split_off_into(at); tail.same(&w); check!(w.is_stack()); }
        _ => { let w: SmallVec<Tok, 0> = v.split_off_into(at); tail.same(&w); }
    }
    m.n = at;
    fin(v, &m);
}

#[no_mangle]
pub fn sv_resize() {
    init();
    let (mut v, mut m) = any_sv::<2>(3);
    let k = sx::choose(6);
    let x = sx::u32();
    v.resize(k, Tok::new(x));
    if k <= m.n { m.n = k; } else { while m.n < k { m.push(x); } }
    fin(v, &m);
}

#[no_mangle]
pub fn sv_resize_with() {
    init();
    let (mut v, mut m) = any_sv::<2>(3);
    let k = sx::choose(6);
    let x = sx::u32();
    let mut c = 0u32;
    v.resize_with(k, || { c += 1; Tok::new(x ^ c) });
    if k <= m.n {
        m.n = k;
        check!(c == 0);
    } else {
        let mut c = 0;
        while m.n < k { c += 1; m.push(x ^ c); }
    }
    fin(v, &m);
}

#[no_mangle]
pub fn sv_extend_slice() {
    init();
    let (mut v, mut m) = any_sv::<2>(3);
    let (w, k) = any_vec(3, 0);
    v.extend_from_slice(w.as_slice());
    m.extend(&k);
    k.same(w.as_slice());
    drop(w);
    fin(v, &m);
}

struct Gen { left: usize, hint: usize, x: u32 }
impl Iterator for Gen {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        if self.left == 0 { return None; }
        self.left -= 1;
        self.x = self.x.wrapping_add(1);
        Some(Tok::new(self.x))
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.hint, None) }
}

#[no_mangle]
pub fn sv_extend_iter() {
    init();
    let (mut v, mut m) = any_sv::<2>(2);
    let left = sx::choose(4);
    let hint = sx::choose(left + 1);
    let x = sx::u32();
    v.extend(Gen { left, hint, x });
    for i in 0..left { m.push(x.wrapping_add(1 + i as u32)); }
    fin(v, &m);
}

#[no_mangle]
pub fn sv_clone() {
    init();
    let (v, m) = any();
    let mut w = v.clone();
    m.same(w.as_slice());
    m.same(v.as_slice());
    check!(toks_live() == 2 * m.n);
    if m.n > 0 { w[0].val ^= 1; }
    m.same(v.as_slice());
    if m.n > 0 { w[0].val ^= 1; }
    drop(v);
    fin(w, &m);
}

#[no_mangle]
pub fn sv_from_slice() {
    init();
    let (mut v, m) = any_vec(4, 0);
    let w = if sx::bool() { S::from(v.as_slice()) } else { S::from(v.as_mut_slice()) };
    m.same(w.as_slice());
    m.same(v.as_slice());
    drop(v);
    fin(w, &m);
}

#[no_mangle]
pub fn sv_from_array() {
    init();
    let (a, b, c) = (sx::u32(), sx::u32(), sx::u32());
    let mut m = Arr::new();
    fin(S::from([]), &m);
    m.push(a);
    fin(S::from([Tok::new(a)]), &m);
    m.push(b);
    fin(S::from([Tok::new(a), Tok::new(b)]), &m);
    m.push(c);
    fin(S::from([Tok::new(a), Tok::new(b), Tok::new(c)]), &m);
}

#[no_mangle]
pub fn sv_from_iter() {
    init();
    let left = sx::choose(5);
    let hint = sx::choose(left + 1);
    let x = sx::u32();
    let v: S = Gen { left, hint, x }.collect();
    let mut m = Arr::new();
    for i in 0..left { m.push(x.wrapping_add(1 + i as u32)); }
    fin(v, &m);
}

#[no_mangle]
pub fn sv_to_vec() {
    init();
    let (v, m) = any();
    let v = v.into_vec();
    m.same(v.as_slice());
    check!(v.capacity() >= m.n);
    let w = S::from(v);
    m.same(&w);
    fin(w, &m);
}

#[no_mangle]
pub fn sv_boxed() {
    init();
    let (v, m) = any();
    let b: Box<[Tok]> = v.into_boxed_slice();
    m.same(&b);
    if sx::bool() {
        drop(b);
        done();
        return;
    }
    let v = S::from(b);
    fin(v, &m);
}

#[no_mangle]
pub fn sv_shrink() {
    init();
    let (mut v, m) = any();
    if sx::bool() { v.reserve(sx::choose(4)); }
    if sx::bool() {
        v.shrink_to_fit();
        if v.is_heap() { check!(v.capacity() == m.n); }
    } else {
        v.shrink_to(sx::usize());
    }
    fin(v, &m);
}

/// explicit moves
#[no_mangle]
pub fn sv_moves() {
    init();
    let (mut v, m) = any();
    for _ in 0..3 {
        match sx::choose(3) {
            0 => { v.move_to_heap(); check!(v.is_heap()); }
            1 => {
                let heap = v.is_heap();
                let r = v.try_move_to_stack();
                check!(r.is_ok() == (m.n <= 2));
                check!(v.is_stack() == (m.n <= 2) || !heap);
                if m.n <= 2 { check!(v.is_stack()); } else { check!(v.is_heap() == heap); }
            }
            _ => {
                let k = sx::choose(3);
                check!(v.try_move_to_heap_and_reserve_exact(k).is_ok());
                check!(v.is_heap());
                check!(v.capacity() >= m.n + k);
            }
        }
        m.same(&v);
    }
    fin(v, &m);
}

/// spare capacity is exactly what follows the elements
#[no_mangle]
pub fn sv_spare() {
    init();
    let (mut v, mut m) = any();
    let k = v.spare_len();
    check!(v.spare_capacity().len() == k);
    check!(k == v.capacity() - m.n);
    let p = v.as_ptr() as usize + m.n * std::mem::size_of::<Tok>();
    check!(v.spare_capacity().as_ptr() as usize == p);
    let s = v.spare_capacity_mut();
    check!(s.len() == k && s.as_ptr() as usize == p);
    if k > 0 {
        let x = sx::u32();
        s[0].write(Tok::new(x));
        // give the written element an owner by taking it back out
        let t = unsafe { s[0].assume_init_read() };
        check!(t.val == x);
        v.push(t);
        m.push(x);
        sx::cover(11);
    }
    fin(v, &m);
}

/// writing through the slice views
#[no_mangle]
pub fn sv_slices() {
    init();
    let (mut v, mut m) = any();
    if m.n > 0 {
        let i = sx::choose(m.n);
        let x = sx::u32();
        match sx::choose(4) {
            0 => v[i].val = x,
            1 => v.as_mut_slice()[i].val = x,
            2 => AsMut::<[Tok]>::as_mut(&mut v)[i].val = x,
            _ => v.iter_mut().nth(i).unwrap().val = x,
        }
        m.v[i] = x;
        check!(v.first().unwrap().val == m.v[0]);
        check!(v.last().unwrap().val == m.v[m.n - 1]);
        sx::cover(12);
    }
    fin(v, &m);
}

fn op<const N: usize>(v: &mut SmallVec<Tok, N>, m: &mut Arr) {
    let x = sx::u32();
    match sx::choose(9) {
        0 => { v.push(Tok::new(x)); m.push(x); }
        1 => { let a = v.pop().map(|t| t.val); if m.n > 0 { check!(a == Some(m.v[m.n - 1])); m.n -= 1; } else { check!(a.is_none()); } }
        2 => { let i = sx::choose(m.n + 1); v.insert(i, Tok::new(x)); m.insert(i, x); }
        3 => { if m.n > 0 { let i = sx::choose(m.n); let t = v.remove(i); check!(t.val == m.remove(i)); } }
        4 => { if m.n > 0 { let i = sx::choose(m.n); let t = v.swap_remove(i); check!(t.val == m.v[i]); m.v[i] = m.v[m.n - 1]; m.n -= 1; } }
        5 => { v.shrink_to_fit(); }
        6 => { check!(v.try_move_to_stack().is_ok() == (m.n <= N || v.is_stack())); }
        7 => v.move_to_heap(),
        _ => { let k = sx::choose(m.n + 1); v.truncate(k); m.n = k; }
    }
    m.same(v);
}
fn ops<const N: usize>(max: usize, steps: usize) {
    init();
    let (mut v, mut m) = any_sv::<N>(max);
    for _ in 0..steps { op(&mut v, &mut m); }
    fin(v, &m);
}
#[no_mangle] pub fn sv_two_ops() { ops::<2>(3, 2) }
#[no_mangle] pub fn sv_n0() { ops::<0>(2, 2) }
#[no_mangle] pub fn sv_n1() { ops::<1>(2, 2) }
#[no_mangle] pub fn sv_three_ops_t() { ops::<2>(3, 3) }

#[allow(dead_code)]
fn unused(_: Vec<u8>) {}

/// assignment of a copy, whatever was there before and wherever it was
#[no_mangle]
pub fn sv_clone_from() {
    init();
    let (mut v, m) = any_sv::<2>(3);
    let (w, k) = any_sv::<2>(3);
    v.clone_from(&w);
    k.same(v.as_slice());
    k.same(w.as_slice());
    check!(toks_live() == 2 * k.n && v.capacity() >= v.len());
    if k.n < m.n { sx::cover(40); }
    if k.n > m.n { sx::cover(41); }
    v.push(Tok::new(5));
    check!(v.len() == k.n + 1 && v[k.n].val == 5);
    k.same(w.as_slice());
    drop(v);
    fin(w, &k);
}
