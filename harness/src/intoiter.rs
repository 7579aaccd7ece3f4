//! consuming iteration of Vec
use crate::env::*;
use crate::vecs::*;
use crate::{check, sx};

const FILE: u32 = 13;

harnesses! { it_steps it_whole it_zst it_rev it_mut it_steps_t }

fn steps(max: usize) {
    init();
    let (v, m) = any_vec(max, 1);
    let mut it = v.into_iter();
    let (mut i, mut j) = (0, m.n);
    loop {
        check!(it.size_hint() == (j - i, Some(j - i)));
        check!(it.len() == j - i);
        m.slice(i, j).same(it.as_slice());
        m.slice(i, j).same(it.as_ref());
        check!(toks_live() == j - i);
        match sx::choose(3) {
            0 => break,
            1 => match it.next() {
                Some(t) => { t.ok(); check!(i < j); check!(t.val == m.v[i]); i += 1; }
                None => { check!(i == j); check!(it.next().is_none()); check!(it.next_back().is_none()); check!(it.len() == 0); sx::cover(1); break }
            },
            _ => match it.next_back() {
                Some(t) => { t.ok(); check!(i < j); check!(t.val == m.v[j - 1]); j -= 1; }
                None => { check!(i == j); check!(it.next_back().is_none()); check!(it.next().is_none()); check!(it.len() == 0); break }
            },
        }
    }
    if i < j && i > 0 && j < m.n { sx::cover(2); }
    drop(it);
    done();
}
#[no_mangle]
pub fn it_steps() { steps(4) }
#[no_mangle]
pub fn it_steps_t() { steps(6) }

#[no_mangle]
pub fn it_whole() {
    init();
    let (v, m) = any_vec(4, 1);
    let mut c = 0;
    for t in v {
        t.ok();
        check!(c < m.n);
        check!(t.val == m.v[c]);
        c += 1;
    }
    check!(c == m.n);
    done();
}

#[no_mangle]
pub fn it_rev() {
    init();
    let (v, m) = any_vec(4, 1);
    let mut c = m.n;
    for t in v.into_iter().rev() {
        t.ok();
        check!(c > 0);
        c -= 1;
        check!(t.val == m.v[c]);
    }
    check!(c == 0);
    done();
}

/// elements changed through the mutable view are the ones yielded
#[no_mangle]
pub fn it_mut() {
    init();
    let (v, mut m) = any_vec(3, 1);
    let mut it = v.into_iter();
    let mut a = 0;
    if m.n > 0 && sx::bool() { let t = it.next().unwrap(); check!(t.val == m.v[0]); a = 1; }
    let n = m.n - a;
    check!(it.as_slice_mut().len() == n);
    if n > 0 {
        let k = sx::choose(n);
        let x = sx::u32();
        it.as_slice_mut()[k].val = x;
        m.v[a + k] = x;
    }
    let mut c = a;
    for t in it { check!(t.val == m.v[c]); c += 1; }
    check!(c == m.n);
    done();
}

#[no_mangle]
pub fn it_zst() {
    init();
    let n = sx::choose(4);
    let mut v = lokky::vec::Vec::<Zst>::new();
    for _ in 0..n { v.push(Zst::new()); }
    let mut it = v.into_iter();
    let mut left = n;
    let k = sx::choose(5);
    for _ in 0..k {
        check!(it.len() == left);
        let x = if sx::bool() { it.next() } else { it.next_back() };
        check!(x.is_some() == (left > 0));
        if left > 0 { left -= 1; }
    }
    check!(zlive() as usize == left);
    drop(it);
    check!(zlive() == 0);
    done();
}
