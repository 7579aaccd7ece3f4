//! consuming with every way of an iterator to hand elements out
use crate::env::*;
use crate::vecs::*;
use crate::{check, sx, ways};
use lokky::vec::Vec;

const FILE: u32 = 56;

harnesses! { wi_steps wi_rest wi_zst wi_steps_t }

fn go(max: usize, n: usize, rest: bool) {
    init();
    let (v, m) = any_vec(max, 1);
    let (mut i, mut j) = (0, m.n);
    let mut it = v.into_iter();
    ways::steps(&mut it, &m, &mut i, &mut j, n, 0);
    m.slice(i, j).same(it.as_slice());
    m.slice(i, j).same(it.as_slice_mut());
    if rest { ways::rest(it, &m, i, j) } else { drop(it) }
    done();
}
#[no_mangle]
pub fn wi_steps() { go(4, 2, false) }
#[no_mangle]
pub fn wi_rest() { go(4, 1, true) }
#[no_mangle]
pub fn wi_steps_t() { go(6, 3, true) }

#[no_mangle]
pub fn wi_zst() {
    init();
    let n = sx::choose(5);
    let mut v = Vec::<Zst>::new();
    for _ in 0..n { v.push(Zst::new()); }
    let k = sx::usize();
    let mut it = v.into_iter();
    let back = sx::bool();
    let t = if back { it.nth_back(k) } else { it.nth(k) };
    check!(t.is_some() == (k < n));
    let left = if k < n { n - 1 - sx::conc(k) } else { 0 };
    check!(it.len() == left);
    drop(t);
    check!(zlive() as usize == left);
    match sx::choose(4) {
        0 => drop(it),
        1 => check!(it.count() == left),
        2 => check!(it.last().is_some() == (left > 0)),
        _ => { let mut c = 0; it.for_each(|_| c += 1); check!(c == left); }
    }
    check!(zlive() == 0);
    done();
}
