//! consuming longer vectors
use crate::big::*;
use crate::env::*;
use crate::{check, sx};

const FILE: u32 = 40;

harnesses! { li_vec }

#[no_mangle]
pub fn li_vec() {
    init();
    let (v, m) = any_vec();
    let n = m.n;
    let (f, k) = match sx::choose(6) {
        0 => (0, 0),
        1 => (n, 0),
        2 => (0, n),
        3 => (n / 2, n - n / 2),
        4 => (n / 2, 1),
        _ => (1, n / 2),
    };
    let mut d = v.into_iter();
    for i in 0..f { let t = d.next().unwrap(); t.ok(); check!(t.val == m.v[i]); }
    for i in 0..k { let t = d.next_back().unwrap(); t.ok(); check!(t.val == m.v[n - 1 - i]); }
    check!(d.len() == n - f - k && d.size_hint() == (n - f - k, Some(n - f - k)));
    m.same_part(f, n - k, d.as_slice());
    if f + k == n { check!(d.next().is_none() && d.next_back().is_none() && d.next().is_none()); }
    check!(toks_live() == n - f - k);
    drop(d);
    done();
}
