//! Drain of Vec and SmallVec.
use crate::env::*;
use crate::vecs::*;
use crate::{check, sx};
use std::ops::Bound;

const FILE: u32 = 12;

harnesses! { dr_steps_v dr_steps_s dr_bad_v dr_bad_s dr_leak_v dr_leak_s dr_zst dr_reuse_v dr_steps_v_t dr_steps_s_t }

/// one of every range form over symbolic bounds, with the range it denotes (None: not representable)
fn any_range(n: usize) -> ((Bound<usize>, Bound<usize>), Option<(usize, usize)>) {
    let a = sx::usize();
    let b = sx::usize();
    let (s, sv) = match sx::choose(3) {
        0 => (Bound::Unbounded, Some(0)),
        1 => (Bound::Included(a), Some(a)),
        _ => (Bound::Excluded(a), a.checked_add(1)),
    };
    let (e, ev) = match sx::choose(3) {
        0 => (Bound::Unbounded, Some(n)),
        1 => (Bound::Excluded(b), Some(b)),
        _ => (Bound::Included(b), b.checked_add(1)),
    };
    let r = match (sv, ev) {
        (Some(x), Some(y)) if x <= y && y <= n => Some((x, y)),
        _ => None,
    };
    ((s, e), r)
}

/// drain, take some steps from both ends, then drop the drain
macro_rules! steps {
    ($name:ident, $mk:expr, $c:expr) => {
        #[no_mangle]
        pub fn $name() {
            init();
            let (mut v, m) = $mk;
            let (range, want) = any_range(m.n);
            let (a, b) = match want { Some(x) => x, None => return };
            let (a, b) = (sx::conc(a), sx::conc(b));
            let mut d = v.drain(range);
            let (mut i, mut j) = (a, b);
            loop {
                check!(d.size_hint() == (j - i, Some(j - i)));
                check!(d.len() == j - i);
                m.slice(i, j).same(d.as_slice());
                match sx::choose(3) {
                    0 => break,
                    1 => match d.next() {
                        Some(t) => { t.ok(); check!(i < j); check!(t.val == m.v[i]); i += 1; }
                        None => { check!(i == j); check!(d.next_back().is_none()); sx::cover($c); break }
                    },
                    _ => match d.next_back() {
                        Some(t) => { t.ok(); check!(i < j); check!(t.val == m.v[j - 1]); j -= 1; }
                        None => { check!(i == j); check!(d.next().is_none()); break }
                    },
                }
            }
            if i < j && b < m.n { sx::cover($c + 1); }
            drop(d);
            let mut r = m.slice(0, a);
            r.extend(&m.slice(b, m.n));
            r.same(v.as_slice());
            check!(toks_live() == r.n);
            v.push(Tok::new(77));
            r.push(77);
            r.same(v.as_slice());
            drop(v);
            done();
        }
    };
}
steps!(dr_steps_v, any_vec(4, 0), 1);
steps!(dr_steps_s, any_sv::<2>(3), 3);
steps!(dr_steps_v_t, any_vec(6, 1), 1);
steps!(dr_steps_s_t, any_sv::<4>(6), 3);

/// every range outside the vector is refused and nothing changes
macro_rules! bad {
    ($name:ident, $mk:expr, $c:expr) => {
        #[no_mangle]
        pub fn $name() {
            init();
            let (mut v, m) = $mk;
            let (range, want) = any_range(m.n);
            let r = sx::catch(|| { let _ = v.drain(range); });
            check!(r.is_some() == want.is_some());
            if want.is_none() {
                sx::cover($c);
                m.same(v.as_slice());
                drop(v);
                done();
            }
        }
    };
}
bad!(dr_bad_v, any_vec(2, 1), 5);
bad!(dr_bad_s, any_sv::<2>(3), 6);

/// a leaked drain: what is left is a prefix of valid elements
macro_rules! leak {
    ($name:ident, $mk:expr) => {
        #[no_mangle]
        pub fn $name() {
            init();
            let (mut v, m) = $mk;
            let a = sx::choose(m.n + 1);
            let b = a + sx::choose(m.n - a + 1);
            let mut d = v.drain(a..b);
            let mut got = 0;
            if sx::bool() { if let Some(t) = d.next() { check!(t.val == m.v[a]); got = 1; } }
            std::mem::forget(d);
            check!(v.len() <= a);
            m.slice(0, v.len()).same(v.as_slice());
            let _ = got;
            let n = v.len();
            v.push(Tok::new(3));
            check!(v.len() == n + 1);
            drop(v);
            check!(sx::live() == 0);
        }
    };
}
leak!(dr_leak_v, any_vec(4, 0));
leak!(dr_leak_s, any_sv::<2>(4));

#[no_mangle]
pub fn dr_zst() {
    init();
    let n = sx::choose(4);
    let mut v = lokky::vec::Vec::<Zst>::new();
    let mut s = lokky::small_vec::SmallVec::<Zst, 2>::new();
    for _ in 0..n {
        v.push(Zst::new());
        s.push(Zst::new());
    }
    let a = sx::choose(n + 1);
    let b = a + sx::choose(n - a + 1);
    let k = sx::choose(b - a + 1);
    {
        let mut d = v.drain(a..b);
        let mut e = s.drain(a..b);
        for i in 0..k {
            check!(d.len() == b - a - i && e.len() == b - a - i);
            if sx::bool() { check!(d.next().is_some() && e.next().is_some()); } else { check!(d.next_back().is_some() && e.next_back().is_some()); }
        }
    }
    check!(v.len() == n - (b - a) && s.len() == n - (b - a));
    check!(zlive() as usize == 2 * (n - (b - a)));
    drop(v);
    drop(s);
    check!(zlive() == 0);
    done();
}

/// two drains in a row
#[no_mangle]
pub fn dr_reuse_v() {
    init();
    let (mut v, m) = any_vec(3, 0);
    let mut m = m;
    for _ in 0..2 {
        let a = sx::choose(m.n + 1);
        let b = a + sx::choose(m.n - a + 1);
        let mut c = 0;
        for t in v.drain(a..b) { check!(t.val == m.v[a + c]); c += 1; }
        check!(c == b - a);
        let mut r = m.slice(0, a);
        r.extend(&m.slice(b, m.n));
        m = r;
        m.same(v.as_slice());
    }
    drop(v);
    done();
}
