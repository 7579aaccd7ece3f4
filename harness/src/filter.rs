//! retain / dedup / dedup_by / dedup_by_key of Vec and SmallVec (both storage modes).
use crate::env::*;
use crate::vecs::*;
use crate::{check, sx};

const FILE: u32 = 11;

harnesses! {
    fi_retain_v fi_retain_s fi_dedup_by_v fi_dedup_by_s fi_dedup_v fi_dedup_s fi_key_v fi_key_s
    fi_mutate_v fi_mutate_s fi_zst fi_retain_v_t fi_retain_s_t fi_dedup_by_v_t fi_dedup_by_s_t
}

macro_rules! retain {
    ($name:ident, $mk:expr, $c:expr) => {
        #[no_mangle]
        pub fn $name() {
            init();
            let (mut v, m) = $mk;
            let mut calls = 0;
            let mut r = Arr::new();
            v.retain(|t| {
                t.ok();
                check!(calls < m.n);
                check!(t.val == m.v[calls]);
                let keep = sx::bool();
                if keep { r.push(m.v[calls]); }
                calls += 1;
                keep
            });
            check!(calls == m.n);
            if m.n > 2 && r.n == 2 { sx::cover($c); }
            r.same(v.as_slice());
            check!(toks_live() == r.n);
            drop(v);
            done();
        }
    };
}
retain!(fi_retain_v, any_vec(5, 1), 1);
retain!(fi_retain_s, any_sv::<3>(5), 2);
retain!(fi_retain_v_t, any_vec(8, 1), 1);
retain!(fi_retain_s_t, any_sv::<5>(7), 2);

macro_rules! dedup_by {
    ($name:ident, $mk:expr, $c:expr) => {
        #[no_mangle]
        pub fn $name() {
            init();
            let (mut v, m) = $mk;
            let mut r = Arr::new();
            let mut next = 1;
            if m.n > 0 { r.push(m.v[0]); }
            v.dedup_by(|a, b| {
                a.ok();
                b.ok();
                check!(next < m.n);
                check!(a.val == m.v[next]);
                check!(b.val == r.v[r.n - 1]);
                let same = sx::bool();
                if !same { r.push(m.v[next]); }
                next += 1;
                same
            });
            check!(next == m.n || m.n == 0);
            if m.n > 2 && r.n == 2 { sx::cover($c); }
            r.same(v.as_slice());
            check!(toks_live() == r.n);
            drop(v);
            done();
        }
    };
}
dedup_by!(fi_dedup_by_v, any_vec(5, 1), 3);
dedup_by!(fi_dedup_by_s, any_sv::<3>(5), 4);
dedup_by!(fi_dedup_by_v_t, any_vec(8, 1), 3);
dedup_by!(fi_dedup_by_s_t, any_sv::<5>(7), 4);

macro_rules! dedup {
    ($name:ident, $mk:expr, $c:expr) => {
        #[no_mangle]
        pub fn $name() {
            init();
            let (mut v, m) = $mk;
            v.dedup();
            let mut r = Arr::new();
            for i in 0..m.n {
                if r.n == 0 || r.v[r.n - 1] != m.v[i] { r.push(m.v[i]); }
            }
            if r.n < m.n { sx::cover($c); }
            r.same(v.as_slice());
            check!(toks_live() == r.n);
            drop(v);
            done();
        }
    };
}
dedup!(fi_dedup_v, any_vec(4, 1), 5);
dedup!(fi_dedup_s, any_sv::<3>(4), 6);

macro_rules! key {
    ($name:ident, $mk:expr, $c:expr) => {
        #[no_mangle]
        pub fn $name() {
            init();
            let (mut v, m) = $mk;
            let mut keys = [0u8; MAXARR];
            let mut calls = 0;
            v.dedup_by_key(|t| {
                t.ok();
                check!(calls < m.n);
                check!(t.val == m.v[calls]);
                let k = sx::u8();
                keys[calls] = k;
                calls += 1;
                k
            });
            check!(calls == m.n);
            let mut r = Arr::new();
            let mut last = 0;
            for i in 0..m.n {
                if r.n == 0 || last != keys[i] {
                    r.push(m.v[i]);
                    last = keys[i];
                }
            }
            if r.n < m.n { sx::cover($c); }
            r.same(v.as_slice());
            check!(toks_live() == r.n);
            drop(v);
            done();
        }
    };
}
key!(fi_key_v, any_vec(4, 1), 7);
key!(fi_key_s, any_sv::<3>(4), 8);

// the callback may change both elements: the changes stay
macro_rules! mutate {
    ($name:ident, $mk:expr) => {
        #[no_mangle]
        pub fn $name() {
            init();
            let (mut v, m) = $mk;
            let mut r = Arr::new();
            let mut next = 1;
            if m.n > 0 { r.push(m.v[0]); }
            v.dedup_by(|a, b| {
                check!(next < m.n && r.n > 0);
                check!(b.val == r.v[r.n - 1]);
                a.val = a.val.wrapping_add(5);
                b.val = b.val.wrapping_add(7);
                r.v[r.n - 1] = r.v[r.n - 1].wrapping_add(7);
                let same = sx::bool();
                if !same { r.push(m.v[next].wrapping_add(5)); }
                next += 1;
                same
            });
            r.same(v.as_slice());
            drop(v);
            done();
        }
    };
}
mutate!(fi_mutate_v, any_vec(4, 0));
mutate!(fi_mutate_s, any_sv::<3>(4));

/// elements without size
#[no_mangle]
pub fn fi_zst() {
    init();
    let n = sx::choose(4);
    let mut v = lokky::vec::Vec::<Zst>::new();
    let mut s = lokky::small_vec::SmallVec::<Zst, 2>::new();
    for _ in 0..n {
        v.push(Zst::new());
        s.push(Zst::new());
    }
    let mut kept = 0;
    v.retain(|_| { let k = sx::bool(); kept += k as usize; k });
    check!(v.len() == kept);
    check!(zlive() as usize == kept + n);
    let mut kept = 0;
    s.retain(|_| { let k = sx::bool(); kept += k as usize; k });
    check!(s.len() == kept);
    check!(zlive() as usize == v.len() + kept);
    v.dedup();
    s.dedup_by_key(|_| 1u8);
    check!(v.len() <= 1 && s.len() <= 1);
    drop(v);
    drop(s);
    check!(zlive() == 0);
    done();
}
