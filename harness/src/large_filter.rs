//! retain and dedup on longer vectors
use crate::big::*;
use crate::env::*;
use crate::{check, sx};

const FILE: u32 = 38;

harnesses! { lf_vec lf_sv }

/// which positions are picked
fn pat(k: usize, i: usize, n: usize) -> bool {
    match k {
        0 => true,
        1 => false,
        2 => i % 2 == 0,
        3 => i < n / 2,
        4 => i >= n / 2,
        5 => i == n - 1,
        6 => i != n / 2,
        7 => i % 7 < 3,
        8 => i > 0,
        _ => i + 2 != n,
    }
}

macro_rules! filter {
    ($name:ident, $mk:expr) => {
        #[no_mangle]
        pub fn $name() {
            init();
            let (mut v, m) = $mk;
            let k = sx::choose(10);
            let mut r = Seq::new();
            let mut at = 0;
            if sx::choose(2) == 0 {
                v.retain(|t| {
                    t.ok();
                    check!(at < m.n && t.val == m.v[at]);
                    let keep = pat(k, at, m.n);
                    if keep { r.push(m.v[at]); }
                    at += 1;
                    keep
                });
                check!(at == m.n);
            } else {
                r.push(m.v[0]);
                at = 1;
                v.dedup_by(|a, b| {
                    a.ok();
                    b.ok();
                    check!(at < m.n && a.val == m.v[at] && b.val == r.v[r.n - 1]);
                    let same = pat(k, at, m.n);
                    if !same { r.push(m.v[at]); }
                    at += 1;
                    same
                });
                check!(at == m.n);
            }
            r.same(v.as_slice());
            check!(toks_live() == r.n);
            drop(v);
            done();
        }
    };
}
filter!(lf_vec, any_vec());
filter!(lf_sv, any_sv());
