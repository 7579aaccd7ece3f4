//! draining longer vectors
use crate::big::*;
use crate::env::*;
use crate::{check, sx};

const FILE: u32 = 39;

harnesses! { ld_vec ld_sv }

macro_rules! drain {
    ($name:ident, $mk:expr) => {
        #[no_mangle]
        pub fn $name() {
            init();
            let (mut v, mut m) = $mk;
            let n = m.n;
            let (a, b) = match sx::choose(6) {
                0 => (0, n),
                1 => (0, n / 2),
                2 => (n / 2, n),
                3 => (1, n - 1),
                4 => (2, n - 3),
                _ => (n - 4, n - 2),
            };
            let (f, k) = match sx::choose(5) {
                0 => (0, 0),
                1 => (b - a, 0),
                2 => (0, b - a),
                3 => ((b - a) / 2, 0),
                _ => (1, 1),
            };
            let mut d = v.drain(a..b);
            for i in 0..f { let t = d.next().unwrap(); t.ok(); check!(t.val == m.v[a + i]); }
            for i in 0..k { let t = d.next_back().unwrap(); t.ok(); check!(t.val == m.v[b - 1 - i]); }
            check!(d.len() == b - a - f - k);
            m.same_part(a + f, b - k, d.as_slice());
            if f + k == b - a { check!(d.next().is_none() && d.next_back().is_none()); }
            drop(d);
            m.cut(a, b);
            m.same(v.as_slice());
            check!(toks_live() == m.n);
            v.push(Tok::new(5));
            m.push(5);
            m.same(v.as_slice());
            drop(v);
            done();
        }
    };
}
drain!(ld_vec, any_vec());
drain!(ld_sv, any_sv());
