//! draining with every way of an iterator to hand elements out
use crate::env::*;
use crate::vecs::*;
use crate::{check, sx, ways};

const FILE: u32 = 55;

harnesses! { wd_vec wd_sv wd_rest_v wd_rest_s wd_steps_t }

macro_rules! drain {
    ($name:ident, $mk:expr, $steps:expr, $whole:expr) => {
        #[no_mangle]
        pub fn $name() {
            init();
            let (mut v, m) = $mk;
            let a = sx::choose(m.n + 1);
            let b = if $whole { m.n - sx::choose(m.n - a + 1) } else { a + sx::choose(m.n - a + 1) };
            let (mut i, mut j) = (a, b);
            let mut d = v.drain(a..b);
            ways::steps(&mut d, &m, &mut i, &mut j, $steps, m.n - (b - a));
            m.slice(i, j).same(d.as_slice());
            if $whole { ways::rest(d, &m, i, j) } else { drop(d) }
            let mut r = m.slice(0, a);
            r.extend(&m.slice(b, m.n));
            r.same(v.as_slice());
            check!(toks_live() == r.n);
            v.push(Tok::new(77));
            r.push(77);
            r.same(v.as_slice());
            drop(v);
            done();
        }
    };
}
drain!(wd_vec, any_vec(4, 0), 2, false);
drain!(wd_sv, any_sv::<2>(4), 2, false);
drain!(wd_rest_v, any_vec(4, 0), 1, true);
drain!(wd_rest_s, any_sv::<2>(4), 1, true);
drain!(wd_steps_t, any_vec(5, 1), 3, true);
