//! requests of longer containers are refused
use crate::big::*;
use crate::env::*;
use crate::{check, sx};
use lokky::small_vec::SmallVec;
use lokky::string::String;
use lokky::vec::Vec;

const FILE: u32 = 53;

harnesses! { lm_vec lm_sv lm_str }

/// some requests are refused; returns whether any was, which is when f panics
fn plain(f: impl FnOnce()) -> bool {
    let n = failed();
    set_may_fail(true);
    let r = sx::catch(f);
    set_may_fail(false);
    let bad = failed() > n;
    check!(r.is_none() == bad);
    sx::log(1, bad as u64);
    bad
}

macro_rules! steps {
    ($f:ident, $T:ty, $mk:expr) => {
        #[no_mangle]
        pub fn $f() {
            init();
            let (mut v, mut m) = $mk;
            let n = m.n;
            let cap = v.capacity();
            let x = sx::u32();
            let bad = match sx::choose(9) {
                0 => { let b = plain(|| v.push(Tok::new(x))); if !b { m.push(x) } b }
                1 => { let i = pos(n); let b = plain(|| v.insert(i, Tok::new(x))); if !b { m.insert(i, x) } b }
                2 => {
                    let (mut w, k) = $mk;
                    let b = plain(|| v.append(&mut w));
                    if b { k.same(&w); } else { check!(w.len() == 0); m.extend(&k); }
                    b
                }
                3 => { let (w, k) = vec(40, 0); let b = plain(|| v.extend_from_slice(&w)); if !b { m.extend(&k); } k.same(&w); b }
                4 => plain(|| v.reserve(50)),
                5 => plain(|| v.reserve_exact(50)),
                6 => plain(|| { let c = v.clone(); m.same(&c); }),
                7 => { let i = n / 2; let mut got = 0; let b = plain(|| { let w = v.split_off(i); m.same_part(i, n, &w); got = 1; }); if !b { check!(got == 1); m.n = i; } b }
                _ => { let b = plain(|| v.resize_with(n + 30, || Tok::new(7))); if !b { for _ in 0..30 { m.push(7); } } b }
            };
            if bad { check!(v.capacity() == cap); }
            m.same(&v);
            check!(toks_live() == m.n);
            for _ in 0..3 { v.push(Tok::new(3)); m.push(3); }
            m.same(&v);
            drop(v);
            done();
        }
    };
}
steps!(lm_vec, Vec<Tok>, vec([17, 33, 64][sx::choose(3)], 0));
steps!(lm_sv, SmallVec<Tok, 33>, { let n = [17, 33, 64][sx::choose(3)]; sv(n, n > 33) });

#[no_mangle]
pub fn lm_str() {
    init();
    let n = [17, 64][sx::choose(2)];
    let mut s = String::with_capacity(n);
    for i in 0..n { s.push((b'a' + (i % 26) as u8) as char); }
    let cap = s.capacity();
    let t = String::from("0123456789éß");
    let (mut at, mut add) = (n, 0);
    let bad = match sx::choose(6) {
        0 => { let b = plain(|| s.push('€')); if !b { add = 3; } b }
        1 => { let b = plain(|| s.push_str(&t)); if !b { add = 14; } b }
        2 => { at = pos(n); let b = plain(|| s.insert(at, 'ß')); if !b { add = 2; } b }
        3 => { at = pos(n); let b = plain(|| s.insert_str(at, &t)); if !b { add = 14; } b }
        4 => plain(|| s.reserve(100)),
        _ => plain(|| { let c = s.clone(); check!(c.len() == n); }),
    };
    if bad { check!(s.capacity() == cap); }
    check!(s.len() == n + add);
    let b = s.as_bytes();
    for i in 0..n { check!(b[if i < at { i } else { i + add }] == b'a' + (i % 26) as u8); }
    drop((s, t));
    done();
}
