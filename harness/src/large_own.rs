//! who owns the elements of longer containers: boxed slices, conversions, several operations in a row
use crate::big::*;
use crate::env::*;
use crate::{check, sx};
use lokky::boxed::Box;
use lokky::small_vec::SmallVec;
use lokky::vec::Vec;

const FILE: u32 = 52;

harnesses! { lo_vec lo_sv lo_box }

/// keeps m, drops the rest
macro_rules! step {
    ($v:ident, $m:ident) => {{
        let n = $m.n;
        let x = sx::u32();
        let at = n / 3;
        match sx::choose(9) {
            0 => { for i in 0..20 { $v.push(Tok::new(i)); $m.push(i); } }
            1 => { if n > 0 { $v.insert(at, Tok::new(x)); $m.insert(at, x); let t = $v.remove(at / 2); check!(t.val == $m.remove(at / 2)); } }
            2 => { $v.truncate(at); $m.n = at; }
            3 => { let w = $v.split_off(at); check!(w.len() == n - at); $m.same_part(at, n, &w); $m.n = at; }
            4 => { drop($v.drain(at..n - at)); $m.cut(at, n - at); }
            5 => { let mut i = 0; $v.retain(|_| { i += 1; i % 2 == 0 }); let mut j = 0; let mut k = 0; while j < n { if j % 2 == 1 { $m.v[k] = $m.v[j]; k += 1; } j += 1; } $m.n = k; }
            6 => { $v.resize(n + 9, Tok::new(x)); for _ in 0..9 { $m.push(x); } }
            7 => { $v.shrink_to_fit(); check!($v.len() == n); }
            _ => { let mut w = $v.clone(); check!(toks_live() == 2 * n); $v.append(&mut w); check!(w.len() == 0); let mut j = 0; while j < n { $m.push($m.v[j]); j += 1; } }
        }
        check!($v.len() == $m.n && $v.capacity() >= $m.n);
        check!(toks_live() == $m.n);
    }};
}
#[no_mangle]
pub fn lo_vec() {
    init();
    let (mut v, mut m) = vec([17, 64][sx::choose(2)], 0);
    step!(v, m);
    step!(v, m);
    m.same(&v);
    drop(v);
    done();
}
#[no_mangle]
pub fn lo_sv() {
    init();
    let n = [20, 33, 64][sx::choose(3)];
    let (mut v, mut m) = sv(n, n > 33);
    step!(v, m);
    step!(v, m);
    m.same(&v);
    drop(v);
    done();
}

/// boxed slices and back
#[no_mangle]
pub fn lo_box() {
    init();
    let (v, m) = any_vec();
    let n = m.n;
    let b: Box<[Tok]> = if sx::bool() { v.into_boxed_slice() } else { let mut s = SmallVec::<Tok, 33>::from(v); s.shrink_to_fit(); m.same(&s); s.into_boxed_slice() };
    m.same(&b);
    check!(toks_live() == n && sx::live() == 1);
    match sx::choose(4) {
        0 => drop(b),
        1 => { let mut v = Vec::from(b); m.same(&v); v.push(Tok::new(1)); check!(v.len() == n + 1); drop(v); }
        2 => { let b = b.clone_box(); m.same(&b); drop(b); }
        _ => { let mut i = n; for t in Vec::from(b).into_iter().rev() { i -= 1; check!(t.val == m.v[i]); } check!(i == 0); }
    }
    done();
}
trait CloneBox { fn clone_box(self) -> Self; }
impl CloneBox for Box<[Tok]> { fn clone_box(self) -> Self { Vec::<Tok>::from(&*self).into_boxed_slice() } }
