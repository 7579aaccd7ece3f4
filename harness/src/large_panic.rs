//! panics in the middle of longer containers
use crate::big::*;
use crate::env::*;
use crate::{check, sx};
use lokky::small_vec::SmallVec;
use lokky::vec::Vec;

const FILE: u32 = 48;

harnesses! { lp_vec_call lp_sv_call lp_vec_drop lp_sv_drop lp_vec_clone lp_sv_clone lp_vec_into lp_vec_drain lp_sv_drain lp_vec_iter lp_sv_iter }

static mut CALLS: usize = 0;
/// counts; call number `at` panics
fn tick(at: usize) -> usize {
    unsafe {
        CALLS += 1;
        if CALLS == at + 1 { PANICKED += 1; panic!() }
        CALLS - 1
    }
}
fn panicked() -> bool { unsafe { PANICKED > 0 } }
/// the answer to call number i
fn ans(p: usize, i: usize) -> bool { match p { 0 => true, 1 => false, 2 => i % 2 == 0, _ => i % 5 != 3 } }

fn valid(s: &[Tok], n: usize) {
    check!(s.len() <= n);
    for t in s { t.ok(); }
    sx::log(2, s.len() as u64);
}
macro_rules! works {
    ($v:ident) => {{
        let n = $v.len();
        for i in 0..5 { $v.push(Tok::new(i)); }
        check!($v.len() == n + 5 && $v[n].val == 0 && $v[n + 4].val == 4);
        if n > 0 { let t = $v.remove(n / 2); t.ok(); drop(t); }
        for i in 0..5 { match $v.pop() { Some(t) => check!(t.val == 4 - i), None => check!(false) } }
        valid(&$v, n);
        drop($v);
        check!(sx::live() == 0);
    }};
}

macro_rules! calls {
    ($f:ident, $mk:expr) => {
        #[no_mangle]
        pub fn $f() {
            init();
            let (mut v, m) = $mk;
            let n = m.n;
            let at = pos(n);
            let p = sx::choose(4);
            let r = match sx::choose(5) {
                0 => sx::catch(|| v.retain(|t| { t.ok(); ans(p, tick(at)) })),
                1 => sx::catch(|| v.dedup_by(|a, b| { a.ok(); b.ok(); ans(p, tick(at)) })),
                2 => sx::catch(|| v.dedup_by_key(|a| { a.ok(); let i = tick(at); if ans(p, i) { 0 } else { i } })),
                _ => sx::catch(|| v.resize_with(n + n, || { tick(at); Tok::new(1) })),
            };
            check!(r.is_none() == panicked());
            valid(&v, 2 * n);
            works!(v);
        }
    };
}
calls!(lp_vec_call, vec([17, 64][sx::choose(2)], sx::choose(2) * 3));
calls!(lp_sv_call, { let n = [17, 33, 64][sx::choose(3)]; sv(n, n > 33 || sx::choose(2) == 1) });

macro_rules! drops {
    ($f:ident, $mk:expr) => {
        #[no_mangle]
        pub fn $f() {
            init();
            let (mut v, m) = $mk;
            let n = m.n;
            unsafe { DROP_AT = pos(n) };
            let l = [0, n / 2, n - 1][sx::choose(3)];
            let r = match sx::choose(6) {
                0 => sx::catch(|| v.truncate(l)),
                1 => sx::catch(|| v.clear()),
                2 => sx::catch(|| { let mut i = 0; v.retain(|_| { i += 1; i > l }) }),
                3 => sx::catch(|| v.dedup_by(|_, _| true)),
                4 => sx::catch(|| drop(v.drain(l..))),
                _ => sx::catch(|| v.resize_with(l, || Tok::new(1))),
            };
            check!(r.is_none() == panicked());
            unsafe { DROP_AT = usize::MAX };
            valid(&v, n);
            works!(v);
        }
    };
}
drops!(lp_vec_drop, vec([17, 64][sx::choose(2)], 0));
drops!(lp_sv_drop, sv([17, 64][sx::choose(2)], true));

macro_rules! clones {
    ($f:ident, $T:ty, $mk:expr) => {
        #[no_mangle]
        pub fn $f() {
            init();
            let (mut v, m) = $mk;
            let n = m.n;
            let (a, k) = vec(20, 0);
            unsafe { CLONE_AT = if sx::bool() { pos(n) } else { n + pos(20) } };
            let r = match sx::choose(4) {
                0 => sx::catch(|| v.extend_from_slice(&a)),
                1 => { sx::catch(|| { let c = v.clone(); m.same(&c); }) }
                2 => sx::catch(|| { let c = a.clone(); k.same(&c); }),
                _ => sx::catch(|| { let c = <$T>::from(v.as_slice()); m.same(&c); }),
            };
            check!(r.is_none() == panicked());
            unsafe { CLONE_AT = usize::MAX };
            valid(&v, n + 20);
            check!(v.len() >= n);
            m.same(&v.as_slice()[..n]);
            k.same(&a);
            drop(a);
            check!(toks_live() == v.len());
            works!(v);
            done();
        }
    };
}
clones!(lp_vec_clone, Vec<Tok>, vec([17, 64][sx::choose(2)], sx::choose(2) * 20));
clones!(lp_sv_clone, Sv, sv([17, 64][sx::choose(2)], true));

/// a destructor panics while the iterator is dropped
#[no_mangle]
pub fn lp_vec_into() {
    init();
    let (v, m) = vec([17, 64][sx::choose(2)], 2);
    let n = m.n;
    let mut d = v.into_iter();
    let (a, b) = [(0, 0), (1, n / 2), (n / 2, 1)][sx::choose(3)];
    for i in 0..a { check!(d.next().unwrap().val == m.v[i]); }
    for i in 0..b { check!(d.next_back().unwrap().val == m.v[n - 1 - i]); }
    unsafe { DROP_AT = pos(n) };
    let p = unsafe { DROP_AT } >= a && unsafe { DROP_AT } < n - b;
    let r = sx::catch(|| drop(d));
    check!(r.is_none() == p && panicked() == p);
    check!(sx::live() == 0);
}

macro_rules! drains {
    ($f:ident, $mk:expr) => {
        #[no_mangle]
        pub fn $f() {
            init();
            let (mut v, m) = $mk;
            let n = m.n;
            let (a, b) = [(0, n), (1, n - 1), (n / 2, n), (n / 4, n / 2 + 2)][sx::choose(4)];
            unsafe { DROP_AT = pos(n) };
            let at = unsafe { DROP_AT };
            let k = [0, 1, (b - a) / 2][sx::choose(3)];
            let r = sx::catch(|| {
                let mut d = v.drain(a..b);
                for _ in 0..k { d.next().unwrap().ok(); }
            });
            check!(r.is_none() == (at >= a && at < b));
            unsafe { DROP_AT = usize::MAX };
            valid(&v, n - (b - a));
            for i in 0..a { check!(v[i].val == m.v[i]); }
            works!(v);
        }
    };
}
drains!(lp_vec_drain, vec([17, 64][sx::choose(2)], 0));
drains!(lp_sv_drain, sv([17, 64][sx::choose(2)], true));

struct It { i: usize, n: usize, at: usize }
impl Iterator for It {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        if self.i == self.at { unsafe { PANICKED += 1 }; panic!() }
        if self.i == self.n { return None; }
        self.i += 1;
        Some(Tok::new(self.i as u32))
    }
}
macro_rules! iters {
    ($f:ident, $T:ty, $mk:expr) => {
        #[no_mangle]
        pub fn $f() {
            init();
            let (mut v, m) = $mk;
            let n = m.n;
            let k = [7, 40][sx::choose(2)];
            let it = It { i: 0, n: k, at: pos(k) };
            let at = it.at;
            let r = if sx::bool() { sx::catch(|| { let w: $T = it.collect(); valid(&w, 40); }) } else { sx::catch(|| v.extend(it)) };
            check!(r.is_none() && panicked());
            check!(v.len() == n || v.len() == n + at);
            m.same(&v.as_slice()[..n]);
            for i in n..v.len() { check!(v[i].val == (i - n + 1) as u32); }
            check!(toks_live() == v.len());
            works!(v);
            done();
        }
    };
}
trait Ext { fn extend(&mut self, i: It); }
impl Ext for Vec<Tok> { fn extend(&mut self, i: It) { self.extend_from_iter(i) } }
iters!(lp_vec_iter, Vec<Tok>, vec([7, 33][sx::choose(2)], 0));
iters!(lp_sv_iter, SmallVec<Tok, 33>, sv([7, 33][sx::choose(2)], sx::bool()));
