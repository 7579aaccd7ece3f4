//! the allocator contract over sequences on every container (the executor checks every access, every
//! block and every layout; the model allocators check sizes)
use crate::env::*;
use crate::{check, sx};
use lokky::arc::{self, Arc};
use lokky::boxed::Box;
use lokky::rc::{self, Rc};
use lokky::small_vec::SmallVec;
use lokky::string::String;
use lokky::urc::{self, Urc};
use lokky::vec::Vec;
use std::mem::size_of;

const FILE: u32 = 16;

harnesses! {
    co_vec_u8 co_vec_tok co_vec_b3 co_vec_big co_vec_zst
    co_sv_u8 co_sv_tok co_sv_b3 co_sv_big co_sv_zst co_sv_n0
    co_box co_string co_rc co_arc co_urc co_from
    co_vec_u8_t co_vec_tok_t co_vec_b3_t co_vec_big_t co_sv_tok_t co_sv_b3_t
}

type B3 = [u8; 3];

trait Elem: Clone + 'static {
    fn mk(i: u8) -> Self;
    fn is(&self, i: u8) -> bool;
}
impl Elem for u8 { fn mk(i: u8) -> u8 { i } fn is(&self, i: u8) -> bool { *self == i } }
impl Elem for Tok { fn mk(i: u8) -> Tok { Tok::new(i as u32) } fn is(&self, i: u8) -> bool { self.ok(); self.val == i as u32 } }
impl Elem for B3 { fn mk(i: u8) -> B3 { [i, 1, 2] } fn is(&self, i: u8) -> bool { self[0] == i && self[1] == 1 && self[2] == 2 } }
impl Elem for Big { fn mk(i: u8) -> Big { Big(i as u64) } fn is(&self, i: u8) -> bool { self.0 == i as u64 } }
impl Elem for Zst { fn mk(_i: u8) -> Zst { Zst::new() } fn is(&self, _i: u8) -> bool { true } }

fn look<T: Elem>(v: &[T]) {
    let mut i = 0;
    while i < v.len() {
        check!(v[i].is(7));
        check!(&v[i] as *const T as usize % std::mem::align_of::<T>() == 0);
        i += 1;
    }
}

/// at the end: every block released, nothing at all for values without size
fn over<T>() {
    if size_of::<T>() == 0 { check!(traffic() == 0); }
    check!(zlive() == 0);
    done();
}

fn vec<T: Elem>(steps: usize) {
    init();
    let mut v = match sx::choose(4) {
        0 => Vec::<T>::new(),
        1 => Vec::with_capacity(sx::choose(3)),
        2 => Vec::from([T::mk(7)]),
        _ => Vec::from([T::mk(7), T::mk(7), T::mk(7)]),
    };
    for _ in 0..steps {
        match sx::choose(12) {
            0 => { let n = v.capacity().min(8); while v.len() <= n { v.push(T::mk(7)); } v.truncate(3); }
            1 => v.push(T::mk(7)),
            2 => v.reserve(sx::choose(4)),
            3 => v.reserve_exact(sx::choose(4)),
            4 => v.shrink_to_fit(),
            5 => v.shrink_to(sx::choose(3)),
            6 => { let b = v.into_boxed_slice(); look(&b); v = Vec::from(b); }
            7 => { let s = SmallVec::<T, 2>::from(v); look(&s); v = s.into_vec(); }
            8 => { let k = sx::choose(v.len() + 1); let w = v.split_off(k); look(&w); if sx::bool() { v = w; } }
            9 => { let mut w = v.clone(); look(&w); if sx::bool() { w.append(&mut v); w.truncate(3); v = w; } }
            10 => { let mut n = 0; let mut w = Vec::new(); for x in v { if n == 0 { w.push(x); } n += 1; if n == 2 { break; } } v = w; }
            _ => { v.clear(); }
        }
        look(&v);
        check!(v.capacity() >= v.len());
    }
    drop(v);
    over::<T>();
}
#[no_mangle] pub fn co_vec_u8() { vec::<u8>(2) }
#[no_mangle] pub fn co_vec_tok() { vec::<Tok>(2) }
#[no_mangle] pub fn co_vec_b3() { vec::<B3>(2) }
#[no_mangle] pub fn co_vec_big() { vec::<Big>(2) }
#[no_mangle] pub fn co_vec_zst() { vec::<Zst>(2) }
#[no_mangle] pub fn co_vec_u8_t() { vec::<u8>(3) }
#[no_mangle] pub fn co_vec_tok_t() { vec::<Tok>(3) }
#[no_mangle] pub fn co_vec_b3_t() { vec::<B3>(3) }
#[no_mangle] pub fn co_vec_big_t() { vec::<Big>(3) }

fn sv<T: Elem, const N: usize>(steps: usize) {
    init();
    let mut v = SmallVec::<T, N>::new();
    let n = sx::choose(4);
    for _ in 0..n { v.push(T::mk(7)); }
    for _ in 0..steps {
        match sx::choose(12) {
            0 => v.push(T::mk(7)),
            1 => { v.pop(); }
            2 => v.reserve(sx::choose(4)),
            3 => v.reserve_exact(sx::choose(4)),
            4 => v.shrink_to_fit(),
            5 => v.move_to_heap(),
            6 => { let _ = v.try_move_to_stack(); }
            7 => { let b = v.into_boxed_slice(); look(&b); v = SmallVec::from(b); }
            8 => { let w = v.into_vec(); look(&w); v = SmallVec::from(w); }
            9 => { let k = sx::choose(v.len() + 1); let w: SmallVec<T, 1> = v.split_off_into(k); look(&w); }
            10 => { let w = v.clone(); look(&w); if sx::bool() { v = w; } }
            _ => { let k = sx::choose(v.len() + 1); v.insert(k, T::mk(7)); if v.len() > 3 { v.remove(k); } }
        }
        look(&v);
        check!(v.capacity() >= v.len());
    }
    drop(v);
    over::<T>();
}
#[no_mangle] pub fn co_sv_u8() { sv::<u8, 2>(2) }
#[no_mangle] pub fn co_sv_tok() { sv::<Tok, 2>(2) }
#[no_mangle] pub fn co_sv_b3() { sv::<B3, 2>(2) }
#[no_mangle] pub fn co_sv_big() { sv::<Big, 2>(2) }
#[no_mangle] pub fn co_sv_zst() { sv::<Zst, 2>(2) }
#[no_mangle] pub fn co_sv_n0() { sv::<Tok, 0>(2) }
#[no_mangle] pub fn co_sv_tok_t() { sv::<Tok, 2>(3) }
#[no_mangle] pub fn co_sv_b3_t() { sv::<B3, 2>(3) }

fn one_box<T: Elem>() {
    let b = Box::new(T::mk(7));
    check!(b.is(7));
    check!(&*b as *const T as usize % std::mem::align_of::<T>() == 0);
    check!(sx::live() == (size_of::<T>() != 0) as usize);
    match sx::choose(3) {
        0 => { let x = b.into_inner(); check!(x.is(7)); check!(sx::live() == 0); }
        1 => { let mut v = Vec::new(); v.push(b); v.push(Box::new(T::mk(7))); let s = v.into_boxed_slice(); check!(s[1].is(7)); }
        _ => drop(b),
    }
    check!(zlive() == 0);
    done();
}
#[no_mangle]
pub fn co_box() {
    init();
    match sx::choose(5) {
        0 => one_box::<u8>(),
        1 => one_box::<Tok>(),
        2 => one_box::<B3>(),
        3 => one_box::<Big>(),
        _ => {
            let b = Box::new(Zst::new());
            if sx::bool() { let _z = b.into_inner(); } else { drop(b) }
            over::<Zst>();
        }
    }
}

#[no_mangle]
pub fn co_string() {
    init();
    let mut s = match sx::choose(3) {
        0 => String::new(),
        1 => String::with_capacity(sx::choose(3)),
        _ => String::from("ab"),
    };
    for _ in 0..2 {
        match sx::choose(8) {
            0 => s.push('x'),
            1 => s.push_str("xyz"),
            2 => { s.pop(); }
            3 => s.reserve(sx::choose(3)),
            4 => s.shrink_to_fit(),
            5 => { let t = s.clone(); s.push_str(&t); }
            6 => { let k = sx::choose(s.len() + 1); let t = s.split_off(k); check!(t.len() + s.len() <= 9); if sx::bool() { s = t; } }
            _ => { s.insert_str(0, "pq"); }
        }
        check!(s.capacity() >= s.len());
    }
    drop(s);
    done();
}

macro_rules! shared {
    ($name:ident, $P:ident, $m:ident, $steps:expr) => {
        #[no_mangle]
        pub fn $name() {
            init();
            fn run<T: Elem>() {
                let mut r: [Option<$P<T>>; 3] = [Some($P::new(T::mk(7))), None, None];
                let mut w: [Option<$m::Weak<T>>; 2] = [None, None];
                for _ in 0..$steps {
                    let i = sx::choose(3);
                    match sx::choose(3) {
                        0 => { let c = match &r[i] { Some(a) => Some(a.clone()), None => None }; if r[(i + 1) % 3].is_none() { r[(i + 1) % 3] = c; } }
                        1 => { if let Some(a) = &r[i] { w[i % 2] = Some($P::downgrade(a)); } }
                        _ => { r[i] = None; }
                    }
                    for x in &r { if let Some(a) = x {
                        check!(a.is(7));
                        check!($P::as_ptr(a) as usize % std::mem::align_of::<T>() == 0);
                    } }
                }
                if sx::bool() { drop(w); drop(r); } else { drop(r); drop(w); }
                check!(zlive() == 0);
                done();
            }
            match sx::choose(4) {
                0 => run::<u8>(),
                1 => run::<Tok>(),
                2 => run::<Big>(),
                _ => run::<Zst>(),
            }
        }
    };
}
shared!(co_rc, Rc, rc, 2);
shared!(co_arc, Arc, arc, 2);
shared!(co_urc, Urc, urc, 2);

/// boxed strings and slices of bytes
#[no_mangle]
pub fn co_from() {
    init();
    let n = sx::choose(4);
    let mut v = Vec::<u8>::with_capacity(n + sx::choose(2));
    for _ in 0..n { v.push(b'a'); }
    let bytes = v.into_boxed_slice();
    check!(bytes.len() == n);
    let v = Vec::from(bytes);
    match String::from_utf8(v) {
        Ok(s) => {
            check!(s.len() == n);
            let mut t = s.clone();
            drop(s);
            t.push('b');
            check!(t.len() == n + 1);
        }
        Err(_) => check!(false),
    }
    done();
}
