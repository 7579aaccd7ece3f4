//! Urc with many references in one fence, and over many fences
use crate::env::*;
use crate::many::*;
use crate::shared::Sh;
use crate::{check, sx};
use lokky::scope::{Envelop, ScopeRecv};
use lokky::urc::{Urc, Weak};

const FILE: u32 = 46;

harnesses! { mu_many mu_crowd mu_fences }

struct Recv;
impl<'a> ScopeRecv<'a> for Recv {}

/// references of one fence
pub struct UrcS;
impl Sh for UrcS {
    type R = Urc<Tok>;
    type W = Weak<Tok>;
    fn new(t: Tok) -> Urc<Tok> { Urc::new(t) }
    fn clone(r: &Urc<Tok>) -> Urc<Tok> { Clone::clone(r) }
    fn down(r: &Urc<Tok>) -> Weak<Tok> { Urc::downgrade(r) }
    fn strong(r: &Urc<Tok>) -> usize { Urc::fence_strong_count(r) }
    fn weak(r: &Urc<Tok>) -> usize { Urc::fence_weak_count(r) }
    fn get_mut(r: &mut Urc<Tok>) -> Option<&mut Tok> { Urc::get_mut(r) }
    fn unwrap(r: Urc<Tok>) -> Result<Tok, Urc<Tok>> { Urc::try_unwrap(r) }
    fn make_mut(r: &mut Urc<Tok>) -> &mut Tok { Urc::make_mut(r) }
    fn see(r: &Urc<Tok>) -> &Tok { r }
    fn ptr_eq(a: &Urc<Tok>, b: &Urc<Tok>) -> bool { Urc::ptr_eq(a, b) }
    fn as_ptr(a: &Urc<Tok>) -> *const Tok { Urc::as_ptr(a) }
    const FOLLOW: bool = false;
    fn up(_: &Weak<Tok>) -> Option<Urc<Tok>> { None }
    fn wclone(_: &Weak<Tok>) -> Weak<Tok> { unreachable!() }
    fn wstrong(_: &Weak<Tok>) -> Option<usize> { None }
    fn wweak(_: &Weak<Tok>) -> Option<usize> { None }
    fn wptr_eq(_: &Weak<Tok>, _: &Weak<Tok>) -> Option<bool> { None }
    const BLOCKS: usize = 2;
}

#[no_mangle] pub fn mu_many() { many::<UrcS>() }
#[no_mangle] pub fn mu_crowd() { crowd::<UrcS>() }

/// n fences, some with a weak reference left behind when their strong one goes
#[no_mangle]
pub fn mu_fences() {
    init();
    let x = sx::u32();
    let n = [2, 5, 17, 130, 257][sx::choose(5)];
    let every = [0, 1, 2, 7][sx::choose(4)];
    let mut r: [Option<Urc<Tok>>; M] = [const { None }; M];
    let mut w: [Option<Weak<Tok>>; M] = [const { None }; M];
    let mut weak = 0;
    r[0] = Some(Urc::new(Tok::new(x)));
    for i in 1..n {
        let f = Recv.recv(r[i / 2].as_ref().unwrap().envelop(&Recv));
        check!(!Urc::is_sole_strong_fence(&f) && Urc::fence_strong_count(&f) == 1);
        r[i] = Some(f);
    }
    if every > 0 {
        let mut i = 0;
        while i < n { w[i] = Some(Urc::downgrade(r[i].as_ref().unwrap())); weak += 1; i += every; }
    }
    check!(sx::live() == n + 1);
    let order = sx::choose(4);
    let mut left = 0;
    for i in 0..n - 1 {
        let j = nth(order, n, i);
        drop(r[j].take());
        if w[j].is_some() { left += 1; }
        let last = r[nth(order, n, n - 1)].as_mut().unwrap();
        last.ok();
        check!(Urc::is_sole_strong_fence(last) == (i == n - 2));
        check!(sx::live() == n - i + left);
    }
    let j = nth(order, n, n - 1);
    let mut last = r[j].take().unwrap();
    check!(last.val == x && toks_live() == 1);
    match sx::choose(4) {
        0 => { drop(last); }
        1 => match Urc::try_unwrap(last) { Ok(t) => { check!(t.val == x); drop(t) } Err(_) => check!(false) },
        2 => { check!(Urc::get_mut(&mut last).is_some() == (weak == 0)); drop(last); }
        _ => { check!(Urc::make_mut(&mut last).val == x && unsafe { NTOK } == 1); drop(last); }
    }
    check!(toks_live() == 0);
    check!(sx::live() == weak + (weak > 0) as usize);
    for i in 0..n { drop(w[nth(order, n, i)].take()); }
    done();
}
