//! Arc in one thread
use crate::env::*;
use crate::shared::*;
use crate::{check, sx};
use lokky::arc::{Arc, Weak};
use std::mem::MaybeUninit;

const FILE: u32 = 26;

harnesses! { as_hist as_once as_twice as_mixed as_make as_types as_self as_envelop as_default as_assign as_hist_t as_thrice_t }

type A = ArcS;

#[no_mangle] pub fn as_hist() { hist::<A>(5) }
#[no_mangle] pub fn as_hist_t() { hist::<A>(7) }
#[no_mangle] pub fn as_once() { excl::<A>(0, 1, 1) }
#[no_mangle] pub fn as_twice() { excl::<A>(0, 3, 0) }
#[no_mangle] pub fn as_mixed() { excl::<A>(1, 1, 0) }
#[no_mangle] pub fn as_thrice_t() { excl::<A>(1, 2, 1) }

#[no_mangle]
pub fn as_make() {
    init();
    let x = sx::u32();
    let a = match sx::choose(4) {
        0 => Arc::new(Tok::new(x)),
        1 => match Arc::try_new(Tok::new(x)) { Ok(a) => a, Err(_) => { check!(false); return } },
        2 => { let p = Arc::pin(Tok::new(x)); check!(p.val == x); drop(p); Arc::new(Tok::new(x)) }
        _ => { let p = match Arc::try_pin(Tok::new(x)) { Ok(a) => a, Err(_) => { check!(false); return } }; let q = p.clone(); drop(p); check!(q.val == x); drop(q); Arc::new(Tok::new(x)) }
    };
    check!(a.val == x && toks_live() == 1);
    check!(Arc::strong_count(&a) == 1 && Arc::weak_count(&a) == 0);
    drop(a);
    let mut u: Arc<MaybeUninit<u64>> = Arc::new_uninit();
    match Arc::get_mut(&mut u) { Some(m) => { m.write(7); } None => check!(false) }
    check!(unsafe { u.assume_init_read() } == 7);
    let v = u.clone();
    check!(Arc::get_mut(&mut u).is_none());
    drop(u);
    drop(v);
    done();
}

#[no_mangle]
pub fn as_types() {
    init();
    let k = sx::choose(3);
    let z = Arc::new(Zst::new());
    let w = Arc::downgrade(&z);
    let mut c = [None, None];
    for i in 0..k { c[i] = Some(z.clone()); }
    drop(z);
    check!(zlive() == (k > 0) as isize);
    if sx::bool() { drop(w); drop(c); } else { drop(c); check!(zlive() == 0); drop(w); }
    check!(zlive() == 0);
    let y = sx::u64();
    let b = Arc::new(Big(y));
    check!(Arc::as_ptr(&b) as usize % 32 == 0 && b.0 == y);
    drop(b);
    done();
}

/// a value that owns a weak reference to itself
struct Node { tok: Tok, me: std::cell::RefCell<Option<Weak<Node>>> }
#[no_mangle]
pub fn as_self() {
    init();
    let r = Arc::new(Node { tok: Tok::new(1), me: std::cell::RefCell::new(None) });
    let w = Arc::downgrade(&r);
    *r.me.borrow_mut() = Some(w);
    let out = if sx::bool() { Some(Arc::downgrade(&r)) } else { None };
    check!(r.tok.val == 1);
    drop(r);
    check!(toks_live() == 0);
    check!(sx::live() == out.is_some() as usize);
    drop(out);
    done();
}

struct Recv;
impl<'a> lokky::scope::ScopeRecv<'a> for Recv {}

/// an enveloped reference counts like any other
#[no_mangle]
pub fn as_envelop() {
    use lokky::scope::{Envelop, ScopeRecv};
    init();
    let x = sx::u32();
    let a = Arc::new(Tok::new(x));
    let e = a.envelop(&Recv);
    check!(Arc::strong_count(&a) == 2);
    match sx::choose(3) {
        0 => drop(e),
        1 => { let b: Arc<Tok> = Recv.recv(e); check!(b.val == x && Arc::ptr_eq(&a, &b)); drop(b); }
        _ => { let b: Arc<Tok> = Recv.recv(e); drop(a); check!(Arc::strong_count(&b) == 1 && b.val == x); drop(b); done(); return; }
    }
    check!(Arc::strong_count(&a) == 1);
    drop(a);
    done();
}

#[derive(Clone, Default, PartialEq)]
struct D(u32, u64);
#[no_mangle]
pub fn as_default() {
    init();
    let mut a = Arc::<D>::default();
    check!(*a == D(0, 0));
    let b = a.clone();
    let v = sx::u32();
    Arc::make_mut(&mut a).0 = v;
    check!(a.0 == v && b.0 == 0);
    check!(a.as_ref().0 == v);
    check!(std::borrow::Borrow::<D>::borrow(&b).1 == 0);
    drop(b);
    match Arc::try_unwrap(a) { Ok(d) => check!(d.0 == v), Err(_) => check!(false) }
    done();
}

crate::assign!(as_assign, Arc, Arc::strong_count, Arc::weak_count, |a: &Arc<Tok>| a.clone(), |_| None::<bool>);
