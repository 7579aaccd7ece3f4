//! Rc: exclusive access
use crate::env::*;
use crate::shared::*;
use crate::{check, sx};
use lokky::rc::{Rc, Weak};

const FILE: u32 = 25;

harnesses! { rx_once rx_twice rx_mixed rx_zst rx_unwrap_weak rx_self rx_thrice_t rx_mixed_t }

#[no_mangle] pub fn rx_once() { excl::<RcS>(0, 1, 1) }
#[no_mangle] pub fn rx_twice() { excl::<RcS>(0, 3, 0) }
#[no_mangle] pub fn rx_mixed() { excl::<RcS>(1, 1, 1) }
#[no_mangle] pub fn rx_thrice_t() { excl::<RcS>(1, 2, 1) }
#[no_mangle] pub fn rx_mixed_t() { excl::<RcS>(2, 1, 1) }

#[no_mangle]
pub fn rx_zst() {
    init();
    let mut r = Rc::new(Zst::new());
    let s = if sx::bool() { Some(r.clone()) } else { None };
    let w = if sx::bool() { Some(Rc::downgrade(&r)) } else { None };
    check!(Rc::get_mut(&mut r).is_some() == (s.is_none() && w.is_none()));
    if sx::bool() {
        Rc::make_mut(&mut r);
        check!(zlive() == 1 + s.is_some() as isize);
        if let Some(w) = &w { check!(w.upgrade().is_some() == s.is_some()); }
        check!(Rc::strong_count(&r) == 1 && Rc::weak_count(&r) == 0);
        check!(Rc::get_mut(&mut r).is_some());
    }
    match Rc::try_unwrap(r) {
        Ok(z) => drop(z),
        Err(r) => { check!(s.is_some()); drop(r); }
    }
    drop(s);
    check!(zlive() == 0);
    drop(w);
    done();
}

/// the weak reference left behind can still be used and dropped
#[no_mangle]
pub fn rx_unwrap_weak() {
    init();
    let x = sx::u32();
    let r = Rc::new(Tok::new(x));
    let w = Rc::downgrade(&r);
    let v = w.clone();
    match Rc::try_unwrap(r) {
        Ok(t) => {
            check!(t.val == x);
            check!(w.upgrade().is_none() && v.strong_count() == 0 && v.weak_count() == 2);
            check!(sx::live() == 1);
            if sx::bool() { drop(t); drop(w); check!(sx::live() == 1); drop(v); }
            else { drop(v); let u = w.clone(); drop(w); check!(u.upgrade().is_none()); drop(u); check!(sx::live() == 0); t.ok(); drop(t); }
        }
        Err(_) => check!(false),
    }
    done();
}

/// a value that refers weakly to itself is taken out of its box
struct Own { tok: Tok, me: Option<Weak<std::cell::RefCell<Own>>> }
#[no_mangle]
pub fn rx_self() {
    init();
    let x = sx::u32();
    let r = Rc::new(std::cell::RefCell::new(Own { tok: Tok::new(x), me: None }));
    r.borrow_mut().me = Some(Rc::downgrade(&r));
    match Rc::try_unwrap(r) {
        Ok(c) => {
            let o = c.into_inner();
            check!(o.tok.val == x);
            check!(sx::live() == 1);
            check!(o.me.as_ref().unwrap().upgrade().is_none());
            drop(o);
        }
        Err(_) => check!(false),
    }
    done();
}
