//! Rc: reference counts and lifetime
use crate::env::*;
use crate::shared::*;
use crate::{check, sx};
use lokky::boxed::Box;
use lokky::rc::{Rc, Weak};
use std::cell::RefCell;

const FILE: u32 = 24;

harnesses! { rh_hist rh_self rh_cycle rh_chain rh_null rh_from_box rh_types rh_tree rh_assign rh_weak_assign rh_hist_t }

#[no_mangle] pub fn rh_hist() { hist::<RcS>(5) }
#[no_mangle] pub fn rh_hist_t() { hist::<RcS>(6) }

/// a value that holds weak references to itself, and looks at them while it dies
struct Node {
    tok: Tok,
    me: RefCell<[Option<Weak<Node>>; 2]>,
    next: RefCell<Option<Rc<Node>>>,
}
static mut DIED: usize = 0;
impl Drop for Node {
    fn drop(&mut self) {
        self.tok.ok();
        unsafe { DIED += 1 };
        for w in self.me.borrow().iter().flatten() {
            // no strong reference is left
            check!(w.strong_count() == 0);
            check!(w.upgrade().is_none());
        }
    }
}
impl Node {
    fn new(x: u32) -> Node { Node { tok: Tok::new(x), me: RefCell::new([None, None]), next: RefCell::new(None) } }
}

#[no_mangle]
pub fn rh_self() {
    init();
    let x = sx::u32();
    let r = Rc::new(Node::new(x));
    let k = sx::choose(3);
    for i in 0..k { r.me.borrow_mut()[i] = Some(Rc::downgrade(&r)); }
    check!(Rc::weak_count(&r) == k && Rc::strong_count(&r) == 1);
    let out = if sx::bool() { Some(Rc::downgrade(&r)) } else { None };
    let two = if sx::bool() { Some(r.clone()) } else { None };
    if k > 0 {
        let u = r.me.borrow()[0].as_ref().unwrap().upgrade();
        check!(u.is_some());
        let u = u.unwrap();
        check!(Rc::ptr_eq(&u, &r) && u.tok.val == x);
    }
    drop(r);
    if let Some(t) = two {
        check!(unsafe { DIED } == 0 && toks_live() == 1);
        check!(t.tok.val == x && Rc::strong_count(&t) == 1);
        drop(t);
    }
    check!(unsafe { DIED } == 1 && toks_live() == 0);
    match out {
        None => check!(sx::live() == 0),
        Some(w) => {
            check!(sx::live() == 1);
            check!(w.upgrade().is_none());
            check!(w.weak_count() == 1 && w.strong_count() == 0);
            drop(w);
        }
    }
    done();
}

/// two values referring to each other, one side weakly
#[no_mangle]
pub fn rh_cycle() {
    init();
    let a = Rc::new(Node::new(1));
    let b = Rc::new(Node::new(2));
    *a.next.borrow_mut() = Some(b.clone());
    b.me.borrow_mut()[0] = None;
    let up = Rc::downgrade(&a);
    check!(Rc::strong_count(&b) == 2 && Rc::weak_count(&a) == 1);
    if sx::bool() {
        drop(a);
        check!(unsafe { DIED } == 1 && toks_live() == 1);
        check!(Rc::strong_count(&b) == 1);
        check!(up.upgrade().is_none());
        drop(b);
        check!(unsafe { DIED } == 2);
        drop(up);
    } else {
        drop(b);
        check!(unsafe { DIED } == 0);
        let c = up.upgrade();
        check!(c.is_some());
        drop(up);
        drop(a);
        check!(unsafe { DIED } == 0);
        drop(c);
        check!(unsafe { DIED } == 2);
    }
    done();
}

/// a chain dies from its head
#[no_mangle]
pub fn rh_chain() {
    init();
    let n = 1 + sx::choose(4);
    let keep = sx::choose(n + 1);
    let mut head: Option<Rc<Node>> = None;
    let mut kept = None;
    for i in 0..n {
        let r = Rc::new(Node::new(i as u32));
        *r.next.borrow_mut() = head.take();
        if i == keep { kept = Some(r.clone()); }
        head = Some(r);
    }
    drop(head);
    if let Some(k) = kept {
        check!(toks_live() == keep + 1);
        check!(Rc::strong_count(&k) == 1);
        drop(k);
    }
    check!(unsafe { DIED } == n);
    done();
}

/// weak references that never referred to anything
#[no_mangle]
pub fn rh_null() {
    init();
    let w = if sx::bool() { Weak::<Tok>::new() } else { Weak::default() };
    let v = w.clone();
    for x in [&w, &v] {
        check!(x.upgrade().is_none());
        check!(x.strong_count() == 0 && x.weak_count() == 0);
        check!(x.as_ptr().is_null());
    }
    check!(w.ptr_eq(&v));
    let r = Rc::new(Tok::new(sx::u32()));
    let u = Rc::downgrade(&r);
    check!(!u.ptr_eq(&w) && !w.ptr_eq(&u));
    check!(u.as_ptr() == Rc::as_ptr(&r));
    drop((u, v, w));
    check!(Rc::weak_count(&r) == 0);
    drop(r);
    done();
}

#[no_mangle]
pub fn rh_from_box() {
    init();
    let x = sx::u32();
    let r = Rc::from(Box::new(Tok::new(x)));
    check!(toks_live() == 1 && sx::live() == 1);
    check!(r.val == x && r.as_ref().val == x);
    check!(Rc::strong_count(&r) == 1 && Rc::weak_count(&r) == 0);
    let q = r.clone();
    if sx::bool() { drop(r); check!(q.val == x); drop(q); } else { drop(q); check!(r.val == x); drop(r); }
    done();
}

/// zero-sized and over-aligned values
#[no_mangle]
pub fn rh_types() {
    init();
    let k = sx::choose(3);
    let z = Rc::new(Zst::new());
    let w = Rc::downgrade(&z);
    let mut c = [None, None];
    for i in 0..k { c[i] = Some(z.clone()); }
    drop(z);
    check!(zlive() == (k > 0) as isize);
    check!(w.strong_count() == k && w.upgrade().is_some() == (k > 0));
    drop(c);
    check!(zlive() == 0 && w.upgrade().is_none());
    drop(w);
    let y = sx::u64();
    let b = Rc::new(Big(y));
    check!(Rc::as_ptr(&b) as usize % 32 == 0 && b.0 == y);
    let d = b.clone();
    drop(b);
    check!(d.0 == y);
    drop(d);
    done();
}

/// shared leaves below several owners
#[no_mangle]
pub fn rh_tree() {
    init();
    let leaf = Rc::new(Tok::new(sx::u32()));
    let v = leaf.val;
    let mut owners: [Option<Rc<(Rc<Tok>, Tok)>>; 2] = [None, None];
    for i in 0..2 { owners[i] = Some(Rc::new((leaf.clone(), Tok::new(i as u32)))); }
    let extra = owners[0].clone();
    check!(Rc::strong_count(&leaf) == 3);
    let i = sx::choose(2);
    owners[i] = None;
    check!(Rc::strong_count(&leaf) == if i == 0 { 3 } else { 2 });
    drop(leaf);
    drop(extra);
    match &owners[1 - i] {
        Some(o) => { check!(o.0.val == v); check!(Rc::strong_count(&o.0) == 1); }
        None => check!(false),
    }
    drop(owners);
    done();
}

crate::assign!(rh_assign, Rc, Rc::strong_count, Rc::weak_count, |a: &Rc<Tok>| a.clone(), |w: &Weak<Tok>| Some(w.upgrade().is_some()));

/// a weak reference is assigned a clone of another: of the same value, of another, of none
#[no_mangle]
pub fn rh_weak_assign() {
    init();
    let a = Rc::new(Tok::new(1));
    let b = Rc::new(Tok::new(2));
    let pick = |k: usize| match k { 0 => Rc::downgrade(&a), 1 => Rc::downgrade(&b), _ => Weak::new() };
    let (i, j) = (sx::choose(3), sx::choose(3));
    let (mut v, w) = (pick(i), pick(j));
    let gone = sx::bool();
    let mut a = Some(a);
    if gone { a = None; }
    v.clone_from(&w);
    let want = match j { 0 => if gone { None } else { Some(1) }, 1 => Some(2), _ => None };
    check!(v.upgrade().map(|t| t.val) == want);
    check!(w.upgrade().map(|t| t.val) == want);
    if j < 2 { check!(v.weak_count() == 2); }
    if let Some(a) = &a { check!(Rc::weak_count(a) == if j == 0 { 2 } else { 0 }); }
    check!(Rc::weak_count(&b) == if j == 1 { 2 } else { 0 });
    if sx::bool() { drop(v); drop(a); drop(b); drop(w); } else { drop(b); drop(w); drop(a); drop(v); }
    done();
}
