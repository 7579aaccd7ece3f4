//! Urc in one thread: references over any number of fences
use crate::env::*;
use crate::{check, sx};
use lokky::scope::{Envelop, ScopeRecv};
use lokky::urc::{Urc, Weak};
use std::mem::MaybeUninit;

const FILE: u32 = 27;

harnesses! { us_hist us_hist_weak us_once us_twice us_mixed us_fence us_make us_types us_self us_any us_default us_assign
    us_hist_t us_hist_weak_t us_mixed_t us_fence_t }

pub struct Recv;
impl<'a> ScopeRecv<'a> for Recv {}

const NR: usize = 4;
const NW: usize = 3;
const NF: usize = 12;

struct World {
    r: [Option<Urc<Tok>>; NR],
    rf: [usize; NR],
    w: [Option<Weak<Tok>>; NW],
    wf: [usize; NW],
    /// of each fence: strong, weak references, master
    s: [usize; NF],
    k: [usize; NF],
    m: [usize; NF],
    nf: usize,
    val: [u32; NF],
    nm: usize,
}

impl World {
    fn new() -> World {
        let x = sx::u32();
        let mut w = World { r: [None, None, None, None], rf: [0; NR], w: [None, None, None], wf: [0; NW],
            s: [0; NF], k: [0; NF], m: [0; NF], nf: 1, val: [0; NF], nm: 1 };
        w.r[0] = Some(Urc::new(Tok::new(x)));
        w.s[0] = 1;
        w.val[0] = x;
        w.look();
        w
    }

    fn strong_fences(&self, m: usize) -> usize {
        let mut n = 0;
        for f in 0..self.nf { if self.m[f] == m && self.s[f] > 0 { n += 1; } }
        n
    }
    fn weak_fences(&self, m: usize) -> usize {
        let mut n = 0;
        for f in 0..self.nf { if self.m[f] == m && self.s[f] == 0 && self.k[f] > 0 { n += 1; } }
        n
    }

    fn look(&self) {
        let mut blocks = 0;
        let mut toks = 0;
        for f in 0..self.nf { if self.s[f] + self.k[f] > 0 { blocks += 1; } }
        for m in 0..self.nm {
            let s = self.strong_fences(m);
            if s > 0 { toks += 1; }
            if s + self.weak_fences(m) > 0 { blocks += 1; }
        }
        check!(toks_live() == toks);
        check!(sx::live() == blocks);
        for i in 0..NR {
            if let Some(r) = &self.r[i] {
                let f = self.rf[i];
                check!(Urc::fence_strong_count(r) == self.s[f]);
                check!(Urc::fence_weak_count(r) == self.k[f]);
                check!(Urc::fence_of(r).is_strong() && !Urc::fence_of(r).is_weak());
                check!(Urc::is_sole_strong_fence(r) == (self.strong_fences(self.m[f]) == 1));
                let t: &Tok = r;
                t.ok();
                check!(t.val == self.val[self.m[f]]);
                check!(Urc::as_ptr(r) == t as *const Tok);
                for j in 0..i {
                    if let Some(q) = &self.r[j] { check!(Urc::ptr_eq(r, q) == (self.m[self.rf[j]] == self.m[f])); }
                }
            }
        }
    }

    fn free_r(&self) -> Option<usize> { for i in 0..NR { if self.r[i].is_none() { return Some(i); } } None }
    fn free_w(&self) -> Option<usize> { for i in 0..NW { if self.w[i].is_none() { return Some(i); } } None }

    fn drop_r(&mut self, i: usize) {
        if let Some(r) = self.r[i].take() {
            self.s[self.rf[i]] -= 1;
            drop(r);
        }
    }
    fn drop_w(&mut self, i: usize) {
        if let Some(w) = self.w[i].take() {
            self.k[self.wf[i]] -= 1;
            drop(w);
        }
    }

    /// references of one fence are bit-identical
    fn pick_r(&self) -> Option<usize> {
        let mut c = [0; NR];
        let mut n = 0;
        for i in 0..NR {
            let mut new = self.r[i].is_some();
            for j in 0..i { if self.r[j].is_some() && self.rf[j] == self.rf[i] { new = false; } }
            if new { c[n] = i; n += 1; }
        }
        if n == 0 { None } else if n == 1 { Some(c[0]) } else { Some(c[sx::choose(n)]) }
    }
    fn pick_w(&self) -> Option<usize> {
        let mut c = [0; NW];
        let mut n = 0;
        for i in 0..NW {
            let mut new = self.w[i].is_some();
            for j in 0..i { if self.w[j].is_some() && self.wf[j] == self.wf[i] { new = false; } }
            if new { c[n] = i; n += 1; }
        }
        if n == 0 { None } else if n == 1 { Some(c[0]) } else { Some(c[sx::choose(n)]) }
    }

    fn clone_r(&mut self) {
        if let (Some(f), Some(i)) = (self.free_r(), self.pick_r()) {
            self.r[f] = self.r[i].clone();
            self.rf[f] = self.rf[i];
            self.s[self.rf[i]] += 1;
        }
    }
    fn down(&mut self) {
        if let (Some(f), Some(i)) = (self.free_w(), self.pick_r()) {
            self.w[f] = Some(Urc::downgrade(self.r[i].as_ref().unwrap()));
            self.wf[f] = self.rf[i];
            self.k[self.rf[i]] += 1;
        }
    }
    /// a reference in a new fence
    fn envelop(&mut self) {
        if let (Some(f), Some(i)) = (self.free_r(), self.pick_r()) {
            let e = self.r[i].as_ref().unwrap().envelop(&Recv);
            let c = self.nf;
            self.nf += 1;
            self.s[c] = 1;
            self.m[c] = self.m[self.rf[i]];
            self.look();
            self.r[f] = Some(Recv.recv(e));
            self.rf[f] = c;
        }
    }
    /// take the fence out of its only reference and make a reference of it again
    fn refence(&mut self) {
        if let Some(i) = self.pick_r() {
            let f = self.rf[i];
            let v = self.val[self.m[f]];
            match Urc::try_into_fence(self.r[i].take().unwrap()) {
                Ok(p) => {
                    check!(self.s[f] == 1 && self.k[f] == 0);
                    check!(p.strong_count() == 1 && p.weak_count() == 0);
                    if sx::bool() {
                        let u = p.into_inner().into_urc();
                        check!(u.val == v);
                        self.r[i] = Some(u);
                    } else {
                        // the fence goes, and its reference with it
                        self.s[f] = 0;
                        drop(p);
                    }
                }
                Err(r) => {
                    check!(self.s[f] != 1 || self.k[f] != 0);
                    self.r[i] = Some(r);
                }
            }
        }
    }

    fn step(&mut self) {
        let r = (0..NR).any(|i| self.r[i].is_some());
        let w = (0..NW).any(|i| self.w[i].is_some());
        if r && w { match sx::choose(5) { 0 => if let Some(i) = self.pick_r() { self.drop_r(i) }, 1 => if let Some(i) = self.pick_w() { self.drop_w(i) }, 2 => self.clone_r(), 3 => self.down(), _ => self.envelop() } }
        else if r { match sx::choose(4) { 0 => if let Some(i) = self.pick_r() { self.drop_r(i) }, 1 => self.clone_r(), 2 => self.down(), _ => self.envelop() } }
        else if w { if let Some(i) = self.pick_w() { self.drop_w(i) } }
        self.look();
    }

    fn excl(&mut self) {
        let i = match self.pick_r() { Some(i) => i, None => return };
        let f = self.rf[i];
        let m = self.m[f];
        let y = sx::u32();
        let sole = self.s[f] == 1 && self.strong_fences(m) == 1;
        let unique = sole && self.k[f] == 0 && self.weak_fences(m) == 0;
        match sx::choose(4) {
            0 => match Urc::get_mut(self.r[i].as_mut().unwrap()) {
                Some(t) => {
                    check!(unique);
                    t.ok();
                    check!(t.val == self.val[m]);
                    t.val = y;
                    self.val[m] = y;
                }
                None => check!(!unique),
            },
            1 => match Urc::try_unwrap(self.r[i].take().unwrap()) {
                Ok(t) => {
                    check!(sole);
                    t.ok();
                    check!(t.val == self.val[m]);
                    self.s[f] = 0;
                    let live = toks_live();
                    drop(t);
                    check!(toks_live() == live - 1);
                }
                Err(r) => {
                    check!(!sole);
                    self.r[i] = Some(r);
                }
            },
            2 => {
                let made = unsafe { NTOK };
                let t = Urc::make_mut(self.r[i].as_mut().unwrap());
                t.ok();
                check!(t.val == self.val[m]);
                t.val = y;
                check!(unsafe { NTOK } - made == !sole as usize);
                if unique { self.val[m] = y; }
                else {
                    self.s[f] -= 1;
                    let (c, d) = (self.nf, self.nm);
                    self.nf += 1;
                    self.nm += 1;
                    self.s[c] = 1;
                    self.m[c] = d;
                    self.val[d] = y;
                    self.rf[i] = c;
                }
            }
            _ => self.refence(),
        }
        self.look();
    }

    fn end(mut self) {
        let first = sx::choose(2);
        for t in 0..2 {
            if t == first { for i in 0..NR { if self.r[i].is_some() { self.drop_r(i); self.look(); } } }
            else { for i in 0..NW { if self.w[i].is_some() { self.drop_w(i); self.look(); } } }
        }
        done();
    }
}

fn hist(steps: usize) {
    init();
    let mut w = World::new();
    for _ in 0..steps { w.step(); }
    w.end();
}

fn config(w: &mut World) {
    // first fence: 1-2 strong, 0-1 weak; second: absent, strong, strong and weak, weak
    if sx::bool() { w.clone_r(); }
    match sx::choose(4) {
        0 => {}
        1 => second(w),
        2 => { second(w); w.wk(1) }
        _ => { second(w); w.wk(1); let i = w.last(); w.drop_r(i) }
    }
    if sx::bool() { w.wk(0); }
    w.look();
}
fn second(w: &mut World) {
    if let Some(f) = w.free_r() {
        let e = w.r[0].as_ref().unwrap().envelop(&Recv);
        w.r[f] = Some(Recv.recv(e));
        w.rf[f] = w.nf;
        w.s[w.nf] = 1;
        w.m[w.nf] = 0;
        w.nf += 1;
    }
}
impl World {
    fn last(&self) -> usize { let mut l = 0; for i in 0..NR { if self.r[i].is_some() { l = i; } } l }
    /// a weak reference to fence f
    fn wk(&mut self, f: usize) {
        if let Some(x) = self.free_w() {
            for i in 0..NR {
                if let Some(r) = &self.r[i] {
                    if self.rf[i] == f {
                        self.w[x] = Some(Urc::downgrade(r));
                        self.wf[x] = f;
                        self.k[f] += 1;
                        return;
                    }
                }
            }
        }
    }
}

fn excl(before: usize, times: usize, after: usize) {
    init();
    let mut w = World::new();
    config(&mut w);
    for _ in 0..before { w.step(); }
    for _ in 0..times { w.excl(); }
    for _ in 0..after { w.step(); }
    w.end();
}

/// histories that start with a weak reference in each of two fences
fn hist_weak(steps: usize) {
    init();
    let mut w = World::new();
    second(&mut w);
    w.wk(0);
    w.wk(1);
    w.look();
    for _ in 0..steps { w.step(); }
    w.end();
}

#[no_mangle] pub fn us_hist() { hist(4) }
#[no_mangle] pub fn us_hist_t() { hist(6) }
#[no_mangle] pub fn us_hist_weak() { hist_weak(3) }
#[no_mangle] pub fn us_hist_weak_t() { hist_weak(5) }
#[no_mangle] pub fn us_once() { excl(0, 1, 1) }
#[no_mangle] pub fn us_twice() { excl(0, 2, 0) }
#[no_mangle] pub fn us_mixed() { excl(1, 1, 0) }
#[no_mangle] pub fn us_mixed_t() { excl(1, 2, 1) }

/// fences taken out and put back, and envelopes, in sequences
fn fence(steps: usize) {
    init();
    let mut w = World::new();
    if sx::bool() { w.wk(0); }
    for _ in 0..steps {
        match sx::choose(4) {
            0 => w.refence(),
            1 => w.envelop(),
            2 => { if let Some(i) = w.pick_r() { w.drop_r(i) } }
            _ => {
                // an envelope nobody opens
                if let Some(i) = w.pick_r() {
                    let e = w.r[i].as_ref().unwrap().envelop(&Recv);
                    drop(e);
                }
            }
        }
        w.look();
    }
    w.end();
}
#[no_mangle] pub fn us_fence() { fence(3) }
#[no_mangle] pub fn us_fence_t() { fence(4) }

#[no_mangle]
pub fn us_make() {
    init();
    let x = sx::u32();
    let a = match sx::choose(4) {
        0 => Urc::new(Tok::new(x)),
        1 => match Urc::try_new(Tok::new(x)) { Ok(a) => a, Err(_) => { check!(false); return } },
        2 => { let p = Urc::pin(Tok::new(x)); check!(p.val == x); drop(p); Urc::new(Tok::new(x)) }
        _ => { let p = match Urc::try_pin(Tok::new(x)) { Ok(a) => a, Err(_) => { check!(false); return } }; let q = p.clone(); drop(p); check!(q.val == x); drop(q); Urc::new(Tok::new(x)) }
    };
    check!(a.val == x && toks_live() == 1);
    check!(Urc::fence_strong_count(&a) == 1 && Urc::fence_weak_count(&a) == 0);
    drop(a);
    let mut u: Urc<MaybeUninit<u64>> = Urc::<u64>::new_uninit();
    match Urc::get_mut(&mut u) { Some(m) => { m.write(7); } None => check!(false) }
    check!(unsafe { u.assume_init_read() } == 7);
    let v = u.clone();
    check!(Urc::get_mut(&mut u).is_none());
    drop(u);
    drop(v);
    done();
}

#[no_mangle]
pub fn us_types() {
    init();
    let k = sx::choose(3);
    let z = Urc::new(Zst::new());
    let w = Urc::downgrade(&z);
    let mut c = [None, None];
    for i in 0..k { c[i] = Some(if sx::bool() { z.clone() } else { Recv.recv(z.envelop(&Recv)) }); }
    drop(z);
    check!(zlive() == (k > 0) as isize);
    if sx::bool() { drop(w); drop(c); } else { drop(c); check!(zlive() == 0); drop(w); }
    check!(zlive() == 0);
    let y = sx::u64();
    let mut b = Urc::new(Big(y));
    check!(Urc::as_ptr(&b) as usize % 32 == 0 && b.0 == y);
    match Urc::get_mut(&mut b) { Some(m) => m.0 = y ^ 1, None => check!(false) }
    let d: Urc<Big> = Recv.recv(b.envelop(&Recv));
    drop(b);
    check!(d.0 == y ^ 1);
    match Urc::try_unwrap(d) { Ok(v) => check!(v.0 == y ^ 1), Err(_) => check!(false) }
    done();
}

/// a value that owns weak references to itself, of one or two fences
struct Node { tok: Tok, me: std::cell::RefCell<[Option<Weak<Node>>; 2]> }
#[no_mangle]
pub fn us_self() {
    init();
    let r = Urc::new(Node { tok: Tok::new(1), me: std::cell::RefCell::new([None, None]) });
    let w = Urc::downgrade(&r);
    r.me.borrow_mut()[0] = Some(w);
    let q: Option<Urc<Node>> = if sx::bool() { Some(Recv.recv(r.envelop(&Recv))) } else { None };
    let two = q.is_some() && sx::bool();
    if two { if let Some(q) = &q { let w = Urc::downgrade(q); r.me.borrow_mut()[1] = Some(w); } }
    let out = if sx::bool() { Some(Urc::downgrade(&r)) } else { None };
    check!(r.tok.val == 1);
    if sx::bool() {
        drop(r);
        if let Some(q) = &q { check!(toks_live() == 1 && q.tok.val == 1); }
        drop(q);
    } else {
        drop(q);
        check!(toks_live() == 1 && r.tok.val == 1);
        if sx::bool() {
            match Urc::try_unwrap(r) {
                Ok(n) => { check!(n.tok.val == 1); check!(sx::live() == 2 + two as usize); drop(n); }
                Err(_) => check!(false),
            }
        } else { drop(r); }
    }
    check!(toks_live() == 0);
    check!(sx::live() == 2 * out.is_some() as usize);
    drop(out);
    done();
}

#[no_mangle]
pub fn us_any() {
    init();
    let x = sx::u32();
    let a = Urc::new(Tok::new(x));
    // moving a reference through an envelope and back keeps one value
    let b: Urc<Tok> = Recv.recv(a.envelop(&Recv));
    let c: Urc<Tok> = Recv.recv(b.envelop(&Recv));
    check!(Urc::ptr_eq(&a, &c) && !Urc::is_sole_strong_fence(&c));
    drop(b);
    let o = sx::bool();
    let l = if o { drop(a); c } else { drop(c); a };
    check!(Urc::is_sole_strong_fence(&l));
    check!(l.val == x && l.as_ref().val == x && std::borrow::Borrow::<Tok>::borrow(&l).val == x);
    match Urc::try_unwrap(l) { Ok(t) => check!(t.val == x), Err(_) => check!(false) }
    done();
}

#[derive(Clone, Default, PartialEq)]
struct D(u32, u64);
#[no_mangle]
pub fn us_default() {
    init();
    let mut a = Urc::<D>::default();
    check!(*a == D(0, 0));
    let b: Urc<D> = if sx::bool() { a.clone() } else { Recv.recv(a.envelop(&Recv)) };
    let v = sx::u32();
    Urc::make_mut(&mut a).0 = v;
    check!(a.0 == v && b.0 == 0);
    drop(b);
    match Urc::try_unwrap(a) { Ok(d) => check!(d.0 == v), Err(_) => check!(false) }
    done();
}

crate::assign!(us_assign, Urc, Urc::fence_strong_count, Urc::fence_weak_count,
    |a: &Urc<Tok>| if sx::bool() { a.clone() } else { Recv.recv(a.envelop(&Recv)) }, |_| None::<bool>);
