//! histories of shared pointers against a reference count model
use crate::env::*;
use crate::{check, sx};
use lokky::{arc, rc};

const FILE: u32 = 4;

pub trait Sh {
    type R;
    type W;
    fn new(t: Tok) -> Self::R;
    fn clone(r: &Self::R) -> Self::R;
    fn down(r: &Self::R) -> Self::W;
    fn strong(r: &Self::R) -> usize;
    fn weak(r: &Self::R) -> usize;
    fn get_mut(r: &mut Self::R) -> Option<&mut Tok>;
    fn unwrap(r: Self::R) -> Result<Tok, Self::R>;
    fn make_mut(r: &mut Self::R) -> &mut Tok;
    fn see(r: &Self::R) -> &Tok;
    fn ptr_eq(a: &Self::R, b: &Self::R) -> bool;
    fn as_ptr(a: &Self::R) -> *const Tok;
    /// weak references of this kind can be cloned and upgraded
    const FOLLOW: bool;
    fn up(w: &Self::W) -> Option<Self::R>;
    fn wclone(w: &Self::W) -> Self::W;
    fn wstrong(w: &Self::W) -> Option<usize>;
    fn wweak(w: &Self::W) -> Option<usize>;
    fn wptr_eq(a: &Self::W, b: &Self::W) -> Option<bool>;
    /// blocks that one shared value takes
    const BLOCKS: usize;
}

pub const NR: usize = 3;
pub const NW: usize = 3;
const NB: usize = 8;

pub struct World<S: Sh> {
    r: [Option<S::R>; NR],
    rb: [usize; NR],
    w: [Option<S::W>; NW],
    wb: [usize; NW],
    val: [u32; NB],
    s: [usize; NB],
    k: [usize; NB],
    n: usize,
}

impl<S: Sh> World<S> {
    /// one value with that many strong and weak references
    pub fn new(strong: usize, weak: usize) -> World<S> {
        let x = sx::u32();
        let mut w = World { r: [None, None, None], rb: [0; NR], w: [None, None, None], wb: [0; NW], val: [0; NB], s: [0; NB], k: [0; NB], n: 1 };
        let r = S::new(Tok::new(x));
        w.val[0] = x;
        for i in 1..strong { w.r[i] = Some(S::clone(&r)); }
        for i in 0..weak { w.w[i] = Some(S::down(&r)); }
        w.r[0] = Some(r);
        w.s[0] = strong;
        w.k[0] = weak;
        w.look();
        w
    }

    /// every reference shows the truth
    pub fn look(&self) {
        let mut blocks = 0;
        let mut toks = 0;
        for b in 0..self.n {
            if self.s[b] > 0 { toks += 1; }
            if self.s[b] + self.k[b] > 0 { blocks += S::BLOCKS; }
        }
        check!(toks_live() == toks);
        check!(sx::live() == blocks);
        for i in 0..NR {
            if let Some(r) = &self.r[i] {
                let b = self.rb[i];
                check!(S::strong(r) == self.s[b]);
                check!(S::weak(r) == self.k[b]);
                let t = S::see(r);
                t.ok();
                check!(t.val == self.val[b]);
                check!(S::as_ptr(r) == t as *const Tok);
                for j in 0..i {
                    if let Some(q) = &self.r[j] { check!(S::ptr_eq(r, q) == (self.rb[j] == b)); }
                }
            }
        }
        for i in 0..NW {
            if let Some(w) = &self.w[i] {
                let b = self.wb[i];
                if let Some(n) = S::wstrong(w) { check!(n == self.s[b]); }
                if let Some(n) = S::wweak(w) { check!(n == self.k[b]); }
                for j in 0..i {
                    if let Some(v) = &self.w[j] {
                        if let Some(e) = S::wptr_eq(w, v) { check!(e == (self.wb[j] == b)); }
                    }
                }
            }
        }
    }

    fn free_r(&self) -> Option<usize> { for i in 0..NR { if self.r[i].is_none() { return Some(i); } } None }
    fn free_w(&self) -> Option<usize> { for i in 0..NW { if self.w[i].is_none() { return Some(i); } } None }

    fn drop_r(&mut self, i: usize) {
        if let Some(r) = self.r[i].take() {
            self.s[self.rb[i]] -= 1;
            drop(r);
        }
    }
    fn drop_w(&mut self, i: usize) {
        if let Some(w) = self.w[i].take() {
            self.k[self.wb[i]] -= 1;
            drop(w);
        }
    }

    /// references to one block are bit-identical: one of them stands for all
    fn rep_r(&self, i: usize) -> bool {
        if self.r[i].is_none() { return false; }
        for j in 0..i { if self.r[j].is_some() && self.rb[j] == self.rb[i] { return false; } }
        true
    }
    fn rep_w(&self, i: usize) -> bool {
        if self.w[i].is_none() { return false; }
        for j in 0..i { if self.w[j].is_some() && self.wb[j] == self.wb[i] { return false; } }
        true
    }
    fn pick_r(&self) -> Option<usize> {
        let mut c = [0; NR];
        let mut n = 0;
        for i in 0..NR { if self.rep_r(i) { c[n] = i; n += 1; } }
        if n == 0 { None } else if n == 1 { Some(c[0]) } else { Some(c[sx::choose(n)]) }
    }
    fn pick_w(&self) -> Option<usize> {
        let mut c = [0; NW];
        let mut n = 0;
        for i in 0..NW { if self.rep_w(i) { c[n] = i; n += 1; } }
        if n == 0 { None } else if n == 1 { Some(c[0]) } else { Some(c[sx::choose(n)]) }
    }

    /// one of clone, downgrade, upgrade, drop, as far as possible here
    pub fn step(&mut self) {
        let r = (0..NR).any(|i| self.r[i].is_some());
        let w = (0..NW).any(|i| self.w[i].is_some());
        let (fr, fw) = (self.free_r(), self.free_w());
        let mut ops = [0u8; 6];
        let mut n = 0;
        if r { ops[n] = 0; n += 1; }
        if w { ops[n] = 1; n += 1; }
        if r && fr.is_some() { ops[n] = 2; n += 1; }
        if r && fw.is_some() { ops[n] = 3; n += 1; }
        if S::FOLLOW && w && fr.is_some() { ops[n] = 4; n += 1; }
        if S::FOLLOW && w && fw.is_some() { ops[n] = 5; n += 1; }
        if n == 0 { return; }
        match ops[sx::choose(n)] {
            0 => if let Some(i) = self.pick_r() { self.drop_r(i); }
            1 => if let Some(i) = self.pick_w() { self.drop_w(i); }
            2 => if let (Some(i), Some(f)) = (self.pick_r(), fr) {
                let c = S::clone(self.r[i].as_ref().unwrap());
                let b = self.rb[i];
                self.s[b] += 1;
                self.r[f] = Some(c);
                self.rb[f] = b;
            }
            3 => if let (Some(i), Some(f)) = (self.pick_r(), fw) {
                let c = S::down(self.r[i].as_ref().unwrap());
                let b = self.rb[i];
                self.k[b] += 1;
                self.w[f] = Some(c);
                self.wb[f] = b;
            }
            4 => if let (Some(i), Some(f)) = (self.pick_w(), fr) {
                let b = self.wb[i];
                match S::up(self.w[i].as_ref().unwrap()) {
                    None => check!(self.s[b] == 0),
                    Some(r) => {
                        check!(self.s[b] > 0);
                        self.s[b] += 1;
                        self.r[f] = Some(r);
                        self.rb[f] = b;
                    }
                }
            }
            _ => if let (Some(i), Some(f)) = (self.pick_w(), fw) {
                let c = S::wclone(self.w[i].as_ref().unwrap());
                let b = self.wb[i];
                self.k[b] += 1;
                self.w[f] = Some(c);
                self.wb[f] = b;
            }
        }
        self.look();
    }

    /// get_mut, try_unwrap, make_mut
    pub fn excl(&mut self) {
        let i = match self.pick_r() { Some(i) => i, None => return };
        let b = self.rb[i];
        let y = sx::u32();
        match sx::choose(3) {
            0 => {
                match S::get_mut(self.r[i].as_mut().unwrap()) {
                    Some(t) => {
                        check!(self.s[b] == 1 && self.k[b] == 0);
                        t.ok();
                        check!(t.val == self.val[b]);
                        t.val = y;
                        self.val[b] = y;
                    }
                    None => check!(self.s[b] != 1 || self.k[b] != 0),
                }
            }
            1 => {
                match S::unwrap(self.r[i].take().unwrap()) {
                    Ok(t) => {
                        check!(self.s[b] == 1);
                        t.ok();
                        check!(t.val == self.val[b]);
                        self.s[b] = 0;
                        // the value is now ours alone
                        let live = toks_live();
                        drop(t);
                        check!(toks_live() == live - 1);
                    }
                    Err(r) => {
                        check!(self.s[b] > 1);
                        self.r[i] = Some(r);
                    }
                }
            }
            _ => {
                let shared = self.s[b] > 1;
                let weak = self.k[b] > 0;
                let made = unsafe { NTOK };
                let t = S::make_mut(self.r[i].as_mut().unwrap());
                t.ok();
                check!(t.val == self.val[b]);
                t.val = y;
                // cloned only if others have it
                check!(unsafe { NTOK } - made == shared as usize);
                if shared || weak {
                    self.s[b] -= 1;
                    let c = self.n;
                    self.n += 1;
                    self.s[c] = 1;
                    self.k[c] = 0;
                    self.val[c] = y;
                    self.rb[i] = c;
                } else {
                    self.val[b] = y;
                }
            }
        }
        self.look();
    }

    /// drop all, in one of several orders
    pub fn end(mut self) {
        let first = sx::choose(2);
        for t in 0..2 {
            if t == first { for i in 0..NR { if self.r[i].is_some() { self.drop_r(i); self.look(); } } }
            else { for i in 0..NW { if self.w[i].is_some() { self.drop_w(i); self.look(); } } }
        }
        done();
    }
}

pub fn hist<S: Sh>(steps: usize) {
    init();
    let s = 1 + sx::choose(2);
    let k = sx::choose(2);
    let mut w = World::<S>::new(s, k);
    for _ in 0..steps { w.step(); }
    w.end();
}

pub fn excl<S: Sh>(before: usize, times: usize, after: usize) {
    init();
    let s = 1 + sx::choose(3);
    let k = sx::choose(3);
    let mut w = World::<S>::new(s, k);
    for _ in 0..before { w.step(); }
    for _ in 0..times { w.excl(); }
    for _ in 0..after { w.step(); }
    w.end();
}

/// Rc
pub struct RcS;
impl Sh for RcS {
    type R = rc::Rc<Tok>;
    type W = rc::Weak<Tok>;
    fn new(t: Tok) -> rc::Rc<Tok> { rc::Rc::new(t) }
    fn clone(r: &rc::Rc<Tok>) -> rc::Rc<Tok> { Clone::clone(r) }
    fn down(r: &rc::Rc<Tok>) -> rc::Weak<Tok> { rc::Rc::downgrade(r) }
    fn strong(r: &rc::Rc<Tok>) -> usize { rc::Rc::strong_count(r) }
    fn weak(r: &rc::Rc<Tok>) -> usize { rc::Rc::weak_count(r) }
    fn get_mut(r: &mut rc::Rc<Tok>) -> Option<&mut Tok> { rc::Rc::get_mut(r) }
    fn unwrap(r: rc::Rc<Tok>) -> Result<Tok, rc::Rc<Tok>> { rc::Rc::try_unwrap(r) }
    fn make_mut(r: &mut rc::Rc<Tok>) -> &mut Tok { rc::Rc::make_mut(r) }
    fn see(r: &rc::Rc<Tok>) -> &Tok { r }
    fn ptr_eq(a: &rc::Rc<Tok>, b: &rc::Rc<Tok>) -> bool { rc::Rc::ptr_eq(a, b) }
    fn as_ptr(a: &rc::Rc<Tok>) -> *const Tok { rc::Rc::as_ptr(a) }
    const FOLLOW: bool = true;
    fn up(w: &rc::Weak<Tok>) -> Option<rc::Rc<Tok>> { w.upgrade() }
    fn wclone(w: &rc::Weak<Tok>) -> rc::Weak<Tok> { w.clone() }
    fn wstrong(w: &rc::Weak<Tok>) -> Option<usize> { Some(w.strong_count()) }
    fn wweak(w: &rc::Weak<Tok>) -> Option<usize> { Some(w.weak_count()) }
    fn wptr_eq(a: &rc::Weak<Tok>, b: &rc::Weak<Tok>) -> Option<bool> { Some(a.ptr_eq(b)) }
    const BLOCKS: usize = 1;
}

/// Arc
pub struct ArcS;
impl Sh for ArcS {
    type R = arc::Arc<Tok>;
    type W = arc::Weak<Tok>;
    fn new(t: Tok) -> arc::Arc<Tok> { arc::Arc::new(t) }
    fn clone(r: &arc::Arc<Tok>) -> arc::Arc<Tok> { Clone::clone(r) }
    fn down(r: &arc::Arc<Tok>) -> arc::Weak<Tok> { arc::Arc::downgrade(r) }
    fn strong(r: &arc::Arc<Tok>) -> usize { arc::Arc::strong_count(r) }
    fn weak(r: &arc::Arc<Tok>) -> usize { arc::Arc::weak_count(r) }
    fn get_mut(r: &mut arc::Arc<Tok>) -> Option<&mut Tok> { arc::Arc::get_mut(r) }
    fn unwrap(r: arc::Arc<Tok>) -> Result<Tok, arc::Arc<Tok>> { arc::Arc::try_unwrap(r) }
    fn make_mut(r: &mut arc::Arc<Tok>) -> &mut Tok { arc::Arc::make_mut(r) }
    fn see(r: &arc::Arc<Tok>) -> &Tok { r }
    fn ptr_eq(a: &arc::Arc<Tok>, b: &arc::Arc<Tok>) -> bool { arc::Arc::ptr_eq(a, b) }
    fn as_ptr(a: &arc::Arc<Tok>) -> *const Tok { arc::Arc::as_ptr(a) }
    const FOLLOW: bool = false;
    fn up(_: &arc::Weak<Tok>) -> Option<arc::Arc<Tok>> { None }
    fn wclone(_: &arc::Weak<Tok>) -> arc::Weak<Tok> { unreachable!() }
    fn wstrong(_: &arc::Weak<Tok>) -> Option<usize> { None }
    fn wweak(_: &arc::Weak<Tok>) -> Option<usize> { None }
    fn wptr_eq(_: &arc::Weak<Tok>, _: &arc::Weak<Tok>) -> Option<bool> { None }
    const BLOCKS: usize = 1;
}

/// one reference is assigned a clone of another, of the same or of another value
#[macro_export]
macro_rules! assign {
    ($name:ident, $P:ident, $strong:expr, $weak:expr, $again:expr, $alive:expr) => {
        #[no_mangle]
        pub fn $name() {
            init();
            let (x, y) = (sx::u32(), sx::u32());
            let mut a = $P::new(Tok::new(x));
            let same = sx::bool();
            let b = if same { $again(&a) } else { $P::new(Tok::new(y)) };
            let v = if same { x } else { y };
            let wa = if sx::bool() { Some($P::downgrade(&a)) } else { None };
            let keep = if sx::bool() { Some(a.clone()) } else { None };
            a.clone_from(&b);
            check!(a.val == v && b.val == v && $P::ptr_eq(&a, &b));
            if same {
                check!(toks_live() == 1);
                if let Some(k) = &keep { check!(k.val == x); }
                if let Some(w) = &wa { check!($alive(w).unwrap_or(true)); }
            } else {
                check!($strong(&a) == 2 && $weak(&a) == 0);
                check!(toks_live() == 1 + keep.is_some() as usize);
                if let Some(k) = &keep { check!(k.val == x && $strong(k) == 1 && $weak(k) == wa.is_some() as usize); }
                if let Some(w) = &wa { check!($alive(w).unwrap_or(keep.is_some()) == keep.is_some()); }
            }
            drop(b);
            check!(a.val == v);
            drop(a);
            if let Some(k) = &keep { check!(k.val == x); }
            drop(keep);
            check!(toks_live() == 0);
            drop(wa);
            done();
        }
    };
}
