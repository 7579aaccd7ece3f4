//! what the concurrent scenarios share: a scope and a value that record nothing but what they must
use crate::{check, sx};
use lokky::scope::{self, AllocSelector, Env, Scope};
use std::alloc::{GlobalAlloc, Layout};
use std::mem::MaybeUninit;

pub const FILE: u32 = 32;

pub struct Plain;
unsafe impl GlobalAlloc for Plain {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { sx::alloc(l.size(), l.align(), 1) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { sx::free(p, l.size(), l.align(), 1) }
    unsafe fn realloc(&self, _p: *mut u8, _l: Layout, _new: usize) -> *mut u8 { std::ptr::null_mut() }
}
static PLAIN: Plain = Plain;

pub struct Root;
impl Scope for Root {
    fn alloc_for(&self, _s: AllocSelector) -> &dyn GlobalAlloc { &PLAIN }
}
static mut ROOT: Root = Root;
static mut ENV: MaybeUninit<Env> = MaybeUninit::uninit();

pub fn env() -> &'static mut Env { unsafe { (*(&raw mut ENV)).assume_init_mut() } }

pub fn init() {
    unsafe {
        ENV = MaybeUninit::new(Env::new(&mut *(&raw mut ROOT)));
        scope::ENV = Some(env);
    }
}

pub static mut DROPS: u32 = 0;

/// the shared value; the original reports its own drop
pub struct Val {
    pub v: u32,
    orig: bool,
}
impl Val {
    pub fn new(v: u32) -> Val { Val { v, orig: true } }
    pub fn read(&self) { check!(self.v >= 5 && self.v <= 9); }
}
impl Clone for Val {
    fn clone(&self) -> Val { self.read(); Val { v: self.v, orig: false } }
}
impl Drop for Val {
    fn drop(&mut self) {
        self.read();
        self.v = 0;
        if self.orig { unsafe { DROPS += 1 } }
    }
}
/// after all threads: dropped exactly once
pub fn once() { unsafe { check!(DROPS == 1) } }
