//! Checking environment: allocators that hold lokky to the GlobalAlloc contract, a scope that serves
//! them, element types that track ownership.
use crate::{check, sx};
use lokky::scope::{self, AllocMarker, AllocSelector, Env, Scope};
use std::alloc::{GlobalAlloc, Layout};
use std::mem::MaybeUninit;

const FILE: u32 = 1;

/// largest request the model allocators satisfy (bytes)
pub const LIMIT: usize = 1 << 16;

pub static mut NALLOC: usize = 0;
pub static mut NFREE: usize = 0;
pub static mut NREALLOC: usize = 0;
/// when set every allocation may fail (a symbolic choice per request)
pub static mut MAY_FAIL: bool = false;
pub static mut FAILED: usize = 0;
pub static mut LAST_SIZE: usize = 0;
pub static mut LAST_OWNER: u32 = 0;

pub struct Checker {
    pub id: u32,
}

unsafe impl GlobalAlloc for Checker {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        NALLOC += 1;
        check!(l.size() != 0);
        LAST_SIZE = l.size();
        LAST_OWNER = self.id;
        if l.size() > LIMIT || (MAY_FAIL && sx::bool()) {
            FAILED += 1;
            return std::ptr::null_mut();
        }
        sx::alloc(l.size(), l.align(), self.id)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        NFREE += 1;
        check!(l.size() != 0);
        sx::free(p, l.size(), l.align(), self.id)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        NREALLOC += 1;
        check!(l.size() != 0);
        check!(new != 0);
        // GlobalAlloc: new_size, when rounded up to the alignment, must not overflow isize
        check!(new <= isize::MAX as usize - (l.align() - 1));
        LAST_SIZE = new;
        LAST_OWNER = self.id;
        if new > LIMIT || (MAY_FAIL && sx::bool()) {
            FAILED += 1;
            return std::ptr::null_mut();
        }
        sx::realloc(p, l.size(), l.align(), new, self.id)
    }
}

pub static A: [Checker; 4] = [Checker { id: 1 }, Checker { id: 2 }, Checker { id: 3 }, Checker { id: 4 }];

pub struct MarkA;
pub struct MarkB;

/// 0 no marker, 1 MarkA, 2 MarkB (by name: the addresses of the names may differ between crates)
pub fn mark_of(m: AllocMarker) -> u32 {
    match m {
        AllocMarker::None => 0,
        AllocMarker::Type(s) => {
            let b = s.as_bytes();
            match b[b.len() - 1] { b'A' => 1, b'B' => 2, _ => 0 }
        }
    }
}

/// the last selector the scope was asked with
pub static mut LAST_SEL: Option<AllocSelector> = None;

/// root scope: allocator 1, or 2 for MarkA, 3 for MarkB
pub struct Root;
impl Scope for Root {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        unsafe { LAST_SEL = Some(s) };
        &A[mark_of(s.marker()) as usize]
    }
}

static mut ROOT: Root = Root;
static mut ENV: MaybeUninit<Env> = MaybeUninit::uninit();

pub fn env() -> &'static mut Env {
    unsafe { (*(&raw mut ENV)).assume_init_mut() }
}

pub fn init() {
    unsafe {
        ENV = MaybeUninit::new(Env::new(&mut *(&raw mut ROOT)));
        scope::ENV = Some(env);
    }
}

pub fn nalloc() -> usize { unsafe { NALLOC } }
pub fn nfree() -> usize { unsafe { NFREE } }
pub fn nrealloc() -> usize { unsafe { NREALLOC } }
pub fn traffic() -> usize { unsafe { NALLOC + NFREE + NREALLOC } }
pub fn set_may_fail(b: bool) { unsafe { MAY_FAIL = b } }
pub fn failed() -> usize { unsafe { FAILED } }

// ---------------------------------------------------------------------------------- elements

pub const MAXTOK: usize = 900;
const MAGIC: u16 = 0x5aa5;
pub static mut STATE: [u8; MAXTOK] = [0; MAXTOK];
pub static mut NTOK: usize = 0;
/// when set, dropping / cloning may panic (a symbolic choice at each call)
pub static mut CLONE_PANICS: bool = false;
pub static mut DROP_PANICS: bool = false;
pub static mut PANICKED: usize = 0;
/// dropping / cloning the token created as that one panics, once
pub static mut DROP_AT: usize = usize::MAX;
pub static mut CLONE_AT: usize = usize::MAX;

/// Element that records its own life: every Tok must be dropped exactly once.
pub struct Tok {
    pub val: u32,
    slot: u16,
    magic: u16,
}

impl Tok {
    pub fn new(val: u32) -> Tok {
        unsafe {
            let slot = NTOK;
            check!(slot < MAXTOK);
            NTOK += 1;
            STATE[slot] = 1;
            Tok { val, slot: slot as u16, magic: MAGIC }
        }
    }
    pub fn ok(&self) {
        check!(self.magic == MAGIC);
        check!((self.slot as usize) < MAXTOK);
        unsafe { check!(STATE[self.slot as usize] == 1) };
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.ok();
        unsafe { STATE[self.slot as usize] = 2 };
        if unsafe { DROP_AT } == self.slot as usize { unsafe { DROP_AT = usize::MAX; PANICKED += 1 }; panic!() }
        if unsafe { DROP_PANICS } && sx::bool() {
            unsafe {
                // at most one panic, so that unwinding itself does not abort
                DROP_PANICS = false;
                PANICKED += 1;
            }
            panic!()
        }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        self.ok();
        if unsafe { CLONE_AT } == self.slot as usize { unsafe { CLONE_AT = usize::MAX; PANICKED += 1 }; panic!() }
        if unsafe { CLONE_PANICS } && sx::bool() {
            unsafe { PANICKED += 1 };
            panic!()
        }
        Tok::new(self.val)
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.ok();
        o.ok();
        self.val == o.val
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Tok) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) }
}
impl Ord for Tok {
    fn cmp(&self, o: &Tok) -> std::cmp::Ordering { self.val.cmp(&o.val) }
}
impl std::hash::Hash for Tok {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) { h.write_u32(self.val) }
}

/// tokens created and not yet dropped
pub fn toks_live() -> usize {
    let mut n = 0;
    let mut i = 0;
    unsafe {
        while i < NTOK {
            if STATE[i] == 1 { n += 1; }
            i += 1;
        }
    }
    n
}

/// everything created was dropped once and every block was freed
pub fn done() {
    check!(toks_live() == 0);
    check!(sx::live() == 0);
}

pub static mut ZLIVE: isize = 0;
/// zero-sized element with a destructor
pub struct Zst;
impl Zst {
    pub fn new() -> Zst {
        unsafe { ZLIVE += 1 };
        Zst
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        unsafe {
            check!(ZLIVE > 0);
            ZLIVE -= 1
        }
    }
}
impl Clone for Zst {
    fn clone(&self) -> Zst { Zst::new() }
}
impl PartialEq for Zst {
    fn eq(&self, _o: &Zst) -> bool { true }
}
pub fn zlive() -> isize { unsafe { ZLIVE } }

/// over-aligned element
#[repr(align(32))]
#[derive(Clone, Copy, PartialEq)]
pub struct Big(pub u64);

// ---------------------------------------------------------------------------------- reference model

pub const MAXARR: usize = 24;
/// reference sequence: the specification of every list-like type
#[derive(Clone, Copy)]
pub struct Arr {
    pub v: [u32; MAXARR],
    pub n: usize,
}
impl Arr {
    pub fn new() -> Arr { Arr { v: [0; MAXARR], n: 0 } }
    pub fn push(&mut self, x: u32) {
        self.v[self.n] = x;
        self.n += 1;
    }
    pub fn insert(&mut self, i: usize, x: u32) {
        let mut j = self.n;
        while j > i {
            self.v[j] = self.v[j - 1];
            j -= 1;
        }
        self.v[i] = x;
        self.n += 1;
    }
    pub fn remove(&mut self, i: usize) -> u32 {
        let r = self.v[i];
        let mut j = i;
        while j + 1 < self.n {
            self.v[j] = self.v[j + 1];
            j += 1;
        }
        self.n -= 1;
        r
    }
    pub fn truncate(&mut self, n: usize) {
        if n < self.n { self.n = n; }
    }
    pub fn slice(&self, a: usize, b: usize) -> Arr {
        let mut r = Arr::new();
        let mut i = a;
        while i < b {
            r.push(self.v[i]);
            i += 1;
        }
        r
    }
    pub fn extend(&mut self, o: &Arr) {
        let mut i = 0;
        while i < o.n {
            self.push(o.v[i]);
            i += 1;
        }
    }
    /// the slice holds exactly this sequence, of live elements
    pub fn same(&self, s: &[Tok]) {
        check!(s.len() == self.n);
        let mut i = 0;
        while i < self.n {
            s[i].ok();
            check!(s[i].val == self.v[i]);
            sx::log(9000 + i as u32, s[i].val as u64);
            i += 1;
        }
    }
}
