//! Interface to the symbolic executor.  In the IR that is executed symbolically these functions are
//! external and implemented by engine/rt.py; in the replay binary they are implemented natively.

extern "C" {
    fn sx_u8() -> u8;
    fn sx_u16() -> u16;
    fn sx_u32() -> u32;
    fn sx_u64() -> u64;
    fn sx_bool() -> bool;
    fn sx_range(lo: u64, hi: u64) -> u64;
    fn sx_choose(n: u64) -> u64;
    fn sx_conc(v: u64) -> u64;
    fn sx_assume(c: bool);
    fn sx_log(tag: u32, v: u64);
    fn sx_cover(i: u32);
    fn sx_alloc(size: usize, align: usize, owner: u32) -> *mut u8;
    fn sx_free(p: *mut u8, size: usize, align: usize, owner: u32);
    fn sx_realloc(p: *mut u8, old: usize, align: usize, new: usize, owner: u32) -> *mut u8;
    fn sx_live() -> u64;
}
extern "C-unwind" {
    fn sx_assert(c: bool, id: u32);
    fn sx_try(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> bool;
}

/// an arbitrary value of the type
pub fn u8() -> u8 { unsafe { sx_u8() } }
pub fn u16() -> u16 { unsafe { sx_u16() } }
pub fn u32() -> u32 { unsafe { sx_u32() } }
pub fn u64() -> u64 { unsafe { sx_u64() } }
pub fn usize() -> usize { unsafe { sx_u64() as usize } }
pub fn bool() -> bool { unsafe { sx_bool() } }
/// an arbitrary symbolic value in lo..=hi
pub fn range(lo: usize, hi: usize) -> usize { unsafe { sx_range(lo as u64, hi as u64) as usize } }
/// an arbitrary value in 0..n, one execution path per value
pub fn choose(n: usize) -> usize { unsafe { sx_choose(n as u64) as usize } }
/// one path per value
pub fn conc(v: usize) -> usize { unsafe { sx_conc(v as u64) as usize } }
pub fn assume(c: bool) { unsafe { sx_assume(c) } }
/// observable value, compared between the symbolic and the native execution of the same inputs
pub fn log(tag: u32, v: u64) { unsafe { sx_log(tag, v) } }
/// reachability witness: the check fails (as an error) unless some path gets here
pub fn cover(i: u32) { unsafe { sx_cover(i) } }
pub fn alloc(size: usize, align: usize, owner: u32) -> *mut u8 { unsafe { sx_alloc(size, align, owner) } }
pub fn free(p: *mut u8, size: usize, align: usize, owner: u32) { unsafe { sx_free(p, size, align, owner) } }
pub fn realloc(p: *mut u8, old: usize, align: usize, new: usize, owner: u32) -> *mut u8 {
    unsafe { sx_realloc(p, old, align, new, owner) }
}
/// blocks currently allocated
pub fn live() -> usize { unsafe { sx_live() as usize } }
pub fn assert_id(c: bool, id: u32) { unsafe { sx_assert(c, id) } }

extern "C-unwind" fn tramp<F: FnOnce() -> R, R>(p: *mut u8) {
    unsafe {
        let s = &mut *(p as *mut (Option<F>, Option<R>));
        let f = match s.0.take() { Some(f) => f, None => return };
        s.1 = Some(f());
    }
}

/// run f; None when it panicked
pub fn catch<R, F: FnOnce() -> R>(f: F) -> Option<R> {
    let mut s: (Option<F>, Option<R>) = (Some(f), None);
    let ok = unsafe { sx_try(tramp::<F, R>, &mut s as *mut _ as *mut u8) };
    if ok { s.1 } else { None }
}

/// assert that must hold for every value; the id encodes file and line
#[macro_export]
macro_rules! check {
    ($c:expr) => {
        $crate::sx::assert_id($c, FILE << 16 | line!())
    };
}
