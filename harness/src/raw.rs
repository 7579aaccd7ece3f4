//! the scope pointer itself: values and arrays held by hand
use crate::env::*;
use crate::{check, sx};
use lokky::scope::{self, AllocMarker, AllocSelector, Scope};
use lokky::ScopePtr;
use std::alloc::GlobalAlloc;
use std::mem::{ManuallyDrop, MaybeUninit};

const FILE: u32 = 42;

harnesses! { rw_value rw_layouts rw_array rw_array_zst rw_bytes rw_sel rw_array_t }

struct Child;
impl Scope for Child {
    fn alloc_for(&self, _s: AllocSelector) -> &dyn GlobalAlloc { &A[3] }
}

fn mark() -> (AllocMarker, u32) {
    match sx::choose(3) {
        0 => (AllocMarker::None, 0),
        1 => (AllocMarker::new::<MarkA>(), 1),
        _ => (AllocMarker::new::<MarkB>(), 2),
    }
}

/// a value: handed out, dropped, forgotten or released by hand
#[no_mangle]
pub fn rw_value() {
    init();
    let x = sx::u32();
    let (m, mi) = mark();
    let p = match ScopePtr::alloc(Tok::new(x), AllocSelector::with_marker::<Tok>(m)) { Ok(p) => p, Err(_) => { check!(false); return } };
    check!(nalloc() == 1 && unsafe { LAST_OWNER } == mi + 1 && unsafe { LAST_SIZE } == std::mem::size_of::<Tok>());
    check!(mark_of(p.marker()) == mi);
    check!(p.val == x);
    p.ok();
    match sx::choose(6) {
        0 => { let t = p.into_inner(); check!(sx::live() == 0 && t.val == x); t.ok(); drop(t); }
        1 => drop(p),
        2 => {
            // the copy takes over
            let mut q = unsafe { p.clone() };
            p.forget();
            check!(toks_live() == 1 && sx::live() == 1);
            q.val = 9;
            check!(mark_of(q.marker()) == mi);
            drop(q);
        }
        3 => {
            let mut p = ManuallyDrop::new(p);
            unsafe { std::ptr::drop_in_place(&mut **p as *mut Tok) };
            check!(toks_live() == 0 && sx::live() == 1);
            unsafe { p.dealloc() };
        }
        4 => {
            let p: ScopePtr<MaybeUninit<Tok>> = unsafe { p.cast() };
            check!(mark_of(p.marker()) == mi);
            let p: ScopePtr<Tok> = unsafe { p.cast() };
            p.ok();
            check!(p.val == x);
            drop(p);
        }
        _ => {
            let p = unsafe { p.cast_to_slice(1) };
            check!(p.len() == 1 && p[0].val == x && mark_of(p.marker()) == mi);
            drop(p);
        }
    }
    check!(toks_live() == 0);
    done();
}

#[repr(align(64))]
struct Wide([u8; 3]);
struct Odd([u8; 3]);

/// values of any layout
#[no_mangle]
pub fn rw_layouts() {
    init();
    let x = sx::u8();
    macro_rules! one { ($v: expr, $s: expr, $t: ty) => {{
        let p = match ScopePtr::alloc($v, AllocSelector::new::<$t>()) { Ok(p) => p, Err(_) => { check!(false); return } };
        check!(nalloc() == ($s != 0) as usize && ($s == 0 || unsafe { LAST_SIZE } == $s));
        check!(&*p as *const $t as usize % std::mem::align_of::<$t>() == 0);
        if sx::bool() { drop(p); None } else { let v = p.into_inner(); check!(sx::live() == 0); Some(v) }
    }} }
    match sx::choose(5) {
        0 => if let Some(v) = one!(x, 1, u8) { check!(v == x) },
        1 => if let Some(v) = one!(Odd([x, 1, 2]), 3, Odd) { check!(v.0[0] == x && v.0[2] == 2) },
        2 => if let Some(v) = one!(Wide([x, 1, 2]), 64, Wide) { check!(v.0[0] == x && v.0[2] == 2) },
        3 => { drop(one!((), 0, ())); check!(traffic() == 0) }
        _ => { drop(one!(Zst::new(), 0, Zst)); check!(traffic() == 0 && zlive() == 0) }
    }
    done();
}

type Slot = MaybeUninit<Tok>;
fn array(max: usize, steps: usize) {
    init();
    let (m, mi) = mark();
    let mut n = sx::choose(max + 1);
    let sel = AllocSelector::with_marker::<Tok>(m);
    let mut p: ScopePtr<[Slot]> = match ScopePtr::alloc_array_uninit(n, sel) { Ok(p) => p, Err(_) => { check!(false); return } };
    let mut k = n;
    for i in 0..n { p[i] = MaybeUninit::new(Tok::new(i as u32)); }
    for _ in 0..steps {
        check!(p.len() == n && mark_of(p.marker()) == mi);
        check!(sx::live() == (n != 0) as usize);
        let to = sx::choose(max + 1);
        // what does not fit goes first
        while k > to { k -= 1; unsafe { p[k].assume_init_drop() }; }
        let a0 = nalloc();
        let r = if sx::bool() { scope::spawn(|_| Child, |_| unsafe { p.realloc_array(to) }) } else { unsafe { p.realloc_array(to) } };
        check!(r.is_ok());
        check!(nalloc() == a0 + (n == 0 && to != 0) as usize);
        if to != 0 { check!(unsafe { LAST_OWNER } == mi + 1 && unsafe { LAST_SIZE } == to * std::mem::size_of::<Tok>()); }
        n = to;
        check!(p.len() == n);
        for i in 0..k { unsafe { p[i].assume_init_ref().ok(); check!(p[i].assume_init_ref().val == i as u32) }; }
        if sx::bool() { while k < n { p[k] = MaybeUninit::new(Tok::new(k as u32)); k += 1; } }
    }
    // impossible sizes are refused and change nothing
    let r = unsafe { p.realloc_array(usize::MAX / std::mem::size_of::<Tok>() + 1) };
    check!(matches!(r, Err(lokky::ArrayAllocError::CapacityOverflow)));
    check!(p.len() == n);
    check!(ScopePtr::<[Slot]>::alloc_array_uninit(usize::MAX, sel).is_err());
    check!(toks_live() == k);
    if k == n && sx::bool() {
        // all are there: as an array of values
        let p = ManuallyDrop::new(p);
        let q: ScopePtr<[Tok]> = unsafe { p.clone().cast::<Tok>().cast_to_slice(n) };
        check!(q.len() == n);
        for i in 0..n { check!(q[i].val == i as u32); }
        drop(q);
    } else {
        for i in 0..k { unsafe { p[i].assume_init_drop() }; }
        drop(p);
    }
    check!(toks_live() == 0);
    done();
}
#[no_mangle] pub fn rw_array() { array(3, 2) }
#[no_mangle] pub fn rw_array_t() { array(4, 3) }

#[no_mangle]
pub fn rw_array_zst() {
    init();
    let n = sx::choose(4);
    let mut p: ScopePtr<[MaybeUninit<Zst>]> = match ScopePtr::alloc_array_uninit(n, AllocSelector::new::<Zst>()) { Ok(p) => p, Err(_) => { check!(false); return } };
    check!(p.len() == n);
    let to = sx::usize();
    check!(unsafe { p.realloc_array(to) }.is_ok());
    check!(p.len() == to && traffic() == 0);
    check!(unsafe { p.realloc_array(n) }.is_ok());
    drop(p);
    check!(traffic() == 0);
    done();
}

/// part of an array by hand, and text as bytes
#[no_mangle]
pub fn rw_bytes() {
    init();
    let x = sx::u32();
    let (m, mi) = mark();
    if sx::bool() {
        let mut p = match ScopePtr::alloc([x; 3], AllocSelector::with_marker::<u32>(m)) { Ok(p) => unsafe { p.cast::<u32>() }, Err(_) => { check!(false); return } };
        let k = sx::choose(4);
        unsafe {
            check!(p.slice_ref(k).len() == k);
            for i in 0..k { p.slice_mut(k)[i] = i as u32; }
            for i in 0..3 { check!(p.slice_ref(3)[i] == if i < k { i as u32 } else { x }); }
            let p = p.cast_to_slice(3);
            check!(p[0] == if k > 0 { 0 } else { x });
            drop(p);
        }
    } else {
        let n = sx::choose(3);
        let mut b: ScopePtr<[u8]> = match ScopePtr::alloc_array_uninit(n, AllocSelector::with_marker::<u8>(m)) { Ok(b) => b, Err(_) => { check!(false); return } };
        for i in 0..n { b[i] = b'z'; }
        let t: *mut str = std::str::from_utf8_mut(&mut b).unwrap();
        let p = unsafe { ScopePtr::<str>::new(std::ptr::NonNull::new_unchecked(t), &A[mi as usize], m) };
        b.forget();
        let p = p.cast_str_to_bytes();
        check!(p.len() == n && mark_of(p.marker()) == mi);
        for i in 0..n { check!(p[i] == b'z'); }
        drop(p);
    }
    done();
}

/// the selector a pointer was made with can be had again, and a dangling pointer allocates where its model did
#[no_mangle]
pub fn rw_sel() {
    init();
    let (m, mi) = mark();
    let p = match ScopePtr::alloc(7u32, AllocSelector::with_marker::<u32>(m)) { Ok(p) => p, Err(_) => { check!(false); return } };
    let s = p.alloc_selector();
    check!(mark_of(s.marker()) == mi && s.ty() == std::any::type_name::<u32>());
    check!(s == AllocSelector::with_marker::<u32>(m));
    let d = if sx::bool() { unsafe { ScopePtr::<u32>::dangling_in(&p) } } else { unsafe { ScopePtr::<u32>::dangling(&A[mi as usize], m) } };
    check!(mark_of(d.marker()) == mi);
    let t0 = traffic();
    let mut d = unsafe { d.cast_to_slice(0) };
    if sx::bool() { drop(p); } else { check!(p.into_inner() == 7); }
    check!(traffic() == t0 + 1);
    let n = sx::choose(3);
    check!(unsafe { d.realloc_array(n) }.is_ok());
    if n != 0 { check!(unsafe { LAST_OWNER } == mi + 1); for i in 0..n { d[i] = 1; } }
    drop(d);
    check!(traffic() == t0 + 1 + 2 * (n != 0) as usize);
    done();
}
