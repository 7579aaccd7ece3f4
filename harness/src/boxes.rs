//! boxes
use crate::env::*;
use crate::strs::*;
use crate::vecs::*;
use crate::{check, sx};
use lokky::boxed::Box;
use lokky::scope::AllocMarker;
use lokky::string::String;
use lokky::vec::Vec;
use lokky::ScopePtr;
use std::any::Any;
use std::hash::Hasher;
use std::ptr::NonNull;

const FILE: u32 = 23;

harnesses! {
    bx_value bx_types bx_zst bx_mut bx_swap bx_slice bx_slice_iter bx_str bx_iter bx_iter_exact bx_hasher bx_any bx_nested bx_ptr bx_seq
}

#[no_mangle]
pub fn bx_value() {
    init();
    let x = sx::u32();
    let b = if sx::bool() { Box::new(Tok::new(x)) } else { Box::new_with(Tok::new(x), AllocMarker::new::<MarkA>()) };
    check!(b.val == x);
    check!(toks_live() == 1 && sx::live() == 1 && nalloc() == 1);
    if sx::bool() {
        let t = b.into_inner();
        t.ok();
        check!(t.val == x);
        check!(toks_live() == 1 && sx::live() == 0);
        drop(t);
        sx::cover(1);
    } else {
        drop(b);
        sx::cover(2);
    }
    check!(toks_live() == 0);
    check!(nalloc() == 1 && nfree() == 1 && nrealloc() == 0);
    done();
}

/// plain values of several layouts come back bit for bit
#[no_mangle]
pub fn bx_types() {
    init();
    macro_rules! one { ($v:expr) => {{
        let v = $v;
        let b = Box::new(v);
        check!(*b == v);
        check!(&*b as *const _ as usize % std::mem::align_of_val(&v) == 0);
        if sx::bool() { check!(b.into_inner() == v); } else { drop(b); }
    }} }
    match sx::choose(6) {
        0 => one!(sx::u8()),
        1 => one!((sx::u8(), sx::u64(), sx::u16())),
        2 => one!([sx::u16(), sx::u16(), sx::u16()]),
        3 => one!(Big(sx::u64())),
        4 => one!(if sx::bool() { Some(sx::u32()) } else { None }),
        _ => one!([sx::u64(); 5]),
    }
    check!(nalloc() == 1 && nfree() == 1);
    done();
}

#[no_mangle]
pub fn bx_zst() {
    init();
    let b = Box::new(Zst::new());
    check!(zlive() == 1);
    if sx::bool() {
        let z = b.into_inner();
        check!(zlive() == 1);
        drop(z);
    } else {
        drop(b);
    }
    check!(zlive() == 0);
    let b = Box::new_with((), AllocMarker::None);
    b.into_inner();
    drop(Box::new([0u64; 0]));
    check!(traffic() == 0);
    done();
}

/// the boxed value can be replaced in place
#[no_mangle]
pub fn bx_mut() {
    init();
    let (x, y) = (sx::u32(), sx::u32());
    let mut b = Box::new(Tok::new(x));
    match sx::choose(4) {
        0 => *b = Tok::new(y),
        1 => *b.as_mut() = Tok::new(y),
        2 => *std::borrow::BorrowMut::<Tok>::borrow_mut(&mut b) = Tok::new(y),
        _ => { let t = std::mem::replace(&mut *b, Tok::new(y)); check!(t.val == x); }
    }
    check!(toks_live() == 1);
    check!(b.val == y);
    check!(b.as_ref().val == y);
    check!(std::borrow::Borrow::<Tok>::borrow(&b).val == y);
    check!(traffic() == 1);
    drop(b);
    done();
}

#[no_mangle]
pub fn bx_swap() {
    init();
    let (x, y) = (sx::u32(), sx::u32());
    let mut a = Box::new(Tok::new(x));
    let mut b = Box::new(Tok::new(y));
    match sx::choose(3) {
        0 => std::mem::swap(&mut a, &mut b),
        1 => std::mem::swap(&mut *a, &mut *b),
        _ => { a = b; b = Box::new(Tok::new(x)); check!(toks_live() == 2); }
    }
    check!(a.val == y && b.val == x);
    check!(sx::live() == 2);
    drop(a);
    check!(b.val == x && toks_live() == 1);
    drop(b);
    done();
}

/// vector to boxed slice and back, any spare capacity
#[no_mangle]
pub fn bx_slice() {
    init();
    let (v, m) = any_vec(4, 3);
    let mut b = v.into_boxed_slice();
    m.same(&b);
    check!(toks_live() == m.n);
    check!(sx::live() == (m.n > 0) as usize);
    let mut m = m;
    if m.n > 0 {
        let i = sx::choose(m.n);
        let x = sx::u32();
        b[i] = Tok::new(x);
        m.v[i] = x;
        check!(toks_live() == m.n);
    }
    if sx::bool() {
        let mut v = Vec::from(b);
        m.same(&v);
        check!(v.capacity() >= m.n);
        let x = sx::u32();
        v.push(Tok::new(x));
        m.push(x);
        m.same(&v);
        drop(v);
    } else {
        drop(b);
    }
    done();
}

#[no_mangle]
pub fn bx_slice_iter() {
    init();
    let (v, m) = any_vec(3, 2);
    let b = v.into_boxed_slice();
    let mut i = 0;
    for t in Vec::from(b) {
        check!(t.val == m.v[i]);
        i += 1;
        if sx::bool() { break; }
    }
    done();
}

/// boxed strings
#[no_mangle]
pub fn bx_str() {
    init();
    let t = any_text(2);
    let b = boxed_str(&t);
    t.same_str(&b);
    match sx::choose(4) {
        0 => { let v: Box<[u8]> = Box::from(b); t.same_bytes(&v); drop(v); }
        1 => { let v: Vec<u8> = Vec::from(b); t.same_bytes(&v); check!(v.capacity() >= v.len()); drop(v); }
        2 => { let s = String::from(b); t.same(&s); drop(s); }
        _ => drop(b),
    }
    done();
}

struct Count { a: u32, b: u32 }
impl Iterator for Count {
    type Item = u32;
    fn next(&mut self) -> Option<u32> { if self.a < self.b { self.a += 1; Some(self.a - 1) } else { None } }
    fn size_hint(&self) -> (usize, Option<usize>) { ((self.b - self.a) as usize, Some((self.b - self.a) as usize)) }
    // deliberately distinguishable from the default implementations
    fn nth(&mut self, n: usize) -> Option<u32> { self.a += n as u32 + 10; Some(self.a ^ 0x55) }
}
impl DoubleEndedIterator for Count {
    fn next_back(&mut self) -> Option<u32> { if self.a < self.b { self.b -= 1; Some(self.b) } else { None } }
    fn nth_back(&mut self, n: usize) -> Option<u32> { self.b += n as u32 + 20; Some(self.b ^ 0xaa) }
}
impl ExactSizeIterator for Count {
    fn len(&self) -> usize { self.b as usize + 1000 }
}

#[no_mangle]
pub fn bx_iter() {
    init();
    let a = sx::range(0, 1 << 20) as u32;
    let b = a + sx::choose(3) as u32;
    let mut i = Box::new(Count { a, b });
    let mut j = Count { a, b };
    for _ in 0..3 {
        match sx::choose(5) {
            0 => check!(i.next() == j.next()),
            1 => check!(i.next_back() == j.next_back()),
            2 => { let k = sx::choose(3); check!(i.nth(k) == j.nth(k)); }
            3 => { let k = sx::choose(3); check!(i.nth_back(k) == j.nth_back(k)); }
            _ => check!(ExactSizeIterator::len(&i) == ExactSizeIterator::len(&j)),
        }
        if j.a <= j.b { check!(i.size_hint() == j.size_hint()); } else { break; }
        check!(i.a == j.a && i.b == j.b);
    }
    drop(i);
    done();
}

/// an iterator of owned items, driven through the box
#[no_mangle]
pub fn bx_iter_exact() {
    init();
    let (v, m) = any_vec(3, 0);
    let mut it = Box::new(v.into_iter());
    let (mut a, mut b) = (0, m.n);
    let steps = sx::choose(4);
    for _ in 0..steps {
        check!(it.len() == b - a);
        check!(it.size_hint() == (b - a, Some(b - a)));
        if sx::bool() {
            match it.next() { Some(t) => { check!(a < b && t.val == m.v[a]); a += 1; } None => check!(a == b) }
        } else {
            match it.next_back() { Some(t) => { check!(a < b && t.val == m.v[b - 1]); b -= 1; } None => check!(a == b) }
        }
        check!(toks_live() == b - a);
    }
    drop(it);
    done();
}

struct H(u64, u32);
impl Hasher for H {
    fn finish(&self) -> u64 { self.0 ^ 0x77 }
    fn write(&mut self, b: &[u8]) {
        for x in b { self.0 = self.0.wrapping_add(*x as u64) ^ (self.0 << 7); }
        self.1 += 1;
    }
}
#[no_mangle]
pub fn bx_hasher() {
    init();
    let s = sx::u64();
    let mut a = H(s, 0);
    let mut b = Box::new(H(s, 0));
    let n = sx::choose(4);
    let bytes = [sx::u8(), sx::u8(), sx::u8()];
    a.write(&bytes[..n.min(3)]);
    b.write(&bytes[..n.min(3)]);
    a.write(&bytes[..1]);
    Hasher::write(&mut b, &bytes[..1]);
    check!(a.finish() == Hasher::finish(&b));
    check!(a.0 == b.0 && a.1 == b.1);
    drop(b);
    done();
}

/// downcasting a boxed Any: the value or the box, never neither
#[no_mangle]
pub fn bx_any() {
    init();
    let x = sx::u32();
    let b = Box::new(Tok::new(x));
    // the crate has no unsizing: assemble the trait object from the parts of the box
    let b: Box<dyn Any> = unsafe {
        let mut p = std::mem::transmute::<Box<Tok>, ScopePtr<Tok>>(b);
        let t: *mut dyn Any = &mut *p as *mut Tok;
        let d = ScopePtr::<dyn Any>::new(NonNull::new_unchecked(t), &A[0], p.marker());
        p.forget();
        std::mem::transmute::<ScopePtr<dyn Any>, Box<dyn Any>>(d)
    };
    if sx::bool() {
        match b.downcast::<Tok>() {
            Ok(t) => { check!(t.val == x && toks_live() == 1); drop(t); }
            Err(_) => check!(false),
        }
    } else {
        match b.downcast::<u64>() {
            Ok(_) => check!(false),
            Err(b) => {
                check!(toks_live() == 1);
                check!(b.is::<Tok>());
                if sx::bool() { drop(b) } else { match b.downcast::<Tok>() { Ok(t) => check!(t.into_inner().val == x), Err(_) => check!(false) } }
            }
        }
    }
    done();
}

#[no_mangle]
pub fn bx_nested() {
    init();
    let x = sx::u32();
    let b = Box::new(Box::new(Tok::new(x)));
    check!(b.val == x && sx::live() == 2);
    if sx::bool() {
        let b = b.into_inner();
        check!(sx::live() == 1 && b.val == x && toks_live() == 1);
        drop(b);
    } else {
        let mut v = Vec::new();
        v.push(b);
        let s = v.into_boxed_slice();
        check!(s[0].val == x && toks_live() == 1);
        drop(s);
    }
    done();
}

/// the pointer type below the box
#[no_mangle]
pub fn bx_ptr() {
    init();
    let x = sx::u32();
    let p = match ScopePtr::alloc(Tok::new(x), lokky::scope::AllocSelector::new::<Tok>()) { Ok(p) => p, Err(_) => { check!(false); return } };
    check!(p.val == x && toks_live() == 1 && sx::live() == 1);
    match sx::choose(3) {
        0 => { let t = p.into_inner(); check!(t.val == x && sx::live() == 0 && toks_live() == 1); }
        1 => drop(p),
        _ => {
            // a second handle that is forgotten changes nothing
            let q = unsafe { p.clone() };
            check!(q.val == x);
            q.forget();
            check!(toks_live() == 1 && p.val == x);
            drop(p);
        }
    }
    done();
}

/// several boxes, taken apart in any order
#[no_mangle]
pub fn bx_seq() {
    init();
    let x = [sx::u32(), sx::u32(), sx::u32()];
    let mut b = [Some(Box::new(Tok::new(x[0]))), Some(Box::new(Tok::new(x[1]))), Some(Box::new(Tok::new(x[2])))];
    let mut left = 3;
    for _ in 0..2 {
        let i = sx::choose(3);
        match b[i].take() {
            None => {}
            Some(a) => {
                match sx::choose(3) {
                    0 => { drop(a); left -= 1; }
                    1 => { let t = a.into_inner(); check!(t.val == x[i]); check!(sx::live() == left - 1); left -= 1; }
                    _ => { let t = a.into_inner(); b[i] = Some(Box::new(t)); }
                }
            }
        }
        check!(toks_live() == left);
        check!(sx::live() == left);
        for k in 0..3 { if let Some(a) = &b[k] { a.ok(); check!(a.val == x[k]); } }
    }
    drop(b);
    done();
}
