//! which allocator serves a container, and which selector the scope is asked with
use crate::env::*;
use crate::{check, sx};
use lokky::arc::Arc;
use lokky::boxed::Box;
use lokky::rc::Rc;
use lokky::scope::{self, AllocMarker, AllocSelector, Scope};
use lokky::small_vec::SmallVec;
use lokky::string::String;
use lokky::urc::Urc;
use lokky::vec::Vec;
use std::alloc::GlobalAlloc;

const FILE: u32 = 17;

harnesses! {
    se_vec se_sv se_string se_box se_shared se_convert se_sv_back se_plain se_markers
    se_append se_edit se_sv_from se_sv_append
}

/// a scope served by allocator 4 for everything
struct Child;
impl Scope for Child {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        unsafe { LAST_SEL = Some(s) };
        &A[3]
    }
}

/// run f, in a nested scope when nested
fn within(nested: bool, mut f: impl FnMut()) {
    if nested {
        scope::spawn(|_| Child, |_| f());
    } else {
        f();
    }
}

fn mark() -> (AllocMarker, u32) {
    match sx::choose(3) {
        0 => (AllocMarker::None, 0),
        1 => (AllocMarker::new::<MarkA>(), 1),
        _ => (AllocMarker::new::<MarkB>(), 2),
    }
}

fn ask() { unsafe { LAST_SEL = None } }
/// the scope was asked for this type with this marker
fn asked<T>(m: u32) {
    match unsafe { LAST_SEL } {
        None => check!(false),
        Some(s) => {
            check!(mark_of(s.marker()) == m);
            check!(matches!(s.marker(), AllocMarker::None) == (m == 0));
            check!(s.ty() == std::any::type_name::<T>());
        }
    }
}
fn not_asked() { check!(unsafe { LAST_SEL }.is_none()) }

/// requests since `before` went to allocator `o`
fn served(before: usize, o: u32) {
    if traffic() != before && unsafe { LAST_SIZE } != 0 { check!(unsafe { LAST_OWNER } == o); }
}

/// created here (or in a nested scope), grown and dropped there (or here)
#[no_mangle]
pub fn se_vec() {
    init();
    let (m, mi) = mark();
    let here = sx::bool();
    let mut v: Option<Vec<Tok>> = None;
    let kind = sx::choose(3);
    ask();
    within(here, || {
        v = Some(match kind {
            0 => Vec::with_marker(m),
            1 => Vec::with_capacity_and_marker(1, m),
            _ => match Vec::try_with_capacity_and_marker(2, m) { Ok(v) => v, Err(_) => { check!(false); return } },
        });
    });
    let o = if here { 4 } else { mi + 1 };
    asked::<Tok>(mi);
    ask();
    let mut v = v.unwrap();
    check!(mark_of(v.marker()) == mi);
    let t0 = traffic();
    let there = sx::bool();
    within(there, || {
        match sx::choose(5) {
            0 => { for i in 0..5 { v.push(Tok::new(i)); } }
            1 => v.reserve(3),
            2 => v.reserve_exact(3),
            3 => v.extend((0..3).map(Tok::new)),
            _ => v.resize(3, Tok::new(1)),
        }
        served(t0, o);
        check!(mark_of(v.marker()) == mi);
        v.shrink_to(2);
        served(t0, o);
    });
    not_asked();
    check!(traffic() > t0);
    check!(unsafe { LAST_OWNER } == o);
    if sx::bool() { within(true, || v.truncate(0)); }
    // whoever drops it, the block goes back to its allocator (checked at every free)
    let mut v = Some(v);
    within(sx::bool(), || drop(v.take()));
    done();
}
trait Ext { fn extend(&mut self, i: impl Iterator<Item = Tok>); }
impl Ext for Vec<Tok> { fn extend(&mut self, i: impl Iterator<Item = Tok>) { self.extend_from_iter(i) } }

#[no_mangle]
pub fn se_sv() {
    init();
    let (m, mi) = mark();
    ask();
    let mut v = match sx::choose(3) {
        0 => SmallVec::<Tok, 2>::with_marker(m),
        1 => SmallVec::with_capacity_and_marker(2, m),
        _ => SmallVec::with_capacity_and_marker(3, m),
    };
    let heap = v.is_heap();
    if heap { asked::<Tok>(mi); } else { not_asked(); }
    ask();
    let t0 = traffic();
    let there = sx::bool();
    // selected when the elements first need the heap
    let o = if !heap && there { 4 } else { mi + 1 };
    let k = sx::choose(5) as u32;
    let op = sx::choose(4);
    within(there, || {
        match op {
            0 => { for i in 0..k { v.push(Tok::new(i)); } }
            1 => v.reserve(k as usize),
            2 => v.resize(k as usize, Tok::new(1)),
            _ => { for i in 0..k { v.insert(0, Tok::new(i)); } }
        }
        served(t0, o);
    });
    if !heap && v.is_heap() { asked::<Tok>(mi); } else { not_asked(); }
    check!(v.is_stack() == (traffic() == t0 && !heap));
    let was = v.is_heap();
    let w = v.into_vec();
    if was { check!(mark_of(w.marker()) == mi); }
    drop(w);
    done();
}

/// back to the stack and to the heap again
#[no_mangle]
pub fn se_sv_back() {
    init();
    let (m, mi) = mark();
    let mut v = SmallVec::<Tok, 2>::with_marker(m);
    let n = sx::choose(3);
    for i in 0..n { v.push(Tok::new(i as u32)); }
    let rounds = 1 + sx::choose(2);
    for _ in 0..rounds {
        ask();
        let inner = sx::bool();
        within(inner, || v.move_to_heap());
        asked::<Tok>(mi);
        check!(unsafe { LAST_OWNER } == if inner { 4 } else { mi + 1 });
        check!(v.try_move_to_stack().is_ok());
    }
    ask();
    let v = v.into_vec();
    asked::<Tok>(mi);
    check!(mark_of(v.marker()) == mi);
    check!(unsafe { LAST_OWNER } == mi + 1);
    drop(v);
    done();
}

#[no_mangle]
pub fn se_string() {
    init();
    let (m, mi) = mark();
    let here = sx::bool();
    let kind = sx::choose(3);
    let mut s: Option<String> = None;
    ask();
    within(here, || {
        s = Some(match kind {
            0 => String::with_marker(m),
            1 => String::with_capacity_and_marker(2, m),
            _ => match String::try_with_capacity_and_marker(2, m) { Ok(v) => v, Err(_) => { check!(false); return } },
        });
    });
    asked::<u8>(mi);
    let o = if here { 4 } else { mi + 1 };
    ask();
    let mut s = s.unwrap();
    check!(mark_of(s.as_mut_vec().marker()) == mi);
    let t0 = traffic();
    within(sx::bool(), || {
        match sx::choose(3) {
            0 => s.push_str("hello world"),
            1 => { for _ in 0..5 { s.push('\u{e9}'); } }
            _ => s.reserve(40),
        }
        served(t0, o);
    });
    not_asked();
    check!(traffic() > t0);
    check!(unsafe { LAST_OWNER } == o);
    drop(s);
    done();
}

#[no_mangle]
pub fn se_box() {
    init();
    let (m, mi) = mark();
    let here = sx::bool();
    let plain = sx::bool();
    let mut b: Option<Box<Tok>> = None;
    ask();
    within(here, || b = Some(if plain { Box::new(Tok::new(1)) } else { Box::new_with(Tok::new(1), m) }));
    let mi = if plain { 0 } else { mi };
    asked::<Tok>(mi);
    check!(unsafe { LAST_OWNER } == if here { 4 } else { mi + 1 });
    within(sx::bool(), || {
        let b = b.take().unwrap();
        if sx::bool() { drop(b) } else { drop(b.into_inner()) }
    });
    done();
}

/// the storage, its allocator and its marker survive conversions
#[no_mangle]
pub fn se_convert() {
    init();
    let (m, mi) = mark();
    let n = sx::choose(3);
    let mut v = Vec::<Tok>::with_capacity_and_marker(n + sx::choose(2), m);
    for i in 0..n { v.push(Tok::new(i as u32)); }
    ask();
    let t0 = traffic();
    within(true, || {
        let w = std::mem::replace(&mut v, Vec::new());
        ask();
        let mut w = match sx::choose(3) {
            0 => { let b = w.into_boxed_slice(); check!(b.len() == n); Vec::from(b) }
            1 => SmallVec::<Tok, 4>::from(w).into_vec(),
            _ => { let s = SmallVec::<Tok, 4>::from(w); let b = s.into_boxed_slice(); SmallVec::<Tok, 1>::from(b).into_vec() }
        };
        not_asked();
        check!(mark_of(w.marker()) == mi);
        for i in 0..5 { w.push(Tok::new(i)); }
        served(t0, mi + 1);
        check!(unsafe { LAST_OWNER } == mi + 1);
        check!(mark_of(w.marker()) == mi);
        v = w;
    });
    drop(v);
    done();
}

/// shared pointers: no marker; wherever the last owner goes, the memory returns to its allocator
#[no_mangle]
pub fn se_shared() {
    init();
    let here = sx::bool();
    let kind = sx::choose(3);
    let mut r: (Option<Rc<Tok>>, Option<Arc<Tok>>, Option<Urc<Tok>>) = (None, None, None);
    ask();
    within(here, || match kind {
        0 => r.0 = Some(Rc::new(Tok::new(1))),
        1 => r.1 = Some(Arc::new(Tok::new(1))),
        _ => r.2 = Some(Urc::new(Tok::new(1))),
    });
    match unsafe { LAST_SEL } {
        None => check!(false),
        Some(s) => check!(matches!(s.marker(), AllocMarker::None)),
    }
    check!(unsafe { LAST_OWNER } == if here { 4 } else { 1 });
    let keep = sx::bool();
    let mut w = (None, None, None);
    if keep {
        within(sx::bool(), || match kind {
            0 => w.0 = Some(Rc::downgrade(r.0.as_ref().unwrap())),
            1 => w.1 = Some(Arc::downgrade(r.1.as_ref().unwrap())),
            _ => w.2 = Some(Urc::downgrade(r.2.as_ref().unwrap())),
        });
    }
    within(sx::bool(), || { r.0 = None; r.1 = None; r.2 = None; });
    check!(toks_live() == 0);
    within(sx::bool(), || { w.0 = None; w.1 = None; w.2 = None; });
    done();
}

/// created without a marker: selected with none
#[no_mangle]
pub fn se_plain() {
    init();
    ask();
    match sx::choose(9) {
        0 => { let v = Vec::<Tok>::new(); asked::<Tok>(0); check!(mark_of(v.marker()) == 0); }
        1 => { let v = Vec::<Tok>::with_capacity(2); asked::<Tok>(0); check!(mark_of(v.marker()) == 0); }
        2 => { let v = Vec::from([Tok::new(1)]); asked::<Tok>(0); check!(v.len() == 1); }
        3 => { let v: Vec<Tok> = (0..2).map(Tok::new).collect2(); asked::<Tok>(0); check!(v.len() == 2); }
        4 => { let v = SmallVec::<Tok, 1>::with_capacity(2); asked::<Tok>(0); check!(v.is_heap()); }
        5 => { let mut v = SmallVec::<Tok, 1>::new(); v.move_to_heap(); asked::<Tok>(0); }
        6 => { let s = String::from("xy"); asked::<u8>(0); check!(s.len() == 2); }
        7 => { let s = String::with_capacity(3); asked::<u8>(0); check!(s.len() == 0); }
        _ => { let v = Vec::<Tok>::default(); asked::<Tok>(0); check!(v.len() == 0); }
    }
    check!(traffic() == 0 || unsafe { LAST_OWNER } == 1);
    done();
}
trait Coll { fn collect2(self) -> Vec<Tok>; }
impl<I: Iterator<Item = Tok>> Coll for I { fn collect2(self) -> Vec<Tok> { self.collect() } }

/// markers and selectors are values: copies are equal, different ones are not
#[no_mangle]
pub fn se_markers() {
    init();
    let (m, mi) = mark();
    let (k, ki) = mark();
    let c = m;
    check!(c == m);
    if mi != ki { check!(m != k); }
    check!(mark_of(c) == mi);
    let s = AllocSelector::with_marker::<Tok>(m);
    check!(mark_of(s.marker()) == mi);
    check!(s.ty() == std::any::type_name::<Tok>());
    let t = s;
    check!(s == t);
    check!(AllocSelector::with_marker::<Tok>(k) == s || mi != ki || mi != 0);
    if mi != ki { check!(AllocSelector::with_marker::<Tok>(k) != s); }
    check!(AllocSelector::with_marker::<Zst>(m) != s);
    check!(matches!(AllocSelector::new::<Tok>().marker(), AllocMarker::None));
    check!(matches!(AllocMarker::default(), AllocMarker::None));
    check!(hash_of(&s) == hash_of(&t) && hash_of(&m) == hash_of(&c));
    let (u, v) = (AllocSelector::with_marker::<Zst>(k), AllocSelector::new::<Zst>());
    check!(u != v || hash_of(&u) == hash_of(&v));
    check!(u == v || ki != 0);
}
/// what a value feeds to a hasher
struct Rec(u64);
impl std::hash::Hasher for Rec {
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64 + 1); } }
    fn finish(&self) -> u64 { self.0 }
}
fn hash_of<T: std::hash::Hash>(v: &T) -> u64 { use std::hash::Hasher; let mut h = Rec(7); v.hash(&mut h); h.finish() }

fn pick(k: usize) -> AllocMarker {
    match k { 0 => AllocMarker::None, 1 => AllocMarker::new::<MarkA>(), _ => AllocMarker::new::<MarkB>() }
}

/// two vectors of different allocators: each keeps its own through append, swaps of contents, splits
#[no_mangle]
pub fn se_append() {
    init();
    let (ka, kb) = (sx::choose(3), sx::choose(3));
    let mut a = Vec::<Tok>::with_capacity_and_marker(sx::choose(3), pick(ka));
    let mut b = Vec::<Tok>::with_capacity_and_marker(sx::choose(3), pick(kb));
    let (na, nb) = (sx::choose(3), sx::choose(3));
    for i in 0..na { a.push(Tok::new(i as u32)); }
    for i in 0..nb { b.push(Tok::new(10 + i as u32)); }
    ask();
    within(sx::bool(), || {
        let t = traffic();
        a.append(&mut b);
        served(t, ka as u32 + 1);
    });
    not_asked();
    check!(a.len() == na + nb && b.is_empty());
    check!(mark_of(a.marker()) == ka as u32);
    check!(mark_of(b.marker()) == kb as u32);
    let t = traffic();
    a.reserve_exact(a.capacity() - a.len() + 1);
    check!(traffic() > t);
    check!(unsafe { LAST_OWNER } == ka as u32 + 1);
    let t = traffic();
    b.reserve_exact(b.capacity() + 1);
    check!(traffic() > t);
    check!(unsafe { LAST_OWNER } == kb as u32 + 1);
    drop(a);
    drop(b);
    done();
}

/// whatever an edit does to the elements, the vector keeps its marker and its allocator
#[no_mangle]
pub fn se_edit() {
    init();
    let (m, mi) = mark();
    let n = sx::choose(3);
    let mut v = Vec::<Tok>::with_capacity_and_marker(n, m);
    for i in 0..n { v.push(Tok::new(i as u32)); }
    let at = sx::choose(n + 1);
    let inner = sx::bool();
    let op = sx::choose(18);
    within(inner, || {
        let t = traffic();
        match op {
            0 => v.clear(),
            1 => v.insert(at, Tok::new(7)),
            2 => { if at < n { drop(v.remove(at)); } }
            3 => { if at < n { drop(v.swap_remove(at)); } }
            4 => v.truncate(at),
            5 => v.retain(|t| t.val as usize == at),
            6 => v.dedup_by(|a, b| a.val == b.val + at as u32),
            7 => { drop(v.drain(at..)); }
            8 => { drop(v.pop()); }
            9 => v.shrink_to_fit(),
            10 => v.resize_with(at + 1, || Tok::new(1)),
            11 => v.extend_from_slice(&[Tok::new(1), Tok::new(2)]),
            12 => v.extend_from_iter((0..3).map(Tok::new)),
            13 => { let w = std::mem::replace(&mut v, Vec::new()); v = w; }
            14 => { let w = v.split_off(at); check!(w.len() == n - at); }
            15 => { let w = v.clone(); check!(w.len() == n); }
            16 => { let _ = v.try_reserve_exact(usize::MAX); }
            _ => { let mut w = Vec::<Tok>::with_marker(m); w.append(&mut v); v.append(&mut w); }
        }
        if !matches!(op, 13 | 14 | 15 | 17) { served(t, mi + 1); }
    });
    check!(mark_of(v.marker()) == mi);
    ask();
    let t = traffic();
    within(sx::bool(), || v.reserve_exact(v.capacity() - v.len() + 1));
    not_asked();
    check!(traffic() > t);
    check!(unsafe { LAST_OWNER } == mi + 1);
    drop(v);
    done();
}

/// a small vector made of a vector or a boxed slice carries on with their marker, through any moves
#[no_mangle]
pub fn se_sv_from() {
    init();
    let (m, mi) = mark();
    let n = sx::choose(3);
    let mut v = Vec::<Tok>::with_capacity_and_marker(n, m);
    for i in 0..n { v.push(Tok::new(i as u32)); }
    let mut s: SmallVec<Tok, 2> = match sx::choose(4) {
        0 => SmallVec::from(v),
        1 => SmallVec::from(v.into_boxed_slice()),
        2 => {
            let mut s = SmallVec::<Tok, 2>::with_marker(m);
            for i in 0..n { s.push(Tok::new(i as u32)); }
            drop(v);
            SmallVec::from(s.into_vec())
        }
        _ => {
            let s: SmallVec<Tok, 1> = SmallVec::from(v);
            SmallVec::from(s.into_boxed_slice())
        }
    };
    for round in 0..2 {
        check!(s.try_move_to_stack().is_ok() && s.is_stack() && s.len() == n);
        match if round == 0 { sx::choose(4) } else { 3 } {
            0 => { drop(s.pop()); s.push(Tok::new(3)); if s.len() > n { drop(s.pop()); } }
            1 => { let mut o = SmallVec::new(); o.append(&mut s); s.append(&mut o); }
            2 => s.retain(|_| true),
            _ => {}
        }
        ask();
        let inner = sx::bool();
        let k = if round == 0 { sx::choose(4) } else { 0 };
        within(inner, || match k {
            0 => { while s.is_stack() { s.push(Tok::new(9)); } }
            1 => s.reserve(3),
            2 => s.resize_with(3, || Tok::new(4)),
            _ => s.move_to_heap(),
        });
        asked::<Tok>(mi);
        check!(unsafe { LAST_OWNER } == if inner { 4 } else { mi + 1 });
        s.truncate(n);
    }
    drop(s);
    done();
}

/// two small vectors of different markers
#[no_mangle]
pub fn se_sv_append() {
    init();
    let (ka, kb) = (sx::choose(3), sx::choose(3));
    let mut a = SmallVec::<Tok, 2>::with_marker(pick(ka));
    let mut b = SmallVec::<Tok, 2>::with_marker(pick(kb));
    let (na, nb) = (sx::choose(4), sx::choose(4));
    for i in 0..na { a.push(Tok::new(i as u32)); }
    for i in 0..nb { b.push(Tok::new(10 + i as u32)); }
    let (ha, hb) = (a.is_heap(), b.is_heap());
    ask();
    let t = traffic();
    a.append(&mut b);
    served(t, ka as u32 + 1);
    if !ha && a.is_heap() { asked::<Tok>(ka as u32); } else { not_asked(); }
    check!(b.is_heap() == hb && b.is_empty() && a.len() == na + nb);
    a.truncate(2);
    if sx::bool() { check!(a.try_move_to_stack().is_ok()); }
    for i in 0..3 {
        let h = a.is_heap();
        ask();
        let t = traffic();
        a.push(Tok::new(i));
        if !h && a.is_heap() { asked::<Tok>(ka as u32); } else { not_asked(); }
        served(t, ka as u32 + 1);
        let h = b.is_heap();
        ask();
        let t = traffic();
        b.push(Tok::new(i));
        if !h && b.is_heap() { asked::<Tok>(kb as u32); } else { not_asked(); }
        served(t, kb as u32 + 1);
    }
    let (a, b) = (a.into_vec(), b.into_vec());
    check!(mark_of(a.marker()) == ka as u32);
    check!(mark_of(b.marker()) == kb as u32);
    drop(a);
    drop(b);
    done();
}
