//! nested scopes
use crate::env::*;
use crate::{check, sx};
use lokky::scope::{self, AllocMarker, AllocSelector, Scope};
use lokky::vec::Vec;
use std::alloc::GlobalAlloc;

const FILE: u32 = 18;

harnesses! { sp_nest sp_init_panics sp_held sp_env sp_envs sp_drop sp_init_spawns sp_nest_t }

static mut DEAD: usize = 0;
static mut MADE: usize = 0;

struct Child {
    id: u32,
    alive: bool,
    val: u32,
}
impl Child {
    fn new(id: u32, val: u32) -> Child {
        unsafe { MADE += 1 };
        Child { id, alive: true, val }
    }
}
impl Scope for Child {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        check!(self.alive);
        unsafe { LAST_SEL = Some(s) };
        &A[self.id as usize - 1]
    }
}
impl Drop for Child {
    fn drop(&mut self) {
        check!(self.alive);
        self.alive = false;
        unsafe { DEAD += 1 };
    }
}

fn served_by(s: &dyn Scope, id: u32) {
    let a = s.alloc_for(AllocSelector::new::<u8>());
    check!(a as *const dyn GlobalAlloc as *const u8 == &A[id as usize - 1] as *const Checker as *const u8);
}
/// `id` is what the current scope allocates with
fn now(id: u32, alloc: bool) {
    served_by(scope::current(&()), id);
    if alloc {
        let mut v = Vec::<u32>::new();
        v.push(3);
        check!(unsafe { LAST_OWNER } == id);
    }
}

/// spawn a scope on allocator id inside the one on `outer`, down to `depth`
fn level(depth: usize, outer: u32) {
    let id = 1 + sx::choose(4) as u32;
    let val = sx::u32();
    let ret = sx::u32();
    let panics = sx::bool();
    let alloc = depth == 1;
    let mut inits = 0;
    let mut runs = 0;
    let (made, dead) = unsafe { (MADE, DEAD) };
    let mut inner = 0;
    let r = sx::catch(|| {
        scope::spawn(
            |prev| {
                inits += 1;
                served_by(prev, outer);
                Child::new(id, val)
            },
            |s: &mut Child| {
                runs += 1;
                check!(s.alive && s.id == id && s.val == val);
                now(id, alloc);
                if depth > 1 {
                    let n = sx::choose(2);
                    for _ in 0..n { level(depth - 1, id); inner += 1; }
                    now(id, true);
                }
                // the scope itself can be changed by the function
                s.val = ret;
                let e = 1 + (s.id % 4);
                s.id = e;
                served_by(scope::current(&()), e);
                if panics { panic!() }
                ret
            },
        )
    });
    check!(inits == 1 && runs == 1);
    match r {
        Some(x) => { check!(!panics); check!(x == ret); sx::cover(1); }
        None => { check!(panics); sx::cover(2); }
    }
    // the scope built is gone, the outer one is current and works
    check!(unsafe { MADE } - made == unsafe { DEAD } - dead);
    check!(unsafe { MADE } > made);
    now(outer, true);
}

fn nest(depth: usize) {
    init();
    now(1, true);
    level(depth, 1);
    now(1, true);
    check!(unsafe { MADE == DEAD });
    done();
}
#[no_mangle] pub fn sp_nest() { nest(2) }
#[no_mangle] pub fn sp_nest_t() { nest(3) }

/// building the scope panics: nothing changed
#[no_mangle]
pub fn sp_init_panics() {
    init();
    let deep = sx::bool();
    let body = || {
        let outer = if deep { 2 } else { 1 };
        let r = sx::catch(|| {
            scope::spawn(|_| -> Child { panic!() }, |_| check!(false));
        });
        check!(r.is_none());
        now(outer, true);
    };
    if deep { scope::spawn(|_| Child::new(2, 0), |_| body()); } else { body() }
    now(1, true);
    done();
}

/// containers made inside and returned, made outside and used inside
#[no_mangle]
pub fn sp_held() {
    init();
    let mut out = Vec::<Tok>::new();
    if sx::bool() { out.push(Tok::new(1)); }
    let n = out.len();
    let k = sx::choose(3);
    let x = sx::u32();
    let mut v = scope::spawn(
        |prev| { served_by(prev, 1); Child::new(3, 0) },
        |_| {
            for i in 0..k { out.push(Tok::new(i as u32)); }
            if n + k > 0 { check!(unsafe { LAST_OWNER } == 1); }
            let mut v = Vec::<Tok>::with_capacity(1);
            check!(unsafe { LAST_OWNER } == 3);
            v.push(Tok::new(x));
            v
        },
    );
    check!(out.len() == n + k);
    check!(v.len() == 1 && v[0].val == x);
    drop(out);
    drop(v.pop());
    drop(v);
    now(1, true);
    done();
}

/// the same through the environment object
#[no_mangle]
pub fn sp_env() {
    init();
    let id = 1 + sx::choose(4) as u32;
    let r = sx::u64();
    let got = env().spawn(
        |p| { served_by(p, 1); Child::new(id, 0) },
        |_| { now(id, true); served_by(env().current(&()), id); r },
    );
    check!(got == r);
    now(1, true);
    served_by(env().current(&()), 1);
    let s = AllocSelector::new::<u32>();
    check!(matches!(s.marker(), AllocMarker::None));
    done();
}

/// Two environments, as two threads have them: what is spawned in one leaves the other as it was.
struct Other;
static mut OTHER: Other = Other;
impl Scope for Other {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        unsafe { LAST_SEL = Some(s) };
        &A[3]
    }
}
static mut ENVS: [Option<scope::Env>; 2] = [None, None];
static mut THREAD: usize = 0;
fn env_of() -> &'static mut scope::Env { unsafe { (*(&raw mut ENVS))[THREAD].as_mut().unwrap() } }
/// run something on the other thread
fn on(t: usize, f: impl FnOnce()) {
    unsafe {
        let was = THREAD;
        THREAD = t;
        f();
        THREAD = was;
    }
}
#[no_mangle]
pub fn sp_envs() {
    init();
    unsafe {
        static mut FIRST: Child = Child { id: 1, alive: true, val: 0 };
        ENVS = [Some(scope::Env::new(&mut *(&raw mut FIRST))), Some(scope::Env::new(&mut *(&raw mut OTHER)))];
        scope::ENV = Some(env_of);
    }
    // each thread has its own current scope
    let mut cur = [1, 4];
    let check_both = |cur: [u32; 2]| {
        on(0, || now(cur[0], true));
        on(1, || now(cur[1], true));
    };
    check_both(cur);
    let t = sx::choose(2);
    let u = sx::choose(2);
    let (a, b) = (1 + sx::choose(4) as u32, 1 + sx::choose(4) as u32);
    let p = sx::bool();
    let q = sx::bool();
    let r = sx::catch(|| {
        unsafe { THREAD = t };
        scope::spawn(
            |prev| { served_by(prev, if t == 0 { 1 } else { 4 }); Child::new(a, 0) },
            |_| {
                let before = cur[t];
                cur[t] = a;
                check_both(cur);
                let i = sx::catch(|| on(u, || {
                    let last = cur[u];
                    scope::spawn(
                        |prev| { served_by(prev, last); Child::new(b, 0) },
                        |_| {
                            cur[u] = b;
                            check_both(cur);
                            cur[u] = last;
                            if q { panic!() }
                        },
                    )
                }));
                check!(i.is_none() == q);
                unsafe { THREAD = t };
                check_both(cur);
                cur[t] = before;
                if p { panic!() }
            },
        )
    });
    check!(r.is_none() == p);
    unsafe { THREAD = 1 - t };
    check_both(cur);
    if t != u { sx::cover(3); }
    check!(unsafe { MADE == DEAD });
    done();
}

/// a scope that looks at the current one, allocates, and may panic while it goes
struct Last { id: u32, outer: u32, panics: bool, alive: bool }
impl Scope for Last {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        check!(self.alive);
        unsafe { LAST_SEL = Some(s) };
        &A[self.id as usize - 1]
    }
}
impl Drop for Last {
    fn drop(&mut self) {
        self.alive = false;
        now(self.outer, true);
        if self.panics { panic!() }
    }
}
/// the scope goes when the one before is current again
#[no_mangle]
pub fn sp_drop() {
    init();
    let deep = sx::bool();
    let (a, b) = (1 + sx::choose(4) as u32, 1 + sx::choose(4) as u32);
    let (p, q, f) = (sx::bool(), sx::bool(), sx::bool());
    // the function or the destructor, not both at once: that would abort
    sx::assume(!(q && f));
    let body = |outer: u32| {
        let r = sx::catch(|| scope::spawn(
            |_| Last { id: b, outer, panics: q, alive: true },
            |s| { now(b, true); check!(s.alive); if f { panic!() } 7u32 },
        ));
        check!(r.is_none() == (q || f));
        if let Some(t) = r { check!(t == 7); }
        now(outer, true);
    };
    if deep {
        let r = sx::catch(|| scope::spawn(|_| Last { id: a, outer: 1, panics: p, alive: true }, |_| body(a)));
        check!(r.is_none() == p);
    } else {
        body(1);
    }
    now(1, true);
    done();
}

/// building a scope may itself use a scope
#[no_mangle]
pub fn sp_init_spawns() {
    init();
    let (a, b) = (1 + sx::choose(4) as u32, 1 + sx::choose(4) as u32);
    let p = sx::bool();
    let x = sx::u32();
    let mut made = Vec::<u32>::new();
    let r = scope::spawn(
        |prev| {
            served_by(prev, 1);
            let v = sx::catch(|| scope::spawn(
                |q| { served_by(q, 1); Child::new(a, x) },
                |s| { now(a, true); if p { panic!() } s.val },
            ));
            check!(v == if p { None } else { Some(x) });
            served_by(prev, 1);
            now(1, true);
            Child::new(b, x ^ 1)
        },
        |s| { now(b, true); made.push(s.val); s.val },
    );
    check!(r == x ^ 1 && made[0] == r);
    drop(made);
    now(1, true);
    check!(unsafe { MADE == 2 && DEAD == 2 });
    done();
}
