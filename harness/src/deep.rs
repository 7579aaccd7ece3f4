//! scopes nested deeper than the exhaustive ones
use crate::env::*;
use crate::{check, sx};
use lokky::scope::{self, AllocSelector, Scope};
use lokky::vec::Vec;
use std::alloc::GlobalAlloc;

const FILE: u32 = 47;

harnesses! { dp_nest dp_row }

static mut ALIVE: isize = 0;
struct Level { id: u32, depth: usize }
impl Scope for Level {
    fn alloc_for(&self, _s: AllocSelector) -> &dyn GlobalAlloc { &A[self.id as usize - 1] }
}
impl Drop for Level {
    fn drop(&mut self) { unsafe { ALIVE -= 1 } }
}
fn id(depth: usize) -> u32 { 1 + (depth % 4) as u32 }
fn now(depth: usize) {
    let mut v = Vec::<u32>::new();
    v.push(3);
    check!(unsafe { LAST_OWNER } == id(depth));
}

/// go down to `to`; the function at `panics` panics after its inner ones are done; those at `catches` catch
fn go(depth: usize, to: usize, panics: usize, catches: usize, x: u32) -> u32 {
    now(depth);
    if depth == to {
        if panics == depth { panic!() }
        return x;
    }
    let mut body = || scope::spawn(
        |_| { unsafe { ALIVE += 1 }; now(depth); Level { id: id(depth + 1), depth: depth + 1 } },
        |s: &mut Level| {
            check!(s.depth == depth + 1);
            let r = go(depth + 1, to, panics, catches, x);
            now(depth + 1);
            if panics == depth && panics != to { panic!() }
            r
        },
    );
    let before = unsafe { ALIVE };
    let r = if depth == catches {
        match sx::catch(body) { Some(r) => { check!(panics < depth || panics > to); r } None => { check!(panics >= depth && panics <= to); x } }
    } else { body() };
    check!(unsafe { ALIVE } == before);
    now(depth);
    r
}

#[no_mangle]
pub fn dp_nest() {
    init();
    let x = sx::u32();
    let to = [3, 5, 8, 9, 17, 33, 65][sx::choose(7)];
    let panics = match sx::choose(5) { 0 => 1, 1 => to / 2, 2 => to - 1, 3 => to, _ => to + 1 };
    let catches = match sx::choose(3) { 0 => 0, 1 => 1, _ => to / 2 };
    let r = sx::catch(|| go(0, to, panics, catches, x));
    match r {
        Some(r) => check!(r == x && (panics > to || panics >= catches)),
        None => check!(panics < catches),
    }
    check!(unsafe { ALIVE } == 0);
    now(0);
    done();
}

/// many scopes one after the other, some left by a panic
#[no_mangle]
pub fn dp_row() {
    init();
    let n = [3, 9, 33, 130][sx::choose(4)];
    let every = [0, 1, 2, 5][sx::choose(4)];
    for i in 0..n {
        let p = every > 0 && i % every == 0;
        let r = sx::catch(|| scope::spawn(|_| { unsafe { ALIVE += 1 }; Level { id: id(i + 1), depth: i } }, |s: &mut Level| { now(s.depth + 1); if p { panic!() } i }));
        check!(r == if p { None } else { Some(i) });
        check!(unsafe { ALIVE } == 0);
        now(0);
    }
    done();
}
