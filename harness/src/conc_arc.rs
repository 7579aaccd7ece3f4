//! Arc between threads.  A scenario NAME: NAME_s sets up, NAME_1.. run concurrently, NAME_f runs after all.
use crate::conc::{init, once, Val};
use crate::{check, sx};
use lokky::arc::{Arc, Weak};

const FILE: u32 = 33;

scenarios! { ca_two:2 ca_weak:2 ca_drop3:3 ca_excl3:3 ca_three:3 ca_count:2 ca_seq:2 ca_seq_t:2 }

static mut H: [Option<Arc<Val>>; 3] = [None, None, None];
static mut W: [Option<Weak<Val>>; 3] = [None, None, None];

fn h(i: usize) -> Arc<Val> {
    match unsafe { H[i].take() } { Some(h) => h, None => { check!(false); loop {} } }
}
fn w(i: usize) -> Option<Weak<Val>> { unsafe { W[i].take() } }

fn setup(n: usize) {
    init();
    let a = Arc::new(Val::new(5));
    unsafe {
        if n > 1 { H[1] = Some(a.clone()); }
        if n > 2 { H[2] = Some(a.clone()); }
        H[0] = Some(a);
    }
}

/// one use of a reference, which is gone afterwards
fn use_up(mut a: Arc<Val>, op: usize) {
    match op {
        0 => drop(a),
        1 => { a.read(); drop(a) }
        2 => { let b = a.clone(); drop(a); b.read(); drop(b) }
        3 => { if let Some(m) = Arc::get_mut(&mut a) { m.v = 6; } drop(a) }
        4 => match Arc::try_unwrap(a) { Ok(v) => { v.read(); drop(v) } Err(a) => { a.read(); drop(a) } },
        5 => { Arc::make_mut(&mut a).v = 7; drop(a) }
        6 => { let w = Arc::downgrade(&a); drop(a); drop(w) }
        7 => { let w = Arc::downgrade(&a); drop(w); drop(a) }
        _ => { check!(Arc::strong_count(&a) >= 1); check!(Arc::weak_count(&a) <= 2); drop(a) }
    }
}

// two threads, each uses up its reference in any way
#[no_mangle] pub fn ca_two_s() { setup(2) }
#[no_mangle] pub fn ca_two_1() { use_up(h(0), sx::choose(9)) }
#[no_mangle] pub fn ca_two_2() { use_up(h(1), sx::choose(9)) }
#[no_mangle] pub fn ca_two_f() { once() }

// one strong reference, weak ones in the other thread
#[no_mangle] pub fn ca_weak_s() {
    setup(1);
    unsafe {
        let a = H[0].as_ref().unwrap();
        W[1] = Some(Arc::downgrade(a));
        if sx::bool() { W[0] = Some(Arc::downgrade(a)); }
    }
}
#[no_mangle] pub fn ca_weak_1() {
    let w = w(0);
    if w.is_some() && sx::bool() { use_up(h(0), sx::choose(9)); drop(w) } else { drop(w); use_up(h(0), sx::choose(9)); }
}
#[no_mangle] pub fn ca_weak_2() { drop(w(1)) }
#[no_mangle] pub fn ca_weak_f() { once() }

// three threads that read and drop
#[no_mangle] pub fn ca_drop3_s() { setup(3) }
#[no_mangle] pub fn ca_drop3_1() { use_up(h(0), 1) }
#[no_mangle] pub fn ca_drop3_2() { use_up(h(1), 1) }
#[no_mangle] pub fn ca_drop3_3() { use_up(h(2), 1) }
#[no_mangle] pub fn ca_drop3_f() { once() }

// exclusive access against a reader and a weak reference
#[no_mangle] pub fn ca_excl3_s() {
    setup(2);
    unsafe { W[2] = Some(Arc::downgrade(H[0].as_ref().unwrap())); }
}
#[no_mangle] pub fn ca_excl3_1() { use_up(h(0), 3 + sx::choose(3)) }
#[no_mangle] pub fn ca_excl3_2() { use_up(h(1), if sx::bool() { 1 } else { 6 }) }
#[no_mangle] pub fn ca_excl3_3() { drop(w(2)) }
#[no_mangle] pub fn ca_excl3_f() { once() }

// the counts another thread sees while one reference asks for exclusive access or goes
#[no_mangle] pub fn ca_count_s() { setup(2) }
#[no_mangle] pub fn ca_count_1() { use_up(h(0), 1 + sx::choose(5)) }
#[no_mangle] pub fn ca_count_2() {
    let a = h(1);
    if sx::bool() { check!(Arc::weak_count(&a) == 0); }
    else { let n = Arc::strong_count(&a); check!(n >= 1 && n <= 3); }
    drop(a)
}
#[no_mangle] pub fn ca_count_f() { once() }

// two uses in a row
fn use_on(a: &mut Arc<Val>, op: usize) {
    match op {
        0 => if let Some(m) = Arc::get_mut(a) { m.v = 8; },
        1 => Arc::make_mut(a).v = 9,
        2 => drop(Arc::downgrade(a)),
        _ => drop(a.clone()),
    }
}
#[no_mangle] pub fn ca_seq_s() { setup(2) }
#[no_mangle] pub fn ca_seq_1() { let mut a = h(0); use_on(&mut a, sx::choose(4)); use_up(a, 3 + sx::choose(2)) }
#[no_mangle] pub fn ca_seq_2() { let a = h(1); use_up(a, [1, 2, 6][sx::conc(sx::choose(3))]) }
#[no_mangle] pub fn ca_seq_f() { once() }

#[no_mangle] pub fn ca_seq_t_s() { setup(2) }
#[no_mangle] pub fn ca_seq_t_1() { let mut a = h(0); use_on(&mut a, sx::choose(4)); use_up(a, 3 + sx::choose(4)) }
#[no_mangle] pub fn ca_seq_t_2() { let a = h(1); use_up(a, sx::choose(8)) }
#[no_mangle] pub fn ca_seq_t_f() { once() }

// exclusive access against two more threads with references of their own
#[no_mangle] pub fn ca_three_s() { setup(3) }
#[no_mangle] pub fn ca_three_1() { use_up(h(0), 3 + sx::choose(3)) }
#[no_mangle] pub fn ca_three_2() { use_up(h(1), [1, 2, 6][sx::conc(sx::choose(3))]) }
#[no_mangle] pub fn ca_three_3() { use_up(h(2), 1) }
#[no_mangle] pub fn ca_three_f() { once() }
