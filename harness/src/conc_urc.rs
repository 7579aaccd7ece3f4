//! Urc between threads, one fence each
use crate::conc::{init, once, Val};
use crate::{check, sx};
use lokky::scope::{Envelop, ScopeRecv};
use lokky::urc::{Urc, Weak};

const FILE: u32 = 34;

scenarios! { cu_two:2 cu_weak:2 cu_drop3:3 cu_excl3:3 cu_three:3 cu_seq:2 cu_seq_t:2 }

struct Recv;
impl<'a> ScopeRecv<'a> for Recv {}

static mut H: [Option<Urc<Val>>; 3] = [None, None, None];
static mut W: [Option<Weak<Val>>; 3] = [None, None, None];

fn h(i: usize) -> Urc<Val> {
    match unsafe { H[i].take() } { Some(h) => h, None => { check!(false); loop {} } }
}
fn w(i: usize) -> Option<Weak<Val>> { unsafe { W[i].take() } }

fn setup(n: usize) {
    init();
    let a = Urc::new(Val::new(5));
    unsafe {
        if n > 1 { H[1] = Some(Recv.recv(a.envelop(&Recv))); }
        if n > 2 { H[2] = Some(Recv.recv(a.envelop(&Recv))); }
        H[0] = Some(a);
    }
}

fn use_up(mut a: Urc<Val>, op: usize) {
    match op {
        0 => drop(a),
        1 => { a.read(); drop(a) }
        2 => { let b = a.clone(); drop(a); b.read(); drop(b) }
        3 => { if let Some(m) = Urc::get_mut(&mut a) { m.v = 6; } drop(a) }
        4 => match Urc::try_unwrap(a) { Ok(v) => { v.read(); drop(v) } Err(a) => { a.read(); drop(a) } },
        5 => { Urc::make_mut(&mut a).v = 7; drop(a) }
        6 => { let w = Urc::downgrade(&a); drop(a); drop(w) }
        7 => { let w = Urc::downgrade(&a); drop(w); drop(a) }
        8 => match Urc::try_into_fence(a) {
            Ok(f) => if sx::bool() { drop(f) } else { let b = f.into_inner().into_urc(); b.read(); drop(b) },
            Err(_) => check!(false),
        },
        _ => {
            let b: Urc<Val> = Recv.recv(a.envelop(&Recv));
            if sx::bool() { drop(a); b.read(); drop(b) } else { drop(b); a.read(); drop(a) }
        }
    }
}

#[no_mangle] pub fn cu_two_s() { setup(2) }
#[no_mangle] pub fn cu_two_1() { use_up(h(0), sx::choose(10)) }
#[no_mangle] pub fn cu_two_2() { use_up(h(1), sx::choose(10)) }
#[no_mangle] pub fn cu_two_f() { once() }

// weak references on the fences
#[no_mangle] pub fn cu_weak_s() {
    setup(2);
    unsafe {
        if sx::bool() { W[0] = Some(Urc::downgrade(H[0].as_ref().unwrap())); }
        W[1] = Some(Urc::downgrade(H[1].as_ref().unwrap()));
    }
}
#[no_mangle] pub fn cu_weak_1() {
    let w = w(0);
    if w.is_some() { use_up(h(0), 3 + sx::choose(3)); drop(w) } else { use_up(h(0), 3 + sx::choose(4)); }
}
#[no_mangle] pub fn cu_weak_2() {
    let w = w(1);
    use_up(h(1), sx::choose(6));
    drop(w)
}
#[no_mangle] pub fn cu_weak_f() { once() }

#[no_mangle] pub fn cu_drop3_s() { setup(3) }
#[no_mangle] pub fn cu_drop3_1() { use_up(h(0), 1) }
#[no_mangle] pub fn cu_drop3_2() { use_up(h(1), 1) }
#[no_mangle] pub fn cu_drop3_3() { use_up(h(2), 1) }
#[no_mangle] pub fn cu_drop3_f() { once() }

#[no_mangle] pub fn cu_excl3_s() {
    setup(3);
    unsafe { W[2] = Some(Urc::downgrade(H[2].as_ref().unwrap())); H[2] = None; }
}
#[no_mangle] pub fn cu_excl3_1() { use_up(h(0), 3 + sx::choose(3)) }
#[no_mangle] pub fn cu_excl3_2() { use_up(h(1), if sx::bool() { 1 } else { 6 }) }
#[no_mangle] pub fn cu_excl3_3() { drop(w(2)) }
#[no_mangle] pub fn cu_excl3_f() { once() }

fn use_on(a: &mut Urc<Val>, op: usize) {
    match op {
        0 => if let Some(m) = Urc::get_mut(a) { m.v = 8; },
        1 => Urc::make_mut(a).v = 9,
        2 => drop(Urc::downgrade(a)),
        _ => drop(a.clone()),
    }
}
#[no_mangle] pub fn cu_seq_s() { setup(2) }
#[no_mangle] pub fn cu_seq_1() { let mut a = h(0); use_on(&mut a, sx::choose(4)); use_up(a, 3 + sx::choose(2)) }
#[no_mangle] pub fn cu_seq_2() { let a = h(1); use_up(a, [1, 2, 6][sx::conc(sx::choose(3))]) }
#[no_mangle] pub fn cu_seq_f() { once() }

#[no_mangle] pub fn cu_seq_t_s() { setup(2) }
#[no_mangle] pub fn cu_seq_t_1() { let mut a = h(0); use_on(&mut a, sx::choose(4)); use_up(a, 3 + sx::choose(4)) }
#[no_mangle] pub fn cu_seq_t_2() { let a = h(1); use_up(a, sx::choose(8)) }
#[no_mangle] pub fn cu_seq_t_f() { once() }

// exclusive access against two more threads with references of their own
#[no_mangle] pub fn cu_three_s() { setup(3) }
#[no_mangle] pub fn cu_three_1() { use_up(h(0), 3 + sx::choose(3)) }
#[no_mangle] pub fn cu_three_2() { use_up(h(1), [1, 2, 6][sx::conc(sx::choose(3))]) }
#[no_mangle] pub fn cu_three_3() { use_up(h(2), 1) }
#[no_mangle] pub fn cu_three_f() { once() }
