//! shared values with many more references than the exhaustive histories hold
use crate::env::*;
use crate::shared::Sh;
use crate::{check, sx};

const FILE: u32 = 43;

pub const M: usize = 300;
const COUNTS: [usize; 6] = [1, 2, 5, 17, 130, 300];

/// positions in the order in which they go: forwards, backwards, from the middle, every second first
pub fn nth(order: usize, n: usize, i: usize) -> usize {
    match order {
        0 => i,
        1 => n - 1 - i,
        2 => (i + n / 2) % n,
        _ => { let h = (n + 1) / 2; if i < h { 2 * i } else { 2 * (i - h) + 1 } }
    }
}

/// that many strong and weak references; the strong ones go but for one, which then asks for exclusive access
pub fn many<S: Sh>() {
    init();
    let x = sx::u32();
    let n = COUNTS[sx::choose(6)];
    let k = [0, 1, 5, 40, 300][sx::choose(5)];
    let mut r: [Option<S::R>; M] = [const { None }; M];
    let mut w: [Option<S::W>; M] = [const { None }; M];
    r[0] = Some(S::new(Tok::new(x)));
    for i in 1..n {
        let c = S::clone(r[i / 2].as_ref().unwrap());
        check!(S::strong(&c) == i + 1);
        r[i] = Some(c);
    }
    for i in 0..k {
        let c = match (S::FOLLOW && i % 3 == 2, i) {
            (true, _) => S::wclone(w[i / 2].as_ref().unwrap()),
            _ => S::down(r[i % n].as_ref().unwrap()),
        };
        check!(S::weak(r[0].as_ref().unwrap()) == i + 1);
        w[i] = Some(c);
    }
    check!(S::strong(r[n - 1].as_ref().unwrap()) == n && S::weak(r[n / 2].as_ref().unwrap()) == k);
    check!(sx::live() == S::BLOCKS);
    let order = sx::choose(4);
    for i in 0..n - 1 {
        drop(r[nth(order, n, i)].take());
        let last = r[nth(order, n, n - 1)].as_ref().unwrap();
        check!(S::strong(last) == n - 1 - i && S::weak(last) == k);
        S::see(last).ok();
    }
    let mut last = r[nth(order, n, n - 1)].take().unwrap();
    check!(S::see(&last).val == x && toks_live() == 1);
    let made = unsafe { NTOK };
    let gone = match sx::choose(4) {
        0 => { drop(last); check!(toks_live() == 0); true }
        1 => match S::unwrap(last) {
            Ok(t) => { t.ok(); check!(t.val == x); drop(t); check!(toks_live() == 0); true }
            Err(_) => { check!(false); true }
        },
        2 => { check!(S::get_mut(&mut last).is_some() == (k == 0)); drop(last); true }
        _ => {
            check!(S::make_mut(&mut last).val == x);
            check!(unsafe { NTOK } == made && toks_live() == 1);
            check!(S::weak(&last) == 0 && S::strong(&last) == 1);
            drop(last);
            true
        }
    };
    check!(gone && toks_live() == 0);
    for i in 0..k {
        check!(sx::live() == S::BLOCKS);
        let j = nth(order, k, i);
        if S::FOLLOW {
            let w = w[j].as_ref().unwrap();
            check!(S::up(w).is_none());
            check!(S::wweak(w) == Some(k - i));
            check!(S::wstrong(w) == Some(0));
        }
        drop(w[j].take());
    }
    done();
}

/// all strong references are there while one asks for exclusive access
pub fn crowd<S: Sh>() {
    init();
    let x = sx::u32();
    let n = COUNTS[1 + sx::choose(5)];
    let mut r: [Option<S::R>; M] = [const { None }; M];
    r[0] = Some(S::new(Tok::new(x)));
    for i in 1..n { r[i] = Some(S::clone(r[0].as_ref().unwrap())); }
    let w = if sx::bool() { Some(S::down(r[0].as_ref().unwrap())) } else { None };
    let mut one = r[n / 2].take().unwrap();
    match sx::choose(3) {
        0 => { check!(S::get_mut(&mut one).is_none()); r[n / 2] = Some(one); }
        1 => match S::unwrap(one) { Ok(_) => check!(false), Err(o) => r[n / 2] = Some(o) },
        _ => {
            let y = sx::u32();
            S::make_mut(&mut one).val = y;
            check!(S::see(&one).val == y && S::strong(&one) == 1 && toks_live() == 2);
            drop(one);
        }
    }
    let left = n - r[n / 2].is_none() as usize;
    let first = r[0].take();
    if let Some(f) = &first {
        check!(S::see(f).val == x && S::strong(f) == left && S::weak(f) == w.is_some() as usize);
    }
    if sx::bool() { drop(first); for i in 0..n { drop(r[i].take()); } }
    else { for i in 0..n { drop(r[n - 1 - i].take()); } check!(toks_live() == first.is_some() as usize); drop(first); }
    check!(toks_live() == 0);
    drop(w);
    done();
}
