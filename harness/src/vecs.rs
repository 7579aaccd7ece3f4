//! arbitrary states of the list types
use crate::env::*;
use crate::{check, sx};
use lokky::small_vec::SmallVec;
use lokky::vec::Vec;

const FILE: u32 = 2;

/// arbitrary vector: `max` bounds the length, spare capacity 0..=max_spare
pub fn any_vec(max: usize, max_spare: usize) -> (Vec<Tok>, Arr) {
    let n = sx::choose(max + 1);
    let spare = sx::choose(max_spare + 1);
    let mut v = Vec::<Tok>::with_capacity(n + spare);
    let mut m = Arr::new();
    unsafe {
        let p = v.as_mut_ptr();
        for i in 0..n {
            let x = sx::u32();
            p.add(i).write(Tok::new(x));
            m.push(x);
        }
        v.set_len(n);
    }
    (v, m)
}

/// arbitrary small vector: every length up to max, in each storage mode the length admits
pub fn any_sv<const N: usize>(max: usize) -> (SmallVec<Tok, N>, Arr) {
    let n = sx::choose(max + 1);
    let heap = n > N || sx::choose(2) == 1;
    sv_of(n, heap)
}

pub fn sv_of<const N: usize>(n: usize, heap: bool) -> (SmallVec<Tok, N>, Arr) {
    let mut v = if heap {
        let c = if n > N { n } else { N + 1 };
        SmallVec::<Tok, N>::with_capacity(c)
    } else {
        SmallVec::<Tok, N>::new()
    };
    check!(v.is_heap() == heap);
    let mut m = Arr::new();
    // written through spare capacity: no operation under test is needed to build the state
    for _ in 0..n {
        let x = sx::u32();
        v.push(Tok::new(x));
        m.push(x);
    }
    check!(v.is_heap() == heap);
    check!(v.len() == n);
    (v, m)
}
