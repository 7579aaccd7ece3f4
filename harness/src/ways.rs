//! every way to go through an iterator that hands elements out: steps of any size from both ends, then one of the
//! consuming calls
use crate::env::*;
use crate::{check, sx};

const FILE: u32 = 54;

/// `it` stands at m[i..j], `other` tokens live elsewhere.  Takes up to `n` steps.
pub fn steps<I>(it: &mut I, m: &Arr, i: &mut usize, j: &mut usize, n: usize, other: usize)
where
    I: DoubleEndedIterator<Item = Tok> + ExactSizeIterator,
{
    for _ in 0..n {
        match sx::choose(5) {
            0 => return,
            1 => {
                let t = it.next();
                check!(t.is_some() == (*i < *j));
                if let Some(t) = t { t.ok(); check!(t.val == m.v[*i]); *i += 1; }
            }
            2 => {
                let t = it.next_back();
                check!(t.is_some() == (*i < *j));
                if let Some(t) = t { t.ok(); check!(t.val == m.v[*j - 1]); *j -= 1; }
            }
            3 => {
                let k = sx::usize();
                let t = it.nth(k);
                check!(t.is_some() == (k < *j - *i));
                match t {
                    Some(t) => { let k = sx::conc(k); t.ok(); check!(t.val == m.v[*i + k]); *i += k + 1; }
                    None => *i = *j,
                }
            }
            _ => {
                let k = sx::usize();
                let t = it.nth_back(k);
                check!(t.is_some() == (k < *j - *i));
                match t {
                    Some(t) => { let k = sx::conc(k); t.ok(); check!(t.val == m.v[*j - 1 - k]); *j -= k + 1; }
                    None => *j = *i,
                }
            }
        }
        check!(it.len() == *j - *i);
        check!(it.size_hint() == (*j - *i, Some(*j - *i)));
        check!(toks_live() == other + *j - *i);
    }
}

/// what is left, m[i..j], goes in one call
pub fn rest<I>(mut it: I, m: &Arr, i: usize, j: usize)
where
    I: DoubleEndedIterator<Item = Tok> + ExactSizeIterator,
{
    let mut c = i;
    match sx::choose(12) {
        0 => drop(it),
        1 => {
            let t = it.last();
            check!(t.is_some() == (i < j));
            if let Some(t) = t { t.ok(); check!(t.val == m.v[j - 1]); }
        }
        2 => check!(it.count() == j - i),
        3 => {
            let s = it.fold(7u32, |s, t| { t.ok(); check!(t.val == m.v[c]); c += 1; s.wrapping_mul(3).wrapping_add(t.val) });
            check!(c == j);
            let mut r = 7u32;
            let mut k = i;
            while k < j { r = r.wrapping_mul(3).wrapping_add(m.v[k]); k += 1; }
            check!(r == s);
        }
        4 => {
            let mut c = j;
            it.rfold((), |_, t| { t.ok(); check!(c > i); c -= 1; check!(t.val == m.v[c]); });
            check!(c == i);
        }
        5 => {
            it.for_each(|t| { t.ok(); check!(t.val == m.v[c]); c += 1; });
            check!(c == j);
        }
        6 => {
            // find stops behind the first match, the rest stays
            let x = sx::choose(4);
            let t = it.find(|t| { t.ok(); check!(t.val == m.v[c]); c += 1; c - i > x });
            check!(t.is_some() == (x < j - i));
            if let Some(t) = t { t.ok(); check!(t.val == m.v[i + x]); check!(it.len() == j - i - x - 1); }
            let t = it.next();
            check!(t.is_some() == (x + 1 < j - i));
            if let Some(t) = t { t.ok(); check!(t.val == m.v[i + x + 1]); }
        }
        7 => {
            let x = sx::choose(4);
            let p = it.rposition(|t| { t.ok(); c += 1; check!(t.val == m.v[j - (c - i)]); c - i > x });
            check!(p == if x < j - i { Some(j - i - 1 - x) } else { None });
            check!(it.len() == if x < j - i { j - i - 1 - x } else { 0 });
        }
        8 => {
            for t in it.rev().step_by(2) { t.ok(); check!(t.val == m.v[j - 1 - (c - i)]); c += 2; }
            check!(c >= j && c <= j + 1);
        }
        9 => {
            // a panic between two elements
            let x = sx::choose(3);
            let r = sx::catch(|| it.for_each(|t| { t.ok(); check!(t.val == m.v[c]); c += 1; if c - i > x { panic!() } }));
            check!(r.is_some() == (x >= j - i));
        }
        10 => {
            let x = sx::choose(3);
            let mut c = j;
            let r = sx::catch(|| it.rfold((), |_, t| { t.ok(); check!(c > i); c -= 1; check!(t.val == m.v[c]); if j - c > x { panic!() } }));
            check!(r.is_some() == (x >= j - i));
        }
        _ => {
            let v: lokky::vec::Vec<Tok> = it.collect();
            m.slice(i, j).same(v.as_slice());
        }
    }
}
