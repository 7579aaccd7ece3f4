//! text conversions
use crate::env::*;
use crate::strs::*;
use crate::{check, sx};
use lokky::string::String;
use lokky::vec::Vec;
use std::str::FromStr;

const FILE: u32 = 22;

harnesses! {
    tc_utf8 tc_utf16 tc_char tc_from tc_collect tc_collect_owned tc_views tc_ranges tc_range_refused tc_roundtrip tc_clone_from
    tc_utf8_t tc_utf16_t
}

/// Unicode 15, table 3-7: well-formed byte sequences
fn well_formed(b: &[u8]) -> bool {
    let mut i = 0;
    let n = b.len();
    while i < n {
        let a = b[i];
        if a <= 0x7f { i += 1; continue; }
        let (k, lo, hi) = if a >= 0xc2 && a <= 0xdf { (1, 0x80, 0xbf) }
            else if a == 0xe0 { (2, 0xa0, 0xbf) }
            else if a >= 0xe1 && a <= 0xec { (2, 0x80, 0xbf) }
            else if a == 0xed { (2, 0x80, 0x9f) }
            else if a == 0xee || a == 0xef { (2, 0x80, 0xbf) }
            else if a == 0xf0 { (3, 0x90, 0xbf) }
            else if a >= 0xf1 && a <= 0xf3 { (3, 0x80, 0xbf) }
            else if a == 0xf4 { (3, 0x80, 0x8f) }
            else { return false };
        if i + k >= n { return false; }
        if b[i + 1] < lo || b[i + 1] > hi { return false; }
        let mut j = 2;
        while j <= k {
            if b[i + j] < 0x80 || b[i + j] > 0xbf { return false; }
            j += 1;
        }
        i += k + 1;
    }
    true
}

fn utf8(max: usize) {
    init();
    let n = sx::choose(max + 1);
    let mut b = [0u8; 8];
    let mut v = Vec::<u8>::with_capacity(n + sx::choose(2));
    for i in 0..n { b[i] = sx::u8(); v.push(b[i]); }
    match String::from_utf8(v) {
        Ok(s) => {
            check!(well_formed(&b[..n]));
            check!(s.len() == n);
            let t = s.as_bytes();
            for i in 0..n { check!(t[i] == b[i]); }
            sx::cover(1);
        }
        Err(_) => { check!(!well_formed(&b[..n])); sx::cover(2); }
    }
    done();
}
#[no_mangle] pub fn tc_utf8() { utf8(4) }
#[no_mangle] pub fn tc_utf8_t() { utf8(5) }

fn utf16(max: usize) {
    init();
    let n = sx::choose(max + 1);
    let mut u = [0u16; 4];
    for i in 0..n { u[i] = sx::u16(); }
    let r = String::from_utf16(&u[..n]);
    // reference: surrogates only in pairs, high then low
    let mut t = Text::new();
    let mut ok = true;
    let mut i = 0;
    while i < n && ok {
        let a = u[i] as u32;
        if a >= 0xd800 && a <= 0xdbff {
            if i + 1 < n && u[i + 1] >= 0xdc00 && u[i + 1] <= 0xdfff {
                let c = 0x10000 + ((a - 0xd800) << 10) + (u[i + 1] as u32 - 0xdc00);
                t.push((c, 4));
                i += 2;
            } else { ok = false; }
        } else if a >= 0xdc00 && a <= 0xdfff {
            ok = false;
        } else {
            let l = if a < 0x80 { 1 } else if a < 0x800 { 2 } else { 3 };
            t.push((a, l));
            i += 1;
        }
    }
    match r {
        Ok(s) => { check!(ok); t.same(&s); sx::cover(3); }
        Err(_) => { check!(!ok); sx::cover(4); }
    }
    done();
}
#[no_mangle] pub fn tc_utf16() { utf16(3) }
#[no_mangle] pub fn tc_utf16_t() { utf16(4) }

#[no_mangle]
pub fn tc_char() {
    init();
    let c = any_char();
    let s = String::from(ch(c));
    let mut t = Text::new();
    t.push(c);
    t.same(&s);
    drop(s);
    done();
}

#[no_mangle]
pub fn tc_from() {
    init();
    let (w, t) = any_string(2, 1);
    let s = match sx::choose(5) {
        0 => String::from(w.as_str()),
        1 => String::from(&w),
        2 => w.clone(),
        3 => match String::from_str(w.as_str()) { Ok(s) => s, Err(_) => { check!(false); return } },
        _ => String::from(boxed_str(&t)),
    };
    t.same(&s);
    t.same(&w);
    drop(w);
    t.same(&s);
    drop(s);
    done();
}

#[no_mangle]
pub fn tc_collect() {
    init();
    let u = any_text(2);
    let chars = [ch((if u.n > 0 { u.c[0] } else { 65 }, 0)), ch((if u.n > 1 { u.c[1] } else { 65 }, 0))];
    let (a, b) = (string_of(&u.slice(0, u.n.min(1)), 0), string_of(&u.slice(u.n.min(1), u.n), 0));
    let s: String = match sx::choose(3) {
        0 => chars[..u.n].iter().cloned().collect(),
        1 => chars[..u.n].iter().collect(),
        _ => [a.as_str(), b.as_str()].into_iter().collect(),
    };
    u.same(&s);
    drop((a, b, s));
    done();
}

#[no_mangle]
pub fn tc_collect_owned() {
    init();
    let (u, w) = (any_text(1), any_text(2));
    let mut t = u;
    t.extend(&w);
    let s: String = if sx::bool() {
        [string_of(&u, 0), string_of(&w, 1)].into_iter().collect()
    } else {
        [boxed_str(&u), boxed_str(&w)].into_iter().collect()
    };
    t.same(&s);
    drop(s);
    done();
}

/// all views show the same text
#[no_mangle]
pub fn tc_views() {
    init();
    let (mut s, t) = any_string(2, 1);
    t.same(&s);
    t.same_str(&s);
    t.same_str(s.as_ref());
    t.same_str(std::borrow::Borrow::<str>::borrow(&s));
    t.same_bytes(s.as_bytes());
    t.same_str(&s[..]);
    t.same_str(s.as_mut_str());
    t.same_str(std::borrow::BorrowMut::<str>::borrow_mut(&mut s));
    let v = std::mem::replace(s.as_mut_vec(), Vec::new());
    t.same_bytes(&v);
    check!(s.is_empty());
    drop((s, v));
    check!(String::new().is_empty() && String::default().len() == 0);
    done();
}

/// indexing by every range form, at character boundaries
#[no_mangle]
pub fn tc_ranges() {
    init();
    let (mut s, t) = any_string(3, 0);
    let a = sx::choose(t.n + 1);
    let b = a + sx::choose(t.n + 1 - a);
    let (x, y) = (t.slice(0, a).len(), t.slice(0, b).len());
    let m = sx::bool();
    match sx::choose(6) {
        0 => t.slice(a, b).same_str(if m { &mut s[x..y] } else { &s[x..y] }),
        1 => t.slice(0, b).same_str(if m { &mut s[..y] } else { &s[..y] }),
        2 => t.slice(a, t.n).same_str(if m { &mut s[x..] } else { &s[x..] }),
        3 => t.same_str(if m { &mut s[..] } else { &s[..] }),
        4 => { if y > x { t.slice(a, b).same_str(if m { &mut s[x..=y - 1] } else { &s[x..=y - 1] }) } }
        _ => { if y > 0 { t.slice(0, b).same_str(if m { &mut s[..=y - 1] } else { &s[..=y - 1] }) } }
    }
    drop(s);
    done();
}

/// any other range is refused
#[no_mangle]
pub fn tc_range_refused() {
    init();
    let (s, t) = any_string(2, 0);
    let n = t.len();
    let (x, y) = (sx::usize(), sx::usize());
    let r = match sx::choose(3) {
        0 => {
            let r = sx::catch(|| { s[x..y].len() });
            let ok = x <= y && y <= n && t.at(sx::conc(x)).is_some() && t.at(sx::conc(y)).is_some();
            check!(r.is_some() == ok);
            r
        }
        1 => {
            let r = sx::catch(|| { s[..y].len() });
            check!(r.is_some() == (y <= n && t.at(sx::conc(y)).is_some()));
            r
        }
        _ => {
            let r = sx::catch(|| { s[x..].len() });
            check!(r.is_some() == (x <= n && t.at(sx::conc(x)).is_some()));
            r
        }
    };
    if r.is_some() { sx::cover(5) } else { sx::cover(6) }
    drop(s);
    done();
}

/// out to bytes and back
#[no_mangle]
pub fn tc_roundtrip() {
    init();
    let (mut s, t) = any_string(2, 2);
    if sx::bool() { s.shrink_to_fit(); }
    let v = std::mem::replace(s.as_mut_vec(), Vec::new());
    drop(s);
    match String::from_utf8(v) {
        Ok(s) => { t.same(&s); drop(s) }
        Err(_) => check!(false),
    }
    done();
}

/// assignment of a copy, whatever was there before
#[no_mangle]
pub fn tc_clone_from() {
    init();
    let (mut s, _) = any_string(1, 2);
    let (w, t) = any_string(2, 1);
    s.clone_from(&w);
    t.same(&s);
    t.same(&w);
    s.push('x');
    check!(s.len() == w.len() + 1);
    t.same(&w);
    drop(w);
    s.pop();
    t.same(&s);
    drop(s);
    done();
}
