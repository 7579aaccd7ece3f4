//! longer text from bytes and code units
use crate::big::pos;
use crate::env::*;
use crate::{check, sx};
use lokky::string::String;
use lokky::vec::Vec;

const FILE: u32 = 51;

harnesses! { lv_utf8 lv_utf16 lv_copy }

const PART: [&str; 4] = ["a", "é", "€", "😀"];
/// one character of two bytes, if it is one
fn two(a: u8, b: u8) -> bool { a >= 0xc2 && a <= 0xdf && b & 0xc0 == 0x80 }

/// well-formed text around two arbitrary bytes
#[no_mangle]
pub fn lv_utf8() {
    init();
    let n = [7, 16, 31, 64, 120][sx::choose(5)];
    let o = sx::choose(4);
    let p = pos(n);
    let (x, y) = (sx::u8(), sx::u8());
    let mut b = [0u8; 500];
    let mut k = 0;
    for i in 0..n {
        if i == p { b[k] = x; b[k + 1] = y; k += 2; }
        else { for c in PART[if o == 3 { 0 } else { (i + o) % 4 }].as_bytes() { b[k] = *c; k += 1; } }
    }
    let mut v = Vec::with_capacity(k + sx::choose(2));
    for i in 0..k { v.push(b[i]); }
    let good = (x < 0x80 && y < 0x80) || two(x, y);
    match String::from_utf8(v) {
        Ok(s) => {
            check!(good);
            check!(s.len() == k);
            for i in 0..k { check!(s.as_bytes()[i] == b[i]); }
        }
        Err(_) => check!(!good),
    }
    done();
}

/// well-formed code units around two arbitrary ones
#[no_mangle]
pub fn lv_utf16() {
    init();
    let n = [7, 16, 33, 110][sx::choose(4)];
    let o = sx::choose(2);
    let p = pos(n);
    let (x, y) = (sx::u16(), sx::u16());
    let mut u = [0u16; 300];
    let mut b = [0u8; 500];
    let (mut k, mut j) = (0, 0);
    let (lead, trail) = (|c: u16| c & 0xfc00 == 0xd800, |c: u16| c & 0xfc00 == 0xdc00);
    let pair = lead(x) && trail(y);
    let good = pair || (x & 0xf800 != 0xd800 && y & 0xf800 != 0xd800);
    for i in 0..n {
        if i == p {
            u[k] = x; u[k + 1] = y; k += 2;
            if good {
                if pair { j += put(&mut b, j, 0x10000 + (((x & 0x3ff) as u32) << 10) + (y & 0x3ff) as u32); }
                else { j += put(&mut b, j, x as u32); j += put(&mut b, j, y as u32); }
            }
        } else {
            let c = ['a', 'é', '€', '😀'][(i + o) % 4];
            k += c.encode_utf16(&mut u[k..]).len();
            j += put(&mut b, j, c as u32);
        }
    }
    match String::from_utf16(&u[..k]) {
        Ok(s) => {
            check!(good);
            check!(s.len() == j);
            for i in 0..j { check!(s.as_bytes()[i] == b[i]); }
        }
        Err(_) => check!(!good),
    }
    done();
}
fn put(b: &mut [u8; 500], j: usize, c: u32) -> usize {
    if c < 0x80 { b[j] = c as u8; 1 }
    else if c < 0x800 { b[j] = 0xc0 | (c >> 6) as u8; b[j + 1] = 0x80 | (c & 63) as u8; 2 }
    else if c < 0x10000 { b[j] = 0xe0 | (c >> 12) as u8; b[j + 1] = 0x80 | (c >> 6 & 63) as u8; b[j + 2] = 0x80 | (c & 63) as u8; 3 }
    else { b[j] = 0xf0 | (c >> 18) as u8; b[j + 1] = 0x80 | (c >> 12 & 63) as u8; b[j + 2] = 0x80 | (c >> 6 & 63) as u8; b[j + 3] = 0x80 | (c & 63) as u8; 4 }
}

/// copies and conversions of long text
#[no_mangle]
pub fn lv_copy() {
    init();
    let n = [7, 33, 64, 130, 260][sx::choose(5)];
    let p = pos(n);
    let x = sx::u8() & 0x7f;
    let mut s = String::new();
    let mut b = [0u8; 1200];
    let mut k = 0;
    for i in 0..n {
        if i == p { s.push(x as char); b[k] = x; k += 1; }
        else { s.push_str(PART[i % 4]); for c in PART[i % 4].as_bytes() { b[k] = *c; k += 1; } }
    }
    let same = |t: &str| { check!(t.len() == k); for i in 0..k { check!(t.as_bytes()[i] == b[i]); } };
    same(&s);
    check!(s.as_bytes().len() == k && !s.is_empty());
    match sx::choose(6) {
        0 => same(&s.clone()),
        1 => same(&String::from(s.as_str())),
        2 => { let v = std::mem::take(s_vec(&mut s)); check!(v.len() == k); for i in 0..k { check!(v[i] == b[i]); } match String::from_utf8(v) { Ok(t) => same(&t), Err(_) => check!(false) } }
        3 => { let mut t = String::from(&s); same(&t); t += &s; check!(t.len() == 2 * k); same(&t[k..]); }
        4 => { let t: String = s.chars().rev().collect(); let u: String = t.chars().rev().collect(); same(&u); }
        _ => { let mut t = String::from("é"); t.extend(s.chars()); check!(t.remove(0) == 'é'); same(&t); }
    }
    drop(s);
    done();
}
fn s_vec(s: &mut String) -> &mut Vec<u8> { s.as_mut_vec() }
