//! arbitrary strings and the reference encoding
use crate::{check, sx};
use lokky::boxed::Box;
use lokky::string::String;
use lokky::vec::Vec;

const FILE: u32 = 3;

pub const MAXB: usize = 40;
pub const MAXC: usize = 12;

/// reference string: characters with their encoding
#[derive(Clone, Copy)]
pub struct Text {
    pub c: [u32; MAXC],
    /// encoded length of each character
    pub l: [usize; MAXC],
    pub n: usize,
}
impl Text {
    pub fn new() -> Text { Text { c: [0; MAXC], l: [0; MAXC], n: 0 } }
    pub fn push(&mut self, ch: Ch) {
        self.c[self.n] = ch.0;
        self.l[self.n] = ch.1;
        self.n += 1;
    }
    pub fn insert(&mut self, i: usize, ch: Ch) {
        let mut j = self.n;
        while j > i {
            self.c[j] = self.c[j - 1];
            self.l[j] = self.l[j - 1];
            j -= 1;
        }
        self.c[i] = ch.0;
        self.l[i] = ch.1;
        self.n += 1;
    }
    pub fn remove(&mut self, i: usize) -> Ch {
        let r = (self.c[i], self.l[i]);
        let mut j = i;
        while j + 1 < self.n {
            self.c[j] = self.c[j + 1];
            self.l[j] = self.l[j + 1];
            j += 1;
        }
        self.n -= 1;
        r
    }
    pub fn extend(&mut self, o: &Text) {
        for i in 0..o.n { self.push((o.c[i], o.l[i])); }
    }
    pub fn slice(&self, a: usize, b: usize) -> Text {
        let mut t = Text::new();
        for i in a..b { t.push((self.c[i], self.l[i])); }
        t
    }
    /// bytes in all
    pub fn len(&self) -> usize {
        let mut k = 0;
        for i in 0..self.n { k += self.l[i]; }
        k
    }
    /// index of the character that starts at this byte (n for the end), if any does
    pub fn at(&self, byte: usize) -> Option<usize> {
        let mut k = 0;
        for i in 0..self.n {
            if k == byte { return Some(i); }
            k += self.l[i];
        }
        if k == byte { Some(self.n) } else { None }
    }
    pub fn bytes(&self) -> ([u8; MAXB], usize) {
        let mut b = [0u8; MAXB];
        let mut k = 0;
        for i in 0..self.n {
            let e = encode((self.c[i], self.l[i]));
            let mut j = 0;
            while j < self.l[i] {
                b[k] = e[j];
                k += 1;
                j += 1;
            }
        }
        (b, k)
    }
    /// the string is exactly this text
    pub fn same(&self, s: &String) {
        self.same_str(s.as_str());
        check!(s.len() == self.len());
        check!(s.is_empty() == (self.n == 0));
        check!(s.capacity() >= s.len());
        check!(s.as_bytes().len() == s.len());
    }
    pub fn same_str(&self, s: &str) { self.same_bytes(s.as_bytes()) }
    pub fn same_bytes(&self, b: &[u8]) {
        let (e, k) = self.bytes();
        check!(b.len() == k);
        let mut i = 0;
        while i < k {
            check!(b[i] == e[i]);
            sx::log(9100 + i as u32, b[i] as u64);
            i += 1;
        }
    }
}

pub type Ch = (u32, usize);
pub fn ch(c: Ch) -> char { unsafe { char::from_u32_unchecked(c.0) } }

/// Unicode, table 3-6
pub fn encode(c: Ch) -> [u8; 4] {
    let v = c.0;
    match c.1 {
        1 => [v as u8, 0, 0, 0],
        2 => [0xc0 | (v >> 6) as u8, 0x80 | (v & 0x3f) as u8, 0, 0],
        3 => [0xe0 | (v >> 12) as u8, 0x80 | ((v >> 6) & 0x3f) as u8, 0x80 | (v & 0x3f) as u8, 0],
        _ => [0xf0 | (v >> 18) as u8, 0x80 | ((v >> 12) & 0x3f) as u8, 0x80 | ((v >> 6) & 0x3f) as u8, 0x80 | (v & 0x3f) as u8],
    }
}

/// an arbitrary character, one path per encoded length
pub fn any_char() -> Ch {
    let l = 1 + sx::choose(4);
    char_of(l)
}
pub fn char_of(l: usize) -> Ch {
    let c = match l {
        1 => sx::range(0, 0x7f),
        2 => sx::range(0x80, 0x7ff),
        3 => {
            let c = sx::range(0x800, 0xffff);
            sx::assume(c < 0xd800 || c > 0xdfff);
            c
        }
        _ => sx::range(0x10000, 0x10ffff),
    };
    (c as u32, l)
}

pub fn any_text(max: usize) -> Text {
    let n = sx::choose(max + 1);
    let mut t = Text::new();
    for _ in 0..n { t.push(any_char()); }
    t
}

/// built without any operation of String
pub fn string_of(t: &Text, spare: usize) -> String {
    let (b, k) = t.bytes();
    let mut v = Vec::<u8>::with_capacity(k + spare);
    unsafe {
        let p = v.as_mut_ptr();
        for i in 0..k { p.add(i).write(b[i]); }
        v.set_len(k);
        String::from_utf8_unchecked(v)
    }
}
pub fn any_string(max: usize, spare: usize) -> (String, Text) {
    let t = any_text(max);
    let s = string_of(&t, sx::choose(spare + 1));
    (s, t)
}

/// the crate offers no way to make a Box<str>; it has the form of the Box<[u8]> of its bytes
pub fn boxed_str(t: &Text) -> Box<str> {
    let mut s = string_of(t, 0);
    let v = std::mem::replace(s.as_mut_vec(), Vec::new());
    let b: Box<[u8]> = v.into_boxed_slice();
    unsafe {
        let r = std::mem::transmute_copy::<Box<[u8]>, Box<str>>(&b);
        std::mem::forget(b);
        r
    }
}
