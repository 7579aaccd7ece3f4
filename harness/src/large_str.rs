//! longer strings of characters of mixed widths, with arbitrary ones among them
use crate::env::*;
use crate::strs::{any_char, ch, encode, Ch};
use crate::{check, sx};
use lokky::string::String;

const FILE: u32 = 41;

harnesses! { ls_at ls_end ls_retain }

const MAX: usize = 180;
struct Long { c: [Ch; MAX], n: usize }
impl Long {
    fn insert(&mut self, i: usize, c: Ch) {
        let mut j = self.n;
        while j > i { self.c[j] = self.c[j - 1]; j -= 1; }
        self.c[i] = c;
        self.n += 1;
    }
    fn cut(&mut self, a: usize, b: usize) {
        let mut j = b;
        while j < self.n { self.c[a + j - b] = self.c[j]; j += 1; }
        self.n -= b - a;
    }
    /// byte position of a character
    fn byte(&self, i: usize) -> usize {
        let mut k = 0;
        let mut j = 0;
        while j < i { k += self.c[j].1; j += 1; }
        k
    }
    /// these bytes are characters a..b
    fn same_part(&self, a: usize, b: usize, s: &[u8]) {
        let mut k = 0;
        let mut i = a;
        while i < b {
            let e = encode(self.c[i]);
            check!(k + self.c[i].1 <= s.len());
            let mut j = 0;
            while j < self.c[i].1 { check!(s[k] == e[j]); k += 1; j += 1; }
            i += 1;
        }
        check!(k == s.len());
        if k > 0 { sx::log(9600, s[k - 1] as u64); }
    }
    fn same(&self, s: &String) {
        check!(s.capacity() >= s.len());
        self.same_part(0, self.n, s.as_bytes());
    }
}
const CH: [Ch; 7] = [(0x61, 1), (0xe9, 2), (0x7a, 1), (0x20ac, 3), (0x1f600, 4), (0x62, 1), (0x7ff, 2)];
fn long(n: usize, off: usize, spare: usize, free: usize) -> (String, Long) {
    let mut t = Long { c: [(0, 0); MAX], n: 0 };
    for i in 0..n {
        let c = if i == free { any_char() } else { CH[(i + off) % 7] };
        t.c[i] = c;
        t.n += 1;
    }
    let k = t.byte(n);
    let mut s = String::with_capacity(k + spare);
    for i in 0..n { s.push(ch(t.c[i])); }
    check!(s.len() == k);
    (s, t)
}
fn any_long() -> (String, Long, usize) {
    let n = [9, 36, 130][sx::choose(3)];
    let p = [0, n / 2, n - 2][sx::choose(3)];
    let k = sx::choose(2);
    let (s, t) = long(n, k * 3, k * 4, p);
    (s, t, p)
}
fn fin(s: String, t: &Long) {
    t.same(&s);
    let mut i = 0;
    for c in s.chars() { check!(i < t.n && c as u32 == t.c[i].0); i += 1; }
    check!(i == t.n);
    drop(s);
    done();
}

/// edits at a position
#[no_mangle]
pub fn ls_at() {
    init();
    let (mut s, mut t, p) = any_long();
    let n = t.n;
    let b = t.byte(p);
    match sx::choose(6) {
        0 => { let c = CH[sx::choose(2) * 3]; s.insert(b, ch(c)); t.insert(p, c); }
        1 => { let c = s.remove(b); check!(c as u32 == t.c[p].0); t.cut(p, p + 1); }
        2 => { s.truncate(b); t.n = p; }
        3 => {
            let w = s.split_off(b);
            t.same_part(p, n, w.as_bytes());
            t.n = p;
        }
        4 => {
            let (w, o) = long(12, 1, 0, 5);
            s.insert_str(b, &w);
            o.same(&w);
            for i in 0..o.n { t.insert(p + i, o.c[i]); }
        }
        _ => {
            // not the start of a character, or beyond the end: refused
            let wrong = sx::usize();
            sx::assume(wrong > t.byte(n) || (wrong > b && wrong < b + t.c[p].1));
            let r = match sx::choose(3) {
                0 => sx::catch(|| s.insert(wrong, 'x')),
                1 => sx::catch(|| { s.remove(wrong); }),
                _ => sx::catch(|| s.insert_str(wrong, "xy")),
            };
            check!(r.is_none());
            sx::cover(1);
        }
    }
    fin(s, &t);
}

/// edits at the end, whole strings
#[no_mangle]
pub fn ls_end() {
    init();
    let (mut s, mut t, _) = any_long();
    match sx::choose(6) {
        0 => { for i in 0..3 { let c = CH[i + 2]; s.push(ch(c)); t.insert(t.n, c); } }
        1 => { for _ in 0..3 { let c = s.pop().unwrap(); t.n -= 1; check!(c as u32 == t.c[t.n].0); } }
        2 => { let (w, o) = long(30, 2, 0, 7); s.push_str(&w); for i in 0..o.n { t.insert(t.n, o.c[i]); } }
        3 => { s.clear(); t.n = 0; }
        4 => { let w = s.clone(); t.same(&s); s = w; }
        _ => { let w = String::from(s.as_str()); t.same(&s); s = w; }
    }
    fin(s, &t);
}

#[no_mangle]
pub fn ls_retain() {
    init();
    let (mut s, mut t, _) = any_long();
    let k = sx::choose(6);
    let keep = |i: usize, n: usize| match k { 0 => i % 2 == 0, 1 => i < n / 2, 2 => i >= n / 2, 3 => i != n / 2, 4 => i % 5 < 2, _ => i + 1 != n };
    let n = t.n;
    let mut at = 0;
    s.retain(|c| {
        check!(at < n && c as u32 == t.c[at].0);
        at += 1;
        keep(at - 1, n)
    });
    check!(at == n);
    let mut j = 0;
    for i in 0..n { if keep(i, n) { t.c[j] = t.c[i]; j += 1; } }
    t.n = j;
    fin(s, &t);
}
