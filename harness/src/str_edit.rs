//! String edits against edits of a character sequence
use crate::env::*;
use crate::strs::*;
use crate::{check, sx};
use lokky::string::String;
use std::fmt::Write;

const FILE: u32 = 21;

harnesses! {
    st_push st_pop st_push_str st_insert st_insert_str st_remove st_truncate st_split_off st_retain st_clear
    st_extend st_extend_owned st_add st_write st_mut st_two_ops st_retain_t st_two_ops_t st_remove_t
}

fn fin(s: String, t: &Text) {
    t.same(&s);
    // reading it back as characters gives them
    let mut i = 0;
    for c in s.chars() {
        check!(i < t.n && c as u32 == t.c[i]);
        i += 1;
    }
    check!(i == t.n);
    drop(s);
    done();
}

#[no_mangle]
pub fn st_push() {
    init();
    let (mut s, mut t) = any_string(2, 3);
    let c = any_char();
    s.push(ch(c));
    t.push(c);
    fin(s, &t);
}

#[no_mangle]
pub fn st_pop() {
    init();
    let (mut s, mut t) = any_string(3, 0);
    match s.pop() {
        None => check!(t.n == 0),
        Some(c) => { check!(t.n > 0); let k = t.remove(t.n - 1); check!(c as u32 == k.0); }
    }
    fin(s, &t);
}

#[no_mangle]
pub fn st_push_str() {
    init();
    let (mut s, mut t) = any_string(2, 2);
    let u = any_text(2);
    let w = string_of(&u, 0);
    s.push_str(&w);
    t.extend(&u);
    u.same(&w);
    drop(w);
    fin(s, &t);
}

#[no_mangle]
pub fn st_insert() {
    init();
    let (mut s, mut t) = any_string(2, 1);
    let c = any_char();
    let i = sx::usize();
    let n = t.len();
    let r = sx::catch(|| s.insert(i, ch(c)));
    let at = if i <= n { t.at(sx::conc(i)) } else { None };
    match at {
        Some(k) => { check!(r.is_some()); t.insert(k, c); sx::cover(1); }
        None => { check!(r.is_none()); sx::cover(2); }
    }
    fin(s, &t);
}

#[no_mangle]
pub fn st_insert_str() {
    init();
    let (mut s, mut t) = any_string(2, 1);
    let u = any_text(1);
    let w = string_of(&u, 0);
    let i = sx::usize();
    let n = t.len();
    let r = sx::catch(|| s.insert_str(i, &w));
    let at = if i <= n { t.at(sx::conc(i)) } else { None };
    match at {
        Some(k) => {
            check!(r.is_some());
            let mut x = t.slice(0, k);
            x.extend(&u);
            x.extend(&t.slice(k, t.n));
            t = x;
            sx::cover(3);
        }
        None => { check!(r.is_none()); sx::cover(4); }
    }
    drop(w);
    fin(s, &t);
}

fn remove(max: usize) {
    init();
    let (mut s, mut t) = any_string(max, 0);
    let i = sx::usize();
    let n = t.len();
    let r = sx::catch(|| s.remove(i));
    let at = if i < n { t.at(sx::conc(i)) } else { None };
    match at {
        Some(k) => { check!(r.is_some()); check!(r.unwrap() as u32 == t.remove(k).0); sx::cover(5); }
        None => { check!(r.is_none()); sx::cover(6); }
    }
    fin(s, &t);
}
#[no_mangle] pub fn st_remove() { remove(2) }
#[no_mangle] pub fn st_remove_t() { remove(3) }

#[no_mangle]
pub fn st_truncate() {
    init();
    let (mut s, mut t) = any_string(3, 0);
    let i = sx::usize();
    let n = t.len();
    let r = sx::catch(|| s.truncate(i));
    if i >= n {
        check!(r.is_some());
    } else {
        match t.at(sx::conc(i)) {
            Some(k) => { check!(r.is_some()); t.n = k; sx::cover(7); }
            None => { check!(r.is_none()); sx::cover(8); }
        }
    }
    fin(s, &t);
}

#[no_mangle]
pub fn st_split_off() {
    init();
    let (mut s, mut t) = any_string(3, 0);
    let i = sx::usize();
    let n = t.len();
    let r = sx::catch(|| s.split_off(i));
    let at = if i <= n { t.at(sx::conc(i)) } else { None };
    match at {
        Some(k) => {
            let w = r.unwrap();
            t.slice(k, t.n).same(&w);
            t.n = k;
            drop(w);
            sx::cover(9);
        }
        None => { check!(r.is_none()); sx::cover(10); }
    }
    fin(s, &t);
}

fn retain(max: usize) {
    init();
    let (mut s, t) = any_string(max, 0);
    let mut keep = [false; MAXC];
    let mut seen = 0;
    s.retain(|c| {
        check!(seen < t.n);
        check!(c as u32 == t.c[seen]);
        keep[seen] = sx::bool();
        seen += 1;
        keep[seen - 1]
    });
    check!(seen == t.n);
    let mut m = Text::new();
    for i in 0..t.n {
        if keep[i] { m.push((t.c[i], t.l[i])); }
    }
    fin(s, &m);
}
#[no_mangle] pub fn st_retain() { retain(3) }
#[no_mangle] pub fn st_retain_t() { retain(4) }

#[no_mangle]
pub fn st_clear() {
    init();
    let (mut s, t) = any_string(2, 1);
    let cap = s.capacity();
    s.clear();
    check!(s.capacity() == cap);
    check!(s.is_empty() && s.len() == 0);
    let mut t2 = Text::new();
    s.push_str(string_of(&t, 0).as_str());
    t2.extend(&t);
    fin(s, &t2);
}

/// iterators of characters, references and slices
#[no_mangle]
pub fn st_extend() {
    init();
    let (mut s, mut t) = any_string(1, 1);
    let u = any_text(2);
    let chars = [ch((if u.n > 0 { u.c[0] } else { 65 }, 0)), ch((if u.n > 1 { u.c[1] } else { 65 }, 0))];
    match sx::choose(3) {
        0 => s.extend(chars[..u.n].iter().cloned()),
        1 => s.extend(chars[..u.n].iter()),
        _ => {
            let (a, b) = (string_of(&u, 0), string_of(&u, 1));
            s.extend([a.as_str(), b.as_str()]);
            t.extend(&u);
        }
    }
    t.extend(&u);
    fin(s, &t);
}

/// iterators of strings and boxed strings
#[no_mangle]
pub fn st_extend_owned() {
    init();
    let (mut s, mut t) = any_string(1, 1);
    let (u, w) = (any_text(1), any_text(1));
    match sx::choose(3) {
        0 => s.extend([string_of(&u, 1), string_of(&w, 0)]),
        1 => s.extend([boxed_str(&u), boxed_str(&w)]),
        _ => s.extend(Some(string_of(&u, 0)).into_iter().chain(Some(string_of(&w, 0)))),
    }
    t.extend(&u);
    t.extend(&w);
    fin(s, &t);
}

#[no_mangle]
pub fn st_add() {
    init();
    let (mut s, mut t) = any_string(2, 1);
    let u = any_text(1);
    let w = string_of(&u, 0);
    if sx::bool() { s = s + &w; } else { s += &w; }
    t.extend(&u);
    drop(w);
    fin(s, &t);
}

#[no_mangle]
pub fn st_write() {
    init();
    let (mut s, mut t) = any_string(2, 1);
    let u = any_text(1);
    let w = string_of(&u, 0);
    check!(s.write_str(&w).is_ok());
    t.extend(&u);
    let c = any_char();
    check!(s.write_char(ch(c)).is_ok());
    t.push(c);
    drop(w);
    fin(s, &t);
}

/// edits through the mutable views
#[no_mangle]
pub fn st_mut() {
    init();
    let (mut s, mut t) = any_string(2, 0);
    match sx::choose(4) {
        0 => s.as_mut_str().make_ascii_lowercase(),
        1 => (&mut s[..]).make_ascii_lowercase(),
        2 => AsMut::<str>::as_mut(&mut s).make_ascii_lowercase(),
        _ => s.make_ascii_lowercase(),
    }
    for i in 0..t.n {
        if t.c[i] >= 65 && t.c[i] <= 90 { t.c[i] += 32; }
    }
    fin(s, &t);
}

fn two(steps: usize, max: usize) {
    init();
    let (mut s, mut t) = any_string(max, 0);
    for _ in 0..steps {
        match sx::choose(6) {
            0 => { let c = any_char(); s.push(ch(c)); t.push(c); }
            1 => { match s.pop() { Some(c) => { check!(t.n > 0); check!(c as u32 == t.remove(t.n - 1).0); } None => check!(t.n == 0) } }
            2 => { let k = sx::choose(t.n + 1); let i = t.slice(0, k).len(); let c = any_char(); s.insert(i, ch(c)); t.insert(k, c); }
            3 => { if t.n > 0 { let k = sx::choose(t.n); let i = t.slice(0, k).len(); check!(s.remove(i) as u32 == t.remove(k).0); } }
            4 => { let mut i = 0; let j = sx::choose(t.n + 1); s.retain(|_| { i += 1; i - 1 != j }); if j < t.n { t.remove(j); } }
            _ => { let k = sx::choose(t.n + 1); let i = t.slice(0, k).len(); let w = s.split_off(i); let mut x = t.slice(k, t.n); t.n = k; x.same(&w); let o = s; s = w; s += &o; x.extend(&t); t = x; }
        }
        t.same(&s);
    }
    fin(s, &t);
}
#[no_mangle] pub fn st_two_ops() { two(2, 1) }
#[no_mangle] pub fn st_two_ops_t() { two(2, 2) }
