//! Native replay: runs harnesses on concrete inputs against the real code.
//!   replay <cases-file> <poison-byte>
//! Each line of the cases file: `<harness> <input>...`; one result line per case on stdout.
use std::io::Write;

#[cfg(not(miri))]
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
}

static mut INPUTS: Vec<u64> = Vec::new();
static mut POS: usize = 0;
static mut LOG: Vec<(u32, u64)> = Vec::new();
static mut POISON: u8 = 0xa5;

struct Block {
    base: usize,
    size: usize,
    align: usize,
    owner: u32,
    live: bool,
    map: usize,
    maplen: usize,
}
static mut BLOCKS: Vec<Block> = Vec::new();

#[allow(static_mut_refs)]
fn finish(status: &str, detail: &str) -> ! {
    let mut s = String::new();
    unsafe {
        for (t, v) in LOG.iter() {
            if !s.is_empty() {
                s.push(',');
            }
            s.push_str(&format!("[{},{}]", t, v));
        }
    }
    let line = format!("{{\"status\":\"{}\",\"detail\":\"{}\",\"log\":[{}]}}\n", status, detail, s);
    let out = std::io::stdout();
    let mut o = out.lock();
    let _ = o.write_all(line.as_bytes());
    let _ = o.flush();
    #[cfg(not(miri))]
    unsafe {
        _exit(0)
    }
    #[cfg(miri)]
    std::process::exit(0)
}

#[allow(static_mut_refs)]
fn next() -> u64 {
    unsafe {
        let i = POS;
        POS += 1;
        if i < INPUTS.len() { INPUTS[i] } else { 0 }
    }
}

#[no_mangle]
extern "C" fn sx_u8() -> u8 { next() as u8 }
#[no_mangle]
extern "C" fn sx_u16() -> u16 { next() as u16 }
#[no_mangle]
extern "C" fn sx_u32() -> u32 { next() as u32 }
#[no_mangle]
extern "C" fn sx_u64() -> u64 { next() }
#[no_mangle]
extern "C" fn sx_bool() -> bool { next() & 1 == 1 }
#[no_mangle]
extern "C" fn sx_range(lo: u64, hi: u64) -> u64 {
    let v = next();
    if v < lo || v > hi {
        finish("assume", "range");
    }
    v
}
#[no_mangle]
extern "C" fn sx_choose(n: u64) -> u64 {
    let v = next();
    if v >= n {
        finish("assume", "choose");
    }
    v
}
#[no_mangle]
extern "C" fn sx_conc(v: u64) -> u64 { v }
#[no_mangle]
extern "C" fn sx_assume(c: bool) {
    if !c {
        finish("assume", "");
    }
}
#[no_mangle]
extern "C-unwind" fn sx_assert(c: bool, id: u32) {
    if !c {
        finish("assert", &format!("assertion {}", id));
    }
}
#[no_mangle]
#[allow(static_mut_refs)]
extern "C" fn sx_log(tag: u32, v: u64) { unsafe { LOG.push((tag, v)) } }
#[no_mangle]
extern "C" fn sx_cover(_i: u32) {}

#[no_mangle]
#[allow(static_mut_refs)]
extern "C" fn sx_alloc(size: usize, align: usize, owner: u32) -> *mut u8 {
    unsafe {
        #[cfg(not(miri))]
        let (base, map, maplen) = {
            // block ends at a page boundary followed by an inaccessible page; never reused
            let pages = (size + align + 4095) / 4096;
            let len = (pages + 2) * 4096;
            let m = mmap(std::ptr::null_mut(), len, 3, 0x22, -1, 0);
            if m as isize == -1 {
                finish("error", "mmap");
            }
            mprotect(m, 4096, 0);
            let end = m as usize + (pages + 1) * 4096;
            mprotect(end as *mut u8, 4096, 0);
            let base = (end - size) & !(align - 1);
            let mut p = m as usize + 4096;
            while p < end {
                *(p as *mut u8) = POISON;
                p += 1;
            }
            (base, m as usize, len)
        };
        #[cfg(miri)]
        let (base, map, maplen) = {
            let p = std::alloc::alloc(std::alloc::Layout::from_size_align(size, align).unwrap());
            (p as usize, 0usize, 0usize)
        };
        BLOCKS.push(Block { base, size, align, owner, live: true, map, maplen });
        base as *mut u8
    }
}

#[allow(static_mut_refs)]
fn check_block(p: *mut u8, size: usize, align: usize, owner: u32, what: &str) -> &'static mut Block {
    unsafe {
        for b in BLOCKS.iter_mut() {
            if b.base == p as usize && (b.live || b.map != 0) {
                if !b.live {
                    finish("alloc", &format!("{} of an already freed block", what));
                }
                if b.size != size || b.align != align {
                    finish("alloc", &format!("{} with layout ({},{}) but allocated with ({},{})", what, size, align, b.size, b.align));
                }
                if b.owner != owner {
                    finish("alloc", &format!("{} through allocator {} but allocated by {}", what, owner, b.owner));
                }
                return b;
            }
        }
        finish("alloc", &format!("{} of a pointer that is not an allocated block", what))
    }
}

fn release(b: &mut Block) {
    b.live = false;
    #[cfg(not(miri))]
    unsafe {
        // slack bytes around the block must be untouched
        let mut p = b.map + 4096;
        let end = b.map + b.maplen - 4096;
        while p < end {
            if (p < b.base || p >= b.base + b.size) && *(p as *mut u8) != POISON {
                finish("oob", "bytes next to a block were modified");
            }
            p += 1;
        }
        mprotect(b.map as *mut u8, b.maplen, 0);
    }
    #[cfg(miri)]
    unsafe {
        std::alloc::dealloc(b.base as *mut u8, std::alloc::Layout::from_size_align(b.size, b.align).unwrap());
    }
}

#[no_mangle]
extern "C" fn sx_free(p: *mut u8, size: usize, align: usize, owner: u32) {
    let b = check_block(p, size, align, owner, "free");
    release(b);
}
#[no_mangle]
extern "C" fn sx_realloc(p: *mut u8, old: usize, align: usize, new: usize, owner: u32) -> *mut u8 {
    check_block(p, old, align, owner, "realloc");
    let q = sx_alloc(new, align, owner);
    unsafe { std::ptr::copy_nonoverlapping(p as *const std::mem::MaybeUninit<u8>, q as *mut std::mem::MaybeUninit<u8>, old.min(new)) };
    let b = check_block(p, old, align, owner, "realloc");
    release(b);
    q
}
#[no_mangle]
#[allow(static_mut_refs)]
extern "C" fn sx_live() -> u64 { unsafe { BLOCKS.iter().filter(|b| b.live).count() as u64 } }
#[no_mangle]
extern "C-unwind" fn sx_try(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> bool {
    let d = data as usize;
    std::panic::catch_unwind(move || f(d as *mut u8)).is_ok()
}

#[allow(static_mut_refs)]
fn run(name: &str, inputs: Vec<u64>) -> ! {
    unsafe { INPUTS = inputs };
    std::panic::set_hook(Box::new(|_| {}));
    for (n, f) in harness::table() {
        if n == name {
            let r = std::panic::catch_unwind(|| f());
            match r {
                Ok(()) => finish("ok", ""),
                Err(_) => finish("panic", "unexpected panic"),
            }
        }
    }
    finish("error", "no such harness")
}

fn parse(l: &str) -> (String, Vec<u64>) {
    let mut it = l.split_whitespace();
    let n = it.next().unwrap().to_string();
    (n, it.map(|x| x.parse().unwrap()).collect())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 2 {
        unsafe { POISON = a[2].parse().unwrap() };
    }
    #[cfg(miri)]
    {
        let (n, i) = parse(&a[1]);
        run(&n, i);
    }
    #[cfg(not(miri))]
    {
        let text = std::fs::read_to_string(&a[1]).unwrap();
        for l in text.lines() {
            if l.trim().is_empty() {
                continue;
            }
            let (n, i) = parse(l);
            let _ = std::io::stdout().flush();
            unsafe {
                let pid = fork();
                if pid == 0 {
                    alarm(10);
                    run(&n, i);
                }
                let mut st = 0;
                waitpid(pid, &mut st, 0);
                let sig = st & 0x7f;
                if sig != 0 {
                    println!("{{\"status\":\"signal\",\"detail\":\"signal {}\",\"log\":[]}}", sig);
                } else if st != 0 {
                    println!("{{\"status\":\"signal\",\"detail\":\"exit {}\",\"log\":[]}}", st >> 8);
                }
            }
        }
    }
}
