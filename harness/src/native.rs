//! Concrete replay of a counterexample.
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::OnceLock;

static VALS: OnceLock<Vec<u128>> = OnceLock::new();
static POS: AtomicUsize = AtomicUsize::new(0);
static ALLOW: AtomicBool = AtomicBool::new(false);

fn next() -> u64 {
    let v = VALS.get_or_init(|| {
        let p = std::env::var("SYM_REPLAY").unwrap_or_default();
        std::fs::read_to_string(p)
            .unwrap_or_default()
            .lines()
            .filter(|l| !l.starts_with('#'))
            .filter_map(|l| l.split_whitespace().last().and_then(|x| x.parse().ok()))
            .collect()
    });
    v.get(POS.fetch_add(1, Ordering::SeqCst)).copied().unwrap_or(0) as u64
}
fn fail(m: *const u8, n: usize) -> ! {
    let s = unsafe { std::slice::from_raw_parts(m, n) };
    println!("REPLAY-VIOLATION assertion: {}", String::from_utf8_lossy(s));
    std::process::exit(101);
}
#[no_mangle]
extern "C" fn __sym_u8() -> u8 {
    next() as u8
}
#[no_mangle]
extern "C" fn __sym_u16() -> u16 {
    next() as u16
}
#[no_mangle]
extern "C" fn __sym_u32() -> u32 {
    next() as u32
}
#[no_mangle]
extern "C" fn __sym_u64() -> u64 {
    next()
}
#[no_mangle]
extern "C" fn __sym_bool() -> u8 {
    (next() & 1) as u8
}
#[no_mangle]
extern "C" fn __sym_assume(c: u8) {
    if c == 0 {
        println!("REPLAY-ASSUME-FAILED");
        std::process::exit(0);
    }
}
#[no_mangle]
extern "C" fn __sym_assert(c: u8, m: *const u8, n: usize) {
    if c == 0 {
        fail(m, n);
    }
}
#[no_mangle]
extern "C" fn __sym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn __sym_decide(c: u8) -> u8 {
    (c != 0) as u8
}
#[no_mangle]
extern "C" fn __sym_ite(c: u8, a: u64, b: u64) -> u64 {
    if c != 0 { a } else { b }
}
#[no_mangle]
extern "C" fn __sym_allow_panic(c: u8) {
    static HOOK: OnceLock<()> = OnceLock::new();
    ALLOW.store(c != 0, Ordering::SeqCst);
    HOOK.get_or_init(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if ALLOW.load(Ordering::SeqCst) {
                println!("REPLAY-OK (permitted panic)");
                std::process::exit(0);
            }
            old(i);
        }));
    });
}
#[no_mangle]
extern "C" fn __sym_known(_p: *const u8, _n: usize, _c: u8) {}
#[no_mangle]
extern "C" fn __sym_witness(_id: u64) {}
#[no_mangle]
extern "C" fn __sym_trace(v: u64) {
    println!("TRACE {v}");
}

/// plain DPLL; returns whether the CNF is satisfiable with the inputs fixed
fn sat(l: &[u32], inp: &[u8]) -> bool {
    let cls: Vec<&[u32]> = l.split(|x| *x == u32::MAX).collect();
    let cls = &cls[..cls.len() - 1];
    let mx = l.iter().filter(|x| **x != u32::MAX).map(|x| (x >> 1) as usize).max().unwrap_or(0).max(inp.len());
    let mut a: Vec<i8> = vec![-1; mx + 1];
    for (i, v) in inp.iter().enumerate() {
        a[i] = (*v != 0) as i8;
    }
    fn go(cls: &[&[u32]], a: &mut Vec<i8>) -> bool {
        let mut trail = vec![];
        let mut pick = usize::MAX;
        loop {
            let mut ch = false;
            pick = usize::MAX;
            for c in cls {
                let (mut s, mut free, mut n) = (false, 0u32, 0);
                for &x in c.iter() {
                    match a[(x >> 1) as usize] {
                        -1 => {
                            free = x;
                            n += 1;
                        }
                        v => s |= v as u32 != x & 1,
                    }
                }
                if s {
                    continue;
                }
                if n == 0 {
                    for t in trail {
                        a[t] = -1;
                    }
                    return false;
                }
                if n == 1 {
                    a[(free >> 1) as usize] = 1 - (free & 1) as i8;
                    trail.push((free >> 1) as usize);
                    ch = true;
                } else {
                    pick = (free >> 1) as usize;
                }
            }
            if !ch {
                break;
            }
        }
        if pick == usize::MAX {
            return true;
        }
        for v in 0..2 {
            a[pick] = v;
            if go(cls, a) {
                return true;
            }
        }
        a[pick] = -1;
        for t in trail {
            a[t] = -1;
        }
        false
    }
    go(cls, &mut a)
}
#[no_mangle]
extern "C" fn __sym_cnf_implies(l: *const u32, n: usize, i: *const u8, ni: usize, c: u8, m: *const u8, mn: usize) {
    let (l, i) = unsafe { (std::slice::from_raw_parts(l, n), std::slice::from_raw_parts(i, ni)) };
    if c == 0 && sat(l, i) {
        fail(m, mn);
    }
}
#[no_mangle]
extern "C" fn __sym_cnf_exists(l: *const u32, n: usize, i: *const u8, ni: usize, c: u8, m: *const u8, mn: usize) {
    let (l, i) = unsafe { (std::slice::from_raw_parts(l, n), std::slice::from_raw_parts(i, ni)) };
    if c != 0 && !sat(l, i) {
        fail(m, mn);
    }
}
