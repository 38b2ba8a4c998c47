//! native replay: reads lines `entry|params|inputs` and prints what happened
use crate::Harness;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

const MAX_ALLOC: usize = 64 << 20;
const N: usize = 1 << 16;
struct St {
    inp: [u64; N],
    n_inp: usize,
    pos: usize,
    out: [u64; N],
    n_out: usize,
    par: [u64; 32],
}
// counted by every thread
static LIVE: AtomicI64 = AtomicI64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
static mut S: St = St { inp: [0; N], n_inp: 0, pos: 0, out: [0; N], n_out: 0, par: [0; 32] };
fn s() -> &'static mut St {
    unsafe { &mut *std::ptr::addr_of_mut!(S) }
}
fn next() -> u64 {
    let s = s();
    // inputs beyond the recorded ones: the path ended before they mattered
    let v = if s.pos < s.n_inp { s.inp[s.pos] } else { 0 };
    s.pos += 1;
    v
}
#[no_mangle]
extern "C" fn sym_u8() -> u8 {
    next() as u8
}
#[no_mangle]
extern "C" fn sym_u16() -> u16 {
    next() as u16
}
#[no_mangle]
extern "C" fn sym_u32() -> u32 {
    next() as u32
}
#[no_mangle]
extern "C" fn sym_u64() -> u64 {
    next()
}
#[no_mangle]
extern "C" fn sym_choice(_n: u32) -> u32 {
    next() as u32
}
#[no_mangle]
extern "C" fn sym_split() {}
#[no_mangle]
extern "C" fn sym_assume(c: bool) {
    if !c {
        println!("ASSUME");
        std::process::exit(11)
    }
}
#[no_mangle]
extern "C" fn sym_assert(c: bool, p: *const u8, n: usize) {
    if !c {
        let id = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
        println!("ASSERT {}", id);
        std::process::exit(10)
    }
}
#[no_mangle]
extern "C" fn sym_cover(_p: *const u8, _n: usize) {}
#[no_mangle]
extern "C" fn sym_out(x: u64) {
    let s = s();
    s.out[s.n_out] = x;
    s.n_out += 1;
}
#[no_mangle]
unsafe extern "C" fn sym_alloc(size: usize, align: usize) -> *mut u8 {
    if size > MAX_ALLOC {
        return std::ptr::null_mut();
    }
    LIVE.fetch_add(1, Relaxed);
    COUNT.fetch_add(1, Relaxed);
    System.alloc(Layout::from_size_align_unchecked(size, align))
}
#[no_mangle]
unsafe extern "C" fn sym_dealloc(p: *mut u8, size: usize, align: usize) {
    LIVE.fetch_sub(1, Relaxed);
    System.dealloc(p, Layout::from_size_align_unchecked(size, align))
}
#[no_mangle]
unsafe extern "C" fn sym_realloc(p: *mut u8, old: usize, align: usize, new: usize) -> *mut u8 {
    if new > MAX_ALLOC {
        return std::ptr::null_mut();
    }
    COUNT.fetch_add(1, Relaxed);
    System.realloc(p, Layout::from_size_align_unchecked(old, align), new)
}
#[no_mangle]
extern "C" fn sym_heap_live() -> i64 {
    LIVE.load(Relaxed)
}
#[no_mangle]
extern "C" fn sym_alloc_count() -> u64 {
    COUNT.load(Relaxed)
}
#[no_mangle]
extern "C" fn sym_param(i: u32) -> u64 {
    s().par[i as usize]
}
#[no_mangle]
extern "C" fn sym_concrete(x: u64) -> u64 {
    x
}
#[no_mangle]
extern "C" fn sym_try(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> u8 {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(data))) {
        Ok(()) => 0,
        Err(e) => {
            drop(e);
            1
        }
    }
}

struct Data(*mut u8);
unsafe impl Send for Data {}
static mut THREADS: [Option<std::thread::JoinHandle<()>>; 8] = [const { None }; 8];
#[no_mangle]
extern "C" fn sym_spawn(f: extern "C" fn(*mut u8), data: *mut u8) -> u32 {
    let d = Data(data);
    let h = std::thread::spawn(move || {
        let d = d;
        f(d.0)
    });
    let t = unsafe { &mut *std::ptr::addr_of_mut!(THREADS) };
    let i = t.iter().position(|x| x.is_none()).unwrap();
    t[i] = Some(h);
    i as u32
}
#[no_mangle]
extern "C" fn sym_join(i: u32) {
    let t = unsafe { &mut *std::ptr::addr_of_mut!(THREADS) };
    if t[i as usize].take().unwrap().join().is_err() {
        println!("PANIC in a thread");
        std::process::exit(12)
    }
}
#[no_mangle]
extern "C" fn sym_preemptions(_n: u32) {}

pub fn main(t: &[Harness]) {
    std::panic::set_hook(Box::new(|_| {}));
    let file = std::env::args().nth(1).expect("input file");
    let text = std::fs::read_to_string(file).expect("read inputs");
    for line in text.lines() {
        let mut it = line.split('|');
        let entry = it.next().unwrap();
        let st = s();
        st.par = [0; 32];
        for (i, p) in it.next().unwrap().split(',').filter(|x| !x.is_empty()).enumerate() {
            st.par[i] = p.parse().unwrap();
        }
        st.n_inp = 0;
        for p in it.next().unwrap().split(',').filter(|x| !x.is_empty()) {
            st.inp[st.n_inp] = p.parse().unwrap();
            st.n_inp += 1;
        }
        st.pos = 0;
        st.n_out = 0;
        let f = t.iter().find(|(n, _)| *n == entry).expect("entry").1;
        LIVE.store(0, Relaxed);
        COUNT.store(0, Relaxed);
        match std::panic::catch_unwind(|| f()) {
            Ok(()) => {
                let o: Vec<String> = s().out[..s().n_out].iter().map(|x| x.to_string()).collect();
                println!("OK {}", o.join(","));
            }
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                println!("PANIC {}", m.replace('\n', " "));
            }
        }
    }
}
