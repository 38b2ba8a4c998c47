//! The symbolic executor.
use crate::ir::*;
use crate::term::{mask, sext, Model, Node, Terms, T};
use crate::dec::Dec;
use crate::order::Order;
use crate::z3::Res;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub const HBASE: u64 = 0x2000_0000_0000;
pub const SBASE: u64 = 0x3000_0000_0000;
pub const SLOT: u64 = 0x1_0000;
pub const MAX_ALLOC: u64 = 64 << 20;
const NOSYM: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global(bool),
}
#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub align: u64,
    pub kind: Kind,
    pub data: Vec<u8>,
    pub undef: Vec<u8>,        // empty: fully defined
    pub sym: Vec<(u32, u8)>,   // empty: fully concrete
}
#[derive(Clone)]
enum Slot {
    Obj(Rc<Obj>),
    Back(u64),
    Freed,
}
#[derive(Clone)]
pub struct Frame {
    f: &'static Func,
    pc: u32,
    block: u32,
    regs: Vec<Val>,
    sp: usize, // stack objects below this belong to callers
    is_try: bool,
    exc: Option<()>,
}
// ---------- threads ----------
pub const NT: usize = 4;
type Clock = [u32; NT];
fn cjoin(a: &mut Clock, b: &Clock) {
    for i in 0..NT {
        a[i] = a[i].max(b[i]);
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Wait {
    No,
    /// until the masked bits of the byte are zero
    Lock(u64, u8),
    Join(usize),
    /// until the four bytes are no longer these
    Futex(u64, u128),
}
/// a thread that is not running: its registers and stack; its clock always
#[derive(Clone)]
struct Thread {
    ctx: Option<(Vec<Rc<Frame>>, Frame, Vec<Rc<Obj>>, u64)>,
    clock: Clock,
    acq: Clock, // what an acquire fence would synchronise with
    rel: Clock, // clock of the last release fence
    wait: Wait,
    done: bool,
    go: bool, // was chosen to run its next atomic operation
    /// the atomic operation it was interrupted at: address, size, whether it writes, whether another thread has since made an access that conflicts
    pend: Option<(u64, u64, bool, bool)>,
}
/// clocks of the last accesses to a byte
#[derive(Clone, Copy, Default)]
struct Acc {
    w: Clock,
    r: Clock,
    aw: Clock,
    ar: Clock,
}
#[derive(Clone)]
struct Threads {
    cur: usize,
    v: Vec<Thread>,
    shadow: Rc<HashMap<u64, Acc>>,
    sync: Rc<HashMap<u64, Clock>>,
    left: u32, // preemptions left
    own: Rc<HashMap<u64, usize>>, // what was allocated since, and by which thread
    sched: Vec<u8>,
}
#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    top: Frame,
    heap: Vec<Rc<Vec<Slot>>>,
    nheap: u64,
    stack: Vec<Rc<Obj>>,
    gover: BTreeMap<u32, Rc<Obj>>,
    path: Vec<T>,
    facts: Rc<HashMap<T, bool>>,
    order: Rc<Order>,
    conc: HashMap<T, u128>,
    model: Rc<Model>,
    inputs: Vec<(u32, Val)>, // width (0 = choice), value
    outs: Vec<Val>,
    nfresh: u32,
    live: i64,
    allocs: u64,
    steps: u64,
    panic: Option<String>,
    choices: Vec<u32>,
    covers: Rc<HashSet<String>>,
    sb: u64, // where the running thread's stack is
    preempt: u32,
    th: Option<Box<Threads>>,
}
pub enum Stop {
    Viol(String, String),
    Kill,
    Unsup(String),
}
type R<X> = Result<X, Stop>;

#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(u32, u128)>,
    pub stack: Vec<String>,
}
pub struct PathSample {
    pub inputs: Vec<(u32, u128)>,
    pub outs: Vec<u128>,
}

pub struct Cfg {
    pub params: Vec<u64>,
    pub shard: (u32, u32),
    pub max_steps: u64,
    pub samples: usize,
    pub deadline: f64,
    pub max_viol: usize,
    pub trace: bool,
    pub stop_ids: bool,
}

pub struct Eng {
    pub m: &'static Module,
    pub tm: Terms,
    pub sv: Dec,
    pub cfg: Cfg,
    gobjs: HashMap<u32, Rc<Obj>>,
    work: Vec<State>,
    nmodel: u32,
    pub steps: u64,
    pub forks: u64,
    pub paths: u64,
    pub killed: u64,
    pub asserts: u64,
    pub asserts_solver: u64,
    pub branches: u64,
    pub fast_facts: u64,
    pub fast_order: u64,
    pub fast_tick: u64,
    derive: bool,
    lemmas: HashSet<(T, T)>,
    rebuilds: u64,
    pub viols: Vec<Violation>,
    pub samples: Vec<PathSample>,
    pub covers: BTreeMap<String, u64>,
    pub assert_ids: BTreeMap<String, u64>,
    pub dbg_seen: Vec<u8>,
    pub fn_seen: HashSet<u32>,
    pub unsup: Option<String>,
    pub t0: std::time::Instant,
    seen_viol: HashSet<String>,
    pub timed_out: bool,
    choice_hist: BTreeMap<usize, u64>,
}

// function kinds
const K_UNSET: u32 = 0;
const K_DEF: u32 = 1;
const K_PANIC: u32 = 2;
const K_ABORT: u32 = 3;
const K_BUILTIN: u32 = 4;
const K_UNKNOWN: u32 = 5;
const K_NOP: u32 = 6;

/// the path a contended lock takes: 1 parking_lot's byte lock, 2 std's futex lock
fn lock_slow(name: &str) -> Option<u8> {
    if name.contains("RawMutex") && name.contains("9lock_slow") {
        Some(1)
    } else if name.contains("futex") && name.contains("14lock_contended") {
        Some(2)
    } else {
        None
    }
}

fn classify(name: &str, defined: bool) -> u32 {
    if name.starts_with("sym_") && !defined {
        return K_BUILTIN;
    }
    if name.starts_with("llvm.") {
        for p in ["llvm.lifetime", "llvm.experimental.noalias", "llvm.prefetch", "llvm.invariant", "llvm.donothing", "llvm.x86.sse2.pause", "llvm.dbg", "llvm.sideeffect", "llvm.var.annotation"] {
            if name.starts_with(p) {
                return if p == "llvm.lifetime" { K_BUILTIN } else { K_NOP };
            }
        }
        return K_BUILTIN;
    }
    if lock_slow(name).is_some() {
        return K_BUILTIN;
    }
    let panics = name.contains("9panicking") && (name.contains("4core9panicking") || name.contains("3std9panicking"));
    if panics {
        if name.contains("panic_count") || name.contains("set_hook") || name.contains("take_hook") || name.contains("9panicking8panicking") {
        } else if name.contains("panic_cannot_unwind") || name.contains("panic_in_cleanup") || name.contains("panic_nounwind") || name.contains("panic_misaligned") || name.contains("panic_null_pointer") || name.contains("panic_invalid_enum") {
            return K_ABORT;
        } else if name.contains("panic") && !name.contains("panic_info") {
            // any entry point of the panic machinery
            for p in ["9panic_fmt", "5panic", "panic_bounds_check", "panic_display", "panic_str", "panic_explicit", "assert_failed", "unreachable_display", "begin_panic", "panic_handler", "rust_panic", "panic_const"] {
                if name.contains(p) {
                    return K_PANIC;
                }
            }
        }
    }
    if name.contains("18handle_alloc_error") || name.contains("rust_alloc_error_handler") || name.contains("rdl_alloc_error_handler") || name.contains("rdl_oom") || name.contains("13process5abort") {
        return K_ABORT;
    }
    if name.contains("rust_start_panic") || name.contains("_Unwind_RaiseException") {
        return K_PANIC;
    }
    if name == "abort" {
        return K_ABORT;
    }
    if defined {
        return K_DEF;
    }
    match name {
        "memcmp" | "bcmp" | "strlen" | "getrandom" | "syscall" | "__cxa_thread_atexit_impl" | "memcpy" | "memmove" | "memset" | "__errno_location" => K_BUILTIN,
        _ => K_UNKNOWN,
    }
}

impl Eng {
    pub fn new(m: &'static Module, cfg: Cfg, timeout_ms: u32, seed: u32, z3_every: u64) -> Eng {
        Eng {
            m,
            tm: Terms::new(),
            sv: Dec::new(timeout_ms, seed, z3_every),
            dbg_seen: vec![0; m.meta.len() + 1],
            cfg,
            gobjs: HashMap::new(),
            work: vec![],
            nmodel: 1,
            steps: 0,
            forks: 0,
            paths: 0,
            killed: 0,
            asserts: 0,
            asserts_solver: 0,
            branches: 0,
            fast_facts: 0,
            fast_order: 0,
            fast_tick: 0,
            lemmas: HashSet::new(),
            rebuilds: 0,
            derive: std::env::var("SYMEX_DERIVE").is_ok(),
            viols: vec![],
            samples: vec![],
            covers: BTreeMap::new(),
            assert_ids: BTreeMap::new(),
            fn_seen: HashSet::new(),
            unsup: None,
            t0: std::time::Instant::now(),
            seen_viol: HashSet::new(),
            timed_out: false,
            choice_hist: BTreeMap::new(),
        }
    }

    // ---------- memory ----------
    fn new_obj(base: u64, size: u64, align: u64, kind: Kind) -> Obj {
        Obj { base, size, align, kind, data: vec![0; size as usize], undef: vec![0xff; size as usize], sym: vec![] }
    }
    fn heap_alloc(&mut self, st: &mut State, size: u64, align: u64) -> u64 {
        let base = HBASE + st.nheap * SLOT;
        let n = size / SLOT + 1;
        let first = st.nheap;
        for i in 0..n {
            let s = if i == 0 { Slot::Obj(Rc::new(Self::new_obj(base, size, align, Kind::Heap))) } else { Slot::Back(first) };
            let ci = (st.nheap / 64) as usize;
            if ci == st.heap.len() {
                st.heap.push(Rc::new(Vec::with_capacity(64)));
            }
            Rc::make_mut(&mut st.heap[ci]).push(s);
            st.nheap += 1;
        }
        st.live += 1;
        st.allocs += 1;
        if let Some(th) = &mut st.th {
            let c = th.cur;
            Rc::make_mut(&mut th.own).insert(base, c);
        }
        base
    }
    fn gobj(&mut self, g: u32) -> R<Rc<Obj>> {
        if let Some(o) = self.gobjs.get(&g) {
            return Ok(o.clone());
        }
        let base = self.m.gaddr(g);
        let (ty, init) = self.m.ginit(g);
        let size = ty.size();
        let ge = &self.m.globals[g as usize];
        let mut o = Self::new_obj(base, size, 16, Kind::Global(ge.constant));
        match init {
            Some(v) => {
                self.write_val(&mut o, 0, &ty, &v)?;
                if o.undef.iter().all(|x| *x == 0) {
                    o.undef = vec![];
                }
            }
            None => {
                // external global: zero (weak symbols)
                o.undef = vec![];
            }
        }
        let o = Rc::new(o);
        self.gobjs.insert(g, o.clone());
        Ok(o)
    }
    fn bad(&self, addr: u64, n: u64, what: &str) -> Stop {
        let w = if addr < 0x1000 {
            "null or dangling pointer".to_string()
        } else if addr >= FBASE {
            "function address".to_string()
        } else {
            format!("address {:#x}", addr)
        };
        Stop::Viol("memory".into(), format!("{} of {} bytes at {}", what, n, w))
    }
    /// locate the object holding [addr, addr+n)
    fn find(&mut self, st: &State, addr: u64, n: u64, what: &str) -> R<(Rc<Obj>, u64)> {
        let o = if addr >= st.sb && addr < st.sb + ((st.stack.len() as u64) << 16) {
            st.stack[((addr - st.sb) >> 16) as usize].clone()
        } else if addr >= HBASE && addr < HBASE + (st.nheap << 16) {
            let mut i = (addr - HBASE) >> 16;
            loop {
                match &st.heap[(i / 64) as usize][(i % 64) as usize] {
                    Slot::Obj(o) => break o.clone(),
                    Slot::Back(k) => i = *k,
                    Slot::Freed => {
                        return Err(Stop::Viol("memory".into(), format!("use after free: {} of {} bytes", what, n)));
                    }
                }
            }
        } else if addr >= GBASE && addr < HBASE {
            let slot = ((addr - GBASE) >> 16) as usize;
            let g = { self.m.galloc.borrow().get(slot).copied() };
            match g {
                Some(g) => match st.gover.get(&g) {
                    Some(o) => o.clone(),
                    None => self.gobj(g)?,
                },
                None => return Err(self.bad(addr, n, what)),
            }
        } else {
            return Err(self.bad(addr, n, what));
        };
        let off = addr - o.base;
        if off.checked_add(n).map_or(true, |e| e > o.size) {
            return Err(Stop::Viol(
                "memory".into(),
                format!("out of bounds {} of {} bytes at offset {} of a {} byte {:?} object", what, n, off as i64, o.size, o.kind),
            ));
        }
        Ok((o, off))
    }
    fn with_obj<X>(&mut self, st: &mut State, addr: u64, n: u64, f: impl FnOnce(&mut Self, &mut Obj, u64) -> R<X>) -> R<X> {
        if addr >= st.sb && addr < st.sb + ((st.stack.len() as u64) << 16) {
            self.find(st, addr, n, "write")?;
            let i = ((addr - st.sb) >> 16) as usize;
            let o = Rc::make_mut(&mut st.stack[i]);
            let off = addr - o.base;
            f(self, o, off)
        } else if addr >= HBASE && addr < HBASE + (st.nheap << 16) {
            let (o, _) = self.find(st, addr, n, "write")?;
            let i = (o.base - HBASE) >> 16;
            drop(o);
            let ch = Rc::make_mut(&mut st.heap[(i / 64) as usize]);
            match &mut ch[(i % 64) as usize] {
                Slot::Obj(o) => {
                    let o = Rc::make_mut(o);
                    let off = addr - o.base;
                    f(self, o, off)
                }
                _ => unreachable!(),
            }
        } else {
            let (o, off) = self.find(st, addr, n, "write")?;
            if let Kind::Global(c) = o.kind {
                if c {
                    return Err(Stop::Viol("memory".into(), "write to constant".into()));
                }
                let slot = ((o.base - GBASE) >> 16) as usize;
                let g = self.m.galloc.borrow()[slot];
                let e = st.gover.entry(g).or_insert(o);
                return f(self, Rc::make_mut(e), off);
            }
            Err(self.bad(addr, n, "write"))
        }
    }
    fn write_bits(&mut self, o: &mut Obj, off: u64, nbytes: u64, t: &Val, w: u32) {
        let off = off as usize;
        let n = nbytes as usize;
        match t {
            Val::Int(v) => {
                for i in 0..n {
                    o.data[off + i] = if i < 16 { (v >> (8 * i)) as u8 } else { 0 };
                }
                if !o.undef.is_empty() {
                    for i in 0..n {
                        o.undef[off + i] = 0;
                    }
                }
                if !o.sym.is_empty() {
                    for i in 0..n {
                        o.sym[off + i].0 = NOSYM;
                    }
                }
            }
            Val::Undef | Val::Agg(_) => {
                if o.undef.is_empty() {
                    o.undef = vec![0; o.size as usize];
                }
                for i in 0..n {
                    o.undef[off + i] = 0xff;
                    o.data[off + i] = 0;
                }
                if !o.sym.is_empty() {
                    for i in 0..n {
                        o.sym[off + i].0 = NOSYM;
                    }
                }
            }
            Val::Sym(t) => {
                let t = if w % 8 != 0 { self.tm.zext(8 * nbytes as u32, *t) } else { *t };
                if let Some(v) = self.tm.cv(t) {
                    return self.write_bits(o, off as u64, nbytes, &Val::Int(v), 8 * nbytes as u32);
                }
                if o.sym.is_empty() {
                    o.sym = vec![(NOSYM, 0); o.size as usize];
                }
                for i in 0..n {
                    o.sym[off + i] = (t.0, i as u8);
                }
                if !o.undef.is_empty() {
                    for i in 0..n {
                        o.undef[off + i] = 0;
                    }
                }
            }
            Val::Part(p) => {
                let (t, m) = (p.0, p.1);
                let tt = if w % 8 != 0 { self.tm.zext(8 * nbytes as u32, t) } else { t };
                for i in 0..n {
                    let b = self.tm.ext(8 * i as u32, 8, tt);
                    let u = (m >> (8 * i)) as u8;
                    if u == 0xff {
                        self.write_bits(o, (off + i) as u64, 1, &Val::Undef, 8);
                    } else {
                        self.write_bits(o, (off + i) as u64, 1, &Val::Sym(b), 8);
                        if u != 0 {
                            if o.undef.is_empty() {
                                o.undef = vec![0; o.size as usize];
                            }
                            o.undef[off + i] = u;
                        }
                    }
                }
            }
        }
    }
    fn write_val(&mut self, o: &mut Obj, off: u64, ty: &Ty, v: &Val) -> R<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = ty.bits();
                self.write_bits(o, off, (w as u64 + 7) / 8, v, w);
            }
            Ty::Vec(n, et) if et.bits() % 8 != 0 => {
                let w = *n as u32 * et.bits();
                let x = self.to_bits(v, ty);
                self.write_bits(o, off, (w as u64 + 7) / 8, &x, w);
            }
            Ty::Arr(n, _) | Ty::Vec(n, _) if matches!(v, Val::Undef) => {
                let _ = n;
                self.write_bits(o, off, ty.size(), &Val::Undef, 0);
            }
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                if let Val::Agg(a) = v {
                    for i in 0..ty.nfields() {
                        let (fo, ft) = ty.field(i);
                        self.write_val(o, off + fo, &ft, &a[i as usize])?;
                    }
                } else {
                    self.write_bits(o, off, ty.size(), &Val::Undef, 0);
                }
            }
            _ => return Err(Stop::Unsup(format!("store of {:?}", ty))),
        }
        Ok(())
    }
    fn read_bits(&mut self, o: &Obj, off: u64, w: u32) -> Val {
        let n = ((w + 7) / 8) as usize;
        let off = off as usize;
        let anyu = !o.undef.is_empty() && o.undef[off..off + n].iter().any(|x| *x != 0);
        let anys = !o.sym.is_empty() && o.sym[off..off + n].iter().any(|x| x.0 != NOSYM);
        if !anyu && !anys {
            let mut v = 0u128;
            for i in 0..n {
                v |= (o.data[off + i] as u128) << (8 * i);
            }
            return Val::Int(v & mask(w));
        }
        if !anyu {
            let (t, i0) = o.sym[off];
            if t != NOSYM && i0 == 0 && self.tm.w(T(t)) == 8 * n as u32 && o.sym[off..off + n].iter().enumerate().all(|(i, s)| s.0 == t && s.1 as usize == i) {
                let r = self.tm.ext(0, w, T(t));
                return self.norm(Val::Sym(r));
            }
        } else if !anys && o.undef[off..off + n].iter().all(|x| *x == 0xff) {
            return Val::Undef;
        }
        let mut acc: Option<T> = None;
        let mut um = 0u128;
        for i in 0..n {
            let b = if !o.sym.is_empty() && o.sym[off + i].0 != NOSYM {
                let s = o.sym[off + i];
                self.tm.ext(8 * s.1 as u32, 8, T(s.0))
            } else {
                self.tm.c(8, o.data[off + i] as u128)
            };
            if !o.undef.is_empty() {
                um |= (o.undef[off + i] as u128) << (8 * i);
            }
            acc = Some(match acc {
                None => b,
                Some(a) => self.tm.concat(b, a),
            });
        }
        let t = self.tm.ext(0, w, acc.unwrap());
        self.mk(t, um & mask(w), w)
    }
    fn mk(&mut self, t: T, um: u128, w: u32) -> Val {
        if um == 0 {
            return self.norm(Val::Sym(t));
        }
        if um == mask(w) {
            return Val::Undef;
        }
        Val::Part(Rc::new((t, um)))
    }
    fn norm(&self, v: Val) -> Val {
        if let Val::Sym(t) = v {
            if let Some(c) = self.tm.cv(t) {
                return Val::Int(c);
            }
        }
        v
    }
    fn read_val(&mut self, o: &Obj, off: u64, ty: &Ty) -> R<Val> {
        Ok(match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => self.read_bits(o, off, ty.bits()),
            Ty::Vec(n, et) if et.bits() % 8 != 0 => {
                let v = self.read_bits(o, off, *n as u32 * et.bits());
                self.from_bits(&v, ty)
            }
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let mut a = vec![];
                for i in 0..ty.nfields() {
                    let (fo, ft) = ty.field(i);
                    a.push(self.read_val(o, off + fo, &ft)?);
                }
                Val::Agg(Rc::new(a))
            }
            _ => return Err(Stop::Unsup(format!("load of {:?}", ty))),
        })
    }
    /// (term, undefined mask)
    fn tu(&mut self, v: &Val, w: u32) -> (T, u128) {
        match v {
            Val::Int(c) => (self.tm.c(w, *c), 0),
            Val::Sym(t) => (*t, 0),
            Val::Part(p) => (p.0, p.1),
            Val::Undef => (self.tm.c(w, 0), mask(w)),
            Val::Agg(_) => panic!("aggregate as scalar"),
        }
    }
    fn to_bits(&mut self, v: &Val, ty: &Ty) -> Val {
        match ty {
            Ty::Vec(n, et) => {
                let ew = et.bits();
                let a = match v {
                    Val::Agg(a) => a.clone(),
                    _ => return Val::Undef,
                };
                let mut acc: Option<T> = None;
                let mut um = 0;
                for i in 0..*n as usize {
                    let (t, u) = self.tu(&a[i], ew);
                    um |= u << (ew * i as u32);
                    acc = Some(match acc {
                        None => t,
                        Some(x) => self.tm.concat(t, x),
                    });
                }
                self.mk(acc.unwrap(), um, ew * *n as u32)
            }
            _ => v.clone(),
        }
    }
    fn from_bits(&mut self, v: &Val, ty: &Ty) -> Val {
        match ty {
            Ty::Vec(n, et) => {
                let ew = et.bits();
                let (t, um) = self.tu(v, ew * *n as u32);
                let mut a = vec![];
                for i in 0..*n as u32 {
                    let x = self.tm.ext(ew * i, ew, t);
                    a.push(self.mk(x, (um >> (ew * i)) & mask(ew), ew));
                }
                Val::Agg(Rc::new(a))
            }
            _ => v.clone(),
        }
    }

    // ---------- scalar operations ----------
    fn bin(&mut self, op: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::Int(x), Val::Int(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w);
            let r = match op {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => {
                    if y >= w as u128 {
                        return Ok(Val::Undef);
                    }
                    x << y
                }
                Bin::LShr => {
                    if y >= w as u128 {
                        return Ok(Val::Undef);
                    }
                    x >> y
                }
                Bin::AShr => {
                    if y >= w as u128 {
                        return Ok(Val::Undef);
                    }
                    (sext(x, w) >> y) as u128
                }
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                    if y == 0 {
                        return Err(Stop::Viol("ub".into(), "division by zero".into()));
                    }
                    match op {
                        Bin::UDiv => x / y,
                        Bin::URem => x % y,
                        Bin::SDiv => sext(x, w).wrapping_div(sext(y, w)) as u128,
                        _ => sext(x, w).wrapping_rem(sext(y, w)) as u128,
                    }
                }
            };
            return Ok(Val::Int(r & m));
        }
        let (x, ux) = self.tu(a, w);
        let (y, uy) = self.tu(b, w);
        let full = mask(w);
        let um = if ux == 0 && uy == 0 {
            0
        } else {
            match op {
                Bin::And => {
                    let zx = if let Some(c) = self.tm.cv(x) { !c & !ux } else { self.known_zero(x) };
                    let zy = if let Some(c) = self.tm.cv(y) { !c & !uy } else { self.known_zero(y) };
                    (ux & !zy) | (uy & !zx)
                }
                Bin::Or => {
                    let ox = self.tm.cv(x).unwrap_or(0) & !ux;
                    let oy = self.tm.cv(y).unwrap_or(0) & !uy;
                    (ux & !oy) | (uy & !ox)
                }
                Bin::Xor => ux | uy,
                Bin::Add | Bin::Sub | Bin::Mul => {
                    let u = ux | uy;
                    let low = u.trailing_zeros();
                    full & !((1u128 << low) - 1)
                }
                Bin::Shl | Bin::LShr | Bin::AShr if uy == 0 => match self.tm.cv(y) {
                    Some(k) if k < w as u128 => match op {
                        Bin::Shl => (ux << k) & full,
                        Bin::LShr => ux >> k,
                        _ => (sext(ux, w) >> k) as u128 & full,
                    },
                    _ => full,
                },
                _ => full,
            }
        } & full;
        if um == full {
            return Ok(Val::Undef);
        }
        let r = match op {
            Bin::Add => self.tm.add(x, y),
            Bin::Sub => self.tm.sub(x, y),
            Bin::Mul => self.tm.mul(x, y),
            Bin::And => self.tm.and(x, y),
            Bin::Or => self.tm.or(x, y),
            Bin::Xor => self.tm.xor(x, y),
            Bin::Shl => self.tm.shl(x, y),
            Bin::LShr => self.tm.lshr(x, y),
            Bin::AShr => self.tm.ashr(x, y),
            Bin::UDiv => self.tm.divrem(0, x, y),
            Bin::URem => self.tm.divrem(1, x, y),
            Bin::SDiv => self.tm.divrem(2, x, y),
            Bin::SRem => self.tm.divrem(3, x, y),
        };
        Ok(self.mk(r, um, w))
    }
    fn known_zero(&self, t: T) -> u128 {
        let w = self.tm.w(t);
        match self.tm.n(t) {
            Node::ZExt(_, x) => mask(w) & !mask(self.tm.w(x)),
            Node::Concat(_, l) if self.tm.cv(l) == Some(0) => mask(self.tm.w(l)),
            _ => 0,
        }
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::Int(x), Val::Int(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext(x, w), sext(y, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
            };
            return Val::Int(r as u128);
        }
        let (x, ux) = self.tu(a, w);
        let (y, uy) = self.tu(b, w);
        if ux | uy != 0 {
            if let (Some(cx), Some(cy)) = (self.tm.cv(x), self.tm.cv(y)) {
                let d = !(ux | uy) & mask(w);
                if (cx ^ cy) & d != 0 {
                    match p {
                        Pred::Eq => return Val::Int(0),
                        Pred::Ne => return Val::Int(1),
                        _ => {}
                    }
                }
            }
            return Val::Undef;
        }
        let t = match p {
            Pred::Eq => self.tm.eq(x, y),
            Pred::Ne => {
                let e = self.tm.eq(x, y);
                self.tm.not(e)
            }
            Pred::Ult => self.tm.ult(x, y),
            Pred::Ugt => self.tm.ult(y, x),
            Pred::Uge => {
                let e = self.tm.ult(x, y);
                self.tm.not(e)
            }
            Pred::Ule => {
                let e = self.tm.ult(y, x);
                self.tm.not(e)
            }
            Pred::Slt => self.tm.slt(x, y),
            Pred::Sgt => self.tm.slt(y, x),
            Pred::Sge => {
                let e = self.tm.slt(x, y);
                self.tm.not(e)
            }
            Pred::Sle => {
                let e = self.tm.slt(y, x);
                self.tm.not(e)
            }
        };
        self.norm(Val::Sym(t))
    }
    fn cast(&mut self, k: Cast, fw: u32, tw: u32, v: &Val) -> Val {
        match v {
            Val::Int(x) => Val::Int(match k {
                Cast::Trunc | Cast::ZExt | Cast::Bits => x & mask(tw),
                Cast::SExt => sext(*x, fw) as u128 & mask(tw),
            }),
            Val::Undef if k == Cast::Trunc || k == Cast::Bits => Val::Undef,
            _ => {
                let (t, u) = self.tu(v, fw);
                let (r, u2) = match k {
                    Cast::Trunc => (self.tm.ext(0, tw, t), u & mask(tw)),
                    Cast::ZExt => (self.tm.zext(tw, t), u),
                    Cast::SExt => (self.tm.sext(tw, t), sext(u, fw) as u128 & mask(tw)),
                    Cast::Bits => (t, u),
                };
                self.mk(r, u2, tw)
            }
        }
    }
    fn select(&mut self, c: &Val, ty: &Ty, a: &Val, b: &Val) -> Val {
        match c {
            Val::Int(0) => b.clone(),
            Val::Int(_) => a.clone(),
            Val::Sym(ct) => {
                if !ty.scalar() {
                    match (a, b) {
                        (Val::Agg(x), Val::Agg(y)) => {
                            let mut r = vec![];
                            for i in 0..x.len() {
                                let ft = ty.field(i as u64).1;
                                r.push(self.select(c, &ft, &x[i], &y[i]));
                            }
                            return Val::Agg(Rc::new(r));
                        }
                        _ => return Val::Undef,
                    }
                }
                let w = ty.bits();
                let (x, ux) = self.tu(a, w);
                let (y, uy) = self.tu(b, w);
                if ux == 0 && uy == 0 {
                    let t = self.tm.ite(*ct, x, y);
                    return self.norm(Val::Sym(t));
                }
                let t = self.tm.ite(*ct, x, y);
                self.mk(t, ux | uy, w)
            }
            _ => ty.undef(),
        }
    }

    // ---------- path conditions ----------
    fn add_fact(&mut self, st: &mut State, t: T, v: bool) {
        match self.tm.n(t) {
            Node::Const(..) => {}
            Node::Not(x) => self.add_fact(st, x, !v),
            n => {
                // consequences given what is known already
                match n {
                    Node::And(a, b) if v => {
                        self.add_fact(st, a, true);
                        self.add_fact(st, b, true);
                    }
                    Node::And(a, b) => match (self.quick0(st, a), self.quick0(st, b)) {
                        (Some(true), None) => self.add_fact(st, b, false),
                        (None, Some(true)) => self.add_fact(st, a, false),
                        _ => {}
                    },
                    Node::Ite(c, a, b) => match (self.quick0(st, c), self.quick0(st, a), self.quick0(st, b)) {
                        (Some(true), _, _) => self.add_fact(st, a, v),
                        (Some(false), _, _) => self.add_fact(st, b, v),
                        (None, Some(x), _) if x != v => {
                            self.add_fact(st, c, false);
                            self.add_fact(st, b, v);
                        }
                        (None, _, Some(x)) if x != v => {
                            self.add_fact(st, c, true);
                            self.add_fact(st, a, v);
                        }
                        _ => {}
                    },
                    Node::Ult(a, b) => {
                        let (l, h) = if v { (a, b) } else { (b, a) };
                        Rc::make_mut(&mut st.order).less(&self.tm, l, h, v);
                    }
                    Node::Slt(a, b) => {
                        let (a, b) = (self.flip(a), self.flip(b));
                        let (l, h) = if v { (a, b) } else { (b, a) };
                        Rc::make_mut(&mut st.order).less(&self.tm, l, h, v);
                    }
                    Node::Eq(a, b) if self.tm.w(a) > 1 => {
                        let mut both = vec![(a, b)];
                        let (x, y) = (self.flip(a), self.flip(b));
                        if st.order.knows(x) || st.order.knows(y) {
                            both.push((x, y));
                        }
                        let o = Rc::make_mut(&mut st.order);
                        for (a, b) in both {
                            if v {
                                o.less(&self.tm, a, b, false);
                                o.less(&self.tm, b, a, false);
                            } else {
                                o.differ(&self.tm, a, b);
                            }
                        }
                    }
                    _ => {}
                }
                Rc::make_mut(&mut st.facts).insert(t, v);
            }
        }
    }
    fn add(&mut self, st: &mut State, t: T) {
        if self.tm.is_true(t) {
            return;
        }
        st.path.push(t);
        self.add_fact(st, t, true);
    }
    /// 0 no path, 1 non-strict, 2 strict
    fn reach(&self, st: &State, a: T, b: T) -> u8 {
        st.order.rel(&self.tm, a, b)
    }
    /// the signed order is the unsigned one with the sign bit inverted
    fn flip(&mut self, a: T) -> T {
        let w = self.tm.w(a);
        let k = self.tm.c(w, 1u128 << (w - 1));
        self.tm.xor(a, k)
    }
    /// decide from the facts of the path, without the solver; a share of the verdicts is put to Z3
    fn quick(&mut self, st: &State, t: T) -> Option<bool> {
        let n = self.fast_order;
        let r = self.quick0(st, t);
        if let (Some(b), true) = (r, self.fast_order > n) {
            self.fast_tick += 1;
            if self.sv.every > 0 && self.fast_tick % self.sv.every == 0 {
                let o = if b { self.tm.not(t) } else { t };
                self.sv.second(&self.tm, &st.path, Some(o), &Res::Unsat);
            }
        }
        r
    }
    fn quick_less(&mut self, st: &State, a: T, b: T) -> Option<bool> {
        let r = if self.reach(st, a, b) == 2 {
            true
        } else if self.reach(st, b, a) >= 1 {
            false
        } else {
            return None;
        };
        self.fast_order += 1;
        Some(r)
    }
    fn quick_eq(&mut self, st: &State, a: T, b: T) -> Option<bool> {
        let p = self.reach(st, a, b);
        let q = self.reach(st, b, a);
        let r = if p == 2 || q == 2 || st.order.apart(&self.tm, a, b) {
            false
        } else if p == 1 && q == 1 {
            true
        } else {
            return None;
        };
        self.fast_order += 1;
        Some(r)
    }
    fn quick0(&mut self, st: &State, t: T) -> Option<bool> {
        if let Some(v) = self.tm.cv(t) {
            return Some(v == 1);
        }
        if let Node::Not(x) = self.tm.n(t) {
            return self.quick0(st, x).map(|b| !b);
        }
        if let Some(b) = st.facts.get(&t) {
            self.fast_facts += 1;
            return Some(*b);
        }
        match self.tm.n(t) {
            Node::Ult(a, b) => self.quick_less(st, a, b),
            Node::Slt(a, b) => {
                let (a, b) = (self.flip(a), self.flip(b));
                self.quick_less(st, a, b)
            }
            Node::Eq(a, b) => {
                if let Some(r) = self.quick_eq(st, a, b) {
                    return Some(r);
                }
                let (x, y) = (self.flip(a), self.flip(b));
                if st.order.knows(x) || st.order.knows(y) {
                    return self.quick_eq(st, x, y);
                }
                None
            }
            Node::And(a, b) => match (self.quick0(st, a), self.quick0(st, b)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Node::Ite(c, a, b) => match self.quick0(st, c) {
                Some(true) => self.quick0(st, a),
                Some(false) => self.quick0(st, b),
                None => None,
            },
            _ => None,
        }
    }
    fn new_model(&mut self) -> Rc<Model> {
        let id = self.nmodel;
        self.nmodel += 1;
        Rc::new(self.sv.model(&self.tm, id))
    }
    fn sat(&mut self, st: &State, t: T) -> R<Option<Rc<Model>>> {
        let d = self.theory(st, t);
        match self.sv.check(&self.tm, &st.path, &d, Some(t)) {
            Res::Sat => {
                let m = self.new_model();
                if self.tm.eval(t, &m) != 1 || st.path.iter().any(|p| self.tm.eval(*p, &m) != 1) {
                    return Err(Stop::Unsup("solver model does not satisfy the query".into()));
                }
                self.agreed()?;
                Ok(Some(m))
            }
            Res::Unsat => {
                self.agreed()?;
                Ok(None)
            }
            Res::Unknown => Err(Stop::Unsup("solver: unknown".into())),
        }
    }
    /// What the order facts say about the atoms of a query (as assumptions), and
    /// valid clauses about triangles of atoms, so that the solver need not
    /// rediscover transitivity bit by bit.
    fn theory(&mut self, st: &State, t: T) -> Vec<T> {
        let mut atoms = vec![];
        let mut seen = HashSet::new();
        let mut q = vec![t];
        while let Some(x) = q.pop() {
            if !seen.insert(x) || self.tm.w(x) != 1 {
                continue;
            }
            match self.tm.n(x) {
                Node::Not(a) => q.push(a),
                Node::And(a, b) | Node::Or(a, b) | Node::Xor(a, b) => q.extend([a, b]),
                Node::Ite(a, b, c) => q.extend([a, b, c]),
                Node::Eq(a, b) if self.tm.w(a) == 1 => q.extend([a, b]),
                Node::Eq(..) | Node::Ult(..) => atoms.push(x),
                _ => {}
            }
        }
        let mut d = vec![];
        let mut by: HashMap<T, Vec<(u8, T, T)>> = HashMap::new();
        atoms.sort_unstable();
        for &x in &atoms {
            match self.quick0(st, x) {
                Some(b) => d.push(if b { x } else { self.tm.not(x) }),
                None => {
                    let (k, a, b) = match self.tm.n(x) {
                        Node::Eq(a, b) => (0, a, b),
                        Node::Ult(a, b) => (1, a, b),
                        _ => unreachable!(),
                    };
                    by.entry(a).or_default().push((k, b, x));
                    by.entry(b).or_default().push((if k == 0 { 0 } else { 2 }, a, x));
                }
            }
        }
        let mut pts: Vec<T> = by.keys().copied().filter(|x| self.tm.cv(*x).is_none()).collect();
        pts.sort_unstable();
        let mut third = vec![];
        for x in pts {
            let v = by.get_mut(&x).unwrap();
            // constants: only neighbours need each other
            v.sort_by_key(|(_, p, _)| (self.tm.cv(*p).is_none(), self.tm.cv(*p)));
            if v.iter().filter(|(_, p, _)| self.tm.cv(*p).is_none()).count() > 64 {
                continue;
            }
            let rank: Vec<usize> = v
                .iter()
                .scan((0usize, None), |s, (_, p, _)| {
                    let c = self.tm.cv(*p);
                    if c != s.1 {
                        *s = (s.0 + 1, c);
                    }
                    Some(s.0)
                })
                .collect();
            for i in 0..v.len() {
                for j in 0..i {
                    // 0: x = p, 1: x < p, 2: p < x
                    let ((k, a, p), (l, b, r)) = if v[i].0 <= v[j].0 { (v[i], v[j]) } else { (v[j], v[i]) };
                    if a == b || (self.tm.cv(a).is_some() && self.tm.cv(b).is_some() && rank[i] > rank[j] + 1) {
                        continue;
                    }
                    let key = (p, r);
                    let (e, ab, ba);
                    match (k, l) {
                        (0, 0) => {
                            e = self.tm.eq(a, b);
                            third.push(e);
                            if self.lemmas.insert(key) {
                                self.sv.b.clause(&self.tm, &[(p, false), (r, false), (e, true)]);
                                self.sv.b.clause(&self.tm, &[(p, false), (r, true), (e, false)]);
                                self.sv.b.clause(&self.tm, &[(p, true), (r, false), (e, false)]);
                            }
                        }
                        (0, 1) => {
                            ab = self.tm.ult(a, b);
                            third.push(ab);
                            if self.lemmas.insert(key) {
                                self.sv.b.clause(&self.tm, &[(p, false), (r, false), (ab, true)]);
                                self.sv.b.clause(&self.tm, &[(p, false), (r, true), (ab, false)]);
                            }
                        }
                        (0, _) => {
                            ba = self.tm.ult(b, a);
                            third.push(ba);
                            if self.lemmas.insert(key) {
                                self.sv.b.clause(&self.tm, &[(p, false), (r, false), (ba, true)]);
                                self.sv.b.clause(&self.tm, &[(p, false), (r, true), (ba, false)]);
                            }
                        }
                        (1, 1) | (2, 2) => {
                            ab = self.tm.ult(a, b);
                            ba = self.tm.ult(b, a);
                            third.extend([ab, ba]);
                            if self.lemmas.insert(key) {
                                if k == 1 {
                                    // x<a, not b<a: x<b
                                    self.sv.b.clause(&self.tm, &[(p, false), (r, true), (ba, true)]);
                                    self.sv.b.clause(&self.tm, &[(r, false), (p, true), (ab, true)]);
                                } else {
                                    // a<x, not a<b: b<x
                                    self.sv.b.clause(&self.tm, &[(p, false), (r, true), (ab, true)]);
                                    self.sv.b.clause(&self.tm, &[(r, false), (p, true), (ba, true)]);
                                }
                            }
                        }
                        _ => {
                            // x<a and b<x: b<a
                            ba = self.tm.ult(b, a);
                            third.push(ba);
                            if self.lemmas.insert(key) {
                                self.sv.b.clause(&self.tm, &[(p, false), (r, false), (ba, true)]);
                            }
                        }
                    }
                }
            }
        }
        third.sort_unstable();
        third.dedup();
        for x in third {
            if self.tm.cv(x).is_none() {
                if let Some(b) = self.quick0(st, x) {
                    d.push(if b { x } else { self.tm.not(x) });
                }
            }
        }
        if self.sv.b.rebuilds != self.rebuilds {
            self.rebuilds = self.sv.b.rebuilds;
            self.lemmas.clear();
        }
        if self.derive {
            d.extend(st.order.derived(&mut self.tm, 24));
        }
        d
    }
    fn agreed(&mut self) -> R<()> {
        match self.sv.disagree.take() {
            Some(d) => Err(Stop::Unsup(d)),
            None => Ok(()),
        }
    }
    /// Decide a condition: Ok((side, other)) — `side` is feasible with the present model,
    /// `other` is a model for the opposite side when that is feasible too.
    fn decide(&mut self, st: &State, t: T) -> R<(bool, Option<Rc<Model>>)> {
        if let Some(b) = self.quick(st, t) {
            return Ok((b, None));
        }
        self.branches += 1;
        let m = st.model.clone();
        let side = self.tm.eval(t, &m) == 1;
        let neg = if side { self.tm.not(t) } else { t };
        let other = self.sat(st, neg)?;
        if other.is_none() && std::env::var("SYMEX_DBG").is_ok() {
            eprintln!("UNSAT {} :: {}", self.sv.z.show(&self.tm, neg).replace("\n", " "), self.backtrace(st).first().cloned().unwrap_or_default());
        }
        Ok((side, other))
    }
    fn fork(&mut self, s: State) {
        self.forks += 1;
        self.work.push(s);
    }
    /// concretise a term; forks the alternatives, which re-execute the current instruction
    fn concretise(&mut self, st: &mut State, v: &Val, w: u32, what: &str) -> R<u128> {
        match v {
            Val::Int(c) => Ok(*c),
            Val::Sym(t) => {
                if let Some(c) = st.conc.get(t) {
                    return Ok(*c);
                }
                let m = st.model.clone();
                let c = self.tm.eval(*t, &m);
                let k = self.tm.c(w, c);
                let e = self.tm.eq(*t, k);
                if let Some(true) = self.quick(st, e) {
                    st.conc.insert(*t, c);
                    return Ok(c);
                }
                let ne = self.tm.not(e);
                if let Some(m2) = self.sat(st, ne)? {
                    let mut o = st.clone();
                    self.add(&mut o, ne);
                    o.model = m2;
                    self.fork(o);
                }
                self.add(st, e);
                st.conc.insert(*t, c);
                Ok(c)
            }
            _ => Err(Stop::Viol("uninit".into(), format!("uninitialised value used as {}", what))),
        }
    }

    // ---------- execution ----------
    fn op(&self, st: &State, o: &Op) -> Val {
        match o {
            Op::R(r) => st.top.regs[*r as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }
    fn set(&self, st: &mut State, d: Option<u32>, v: Val) {
        if let Some(d) = d {
            st.top.regs[d as usize] = v;
        }
    }
    fn goto(&mut self, st: &mut State, b: u32) {
        let f = st.top.f;
        let from = st.top.block;
        let blk = &f.blocks[b as usize];
        if blk.phis.len() == 1 {
            let (d, inc) = &blk.phis[0];
            let v = inc.iter().find(|(l, _)| *l == from).map(|(_, o)| self.op(st, o)).unwrap_or(Val::Undef);
            st.top.regs[*d as usize] = v;
        } else if !blk.phis.is_empty() {
            let vals: Vec<Val> = blk
                .phis
                .iter()
                .map(|(_, inc)| inc.iter().find(|(l, _)| *l == from).map(|(_, o)| self.op(st, o)).unwrap_or(Val::Undef))
                .collect();
            for ((d, _), v) in blk.phis.iter().zip(vals) {
                st.top.regs[*d as usize] = v;
            }
        }
        st.top.block = b;
        st.top.pc = blk.start;
    }
    fn enter(&mut self, st: &mut State, fi: u32, args: Vec<Val>, is_try: bool) -> R<()> {
        let f = self.m.parsed(fi).ok_or_else(|| Stop::Unsup("call of a declaration".into()))?;
        self.fn_seen.insert(fi);
        if st.frames.len() > 400 {
            return Err(Stop::Viol("stack-overflow".into(), "call depth exceeds 400".into()));
        }
        let mut regs = vec![Val::Undef; f.nregs as usize];
        for (p, a) in f.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        let fr = Frame { f, pc: f.blocks[0].start, block: 0, regs, sp: st.stack.len(), is_try, exc: None };
        let old = std::mem::replace(&mut st.top, fr);
        st.frames.push(Rc::new(old));
        Ok(())
    }
    fn pop_frame(&mut self, st: &mut State) -> Option<Frame> {
        let sp = st.top.sp;
        st.stack.truncate(sp);
        let p = st.frames.pop()?;
        let p = Rc::try_unwrap(p).unwrap_or_else(|r| (*r).clone());
        Some(std::mem::replace(&mut st.top, p))
    }
    fn unwind(&mut self, st: &mut State) -> R<()> {
        loop {
            let fr = match self.pop_frame(st) {
                Some(f) => f,
                None => {
                    let p = st.panic.clone().unwrap_or_default();
                    return Err(Stop::Viol("panic".into(), p));
                }
            };
            // st.top is now the caller, at the call instruction
            let ins = &st.top.f.code;
            if st.top.pc as usize >= ins.len() {
                let p = st.panic.clone().unwrap_or_default();
                return Err(Stop::Viol("panic".into(), p));
            }
            let ins = &ins[st.top.pc as usize];
            if fr.is_try {
                self.set(st, ins.d, Val::Int(1));
                st.top.pc += 1;
                return Ok(());
            }
            if let I::Call(c) = &ins.i {
                if let Some((_, u)) = c.inv {
                    st.top.exc = Some(());
                    self.goto(st, u);
                    return Ok(());
                }
            }
        }
    }
    pub fn backtrace(&self, st: &State) -> Vec<String> {
        let mut out = vec![];
        let mut frames: Vec<&Frame> = st.frames.iter().map(|f| &**f).collect();
        frames.push(&st.top);
        for f in frames.iter().rev() {
            if let Some(i) = f.f.code.get(f.pc as usize) {
                for (n, file, line) in self.m.dbg_chain(i.dbg) {
                    let short = file.rsplit("/registry/src/").next().unwrap_or("").to_string();
                    let short = short.splitn(2, '/').nth(if file.contains("/registry/src/") { 1 } else { 0 }).map(|s| if file.contains("/registry/src/") { s.to_string() } else { file.clone() }).unwrap_or(file.clone());
                    out.push(format!("{} {}:{}", n, short, line));
                }
            }
            if out.len() > 40 {
                break;
            }
        }
        out
    }
    fn record_violation(&mut self, st: &State, kind: String, msg: String) {
        let stack = self.backtrace(st);
        let key = if kind == "assert" { format!("assert:{}", msg) } else {
            let loc = stack.iter().find(|s| s.contains("/repo/src")).cloned().unwrap_or_default();
            format!("{}:{}:{}", kind, msg, loc)
        };
        if !self.seen_viol.insert(key) {
            return;
        }
        let m = st.model.clone();
        let inputs = self.eval_inputs(st, &m);
        self.viols.push(Violation { kind, msg, inputs, stack });
    }
    fn eval_inputs(&mut self, st: &State, m: &Model) -> Vec<(u32, u128)> {
        st.inputs
            .iter()
            .map(|(w, v)| {
                (
                    *w,
                    match v {
                        Val::Int(c) => *c,
                        Val::Sym(t) => self.tm.eval(*t, m),
                        _ => 0,
                    },
                )
            })
            .collect()
    }
    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let fi = self.m.func_idx(entry).ok_or(format!("no function {}", entry))?;
        let f = self.m.parsed(fi).ok_or(format!("{} is only declared", entry))?;
        self.fn_seen.insert(fi);
        let top = Frame { f, pc: f.blocks[0].start, block: 0, regs: vec![Val::Undef; f.nregs as usize], sp: 0, is_try: false, exc: None };
        let st = State {
            frames: vec![],
            top,
            heap: vec![],
            nheap: 0,
            stack: vec![],
            gover: BTreeMap::new(),
            path: vec![],
            facts: Rc::new(HashMap::new()),
            order: Rc::new(Order::default()),
            conc: HashMap::new(),
            model: Rc::new(Model { id: 0, vals: vec![] }),
            inputs: vec![],
            outs: vec![],
            nfresh: 0,
            live: 0,
            allocs: 0,
            steps: 0,
            panic: None,
            choices: vec![],
            covers: Rc::new(HashSet::new()),
            sb: SBASE,
            preempt: 2,
            th: None,
        };
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            match self.run_path(&mut st) {
                Ok(()) => {
                    self.paths += 1;
                    for c in st.covers.iter() {
                        *self.covers.entry(c.clone()).or_insert(0) += 1;
                    }
                    // sample completed paths evenly (doubling stride)
                    let n = self.cfg.samples;
                    if n > 0 {
                        let take = self.samples.len() < n || self.paths % (1 + self.paths / n as u64) == 0;
                        if take {
                            let m = st.model.clone();
                            let inputs = self.eval_inputs(&st, &m);
                            let mut outs = vec![];
                            for o in &st.outs {
                                outs.push(match o {
                                    Val::Int(c) => *c,
                                    Val::Sym(t) => self.tm.eval(*t, &m),
                                    _ => 0xdead,
                                });
                            }
                            let s = PathSample { inputs, outs };
                            if self.samples.len() < n {
                                self.samples.push(s);
                            } else {
                                let k = (self.paths as usize).wrapping_mul(2654435761) % n;
                                self.samples[k] = s;
                            }
                        }
                    }
                }
                Err(Stop::Kill) => self.killed += 1,
                Err(Stop::Viol(k, m)) => {
                    self.paths += 1;
                    self.record_violation(&st, k, m);
                    if self.viols.len() >= self.cfg.max_viol {
                        break;
                    }
                }
                Err(Stop::Unsup(m)) => {
                    let bt = self.backtrace(&st);
                    self.unsup = Some(format!("{}\n  {}", m, bt.join("\n  ")));
                    break;
                }
            }
            if self.t0.elapsed().as_secs_f64() > self.cfg.deadline {
                if !self.work.is_empty() {
                    self.timed_out = true;
                }
                break;
            }
        }
        Ok(())
    }
    fn run_path(&mut self, st: &mut State) -> R<()> {
        loop {
            let f = st.top.f;
            let ins = &f.code[st.top.pc as usize];
            self.steps += 1;
            st.steps += 1;
            if ins.dbg != 0 {
                self.dbg_seen[ins.dbg as usize] = 1;
            }
            if st.steps > self.cfg.max_steps {
                return Err(Stop::Viol("hang".into(), format!("more than {} instructions on one path", self.cfg.max_steps)));
            }
            if st.steps & 0xffff == 0 && self.t0.elapsed().as_secs_f64() > self.cfg.deadline {
                self.timed_out = true;
                return Err(Stop::Kill);
            }
            if self.cfg.trace {
                eprintln!("[{}] {} {:?}", st.frames.len(), &f.name[f.name.len().saturating_sub(40)..], ins.i);
            }
            match &ins.i {
                I::Bin(op, ty, a, b) => {
                    let (a, b) = (self.op(st, a), self.op(st, b));
                    let (et, n) = ty.lanes();
                    let w = et.bits();
                    // division by a symbolic value: the divisor must be non-zero
                    if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) {
                        if let Val::Sym(t) = &b {
                            let z = self.tm.c(w, 0);
                            let e = self.tm.eq(*t, z);
                            let ne = self.tm.not(e);
                            self.must(st, ne, "ub", "division by zero")?;
                        }
                    }
                    if matches!(op, Bin::Shl | Bin::LShr | Bin::AShr) {
                        if let Val::Sym(t) = &b {
                            // oversized shifts are poison: treat as concretised amounts
                            let k = self.concretise(st, &Val::Sym(*t), w, "shift amount")?;
                            let r = self.bin(*op, w, &a, &Val::Int(k))?;
                            self.set(st, ins.d, r);
                            st.top.pc += 1;
                            continue;
                        }
                    }
                    let r = match n {
                        None => self.bin(*op, w, &a, &b)?,
                        Some(n) => {
                            let mut r = vec![];
                            for i in 0..n as usize {
                                let (x, y) = (el(&a, i), el(&b, i));
                                r.push(self.bin(*op, w, &x, &y)?);
                            }
                            Val::Agg(Rc::new(r))
                        }
                    };
                    self.set(st, ins.d, r);
                }
                I::ICmp(p, ty, a, b) => {
                    let (a, b) = (self.op(st, a), self.op(st, b));
                    let (et, n) = ty.lanes();
                    let w = et.bits();
                    let r = match n {
                        None => match self.icmp(*p, w, &a, &b) {
                            // what the path's facts already answer
                            Val::Sym(t) => match self.quick(st, t) {
                                Some(b) => Val::Int(b as u128),
                                None => Val::Sym(t),
                            },
                            v => v,
                        },
                        Some(n) => {
                            let mut r = vec![];
                            for i in 0..n as usize {
                                r.push(self.icmp(*p, w, &el(&a, i), &el(&b, i)));
                            }
                            Val::Agg(Rc::new(r))
                        }
                    };
                    self.set(st, ins.d, r);
                }
                I::Load(ty, p, al, ord) => {
                    let p = self.op(st, p);
                    let a = self.concretise(st, &p, 64, "load address")? as u64;
                    if *ord != 0 {
                        self.sched(st, a, ty.store_size(), false)?;
                    }
                    let v = if *ord != 0 && st.th.is_some() {
                        let v = self.atomically(st, |s, st| s.load(st, a, ty, *al))?;
                        self.touch(st, a, ty.store_size(), 2)?;
                        self.acquire(st, a, *ord);
                        v
                    } else {
                        self.load(st, a, ty, *al)?
                    };
                    self.set(st, ins.d, v);
                }
                I::Store(ty, v, p, al, ord) => {
                    let p = self.op(st, p);
                    let a = self.concretise(st, &p, 64, "store address")? as u64;
                    if *ord != 0 {
                        self.sched(st, a, ty.store_size(), true)?;
                    }
                    let v = self.op(st, v);
                    if *ord != 0 && st.th.is_some() {
                        self.atomically(st, |s, st| s.store(st, a, ty, &v, *al))?;
                        self.touch(st, a, ty.store_size(), 3)?;
                        self.release(st, a, *ord, false);
                    } else {
                        self.store(st, a, ty, &v, *al)?;
                    }
                }
                I::Gep(base, off, idx) => {
                    let b = self.op(st, base);
                    let mut acc = if *off == 0 { b } else { self.bin(Bin::Add, 64, &b, &Val::Int(*off as i128 as u128 & mask(64)))? };
                    for (o, w, scale) in idx {
                        let i = self.op(st, o);
                        let i = self.cast(if *w < 64 { Cast::SExt } else { Cast::Trunc }, *w, 64, &i);
                        let s = if *scale == 1 { i } else { self.bin(Bin::Mul, 64, &i, &Val::Int(*scale as i128 as u128 & mask(64)))? };
                        acc = self.bin(Bin::Add, 64, &acc, &s)?;
                    }
                    self.set(st, ins.d, acc);
                }
                I::Alloca(size, al, n) => {
                    let n = self.op(st, n);
                    let n = self.concretise(st, &n, 64, "alloca size")? as u64;
                    let size = size * n;
                    let base = st.sb + (st.stack.len() as u64) * SLOT;
                    if size >= SLOT {
                        // large stack object: occupy several slots
                        let k = size / SLOT + 1;
                        st.stack.push(Rc::new(Self::new_obj(base, size, *al, Kind::Stack)));
                        let o = st.stack.last().unwrap().clone();
                        for _ in 1..k {
                            st.stack.push(o.clone());
                        }
                        return Err(Stop::Unsup("stack object over 64 KiB".into()));
                    }
                    st.stack.push(Rc::new(Self::new_obj(base, size, *al, Kind::Stack)));
                    self.set(st, ins.d, Val::Int(base as u128));
                }
                I::Cast(k, fty, tty, a) => {
                    let a = self.op(st, a);
                    let r = if *k == Cast::Bits {
                        if fty == tty || (fty.scalar() && tty.scalar()) {
                            a
                        } else {
                            let b = self.to_bits(&a, fty);
                            self.from_bits(&b, tty)
                        }
                    } else {
                        let (fe, n) = fty.lanes();
                        let (te, _) = tty.lanes();
                        match n {
                            None => self.cast(*k, fe.bits(), te.bits(), &a),
                            Some(n) => {
                                let mut r = vec![];
                                for i in 0..n as usize {
                                    r.push(self.cast(*k, fe.bits(), te.bits(), &el(&a, i)));
                                }
                                Val::Agg(Rc::new(r))
                            }
                        }
                    };
                    self.set(st, ins.d, r);
                }
                I::Select(cty, ty, c, a, b) => {
                    let (c, a, b) = (self.op(st, c), self.op(st, a), self.op(st, b));
                    let r = if let Ty::Vec(n, _) = cty {
                        let (et, _) = ty.lanes();
                        let mut r = vec![];
                        for i in 0..*n as usize {
                            r.push(self.select(&el(&c, i), &et, &el(&a, i), &el(&b, i)));
                        }
                        Val::Agg(Rc::new(r))
                    } else {
                        let c2 = match &c {
                            Val::Sym(t) => match self.quick(st, *t) {
                                Some(b) => Val::Int(b as u128),
                                // positions and pointers: a path of its own for each
                                None if ty.bits() == 64 && matches!((&a, &b), (Val::Int(x), Val::Int(y)) if x != y) => {
                                    let (side, other) = self.decide(st, *t)?;
                                    let nt = self.tm.not(*t);
                                    let (ct, cf) = if side { (*t, nt) } else { (nt, *t) };
                                    if let Some(m) = other {
                                        let mut o = st.clone();
                                        self.add(&mut o, cf);
                                        o.model = m;
                                        self.fork(o);
                                        self.add(st, ct);
                                    } else {
                                        self.add_fact(st, ct, true);
                                    }
                                    Val::Int(side as u128)
                                }
                                None => c.clone(),
                            },
                            _ => c.clone(),
                        };
                        self.select(&c2, ty, &a, &b)
                    };
                    self.set(st, ins.d, r);
                }
                I::Extract(a, path) => {
                    let mut v = self.op(st, a);
                    for i in path {
                        v = el(&v, *i as usize);
                    }
                    self.set(st, ins.d, v);
                }
                I::Insert(a, v, path) => {
                    let a = self.op(st, a);
                    let v = self.op(st, v);
                    let r = insert(a, v, path);
                    self.set(st, ins.d, r);
                }
                I::ExtractEl(a, i) => {
                    let a = self.op(st, a);
                    let i = self.op(st, i);
                    let i = self.concretise(st, &i, 64, "lane")?;
                    self.set(st, ins.d, el(&a, i as usize));
                }
                I::InsertEl(a, v, i) => {
                    let a = self.op(st, a);
                    let v = self.op(st, v);
                    let i = self.op(st, i);
                    let i = self.concretise(st, &i, 64, "lane")?;
                    let r = insert(a, v, &[i as u32]);
                    self.set(st, ins.d, r);
                }
                I::Shuffle(a, b, m) => {
                    let (a, b, m) = (self.op(st, a), self.op(st, b), self.op(st, m));
                    let (n, ms) = match (&a, &m) {
                        (Val::Agg(x), Val::Agg(y)) => (x.len(), y.clone()),
                        _ => return Err(Stop::Unsup("shuffle operands".into())),
                    };
                    let r = ms
                        .iter()
                        .map(|k| match k {
                            Val::Int(k) if (*k as usize) < n => el(&a, *k as usize),
                            Val::Int(k) => el(&b, *k as usize - n),
                            _ => Val::Undef,
                        })
                        .collect();
                    self.set(st, ins.d, Val::Agg(Rc::new(r)));
                }
                I::Br(b) => {
                    self.goto(st, *b);
                    continue;
                }
                I::CondBr(c, a, b) => {
                    let c = self.op(st, c);
                    match c {
                        Val::Int(v) => {
                            let t = if v != 0 { *a } else { *b };
                            self.goto(st, t);
                        }
                        Val::Sym(t) => {
                            let (side, other) = self.decide(st, t)?;
                            let nt = self.tm.not(t);
                            let (ct, cf) = if side { (t, nt) } else { (nt, t) };
                            let (bt, bf) = if side { (*a, *b) } else { (*b, *a) };
                            if let Some(m) = other {
                                let mut o = st.clone();
                                self.add(&mut o, cf);
                                o.model = m;
                                self.goto(&mut o, bf);
                                self.fork(o);
                                self.add(st, ct);
                            } else {
                                self.add_fact(st, ct, true);
                            }
                            self.goto(st, bt);
                        }
                        _ => return Err(Stop::Viol("uninit".into(), "branch on uninitialised value".into())),
                    }
                    continue;
                }
                I::Switch(w, v, d, cases) => {
                    let v = self.op(st, v);
                    match v {
                        Val::Int(c) => {
                            let t = cases.iter().find(|(k, _)| *k == c).map(|x| x.1).unwrap_or(*d);
                            self.goto(st, t);
                        }
                        Val::Sym(t) => {
                            let mut done = false;
                            for (k, l) in cases {
                                let kt = self.tm.c(*w, *k);
                                let e = self.tm.eq(t, kt);
                                let (side, other) = self.decide(st, e)?;
                                let ne = self.tm.not(e);
                                match (side, other) {
                                    (true, None) => {
                                        self.goto(st, *l);
                                        done = true;
                                        break;
                                    }
                                    (false, None) => {}
                                    (s, Some(m)) => {
                                        // keep "not this case" in st, fork the case
                                        let mut o = st.clone();
                                        self.add(&mut o, e);
                                        if s {
                                            // st's model satisfies the case; the other model is for the rest
                                            self.add(st, ne);
                                            st.model = m;
                                        } else {
                                            o.model = m;
                                            self.add(st, ne);
                                        }
                                        self.goto(&mut o, *l);
                                        self.fork(o);
                                    }
                                }
                            }
                            if !done {
                                self.goto(st, *d);
                            }
                        }
                        _ => return Err(Stop::Viol("uninit".into(), "switch on uninitialised value".into())),
                    }
                    continue;
                }
                I::Ret(v) => {
                    let v = v.as_ref().map(|o| self.op(st, o));
                    if st.frames.is_empty() {
                        if let Some(th) = &mut st.th {
                            if th.cur != 0 {
                                let c = th.cur;
                                th.v[c].done = true;
                                st.stack.clear();
                                self.switch_away(st)?;
                                continue;
                            }
                            if th.v.iter().skip(1).any(|t| !t.done) {
                                return Err(Stop::Unsup("a thread was not joined".into()));
                            }
                        }
                        return Ok(());
                    }
                    let fr = self.pop_frame(st).unwrap();
                    let ci = &st.top.f.code[st.top.pc as usize];
                    if fr.is_try {
                        self.set(st, ci.d, Val::Int(0));
                        st.top.pc += 1;
                        continue;
                    }
                    if let Some(v) = v {
                        self.set(st, ci.d, v);
                    }
                    if let I::Call(c) = &ci.i {
                        if let Some((n, _)) = c.inv {
                            self.goto(st, n);
                            continue;
                        }
                    }
                    st.top.pc += 1;
                    continue;
                }
                I::Unreachable => return Err(Stop::Viol("ub".into(), "unreachable code reached".into())),
                I::LandingPad(catch) => {
                    let sel = if *catch { 1 } else { 0 };
                    self.set(st, ins.d, Val::Agg(Rc::new(vec![Val::Int(0xE000), Val::Int(sel)])));
                }
                I::Resume(_) => {
                    self.unwind(st)?;
                    continue;
                }
                I::Rmw(op, ty, p, v, ord) => {
                    let p = self.op(st, p);
                    let a = self.concretise(st, &p, 64, "atomic address")? as u64;
                    self.sched(st, a, ty.store_size(), true)?;
                    let v = self.op(st, v);
                    let old = self.atomically(st, |s, st| s.load(st, a, ty, ty.size()))?;
                    let w = ty.bits();
                    let new = match op.as_str() {
                        "xchg" => v,
                        "add" => self.bin(Bin::Add, w, &old, &v)?,
                        "sub" => self.bin(Bin::Sub, w, &old, &v)?,
                        "and" => self.bin(Bin::And, w, &old, &v)?,
                        "or" => self.bin(Bin::Or, w, &old, &v)?,
                        "xor" => self.bin(Bin::Xor, w, &old, &v)?,
                        o => return Err(Stop::Unsup(format!("atomicrmw {}", o))),
                    };
                    self.atomically(st, |s, st| s.store(st, a, ty, &new, ty.size()))?;
                    self.touch(st, a, ty.store_size(), 3)?;
                    self.acquire(st, a, *ord);
                    self.release(st, a, *ord, true);
                    self.set(st, ins.d, old);
                }
                I::CmpXchg(ty, p, c, n, ord, ford) => {
                    let p = self.op(st, p);
                    let a = self.concretise(st, &p, 64, "atomic address")? as u64;
                    self.sched(st, a, ty.store_size(), true)?;
                    let old = self.atomically(st, |s, st| s.load(st, a, ty, ty.size()))?;
                    let w = ty.bits();
                    let c = self.op(st, c);
                    let n = self.op(st, n);
                    let old = Val::Int(self.concretise(st, &old, w, "cmpxchg")?);
                    let c = Val::Int(self.concretise(st, &c, w, "cmpxchg")?);
                    let eq = matches!((&old, &c), (Val::Int(x), Val::Int(y)) if x == y);
                    if eq {
                        self.atomically(st, |s, st| s.store(st, a, ty, &n, ty.size()))?;
                        self.touch(st, a, ty.store_size(), 3)?;
                        self.acquire(st, a, *ord);
                        self.release(st, a, *ord, true);
                    } else {
                        self.touch(st, a, ty.store_size(), 2)?;
                        self.acquire(st, a, *ford);
                    }
                    self.set(st, ins.d, Val::Agg(Rc::new(vec![old, Val::Int(eq as u128)])));
                }
                I::Fence(ord) => {
                    if let Some(th) = &mut st.th {
                        let t = &mut th.v[th.cur];
                        if matches!(ord, 2 | 4 | 5) {
                            let a = t.acq;
                            cjoin(&mut t.clock, &a);
                        }
                        if matches!(ord, 3 | 4 | 5) {
                            t.rel = t.clock;
                        }
                    }
                }
                I::Freeze(ty, a) => {
                    let a = self.op(st, a);
                    let r = self.freeze(st, ty, &a);
                    self.set(st, ins.d, r);
                }
                I::Unsupported(t) => return Err(Stop::Unsup(format!("instruction {}", t))),
                I::Call(c) => {
                    self.call(st, c, ins.d)?;
                    continue;
                }
            }
            st.top.pc += 1;
        }
    }
    // ---------- threads ----------
    fn spawn(&mut self, st: &mut State, fi: u32, arg: Val) -> R<usize> {
        if st.th.is_none() {
            let mut clock = [0; NT];
            clock[0] = 1;
            let main = Thread { ctx: None, clock, acq: [0; NT], rel: [0; NT], wait: Wait::No, done: false, go: false, pend: None };
            st.th = Some(Box::new(Threads { cur: 0, v: vec![main], shadow: Rc::new(HashMap::new()), sync: Rc::new(HashMap::new()), left: st.preempt, own: Rc::new(HashMap::new()), sched: vec![] }));
        }
        let f = self.m.parsed(fi).ok_or_else(|| Stop::Unsup("thread is only declared".into()))?;
        self.fn_seen.insert(fi);
        let th = st.th.as_mut().unwrap();
        let id = th.v.len();
        if id == NT {
            return Err(Stop::Unsup("too many threads".into()));
        }
        let mut regs = vec![Val::Undef; f.nregs as usize];
        regs[f.params[0] as usize] = arg;
        let top = Frame { f, pc: f.blocks[0].start, block: 0, regs, sp: 0, is_try: false, exc: None };
        let mut clock = th.v[th.cur].clock;
        clock[id] = 1;
        let c = th.cur;
        th.v[c].clock[c] += 1;
        th.v.push(Thread { ctx: Some((vec![], top, vec![], SBASE + ((id as u64) << 36))), clock, acq: [0; NT], rel: [0; NT], wait: Wait::No, done: false, go: false, pend: None });
        Ok(id)
    }
    fn switch(st: &mut State, t: usize) {
        let th = st.th.as_mut().unwrap();
        if t != th.cur {
            let (fr, top, stack, sb) = th.v[t].ctx.take().unwrap();
            let fr = std::mem::replace(&mut st.frames, fr);
            let top = std::mem::replace(&mut st.top, top);
            let stack = std::mem::replace(&mut st.stack, stack);
            let sb = std::mem::replace(&mut st.sb, sb);
            let c = th.cur;
            th.v[c].ctx = Some((fr, top, stack, sb));
            th.cur = t;
        }
        th.v[t].go = th.v[t].wait == Wait::No;
        th.v[t].wait = Wait::No;
        th.sched.push(t as u8);
    }
    fn runnable(&mut self, st: &State) -> R<Vec<usize>> {
        let th = st.th.as_ref().unwrap();
        let mut r = vec![];
        for (i, t) in th.v.iter().enumerate() {
            let ok = !t.done
                && match t.wait {
                    Wait::No => true,
                    Wait::Join(k) => th.v[k].done,
                    Wait::Futex(a, v) => {
                        let (o, off) = self.find(st, a, 4, "read")?;
                        !matches!(self.read_bits(&o, off, 32), Val::Int(x) if x == v)
                    }
                    Wait::Lock(a, mask) => {
                        let (o, off) = self.find(st, a, 1, "read")?;
                        match self.read_bits(&o, off, 8) {
                            Val::Int(v) => v as u8 & mask == 0,
                            _ => return Err(Stop::Unsup("symbolic lock".into())),
                        }
                    }
                };
            if ok {
                r.push(i);
            }
        }
        Ok(r)
    }
    /// before an atomic operation: any other thread may run first
    fn sched(&mut self, st: &mut State, a: u64, n: u64, write: bool) -> R<()> {
        let (cur, left) = match &mut st.th {
            None => return Ok(()),
            Some(th) => {
                let c = th.cur;
                if th.v[c].go {
                    th.v[c].go = false;
                    // what ran meanwhile commutes with this operation: the same as having been interrupted later
                    if let Some((_, _, _, false)) = th.v[c].pend.take() {
                        return Err(Stop::Kill);
                    }
                    return Ok(());
                }
                (c, th.left)
            }
        };
        // what no other thread has a pointer to commutes as well
        if left == 0 || self.own_of(st, a) == Some(cur) {
            return Ok(());
        }
        for t in self.runnable(st)? {
            if t != cur {
                let mut o = st.clone();
                let th = o.th.as_mut().unwrap();
                th.left -= 1;
                th.v[cur].pend = Some((a, n, write, false));
                Self::switch(&mut o, t);
                self.fork(o);
            }
        }
        Ok(())
    }
    /// waiting for a word to change, and waking those who wait (they notice by themselves)
    fn futex(&mut self, st: &mut State, args: &[Val], c: &'static CallI, d: Option<u32>) -> R<()> {
        let a = self.concretise(st, &args[1], 64, "futex")? as u64;
        let op = self.concretise(st, &args[2], 32, "futex")? & 0x7f;
        let ret = match op {
            1 | 10 => 0,
            0 | 9 => {
                let want = self.concretise(st, &args[3], 32, "futex")?;
                let v = self.atomically(st, |s, st| s.load(st, a, &Ty::Int(32), 4))?;
                let v = self.concretise(st, &v, 32, "futex")?;
                if v == want {
                    let th = match &mut st.th {
                        Some(th) => th,
                        None => return Err(Stop::Viol("deadlock".into(), "waiting for another thread although there is none".into())),
                    };
                    for t in th.v.iter_mut() {
                        if let Some((b, _, _, hit)) = &mut t.pend {
                            *hit |= *b == a;
                        }
                    }
                    let k = th.cur;
                    th.v[k].wait = Wait::Futex(a, v);
                    return self.switch_away(st);
                }
                u64::MAX
            }
            o => return Err(Stop::Unsup(format!("futex operation {}", o))),
        };
        self.set(st, d, Val::Int(ret as u128));
        self.finish_call(st, c);
        Ok(())
    }
    fn own_of(&self, st: &State, a: u64) -> Option<usize> {
        let th = st.th.as_ref()?;
        if a >= SBASE && a < FBASE {
            return Some(th.cur);
        }
        if a < HBASE {
            return None;
        }
        let mut i = (a - HBASE) >> 16;
        loop {
            match st.heap.get((i / 64) as usize)?.get((i % 64) as usize)? {
                Slot::Back(k) => i = *k,
                _ => return th.own.get(&(HBASE + i * SLOT)).copied(),
            }
        }
    }
    /// the running thread cannot go on: any other one may
    fn switch_away(&mut self, st: &mut State) -> R<()> {
        let r = self.runnable(st)?;
        if r.is_empty() {
            return Err(Stop::Viol("deadlock".into(), "every thread waits".into()));
        }
        for t in &r[1..] {
            let mut o = st.clone();
            Self::switch(&mut o, *t);
            self.fork(o);
        }
        Self::switch(st, r[0]);
        Ok(())
    }
    fn atomically<X>(&mut self, st: &mut State, f: impl FnOnce(&mut Self, &mut State) -> R<X>) -> R<X> {
        let th = st.th.take();
        let r = f(self, st);
        st.th = th;
        r
    }
    fn acquire(&mut self, st: &mut State, a: u64, ord: u8) {
        if let Some(th) = &mut st.th {
            if let Some(k) = th.sync.get(&a) {
                let t = &mut th.v[th.cur];
                cjoin(&mut t.acq, k);
                if matches!(ord, 2 | 4 | 5) {
                    cjoin(&mut t.clock, k);
                }
            }
        }
    }
    fn release(&mut self, st: &mut State, a: u64, ord: u8, rmw: bool) {
        if let Some(th) = &mut st.th {
            let c = th.cur;
            let t = &mut th.v[c];
            let k = if matches!(ord, 3 | 4 | 5) { t.clock } else { t.rel };
            let e = Rc::make_mut(&mut th.sync).entry(a).or_insert([0; NT]);
            if rmw {
                cjoin(e, &k);
            } else {
                *e = k;
            }
            t.clock[c] += 1;
        }
    }
    /// records an access (0 read, 1 write, 2 atomic read, 3 atomic write, 4 free) and refuses one that races with another thread's
    fn touch(&mut self, st: &mut State, a: u64, n: u64, kind: u8) -> R<()> {
        let th = match &mut st.th {
            None => return Ok(()),
            Some(th) => th,
        };
        if a >= SBASE && a < FBASE {
            return Ok(());
        }
        if a >= GBASE && a < HBASE {
            let g = { self.m.galloc.borrow().get(((a - GBASE) >> 16) as usize).copied() };
            if let Some(g) = g {
                let g = &self.m.globals[g as usize];
                if g.constant || g.text[..g.text.len().min(80)].contains("thread_local") {
                    return Ok(());
                }
            }
        }
        let c = th.cur;
        for (i, t) in th.v.iter_mut().enumerate() {
            if let Some((b, m, w, hit)) = &mut t.pend {
                if i != c && a < *b + *m && *b < a + n && (*w || kind == 1 || kind >= 3) {
                    *hit = true;
                }
            }
        }
        let now = th.v[c].clock;
        let sh = Rc::make_mut(&mut th.shadow);
        for b in a..a + n {
            let e = sh.entry(b).or_default();
            for t in 0..NT {
                if t == c {
                    continue;
                }
                let k = now[t];
                let other = if e.w[t] > k {
                    "write"
                } else if kind != 0 && kind != 2 && e.r[t] > k {
                    "read"
                } else if kind != 2 && kind != 3 && e.aw[t] > k {
                    "atomic write"
                } else if (kind == 1 || kind == 4) && e.ar[t] > k {
                    "atomic read"
                } else {
                    continue;
                };
                let what = ["read", "write", "atomic read", "atomic write", "free"][kind as usize];
                return Err(Stop::Viol("race".into(), format!("data race: {} and {} by two threads", what, other)));
            }
            match kind {
                0 => e.r[c] = now[c],
                2 => e.ar[c] = now[c],
                3 => e.aw[c] = now[c],
                _ => e.w[c] = now[c],
            }
        }
        Ok(())
    }
    fn freeze(&mut self, st: &mut State, ty: &Ty, a: &Val) -> Val {
        match (ty, a) {
            (_, Val::Int(_)) | (_, Val::Sym(_)) => a.clone(),
            (Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..), v) => {
                let mut r = vec![];
                for i in 0..ty.nfields() {
                    let ft = ty.field(i).1;
                    let x = el(v, i as usize);
                    r.push(self.freeze(st, &ft, &x));
                }
                Val::Agg(Rc::new(r))
            }
            _ => {
                let w = ty.bits();
                let (t, u) = self.tu(a, w);
                let n = st.nfresh;
                st.nfresh += 1;
                let f = self.tm.var(w, &format!("freeze{}_{}", n, w));
                let m = self.tm.c(w, u);
                let nm = self.tm.c(w, !u);
                let x = self.tm.and(t, nm);
                let y = self.tm.and(f, m);
                let r = self.tm.or(x, y);
                self.norm(Val::Sym(r))
            }
        }
    }
    fn load(&mut self, st: &mut State, a: u64, ty: &Ty, al: u64) -> R<Val> {
        let n = ty.store_size();
        if n == 0 {
            return Ok(ty.zero());
        }
        let (o, off) = self.find(st, a, n, "read")?;
        if al > 1 && a % al != 0 {
            return Err(Stop::Viol("memory".into(), format!("misaligned read: offset {} needs alignment {}", off, al)));
        }
        self.touch(st, a, n, 0)?;
        self.read_val(&o, off, ty)
    }
    fn store(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val, al: u64) -> R<()> {
        let n = ty.store_size();
        if n == 0 {
            return Ok(());
        }
        if al > 1 && a % al != 0 {
            return Err(Stop::Viol("memory".into(), format!("misaligned write: needs alignment {}", al)));
        }
        self.touch(st, a, n, 1)?;
        self.with_obj(st, a, n, |s, o, off| s.write_val(o, off, ty, v))
    }
    /// the condition must hold on this path
    fn must(&mut self, st: &mut State, t: T, kind: &str, msg: &str) -> R<()> {
        let (side, other) = self.decide(st, t)?;
        match (side, other) {
            (true, None) => Ok(()),
            (false, None) => Err(Stop::Viol(kind.into(), msg.into())),
            (true, Some(m)) => {
                let mut o = st.clone();
                let nt = self.tm.not(t);
                self.add(&mut o, nt);
                o.model = m;
                self.record_violation(&o, kind.into(), msg.into());
                self.add(st, t);
                Ok(())
            }
            (false, Some(m)) => {
                let mut o = st.clone();
                let nt = self.tm.not(t);
                self.add(&mut o, nt);
                self.record_violation(&o, kind.into(), msg.into());
                self.add(st, t);
                st.model = m;
                Ok(())
            }
        }
    }
    fn fkind(&self, fi: u32) -> u32 {
        let fe = self.m.funcs.borrow()[fi as usize];
        let k = fe.kind.get();
        if k != K_UNSET {
            return k;
        }
        let k = classify(&fe.name, fe.text.is_some());
        fe.kind.set(k);
        k
    }
    fn finish_call(&mut self, st: &mut State, c: &CallI) {
        match c.inv {
            Some((n, _)) => self.goto(st, n),
            None => st.top.pc += 1,
        }
    }
    fn call(&mut self, st: &mut State, c: &'static CallI, d: Option<u32>) -> R<()> {
        let fi = match &c.callee {
            Callee::Fn(i) => *i,
            Callee::Asm => {
                // an empty compiler barrier: passes its first operand through
                if let Some((_, o)) = c.args.first() {
                    let v = self.op(st, o);
                    self.set(st, d, v);
                }
                self.finish_call(st, c);
                return Ok(());
            }
            Callee::Ind(o) => {
                let v = self.op(st, o);
                let a = self.concretise(st, &v, 64, "function pointer")? as u64;
                if a < FBASE || (a - FBASE) / 16 >= self.m.funcs.borrow().len() as u64 {
                    return Err(Stop::Viol("ub".into(), format!("call of a bad function pointer {:#x}", a)));
                }
                ((a - FBASE) / 16) as u32
            }
        };
        match self.fkind(fi) {
            K_DEF => {
                let args: Vec<Val> = c.args.iter().map(|(_, o)| self.op(st, o)).collect();
                self.enter(st, fi, args, false)
            }
            K_NOP => {
                self.finish_call(st, c);
                Ok(())
            }
            K_PANIC => {
                let name = self.m.funcs.borrow()[fi as usize].name.clone();
                let loc = self.panic_location(st, c);
                let bt = self.backtrace(st);
                let at = bt.iter().find(|s| s.contains("/repo/src")).cloned().unwrap_or_default();
                let short = name.rsplit("9panicking").next().unwrap_or(&name).trim_start_matches(|c: char| c.is_ascii_digit()).to_string();
                st.panic = Some(format!("{} at {} ({})", short, loc, at));
                // the callee frame does not exist: unwind from the present frame
                if let Some((_, u)) = c.inv {
                    st.top.exc = Some(());
                    self.goto(st, u);
                    return Ok(());
                }
                self.unwind(st)
            }
            K_ABORT => {
                let name = self.m.funcs.borrow()[fi as usize].name.clone();
                Err(Stop::Viol("abort".into(), format!("{} {}", name, st.panic.clone().unwrap_or_default())))
            }
            K_BUILTIN => {
                let name = &self.m.funcs.borrow()[fi as usize].name;
                self.builtin(st, name, c, d)
            }
            _ => {
                let name = self.m.funcs.borrow()[fi as usize].name.clone();
                Err(Stop::Unsup(format!("call of external {}", name)))
            }
        }
    }
    /// the source location a panic entry point was given
    fn panic_location(&mut self, st: &mut State, c: &CallI) -> String {
        for (t, o) in c.args.iter().rev() {
            if *t != Ty::Ptr {
                continue;
            }
            if let Val::Int(a) = self.op(st, o) {
                // Location { file: &str, line: u32, col: u32 }
                let r: R<(u64, u64, u64)> = (|| {
                    let p = self.load(st, a as u64, &Ty::Ptr, 1)?;
                    let n = self.load(st, a as u64 + 8, &Ty::Int(64), 1)?;
                    let l = self.load(st, a as u64 + 16, &Ty::Int(32), 1)?;
                    match (p, n, l) {
                        (Val::Int(p), Val::Int(n), Val::Int(l)) => Ok((p as u64, n as u64, l as u64)),
                        _ => Err(Stop::Kill),
                    }
                })();
                if let Ok((p, n, l)) = r {
                    if n < 400 {
                        if let Ok(s) = self.read_str(st, p, n) {
                            let s = s.rsplit("/registry/src/").next().unwrap_or("").to_string();
                            return format!("{}:{}", s, l);
                        }
                    }
                }
            }
        }
        "?".into()
    }
    fn read_str(&mut self, st: &mut State, p: u64, n: u64) -> R<String> {
        if n == 0 {
            return Ok(String::new());
        }
        let (o, off) = self.find(st, p, n, "read")?;
        Ok(String::from_utf8_lossy(&o.data[off as usize..(off + n) as usize]).into_owned())
    }
    fn memcpy(&mut self, st: &mut State, dst: u64, src: u64, n: u64, overlap_ok: bool) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (so, soff) = self.find(st, src, n, "read")?;
        if !overlap_ok && dst != src && dst < src + n && src < dst + n {
            return Err(Stop::Viol("memory".into(), "memcpy with overlapping ranges".into()));
        }
        self.touch(st, src, n, 0)?;
        self.touch(st, dst, n, 1)?;
        self.with_obj(st, dst, n, |_, o, off| {
            let (a, b, k) = (off as usize, soff as usize, n as usize);
            o.data[a..a + k].copy_from_slice(&so.data[b..b + k]);
            if !so.undef.is_empty() || !o.undef.is_empty() {
                if o.undef.is_empty() {
                    o.undef = vec![0; o.size as usize];
                }
                if so.undef.is_empty() {
                    o.undef[a..a + k].fill(0);
                } else {
                    o.undef[a..a + k].copy_from_slice(&so.undef[b..b + k]);
                }
            }
            if !so.sym.is_empty() || !o.sym.is_empty() {
                if o.sym.is_empty() {
                    o.sym = vec![(NOSYM, 0); o.size as usize];
                }
                if so.sym.is_empty() {
                    for x in &mut o.sym[a..a + k] {
                        x.0 = NOSYM;
                    }
                } else {
                    o.sym[a..a + k].copy_from_slice(&so.sym[b..b + k]);
                }
            }
            Ok(())
        })
    }
    fn boolv(&mut self, v: &Val, what: &str) -> R<T> {
        match v {
            Val::Int(c) => Ok(self.tm.c(1, *c & 1)),
            Val::Sym(t) => Ok(if self.tm.w(*t) == 1 {
                *t
            } else {
                let w = self.tm.w(*t);
                let z = self.tm.c(w, 0);
                let e = self.tm.eq(*t, z);
                self.tm.not(e)
            }),
            _ => Err(Stop::Viol("uninit".into(), format!("uninitialised {}", what))),
        }
    }
    fn dealloc(&mut self, st: &mut State, p: u64, size: u64, align: u64) -> R<()> {
        let (o, off) = self.find(st, p, 0, "free").map_err(|e| match e {
            Stop::Viol(_, m) if m.starts_with("use after free") => Stop::Viol("memory".into(), "double free".into()),
            e => e,
        })?;
        if off != 0 || o.kind != Kind::Heap {
            return Err(Stop::Viol("memory".into(), "free of a pointer that is not a heap allocation".into()));
        }
        if o.size != size || o.align != align {
            return Err(Stop::Viol(
                "memory".into(),
                format!("free with layout ({}, {}) of an allocation made with ({}, {})", size, align, o.size, o.align),
            ));
        }
        self.touch(st, p, size, 4)?;
        let first = (p - HBASE) >> 16;
        for i in first..first + size / SLOT + 1 {
            Rc::make_mut(&mut st.heap[(i / 64) as usize])[(i % 64) as usize] = Slot::Freed;
        }
        st.live -= 1;
        Ok(())
    }
    fn builtin(&mut self, st: &mut State, name: &'static str, c: &'static CallI, d: Option<u32>) -> R<()> {
        let args: Vec<Val> = c.args.iter().map(|(_, o)| self.op(st, o)).collect();
        let w0 = c.args.first().map(|a| a.0.lanes().0.bits()).unwrap_or(0);
        macro_rules! conc {
            ($i:expr,$w:expr,$what:expr) => {
                self.concretise(st, &args[$i], $w, $what)?
            };
        }
        if let Some(k) = lock_slow(name) {
            // contended: wait until the holder has released it
            let a = conc!(0, 64, "lock") as u64;
            let (mask, n) = if k == 1 { (1u8, 1) } else { (0xff, 4) };
            let ty = Ty::Int(n * 8);
            let v = self.atomically(st, |s, st| s.load(st, a, &ty, 1))?;
            let v = self.concretise(st, &v, n * 8, "lock state")?;
            let th = match &mut st.th {
                Some(th) => th,
                None => return Err(Stop::Viol("deadlock".into(), "locking a lock that is already held".into())),
            };
            if v as u8 & mask != 0 {
                for t in th.v.iter_mut() {
                    // a failed attempt conflicts with what the holder does to the lock
                    if let Some((b, _, _, hit)) = &mut t.pend {
                        *hit |= *b == a;
                    }
                }
                let c = th.cur;
                th.v[c].wait = Wait::Lock(a, mask);
                return self.switch_away(st);
            }
            self.atomically(st, |s, st| s.store(st, a, &ty, &Val::Int(v | 1), 1))?;
            self.touch(st, a, n as u64, 3)?;
            self.acquire(st, a, 2);
            self.release(st, a, 1, true);
            self.set(st, d, Val::Int(1));
            self.finish_call(st, c);
            return Ok(());
        }
        let ret: Val = if let Some(s) = name.strip_prefix("sym_") {
            match s {
                "u8" | "u16" | "u32" | "u64" => {
                    let w: u32 = s[1..].parse().unwrap();
                    let n = st.inputs.len();
                    let t = self.tm.var(w, &format!("in{}_{}", n, w));
                    st.inputs.push((w, Val::Sym(t)));
                    Val::Sym(t)
                }
                "choice" => {
                    let n = conc!(0, 32, "choice") as u32;
                    if n == 0 {
                        return Err(Stop::Kill);
                    }
                    for k in (1..n).rev() {
                        let mut o = st.clone();
                        o.inputs.push((0, Val::Int(k as u128)));
                        o.choices.push(k);
                        self.set(&mut o, d, Val::Int(k as u128));
                        self.finish_call(&mut o, c);
                        self.fork(o);
                    }
                    st.inputs.push((0, Val::Int(0)));
                    st.choices.push(0);
                    Val::Int(0)
                }
                "split" => {
                    let (k, n) = self.cfg.shard;
                    if n > 1 {
                        let mut h: u64 = 0xcbf29ce484222325;
                        for x in &st.choices {
                            h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
                            h ^= h >> 29;
                        }
                        h = h.wrapping_mul(0x9E3779B97F4A7C15);
                        if ((h >> 32) % n as u64) as u32 != k {
                            return Err(Stop::Kill);
                        }
                    }
                    Val::Int(0)
                }
                "assume" => {
                    let t = self.boolv(&args[0], "assumption")?;
                    match self.quick(st, t) {
                        Some(true) => {}
                        Some(false) => return Err(Stop::Kill),
                        None => {
                            let m = st.model.clone();
                            if self.tm.eval(t, &m) != 1 {
                                match self.sat(st, t)? {
                                    Some(m) => st.model = m,
                                    None => return Err(Stop::Kill),
                                }
                            }
                            self.add(st, t);
                        }
                    }
                    Val::Int(0)
                }
                "assert" => {
                    let p = conc!(1, 64, "assert id") as u64;
                    let n = conc!(2, 64, "assert id") as u64;
                    let id = self.read_str(st, p, n)?;
                    *self.assert_ids.entry(id.clone()).or_insert(0) += 1;
                    self.asserts += 1;
                    let t = self.boolv(&args[0], &format!("asserted condition: {}", id))?;
                    let q0 = self.sv.queries;
                    self.must(st, t, "assert", &id)?;
                    if self.sv.queries > q0 {
                        self.asserts_solver += 1;
                    }
                    Val::Int(0)
                }
                "cover" => {
                    let p = conc!(0, 64, "cover id") as u64;
                    let n = conc!(1, 64, "cover id") as u64;
                    let id = self.read_str(st, p, n)?;
                    Rc::make_mut(&mut st.covers).insert(id);
                    Val::Int(0)
                }
                "out" => {
                    st.outs.push(args[0].clone());
                    Val::Int(0)
                }
                "alloc" => {
                    let size = conc!(0, 64, "allocation size") as u64;
                    let align = conc!(1, 64, "allocation alignment") as u64;
                    if size > MAX_ALLOC {
                        Val::Int(0)
                    } else {
                        Val::Int(self.heap_alloc(st, size, align) as u128)
                    }
                }
                "dealloc" => {
                    let p = conc!(0, 64, "free") as u64;
                    let size = conc!(1, 64, "free") as u64;
                    let align = conc!(2, 64, "free") as u64;
                    self.dealloc(st, p, size, align)?;
                    Val::Int(0)
                }
                "realloc" => {
                    let p = conc!(0, 64, "realloc") as u64;
                    let size = conc!(1, 64, "realloc") as u64;
                    let align = conc!(2, 64, "realloc") as u64;
                    let new = conc!(3, 64, "realloc") as u64;
                    if new > MAX_ALLOC {
                        Val::Int(0)
                    } else {
                        let q = self.heap_alloc(st, new, align);
                        self.memcpy(st, q, p, size.min(new), false)?;
                        self.dealloc(st, p, size, align)?;
                        Val::Int(q as u128)
                    }
                }
                "heap_live" => Val::Int(st.live as i128 as u128 & mask(64)),
                "alloc_count" => Val::Int(st.allocs as u128),
                "param" => {
                    let i = conc!(0, 32, "param") as usize;
                    Val::Int(self.cfg.params.get(i).copied().unwrap_or(0) as u128)
                }
                "concrete" => Val::Int(conc!(0, 64, "concrete")),
                "preemptions" => {
                    st.preempt = conc!(0, 32, "preemptions") as u32;
                    Val::Int(0)
                }
                "spawn" => {
                    let f = conc!(0, 64, "function pointer") as u64;
                    let fi = ((f - FBASE) / 16) as u32;
                    let a = args[1].clone();
                    let id = self.spawn(st, fi, a)?;
                    // the value now belongs to the thread
                    if let Val::Int(p) = &args[1] {
                        let th = st.th.as_mut().unwrap();
                        Rc::make_mut(&mut th.own).insert(*p as u64, id);
                    }
                    Val::Int(id as u128)
                }
                "join" => {
                    let t = conc!(0, 32, "thread") as usize;
                    let th = match &mut st.th {
                        Some(th) => th,
                        None => return Err(Stop::Unsup("join without spawn".into())),
                    };
                    let c = th.cur;
                    if !th.v[t].done {
                        th.v[c].wait = Wait::Join(t);
                        return self.switch_away(st);
                    }
                    let k = th.v[t].clock;
                    cjoin(&mut th.v[c].clock, &k);
                    Val::Int(0)
                }
                "try" => {
                    let f = conc!(0, 64, "function pointer") as u64;
                    let fi = ((f - FBASE) / 16) as u32;
                    let a = vec![args[1].clone()];
                    return self.enter(st, fi, a, true);
                }
                _ => return Err(Stop::Unsup(format!("intrinsic {}", name))),
            }
        } else if let Some(s) = name.strip_prefix("llvm.") {
            let base = s.split('.').next().unwrap_or("");
            match base {
                "lifetime" => {
                    let p = if args.len() == 2 { &args[1] } else { &args[0] };
                    if let Val::Int(a) = p {
                        let a = *a as u64;
                        if a >= st.sb && a < st.sb + ((st.stack.len() as u64) << 16) && (a - st.sb) % SLOT == 0 {
                            let i = ((a - st.sb) >> 16) as usize;
                            let o = Rc::make_mut(&mut st.stack[i]);
                            let n = o.size as usize;
                            o.undef = vec![0xff; n];
                            o.sym = vec![];
                        }
                    }
                    Val::Undef
                }
                "memcpy" | "memmove" => {
                    let dst = conc!(0, 64, "memcpy destination") as u64;
                    let src = conc!(1, 64, "memcpy source") as u64;
                    let n = conc!(2, 64, "memcpy length") as u64;
                    self.memcpy(st, dst, src, n, base == "memmove")?;
                    Val::Undef
                }
                "memset" => {
                    let dst = conc!(0, 64, "memset destination") as u64;
                    let n = conc!(2, 64, "memset length") as u64;
                    let v = args[1].clone();
                    if n > 0 {
                        self.touch(st, dst, n, 1)?;
                        self.with_obj(st, dst, n, |s, o, off| {
                            for i in 0..n {
                                s.write_bits(o, off + i, 1, &v, 8);
                            }
                            Ok(())
                        })?;
                    }
                    Val::Undef
                }
                "assume" => {
                    match &args[0] {
                        Val::Int(1) => {}
                        v => {
                            let t = self.boolv(v, "compiler assumption")?;
                            self.must(st, t, "ub", "compiler assumption violated (undefined behaviour)")?;
                        }
                    }
                    Val::Undef
                }
                "trap" | "ubsantrap" => return Err(Stop::Viol("abort".into(), "trap".into())),
                "expect" => args[0].clone(),
                "is" => Val::Int(0), // is.constant
                "threadlocal" | "launder" | "strip" | "ssa" => args[0].clone(),
                "ptrmask" => self.bin(Bin::And, 64, &args[0], &args[1])?,
                "load" => return Err(Stop::Unsup(name.into())),
                "umax" | "umin" | "smax" | "smin" | "ucmp" | "scmp" | "abs" | "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" | "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" | "fshl" | "fshr" => {
                    let (et, n) = c.args[0].0.lanes();
                    let _ = w0;
                    match n {
                        None => self.intop(st, name, base, s, &args, et.bits(), c.ret.bits())?,
                        Some(n) => {
                            let mut r = vec![];
                            for i in 0..n as usize {
                                let a: Vec<Val> = args.iter().map(|x| if let Val::Agg(_) = x { el(x, i) } else { x.clone() }).collect();
                                r.push(self.intop(st, name, base, s, &a, et.bits(), c.ret.lanes().0.bits())?);
                            }
                            Val::Agg(Rc::new(r))
                        }
                    }
                }
                "vector" => {
                    // vector.reduce.{add,and,or,xor,umax,...}
                    let (et, n) = c.args[0].0.lanes();
                    let w = et.bits();
                    let kind = s.split('.').nth(2).unwrap_or("");
                    let v = args[0].clone();
                    let mut acc = el(&v, 0);
                    for i in 1..n.unwrap_or(1) as usize {
                        let x = el(&v, i);
                        acc = match kind {
                            "add" => self.bin(Bin::Add, w, &acc, &x)?,
                            "and" => self.bin(Bin::And, w, &acc, &x)?,
                            "or" => self.bin(Bin::Or, w, &acc, &x)?,
                            "xor" => self.bin(Bin::Xor, w, &acc, &x)?,
                            "mul" => self.bin(Bin::Mul, w, &acc, &x)?,
                            "umax" | "umin" | "smax" | "smin" => self.intop(st, name, kind, kind, &[acc, x], w, w)?,
                            _ => return Err(Stop::Unsup(name.into())),
                        };
                    }
                    acc
                }
                _ => return Err(Stop::Unsup(format!("intrinsic {}", name))),
            }
        } else {
            match name {
                "memcpy" | "memmove" => {
                    let dst = conc!(0, 64, "memcpy destination") as u64;
                    let src = conc!(1, 64, "memcpy source") as u64;
                    let n = conc!(2, 64, "memcpy length") as u64;
                    self.memcpy(st, dst, src, n, name == "memmove")?;
                    args[0].clone()
                }
                "memset" => {
                    let dst = conc!(0, 64, "memset destination") as u64;
                    let n = conc!(2, 64, "memset length") as u64;
                    let v = self.cast(Cast::Trunc, 32, 8, &args[1]);
                    if n > 0 {
                        self.with_obj(st, dst, n, |s, o, off| {
                            for i in 0..n {
                                s.write_bits(o, off + i, 1, &v, 8);
                            }
                            Ok(())
                        })?;
                    }
                    args[0].clone()
                }
                "memcmp" | "bcmp" => {
                    let a = conc!(0, 64, "memcmp") as u64;
                    let b = conc!(1, 64, "memcmp") as u64;
                    let n = conc!(2, 64, "memcmp") as u64;
                    let w = c.ret.bits();
                    if n == 0 {
                        Val::Int(0)
                    } else {
                        let (ao, aoff) = self.find(st, a, n, "read")?;
                        let (bo, boff) = self.find(st, b, n, "read")?;
                        self.touch(st, a, n, 0)?;
                        self.touch(st, b, n, 0)?;
                        let mut acc = self.tm.c(w, 0);
                        let mut alleq = self.tm.tru();
                        let mut undef = false;
                        for i in (0..n).rev() {
                            let x = self.read_bits(&ao, aoff + i, 8);
                            let y = self.read_bits(&bo, boff + i, 8);
                            let (x, ux) = self.tu(&x, 8);
                            let (y, uy) = self.tu(&y, 8);
                            undef |= ux | uy != 0;
                            let e = self.tm.eq(x, y);
                            if name == "memcmp" {
                                let l = self.tm.ult(x, y);
                                let m1 = self.tm.c(w, !0);
                                let p1 = self.tm.c(w, 1);
                                let r = self.tm.ite(l, m1, p1);
                                acc = self.tm.ite(e, acc, r);
                            } else {
                                alleq = self.tm.and(alleq, e);
                            }
                        }
                        if undef {
                            Val::Undef
                        } else if name == "memcmp" {
                            self.norm(Val::Sym(acc))
                        } else {
                            let z = self.tm.c(w, 0);
                            let o = self.tm.c(w, 1);
                            let r = self.tm.ite(alleq, z, o);
                            self.norm(Val::Sym(r))
                        }
                    }
                }
                "strlen" => {
                    let p = conc!(0, 64, "strlen") as u64;
                    let mut n = 0;
                    loop {
                        let b = self.load(st, p + n, &Ty::Int(8), 1)?;
                        match b {
                            Val::Int(0) => break,
                            Val::Int(_) => n += 1,
                            _ => return Err(Stop::Unsup("strlen of symbolic data".into())),
                        }
                    }
                    Val::Int(n as u128)
                }
                "getrandom" | "syscall" => {
                    if name == "syscall" && matches!(args[0], Val::Int(202)) {
                        return self.futex(st, &args, c, d);
                    }
                    // only randomness: a fixed seed
                    let (bi, li) = if name == "syscall" { (1, 2) } else { (0, 1) };
                    if name == "syscall" && !matches!(args[0], Val::Int(318)) {
                        return Err(Stop::Unsup("syscall".into()));
                    }
                    let p = conc!(bi, 64, "getrandom") as u64;
                    let n = conc!(li, 64, "getrandom") as u64;
                    self.with_obj(st, p, n, |s, o, off| {
                        for i in 0..n {
                            s.write_bits(o, off + i, 1, &Val::Int(0x5a), 8);
                        }
                        Ok(())
                    })?;
                    Val::Int(n as u128)
                }
                "__cxa_thread_atexit_impl" => Val::Int(0),
                "__errno_location" => {
                    let p = self.heap_alloc(st, 4, 4);
                    st.live -= 1;
                    st.allocs -= 1;
                    self.with_obj(st, p, 4, |s, o, off| {
                        s.write_bits(o, off, 4, &Val::Int(0), 32);
                        Ok(())
                    })?;
                    Val::Int(p as u128)
                }
                _ => return Err(Stop::Unsup(format!("external {}", name))),
            }
        };
        self.set(st, d, ret);
        self.finish_call(st, c);
        Ok(())
    }
    fn intop(&mut self, st: &mut State, name: &str, base: &str, s: &str, args: &[Val], w: u32, rw: u32) -> R<Val> {
        let two = args.len() >= 2;
        let overflow = s.contains("with.overflow");
        let sat = s.contains(".sat");
        if let Val::Undef | Val::Part(_) = &args[0] {
            return Ok(if overflow { Val::Agg(Rc::new(vec![Val::Undef, Val::Undef])) } else { Val::Undef });
        }
        if two {
            if let Val::Undef | Val::Part(_) = &args[1] {
                return Ok(if overflow { Val::Agg(Rc::new(vec![Val::Undef, Val::Undef])) } else { Val::Undef });
            }
        }
        let (a, _) = self.tu(&args[0], w);
        let t = match base {
            "umax" | "umin" | "smax" | "smin" => {
                let (b, _) = self.tu(&args[1], w);
                let c = if base.starts_with('u') { self.tm.ult(a, b) } else { self.tm.slt(a, b) };
                if base.ends_with("min") {
                    self.tm.ite(c, a, b)
                } else {
                    self.tm.ite(c, b, a)
                }
            }
            "ucmp" | "scmp" => {
                let (b, _) = self.tu(&args[1], w);
                let c = if base == "ucmp" { self.tm.ult(a, b) } else { self.tm.slt(a, b) };
                let e = self.tm.eq(a, b);
                let (m1, z, o) = (self.tm.c(rw, !0), self.tm.c(rw, 0), self.tm.c(rw, 1));
                let r = self.tm.ite(c, m1, o);
                self.tm.ite(e, z, r)
            }
            "abs" => {
                let z = self.tm.c(w, 0);
                let c = self.tm.slt(a, z);
                let n = self.tm.neg(a);
                self.tm.ite(c, n, a)
            }
            "fshl" | "fshr" => {
                let (b, _) = self.tu(&args[1], w);
                let k = self.concretise(st, &args[2], w, "funnel shift amount")? as u32 % w;
                let k = if base == "fshl" { k } else { (w - k) % w };
                if k == 0 {
                    if base == "fshl" {
                        a
                    } else {
                        b
                    }
                } else {
                    let h = self.tm.ext(0, w - k, a);
                    let l = self.tm.ext(w - k, k, b);
                    self.tm.concat(h, l)
                }
            }
            "bswap" => {
                let n = w / 8;
                let mut acc = self.tm.ext(0, 8, a);
                for i in 1..n {
                    let b = self.tm.ext(8 * i, 8, a);
                    acc = self.tm.concat(acc, b);
                }
                acc
            }
            "ctlz" | "cttz" | "ctpop" | "bitreverse" => {
                if let Some(v) = self.tm.cv(a) {
                    let r = match base {
                        "ctlz" => (w - (128 - v.leading_zeros())) as u128,
                        "cttz" => (v.trailing_zeros().min(w)) as u128,
                        "ctpop" => v.count_ones() as u128,
                        _ => v.reverse_bits() >> (128 - w),
                    };
                    self.tm.c(w, r)
                } else {
                    match base {
                        "ctpop" => {
                            let mut acc = self.tm.c(w, 0);
                            for i in 0..w {
                                let b = self.tm.ext(i, 1, a);
                                let z = self.tm.zext(w, b);
                                acc = self.tm.add(acc, z);
                            }
                            acc
                        }
                        "bitreverse" => {
                            let mut acc = self.tm.ext(0, 1, a);
                            for i in 1..w {
                                let b = self.tm.ext(i, 1, a);
                                acc = self.tm.concat(acc, b);
                            }
                            acc
                        }
                        _ => {
                            let mut acc = self.tm.c(w, w as u128);
                            for j in 0..w {
                                // priority: build from the lowest priority up
                                let i = if base == "ctlz" { j } else { w - 1 - j };
                                let b = self.tm.ext(i, 1, a);
                                let r = if base == "ctlz" { w - 1 - i } else { i };
                                let k = self.tm.c(w, r as u128);
                                acc = self.tm.ite(b, k, acc);
                            }
                            acc
                        }
                    }
                }
            }
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
                let (b, _) = self.tu(&args[1], w);
                let signed = base.starts_with('s');
                if 2 * w > 128 && (base == "umul" || base == "smul") {
                    if signed {
                        return Err(Stop::Unsup(name.into()));
                    }
                    let (x, y) = match (self.tm.cv(a), self.tm.cv(b)) {
                        (Some(x), Some(y)) => (x, y),
                        _ => return Err(Stop::Unsup(name.into())),
                    };
                    let (r, o) = x.overflowing_mul(y);
                    return Ok(Val::Agg(Rc::new(vec![Val::Int(r), Val::Int(o as u128)])));
                }
                if signed && w == 128 {
                    return Err(Stop::Unsup(name.into()));
                }
                let ww = if base.ends_with("mul") { 2 * w } else { (w + 1).min(128) };
                let (xa, xb) = if signed { (self.tm.sext(ww, a), self.tm.sext(ww, b)) } else { (self.tm.zext(ww, a), self.tm.zext(ww, b)) };
                let (r, wide) = match &base[1..] {
                    "add" => (self.tm.add(a, b), self.tm.add(xa, xb)),
                    "sub" => (self.tm.sub(a, b), self.tm.sub(xa, xb)),
                    _ => (self.tm.mul(a, b), self.tm.mul(xa, xb)),
                };
                let o = match base {
                    "uadd" => self.tm.ult(r, a),
                    "usub" => self.tm.ult(a, b),
                    _ => {
                        let back = if signed { self.tm.sext(ww, r) } else { self.tm.zext(ww, r) };
                        let e = self.tm.eq(back, wide);
                        self.tm.not(e)
                    }
                };
                if overflow {
                    let rv = self.norm(Val::Sym(r));
                    let ov = self.norm(Val::Sym(o));
                    return Ok(Val::Agg(Rc::new(vec![rv, ov])));
                }
                if sat && !signed {
                    let lim = if base == "uadd" { self.tm.c(w, !0) } else { self.tm.c(w, 0) };
                    self.tm.ite(o, lim, r)
                } else if sat && base != "smul" {
                    // the sign of the first operand tells which bound was crossed
                    let (hi, lo) = (self.tm.c(w, mask(w) >> 1), self.tm.c(w, 1u128 << (w - 1)));
                    let neg = self.tm.ext(w - 1, 1, a);
                    let lim = self.tm.ite(neg, lo, hi);
                    self.tm.ite(o, lim, r)
                } else {
                    return Err(Stop::Unsup(name.into()));
                }
            }
            _ => return Err(Stop::Unsup(name.into())),
        };
        Ok(self.norm(Val::Sym(t)))
    }
}

fn el(v: &Val, i: usize) -> Val {
    match v {
        Val::Agg(a) => a[i].clone(),
        _ => Val::Undef,
    }
}
fn insert(a: Val, v: Val, path: &[u32]) -> Val {
    let mut xs = match a {
        Val::Agg(x) => (*x).clone(),
        _ => vec![],
    };
    let i = path[0] as usize;
    while xs.len() <= i {
        xs.push(Val::Undef);
    }
    if path.len() == 1 {
        xs[i] = v;
    } else {
        let inner = xs[i].clone();
        xs[i] = insert(inner, v, &path[1..]);
    }
    Val::Agg(Rc::new(xs))
}
