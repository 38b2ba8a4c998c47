//! Textual LLVM IR: lazily parsed module.
use crate::term::{mask, T};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    Int(u128),
    Sym(T),
    Part(Rc<(T, u128)>), // value, undefined-bit mask
    Undef,
    Agg(Rc<Vec<Val>>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u64, Rc<Ty>),
    Other,
}
fn rup(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    /// bytes a load or store touches
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                rup(b, self.align())
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        o = rup(o, t.align());
                    }
                    o += t.size();
                }
                rup(o, self.align())
            }
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            _ => 0,
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = rup(o, t.align());
                    }
                    if k as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            _ => panic!("field of scalar"),
        }
    }
    pub fn nfields(&self) -> u64 {
        match self {
            Ty::Struct(f, _) => f.len() as u64,
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n,
            _ => 0,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) | Ty::Float(w) => *w,
            Ty::Ptr => 64,
            Ty::Vec(n, t) => *n as u32 * t.bits(),
            _ => 0,
        }
    }
    pub fn scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float(_))
    }
    /// elementwise view: (element type, lanes)
    pub fn lanes(&self) -> (Ty, Option<u64>) {
        match self {
            Ty::Vec(n, t) => ((**t).clone(), Some(*n)),
            t => (t.clone(), None),
        }
    }
    pub fn zero(&self) -> Val {
        match self {
            Ty::Arr(n, t) | Ty::Vec(n, t) => Val::Agg(Rc::new((0..*n).map(|_| t.zero()).collect())),
            Ty::Struct(f, _) => Val::Agg(Rc::new(f.iter().map(|t| t.zero()).collect())),
            _ => Val::Int(0),
        }
    }
    pub fn undef(&self) -> Val {
        match self {
            Ty::Arr(n, t) | Ty::Vec(n, t) => Val::Agg(Rc::new((0..*n).map(|_| t.undef()).collect())),
            Ty::Struct(f, _) => Val::Agg(Rc::new(f.iter().map(|t| t.undef()).collect())),
            _ => Val::Undef,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(Val),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bits,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Op),
    Asm,
}
#[derive(Clone, Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Vec<(Ty, Op)>,
    pub ret: Ty,
    pub inv: Option<(u32, u32)>,
}
#[derive(Clone, Debug)]
pub enum I {
    Bin(Bin, Ty, Op, Op),
    ICmp(Pred, Ty, Op, Op),
    Load(Ty, Op, u64, u8), // alignment, ordering (0: not atomic)
    Store(Ty, Op, Op, u64, u8),
    Gep(Op, i64, Vec<(Op, u32, i64)>),
    Alloca(u64, u64, Op),
    Cast(Cast, Ty, Ty, Op),
    Select(Ty, Ty, Op, Op, Op),
    Extract(Op, Vec<u32>),
    Insert(Op, Op, Vec<u32>),
    ExtractEl(Op, Op),
    InsertEl(Op, Op, Op),
    Shuffle(Op, Op, Op),
    Call(Box<CallI>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    LandingPad(bool), // has a catch clause
    Resume(Op),
    Rmw(String, Ty, Op, Op, u8),
    CmpXchg(Ty, Op, Op, Op, u8, u8),
    Fence(u8),
    Freeze(Ty, Op),
    Unsupported(String),
}
pub struct Instr {
    pub i: I,
    pub d: Option<u32>,
    pub dbg: u32,
}
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub start: u32,
    pub name: String,
}
pub struct Func {
    pub idx: u32,
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub code: Vec<Instr>,
}
pub struct FuncEntry {
    pub name: String,
    pub text: Option<&'static str>,
    pub parsed: Cell<Option<&'static Func>>,
    pub kind: Cell<u32>,
}
pub struct GlobalEntry {
    pub name: String,
    pub text: &'static str, // after '='
    pub addr: Cell<u64>,
    pub size: Cell<u64>,
    pub constant: bool,
}
pub const FBASE: u64 = 0x7f00_0000_0000;
pub const GBASE: u64 = 0x1000_0000_0000;
pub const GSLOT: u64 = 0x1_0000;

pub struct Module {
    pub funcs: RefCell<Vec<&'static FuncEntry>>,
    pub fmap: RefCell<HashMap<String, u32>>,
    pub globals: Vec<GlobalEntry>,
    pub gmap: HashMap<&'static str, u32>,
    pub galloc: RefCell<Vec<u32>>, // slot -> global index
    types: HashMap<String, &'static str>,
    pub aliases: HashMap<String, &'static str>,
    pub meta: Vec<&'static str>,
}

fn ident_end(s: &[u8], mut i: usize) -> usize {
    if i < s.len() && s[i] == b'"' {
        i += 1;
        while s[i] != b'"' {
            i += 1;
        }
        return i + 1;
    }
    while i < s.len() && (s[i].is_ascii_alphanumeric() || matches!(s[i], b'_' | b'.' | b'$' | b'-')) {
        i += 1;
    }
    i
}
fn unq(s: &str) -> String {
    s.trim_matches('"').to_string()
}

impl Module {
    pub fn load(text: &'static str) -> Module {
        let mut funcs: Vec<&'static FuncEntry> = vec![];
        let mut fmap = HashMap::new();
        let mut globals = vec![];
        let mut gmap = HashMap::new();
        let mut types = HashMap::new();
        let mut aliases = HashMap::new();
        let mut meta: Vec<&'static str> = vec![];
        let b = text.as_bytes();
        let mut pos = 0;
        while pos < b.len() {
            let eol = memchr(b, pos, b'\n');
            let line = &text[pos..eol];
            if line.starts_with("define") {
                let at = line.find('@').unwrap();
                let e = ident_end(b, pos + at + 1);
                let name = unq(&text[pos + at + 1..e]);
                // body until "\n}\n"
                let mut k = eol;
                loop {
                    if b[k + 1] == b'}' {
                        break;
                    }
                    k = memchr(b, k + 1, b'\n');
                }
                let body = &text[e..k + 1];
                fmap.insert(name.clone(), funcs.len() as u32);
                funcs.push(Box::leak(Box::new(FuncEntry { name, text: Some(body), parsed: Cell::new(None), kind: Cell::new(0) })));
                pos = k + 2;
                continue;
            } else if line.starts_with('@') {
                let e = ident_end(b, pos + 1);
                let name: &'static str = text[pos + 1..e].trim_matches('"');
                let rest = &text[e..eol];
                let rest = rest.trim_start().trim_start_matches('=').trim_start();
                if rest.split(' ').take(6).any(|w| w == "alias") {
                    let at = rest.rfind('@').unwrap();
                    aliases.insert(name.to_string(), rest[at + 1..].trim().trim_matches('"'));
                } else {
                    let constant = rest.split(' ').take(8).any(|w| w == "constant");
                    gmap.insert(name, globals.len() as u32);
                    globals.push(GlobalEntry { name: name.to_string(), text: rest, addr: Cell::new(0), size: Cell::new(0), constant });
                }
            } else if line.starts_with('%') {
                if let Some(p) = line.find(" = type ") {
                    types.insert(unq(&line[1..p]), &line[p + 8..]);
                }
            } else if line.starts_with("declare") {
                let at = line.find('@').unwrap();
                let e = ident_end(b, pos + at + 1);
                let name = unq(&text[pos + at + 1..e]);
                fmap.insert(name.clone(), funcs.len() as u32);
                funcs.push(Box::leak(Box::new(FuncEntry { name, text: None, parsed: Cell::new(None), kind: Cell::new(0) })));
            } else if line.starts_with('!') && line.len() > 1 && b[pos + 1].is_ascii_digit() {
                let sp = line.find(' ').unwrap();
                let n: usize = line[1..sp].parse().unwrap();
                if meta.len() <= n {
                    meta.resize(n + 1, "");
                }
                meta[n] = &line[sp + 3..];
            }
            pos = eol + 1;
        }
        Module {
            funcs: RefCell::new(funcs),
            fmap: RefCell::new(fmap),
            globals,
            gmap,
            galloc: RefCell::new(vec![]),
            types,
            aliases,
            meta,
        }
    }
    pub fn func_idx(&self, name: &str) -> Option<u32> {
        self.fmap.borrow().get(name).copied()
    }
    pub fn addr_of(&self, name: &str) -> u64 {
        if let Some(i) = self.fmap.borrow().get(name) {
            return FBASE + *i as u64 * 16;
        }
        if let Some(g) = self.gmap.get(name) {
            return self.gaddr(*g);
        }
        if let Some(a) = self.aliases.get(name) {
            return self.addr_of(a);
        }
        panic!("unknown symbol @{}", name)
    }
    pub fn gaddr(&self, g: u32) -> u64 {
        let ge = &self.globals[g as usize];
        if ge.addr.get() == 0 {
            let mut p = Parser::new(self, ge.text);
            p.skip_global_prefix();
            let ty = p.ty();
            let size = ty.size();
            let mut a = self.galloc.borrow_mut();
            let slot = a.len() as u64;
            let n = size / GSLOT + 1;
            for _ in 0..n {
                a.push(g);
            }
            ge.addr.set(GBASE + slot * GSLOT);
            ge.size.set(size);
        }
        ge.addr.get()
    }
    pub fn ginit(&self, g: u32) -> (Ty, Option<Val>) {
        let ge = &self.globals[g as usize];
        let mut p = Parser::new(self, ge.text);
        let external = p.skip_global_prefix();
        let ty = p.ty();
        if external {
            return (ty, None);
        }
        let op = p.value(&ty, &mut FCtx::none());
        match op {
            Op::K(v) => (ty, Some(v)),
            _ => panic!("global init"),
        }
    }
    pub fn parsed(&self, idx: u32) -> Option<&'static Func> {
        let fe = self.funcs.borrow()[idx as usize];
        if let Some(f) = fe.parsed.get() {
            return Some(f);
        }
        let text = fe.text?;
        let f = parse_func(self, idx, &fe.name, text);
        let f: &'static Func = Box::leak(Box::new(f));
        fe.parsed.set(Some(f));
        Some(f)
    }
    fn mfield<'a>(s: &'a str, key: &str) -> Option<&'a str> {
        let pat = format!("{}: ", key);
        let mut from = 0;
        while let Some(i) = s[from..].find(&pat) {
            let i = from + i;
            let prev = s[..i].chars().last();
            if prev == Some(' ') || prev == Some('(') {
                let r = &s[i + pat.len()..];
                if r.starts_with('"') {
                    let e = r[1..].find('"').unwrap();
                    return Some(&r[1..1 + e]);
                }
                let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
                return Some(&r[..e]);
            }
            from = i + 1;
        }
        None
    }
    fn mref(s: Option<&str>) -> Option<usize> {
        s.and_then(|x| x.strip_prefix('!')).and_then(|x| x.parse().ok())
    }
    /// resolve a debug location: chain of (function, file, line), innermost first
    pub fn dbg_chain(&self, mut n: u32) -> Vec<(String, String, u32)> {
        let mut out = vec![];
        while n != 0 && (n as usize) < self.meta.len() {
            let s = self.meta[n as usize];
            if !s.contains("DILocation(") {
                break;
            }
            let line: u32 = Self::mfield(s, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
            let mut sc = Self::mref(Self::mfield(s, "scope"));
            let mut file = None;
            let mut name = String::new();
            while let Some(k) = sc {
                let t = self.meta[k];
                if file.is_none() {
                    file = Self::mref(Self::mfield(t, "file"));
                }
                if t.contains("DISubprogram(") {
                    name = Self::mfield(t, "name").unwrap_or("").to_string();
                    // qualify by namespaces
                    let mut ns = Self::mref(Self::mfield(t, "scope"));
                    let mut q = vec![];
                    let mut guard = 0;
                    while let Some(j) = ns {
                        let u = self.meta[j];
                        if !u.contains("DINamespace(") {
                            break;
                        }
                        q.push(Self::mfield(u, "name").unwrap_or("").to_string());
                        ns = Self::mref(Self::mfield(u, "scope"));
                        guard += 1;
                        if guard > 20 {
                            break;
                        }
                    }
                    q.reverse();
                    if !q.is_empty() {
                        name = format!("{}::{}", q.join("::"), name);
                    }
                    break;
                }
                sc = Self::mref(Self::mfield(t, "scope"));
            }
            let fname = file
                .map(|f| {
                    let u = self.meta[f];
                    let f = Self::mfield(u, "filename").unwrap_or("");
                    let d = Self::mfield(u, "directory").unwrap_or("");
                    if f.starts_with('/') {
                        f.to_string()
                    } else {
                        format!("{}/{}", d, f)
                    }
                })
                .unwrap_or_default();
            out.push((name, fname, line));
            n = Self::mref(Self::mfield(s, "inlinedAt")).unwrap_or(0) as u32;
        }
        out
    }
}

fn memchr(b: &[u8], mut i: usize, c: u8) -> usize {
    while i < b.len() && b[i] != c {
        i += 1;
    }
    i
}

pub struct FCtx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    nlabels: u32,
}
impl FCtx {
    pub fn none() -> Self {
        FCtx { regs: HashMap::new(), labels: HashMap::new(), nlabels: 0 }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(x) = self.labels.get(n) {
            return *x;
        }
        let k = self.nlabels;
        self.nlabels += 1;
        self.labels.insert(n.to_string(), k);
        k
    }
}

pub struct Parser<'m> {
    m: &'m Module,
    t: &'static str,
    s: &'static [u8],
    p: usize,
}
impl<'m> Parser<'m> {
    pub fn new(m: &'m Module, t: &'static str) -> Self {
        Parser { m, t, s: t.as_bytes(), p: 0 }
    }
    fn err(&self, what: &str) -> ! {
        let a = self.p.saturating_sub(60);
        let e = (self.p + 80).min(self.t.len());
        panic!("IR parse error: {} near ...{}<<HERE>>{}", what, &self.t[a..self.p], &self.t[self.p..e])
    }
    fn ws(&mut self) {
        while self.p < self.s.len() {
            match self.s[self.p] {
                b' ' | b'\t' => self.p += 1,
                // continuation lines only: indented by more than two, or the end of a switch
                b'\n' if self.s[self.p..].starts_with(b"\n    ") || self.s[self.p..].starts_with(b"\n  ]") => self.p += 1,
                _ => break,
            }
        }
    }
    /// whitespace within the line
    fn pk(&mut self) -> u8 {
        self.ws();
        self.s.get(self.p).copied().unwrap_or(0)
    }
    fn eat(&mut self, x: &str) -> bool {
        self.ws();
        if self.t[self.p..].starts_with(x) {
            self.p += x.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, x: &str) {
        if !self.eat(x) {
            self.err(&format!("expected {}", x));
        }
    }
    fn word_peek(&mut self) -> &'static str {
        self.ws();
        let mut e = self.p;
        while e < self.s.len() && (self.s[e].is_ascii_alphanumeric() || matches!(self.s[e], b'_' | b'.')) {
            e += 1;
        }
        &self.t[self.p..e]
    }
    fn word(&mut self) -> &'static str {
        let w = self.word_peek();
        if w.is_empty() {
            self.err("word");
        }
        self.p += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.word_peek() == w {
            self.p += w.len();
            true
        } else {
            false
        }
    }
    fn int(&mut self) -> i128 {
        self.ws();
        let mut e = self.p;
        if self.s[e] == b'-' {
            e += 1;
        }
        while e < self.s.len() && self.s[e].is_ascii_digit() {
            e += 1;
        }
        let t = &self.t[self.p..e];
        let v = t.parse::<i128>().unwrap_or_else(|_| match t.parse::<u128>() {
            Ok(v) => v as i128,
            Err(_) => self.err("integer"),
        });
        self.p = e;
        v
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.s[self.p] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn name(&mut self) -> String {
        let e = ident_end(self.s, self.p);
        let n = unq(&self.t[self.p..e]);
        self.p = e;
        n
    }
    fn skip_global_prefix(&mut self) -> bool {
        let mut external = false;
        loop {
            let w = self.word_peek();
            match w {
                "constant" | "global" => {
                    self.p += w.len();
                    return external;
                }
                "external" | "extern_weak" => {
                    external = true;
                    self.p += w.len();
                }
                "" => self.err("global prefix"),
                _ => {
                    self.p += w.len();
                    if self.s[self.p] == b'(' {
                        self.skip_parens();
                    }
                }
            }
        }
    }
    fn is_type_start(&mut self) -> bool {
        let c = self.pk();
        match c {
            b'{' | b'[' | b'<' | b'%' => true,
            _ => {
                let w = self.word_peek();
                matches!(w, "ptr" | "void" | "float" | "double" | "half" | "metadata" | "label" | "opaque" | "x86_fp80" | "fp128" | "token")
                    || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()))
            }
        }
    }
    pub fn ty(&mut self) -> Ty {
        let c = self.pk();
        match c {
            b'{' => {
                self.p += 1;
                Ty::Struct(Rc::new(self.tylist(b'}')), false)
            }
            b'[' => {
                self.p += 1;
                let n = self.int() as u64;
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                self.p += 1;
                if self.pk() == b'{' {
                    self.p += 1;
                    let l = self.tylist(b'}');
                    self.expect(">");
                    Ty::Struct(Rc::new(l), true)
                } else {
                    let n = self.int() as u64;
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'%' => {
                self.p += 1;
                let n = self.name();
                let t = self.m.types.get(&n).copied();
                match t {
                    Some(t) => Parser::new(self.m, t).ty(),
                    None => self.err("named type"),
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => {
                        if self.pk() == b'a' && self.t[self.p..].starts_with("addrspace(") {
                            self.p += 9;
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "half" => Ty::Float(16),
                    "x86_fp80" | "fp128" => Ty::Float(128),
                    "metadata" | "label" | "opaque" | "token" => Ty::Other,
                    _ => {
                        if let Some(x) = w.strip_prefix('i') {
                            if let Ok(n) = x.parse() {
                                return Ty::Int(n);
                            }
                        }
                        self.err("type")
                    }
                }
            }
        }
    }
    fn tylist(&mut self, close: u8) -> Vec<Ty> {
        let mut v = vec![];
        loop {
            if self.pk() == close {
                self.p += 1;
                return v;
            }
            v.push(self.ty());
            if self.pk() == b',' {
                self.p += 1;
            }
        }
    }
    /// skip parameter / return attributes up to a type or a value
    fn skip_attrs_to_type(&mut self) {
        loop {
            if self.is_type_start() {
                return;
            }
            if self.pk() == b'"' {
                self.name();
                if self.eat("=") {
                    self.name();
                }
                continue;
            }
            let w = self.word();
            if w.is_empty() {
                self.err("attribute");
            }
            if w == "align" || w == "cc" {
                if self.s[self.p] == b' ' {
                    self.int();
                }
            }
            if self.s[self.p] == b'(' {
                self.skip_parens();
            }
        }
    }
    fn skip_attrs_to_value(&mut self) {
        loop {
            let c = self.pk();
            match c {
                b'%' | b'@' | b'{' | b'[' | b'<' | b'-' | b'0'..=b'9' | b')' | b',' => return,
                b'"' => {
                    self.name();
                    if self.eat("=") {
                        self.name();
                    }
                    continue;
                }
                _ => {}
            }
            let w = self.word_peek();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr"
                | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "splat" | "c" | "mul" | "no_cfi" | "dso_local_equivalent"
                | "asm" | "addrspacecast" => return,
                "" => self.err("attr"),
                _ => {}
            }
            self.p += w.len();
            if w == "align" && self.s[self.p] == b' ' {
                self.int();
            }
            if self.s[self.p] == b'(' {
                self.skip_parens();
            }
        }
    }
    fn cstr(&mut self) -> Vec<u8> {
        // at '"'
        self.p += 1;
        let mut v = vec![];
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                if self.s[self.p + 1] == b'\\' {
                    v.push(b'\\');
                    self.p += 2;
                } else {
                    v.push(u8::from_str_radix(&self.t[self.p + 1..self.p + 3], 16).unwrap());
                    self.p += 3;
                }
            } else {
                v.push(self.s[self.p]);
                self.p += 1;
            }
        }
        self.p += 1;
        v
    }
    fn kint(&mut self, what: &str, op: Op) -> u128 {
        match op {
            Op::K(Val::Int(v)) => v,
            _ => self.err(what),
        }
    }
    pub fn value(&mut self, ty: &Ty, cx: &mut FCtx) -> Op {
        let c = self.pk();
        match c {
            b'%' => {
                self.p += 1;
                let n = self.name();
                Op::R(cx.reg(&n))
            }
            b'@' => {
                self.p += 1;
                let n = self.name();
                Op::K(Val::Int(self.m.addr_of(&n) as u128))
            }
            b'-' | b'0'..=b'9' => {
                if let Ty::Float(w) = ty {
                    // hex or decimal float
                    let mut e = self.p;
                    while e < self.s.len() && !matches!(self.s[e], b',' | b' ' | b'\n' | b')' | b']') {
                        e += 1;
                    }
                    let t = &self.t[self.p..e];
                    self.p = e;
                    let v = if let Some(h) = t.strip_prefix("0x") {
                        u64::from_str_radix(h.trim_start_matches(|c: char| c == 'H' || c == 'K' || c == 'L'), 16).unwrap_or(0)
                    } else {
                        t.parse::<f64>().unwrap_or(0.0).to_bits()
                    };
                    let v = if *w == 32 { (f64::from_bits(v) as f32).to_bits() as u64 } else { v };
                    return Op::K(Val::Int(v as u128));
                }
                let v = self.int();
                Op::K(Val::Int(v as u128 & mask(ty.bits())))
            }
            b'c' if self.s[self.p + 1] == b'"' => {
                self.p += 1;
                let b = self.cstr();
                Op::K(Val::Agg(Rc::new(b.into_iter().map(|x| Val::Int(x as u128)).collect())))
            }
            b'{' | b'[' | b'<' => {
                let packed = self.t[self.p..].starts_with("<{");
                self.p += if packed { 2 } else { 1 };
                let mut v = vec![];
                loop {
                    let c = self.pk();
                    if matches!(c, b'}' | b']' | b'>') {
                        self.p += 1;
                        if packed {
                            self.expect(">");
                        }
                        break;
                    }
                    if c == b',' {
                        self.p += 1;
                        continue;
                    }
                    let t = self.ty();
                    match self.value(&t, cx) {
                        Op::K(x) => v.push(x),
                        Op::R(_) => self.err("aggregate of registers"),
                    }
                }
                Op::K(Val::Agg(Rc::new(v)))
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => Op::K(Val::Int(1)),
                    "false" | "null" => Op::K(Val::Int(0)),
                    "undef" | "poison" => Op::K(ty.undef()),
                    "zeroinitializer" => Op::K(ty.zero()),
                    "none" => Op::K(Val::Int(0)),
                    "splat" => {
                        self.expect("(");
                        let t = self.ty();
                        let v = match self.value(&t, cx) {
                            Op::K(v) => v,
                            _ => self.err("splat"),
                        };
                        self.expect(")");
                        Op::K(Val::Agg(Rc::new((0..ty.nfields()).map(|_| v.clone()).collect())))
                    }
                    "no_cfi" | "dso_local_equivalent" => self.value(ty, cx),
                    "getelementptr" => {
                        while self.pk() != b'(' {
                            let w = self.word();
                            if w.is_empty() {
                                self.err("gep flags");
                            }
                            if w == "inrange" {
                                self.ws();
                                self.skip_parens();
                            }
                        }
                        self.expect("(");
                        let t = self.ty();
                        self.expect(",");
                        self.ty();
                        let b = self.value(&Ty::Ptr, cx);
                        let base = self.kint("gep base", b);
                        let mut off: i64 = 0;
                        let mut cur: Option<Ty> = None;
                        while self.eat(",") {
                            self.eat_word("inrange");
                            let it = self.ty();
                            let iv = self.value(&it, cx);
                            let k = self.kint("gep idx", iv);
                            let k = crate::term::sext(k, it.bits()) as i64;
                            match cur.take() {
                                None => {
                                    off += k * t.size() as i64;
                                    cur = Some(t.clone());
                                }
                                Some(ct) => {
                                    let (o, nt) = ct.field(k as u64);
                                    off += o as i64;
                                    cur = Some(nt);
                                }
                            }
                        }
                        self.expect(")");
                        Op::K(Val::Int((base as u64).wrapping_add(off as u64) as u128))
                    }
                    "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "addrspacecast" | "trunc" => {
                        self.expect("(");
                        let t = self.ty();
                        let v = self.value(&t, cx);
                        self.expect("to");
                        let t2 = self.ty();
                        self.expect(")");
                        let v = self.kint("cast", v);
                        Op::K(Val::Int(v & mask(t2.bits())))
                    }
                    "add" | "sub" | "xor" | "mul" => {
                        while self.pk() != b'(' {
                            self.word();
                        }
                        self.expect("(");
                        let t = self.ty();
                        let a = self.value(&t, cx);
                        self.expect(",");
                        self.ty();
                        let b = self.value(&t, cx);
                        self.expect(")");
                        let (a, b) = (self.kint("ce", a), self.kint("ce", b));
                        let r = match w {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "mul" => a.wrapping_mul(b),
                            _ => a ^ b,
                        };
                        Op::K(Val::Int(r & mask(t.bits())))
                    }
                    _ => self.err(&format!("value {}", w)),
                }
            }
        }
    }
    fn tv(&mut self, cx: &mut FCtx) -> (Ty, Op) {
        let t = self.ty();
        let v = self.value(&t, cx);
        (t, v)
    }
    fn label(&mut self, cx: &mut FCtx) -> u32 {
        self.expect("label");
        self.expect("%");
        let n = self.name();
        cx.label(&n)
    }
    /// the memory orderings named in the rest of the line: 1 relaxed, 2 acquire, 3 release, 4 both, 5 sequentially consistent
    fn orderings(&mut self) -> (u8, u8) {
        let eol = memchr(self.s, self.p, b'\n');
        let mut r = vec![];
        for w in self.t[self.p..eol].split(|c: char| !c.is_ascii_alphanumeric() && c != '_') {
            match w {
                "monotonic" | "unordered" => r.push(1),
                "acquire" => r.push(2),
                "release" => r.push(3),
                "acq_rel" => r.push(4),
                "seq_cst" => r.push(5),
                "align" | "dbg" => break,
                _ => {}
            }
        }
        let a = r.first().copied().unwrap_or(5);
        (a, r.get(1).copied().unwrap_or(a))
    }
    fn align_suffix(&mut self) -> u64 {
        // ", align N" somewhere before end of line
        let eol = memchr(self.s, self.p, b'\n');
        let rest = &self.t[self.p..eol];
        match rest.find(", align ") {
            Some(i) => {
                let r = &rest[i + 8..];
                let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
                r[..e].parse().unwrap()
            }
            None => 1,
        }
    }
    fn end_line(&mut self) -> u32 {
        let eol = memchr(self.s, self.p, b'\n');
        let rest = &self.t[self.p..eol];
        let mut d = 0;
        if let Some(i) = rest.find("!dbg !") {
            let r = &rest[i + 6..];
            let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
            d = r[..e].parse().unwrap_or(0);
        }
        self.p = eol;
        d
    }
    fn call(&mut self, cx: &mut FCtx, invoke: bool) -> I {
        self.skip_attrs_to_type();
        let ret = self.ty();
        if self.pk() == b'(' {
            self.skip_parens();
        }
        let callee = match self.pk() {
            b'@' => {
                self.p += 1;
                let mut n = self.name();
                while let Some(a) = self.m.aliases.get(&n) {
                    n = a.to_string();
                }
                match self.m.func_idx(&n) {
                    Some(i) => Callee::Fn(i),
                    None => self.err("callee"),
                }
            }
            b'%' => {
                let v = self.value(&Ty::Ptr, cx);
                Callee::Ind(v)
            }
            _ => {
                if self.word_peek() == "asm" {
                    // asm [sideeffect ...] "..." , "..."
                    while self.pk() != b'(' {
                        if self.pk() == b'"' {
                            self.name();
                        } else if self.pk() == b',' {
                            self.p += 1;
                        } else {
                            self.word();
                        }
                    }
                    Callee::Asm
                } else {
                    let v = self.value(&Ty::Ptr, cx);
                    Callee::Ind(v)
                }
            }
        };
        self.expect("(");
        let mut args = vec![];
        loop {
            let c = self.pk();
            if c == b')' {
                self.p += 1;
                break;
            }
            if c == b',' {
                self.p += 1;
                continue;
            }
            let t = self.ty();
            if t == Ty::Other {
                // metadata operand: skip to ',' or ')' at depth 0
                let mut d = 0;
                loop {
                    match self.s[self.p] {
                        b'(' | b'{' => d += 1,
                        b')' | b'}' if d > 0 => d -= 1,
                        b')' | b',' if d == 0 => break,
                        _ => {}
                    }
                    self.p += 1;
                }
                continue;
            }
            self.skip_attrs_to_value();
            let v = self.value(&t, cx);
            args.push((t, v));
        }
        let inv = if invoke {
            // skip attributes and bundles up to "to label"
            let i = self.t[self.p..].find("to label %").unwrap();
            self.p += i;
            self.expect("to");
            let n = self.label(cx);
            self.expect("unwind");
            let u = self.label(cx);
            Some((n, u))
        } else {
            None
        };
        I::Call(Box::new(CallI { callee, args, ret, inv }))
    }
    fn instr(&mut self, cx: &mut FCtx) -> Result<I, ()> {
        let w = self.word();
        let ins = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while matches!(self.word_peek(), "nuw" | "nsw" | "exact" | "disjoint") {
                    self.word();
                }
                let op = match w {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    "ashr" => Bin::AShr,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    _ => Bin::Xor,
                };
                let (t, a) = self.tv(cx);
                self.expect(",");
                let b = self.value(&t, cx);
                I::Bin(op, t, a, b)
            }
            "icmp" => {
                while matches!(self.word_peek(), "samesign") {
                    self.word();
                }
                let p = match self.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => self.err("icmp pred"),
                };
                let (t, a) = self.tv(cx);
                self.expect(",");
                let b = self.value(&t, cx);
                I::ICmp(p, t, a, b)
            }
            "load" => {
                let mut at = false;
                while matches!(self.word_peek(), "atomic" | "volatile") {
                    at |= self.word() == "atomic";
                }
                let t = self.ty();
                self.expect(",");
                let (_, p) = self.tv(cx);
                let al = self.align_suffix();
                let o = if at { self.orderings().0 } else { 0 };
                I::Load(t, p, al, o)
            }
            "store" => {
                let mut at = false;
                while matches!(self.word_peek(), "atomic" | "volatile") {
                    at |= self.word() == "atomic";
                }
                let (t, v) = self.tv(cx);
                self.expect(",");
                let (_, p) = self.tv(cx);
                let al = self.align_suffix();
                let o = if at { self.orderings().0 } else { 0 };
                I::Store(t, v, p, al, o)
            }
            "getelementptr" => {
                loop {
                    let w = self.word_peek();
                    if matches!(w, "inbounds" | "nuw" | "nusw") {
                        self.word();
                    } else if w == "inrange" {
                        self.word();
                        self.ws();
                        self.skip_parens();
                    } else {
                        break;
                    }
                }
                let t = self.ty();
                self.expect(",");
                let (bt, base) = self.tv(cx);
                if bt != Ty::Ptr {
                    return Err(());
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur: Option<Ty> = None;
                loop {
                    if self.s[self.p] != b',' {
                        break;
                    }
                    // metadata follows?
                    if self.s[self.p + 2] == b'!' {
                        break;
                    }
                    self.p += 1;
                    let (it, iv) = self.tv(cx);
                    match cur.take() {
                        None => {
                            match iv {
                                Op::K(Val::Int(k)) => off += crate::term::sext(k, it.bits()) as i64 * t.size() as i64,
                                o => idx.push((o, it.bits(), t.size() as i64)),
                            }
                            cur = Some(t.clone());
                        }
                        Some(ct) => match iv {
                            Op::K(Val::Int(k)) => {
                                let k = crate::term::sext(k, it.bits()) as i64;
                                if let Ty::Struct(..) = ct {
                                    let (o, nt) = ct.field(k as u64);
                                    off += o as i64;
                                    cur = Some(nt);
                                } else {
                                    let (_, nt) = ct.field(0);
                                    off += k * nt.size() as i64;
                                    cur = Some(nt);
                                }
                            }
                            o => {
                                let (_, nt) = ct.field(0);
                                idx.push((o, it.bits(), nt.size() as i64));
                                cur = Some(nt);
                            }
                        },
                    }
                }
                I::Gep(base, off, idx)
            }
            "alloca" => {
                while matches!(self.word_peek(), "inalloca" | "swifterror") {
                    self.word();
                }
                let t = self.ty();
                let mut n = Op::K(Val::Int(1));
                let al = self.align_suffix();
                if self.s[self.p] == b',' {
                    let save = self.p;
                    self.p += 1;
                    if self.is_type_start() {
                        n = self.tv(cx).1;
                    } else {
                        self.p = save;
                    }
                }
                I::Alloca(t.size(), al.max(1), n)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast" => {
                while matches!(self.word_peek(), "nuw" | "nsw" | "nneg") {
                    self.word();
                }
                let (t, a) = self.tv(cx);
                self.expect("to");
                let t2 = self.ty();
                let k = match w {
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "bitcast" | "addrspacecast" => Cast::Bits,
                    "trunc" => Cast::Trunc,
                    _ => {
                        let (e1, e2) = (t.lanes().0.bits(), t2.lanes().0.bits());
                        if e1 > e2 {
                            Cast::Trunc
                        } else {
                            Cast::ZExt
                        }
                    }
                };
                I::Cast(k, t, t2, a)
            }
            "select" => {
                while !self.is_type_start() {
                    self.word();
                }
                let (ct, c) = self.tv(cx);
                self.expect(",");
                let (t, a) = self.tv(cx);
                self.expect(",");
                let (_, b) = self.tv(cx);
                I::Select(ct, t, c, a, b)
            }
            "extractvalue" => {
                let (_, a) = self.tv(cx);
                let mut path = vec![];
                while self.s[self.p] == b',' && self.s[self.p + 2] != b'!' {
                    self.p += 1;
                    path.push(self.int() as u32);
                }
                I::Extract(a, path)
            }
            "insertvalue" => {
                let (_, a) = self.tv(cx);
                self.expect(",");
                let (_, v) = self.tv(cx);
                let mut path = vec![];
                while self.s[self.p] == b',' && self.s[self.p + 2] != b'!' {
                    self.p += 1;
                    path.push(self.int() as u32);
                }
                I::Insert(a, v, path)
            }
            "extractelement" => {
                let (_, a) = self.tv(cx);
                self.expect(",");
                let (_, i) = self.tv(cx);
                I::ExtractEl(a, i)
            }
            "insertelement" => {
                let (_, a) = self.tv(cx);
                self.expect(",");
                let (_, v) = self.tv(cx);
                self.expect(",");
                let (_, i) = self.tv(cx);
                I::InsertEl(a, v, i)
            }
            "shufflevector" => {
                let (_, a) = self.tv(cx);
                self.expect(",");
                let (_, b) = self.tv(cx);
                self.expect(",");
                let (_, m) = self.tv(cx);
                I::Shuffle(a, b, m)
            }
            "tail" | "musttail" | "notail" => {
                self.expect("call");
                self.call(cx, false)
            }
            "call" => self.call(cx, false),
            "invoke" => self.call(cx, true),
            "br" => {
                if self.word_peek() == "label" {
                    I::Br(self.label(cx))
                } else {
                    let (_, c) = self.tv(cx);
                    self.expect(",");
                    let a = self.label(cx);
                    self.expect(",");
                    let b = self.label(cx);
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tv(cx);
                self.expect(",");
                let d = self.label(cx);
                self.expect("[");
                let mut cases = vec![];
                while self.pk() != b']' {
                    let (_, k) = self.tv(cx);
                    self.expect(",");
                    let l = self.label(cx);
                    let k = self.kint("case", k);
                    cases.push((k, l));
                }
                self.p += 1;
                I::Switch(t.bits(), v, d, cases)
            }
            "ret" => {
                if self.word_peek() == "void" {
                    self.word();
                    I::Ret(None)
                } else {
                    let (_, v) = self.tv(cx);
                    I::Ret(Some(v))
                }
            }
            "unreachable" => I::Unreachable,
            "landingpad" => {
                self.ty();
                let mut catch = false;
                let save_end;
                loop {
                    // clauses may be on following lines
                    let save = self.p;
                    match self.word_peek() {
                        "cleanup" => {
                            self.word();
                        }
                        "catch" => {
                            self.word();
                            catch = true;
                            self.tv(cx);
                        }
                        "filter" => {
                            self.word();
                            catch = true;
                            self.tv(cx);
                        }
                        _ => {
                            save_end = save;
                            break;
                        }
                    }
                }
                // word_peek skipped whitespace: step back to the end of the last clause line
                let mut p = save_end;
                while p > 0 && matches!(self.s[p - 1], b' ' | b'\n' | b'\t') {
                    p -= 1;
                }
                self.p = p;
                I::LandingPad(catch)
            }
            "resume" => {
                let (_, v) = self.tv(cx);
                I::Resume(v)
            }
            "atomicrmw" => {
                while matches!(self.word_peek(), "volatile") {
                    self.word();
                }
                let op = self.word().to_string();
                let (_, p) = self.tv(cx);
                self.expect(",");
                let (t, v) = self.tv(cx);
                let o = self.orderings().0;
                I::Rmw(op, t, p, v, o)
            }
            "cmpxchg" => {
                while matches!(self.word_peek(), "volatile" | "weak") {
                    self.word();
                }
                let (_, p) = self.tv(cx);
                self.expect(",");
                let (t, c) = self.tv(cx);
                self.expect(",");
                let (_, n) = self.tv(cx);
                let (o, f) = self.orderings();
                I::CmpXchg(t, p, c, n, o, f)
            }
            "fence" => I::Fence(self.orderings().0),
            "freeze" => {
                let (t, a) = self.tv(cx);
                I::Freeze(t, a)
            }
            _ => return Err(()),
        };
        Ok(ins)
    }
}

fn parse_func(m: &Module, idx: u32, name: &str, text: &'static str) -> Func {
    let mut p = Parser::new(m, text);
    let mut cx = FCtx::none();
    p.expect("(");
    let mut params = vec![];
    loop {
        let c = p.pk();
        if c == b')' {
            p.p += 1;
            break;
        }
        if c == b',' {
            p.p += 1;
            continue;
        }
        if p.eat("...") {
            continue;
        }
        p.ty();
        p.skip_attrs_to_value();
        if p.pk() != b'%' {
            p.err("param name");
        }
        p.p += 1;
        let n = p.name();
        params.push(cx.reg(&n));
    }
    // to the '{' ending the header line
    p.p = memchr(p.s, p.p, b'\n');
    let mut blocks: Vec<Option<Block>> = vec![];
    let mut order: Vec<u32> = vec![];
    let mut code: Vec<Instr> = vec![];
    let mut cur: Option<u32> = None;
    let put = |blocks: &mut Vec<Option<Block>>, i: u32, b: Block| {
        while blocks.len() <= i as usize {
            blocks.push(None);
        }
        blocks[i as usize] = Some(b);
    };
    while p.p < p.s.len() {
        // at end of a line
        p.p += 1;
        if p.p >= p.s.len() {
            break;
        }
        let c = p.s[p.p];
        if c == b'\n' {
            continue;
        }
        if c == b';' || c == b'#' {
            p.p = memchr(p.s, p.p, b'\n');
            continue;
        }
        if c != b' ' && c != b'\t' {
            // label
            let n = p.name();
            let l = cx.label(&n);
            put(&mut blocks, l, Block { phis: vec![], start: code.len() as u32, name: n });
            order.push(l);
            cur = Some(l);
            p.p = memchr(p.s, p.p, b'\n');
            continue;
        }
        // instruction line
        while p.s[p.p] == b' ' || p.s[p.p] == b'\t' {
            p.p += 1;
        }
        if p.s[p.p] == b';' || p.s[p.p] == b'#' {
            p.p = memchr(p.s, p.p, b'\n');
            continue;
        }
        if cur.is_none() {
            // an unnamed entry block takes the number after the parameters
            let l = cx.label(&format!("{}", params.len()));
            put(&mut blocks, l, Block { phis: vec![], start: 0, name: "entry".into() });
            order.push(l);
            cur = Some(l);
        }
        let line_start = p.p;
        let mut d = None;
        if p.s[p.p] == b'%' {
            p.p += 1;
            let n = p.name();
            d = Some(cx.reg(&n));
            p.expect("=");
        }
        if p.word_peek() == "phi" {
            p.word();
            while !p.is_type_start() {
                p.word();
            }
            let t = p.ty();
            let mut inc = vec![];
            loop {
                p.expect("[");
                let v = p.value(&t, &mut cx);
                p.expect(",");
                p.expect("%");
                let n = p.name();
                let l = cx.label(&n);
                p.expect("]");
                inc.push((l, v));
                if p.s[p.p] == b',' && p.s[p.p + 2] == b'[' {
                    p.p += 1;
                } else {
                    break;
                }
            }
            blocks[cur.unwrap() as usize].as_mut().unwrap().phis.push((d.unwrap(), inc));
            p.end_line();
            continue;
        }
        match p.instr(&mut cx) {
            Ok(i) => {
                let dbg = p.end_line();
                code.push(Instr { i, d, dbg });
            }
            Err(()) => {
                let eol = memchr(p.s, line_start, b'\n');
                let t = p.t[line_start..eol].to_string();
                p.p = line_start;
                let dbg = p.end_line();
                code.push(Instr { i: I::Unsupported(t), d, dbg });
            }
        }
    }
    let entry = order[0];
    let mut bl: Vec<Block> = blocks.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], start: u32::MAX, name: String::new() })).collect();
    if entry != 0 {
        // entry label must be block 0: remap by swapping
        bl.swap(0, entry as usize);
        let f = |x: u32| {
            if x == 0 {
                entry
            } else if x == entry {
                0
            } else {
                x
            }
        };
        for b in bl.iter_mut() {
            for (_, inc) in b.phis.iter_mut() {
                for (l, _) in inc.iter_mut() {
                    *l = f(*l);
                }
            }
        }
        for i in code.iter_mut() {
            match &mut i.i {
                I::Br(l) => *l = f(*l),
                I::CondBr(_, a, b) => {
                    *a = f(*a);
                    *b = f(*b)
                }
                I::Switch(_, _, d, cs) => {
                    *d = f(*d);
                    for (_, l) in cs.iter_mut() {
                        *l = f(*l)
                    }
                }
                I::Call(c) => {
                    if let Some((a, b)) = &mut c.inv {
                        *a = f(*a);
                        *b = f(*b)
                    }
                }
                _ => {}
            }
        }
    }
    Func { idx, name: name.to_string(), params, nregs: cx.regs.len() as u32, blocks: bl, code }
}
