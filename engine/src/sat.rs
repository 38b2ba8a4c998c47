//! A small incremental CDCL SAT solver (two watched literals, first-UIP
//! learning, VSIDS, phase saving, Luby restarts, assumptions). Decisions are
//! restricted to the cone of influence of the current query.
pub type Lit = u32; // 2*var + sign
#[inline]
pub fn neg(l: Lit) -> Lit {
    l ^ 1
}
const UNDEF: u32 = u32::MAX;

#[derive(Clone, Copy)]
struct Watch {
    c: u32,
    b: Lit,
}
pub struct Sat {
    arena: Vec<u32>, // [size, lits...]
    learnts: Vec<u32>,
    lbd: std::collections::HashMap<u32, u32>,
    watches: Vec<Vec<Watch>>,
    val: Vec<i8>, // per literal: 1 true, -1 false, 0 unassigned
    level: Vec<u32>,
    reason: Vec<u32>,
    phase: Vec<bool>,
    act: Vec<f64>,
    inc: f64,
    heap: Vec<u32>,
    hpos: Vec<i32>,
    trail: Vec<Lit>,
    lim: Vec<usize>,
    qhead: usize,
    assumed: Vec<Lit>, // assumption taken at level i+1
    seen: Vec<bool>,
    cone: Vec<u32>,
    stamp: u32,
    pub ok: bool,
    pub conflicts: u64,
    wasted: usize,
    max_learnt: usize,
}

impl Sat {
    pub fn new() -> Sat {
        let mut s = Sat {
            arena: vec![],
            learnts: vec![],
            lbd: Default::default(),
            watches: vec![],
            val: vec![],
            level: vec![],
            reason: vec![],
            phase: vec![],
            act: vec![],
            inc: 1.0,
            heap: vec![],
            hpos: vec![],
            trail: vec![],
            lim: vec![],
            qhead: 0,
            assumed: vec![],
            seen: vec![],
            cone: vec![],
            stamp: 0,
            ok: true,
            conflicts: 0,
            wasted: 0,
            max_learnt: 3000,
        };
        // variable 0 is the constant true
        let t = s.new_var();
        s.add(&[t]);
        s
    }
    pub fn nvars(&self) -> usize {
        self.level.len()
    }
    pub fn new_var(&mut self) -> Lit {
        let v = self.level.len() as u32;
        self.watches.push(vec![]);
        self.watches.push(vec![]);
        self.val.push(0);
        self.val.push(0);
        self.level.push(0);
        self.reason.push(UNDEF);
        self.phase.push(false);
        self.act.push(0.0);
        self.hpos.push(-1);
        self.seen.push(false);
        self.cone.push(0);
        2 * v
    }
    #[inline]
    pub fn value(&self, l: Lit) -> i8 {
        self.val[l as usize]
    }
    // --- heap
    fn up(&mut self, mut i: usize) {
        let x = self.heap[i];
        while i > 0 {
            let p = (i - 1) / 2;
            if self.act[self.heap[p] as usize] >= self.act[x as usize] {
                break;
            }
            self.heap[i] = self.heap[p];
            self.hpos[self.heap[i] as usize] = i as i32;
            i = p;
        }
        self.heap[i] = x;
        self.hpos[x as usize] = i as i32;
    }
    fn down(&mut self, mut i: usize) {
        let x = self.heap[i];
        loop {
            let mut c = 2 * i + 1;
            if c >= self.heap.len() {
                break;
            }
            if c + 1 < self.heap.len() && self.act[self.heap[c + 1] as usize] > self.act[self.heap[c] as usize] {
                c += 1;
            }
            if self.act[self.heap[c] as usize] <= self.act[x as usize] {
                break;
            }
            self.heap[i] = self.heap[c];
            self.hpos[self.heap[i] as usize] = i as i32;
            i = c;
        }
        self.heap[i] = x;
        self.hpos[x as usize] = i as i32;
    }
    fn push_heap(&mut self, v: u32) {
        if self.hpos[v as usize] < 0 {
            self.heap.push(v);
            let i = self.heap.len() - 1;
            self.hpos[v as usize] = i as i32;
            self.up(i);
        }
    }
    fn pop_heap(&mut self) -> Option<u32> {
        let r = *self.heap.first()?;
        self.hpos[r as usize] = -1;
        let l = self.heap.pop().unwrap();
        if !self.heap.is_empty() {
            self.heap[0] = l;
            self.hpos[l as usize] = 0;
            self.down(0);
        }
        Some(r)
    }
    fn bump(&mut self, v: u32) {
        self.act[v as usize] += self.inc;
        if self.act[v as usize] > 1e100 {
            for a in self.act.iter_mut() {
                *a *= 1e-100;
            }
            self.inc *= 1e-100;
        }
        if self.hpos[v as usize] >= 0 {
            self.up(self.hpos[v as usize] as usize);
        }
    }
    // --- trail
    fn dl(&self) -> u32 {
        self.lim.len() as u32
    }
    fn enqueue(&mut self, l: Lit, r: u32) {
        self.val[l as usize] = 1;
        self.val[neg(l) as usize] = -1;
        let v = (l >> 1) as usize;
        self.level[v] = self.dl();
        self.reason[v] = r;
        self.trail.push(l);
    }
    fn cancel(&mut self, lvl: u32) {
        if self.dl() <= lvl {
            return;
        }
        let to = self.lim[lvl as usize];
        for i in (to..self.trail.len()).rev() {
            let l = self.trail[i];
            let v = l >> 1;
            self.val[l as usize] = 0;
            self.val[neg(l) as usize] = 0;
            self.phase[v as usize] = l & 1 == 0;
            if self.cone[v as usize] == self.stamp {
                self.push_heap(v);
            }
        }
        self.trail.truncate(to);
        self.lim.truncate(lvl as usize);
        self.qhead = self.trail.len();
        self.assumed.truncate(lvl as usize);
    }
    fn alloc(&mut self, c: &[Lit]) -> u32 {
        let r = self.arena.len() as u32;
        self.arena.push(c.len() as u32);
        self.arena.extend_from_slice(c);
        self.watches[neg(c[0]) as usize].push(Watch { c: r, b: c[1] });
        self.watches[neg(c[1]) as usize].push(Watch { c: r, b: c[0] });
        r
    }
    /// adds a clause (at level 0)
    pub fn add(&mut self, c: &[Lit]) {
        self.cancel(0);
        let mut d: Vec<Lit> = vec![];
        for &l in c {
            if self.value(l) == 1 || d.contains(&neg(l)) {
                return;
            }
            if self.value(l) == -1 || d.contains(&l) {
                continue;
            }
            d.push(l);
        }
        match d.len() {
            0 => self.ok = false,
            1 => {
                self.enqueue(d[0], UNDEF);
                if self.propagate() != UNDEF {
                    self.ok = false
                }
            }
            _ => {
                self.alloc(&d);
            }
        }
    }
    fn propagate(&mut self) -> u32 {
        while self.qhead < self.trail.len() {
            let p = self.trail[self.qhead];
            self.qhead += 1;
            let mut ws = std::mem::take(&mut self.watches[p as usize]);
            let (mut i, mut j) = (0, 0);
            let np = neg(p);
            let mut confl = UNDEF;
            'w: while i < ws.len() {
                let w = ws[i];
                i += 1;
                if self.val[w.b as usize] == 1 {
                    ws[j] = w;
                    j += 1;
                    continue;
                }
                let c = w.c as usize;
                let n = self.arena[c] as usize;
                if self.arena[c + 1] == np {
                    self.arena.swap(c + 1, c + 2);
                }
                let first = self.arena[c + 1];
                if first != w.b && self.val[first as usize] == 1 {
                    ws[j] = Watch { c: w.c, b: first };
                    j += 1;
                    continue;
                }
                for k in 3..=n {
                    let l = self.arena[c + k];
                    if self.val[l as usize] != -1 {
                        self.arena.swap(c + 2, c + k);
                        self.watches[neg(l) as usize].push(Watch { c: w.c, b: first });
                        continue 'w;
                    }
                }
                ws[j] = Watch { c: w.c, b: first };
                j += 1;
                if self.val[first as usize] == -1 {
                    confl = w.c;
                    while i < ws.len() {
                        ws[j] = ws[i];
                        i += 1;
                        j += 1;
                    }
                } else {
                    self.enqueue(first, w.c);
                }
            }
            ws.truncate(j);
            self.watches[p as usize] = ws;
            if confl != UNDEF {
                self.qhead = self.trail.len();
                return confl;
            }
        }
        UNDEF
    }
    fn analyze(&mut self, mut confl: u32) -> (Vec<Lit>, u32, u32) {
        let mut out: Vec<Lit> = vec![0];
        let mut n = 0;
        let mut p = UNDEF;
        let mut idx = self.trail.len();
        let mut clear: Vec<u32> = vec![];
        loop {
            let c = confl as usize;
            let sz = self.arena[c] as usize;
            for k in 1..=sz {
                let q = self.arena[c + k];
                if q == p {
                    continue;
                }
                let v = q >> 1;
                if !self.seen[v as usize] && self.level[v as usize] > 0 {
                    self.seen[v as usize] = true;
                    clear.push(v);
                    self.bump(v);
                    if self.level[v as usize] >= self.dl() {
                        n += 1;
                    } else {
                        out.push(q);
                    }
                }
            }
            loop {
                idx -= 1;
                if self.seen[(self.trail[idx] >> 1) as usize] {
                    break;
                }
            }
            p = self.trail[idx];
            confl = self.reason[(p >> 1) as usize];
            n -= 1;
            if n == 0 {
                break;
            }
        }
        out[0] = neg(p);
        // local minimisation
        let keep: Vec<Lit> = out
            .iter()
            .enumerate()
            .filter(|(i, l)| {
                if *i == 0 {
                    return true;
                }
                let r = self.reason[(**l >> 1) as usize];
                if r == UNDEF {
                    return true;
                }
                let sz = self.arena[r as usize] as usize;
                (1..=sz).any(|k| {
                    let q = self.arena[r as usize + k];
                    (q >> 1) != (**l >> 1) && !self.seen[(q >> 1) as usize] && self.level[(q >> 1) as usize] > 0
                })
            })
            .map(|x| *x.1)
            .collect();
        let mut out = keep;
        for v in clear {
            self.seen[v as usize] = false;
        }
        let mut bt = 0;
        if out.len() > 1 {
            let mut m = 1;
            for i in 2..out.len() {
                if self.level[(out[i] >> 1) as usize] > self.level[(out[m] >> 1) as usize] {
                    m = i;
                }
            }
            out.swap(1, m);
            bt = self.level[(out[1] >> 1) as usize];
        }
        let mut lv: Vec<u32> = out.iter().map(|l| self.level[(*l >> 1) as usize]).collect();
        lv.sort_unstable();
        lv.dedup();
        (out, bt, lv.len() as u32)
    }
    fn reduce(&mut self) {
        let mut v: Vec<(u32, u32)> = self.learnts.iter().map(|c| (self.lbd.get(c).copied().unwrap_or(9), *c)).collect();
        v.sort_unstable();
        let half = v.len() / 2;
        let mut dead: std::collections::HashSet<u32> = Default::default();
        for (l, c) in v.drain(half..) {
            let first = self.arena[c as usize + 1];
            let locked = self.val[first as usize] == 1 && self.reason[(first >> 1) as usize] == c;
            if l > 2 && !locked {
                dead.insert(c);
                self.wasted += self.arena[c as usize] as usize + 1;
            }
        }
        self.learnts.retain(|c| !dead.contains(c));
        for c in &dead {
            self.lbd.remove(c);
        }
        for w in self.watches.iter_mut() {
            w.retain(|x| !dead.contains(&x.c));
        }
    }
    /// decide `assumptions`; only variables of `cone` are decided. None: gave up
    pub fn solve(&mut self, assumptions: &[Lit], cone: &[u32], deadline: std::time::Instant) -> Option<bool> {
        if !self.ok {
            return Some(false);
        }
        // keep the part of the trail that the assumptions share
        let mut k = 0;
        while k < self.assumed.len() && k < assumptions.len() && self.assumed[k] == assumptions[k] {
            k += 1;
        }
        self.cancel(k as u32);
        self.stamp += 1;
        for v in &self.heap {
            self.hpos[*v as usize] = -1;
        }
        self.heap.clear();
        for &v in cone {
            self.cone[v as usize] = self.stamp;
            if self.val[2 * v as usize] == 0 {
                self.push_heap(v);
            }
        }
        let mut restart = 0u32;
        let mut budget = 100u64;
        let mut since = 0u64;
        if self.learnts.len() > self.max_learnt {
            self.cancel(0);
            self.reduce();
            self.max_learnt = 3000.max(self.learnts.len() + 1500);
        }
        loop {
            let confl = self.propagate();
            if confl != UNDEF {
                self.conflicts += 1;
                since += 1;
                if self.dl() == 0 {
                    self.ok = false;
                    return Some(false);
                }
                let (c, bt, lbd) = self.analyze(confl);
                self.cancel(bt);
                if c.len() == 1 {
                    self.enqueue(c[0], UNDEF);
                } else {
                    let r = self.alloc(&c);
                    self.learnts.push(r);
                    self.lbd.insert(r, lbd);
                    self.enqueue(c[0], r);
                }
                self.inc /= 0.95;
                if self.conflicts % 256 == 0 && std::time::Instant::now() > deadline {
                    return None;
                }
                continue;
            }
            if since >= budget {
                since = 0;
                restart += 1;
                budget = 100 * luby(restart) as u64;
                self.cancel(assumptions.len().min(self.assumed.len()) as u32);
                if self.learnts.len() > self.max_learnt {
                    self.reduce();
                    self.max_learnt = 3000.max(self.learnts.len() + 1500);
                }
                continue;
            }
            // next decision
            let d = self.dl() as usize;
            if d < assumptions.len() {
                let a = assumptions[d];
                match self.value(a) {
                    -1 => return Some(false),
                    v => {
                        self.lim.push(self.trail.len());
                        self.assumed.push(a);
                        if v == 0 {
                            self.enqueue(a, UNDEF);
                        }
                    }
                }
                continue;
            }
            let mut next = UNDEF;
            while let Some(v) = self.pop_heap() {
                if self.val[2 * v as usize] == 0 {
                    next = v;
                    break;
                }
            }
            if next == UNDEF {
                return Some(true);
            }
            self.lim.push(self.trail.len());
            let l = 2 * next + (!self.phase[next as usize]) as u32;
            self.enqueue(l, UNDEF);
        }
    }
}
fn luby(mut i: u32) -> u32 {
    // 1 1 2 1 1 2 4 ...
    loop {
        let mut k = 1u32;
        while (1u32 << k) - 1 < i + 1 {
            k += 1;
        }
        if (1u32 << k) - 1 == i + 1 {
            return 1 << (k - 1);
        }
        i -= (1 << (k - 1)) - 1;
    }
}
