//! The decision procedure: bit-blasting plus CDCL, with Z3 as the second
//! opinion (for a share of the queries, and whenever the first gives up).
use crate::blast::Blaster;
use crate::term::{Model, Terms, T};
use crate::z3::{Res, Solver};

pub struct Dec {
    pub b: Blaster,
    pub z: Solver,
    from_z3: bool,
    pub every: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub z3_checked: u64,
    pub z3_time: f64,
    pub disagree: Option<String>,
    start: std::time::Instant,
}
impl Dec {
    pub fn new(timeout: u32, seed: u32, every: u64) -> Dec {
        Dec {
            b: Blaster::new(timeout),
            z: Solver::new(timeout, seed),
            from_z3: false,
            every,
            queries: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            time: 0.0,
            max_time: 0.0,
            z3_checked: 0,
            z3_time: 0.0,
            disagree: None,
            start: std::time::Instant::now(),
        }
    }
    /// ask Z3 as well, whatever was answered; an `unknown` of Z3 is no disagreement
    /// (at most a fifth of the time goes into this)
    pub fn second(&mut self, tm: &Terms, path: &[T], extra: Option<T>, first: &Res) {
        if self.z3_time > 1.0 + 0.2 * self.start.elapsed().as_secs_f64() {
            return;
        }
        let t0 = std::time::Instant::now();
        let r = self.z.check(tm, path, extra);
        self.z3_time += t0.elapsed().as_secs_f64();
        self.z3_checked += 1;
        match (&r, first) {
            (Res::Sat, Res::Unsat) | (Res::Unsat, Res::Sat) => {
                self.disagree = Some(format!("the two decision procedures disagree: {:?} and {:?} (Z3)", first, r));
            }
            _ => {}
        }
    }
    /// `derived` follows from `path`: it helps the first procedure, Z3 does without
    pub fn check(&mut self, tm: &Terms, path: &[T], derived: &[T], extra: Option<T>) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        self.from_z3 = false;
        let mut r = self.b.check(tm, path, derived, extra);
        if let Res::Unknown = r {
            r = self.z.check(tm, path, extra);
            self.from_z3 = true;
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        self.max_time = self.max_time.max(dt);
        match r {
            Res::Sat => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        if !self.from_z3 && self.every > 0 && self.queries % self.every == 0 {
            self.second(tm, path, extra, &r);
        }
        r
    }
    pub fn model(&mut self, tm: &Terms, id: u32) -> Model {
        if self.from_z3 {
            self.z.model(tm, id)
        } else {
            self.b.model(tm, id)
        }
    }
}
