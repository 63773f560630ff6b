//! One simulated run: seeded choices, fault decisions, event log, violations.
use crate::rt::{LibRng, Rng, RngFailure, heap_poison, mix, sim_entropy_seed};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{AssertUnwindSafe, catch_unwind, panic_any, resume_unwind};

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

#[macro_export]
macro_rules! violate {
    ($class:expr, $($a:tt)*) => { std::panic::panic_any($crate::core::Violation { class: $class.to_string(), msg: format!($($a)*) }) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => { if !($c) { $crate::violate!($class, $($a)*) } };
}

thread_local! {
    static LAST: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Record where panics come from; stay silent.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map_or("?".into(), |l| format!("{}:{}", l.file(), l.line()));
        let msg = payload_str(i.payload());
        let _ = LAST.try_with(|l| *l.borrow_mut() = Some((loc, msg)));
    }));
}
fn payload_str(p: &dyn Any) -> String {
    p.downcast_ref::<&str>().map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .or_else(|| p.downcast_ref::<Violation>().map(|v| format!("{}: {}", v.class, v.msg)))
        .or_else(|| p.downcast_ref::<RngFailure>().map(|_| "injected RNG failure".into()))
        .unwrap_or_else(|| "?".into())
}
pub fn last_panic() -> (String, String) { LAST.with(|l| l.borrow().clone()).unwrap_or_default() }

/// How a caught unwind is to be read.
pub enum Caught {
    Violation(Violation),
    Rng,
    /// panic raised in library, std or dependency code
    Library(String, String),
    /// panic raised by the harness itself: an error of the check
    Harness(String, String),
}
pub fn classify(p: Box<dyn Any + Send>) -> Caught {
    match p.downcast::<Violation>() {
        Ok(v) => Caught::Violation(*v),
        Err(p) => {
            if p.downcast_ref::<RngFailure>().is_some() { return Caught::Rng; }
            let (loc, msg) = last_panic();
            if loc.starts_with("src/") || loc.contains("/verif/sim/") { Caught::Harness(loc, msg) } else { Caught::Library(loc, msg) }
        }
    }
}

/// Run library code that must not panic.
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> T {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(p) => match classify(p) {
            Caught::Violation(v) => panic_any(v),
            Caught::Rng => panic_any(RngFailure),
            Caught::Library(l, m) => violate!(format!("panic@{what}"), "{what} panicked at {l}: {m}"),
            Caught::Harness(l, m) => resume_unwind(Box::new(format!("harness panic in {what} at {l}: {m}"))),
        },
    }
}
/// Library call that must return Ok.
pub fn lib_ok<T, E: Debug>(what: &str, f: impl FnOnce() -> Result<T, E>) -> T {
    match lib(what, f) {
        Ok(v) => v,
        Err(e) => violate!(format!("error@{what}"), "{what} returned an error: {e:?}"),
    }
}
/// Library call that must return Err (and not panic).
pub fn lib_err<T, E: Debug>(what: &str, f: impl FnOnce() -> Result<T, E>) -> E {
    match lib(what, f) {
        Err(e) => e,
        Ok(_) => violate!(format!("accepted@{what}"), "{what} succeeded where an error is required"),
    }
}
/// Outcome of a library call where a panic is also an admissible refusal.
pub fn lib_any<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => match classify(p) {
            Caught::Violation(v) => panic_any(v),
            Caught::Rng => Err(("rng".into(), "injected RNG failure".into())),
            Caught::Library(l, m) => Err((l, m)),
            Caught::Harness(l, m) => resume_unwind(Box::new(format!("harness panic at {l}: {m}"))),
        },
    }
}

#[derive(Default, Clone)]
pub struct Plan {
    pub keep: Option<HashSet<u32>>,
    pub nofault: HashSet<(u32, u32)>,
    pub faults_off: bool,
    pub preempt: Option<Vec<crate::rt::Preempt>>,
}

pub struct Sim {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub plan: Plan,
    /// choices of the current step
    pub rng: Rng,
    frng: Rng,
    pub step: u32,
    ford: u32,
    libn: u64,
    pub calm: bool,
    pub now: u64,
    pub hash: u64,
    pub trace: Option<Vec<String>>,
    pub steps_run: Vec<u32>,
    pub fired: Vec<(u32, u32, &'static str)>,
    pub faults: BTreeMap<&'static str, u64>,
    pub ops: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub preempts: Vec<crate::rt::Preempt>,
}

pub fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for x in b { h = (h ^ *x as u64).wrapping_mul(0x100000001b3); }
    h
}

impl Sim {
    pub fn new(prop: &str, seed: u64, plan: Plan, trace: bool) -> Self {
        Sim {
            prop: prop.into(), seed, thorough: false, plan, rng: Rng::new(seed), frng: Rng::new(mix(seed, 0xFA)), step: 0, ford: 0, libn: 0, calm: false, now: 0,
            hash: 0xcbf29ce484222325, trace: if trace { Some(vec![]) } else { None }, steps_run: vec![], fired: vec![], faults: BTreeMap::new(),
            ops: BTreeMap::new(), states: HashSet::new(), preempts: vec![],
        }
    }
    /// Enter step `i` (step 0 is the setup). False: dropped by the minimiser.
    pub fn begin(&mut self, i: u32) -> bool {
        self.step = i;
        self.ford = 0;
        self.libn = 0;
        self.rng = Rng::new(mix(self.seed, 0x5000 + i as u64));
        self.frng = Rng::new(mix(self.seed, 0xFA000 + i as u64));
        if i != 0 { if let Some(k) = &self.plan.keep { if !k.contains(&i) { return false; } } }
        self.steps_run.push(i);
        true
    }
    /// A fresh deterministic seed for a library generator.
    pub fn lib_seed(&mut self) -> u64 { self.libn += 1; mix(mix(self.seed, 0x11B0 + self.step as u64), self.libn) }
    pub fn lib_rng(&mut self) -> LibRng { LibRng::new(self.lib_seed()) }
    /// Decide one potential fault. `pm`: probability per mille.
    pub fn fault(&mut self, kind: &'static str, pm: u32) -> bool {
        if self.calm { return false; }
        let hit = self.frng.below(1000) < pm as usize;
        self.ford += 1;
        // Deployments: an eighth of the runs see no fault at all, and every
        // other run lacks a quarter of the kinds, so that none hides another.
        let deployment = matches!(self.prop.as_str(), "C01" | "C02" | "C03" | "C04" | "C05" | "C08" | "C09" | "C10" | "C16" | "C18");
        let absent = deployment && (self.seed % 8 == 0 || mix(self.seed, fnv(0xFA17, kind.as_bytes())) % 4 == 0);
        if !hit || absent || self.plan.faults_off || self.plan.nofault.contains(&(self.step, self.ford)) { return false; }
        *self.faults.entry(kind).or_default() += 1;
        self.fired.push((self.step, self.ford, kind));
        let s = format!("fault {kind}");
        self.log(&s);
        true
    }
    pub fn frand(&mut self, n: usize) -> usize { self.frng.below(n) }
    pub fn count_fault(&mut self, kind: &'static str, n: u64) { if n > 0 { *self.faults.entry(kind).or_default() += n; } }
    pub fn op(&mut self, name: &str) { *self.ops.entry(name.to_string()).or_default() += 1; }
    pub fn state(&mut self, h: u64) { self.states.insert(h); }
    pub fn log(&mut self, s: &str) {
        self.hash = fnv(self.hash, s.as_bytes());
        self.hash = fnv(self.hash, &self.now.to_le_bytes());
        let (step, now) = (self.step, self.now);
        if let Some(t) = &mut self.trace { t.push(format!("[{step} t={now}] {s}")); }
    }
    pub fn digest(&mut self, what: &str, b: &[u8]) {
        let h = fnv(0xcbf29ce484222325, b);
        self.log(&format!("{what} #{h:016x} ({} bytes)", b.len()));
    }
}

#[derive(Debug, Clone)]
pub enum Outcome {
    Pass,
    Violation(Violation),
    Harness(String),
}

/// Execute one run in a fresh thread (fresh thread-locals, seeded entropy).
pub fn execute(prop: &str, seed: u64, plan: Plan, trace: bool, thorough: bool, f: fn(&mut Sim)) -> (Sim, Outcome) {
    let prop = prop.to_string();
    std::thread::Builder::new()
        .name("sim".into())
        .stack_size(16 << 20)
        .spawn(move || {
            unsafe { sim_entropy_seed(mix(seed, 0xE27)) };
            heap_poison((mix(seed, 0xA110C) as u8) | 1);
            let mut sim = Sim::new(&prop, seed, plan, trace);
            sim.thorough = thorough;
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut sim)));
            let out = match r {
                Ok(()) => Outcome::Pass,
                Err(p) => match p.downcast::<String>() {
                    Ok(s) if s.starts_with("harness panic") => Outcome::Harness(*s),
                    Ok(s) => {
                        let (l, m) = last_panic();
                        let _ = s;
                        if l.starts_with("src/") { Outcome::Harness(format!("{l}: {m}")) } else { Outcome::Violation(Violation { class: "panic".into(), msg: format!("panic at {l}: {m}") }) }
                    }
                    Err(p) => match classify(p) {
                        Caught::Violation(v) => Outcome::Violation(v),
                        Caught::Rng => Outcome::Harness("stray RNG failure".into()),
                        Caught::Library(l, m) => Outcome::Violation(Violation { class: "panic".into(), msg: format!("library panic at {l}: {m}") }),
                        Caught::Harness(l, m) => Outcome::Harness(format!("{l}: {m}")),
                    },
                },
            };
            heap_poison(0);
            (sim, out)
        })
        .expect("spawn")
        .join()
        .expect("run thread")
}
