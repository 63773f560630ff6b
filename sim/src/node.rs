//! A simulated process: an OS thread with its own entropy, thread-locals and
//! heap poison, driven synchronously by the simulator (one at a time).
use crate::core::{Caught, Violation, classify};
use crate::rt::{RngFailure, heap_poison, sim_entropy_seed};
use std::panic::{AssertUnwindSafe, catch_unwind, panic_any, resume_unwind};
use std::sync::mpsc::{Sender, channel};
use std::thread::JoinHandle;

type Job<S> = Box<dyn FnOnce(&mut S) + Send>;

pub enum Fail {
    V(Violation),
    Rng,
    Harness(String),
}
pub fn to_fail(p: Box<dyn std::any::Any + Send>) -> Fail {
    if let Some(s) = p.downcast_ref::<String>() { if s.starts_with("harness panic") { return Fail::Harness(s.clone()); } }
    match classify(p) {
        Caught::Violation(v) => Fail::V(v),
        Caught::Rng => Fail::Rng,
        Caught::Library(l, m) => Fail::V(Violation { class: "panic".into(), msg: format!("library panic at {l}: {m}") }),
        Caught::Harness(l, m) => Fail::Harness(format!("harness panic at {l}: {m}")),
    }
}
pub fn reraise(f: Fail) -> ! {
    match f {
        Fail::V(v) => panic_any(v),
        Fail::Rng => panic_any(RngFailure),
        Fail::Harness(s) => resume_unwind(Box::new(s)),
    }
}

pub struct Node<S> {
    tx: Option<Sender<Job<S>>>,
    h: Option<JoinHandle<()>>,
}

impl<S: 'static> Node<S> {
    pub fn spawn(entropy: u64, init: impl FnOnce() -> S + Send + 'static) -> Self {
        let (tx, rx) = channel::<Job<S>>();
        let (rtx, rrx) = channel::<Result<(), Fail>>();
        let h = std::thread::Builder::new()
            .name("node".into())
            .stack_size(8 << 20)
            .spawn(move || {
                unsafe { sim_entropy_seed(entropy) };
                heap_poison((entropy >> 32) as u8 | 1);
                let s = catch_unwind(AssertUnwindSafe(init));
                let mut s = match s {
                    Ok(s) => { rtx.send(Ok(())).unwrap(); s }
                    Err(p) => { rtx.send(Err(to_fail(p))).unwrap(); return; }
                };
                drop(rtx);
                while let Ok(j) = rx.recv() { j(&mut s) }
                drop(s);
                heap_poison(0);
            })
            .expect("spawn");
        let n = Node { tx: Some(tx), h: Some(h) };
        match rrx.recv().expect("node") { Ok(()) => n, Err(f) => reraise(f) }
    }
    pub fn call<R: Send + 'static>(&self, f: impl FnOnce(&mut S) -> R + Send + 'static) -> R {
        match self.try_call(f) { Ok(r) => r, Err(f) => reraise(f) }
    }
    pub fn try_call<R: Send + 'static>(&self, f: impl FnOnce(&mut S) -> R + Send + 'static) -> Result<R, Fail> {
        let (rtx, rrx) = channel();
        let job: Job<S> = Box::new(move |s| {
            let r = catch_unwind(AssertUnwindSafe(|| f(s))).map_err(to_fail);
            let _ = rtx.send(r);
        });
        self.tx.as_ref().unwrap().send(job).expect("node alive");
        rrx.recv().expect("node reply")
    }
}
impl<S> Drop for Node<S> {
    fn drop(&mut self) {
        self.tx.take();
        if let Some(h) = self.h.take() { let _ = h.join(); }
    }
}
