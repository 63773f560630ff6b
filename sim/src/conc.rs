//! Threads sharing everything by reference, under a seeded scheduler that owns
//! every interleaving: results as when run alone, nothing changes, all finish.
use crate::core::{Caught, Sim, Violation, classify, fnv};
use crate::misuse::{GOOD, RANDOMISED, Tn, good};
use crate::node::{Fail, Node};
use crate::params::{Spec, Want, gen_spec, neighbour};
use crate::rt::*;
use std::panic::{AssertUnwindSafe, catch_unwind, panic_any};
use std::sync::Arc;

const FNV: u64 = 0xcbf29ce484222325;

#[derive(Clone, Debug)]
struct Job { w: usize, op: &'static str, x: usize, y: usize, seed: u64, fail: Option<u64>, step: u32 }
#[derive(Clone, Debug, PartialEq)]
enum Res { Val(Option<u64>), Rng, Bad(String, String), Harness(String) }

fn job(ts: &[Arc<Tn>], j: &Job) -> Res {
    let t = &*ts[j.w];
    let mut lr = match j.fail { Some(at) => LibRng::failing(j.seed, at), None => LibRng::new(j.seed) };
    match catch_unwind(AssertUnwindSafe(|| good(t, j.op, j.x, j.y, &mut lr))) {
        Ok(v) => Res::Val(v),
        Err(p) => {
            if let Some(s) = p.downcast_ref::<String>() { if s.starts_with("harness panic") { return Res::Harness(s.clone()) } }
            match classify(p) {
                Caught::Rng => Res::Rng,
                Caught::Violation(v) => Res::Bad(v.class, v.msg),
                Caught::Library(l, m) => Res::Bad("panic".into(), format!("panic at {l}: {m}")),
                Caught::Harness(l, m) => Res::Harness(format!("{l}: {m}")),
            }
        }
    }
}

struct Shared(Arc<Tn>);
// The library's objects are Send and Sync (checked below); Tn holds nothing else.
fn assert_sync<T: Send + Sync>(_: &T) {}

pub fn run(sim: &mut Sim) {
    sim.begin(0);
    let mut r = sim.rng.clone();
    let spec = gen_spec(&mut r, Want { min_moduli: 1, max_moduli: 3, max_deg_log: 4, simd: 70, depth: 1, big_t: true });
    let wseed = sim.lib_seed();
    // Two identical worlds: one used by concurrent threads, one by the sequential reference.
    let specs: Vec<Spec> = if r.pct(30) { let s = neighbour(&mut r, &spec).unwrap_or_else(|| spec.clone()); vec![spec.clone(), s] } else { vec![spec.clone()] };
    let make = |sim: &mut Sim, w: usize, log: bool| {
        let (spec, seed, ent) = (specs[w].clone(), mix(sim.seed, 0x3A11 + w as u64), mix(sim.seed, 0xE11 + w as u64));
        let s = spec.clone();
        let n = Node::spawn(ent, move || {
            let mut sub = Sim::new("C12", seed, Default::default(), false);
            sub.begin(0);
            sub.calm = true;
            Shared(Arc::new(Tn::new(&mut sub, s)))
        });
        if log { sim.log(&format!("params n={} t={} var={} q={:?}", spec.n, spec.t, spec.var, spec.moduli)); }
        n
    };
    let wa: Vec<_> = (0..specs.len()).map(|w| make(sim, w, true)).collect();
    let a: Vec<Arc<Tn>> = wa.iter().map(|n| n.call(|s| s.0.clone())).collect();
    assert_sync(&*a[0]);
    let threads = if r.below(40) == 0 { r.range(6, 16) } else { r.range(2, if sim.thorough { 5 } else { 4 }) };
    let gap = *r.pick(&[20u32, 400, 2000, 10_000, 10_000, 50_000, 300_000]);
    let pct = [0, *r.pick(&[0u32, 600, 8000, 30_000]), *r.pick(&[0u32, 100, 3000]), *r.pick(&[0u32, 1000]), 0, 0, 0, *r.pick(&[0u32, 1000, 8000, 30_000])];
    let sseed = r.u64();
    // threads favour the same few operations: first uses collide
    let focus: Vec<&'static str> = (0..r.range(1, 3)).map(|_| *r.pick(GOOD)).collect();
    let same_args = r.pct(50);
    let (fx, fy) = (r.below(8), r.below(8));
    sim.rng = r;
    let mut lists: Vec<Vec<Job>> = vec![vec![]; threads];
    let per = *sim.rng.pick(&[1, 2, 3, 4, 8, 12]);
    let mut i = 0;
    for t in 0..threads {
        for _ in 0..per {
            i += 1;
            if !sim.begin(i) { continue }
            let mut r = sim.rng.clone();
            let mut op = if r.pct(70) { *r.pick(&focus) } else { *r.pick(GOOD) };
            // building parameters takes as long as all the rest: not in every run
            if op == "params" && r.pct(75) { op = *r.pick(&["rotate", "ek", "relin", "multiply", "decrypt"]) }
            let (x, y) = if same_args && r.pct(80) { (fx, fy) } else { (r.below(8), r.below(8)) };
            let seed = sim.lib_seed();
            let fail = if RANDOMISED.contains(&op) && sim.fault("generator-fails", 80) { Some(sim.frand(40) as u64) } else { None };
            let w = sim.rng.below(specs.len());
            lists[t].push(Job { w, op, x, y, seed, fail, step: i });
            sim.op(op);
        }
    }
    let ents: Vec<u64> = (0..threads).map(|t| mix(mix(wseed, t as u64), 0x7EAD)).collect();

    // ---- the concurrent execution
    let rep: Vec<Preempt> = sim.plan.preempt.clone().unwrap_or_default();
    let replay = sim.plan.preempt.is_some();
    unsafe { sim_sched_start(threads as i32, sseed, gap, pct.as_ptr(), 1_500_000_000, rep.as_ptr(), rep.len(), replay as i32) };
    let handles: Vec<_> = (0..threads).map(|t| {
        let (w, list, ent) = (a.clone(), lists[t].clone(), ents[t]);
        std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            unsafe { sim_entropy_seed(ent) };
            heap_poison((ent >> 32) as u8 | 1);
            let mut out = Vec::with_capacity(list.len());
            unsafe { sim_thread_enter(t as i32) };
            heap_yields(true);
            for j in &list {
                let v = job(&w, j);
                out.push(v);
            }
            heap_yields(false);
            unsafe { sim_thread_leave() };
            drop(w);
            heap_poison(0);
            out
        }).expect("spawn")
    }).collect();
    unsafe { sim_sched_go() };
    let got: Vec<Vec<Res>> = handles.into_iter().map(|h| h.join().expect("simulated thread")).collect();
    unsafe { sim_sched_stop() };
    let (steps, switches, hash) = unsafe { (sim_sched_counter(), sim_sched_switches(), sim_sched_hash()) };
    sim.now += steps;
    sim.preempts = unsafe {
        let mut p: *const Preempt = std::ptr::null();
        let n = sim_sched_log(&mut p);
        std::slice::from_raw_parts(p, n).to_vec()
    };
    sim.count_fault("preemption", switches);
    sim.log(&format!("{threads} threads, {switches} switches in {steps} scheduling points, schedule {hash:016x}"));
    sim.state(hash);

    // ---- objects made the same way and never shared
    let wb: Vec<_> = (0..specs.len()).map(|w| make(sim, w, false)).collect();
    let b: Vec<Arc<Tn>> = wb.iter().map(|n| n.call(|s| s.0.clone())).collect();
    let before: Vec<_> = b.iter().flat_map(|t| t.digest()).collect();
    // ---- the same calls alone, each thread's list in a thread of its own
    for t in 0..threads {
        let (list, w) = (lists[t].clone(), b.clone());
        let alone = Node::spawn(ents[t], move || w);
        let want: Vec<Res> = match alone.try_call(move |w| list.iter().map(|j| job(w, j)).collect()) { Ok(v) => v, Err(Fail::V(v)) => panic_any(v), Err(Fail::Harness(s)) => panic!("{s}"), Err(Fail::Rng) => panic!("stray RNG failure") };
        for (j, (g, w)) in lists[t].iter().zip(got[t].iter().zip(&want)) {
            sim.step = j.step;
            sim.log(&format!("thread {t}: {} {} {} -> {g:?}", j.op, j.x, j.y));
            if let Res::Harness(s) = g { panic!("{s}") }
            if let Res::Harness(s) = w { panic!("{s}") }
            if let Res::Bad(c, m) = w { panic_any(Violation { class: format!("alone-{c}"), msg: format!("{} run alone: {m}", j.op) }) }
            if let Res::Bad(c, m) = g { panic_any(Violation { class: format!("concurrent-{c}"), msg: format!("{} in thread {t} of {threads}: {m}", j.op) }) }
            ensure!(g == w, "differs-from-alone", "{} in thread {t} of {threads} gives {g:?}, run alone it gives {w:?}", j.op);
        }
    }
    // ---- nothing shared has changed, and everything still works
    let after: Vec<_> = a.iter().flat_map(|t| t.digest()).collect();
    for (p, q) in before.iter().zip(&after) { ensure!(p == q, "shared-object-changed", "{} changed while threads shared it", p.0); }
    let all: Vec<Job> = lists.into_iter().flatten().map(|mut j| { j.fail = None; j }).collect();
    let (l1, l2, w1, w2) = (all.clone(), all.clone(), a.clone(), b.clone());
    let ent = mix(wseed, 0xAF7E);
    let x: Vec<Res> = Node::spawn(ent, move || w1).call(move |w| l1.iter().map(|j| job(w, j)).collect());
    let y: Vec<Res> = Node::spawn(ent, move || w2).call(move |w| l2.iter().map(|j| job(w, j)).collect());
    for (j, (x, y)) in all.iter().zip(x.iter().zip(&y)) { ensure!(x == y, "damaged", "{} gives {x:?} after the threads have finished, {y:?} with objects never shared", j.op); }
    sim.state(fnv(FNV, format!("{:?}", all.iter().map(|j| j.op).collect::<Vec<_>>()).as_bytes()));
}
