//! Seams owned by the simulator: process entropy, caller RNG, heap contents,
//! thread scheduling (C half in rt/rt.c).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::convert::Infallible;

unsafe extern "C" {
    pub fn sim_entropy_seed(seed: u64);
    pub fn sim_entropy_calls() -> u64;
    pub fn sim_entropy_fault(n: i32);
    pub fn sim_sched_start(n: i32, seed: u64, gap: u32, pct: *const u32, limit: u64, rep: *const Preempt, nrep: usize, replay: i32);
    pub fn sim_sched_go();
    pub fn sim_thread_enter(id: i32);
    pub fn sim_thread_leave();
    pub fn sim_step_pause() -> i32;
    pub fn sim_step_resume(x: i32);
    pub fn sim_yield(kind: i32);
    pub fn sim_quiet(on: i32);
    pub fn sim_sched_stop();
    pub fn sim_sched_counter() -> u64;
    pub fn sim_sched_hash() -> u64;
    pub fn sim_sched_switches() -> u64;
    pub fn sim_sched_kind(k: i32) -> u64;
    pub fn sim_sched_futex(w: i32) -> u64;
    pub fn sim_sched_log(p: *mut *const Preempt) -> usize;
    pub fn sim_in_sched() -> i32;
}

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Preempt {
    pub at: u64,
    pub kind: u32,
    pub to: u32,
}

// ------------------------------------------------------------------ allocator

#[derive(Clone, Copy)]
struct Heap {
    poison: u8,
    max: usize,
    total: usize,
    cap_on: bool,
    cap_min: usize,
    cap: *mut u64,
    yields: bool,
}

thread_local! {
    static HEAP: Cell<Heap> = const { Cell::new(Heap { poison: 0, max: 0, total: 0, cap_on: false, cap_min: 0, cap: std::ptr::null_mut(), yields: false }) };
}

pub struct SimAlloc;

#[inline]
fn lay(l: Layout) -> Layout {
    // One cache line: block addresses do not depend on small layout details, and
    // simulated runs see the same relative addresses.
    unsafe { Layout::from_size_align_unchecked(l.size(), l.align().max(64)) }
}

/// The simulator's own code is not observed.
struct Unobserved(i32);
impl Unobserved { #[inline] fn new() -> Self { Unobserved(unsafe { sim_step_pause() }) } }
impl Drop for Unobserved { #[inline] fn drop(&mut self) { unsafe { sim_step_resume(self.0) } } }

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _u = Unobserved::new();
        let mut h = HEAP.with(Cell::get);
        if h.yields { unsafe { sim_yield(2) } }
        if l.size() > h.max { h.max = l.size(); }
        h.total += l.size();
        HEAP.with(|c| c.set(h));
        let p = unsafe { System.alloc(lay(l)) };
        if h.poison != 0 && !p.is_null() { unsafe { std::ptr::write_bytes(p, h.poison, l.size()) } }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _u = Unobserved::new();
        let mut h = HEAP.with(Cell::get);
        if h.yields { unsafe { sim_yield(2) } }
        if l.size() > h.max { h.max = l.size(); }
        h.total += l.size();
        HEAP.with(|c| c.set(h));
        unsafe { System.alloc_zeroed(lay(l)) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _u = Unobserved::new();
        let h = HEAP.with(Cell::get);
        if h.cap_on && l.size() >= h.cap_min {
            let c = unsafe { capture_block(h.cap, p, l.size()) };
            HEAP.with(|x| { let mut h = x.get(); h.cap = c; x.set(h) });
        }
        if h.poison != 0 { unsafe { std::ptr::write_bytes(p, !h.poison, l.size()) } }
        unsafe { System.dealloc(p, lay(l)) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let _u = Unobserved::new();
        // Always move: stale pointers and unscanned old blocks show up.
        let nl = unsafe { Layout::from_size_align_unchecked(new, l.align()) };
        let q = unsafe { self.alloc(nl) };
        if !q.is_null() {
            unsafe {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                self.dealloc(p, l);
            }
        }
        q
    }
}

// Copies of freed blocks, chained through their first two words.
unsafe fn capture_block(head: *mut u64, p: *mut u8, size: usize) -> *mut u64 {
    let w = size / 8;
    unsafe {
        let c = System.alloc(Layout::from_size_align_unchecked((w + 2) * 8, 64)) as *mut u64;
        if c.is_null() { return head }
        c.write(head as u64);
        c.add(1).write(w as u64);
        std::ptr::copy_nonoverlapping(p as *const u64, c.add(2), w);
        c
    }
}
/// Starts keeping a copy of every block of at least `min` bytes this thread frees.
pub fn heap_capture(min: usize) {
    HEAP.with(|c| { let mut h = c.get(); h.cap_min = min; h.cap_on = true; c.set(h) });
}
pub fn heap_capture_stop() {
    HEAP.with(|c| { let mut h = c.get(); h.cap_on = false; c.set(h) });
}
/// The contents of the blocks freed since capturing started.
pub fn heap_captured() -> Vec<Vec<u64>> {
    heap_capture_stop();
    let mut head = HEAP.with(|c| { let mut h = c.get(); let p = h.cap; h.cap = std::ptr::null_mut(); c.set(h); p });
    let mut out = vec![];
    while !head.is_null() {
        unsafe {
            let (next, w) = (head.read() as *mut u64, head.add(1).read() as usize);
            out.push(std::slice::from_raw_parts(head.add(2), w).to_vec());
            System.dealloc(head as *mut u8, Layout::from_size_align_unchecked((w + 2) * 8, 64));
            head = next;
        }
    }
    out.reverse();
    out
}

pub fn heap_poison(b: u8) {
    HEAP.with(|c| { let mut h = c.get(); h.poison = b; c.set(h) });
}
pub fn heap_yields(on: bool) {
    HEAP.with(|c| { let mut h = c.get(); h.yields = on; c.set(h) });
}
pub fn heap_reset_stats() {
    HEAP.with(|c| { let mut h = c.get(); h.max = 0; h.total = 0; c.set(h) });
}
/// (largest single request, sum of requests) since the last reset, this thread.
pub fn heap_stats() -> (usize, usize) {
    let h = HEAP.with(Cell::get);
    (h.max, h.total)
}
// ------------------------------------------------------------------ generators

#[inline]
pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_add(0x632BE59BD9B4E019).wrapping_mul(0xD6E8FEB86659FD93);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// The simulator's own generator (never handed to the library).
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(mix(seed, 0x51)) }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (((self.u64() as u128) * (n as u128)) >> 64) as usize } }
    pub fn below64(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { (((self.u64() as u128) * (n as u128)) >> 64) as u64 } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn pct(&mut self, p: u32) -> bool { self.below(100) < p as usize }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u64 = w.iter().map(|x| *x as u64).sum();
        if tot == 0 { return 0; }
        let mut r = self.below64(tot);
        for (i, x) in w.iter().enumerate() { if r < *x as u64 { return i; } r -= *x as u64; }
        w.len() - 1
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { v.swap(i, self.below(i + 1)); } }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u64() as u8).collect() }
}

/// The caller RNG given to the library: seeded, counts draws, can fail (unwind)
/// at the n-th word, can be stuck, and is a scheduling point.
#[derive(Clone)]
pub struct LibRng {
    s: Rng,
    pub words: u64,
    pub fail_at: Option<u64>,
    /// (word, mask): one word of the stream is another one
    pub flip: Option<(u64, u64)>,
}
/// Payload of the injected failure of the caller's generator.
pub struct RngFailure;

impl LibRng {
    pub fn new(seed: u64) -> Self { LibRng { s: Rng::new(mix(seed, 0x11B)), words: 0, fail_at: None, flip: None } }
    pub fn failing(seed: u64, at: u64) -> Self { let mut r = Self::new(seed); r.fail_at = Some(at); r }
    fn word(&mut self) -> u64 {
        unsafe { sim_yield(3) };
        self.words += 1;
        if let Some(at) = self.fail_at { if self.words > at { unsafe { sim_step_pause() }; std::panic::panic_any(RngFailure) } }
        let w = self.s.u64();
        match self.flip { Some((at, m)) if at == self.words => w ^ m, _ => w }
    }
}
impl rand::TryRng for LibRng {
    type Error = Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Infallible> { Ok(self.word() as u32) }
    fn try_next_u64(&mut self) -> Result<u64, Infallible> { Ok(self.word()) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Infallible> {
        for c in d.chunks_mut(8) { let w = self.word().to_le_bytes(); c.copy_from_slice(&w[..c.len()]); }
        Ok(())
    }
}
impl rand::TryCryptoRng for LibRng {}
