use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

fn add(n: usize) {
    let c = CUR.fetch_add(n, Relaxed).wrapping_add(n);
    PEAK.fetch_max(c, Relaxed);
}
fn sub(n: usize) { CUR.fetch_sub(n, Relaxed); }

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() { add(l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l); sub(l.size()); }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() { add(n); sub(l.size()); }
        q
    }
}

static CPU0: AtomicUsize = AtomicUsize::new(0);
static CPU: AtomicUsize = AtomicUsize::new(0);
/// microseconds of processor time this process has used
fn cpu_now() -> usize {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t);
        t.tv_sec as usize * 1_000_000 + t.tv_nsec as usize / 1000
    }
}
/// ... between the last `start` and the last `peak_since`
pub fn cpu() -> usize { CPU.load(Relaxed) }

/// Start measuring; returns the base to pass to `peak_since`.
pub fn start() -> usize {
    let c = CUR.load(Relaxed);
    PEAK.store(c, Relaxed);
    CPU0.store(cpu_now(), Relaxed);
    c
}
pub fn peak_since(base: usize) -> usize {
    CPU.store(cpu_now().saturating_sub(CPU0.load(Relaxed)), Relaxed);
    PEAK.load(Relaxed).saturating_sub(base)
}
