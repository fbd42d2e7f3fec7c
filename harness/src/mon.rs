//! Run-time monitors shared by all properties: allocation monitor, panic recorder, bread crumbs, counters.
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::Mutex;

/// Allocation monitor. `MAX` is the largest single request, `LIVE`/`PEAK` the live bytes, since `alloc_reset`.
/// `LIMIT` guards the sandbox: a single request above it is refused (the run then aborts, which the driver reports).
pub struct Monitor;
static MAX: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
/// All live bytes, and how many there may be before the run is stopped: a conversion that collects without end
/// must not take the sandbox with it.
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static RUNAWAY: AtomicUsize = AtomicUsize::new(usize::MAX);
/// Fill pattern for fresh allocations, so that leaks of old memory show up as values (0 = off).
static POISON: AtomicUsize = AtomicUsize::new(0);

unsafe impl GlobalAlloc for Monitor {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        if l.size() > LIMIT.load(Relaxed) {
            return core::ptr::null_mut();
        }
        total(l.size());
        let p = System.alloc(l);
        let pat = POISON.load(Relaxed);
        if pat != 0 && !p.is_null() && l.size() < (1 << 22) {
            core::ptr::write_bytes(p, pat as u8, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        if l.size() > LIMIT.load(Relaxed) {
            return core::ptr::null_mut();
        }
        total(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        TOTAL.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_sub(l.size(), Relaxed);
        note(n);
        if n > LIMIT.load(Relaxed) {
            return core::ptr::null_mut();
        }
        TOTAL.fetch_sub(l.size(), Relaxed);
        total(n);
        System.realloc(p, l, n)
    }
}
fn note(n: usize) {
    MAX.fetch_max(n, Relaxed);
    let live = LIVE.fetch_add(n, Relaxed).wrapping_add(n);
    // wrapped values (frees of memory allocated before a reset) are not peaks
    if (live as isize) > 0 {
        PEAK.fetch_max(live, Relaxed);
    }
}
fn total(n: usize) {
    if TOTAL.fetch_add(n, Relaxed).wrapping_add(n) > RUNAWAY.load(Relaxed) {
        runaway();
    }
}
#[cfg(not(miri))]
#[cold]
fn runaway() {
    extern "C" {
        fn write(fd: i32, b: *const core::ffi::c_void, n: usize) -> isize;
        fn _exit(rc: i32) -> !;
    }
    let s = b"@runaway\n";
    unsafe {
        write(2, s.as_ptr().cast(), s.len());
        _exit(12)
    }
}
#[cfg(miri)]
fn runaway() {}
/// Stop the run when more than `n` bytes are alive at once.
pub fn runaway_limit(n: u64) {
    RUNAWAY.store(usize::try_from(n).unwrap_or(usize::MAX), SeqCst);
}
pub fn alloc_limit(n: u64) {
    LIMIT.store(usize::try_from(n).unwrap_or(usize::MAX), SeqCst);
}
pub fn poison(pat: u8) {
    POISON.store(pat as usize, SeqCst);
}
pub fn alloc_reset() {
    MAX.store(0, SeqCst);
    LIVE.store(0, SeqCst);
    PEAK.store(0, SeqCst);
}
/// (largest single request, peak of live bytes) since the last reset
pub fn alloc_read() -> (usize, usize) {
    (MAX.load(SeqCst), PEAK.load(SeqCst))
}

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static VERBOSE: AtomicBool = AtomicBool::new(false);

pub fn install_panic_recorder(verbose: bool) {
    VERBOSE.store(verbose, SeqCst);
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(non-string panic)".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let line = format!("{msg} at {loc}");
        if VERBOSE.load(SeqCst) {
            eprintln!("panic: {line}");
        }
        if let Ok(mut p) = PANICS.lock() {
            if p.len() < 64 {
                p.push(line);
            }
        }
    }));
}
pub fn take_panics() -> Vec<String> {
    PANICS.lock().map(|mut p| std::mem::take(&mut *p)).unwrap_or_default()
}
/// Run `f`; a panic becomes `Err(description)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => {
            Ok(v)
        }
        Err(_) => {
            let ps = take_panics();
            Err(ps.join(" | "))
        }
    }
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub case: u64,
    pub thorough: bool,
    pub slow: bool,
    /// look at clouds of millions of points as well
    pub giant: bool,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub hashes: Vec<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violation: Option<String>,
}
impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool, slow: bool) -> Self {
        Ctx {
            prop: prop.into(), seed, case: 0, thorough, slow, giant: false, evaluations: 0, nontrivial: 0,
            hashes: vec![], counters: BTreeMap::new(), samples: vec![], violation: None,
        }
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn fail(&mut self, msg: impl Into<String>) {
        if self.violation.is_none() {
            self.violation = Some(msg.into());
        }
    }
    pub fn failed(&self) -> bool {
        self.violation.is_some()
    }
    /// Register a distinct, non-trivial execution by a hash of everything that determines it.
    pub fn nontrivial(&mut self, h: u64) {
        self.nontrivial += 1;
        self.hashes.push(h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 900 {
                let mut cut = 900;
                while !s.is_char_boundary(cut) { cut -= 1; }
                s.truncate(cut);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
}

#[derive(Clone)]
pub struct Hasher(pub u64);
impl Hasher {
    pub fn new() -> Self {
        Hasher(0x1234_5678_9ABC_DEF0)
    }
    pub fn u(&mut self, x: u64) -> &mut Self {
        self.0 = crate::rng::mix(self.0 ^ x);
        self
    }
    pub fn b(&mut self, bs: &[u8]) -> &mut Self {
        self.u(bs.len() as u64);
        for c in bs.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.u(u64::from_le_bytes(w));
        }
        self
    }
}
