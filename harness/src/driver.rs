//! Command line driver of the monitors: runs the cases of one shard and reports what was observed.
use crate::mon::{self, Ctx, Hasher};
use crate::rng;
use crate::rng::Rng;
use std::io::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

pub type CaseFn = fn(&mut Ctx, &mut Rng);

struct Args {
    prop: String,
    seed: u64,
    shard: u64,
    of: u64,
    cases: u64,
    max_secs: u64,
    out: Option<String>,
    only: Option<u64>,
    thorough: bool,
    start: u64,
    slow: bool,
    reverse: bool,
    giant: bool,
}

fn parse() -> Args {
    let mut a = Args {
        prop: String::new(), seed: 1, shard: 0, of: 1, cases: 100, max_secs: 3600, out: None, only: None, thorough: false, start: 0, slow: false, reverse: false,
        giant: false,
    };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().unwrap_or_default();
        match k.as_str() {
            "--prop" => a.prop = v(),
            "--seed" => a.seed = v().parse().unwrap_or(1),
            "--shard" => {
                let s = v();
                let (x, y) = s.split_once('/').unwrap_or(("0", "1"));
                a.shard = x.parse().unwrap_or(0);
                a.of = y.parse().unwrap_or(1).max(1);
            }
            "--cases" => a.cases = v().parse().unwrap_or(1),
            "--start" => a.start = v().parse().unwrap_or(0),
            "--max-secs" => a.max_secs = v().parse().unwrap_or(60),
            "--out" => a.out = Some(v()),
            "--only" => a.only = v().parse().ok(),
            "--thorough" => a.thorough = true,
            "--slow" => a.slow = true,
            "--giant" => a.giant = true,
            "--reverse" => a.reverse = true,
            _ => {}
        }
    }
    a
}

/// Parse the command line, run the shard, report, exit.
pub fn main_with(find: fn(&str) -> Option<CaseFn>) {
    let a = parse();
    // Every panic on a guarded call is part of the observation; print only those outside of guards.
    mon::install_panic_recorder(a.only.is_some());
    // a hostile header must never make the sandbox run out of memory: larger single requests are refused
    let limit: u64 = if ["C17", "C21", "C25"].contains(&a.prop.as_str()) { 20 << 30 } else { 3 << 30 };
    let limited = limit == 3 << 30;
    mon::alloc_limit(limit);
    let slow = cfg!(miri) || a.slow;
    crate::gen::SLOW.store(slow, std::sync::atomic::Ordering::SeqCst);
    let Some(case_fn) = find(&a.prop) else {
        eprintln!("unknown property {}", a.prop);
        std::process::exit(64);
    };
    let mut ctx = Ctx::new(&a.prop, a.seed, a.thorough, slow);
    ctx.giant = a.giant;
    #[cfg(not(miri))]
    if !["C16", "C17", "C20", "C21"].contains(&a.prop.as_str()) {
        watchdog();
    }
    let t0 = Instant::now();
    let limit = Duration::from_secs(a.max_secs);
    let (mut done, mut last) = (0u64, None);
    let run = |ctx: &mut Ctx, case: u64| {
        ctx.case = case;
        if limited {
            mon::runaway_limit(5 << 29);
        }
        CURRENT.store(case, SeqCst);
        // breadcrumb: after a crash the last line names the case
        if a.out.is_some() {
            crumb(case);
        }
        let mut rng = rng::Rng::for_case(ctx.seed, &ctx.prop, case);
        let r = mon::guard(|| case_fn(ctx, &mut rng));
        if let Err(p) = r {
            ctx.fail(format!("panic outside of an expected place: {p}"));
        }
    };
    if let Some(c) = a.only {
        run(&mut ctx, c);
        done = 1;
        last = Some(c);
    } else {
        let mut todo: Vec<u64> = (a.start + a.shard..a.start + a.cases).step_by(a.of as usize).collect();
        if a.reverse {
            todo.reverse();
        }
        for c in todo {
            run(&mut ctx, c);
            done += 1;
            last = Some(c);
            if ctx.failed() || t0.elapsed() > limit {
                break;
            }
        }
        if a.reverse {
            // hashes are compared with the ones of the forward run
            ctx.hashes.reverse();
        }
    }
    report(&a, &ctx, done, last, t0.elapsed());
    if ctx.failed() {
        std::process::exit(10);
    }
}

static CURRENT: AtomicU64 = AtomicU64::new(u64::MAX);

/// A case that is known to take long reports progress.
pub fn alive() {
    CURRENT.fetch_xor(1 << 62, SeqCst);
}

/// A case takes milliseconds. One that burns a minute of processor time (not wall time: the machine may be busy)
/// is stuck in a call that does not return.
#[cfg(not(miri))]
fn watchdog() {
    #[repr(C)]
    struct Ts(i64, i64);
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut Ts) -> i32;
    }
    fn cpu_ms() -> i64 {
        let mut t = Ts(0, 0);
        // 2: CLOCK_PROCESS_CPUTIME_ID
        unsafe { clock_gettime(2, &mut t) };
        t.0 * 1000 + t.1 / 1_000_000
    }
    std::thread::spawn(|| {
        let (mut seen, mut since) = (u64::MAX, cpu_ms());
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let c = CURRENT.load(SeqCst);
            if c != seen {
                (seen, since) = (c, cpu_ms());
            } else if c != u64::MAX && cpu_ms() - since > 60_000 {
                eprintln!("@stuck case {} used more than 60 s of processor time", c & !(1 << 62));
                std::process::exit(11);
            }
        }
    });
}

fn crumb(case: u64) {
    // on stderr (a file of the driver); kept short
    let mut buf = [0u8; 32];
    let mut i = buf.len();
    i -= 1;
    buf[i] = b'\n';
    let mut c = case;
    loop {
        i -= 1;
        buf[i] = b'0' + (c % 10) as u8;
        c /= 10;
        if c == 0 {
            break;
        }
    }
    let mut err = std::io::stderr();
    let _ = err.write_all(b"@case ");
    let _ = err.write_all(&buf[i..]);
}

fn report(a: &Args, ctx: &Ctx, done: u64, last: Option<u64>, t: Duration) {
    let mut s = String::from("{");
    s += &format!("\"prop\":\"{}\",\"seed\":{},\"shard\":{},\"of\":{},\"cases_done\":{done},", a.prop, a.seed, a.shard, a.of);
    s += &format!("\"evaluations\":{},\"nontrivial\":{},\"elapsed_ms\":{},", ctx.evaluations, ctx.nontrivial, t.as_millis());
    s += &format!("\"last\":{},", last.map(|c| c.to_string()).unwrap_or("null".into()));
    s += "\"counters\":{";
    s += &ctx.counters.iter().map(|(k, v)| format!("\"{}\":{v}", esc(k))).collect::<Vec<_>>().join(",");
    s += "},\"samples\":[";
    s += &ctx.samples.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(",");
    s += "],";
    match &ctx.violation {
        Some(v) => s += &format!("\"violation\":{{\"case\":{},\"message\":\"{}\"}},", ctx.case, esc(&v.chars().take(4000).collect::<String>())),
        None => s += "\"violation\":null,",
    }
    let mut all = Hasher::new();
    for h in &ctx.hashes {
        all.u(*h);
    }
    s += &format!("\"digest\":\"{:016x}\"}}", all.0);
    println!("PCMON {s}");
    if let Some(o) = &a.out {
        let mut hs = Vec::with_capacity(ctx.hashes.len() * 8);
        for h in &ctx.hashes {
            hs.extend_from_slice(&h.to_le_bytes());
        }
        if !cfg!(miri) {
            let _ = std::fs::write(format!("{o}.hashes"), hs);
        } else {
            // the interpreter runs with isolation off, so plain files work there too
            let _ = std::fs::write(format!("{o}.hashes"), hs);
        }
    }
}
