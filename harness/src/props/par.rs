//! C10: data races and schedule dependence of the parallel conversions.
use crate::gen;
use crate::model::*;
use crate::mon::{guard, Ctx, Hasher};
use crate::props::iter::pool;
use crate::rng::Rng;
use crate::subjects::*;
use rayon::prelude::*;
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::prelude::*;
use std::sync::atomic::{AtomicU64, Ordering};

/// Records which worker handled which run of points; only relaxed atomics, so it adds no synchronisation
/// that could hide a race.
fn traced<const N: usize, C: Subj<N>>(ctx: &mut Ctx, rng: &mut Rng, s: &dyn Ops, name: &str) {
    let spec = s.fields();
    let n = if ctx.slow { 1 + rng.idx(5) } else { *rng.pick(&[2usize, 3, 5, 9, 17, 64, 129, 400, 1000, 3000]) };
    let (m, _) = gen::valid_msg(rng, s, n);
    let all = decode(&m, &spec);
    let pre = if rng.chance(1, 3) { Before::random(rng, all.len()) } else { Before::default() };
    let want = all[pre.range(all.len())].to_vec();
    let n = want.len();
    let indexed = rng.chance(4, 5);
    let threads = if ctx.slow { 2 } else { *rng.pick(&[1usize, 2, 3, 4, 8, 16, 33, 64]) };
    let jitter = rng.next();
    let owner: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(u64::MAX)).collect();
    let work = |i: usize, p: C| -> Vals {
        let v = p.get();
        owner[i].store(rayon::current_thread_index().unwrap_or(99) as u64, Ordering::Relaxed);
        let r = crate::rng::mix(jitter ^ i as u64);
        if r % 16 == 0 {
            std::thread::yield_now();
        } else if r % 16 == 1 {
            for _ in 0..(r >> 8) % 200 {
                std::hint::spin_loop();
            }
        }
        v
    };
    let m2 = clone_exact(&m);
    ctx.evaluations += 1;
    let res = guard(|| {
        pool(threads).install(|| -> Result<Vec<Vals>, MsgConversionError> {
            let it = pre.apply(PointCloudIterator::<N, C>::try_from(m2)?);
            if !indexed {
                // no index arrives here: the worker is not recorded
                return Ok(ParallelIterator::map(it, |p: C| p.get()).filter(|_| true).collect());
            }
            Ok(IndexedParallelIterator::enumerate(it).with_max_len(1 + (jitter % 7) as usize).map(|(i, p)| work(i, p)).collect())
        })
    });
    let got = match res {
        Err(p) => return ctx.fail(format!("{name} over {n} points ({pre:?}) on {threads} threads panicked: {p}")),
        Ok(Err(e)) => return ctx.fail(format!("{name}: valid message rejected: {e:?}")),
        Ok(Ok(v)) => v,
    };
    if let Some(d) = same_vals(&want, &got, &spec) {
        return ctx.fail(format!("{name} over {n} points ({pre:?}) on {threads} threads: {d}"));
    }
    let mut h = Hasher::new();
    h.u(10);
    let mut distinct = 0u64;
    let mut last = u64::MAX;
    let mut workers = std::collections::BTreeSet::new();
    for o in &owner {
        let w = o.load(Ordering::Relaxed);
        h.u(w);
        workers.insert(w);
        if w != last {
            distinct += 1;
            last = w;
        }
    }
    ctx.add("hand-overs between workers", distinct.saturating_sub(1));
    ctx.count(&format!("executions on {} workers", workers.len()));
    if workers.len() > 1 {
        ctx.nontrivial(h.0);
    }
    // writing in parallel: equal to the sequential message, whatever the pool
    ctx.evaluations += 1;
    let seq = match s.write(Writer::Vec, &want, Pad::Fill(0)) {
        Ok(m) => m,
        Err(e) => return ctx.fail(format!("{name}: writing failed {e:?}")),
    };
    for w in [Writer::Par, Writer::ParFilter, Writer::ParSkew, Writer::ParSkew] {
        if ctx.slow && rng.chance(1, 2) {
            continue;
        }
        let r = if w == Writer::ParSkew {
            let (pts, seed) = (build::<N, C>(&want, Pad::Fill(0)), rng.next());
            guard(|| pool(threads).install(|| par_skew::<N, C>(pts, seed)))
        } else {
            guard(|| pool(threads).install(|| s.write(w, &want, Pad::Fill(0))))
        };
        match r {
            Ok(Ok(p)) => {
                if let Some(d) = msg_diff(&seq, &p) {
                    return ctx.fail(format!("{name}: parallel message ({w:?}) on {threads} threads differs: {d}"));
                }
            }
            Ok(Err(e)) => return ctx.fail(format!("{name}: parallel writing ({w:?}) failed {e:?}")),
            Err(p) => return ctx.fail(format!("{name}: parallel writing ({w:?}) panicked {p}")),
        }
        ctx.count(&format!("parallel writes compared ({w:?})"));
    }
    let want = all;
    // many plain threads, clones of one message, every conversion at once
    let users = if ctx.slow { 2 } else { 2 + rng.idx(6) };
    let gate = std::sync::Barrier::new(users);
    let errs: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..users)
            .map(|u| {
                let (m, want, spec, gate) = (&m, &want, &spec, &gate);
                sc.spawn(move || -> Option<String> {
                    gate.wait();
                    for k in 0..2 {
                        // cloned here, concurrently, like a callback handing the message to several consumers
                        let mine = m.clone();
                        let r = READERS[(u + k) % READERS.len()];
                        match guard(|| s.read(r, mine)) {
                            Ok(Ok(v)) => {
                                if let Some(d) = same_vals(want, &v, spec) {
                                    return Some(format!("{r:?}: {d}"));
                                }
                            }
                            Ok(Err(e)) => return Some(format!("{r:?} rejected: {e:?}")),
                            Err(p) => return Some(format!("{r:?} panicked: {p}")),
                        }
                        match s.write(WRITERS[(u + k) % WRITERS.len()], want, Pad::Fill(0)) {
                            Ok(m) => {
                                if let Verdict::Valid(v) = verdict(&m, spec) {
                                    if let Some(d) = same_vals(want, &v, spec) {
                                        return Some(format!("concurrent write: {d}"));
                                    }
                                }
                            }
                            Err(e) => return Some(format!("concurrent write failed: {e:?}")),
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().unwrap_or(Some("thread died".into()))).collect()
    });
    ctx.evaluations += users as u64;
    ctx.add("concurrent users of one message", users as u64);
    if let Some(e) = errs.first() {
        return ctx.fail(format!("{name} over {n} points with {users} concurrent users: {e}"));
    }
    // parts of one iterator handed to different threads
    let it = match PointCloudIterator::<N, C>::try_from(clone_exact(&m)) {
        Ok(i) => i,
        Err(e) => return ctx.fail(format!("{name}: rejected {e:?}")),
    };
    let n = want.len();
    let cut = rng.idx(n + 1);
    let (a, b) = it.split_at(cut);
    let (x, y) = std::thread::scope(|sc| {
        let h1 = sc.spawn(move || { let mut o: Vec<Vals> = vec![]; let mut a = a; while let Some(p) = a.next() { o.push(p.get()) } o });
        let h2 = sc.spawn(move || { let mut o: Vec<Vals> = vec![]; let mut b = b; while let Some(p) = b.next_back() { o.push(p.get()) } o.reverse(); o });
        (h1.join().unwrap_or_default(), h2.join().unwrap_or_default())
    });
    let both: Vec<Vals> = x.into_iter().chain(y).collect();
    if let Some(d) = same_vals(&want, &both, &spec) {
        ctx.fail(format!("{name} over {n} points split at {cut} across two threads: {d}"));
    }
    ctx.count("iterators shared by two threads");
    if ctx.case % 97 == 5 {
        ctx.sample(|| format!("{name} over {n} points, {threads} workers, {users} concurrent users, {distinct} runs of points by one worker"));
    }
}

pub fn c10(ctx: &mut Ctx, rng: &mut Rng) {
    macro_rules! go {
        ($n:literal, $t:ty) => {{
            let h = Holder::<$n, $t>(std::marker::PhantomData);
            traced::<$n, $t>(ctx, rng, &h, h.name())
        }};
    }
    match rng.below(7) {
        0 => go!(3, PointXYZ),
        1 => go!(4, PointXYZI),
        2 => go!(7, PointXYZRGBNormal),
        3 => go!(5, PointXYZRGBA),
        4 => go!(8, MixedC),
        5 => go!(1, OneByte),
        _ => go!(9, Ouster),
    }
}
