//! C08 iterator contract, C09 splitting and parallel iteration.
use crate::gen;
use crate::model::*;
use crate::mon::{guard, Ctx, Hasher};
use crate::rng::Rng;
use crate::script::{needs_back, run_back, terminal, Obs, Op};
use crate::subjects::*;

pub fn deep_subject(rng: &mut Rng) -> &'static dyn Deep {
    *rng.pick(&deep())
}
fn arg(rng: &mut Rng, n: usize) -> usize {
    match rng.below(10) {
        0 => 0,
        1 => n,
        2 => n + 1,
        3 => n.saturating_sub(1),
        4 => *rng.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX - 1000, n + 1000]),
        5 => rng.idx(n + 2),
        _ => rng.idx(5),
    }
}
fn small(rng: &mut Rng, n: usize) -> usize {
    match rng.below(5) {
        0 => n,
        1 => n + 1,
        2 => rng.idx(n + 3),
        _ => rng.idx(6),
    }
}

/// Random call sequence for an iterator over `n` points. `hostile`: keep going long after exhaustion.
pub fn random_script(rng: &mut Rng, n: usize, hostile: bool) -> Vec<Op> {
    let mut ops = vec![];
    let len = 1 + rng.idx(if hostile { 24 } else { 14 });
    let back = rng.below(10); // bias towards one end
    for _ in 0..len {
        let op = match rng.below(20) {
            0..=3 => if rng.below(10) < back { Op::Back } else { Op::Next },
            4 | 5 => Op::Back,
            6 | 7 => Op::Next,
            8 => Op::Nth(arg(rng, n)),
            9 => Op::NthBack(arg(rng, n)),
            10 | 11 => Op::Hint,
            12 => Op::Len,
            13 => Op::ByRefTake(small(rng, n)),
            14 => Op::ByRefTakeRev(small(rng, n)),
            15 => if rng.chance(1, 2) { Op::TryFold(small(rng, n)) } else { Op::TryRfold(small(rng, n)) },
            16 => if rng.chance(1, 2) { Op::Position(small(rng, n)) } else { Op::Rposition(small(rng, n)) },
            17 => if rng.chance(1, 2) { Op::Find(small(rng, n)) } else { Op::Rfind(small(rng, n)) },
            18 => if rng.chance(1, 2) { Op::Any(small(rng, n)) } else { Op::All(small(rng, n)) },
            _ => Op::Next,
        };
        ops.push(op);
        if rng.chance(1, 3) {
            ops.push(Op::Hint);
        }
        if rng.chance(1, 5) {
            ops.push(Op::Len);
        }
    }
    ops.push(Op::Hint);
    if rng.chance(1, 3) {
        // run it dry from one end and keep calling
        ops.push(if rng.chance(1, 2) { Op::ByRefTake(n + 2) } else { Op::ByRefTakeRev(n + 2) });
        for _ in 0..2 + rng.idx(4) {
            ops.push(rng.pick(&[Op::Next, Op::Back, Op::Hint, Op::Len, Op::Nth(0), Op::NthBack(0), Op::Nth(usize::MAX)]).clone());
        }
    }
    let a = arg(rng, n);
    let b = small(rng, n);
    let t = match rng.below(22) {
        0 => Op::Count,
        1 => Op::Last,
        2 => Op::Collect,
        3 => Op::RevCollect,
        4 => Op::Fold,
        5 => Op::Rfold,
        6 => Op::ForEach,
        7 => Op::RevForEach,
        8 => Op::SkipCollect(a),
        9 => Op::RevSkipCollect(a),
        10 => Op::StepBy(b),
        11 => Op::RevStepBy(b),
        12 => Op::TakeCollect(a),
        13 => Op::SkipTakeRev(b, small(rng, n)),
        14 => Op::Peekable,
        15 => Op::Enumerate,
        16 => Op::RevEnumerate,
        17 => Op::EnumerateRev,
        18 => Op::ZipRange(b),
        19 => Op::ZipRev(b),
        20 => Op::ChainOnce,
        _ => Op::Reduce,
    };
    ops.push(t);
    if cfg!(not(feature = "par")) {
        ops.retain(|o| !needs_back(o));
        if ops.last().map(|o| !terminal(o)).unwrap_or(true) {
            ops.push(Op::Collect);
        }
    }
    ops
}

fn iter_len(ctx: &Ctx, rng: &mut Rng) -> usize {
    if ctx.slow {
        return rng.idx(6);
    }
    match rng.below(10) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        9 => gen_len(rng, false).min(5000),
        _ => rng.idx(24),
    }
}

pub fn c08(ctx: &mut Ctx, rng: &mut Rng) {
    crate::props::giant::jump(ctx);
    let s = deep_subject(rng);
    let spec = s.fields();
    let n = iter_len(ctx, rng);
    let (m, _) = gen::valid_msg(rng, s, n);
    let n = npoints(&m) as usize;
    let want = decode(&m, &spec);
    let public = rng.chance(1, 4);
    let mut ops = random_script(rng, n, false);
    if public {
        ops.retain(|o| !needs_back(o));
        if ops.last().map(|o| !terminal(o)).unwrap_or(true) {
            ops.push(Op::Collect);
        }
    }
    // reference: the standard slice iterator over the decoded points
    let mut expect: Vec<Obs> = vec![];
    run_back(want.iter().copied(), &ops, &|v: Vals| v, &mut expect);
    ctx.evaluations += 1;
    let m2 = clone_exact(&m);
    let got = match guard(|| if public { s.script_public(m2, &ops) } else { s.script(m2, &ops) }) {
        Err(p) => {
            ctx.fail(format!("{} over {n} points, calls {ops:?}: panicked: {p}", s.name()));
            return;
        }
        Ok(Err(e)) => {
            ctx.fail(format!("{} over {n} points: valid message rejected with {e:?}; {}", s.name(), show_msg(&m)));
            return;
        }
        Ok(Ok(o)) => o,
    };
    for (i, (a, b)) in expect.iter().zip(&got).enumerate() {
        if a != b {
            let i2 = i;
            ctx.fail(format!(
                "{} over {n} points{}, calls {ops:?}: observation {i2} is {} instead of {}",
                s.name(), if public { " (try_into_iter)" } else { "" }, show_obs(b, spec.len()), show_obs(a, spec.len())
            ));
            return;
        }
    }
    if expect.len() != got.len() {
        ctx.fail(format!("{} over {n} points, calls {ops:?}: {} observations instead of {}", s.name(), got.len(), expect.len()));
        return;
    }
    ctx.add("observations compared", got.len() as u64);
    for o in &ops {
        let d = format!("{o:?}");
        ctx.count(&format!("call {}", d.split('(').next().unwrap_or("")));
    }
    if n == 0 {
        ctx.count("empty clouds");
    }
    let mut h = Hasher::new();
    h.u(8).u(n as u64).b(s.name().as_bytes()).u(public as u64).b(format!("{ops:?}").as_bytes());
    ctx.nontrivial(h.0);
    if ctx.case % 997 == 5 {
        ctx.sample(|| format!("{} over {n} points: {ops:?}", s.name()));
    }
}
fn show_obs(o: &Obs, k: usize) -> String {
    match o {
        Obs::One(Some(v)) => format!("point {:x?}", &v[..k.min(3)]),
        Obs::Many(v) => format!("{} points starting {:x?}", v.len(), v.iter().take(3).map(|p| p[0]).collect::<Vec<_>>()),
        o => format!("{o:?}"),
    }
}

#[cfg(feature = "par")]
pub fn warm() {
    use rayon::prelude::*;
    use std::sync::Once;
    static W: Once = Once::new();
    W.call_once(|| {
        let v: Vec<u64> = (0..1000u64).into_par_iter().map(|x| x + 1).collect();
        assert_eq!(v.len(), 1000);
    });
}

/// Index model of a part: the half-open range of points left in it.
fn split_case(ctx: &mut Ctx, rng: &mut Rng) {
    let s = deep_subject(rng);
    let spec = s.fields();
    let n = if ctx.slow { rng.idx(7) } else if rng.chance(1, 12) { gen_len(rng, false) } else { rng.idx(30) };
    let (m, _) = gen::valid_msg(rng, s, n);
    let n = npoints(&m) as usize;
    let all = decode(&m, &spec);
    let mut parts: Vec<(usize, usize)> = vec![(0, n)];
    let mut plan = vec![];
    let mut exp_events: Vec<(usize, Vec<Vals>)> = vec![];
    let mut exp_hints = vec![];
    let has_back = cfg!(feature = "par");
    for _ in 0..1 + rng.idx(8) {
        let p = rng.idx(parts.len());
        let (a, b) = parts[p];
        let len = b - a;
        match rng.below(7) {
            0 | 1 => {
                let k = if rng.chance(1, 6) { len + rng.idx(3) } else { rng.idx(len.min(6) + 1) };
                let t = k.min(len);
                exp_events.push((p, all[a..a + t].to_vec()));
                parts[p].0 = a + t;
                plan.push(Cut::Front(p, k));
            }
            2 => {
                let k = if rng.chance(1, 6) { len + rng.idx(3) } else { rng.idx(len.min(6) + 1) };
                let t = if has_back { k.min(len) } else { 0 };
                let mut e = all[b - t..b].to_vec();
                e.reverse();
                exp_events.push((p, e));
                parts[p].1 = b - t;
                plan.push(Cut::Back(p, k));
            }
            3 => {
                exp_hints.push((p, len, Some(len)));
                if has_back {
                    exp_hints.push((p, len, Some(len)));
                    exp_hints.push((p, len, Some(len)));
                }
                plan.push(Cut::Hint(p));
            }
            _ => {
                let at = match rng.below(5) {
                    0 => 0,
                    1 => len,
                    _ => rng.idx(len + 1),
                };
                parts[p] = (a, a + at);
                parts.insert(p + 1, (a + at, b));
                plan.push(Cut::Split(p, at));
            }
        }
    }
    let mut drains = vec![Drain::Front, Drain::Back, Drain::Alternate, Drain::Fold];
    rng.shuffle(&mut drains);
    for (i, (a, b)) in parts.iter().enumerate() {
        exp_hints.push((i, b - a, Some(b - a)));
    }
    ctx.evaluations += 1;
    let m2 = clone_exact(&m);
    let what = format!("{} over {n} points, plan {plan:?}, drains {drains:?}", s.name());
    let o = match guard(|| s.split(m2, &plan, &drains)) {
        Err(p) => return ctx.fail(format!("{what}: panicked: {p}")),
        Ok(Err(e)) => return ctx.fail(format!("{what}: valid message rejected: {e:?}")),
        Ok(Ok(o)) => o,
    };
    if o.hints != exp_hints {
        return ctx.fail(format!("{what}: lengths reported {:?} instead of {:?}", o.hints, exp_hints));
    }
    if o.events != exp_events {
        return ctx.fail(format!("{what}: points taken before/between splits differ from the ones that were left"));
    }
    for (i, (a, b)) in parts.iter().enumerate() {
        if let Some(d) = same_vals(&all[*a..*b], &o.leaves[i], &spec) {
            return ctx.fail(format!("{what}: part {i} should hold points {a}..{b}: {d}"));
        }
    }
    ctx.count("split plans");
    ctx.add("parts checked", parts.len() as u64);
    if n > 0 && plan.iter().any(|c| matches!(c, Cut::Split(..))) {
        let mut h = Hasher::new();
        h.u(9).u(n as u64).b(s.name().as_bytes()).b(format!("{plan:?}{drains:?}").as_bytes());
        ctx.nontrivial(h.0);
    }
    if ctx.case % 997 == 5 {
        ctx.sample(|| what);
    }
}

pub fn c09(ctx: &mut Ctx, rng: &mut Rng) {
    crate::props::giant::split(ctx);
    #[cfg(feature = "par")]
    {
        match rng.below(10) {
            0..=3 => split_case(ctx, rng),
            4..=5 => producer_case(ctx, rng),
            _ => adapt_case(ctx, rng),
        }
    }
    #[cfg(not(feature = "par"))]
    split_case(ctx, rng)
}

#[cfg(feature = "par")]
fn producer_case(ctx: &mut Ctx, rng: &mut Rng) {
    let s = deep_subject(rng);
    let spec = s.fields();
    let n = if rng.chance(1, 10) { gen_len(rng, ctx.slow) } else { rng.idx(20) };
    let (m, _) = gen::valid_msg(rng, s, n);
    let n = npoints(&m) as usize;
    let all = decode(&m, &spec);
    let plan: Vec<(usize, u64)> = (0..rng.idx(10)).map(|_| (rng.idx(100), if rng.chance(1, 4) { 0 } else { rng.next() })).collect();
    let pre = Before::random(rng, n);
    let left = pre.range(n);
    // the model of `split_at` on producers: lengths only
    let mut parts: Vec<(usize, usize)> = vec![(left.start, left.end)];
    for (which, at) in &plan {
        let i = which % parts.len();
        let (a, b) = parts[i];
        let at = (*at % ((b - a) as u64 + 1)) as usize;
        parts[i] = (a, a + at);
        parts.insert(i + 1, (a + at, b));
    }
    ctx.evaluations += 1;
    let m2 = clone_exact(&m);
    let what = format!("{} over {n} points, {pre:?}, producer plan {plan:?}", s.name());
    let (got, len) = match guard(|| s.producer(m2, pre, &plan)) {
        Err(p) => return ctx.fail(format!("{what}: panicked: {p}")),
        Ok(Err(e)) => return ctx.fail(format!("{what}: valid message rejected: {e:?}")),
        Ok(Ok(o)) => o,
    };
    if len != left.len() {
        return ctx.fail(format!("{what}: parallel length {len}"));
    }
    for (i, (a, b)) in parts.iter().enumerate() {
        if let Some(d) = same_vals(&all[*a..*b], &got[i], &spec) {
            return ctx.fail(format!("{what}: part {i} should hold points {a}..{b}: {d}"));
        }
    }
    ctx.count("producer split plans");
    if n > 0 && !plan.is_empty() {
        let mut h = Hasher::new();
        h.u(99).u(n as u64).b(s.name().as_bytes()).b(format!("{plan:?}").as_bytes());
        ctx.nontrivial(h.0);
    }
}

#[cfg(feature = "par")]
pub fn pool(k: usize) -> &'static rayon::ThreadPool {
    use std::sync::OnceLock;
    static POOLS: [OnceLock<rayon::ThreadPool>; 65] = [const { OnceLock::new() }; 65];
    POOLS[k].get_or_init(|| {
        rayon::ThreadPoolBuilder::new().num_threads(k).stack_size(1 << 20).build().expect("thread pool")
    })
}

#[cfg(feature = "par")]
fn adapt_case(ctx: &mut Ctx, rng: &mut Rng) {
    let s = *rng.pick(&adapt());
    let spec = s.fields();
    let n = if ctx.slow { rng.idx(9) } else { gen_len(rng, false) };
    let (m, _) = gen::valid_msg(rng, s, n);
    let n = npoints(&m) as usize;
    let all = decode(&m, &spec);
    let threads = if ctx.slow { 2 } else { *rng.pick(&[1usize, 2, 3, 4, 7, 8, 16]) };
    let rounds = if n < 200 { 6 } else { 2 };
    for _ in 0..rounds {
        let kind = rng.below(PAR_KINDS);
        let a = match rng.below(4) {
            0 => 0,
            1 => n,
            _ => rng.idx(n + 3),
        };
        let b = rng.idx(n + 3);
        let pre = Before::random(rng, n);
        let want = par_adapt_model(&all, pre, kind, a, b);
        ctx.evaluations += 1;
        let m2 = clone_exact(&m);
        let what = format!("{} over {n} points, {pre:?}, parallel adaptor {kind} (a={a}, b={b}) on {threads} threads", s.name());
        let got = match guard(|| pool(threads).install(|| s.par_adapt(m2, pre, kind, a, b))) {
            Err(p) => return ctx.fail(format!("{what}: panicked: {p}")),
            Ok(Err(e)) => return ctx.fail(format!("{what}: valid message rejected: {e:?}")),
            Ok(Ok(o)) => o,
        };
        if got.num != want.num {
            return ctx.fail(format!("{what}: lengths/counts {:?} instead of {:?}", got.num, want.num));
        }
        if let Some(d) = same_vals(&want.vals, &got.vals, &spec) {
            return ctx.fail(format!("{what}: {d}"));
        }
        ctx.count(&format!("adaptor {kind}"));
        ctx.count(&format!("threads {threads}"));
        if pre.range(n).len() != n {
            ctx.count("iterators cut or stepped before their parallel use");
        }
        let mut h = Hasher::new();
        h.u(999).u(n as u64).u(kind).u(a as u64).u(b as u64).u(threads as u64).b(s.name().as_bytes());
        if n > 0 {
            ctx.nontrivial(h.0);
        }
    }
}
