//! C01 memory safety, C02 totality, C05 decoding, C06 agreement, C07 rejection.
use crate::gen;
use crate::model::*;
use crate::mon::{guard, Ctx, Hasher};
use crate::props::iter::{deep_subject, random_script};
use crate::rng::Rng;
use crate::subjects::*;
use ros_pointcloud2::{MsgConversionError, PointCloud2Msg};

pub fn subject(rng: &mut Rng) -> &'static dyn Ops {
    let all = crate::subjects::all();
    if rng.chance(2, 5) {
        all[rng.idx(9)]
    } else {
        all[rng.idx(all.len())]
    }
}

pub fn case_hash(tag: u64, s: &dyn Ops, m: &PointCloud2Msg) -> u64 {
    let mut h = Hasher::new();
    h.u(tag).b(s.name().as_bytes());
    hash_msg(&mut h, m);
    h.0
}

/// Make every value influence control flow, so that tools that track initialisation see a use.
pub fn touch(ctx: &mut Ctx, s: &dyn Ops, v: &[Vals]) {
    let n = s.n();
    for p in v {
        for x in &p[..n] {
            if *x == 0x5EED_0BAD_CAFE_F00D {
                ctx.count("magic");
            }
        }
    }
    ctx.add("points read", v.len() as u64);
}

fn any_msg(ctx: &mut Ctx, rng: &mut Rng, s: &dyn Ops, hostile_pct: u64) -> (PointCloud2Msg, String) {
    let n = gen_len(rng, ctx.slow);
    let (mut m, kind) = gen::valid_msg(rng, s, n);
    let mut tag = kind.to_string();
    if rng.below(100) < hostile_pct {
        let muts = gen::mutate(rng, &mut m, &s.fields());
        tag = format!("{kind}/{}", muts.join("+"));
        for x in muts {
            ctx.count(&format!("mutation {x}"));
        }
    } else {
        ctx.count(&format!("kind {kind}"));
    }
    (m, tag)
}

/// Claimed sizes so big that a conversion which trusted them would only exhaust the sandbox.
fn readers(ctx: &Ctx, rng: &mut Rng) -> Vec<Reader> {
    if ctx.slow {
        let mut v = vec![Reader::Iter, Reader::Vec];
        v.push(*rng.pick(READERS));
        v.dedup();
        v
    } else {
        READERS.to_vec()
    }
}

pub fn c01(ctx: &mut Ctx, rng: &mut Rng) {
    let s = subject(rng);
    let (m, tag) = any_msg(ctx, rng, s, 65);
    let mut produced = 0;
    for r in readers(ctx, rng) {
        ctx.evaluations += 1;
        let m2 = clone_exact(&m);
        match guard(|| s.read(r, m2)) {
            Ok(Ok(v)) => {
                produced += v.len();
                ctx.count("reads accepted");
                touch(ctx, s, &v);
            }
            Ok(Err(_)) => ctx.count("reads rejected"),
            // a panic is no memory error; C02 is about those
            Err(_) => ctx.count("reads panicked"),
        }
    }
    // call sequences on the iterator, with arbitrary arguments
    let s = deep_subject(rng);
    let (m, _) = any_msg(ctx, rng, s, 65);
    let scripts = if ctx.slow { 1 } else { 3 };
    for _ in 0..scripts {
        let n = npoints(&m).min(1 << 20) as usize;
        let ops = random_script(rng, n, true);
        let m2 = clone_exact(&m);
        ctx.evaluations += 1;
        if let Ok(Ok(o)) = guard(|| s.script(m2, &ops)) {
            ctx.add("iterator observations", o.len() as u64);
            for x in &o {
                match x {
                    crate::script::Obs::One(Some(v)) => touch(ctx, s, std::slice::from_ref(v)),
                    crate::script::Obs::Many(v) => touch(ctx, s, v),
                    _ => {}
                }
            }
        }
        let (plan, drains) = hostile_plan(rng, n);
        let m2 = clone_exact(&m);
        ctx.evaluations += 1;
        match guard(|| s.split(m2, &plan, &drains)) {
            Ok(Ok(o)) => {
                ctx.count("split plans run");
                for l in &o.leaves {
                    touch(ctx, s, l);
                }
            }
            Ok(Err(_)) => {}
            Err(_) => ctx.count("split plans stopped by a panic"),
        }
    }
    if produced > 0 {
        ctx.count("messages with points read");
    }
    if !m.data.is_empty() || tag.contains('/') {
        ctx.nontrivial(case_hash(1, s, &m));
    }
    if ctx.case % 997 == 5 {
        ctx.sample(|| format!("{} <- {tag}: {}", s.name(), show_msg(&m)));
    }
}

/// Split plans that ignore what is left: out-of-range positions, parts that are used up.
fn hostile_plan(rng: &mut Rng, n: usize) -> (Vec<Cut>, Vec<Drain>) {
    let mut plan = vec![];
    let mut parts = 1;
    for _ in 0..1 + rng.idx(5) {
        let p = rng.idx(parts);
        match rng.below(5) {
            0 => plan.push(Cut::Front(p, rng.idx(n.min(40) + 2))),
            1 => plan.push(Cut::Back(p, rng.idx(n.min(40) + 2))),
            2 => plan.push(Cut::Hint(p)),
            _ => {
                let at = match rng.below(8) {
                    0 => 0,
                    1 => n,
                    2 => n + 1,
                    3 => usize::MAX - rng.idx(3),
                    4 => usize::MAX / 2,
                    5 => n + rng.idx(100),
                    _ => rng.idx(n + 1),
                };
                plan.push(Cut::Split(p, at));
                parts += 1;
            }
        }
    }
    (plan, vec![Drain::Front, Drain::Back, Drain::Alternate, Drain::Fold])
}

pub fn c02(ctx: &mut Ctx, rng: &mut Rng) {
    #[cfg(feature = "par")]
    crate::props::iter::warm();
    let s = subject(rng);
    let (m, tag) = any_msg(ctx, rng, s, 80);
    let claimed = npoints(&m) as u128;
    let field_bytes: usize = m.fields.iter().map(|f| f.name.len() + core::mem::size_of_val(f)).sum();
    for r in READERS {
        ctx.evaluations += 1;
        let m2 = clone_exact(&m);
        // a request beyond this is refused by the monitor: the abort names the case
        crate::mon::alloc_limit(4 << 30);
        let res = guard(|| s.read_metered(*r, m2));
        crate::mon::alloc_limit(48 << 30);
        match res {
            Err(p) => {
                ctx.fail(format!("{r:?} of {} panicked: {p}; {tag}; {}", s.name(), show_msg(&m)));
                return;
            }
            Ok(me) => {
                let got = *me.result.as_ref().unwrap_or(&0);
                ctx.count(if me.result.is_ok() { "conversions that returned points" } else { "conversions that returned an error" });
                if got as u128 > claimed {
                    ctx.fail(format!("{r:?} of {} yielded {got} points, the message claims {claimed}; {}", s.name(), show_msg(&m)));
                    return;
                }
                let base = m.data.len() + field_bytes + got * me.point_size;
                let bound = 6 * base + (512 << 10);
                ctx.add("allocation bytes observed", me.peak as u64);
                if me.peak > bound || me.max > bound {
                    ctx.fail(format!(
                        "{r:?} of {}: peak {} B, largest request {} B for a message of {} B returning {got} points (bound {bound}); {tag}; {}",
                        s.name(), me.peak, me.max, m.data.len(), show_msg(&m)
                    ));
                    return;
                }
            }
        }
    }
    // call sequences within the contract never panic either
    let s = deep_subject(rng);
    let (m, tag) = any_msg(ctx, rng, s, 40);
    for k in 0..2 {
        let n = npoints(&m).min(1 << 16) as usize;
        let ops = random_script(rng, n, false);
        let m2 = clone_exact(&m);
        ctx.evaluations += 1;
        let res = guard(|| if k == 0 { s.script(m2, &ops) } else { s.script_public(m2, &ops) });
        if let Err(p) = res {
            ctx.fail(format!("{} iterator script {ops:?} panicked: {p}; {}", s.name(), show_msg(&m)));
            return;
        }
    }
    if !m.data.is_empty() || tag.contains('/') {
        ctx.nontrivial(case_hash(2, s, &m));
    }
    if ctx.case % 997 == 5 {
        ctx.sample(|| format!("{} <- {tag}: {}", s.name(), show_msg(&m)));
    }
}

pub fn c05(ctx: &mut Ctx, rng: &mut Rng) {
    if crate::props::wide::wide(ctx, rng) {
        return;
    }
    crate::props::giant::read(ctx, READERS, 3);
    crate::props::giant::beyond_4gib(ctx);
    let s = subject(rng);
    let n = gen_len(rng, ctx.slow);
    let (m, kind) = gen::valid_msg(rng, s, n);
    let spec = s.fields();
    ctx.count(&format!("kind {kind}"));
    let Verdict::Valid(want) = verdict(&m, &spec) else {
        ctx.fail(format!("harness: generator made an invalid message {}", show_msg(&m)));
        return;
    };
    if m.dimensions.height > 1 && n > 0 {
        ctx.count("organised clouds");
    }
    check_values(ctx, rng, s, &m, &want, kind);
    if n > 0 {
        ctx.nontrivial(case_hash(5, s, &m));
        ctx.add("field values compared", (n * spec.len()) as u64);
    }
    if ctx.case % 997 == 5 {
        ctx.sample(|| format!("{} <- {kind}: {}", s.name(), show_msg(&m)));
    }
}

pub fn check_values(ctx: &mut Ctx, rng: &mut Rng, s: &dyn Ops, m: &PointCloud2Msg, want: &[Vals], tag: &str) {
    let spec = s.fields();
    for r in readers(ctx, rng) {
        ctx.evaluations += 1;
        let m2 = clone_exact(m);
        let bad = match guard(|| s.read(r, m2)) {
            Err(p) => Some(format!("panicked: {p}")),
            Ok(Err(e)) => Some(format!("was rejected: {e:?}")),
            Ok(Ok(v)) => same_vals(want, &v, &spec),
        };
        if let Some(b) = bad {
            ctx.fail(format!("{r:?} of {} ({tag}): {b}; {}", s.name(), show_msg(m)));
            return;
        }
    }
}

pub fn c06(ctx: &mut Ctx, rng: &mut Rng) {
    if crate::props::wide::wide(ctx, rng) {
        return;
    }
    crate::props::giant::read(ctx, READERS, READERS.len());
    if rng.chance(1, 4) {
        return c06_write(ctx, rng);
    }
    let s = subject(rng);
    let (m, tag) = any_msg(ctx, rng, s, 55);
    let spec = s.fields();
    let mut first: Option<(Reader, Result<Vec<Vals>, String>)> = None;
    for r in READERS {
        ctx.evaluations += 1;
        let m2 = clone_exact(&m);
        let got = match guard(|| s.read(*r, m2)) {
            Err(p) => {
                ctx.fail(format!("{r:?} of {} panicked instead of agreeing: {p}; {tag}; {}", s.name(), show_msg(&m)));
                return;
            }
            Ok(x) => x.map_err(|e| err_kind(&e)),
        };
        if let Some((r0, w)) = &first {
            let diff = match (w, &got) {
                (Ok(a), Ok(b)) => same_vals(a, b, &spec),
                (Err(_), Err(_)) => None,
                (Ok(a), Err(e)) => Some(format!("{} points vs error {e}", a.len())),
                (Err(e), Ok(b)) => Some(format!("error {e} vs {} points", b.len())),
            };
            if let Some(d) = diff {
                ctx.fail(format!("{r0:?} and {r:?} of {} disagree: {d}; {tag}; {}", s.name(), show_msg(&m)));
                return;
            }
            ctx.count(if got.is_ok() { "pairs agreeing on points" } else { "pairs agreeing on an error" });
        } else {
            first = Some((*r, got));
        }
    }
    if !m.data.is_empty() || tag.contains('/') {
        ctx.nontrivial(case_hash(6, s, &m));
    }
    if ctx.case % 997 == 5 {
        ctx.sample(|| format!("{} <- {tag}: {}", s.name(), show_msg(&m)));
    }
}

fn c06_write(ctx: &mut Ctx, rng: &mut Rng) {
    let s = subject(rng);
    let spec = s.fields();
    let n = gen_len(rng, ctx.slow);
    let vals = gen_vals(rng, &spec, n);
    let mut vec_msg: Option<PointCloud2Msg> = None;
    for w in WRITERS {
        ctx.evaluations += 1;
        let pad = Pad::Junk(rng.next());
        let m = match guard(|| s.write(*w, &vals, pad)) {
            Ok(Ok(m)) => m,
            Ok(Err(e)) => {
                ctx.fail(format!("{w:?} of {n} {} failed: {e:?}", s.name()));
                return;
            }
            Err(p) => {
                ctx.fail(format!("{w:?} of {n} {} panicked: {p}", s.name()));
                return;
            }
        };
        match verdict(&m, &spec) {
            Verdict::Valid(v) => {
                if let Some(d) = same_vals(&vals, &v, &spec) {
                    ctx.fail(format!("{w:?} of {n} {}: decoding the message: {d}; {}", s.name(), show_msg(&m)));
                    return;
                }
            }
            o => {
                ctx.fail(format!("{w:?} of {n} {}: message is not valid: {}; {}", s.name(), o.tag(), show_msg(&m)));
                return;
            }
        }
        match w {
            Writer::Vec => vec_msg = Some(m),
            Writer::Par | Writer::ParFilter | Writer::ParSkew => {
                if let Some(v) = &vec_msg {
                    ctx.count("parallel and vector messages compared");
                    if let Some(d) = msg_diff(v, &m) {
                        ctx.fail(format!("{w:?} and Vec of {n} {} write different messages: {d}", s.name()));
                        return;
                    }
                }
            }
            _ => {}
        }
        ctx.count("write conversions compared");
    }
    if n > 0 {
        let mut h = Hasher::new();
        h.u(66).b(s.name().as_bytes());
        hash_vals(&mut h, &vals, &spec);
        ctx.nontrivial(h.0);
    }
}

pub fn c07(ctx: &mut Ctx, rng: &mut Rng) {
    if crate::props::wide::wide(ctx, rng) {
        return;
    }
    let s = subject(rng);
    let (m, tag) = any_msg(ctx, rng, s, 85);
    let spec = s.fields();
    let f = faults(&m, &spec);
    let v = verdict(&m, &spec);
    ctx.count(&format!("verdict {}", v.tag()));
    for r in READERS {
        ctx.evaluations += 1;
        let m2 = clone_exact(&m);
        let got = match guard(|| s.read(*r, m2)) {
            Err(p) => {
                if matches!(v, Verdict::Unspecified(_)) {
                    continue;
                }
                ctx.fail(format!("{r:?} of {} panicked ({}): {p}; {tag}; {}", s.name(), v.tag(), show_msg(&m)));
                return;
            }
            Ok(x) => x,
        };
        match (&v, got) {
            (Verdict::Unspecified(_), _) => {}
            (Verdict::Valid(_), Err(e)) => {
                ctx.fail(format!("{r:?} of {} rejected a valid message with {e:?}; {tag}; {}", s.name(), show_msg(&m)));
                return;
            }
            (Verdict::Valid(want), Ok(g)) => {
                if g.len() != want.len() {
                    ctx.fail(format!("{r:?} of {} gave {} points instead of {}; {tag}; {}", s.name(), g.len(), want.len(), show_msg(&m)));
                    return;
                }
            }
            (Verdict::Invalid(why), Ok(g)) => {
                ctx.fail(format!("{r:?} of {} accepted an unusable message ({why}) with {} points; {tag}; {}", s.name(), g.len(), show_msg(&m)));
                return;
            }
            (Verdict::Invalid(_), Err(e)) => {
                let per_field = *r != Reader::Vec;
                if per_field && !f.missing.is_empty() && f.other.is_none() && f.unspecified.is_none() {
                    match e {
                        MsgConversionError::FieldsNotFound(mut names) => {
                            names.sort();
                            let mut want: Vec<&str> = f.missing.clone();
                            want.sort();
                            if names.iter().map(|x| x.as_str()).collect::<Vec<_>>() != want {
                                ctx.fail(format!("{r:?} of {}: error names {names:?} but {want:?} are missing; {}", s.name(), show_msg(&m)));
                                return;
                            }
                            ctx.count("missing-field errors with exact names");
                        }
                        e => {
                            ctx.fail(format!("{r:?} of {}: fields {:?} are missing but the error is {e:?}; {}", s.name(), f.missing, show_msg(&m)));
                            return;
                        }
                    }
                }
            }
        }
    }
    if !matches!(v, Verdict::Unspecified(_)) {
        ctx.nontrivial(case_hash(7, s, &m));
    }
    if ctx.case % 997 == 5 {
        ctx.sample(|| format!("{} <- {tag}: {} -> {}", s.name(), show_msg(&m), v.tag()));
    }
}
