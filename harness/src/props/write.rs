//! C03 round trips, C04 written messages.
use crate::model::*;
use crate::mon::{guard, Ctx, Hasher};
use crate::props::read::subject;
use crate::rng::Rng;
use crate::subjects::*;

pub fn pad(rng: &mut Rng) -> Pad {
    match rng.below(4) {
        0 => Pad::Fill(0),
        1 => Pad::Fill(0xFF),
        2 => Pad::Uninit,
        _ => Pad::Junk(rng.next()),
    }
}

pub fn c03(ctx: &mut Ctx, rng: &mut Rng) {
    if crate::props::wide::wide(ctx, rng) {
        return;
    }
    crate::props::giant::write(ctx, false);
    crate::props::giant::at_the_limit(ctx);
    let s = subject(rng);
    c03_on(ctx, rng, s)
}
pub fn c03_on(ctx: &mut Ctx, rng: &mut Rng, s: &dyn Ops) {
    let n = gen_len(rng, ctx.slow);
    let spec = s.fields();
    let vals = gen_vals(rng, &spec, n);
    let ws: Vec<Writer> = if n > 3000 || ctx.slow { vec![*rng.pick(WRITERS), Writer::Vec] } else { WRITERS.to_vec() };
    for w in ws {
        let p = if cfg!(miri) { Pad::Junk(rng.next()) } else { pad(rng) };
        let m = match guard(|| s.write(w, &vals, p)) {
            Ok(Ok(m)) => m,
            Ok(Err(e)) => {
                ctx.fail(format!("{w:?} of {n} {} failed: {e:?}", s.name()));
                return;
            }
            Err(e) => {
                ctx.fail(format!("{w:?} of {n} {} panicked: {e}", s.name()));
                return;
            }
        };
        let rs: Vec<Reader> = if ctx.slow { vec![*rng.pick(READERS), Reader::Vec] } else { READERS.to_vec() };
        for r in rs {
            ctx.evaluations += 1;
            let m2 = clone_exact(&m);
            let bad = match guard(|| s.read(r, m2)) {
                Err(p) => Some(format!("panicked: {p}")),
                Ok(Err(e)) => Some(format!("was rejected: {e:?}")),
                Ok(Ok(v)) => same_vals(&vals, &v, &spec),
            };
            if let Some(b) = bad {
                ctx.fail(format!("{} written with {w:?} ({p:?}) and read with {r:?}: {b}; {}", s.name(), show_msg(&m)));
                return;
            }
            ctx.count(&format!("{w:?} -> {r:?}"));
        }
    }
    ctx.add("points round-tripped", n as u64);
    if n == 0 {
        ctx.count("empty clouds");
    }
    let mut h = Hasher::new();
    h.u(3).b(s.name().as_bytes());
    hash_vals(&mut h, &vals, &spec);
    if n > 0 {
        ctx.nontrivial(h.0);
    }
    if ctx.case % 997 == 5 {
        ctx.sample(|| format!("{} x {n}, first point bits {:x?}", s.name(), vals.first().map(|v| v[..spec.len()].to_vec())));
    }
}

pub fn c04(ctx: &mut Ctx, rng: &mut Rng) {
    if crate::props::wide::wide(ctx, rng) {
        return;
    }
    crate::props::giant::write(ctx, true);
    let s = subject(rng);
    c04_on(ctx, rng, s)
}
pub fn c04_on(ctx: &mut Ctx, rng: &mut Rng, s: &dyn Ops) {
    let n = gen_len(rng, ctx.slow);
    let spec = s.fields();
    let vals = gen_vals(rng, &spec, n);
    for w in WRITERS {
        if n > 3000 && rng.chance(1, 2) {
            continue;
        }
        ctx.evaluations += 1;
        let p = Pad::Junk(rng.next());
        let m = match guard(|| s.write(*w, &vals, p)) {
            Ok(Ok(m)) => m,
            Ok(Err(e)) => {
                ctx.fail(format!("{w:?} of {n} {} failed: {e:?}", s.name()));
                return;
            }
            Err(e) => {
                ctx.fail(format!("{w:?} of {n} {} panicked: {e}", s.name()));
                return;
            }
        };
        if let Err(e) = written_ok(&m, &spec, n) {
            ctx.fail(format!("{w:?} of {n} {}: {e}; {}", s.name(), show_msg(&m)));
            return;
        }
        if let Verdict::Valid(v) = verdict(&m, &spec) {
            if let Some(d) = same_vals(&vals, &v, &spec) {
                ctx.fail(format!("{w:?} of {n} {}: an independent decoder sees other values: {d}; {}", s.name(), show_msg(&m)));
                return;
            }
        } else {
            ctx.fail(format!("{w:?} of {n} {}: message is not valid; {}", s.name(), show_msg(&m)));
            return;
        }
        ctx.count(&format!("messages by {w:?}"));
        if ctx.case % 499 == 5 {
            ctx.sample(|| format!("{w:?} of {n} {}: {}", s.name(), show_msg(&m)));
        }
    }
    ctx.add("field values decoded", (n * spec.len()) as u64);
    if n > 0 {
        let mut h = Hasher::new();
        h.u(4).b(s.name().as_bytes());
        hash_vals(&mut h, &vals, &spec);
        ctx.nontrivial(h.0);
    } else {
        ctx.count("empty clouds");
    }
}
