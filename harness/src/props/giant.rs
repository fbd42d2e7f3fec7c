//! Clouds of millions of points and messages beyond 4 GiB. Nothing is stored about them: every value is a formula of
//! (seed, point, member), so that the oracle costs as little memory as the code under observation.
use crate::model::*;
use crate::mon::{guard, Ctx, Hasher};
use crate::rng::{mix, Rng};
use crate::subjects::*;
use ros_pointcloud2::iterator::PointCloudIterator;
#[cfg(feature = "par")]
use rayon::prelude::*;
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::{CloudDimensions, Denseness, Endian};

type Msg = PointCloud2Msg;
type E = MsgConversionError;

/// Bits of member `k` of point `i`.
fn bits(seed: u64, i: usize, k: usize, ty: Ty) -> u64 {
    mix(seed.wrapping_add((i as u64) << 5).wrapping_add(k as u64)) & ty.mask()
}
fn vals_at(seed: u64, i: usize, spec: &[FieldSpec]) -> Vals {
    let mut v = [0u64; MAXF];
    for (k, f) in spec.iter().enumerate() {
        v[k] = bits(seed, i, k, f.ty);
    }
    v
}

struct Check<'a> {
    seed: u64,
    spec: &'a [FieldSpec],
    seen: u64,
    bad: Option<String>,
}
impl Check<'_> {
    fn at(&mut self, i: usize, v: &Vals) {
        self.seen += 1;
        if self.bad.is_none() && !right(self.seed, self.spec, i, v) {
            let w = vals_at(self.seed, i, self.spec);
            self.bad = Some(format!("point {i} has the bits {:x?} instead of {:x?}", &v[..self.spec.len()], &w[..self.spec.len()]));
        }
    }
}
fn right(seed: u64, spec: &[FieldSpec], i: usize, v: &Vals) -> bool {
    spec.iter().enumerate().all(|(k, f)| v[k] == bits(seed, i, k, f.ty))
}

pub trait Giant: Ops {
    fn gwrite(&self, w: Writer, n: usize, seed: u64, pad: u8) -> Result<Msg, E>;
    /// reads everything, a complaint if something is wrong
    fn gread(&self, r: Reader, msg: Msg, n: usize, seed: u64) -> Result<Option<String>, E>;
    /// moves through the cloud in large steps
    fn gjump(&self, msg: Msg, n: usize, seed: u64, rng: &mut Rng) -> Result<Option<String>, E>;
    /// splits and parallel adaptors at far positions
    fn gsplit(&self, msg: Msg, n: usize, seed: u64, rng: &mut Rng) -> Result<Option<String>, E>;
}

fn gap(rng: &mut Rng, n: usize) -> usize {
    match rng.below(8) {
        0 => 0,
        1 => *rng.pick(&[255usize, 256, 65_534, 65_535, 65_536, 65_537]),
        2 => *rng.pick(&[(1usize << 20) - 1, 1 << 20, (1 << 20) + 1]),
        3 => n / 2,
        4 => rng.idx(n / 16 + 1),
        5 => rng.idx(n / 4 + 1),
        _ => rng.idx(100_000),
    }
}

impl<const N: usize, C: Subj<N>> Giant for Holder<N, C> {
    fn gwrite(&self, w: Writer, n: usize, seed: u64, pad: u8) -> Result<Msg, E> {
        let spec = C::fields();
        let mut pts: Vec<C> = Vec::with_capacity(n);
        unsafe {
            let p = pts.as_mut_ptr();
            core::ptr::write_bytes(p.cast::<u8>(), pad, n * core::mem::size_of::<C>());
            for i in 0..n {
                C::put(p.add(i), &vals_at(seed, i, &spec));
            }
            pts.set_len(n);
        }
        match w {
            Writer::Iter => Msg::try_from_iter(pts),
            Writer::IterLazy => {
                let mut it = pts.into_iter();
                Msg::try_from_iter(std::iter::from_fn(move || it.next()))
            }
            #[cfg(feature = "par")]
            Writer::Par => Msg::try_from_par_iter(pts.into_par_iter()),
            #[cfg(feature = "par")]
            Writer::ParFilter | Writer::ParSkew => Msg::try_from_par_iter(pts.into_par_iter().filter(|_| true)),
            _ => Msg::try_from_vec(pts),
        }
    }
    fn gread(&self, r: Reader, msg: Msg, n: usize, seed: u64) -> Result<Option<String>, E> {
        let spec = C::fields();
        let mut c = Check { seed, spec: &spec, seen: 0, bad: None };
        match r {
            Reader::Iter => {
                for (i, p) in msg.try_into_iter::<N, C>()?.enumerate() {
                    c.at(i, &p.get());
                    if i > n {
                        break;
                    }
                }
            }
            Reader::IterFold => {
                let mut i = 0;
                Iterator::for_each(PointCloudIterator::<N, C>::try_from(msg)?, |p| {
                    c.at(i, &p.get());
                    i += 1;
                });
            }
            #[cfg(feature = "par")]
            Reader::IterRev | Reader::IterBack => {
                let mut it = PointCloudIterator::<N, C>::try_from(msg)?;
                let (mut lo, mut hi, mut turn) = (0, n, 0u32);
                loop {
                    // runs from the back, every now and then some from the front
                    turn += 1;
                    let front = r == Reader::IterBack && turn % 4 == 0;
                    let Some(p) = (if front { it.next() } else { it.next_back() }) else { break };
                    if lo >= hi {
                        c.seen += 1;
                        break;
                    }
                    if front {
                        c.at(lo, &p.get());
                        lo += 1;
                    } else {
                        hi -= 1;
                        c.at(hi, &p.get());
                    }
                }
            }
            #[cfg(feature = "par")]
            Reader::Par => {
                let v: Vec<C> = msg.try_into_par_iter::<N, C>()?.collect();
                for (i, p) in v.iter().enumerate() {
                    c.at(i, &p.get());
                }
            }
            #[cfg(feature = "par")]
            Reader::ParIndexed => {
                let it = PointCloudIterator::<N, C>::try_from(msg)?;
                let (seen, bad) = ParallelIterator::map(IndexedParallelIterator::enumerate(it), |(i, p): (usize, C)| {
                    (1u64, if right(seed, &spec, i, &p.get()) { usize::MAX } else { i })
                })
                .reduce(|| (0, usize::MAX), |a, b| (a.0 + b.0, a.1.min(b.1)));
                c.seen = seen;
                if bad != usize::MAX {
                    c.bad = Some(format!("point {bad} has other values"));
                }
            }
            #[allow(unreachable_patterns)]
            _ => {
                for (i, p) in msg.try_into_vec::<N, C>()?.iter().enumerate() {
                    c.at(i, &p.get());
                }
            }
        }
        if c.bad.is_none() && c.seen != n as u64 {
            c.bad = Some(format!("{} points come out", c.seen));
        }
        Ok(c.bad)
    }
    fn gjump(&self, msg: Msg, n: usize, seed: u64, rng: &mut Rng) -> Result<Option<String>, E> {
        let spec = C::fields();
        let mut it = PointCloudIterator::<N, C>::try_from(msg)?;
        let (mut lo, mut hi) = (0usize, n);
        for step in 0..200 {
            if it.size_hint() != (hi - lo, Some(hi - lo)) {
                return Ok(Some(format!("size_hint is {:?} with points {lo}..{hi} left", it.size_hint())));
            }
            let g = gap(rng, hi - lo);
            let back = cfg!(feature = "par") && rng.chance(1, 3);
            let want = if g >= hi - lo { None } else { Some(if back { hi - 1 - g } else { lo + g }) };
            #[cfg(feature = "par")]
            let got = if back { it.nth_back(g) } else { it.nth(g) };
            #[cfg(not(feature = "par"))]
            let got = it.nth(g);
            match (want, &got) {
                (None, None) => {
                    lo = hi;
                }
                (Some(w), Some(p)) if right(seed, &spec, w, &p.get()) => {
                    if back {
                        hi = w;
                    } else {
                        lo = w + 1;
                    }
                }
                _ => {
                    return Ok(Some(format!(
                        "step {step}: nth{}({g}) with points {lo}..{hi} left of {n} yields {:x?} instead of point {want:?}",
                        if back { "_back" } else { "" },
                        got.map(|p| p.get()[..spec.len()].to_vec())
                    )))
                }
            }
            if lo >= hi {
                break;
            }
        }
        // the tail in one go
        let mut c = Check { seed, spec: &spec, seen: 0, bad: None };
        let (k, s) = (gap(rng, hi - lo), 1 + rng.idx(70_000));
        for (j, p) in Iterator::step_by(Iterator::skip(it, k), s).enumerate() {
            c.at(lo + k + j * s, &p.get());
        }
        let want = (hi - lo).saturating_sub(k).div_ceil(s) as u64;
        if c.bad.is_none() && c.seen != want {
            c.bad = Some(format!("skip({k}).step_by({s}) over points {lo}..{hi} yields {} points instead of {want}", c.seen));
        }
        Ok(c.bad)
    }
    fn gsplit(&self, msg: Msg, n: usize, seed: u64, rng: &mut Rng) -> Result<Option<String>, E> {
        let spec = C::fields();
        let it = PointCloudIterator::<N, C>::try_from(msg)?;
        // (first point, points, iterator)
        let mut parts = vec![(0usize, n, it)];
        for _ in 0..3 + rng.idx(5) {
            let i = rng.idx(parts.len());
            let (at, len, mut it) = parts.remove(i);
            let (mut at, mut len) = (at, len);
            if rng.chance(1, 3) {
                let g = gap(rng, len);
                let got = it.nth(g).map(|p| p.get());
                if got.is_some() != (g < len) || got.as_ref().is_some_and(|v| !right(seed, &spec, at + g, v)) {
                    return Ok(Some(format!("nth({g}) of the part of points {at}..{} yields {got:x?}", at + len)));
                }
                let used = (g + 1).min(len);
                (at, len) = (at + used, len - used);
            }
            let cut = gap(rng, len).min(len);
            let (a, b) = it.split_at(cut);
            parts.insert(i, (at + cut, len - cut, b));
            parts.insert(i, (at, cut, a));
        }
        let mut told = None;
        for (at, len, it) in parts {
            if it.size_hint() != (len, Some(len)) {
                return Ok(Some(format!("size_hint of the part of points {at}..{} is {:?}", at + len, it.size_hint())));
            }
            let mut c = Check { seed, spec: &spec, seen: 0, bad: None };
            #[allow(unused_mut)]
            let mut want = len as u64;
            let kind = if cfg!(feature = "par") { rng.below(6) } else { 0 };
            match kind {
                0 => Iterator::for_each(Iterator::enumerate(it), |(j, p)| c.at(at + j, &p.get())),
                #[cfg(feature = "par")]
                1 => {
                    let got: Vec<(usize, Vals)> = ParallelIterator::map(
                        IndexedParallelIterator::step_by(IndexedParallelIterator::enumerate(it), 4099),
                        |(j, p): (usize, C)| (j, p.get()),
                    )
                    .collect();
                    want = len.div_ceil(4099) as u64;
                    got.iter().for_each(|(j, v)| c.at(at + j, v));
                }
                #[cfg(feature = "par")]
                2 => {
                    let got: Vec<C> = IndexedParallelIterator::rev(it).collect();
                    got.iter().rev().enumerate().for_each(|(j, p)| c.at(at + j, &p.get()));
                }
                #[cfg(feature = "par")]
                3 => {
                    let k = gap(rng, len);
                    let got: Vec<C> = IndexedParallelIterator::skip(it, k).with_min_len(70_000).collect();
                    want = len.saturating_sub(k) as u64;
                    got.iter().enumerate().for_each(|(j, p)| c.at(at + k + j, &p.get()));
                }
                #[cfg(feature = "par")]
                4 => {
                    let got: Vec<Vec<C>> = IndexedParallelIterator::chunks(it, 65_537).collect();
                    let mut j = at;
                    for p in got.iter().flatten() {
                        c.at(j, &p.get());
                        j += 1;
                    }
                }
                #[cfg(feature = "par")]
                5 => {
                    let last = ParallelIterator::find_last(it, |_| true);
                    want = u64::from(len > 0);
                    if let Some(p) = last {
                        c.at((at + len).wrapping_sub(1), &p.get());
                    }
                }
                _ => {}
            }
            if c.bad.is_none() && c.seen != want {
                c.bad = Some(format!("{} points come out instead of {want}", c.seen));
            }
            if let Some(b) = c.bad {
                told = Some(format!("the part of points {at}..{}, consumed in manner {kind}: {b}", at + len));
                break;
            }
        }
        Ok(told)
    }
}

/// A message of an arbitrary producer: members in any order, gaps, other fields, any byte order, several rows.
/// Only the needed members are written; the rest stays zero (and, beyond 4 GiB, mostly untouched).
fn foreign(rng: &mut Rng, spec: &[FieldSpec], w: u32, h: u32, min_step: usize, seed: u64) -> Msg {
    let mut order: Vec<usize> = (0..spec.len()).collect();
    rng.shuffle(&mut order);
    let (mut fields, mut at) = (vec![], rng.idx(4));
    let mut offs = vec![0; spec.len()];
    for k in order {
        if min_step > 0 {
            at += rng.idx(min_step / (2 * spec.len()));
        }
        offs[k] = at;
        fields.push(PointFieldMsg { name: spec[k].name.into(), offset: at as u32, datatype: spec[k].ty.code(), count: 1 });
        at += spec[k].ty.size() + rng.idx(4);
    }
    fields.push(PointFieldMsg { name: "other".into(), offset: 0, datatype: 2, count: 1 });
    rng.shuffle(&mut fields);
    let step = at.max(min_step);
    let n = w as usize * h as usize;
    let big = rng.chance(1, 2);
    let mut data = vec![0u8; n * step];
    for i in 0..n {
        for (k, f) in spec.iter().enumerate() {
            put_bits(&mut data[i * step + offs[k]..], f.ty.size(), big, bits(seed, i, k, f.ty));
        }
    }
    Msg {
        header: gen_header(rng),
        dimensions: CloudDimensions { width: w, height: h },
        fields,
        endian: if big { Endian::Big } else { Endian::Little },
        point_step: step as u32,
        row_step: (w as usize * step) as u32,
        data,
        dense: Denseness::Dense,
    }
}

struct Plan {
    s: &'static dyn Giant,
    w: u32,
    h: u32,
}
impl Plan {
    fn n(&self) -> usize {
        self.w as usize * self.h as usize
    }
}

/// Which cases of a shard look at a giant cloud, and at which one.
fn plan(ctx: &Ctx) -> Option<(Plan, Rng)> {
    if !ctx.giant {
        return None;
    }
    let mut rng = Rng::for_case(ctx.seed, "giant", ctx.case);
    let all = giants();
    let kind = match ctx.case {
        3 => 0,
        12 => 1,
        21 => 2,
        c if ctx.thorough && c % 9973 == 4 => 3,
        _ => return None,
    };
    let (s, w, h) = match kind {
        // more points than a 24 bit mantissa counts
        0 if !cfg!(debug_assertions) => (all[0], (1 << 24) + 1 + rng.idx(1000) as u32, 1),
        0 => (all[0], (1 << 20) + 1 + rng.idx(1000) as u32, 1),
        1 => (all[1], 65_537 + rng.idx(9) as u32, 16 + rng.idx(3) as u32),
        2 => (all[2 + rng.idx(all.len() - 2)], 1 + rng.idx(3) as u32, 400_000 + rng.idx(1000) as u32),
        _ => (all[rng.idx(all.len())], 1 + rng.idx(300_000) as u32, 1 + rng.idx(8) as u32),
    };
    Some((Plan { s, w, h }, rng))
}

fn verdict(ctx: &mut Ctx, what: &str, p: &Plan, r: Result<Result<Option<String>, E>, String>) -> bool {
    ctx.evaluations += 1;
    let n = p.n();
    let bad = match r {
        Err(x) => format!("panicked: {x}"),
        Ok(Err(e)) => format!("was rejected: {e:?}"),
        Ok(Ok(Some(b))) => b,
        Ok(Ok(None)) => {
            ctx.count(&format!("giant clouds: {what}"));
            ctx.add("giant clouds: points", n as u64);
            let mut h = Hasher::new();
            h.u(0x61A27).u(n as u64).u(ctx.evaluations).b(what.as_bytes());
            ctx.nontrivial(h.0);
            return true;
        }
    };
    ctx.fail(format!("{} in a cloud of {} x {} = {n} points of {}: {bad}", what, p.w, p.h, p.s.name()));
    false
}

fn some<T: Copy>(rng: &mut Rng, all: &[T], k: usize) -> Vec<T> {
    let mut v = all.to_vec();
    rng.shuffle(&mut v);
    v.truncate(k);
    v
}

/// C03 / C04: what the writers make of a giant cloud.
pub fn write(ctx: &mut Ctx, layout: bool) {
    let Some((p, mut rng)) = plan(ctx) else { return };
    let (n, spec) = (p.n(), p.s.fields());
    for w in some(&mut rng, WRITERS, 4) {
        if w == Writer::ParSkew {
            continue;
        }
        let (seed, pad) = (rng.next(), rng.next() as u8);
        let m = match guard(|| p.s.gwrite(w, n, seed, pad)) {
            Ok(Ok(m)) => m,
            Ok(Err(e)) => return ctx.fail(format!("{w:?} of {n} {}: {e:?}", p.s.name())),
            Err(e) => return ctx.fail(format!("{w:?} of {n} {} panicked: {e}", p.s.name())),
        };
        if layout {
            let r = written_ok(&m, &spec, n).err().or_else(|| sample(&m, &spec, seed));
            if !verdict(ctx, &format!("written by {w:?}"), &p, Ok(Ok(r))) {
                return;
            }
        } else {
            for r in some(&mut rng, READERS, 2) {
                let m2 = clone_exact(&m);
                if !verdict(ctx, &format!("{w:?} -> {r:?}"), &p, guard(|| p.s.gread(r, m2, n, seed))) {
                    return;
                }
            }
        }
    }
}

/// An independent look at every point of a written message.
fn sample(m: &Msg, spec: &[FieldSpec], seed: u64) -> Option<String> {
    let step = m.point_step as usize;
    let big = m.endian == Endian::Big;
    for (k, f) in spec.iter().enumerate() {
        let off = m.fields.iter().find(|g| g.name == f.name)?.offset as usize;
        for i in 0..npoints(m) as usize {
            if get_bits(&m.data[i * step + off..], f.ty.size(), big) != bits(seed, i, k, f.ty) {
                return Some(format!("an independent decoder sees another {:?} in point {i}", f.name));
            }
        }
    }
    None
}

/// C05 / C06: readers on messages of other producers.
pub fn read(ctx: &mut Ctx, readers: &[Reader], k: usize) {
    let Some((p, mut rng)) = plan(ctx) else { return };
    let spec = p.s.fields();
    let seed = rng.next();
    let m = foreign(&mut rng, &spec, p.w, p.h, 0, seed);
    for r in some(&mut rng, readers, k) {
        let m2 = clone_exact(&m);
        if !verdict(ctx, &format!("read by {r:?}"), &p, guard(|| p.s.gread(r, m2, p.n(), seed))) {
            return;
        }
    }
}

pub fn jump(ctx: &mut Ctx) {
    let Some((p, mut rng)) = plan(ctx) else { return };
    let seed = rng.next();
    let m = foreign(&mut rng, &p.s.fields(), p.w, p.h, 0, seed);
    for _ in 0..4 {
        let m2 = clone_exact(&m);
        if !verdict(ctx, "jumps", &p, guard(|| p.s.gjump(m2, p.n(), seed, &mut rng))) {
            return;
        }
    }
}

pub fn split(ctx: &mut Ctx) {
    let Some((p, mut rng)) = plan(ctx) else { return };
    let seed = rng.next();
    let m = foreign(&mut rng, &p.s.fields(), p.w, p.h, 0, seed);
    for _ in 0..4 {
        let m2 = clone_exact(&m);
        if !verdict(ctx, "splits", &p, guard(|| p.s.gsplit(m2, p.n(), seed, &mut rng))) {
            return;
        }
    }
}

fn available_gib() -> u64 {
    let s = std::fs::read_to_string("/proc/meminfo").unwrap_or_default();
    s.lines()
        .find_map(|l| l.strip_prefix("MemAvailable:"))
        .and_then(|l| l.trim().split(' ').next()?.parse::<u64>().ok())
        .map_or(0, |kib| kib >> 20)
}

/// C05: a message of more than 4 GiB, so that byte positions no longer fit 32 bits. (Few large strides, so that the
/// number of points stays small.)
pub fn beyond_4gib(ctx: &mut Ctx) {
    if !ctx.giant || ctx.case != 5 || (cfg!(debug_assertions) && cfg!(feature = "par")) || usize::BITS < 64 {
        return;
    }
    if available_gib() < 14 {
        return ctx.count("giant clouds: no memory for a message beyond 4 GiB");
    }
    let mut rng = Rng::for_case(ctx.seed, "beyond", 0);
    let p = Plan { s: giants()[2], w: 1000, h: 70 };
    let spec = p.s.fields();
    // the parallel build copies the data into shared memory: one reader there
    let (a, b): (&[Reader], usize) = if cfg!(feature = "par") { (&[Reader::ParIndexed], 1) } else { (&[Reader::Iter, Reader::Vec, Reader::IterFold], 2) };
    crate::mon::alloc_limit(u64::MAX);
    crate::mon::runaway_limit(u64::MAX);
    for r in some(&mut rng, a, b) {
        let seed = rng.next();
        let m = foreign(&mut rng, &spec, p.w, p.h, 65_536, seed);
        assert!(m.data.len() > 1 << 32);
        if !verdict(ctx, &format!("more than 4 GiB read by {r:?}"), &p, guard(move || p_read(r, m, seed))) {
            return;
        }
    }
    crate::mon::alloc_limit(3 << 30);
}
fn p_read(r: Reader, m: Msg, seed: u64) -> Result<Option<String>, E> {
    giants()[2].gread(r, m, 70_000, seed)
}

/// C03: the largest clouds of the message format, to the byte and the point.
pub fn at_the_limit(ctx: &mut Ctx) {
    if !ctx.giant || ctx.case != 30 || cfg!(debug_assertions) || usize::BITS < 64 {
        return;
    }
    if available_gib() < 14 {
        return ctx.count("giant clouds: no memory for the largest cloud");
    }
    crate::mon::alloc_limit(u64::MAX);
    crate::mon::runaway_limit(u64::MAX);
    let mut rng = Rng::for_case(ctx.seed, "limit", 0);
    let thorough = ctx.thorough;
    let r = guard(|| -> Result<(), String> {
        limit_vec::<1, OneByte>(&mut rng)?;
        crate::driver::alive();
        if thorough {
            limit_vec::<8, PackedAll>(&mut rng)?;
            crate::driver::alive();
        }
        limit_iter(&mut rng)
    });
    match r {
        Ok(Ok(())) => ctx.add("giant clouds: the largest that fit the message", 2 + u64::from(thorough)),
        Ok(Err(e)) => ctx.fail(e),
        Err(p) => ctx.fail(format!("the largest cloud: panic {p}")),
    }
    ctx.evaluations += 3;
    crate::mon::alloc_limit(3 << 30);
}
fn limit_vec<const N: usize, C: Subj<N>>(rng: &mut Rng) -> Result<(), String> {
    let (spec, size) = (C::fields(), core::mem::size_of::<C>());
    let n = u32::MAX as usize / size;
    // untouched pages of zeros, but for some points
    let mut v = crate::props::build::zeroed::<N, C>(n);
    let mut at: Vec<usize> = (0..200).map(|_| rng.idx(n)).chain([0, 1, n - 1, n - 2, n / 2, (1usize << 31) / size, (1usize << 31) / size + 1]).collect();
    at.sort();
    at.dedup();
    for i in &at {
        unsafe { C::put(&mut v[*i], &vals_at(1, *i, &spec)) };
    }
    let what = format!("a vector of {n} {} ({} bytes)", C::NAME, n * size);
    let m = Msg::try_from_vec(v).map_err(|e| format!("{what} is rejected: {e:?}"))?;
    let (w, h) = (m.dimensions.width as u64, m.dimensions.height);
    if w != n as u64 || h != 1 || m.row_step as u64 != w * m.point_step as u64 || m.data.len() as u64 != m.row_step as u64 {
        return Err(format!("{what}: width {w}, height {h}, stride {}, row {}, {} bytes", m.point_step, m.row_step, m.data.len()));
    }
    let g: Vec<C> = m.try_into_vec().map_err(|e| format!("{what} does not come back: {e:?}"))?;
    if g.len() != n {
        return Err(format!("{what}: {} points come back", g.len()));
    }
    for i in &at {
        if !right(1, &spec, *i, &g[*i].get()) {
            return Err(format!("{what}: point {i} comes back as {:x?}", &g[*i].get()[..spec.len()]));
        }
    }
    for k in 0..1_000_000 {
        let i = if k < 1000 { n - 1 - k } else { rng.idx(n) };
        if at.binary_search(&i).is_err() && g[i].get() != [0u64; MAXF] {
            return Err(format!("{what}: point {i} of zeros comes back as {:x?}", &g[i].get()[..spec.len()]));
        }
    }
    Ok(())
}
fn limit_iter(rng: &mut Rng) -> Result<(), String> {
    let n = u32::MAX as usize / 24;
    let f = |i: usize| DoubleXYZ { x: i as f64, y: -(i as f64), z: 0.5 * i as f64 };
    let what = format!("an iterator of {n} DoubleXYZ");
    let m = Msg::try_from_iter((0..n).map(f)).map_err(|e| format!("{what} is rejected: {e:?}"))?;
    if m.dimensions.width as usize != n || m.data.len() != n * 24 || m.row_step as usize != n * 24 {
        return Err(format!("{what}: width {}, stride {}, row {}, {} bytes", m.dimensions.width, m.point_step, m.row_step, m.data.len()));
    }
    let jump = rng.idx(n - 1000);
    let it: PointCloudIterator<3, DoubleXYZ> = m.try_into().map_err(|e| format!("{what} does not come back: {e:?}"))?;
    if Iterator::size_hint(&it).0 != n {
        return Err(format!("{what}: {} points come back", Iterator::size_hint(&it).0));
    }
    let ends: Vec<usize> = (jump..jump + 500).chain(n - 500..n).collect();
    let mut it = Iterator::skip(it, jump);
    for (k, i) in ends.iter().enumerate() {
        let p = if k == 500 { it.nth(n - 500 - (jump + 500)) } else { it.next() };
        let w = f(*i);
        match p {
            Some(p) if p.x == w.x && p.y == w.y && p.z == w.z => {}
            p => return Err(format!("{what}: point {i} comes back as {:?}", p.map(|p| (p.x, p.y, p.z)))),
        }
    }
    if it.next().is_some() {
        return Err(format!("{what}: more points come back"));
    }
    Ok(())
}

/// C12: what lies between the members of the source never shows, however many points there are.
pub fn stable(ctx: &mut Ctx) {
    let Some((mut p, mut rng)) = plan(ctx) else { return };
    if ctx.case == 12 {
        p.s = giants()[3];
    }
    let (seed, pad) = (rng.next(), rng.next() as u8);
    let w = Writer::Vec;
    let mut first: Option<Msg> = None;
    for pad in [pad, !pad] {
        let m = match guard(|| p.s.gwrite(w, p.n(), seed, pad)) {
            Ok(Ok(m)) => m,
            Ok(Err(e)) => return ctx.fail(format!("{w:?} of {} {}: {e:?}", p.n(), p.s.name())),
            Err(e) => return ctx.fail(format!("{w:?} of {} {} panicked: {e}", p.n(), p.s.name())),
        };
        let r = match &first {
            Some(a) => msg_diff(a, &m).map(|d| format!("depends on the padding of the source: {d}")),
            None => None,
        };
        if !verdict(ctx, "padding", &p, Ok(Ok(r))) {
            return;
        }
        first.get_or_insert(m);
    }
}
