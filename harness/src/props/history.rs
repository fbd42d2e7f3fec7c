//! C24: conversions depend on nothing but their inputs. A case is a set of conversions with one expected outcome
//! each; they are executed again and again in other orders, on other threads, while others are in progress and
//! nested inside each other. The outcomes also enter a digest that is compared with a process in which the cases
//! ran in the opposite order.
use crate::gen;
use crate::model::*;
use crate::mon::{guard, Ctx, Hasher};
use crate::props::read::subject;
use crate::rng::Rng;
use crate::subjects::*;
use ros_pointcloud2::points::PointXYZI;
use ros_pointcloud2::prelude::*;
use std::cell::{Cell, RefCell};

#[derive(Clone)]
enum Item {
    Read(&'static dyn Ops, PointCloud2Msg, Reader),
    Write(&'static dyn Ops, Vec<Vals>, Writer),
}
/// (digest, what it was)
type Outcome = (u64, String);

fn error_text(e: MsgConversionError) -> String {
    match e {
        MsgConversionError::FieldsNotFound(mut n) => {
            n.sort();
            format!("FieldsNotFound({n:?})")
        }
        e => format!("{e:?}"),
    }
}

impl Item {
    fn name(&self) -> String {
        match self {
            Item::Read(s, m, r) => format!("{r:?} of {} <- {}", s.name(), show_msg(m)),
            Item::Write(s, v, w) => format!("{w:?} of {} {}", v.len(), s.name()),
        }
    }
    fn run(&self, spare: usize) -> Outcome {
        let mut h = Hasher::new();
        match self {
            Item::Read(s, m, r) => {
                let mut m = clone_exact(m);
                if spare > 0 {
                    // the same message in another buffer
                    let mut d = Vec::with_capacity(m.data.len() + spare);
                    d.extend_from_slice(&m.data);
                    m.data = d;
                }
                match guard(|| s.read(*r, m)) {
                    Ok(Ok(v)) => {
                        hash_vals(&mut h, &v, &s.fields());
                        h.u(v.len() as u64);
                        (h.0, format!("{} points", v.len()))
                    }
                    Ok(Err(e)) => {
                        let t = error_text(e);
                        h.b(t.as_bytes());
                        (h.0, t)
                    }
                    Err(p) => (1, format!("panic {p}")),
                }
            }
            Item::Write(s, v, w) => match guard(|| s.write(*w, v, Pad::Fill(0))) {
                Ok(Ok(m)) => {
                    hash_msg(&mut h, &m);
                    (h.0, show_msg(&m))
                }
                Ok(Err(e)) => {
                    let t = error_text(e);
                    h.b(t.as_bytes());
                    (h.0, t)
                }
                Err(p) => (1, format!("panic {p}")),
            },
        }
    }
}

// ---------------------------------------------------------------- a point whose conversions convert clouds themselves

thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static INNER: RefCell<Option<(PointCloud2Msg, Vec<u64>)>> = const { RefCell::new(None) };
    static WRONG: RefCell<Option<String>> = const { RefCell::new(None) };
    static NESTED: Cell<u64> = const { Cell::new(0) };
}
fn inner(at: &str) {
    if DEPTH.with(|d| d.get()) > 0 {
        return;
    }
    DEPTH.with(|d| d.set(1));
    let m = INNER.with(|i| i.borrow().as_ref().map(|(m, w)| (clone_exact(m), w.clone())));
    if let Some((m, want)) = m {
        NESTED.with(|n| n.set(n.get() + 1));
        let check = |what: &str, got: Result<Vec<PointXYZI>, MsgConversionError>| {
            let bad = match got {
                Ok(v) if v.iter().flat_map(|p| [p.x, p.y, p.z, p.intensity].map(|f| f.to_bits() as u64)).eq(want.iter().copied()) => return,
                Ok(v) => format!("{} other points", v.len()),
                Err(e) => format!("{e:?}"),
            };
            WRONG.with(|w| *w.borrow_mut() = Some(format!("{what} inside {at}: {bad}")));
        };
        check("try_into_iter", m.clone().try_into_iter().map(|i| i.collect()));
        check("try_into_vec", m.clone().try_into_vec());
        let pts = m.try_into_vec::<4, PointXYZI>().unwrap_or_default();
        check("try_from_vec", PointCloud2Msg::try_from_vec(pts.clone()).and_then(|m| m.try_into_vec()));
        check("try_from_iter", PointCloud2Msg::try_from_iter(pts).and_then(|m| m.try_into_iter().map(|i| i.collect())));
    }
    DEPTH.with(|d| d.set(0));
}

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C)]
struct Reentrant {
    a: u32,
    b: u16,
}
impl Default for Reentrant {
    fn default() -> Self {
        inner("Default");
        Reentrant { a: 0, b: 0 }
    }
}
impl From<RPCL2Point<2>> for Reentrant {
    fn from(p: RPCL2Point<2>) -> Self {
        let a = p[0].get();
        inner("the conversion of a read point");
        Reentrant { a, b: p[1].get() }
    }
}
impl From<Reentrant> for RPCL2Point<2> {
    fn from(p: Reentrant) -> Self {
        inner("the conversion of a written point");
        [p.a.into(), p.b.into()].into()
    }
}
unsafe impl PointConvertible<2> for Reentrant {
    fn layout() -> LayoutDescription {
        LayoutDescription::new(&[LayoutField::new("a", "u32", 4), LayoutField::new("b", "u16", 2), LayoutField::padding(2)])
    }
}

fn reentrant(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let h = Holder::<4, PointXYZI>(std::marker::PhantomData);
    let k = rng.idx(4);
    let (m, _) = gen::valid_msg(rng, &h, k);
    let want: Vec<u64> = decode(&m, &h.fields()).iter().flat_map(|v| v[..4].to_vec()).collect();
    INNER.with(|i| *i.borrow_mut() = Some((m, want)));
    NESTED.with(|n| n.set(0));
    let n = rng.idx(if ctx.slow { 3 } else { 12 });
    let pts: Vec<Reentrant> = (0..n).map(|i| Reentrant { a: rng.next() as u32, b: i as u16 }).collect();
    let r = guard(|| -> Result<(), String> {
        let e = |e: MsgConversionError| format!("{e:?}");
        let a = PointCloud2Msg::try_from_iter(pts.clone()).map_err(e)?;
        let b = PointCloud2Msg::try_from_vec(pts.clone()).map_err(e)?;
        for (what, m) in [("try_from_iter", a), ("try_from_vec", b)] {
            let x: Vec<Reentrant> = m.clone().try_into_iter().map_err(e)?.collect();
            let y: Vec<Reentrant> = m.clone().try_into_vec().map_err(e)?;
            if x != pts || y != pts {
                return Err(format!("{n} points changed through {what}: {pts:?} became {x:?} and {y:?}"));
            }
            #[cfg(feature = "par")]
            {
                use rayon::prelude::*;
                let z: Vec<Reentrant> = crate::props::iter::pool(2).install(|| m.try_into_par_iter().map(|i| i.collect())).map_err(e)?;
                if z != pts {
                    return Err(format!("{n} points changed through {what} and try_into_par_iter"));
                }
            }
        }
        Ok(())
    });
    INNER.with(|i| *i.borrow_mut() = None);
    DEPTH.with(|d| d.set(0));
    ctx.add("conversions inside of a point's conversion", NESTED.with(|n| n.get()) * 4);
    if let Some(w) = WRONG.with(|w| w.borrow_mut().take()) {
        return Err(w);
    }
    match r {
        Ok(r) => r,
        Err(p) => Err(format!("conversions inside of a point's conversion: panic {p}")),
    }
}

// ---------------------------------------------------------------- the case

/// Conversions that do not come to an end. What they leave behind is of no interest to the following ones.
fn disturb(ctx: &mut Ctx, rng: &mut Rng, items: &[Item]) {
    for i in items {
        match i {
            Item::Write(s, v, _) if !v.is_empty() && v.len() < 3000 => {
                let at = rng.idx(v.len());
                let _ = guard(|| s.write_hooked(v, &mut |i| if i == at { panic!("the source gives up") }));
                ctx.count("conversions ended by a panic of the source");
            }
            Item::Read(s, m, _) if npoints(m) < 3000 => {
                if let Ok(Ok(mut st)) = guard(|| s.stepper(clone_exact(m), rng.chance(1, 2))) {
                    for _ in 0..rng.idx(5) {
                        st(false);
                    }
                    if rng.chance(1, 4) && m.data.len() < 4096 {
                        std::mem::forget(st);
                        ctx.count("forgotten iterators");
                    }
                }
                #[cfg(feature = "par")]
                if npoints(m) > 0 {
                    let (at, m2) = (rng.idx(npoints(m) as usize), clone_exact(m));
                    let _ = guard(|| crate::props::iter::pool(3).install(|| s.par_hooked(m2, &|i| if i == at { panic!("the closure gives up") })));
                    ctx.count("parallel conversions ended by a panic of the closure");
                }
            }
            _ => {}
        }
    }
}

/// Every item several times on several threads which start each round together. Returns what was observed.
fn together(ctx: &mut Ctx, rng: &mut Rng, items: &[Item]) -> Vec<(usize, Outcome)> {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    let threads = if ctx.slow { 2 } else { 2 + rng.idx(5) };
    let rounds = if ctx.slow { 1 } else { 2 + rng.idx(12) };
    let again = if ctx.slow { 1 } else { 1 + rng.idx(6) };
    let small: Vec<usize> = (0..items.len())
        .filter(|k| match &items[*k] {
            Item::Read(_, m, _) => npoints(m) < 200 && m.data.len() < 1 << 16,
            Item::Write(_, v, _) => v.len() < 200,
        })
        .collect();
    if small.is_empty() {
        return vec![];
    }
    let plans: Vec<Vec<usize>> = (0..threads).map(|_| (0..rounds).map(|_| *rng.pick(&small)).collect()).collect();
    let waiting = AtomicUsize::new(0);
    let (inside, most) = (AtomicUsize::new(0), AtomicUsize::new(0));
    let out: Vec<(usize, Outcome)> = std::thread::scope(|sc| {
        let hs: Vec<_> = plans
            .iter()
            .map(|plan| {
                let (waiting, inside, most) = (&waiting, &inside, &most);
                sc.spawn(move || {
                    let mut out = vec![];
                    for (round, k) in plan.iter().enumerate() {
                        waiting.fetch_add(1, SeqCst);
                        let mut turns = 0;
                        while waiting.load(SeqCst) < threads * (round + 1) {
                            // a short spin keeps the starts close together; the machine may be busy, though
                            turns += 1;
                            if turns > 200 || cfg!(miri) {
                                std::thread::yield_now();
                            }
                        }
                        most.fetch_max(inside.fetch_add(1, SeqCst) + 1, SeqCst);
                        for _ in 0..again {
                            out.push((*k, items[*k].run(0)));
                        }
                        inside.fetch_sub(1, SeqCst);
                    }
                    out
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect()
    });
    ctx.evaluations += out.len() as u64;
    ctx.add("conversions run at the same time as others", out.len() as u64);
    ctx.count(&format!("rounds with up to {} conversions at once", most.load(SeqCst)));
    if out.len() != threads * rounds * again {
        return vec![(small[0], (2, "a thread died".into()))];
    }
    out
}

/// What a long-running process converts over and over: one type of point, a valid message of it, messages that are
/// not acceptable, and how each of them was answered at first.
struct Diet {
    s: &'static dyn Ops,
    vals: Vec<Vals>,
    m: PointCloud2Msg,
    want: Vec<Vals>,
    broken: Vec<(PointCloud2Msg, Vec<Option<MsgConversionError>>)>,
    written: Vec<Result<PointCloud2Msg, MsgConversionError>>,
}
impl Diet {
    fn new(rng: &mut Rng, s: &'static dyn Ops, n: usize) -> Result<Diet, String> {
        let spec = s.fields();
        let vals = gen_vals(rng, &spec, n);
        let (m, _) = gen::valid_msg(rng, s, n);
        let Verdict::Valid(want) = verdict(&m, &spec) else { return Err("no valid message".into()) };
        let mut broken = vec![];
        let lacks = [Some(0), Some(spec.len() - 1), Some(rng.idx(spec.len())), Some(rng.idx(spec.len())), None];
        for l in lacks {
            let mut b = clone_exact(&m);
            b.fields.retain(|f| l.is_some_and(|l| f.name != spec[l].name));
            broken.push(b);
        }
        let mut short = clone_exact(&m);
        short.data.push(0);
        broken.push(short);
        let broken = broken
            .into_iter()
            .map(|b| {
                let first = READERS.iter().map(|r| s.read(*r, clone_exact(&b)).err()).collect();
                (b, first)
            })
            .collect();
        let written = WRITERS.iter().map(|w| s.write(*w, &vals, Pad::Fill(0))).collect();
        Ok(Diet { s, vals, m, want, broken, written })
    }
    fn read(&self, r: Reader, at: u64) -> Result<(), String> {
        match self.s.read(r, clone_exact(&self.m)) {
            Ok(v) if v == self.want => Ok(()),
            Ok(v) => Err(format!("{r:?} of {} <- {}: {} other points at step {at} of a long history", self.s.name(), show_msg(&self.m), v.len())),
            Err(e) => Err(format!("{r:?} of {} <- {}: {e:?} at step {at} of a long history", self.s.name(), show_msg(&self.m))),
        }
    }
    fn reject(&self, r: Reader, k: usize, at: u64) -> Result<(), String> {
        let Some((b, first)) = self.broken.get(k) else { return Ok(()) };
        let Some(first) = READERS.iter().position(|x| *x == r).and_then(|i| first[i].as_ref()) else { return Ok(()) };
        match self.s.read(r, clone_exact(b)) {
            Err(e) if std::mem::discriminant(&e) == std::mem::discriminant(first) => Ok(()),
            Err(e) => Err(format!("{r:?} of {} <- {}: {e:?} after {first:?} at step {at} of a long history", self.s.name(), show_msg(b))),
            Ok(v) => Err(format!("{r:?} of {} <- {}: {} points after {first:?} at step {at} of a long history", self.s.name(), show_msg(b), v.len())),
        }
    }
    fn write(&self, k: usize, at: u64) -> Result<(), String> {
        let w = WRITERS[k];
        match (self.s.write(w, &self.vals, Pad::Fill(0)), &self.written[k]) {
            (Ok(a), Ok(b)) => match (a.data != b.data).then(|| "other bytes".to_string()).or_else(|| meta_diff(b, &a)) {
                Some(d) => Err(format!("{w:?} of {} {}: {d} at step {at} of a long history", self.vals.len(), self.s.name())),
                None => Ok(()),
            },
            (a, b) => Err(format!("{w:?} of {} {} at step {at}: {:?} after {:?}", self.vals.len(), self.s.name(), a.map(|m| m.data.len()), b.as_ref().map(|m| m.data.len()))),
        }
    }
}

/// A process that converts the same small clouds for a long time: nothing may wear out, fill up or wrap around.
fn marathon(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let debug = cfg!(debug_assertions);
    let steps: u64 = if debug { 150_000 } else { 2_000_000 } * if ctx.thorough { 3 } else { 1 };
    let mut diets = vec![];
    for n in 0..8 {
        let s = subject(rng);
        diets.push(Diet::new(rng, s, n % 5)?);
    }
    let par = |r: Reader| matches!(r, Reader::Par | Reader::ParIndexed);
    for k in 0..steps {
        let d = rng.pick(&diets);
        match rng.below(16) {
            0..=8 => {
                let r = *rng.pick(READERS);
                d.read(if par(r) && k % 61 != 0 { Reader::Iter } else { r }, k)?
            }
            9..=12 => d.reject(*rng.pick(READERS), rng.idx(6), k)?,
            _ => {
                let w = rng.idx(WRITERS.len());
                let slow = matches!(WRITERS[w], Writer::Par | Writer::ParFilter | Writer::ParSkew);
                d.write(if slow && k % 61 != 0 { k as usize % WRITERS_MIN.len() } else { w }, k)?
            }
        }
        ctx.evaluations += 1;
    }
    ctx.add("steps of one long history", steps);
    // a counter of 8 or 16 bits comes round: the type with the most fields is used again only then
    let mut subjects = all();
    subjects.sort_by_key(|s| s.n());
    let few = Diet::new(rng, subjects[0], 2)?;
    let wide = subjects[subjects.len() - 1 - rng.idx(3)];
    let most = Diet::new(rng, wide, 2)?;
    let mut rounds = 0;
    for period in [256i64, 32768, 65536] {
        for off in -3..=2i64 {
            if debug && period > 256 && off.abs() > 1 {
                continue;
            }
            for how in 0..if debug { 1 } else { 3 } {
                let r = READERS_MIN[rng.idx(READERS_MIN.len())];
                most.read(r, rounds)?;
                let r2 = READERS_MIN[rng.idx(READERS_MIN.len())];
                for k in 0..(period + off) as u64 {
                    match how {
                        0 => few.read(r2, rounds + k)?,
                        1 => few.write(2, rounds + k)?,
                        _ => few.reject(r2, k as usize % 2, rounds + k)?,
                    }
                }
                rounds += (period + off) as u64;
                most.reject(r, rng.idx(6), rounds)?;
                most.read(r, rounds)?;
                most.write(2, rounds)?;
            }
        }
    }
    ctx.evaluations += rounds;
    ctx.add("steps between two uses of a type, in exact periods", rounds);
    Ok(())
}

pub fn c24(ctx: &mut Ctx, rng: &mut Rng) {
    #[cfg(feature = "par")]
    crate::props::iter::warm();
    if ctx.giant && ctx.case == 2 {
        match guard(|| marathon(ctx, rng)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => ctx.fail(e),
            Err(p) => ctx.fail(format!("panic in a long run of small conversions: {p}")),
        }
        return ctx.nontrivial(24);
    }
    let count = if ctx.slow { 2 + rng.idx(2) } else { 3 + rng.idx(6) };
    let mut items = vec![];
    // types with equal shape or equal names follow each other: what one leaves behind must not serve the other
    let family: Vec<&'static dyn Ops> = (0..2 + rng.idx(3)).map(|_| subject(rng)).collect();
    let mut digest = Hasher::new();
    digest.u(24);
    let len = |rng: &mut Rng, slow: bool| if slow { rng.idx(4) } else if rng.chance(1, 30) { gen_len(rng, false).min(9000) } else { rng.idx(30) };
    for _ in 0..count {
        let s = *rng.pick(&family);
        let n = len(rng, ctx.slow);
        items.push(if rng.chance(1, 3) {
            let v = gen_vals(rng, &s.fields(), n);
            Item::Write(s, v, *rng.pick(WRITERS))
        } else {
            let mut m = match items.last() {
                // the message of another type: a different reader of the same bytes
                Some(Item::Read(_, m, _)) if rng.chance(1, 3) => clone_exact(m),
                _ => gen::valid_msg(rng, s, n).0,
            };
            if rng.chance(1, 4) {
                gen::mutate(rng, &mut m, &s.fields());
            }
            Item::Read(s, m, *rng.pick(READERS))
        });
    }
    // first time, in order; valid ones against the model
    let first: Vec<Outcome> = items.iter().map(|i| i.run(0)).collect();
    ctx.evaluations += items.len() as u64;
    for (i, o) in items.iter().zip(&first) {
        digest.u(o.0);
        if let Item::Read(s, m, _) = i {
            if let Verdict::Valid(want) = verdict(m, &s.fields()) {
                let mut h = Hasher::new();
                hash_vals(&mut h, &want, &s.fields());
                h.u(want.len() as u64);
                if h.0 != o.0 {
                    return ctx.fail(format!("{}: {} that are not the message's", i.name(), o.1));
                }
                ctx.count("outcomes equal to the model");
            }
        }
    }
    let differs = |k: usize, o: &Outcome, when: &str| -> Option<String> {
        (*o != first[k] && o.0 != first[k].0).then(|| format!("{}: was {} and is {} {when}", items[k].name(), first[k].1, o.1))
    };
    // some conversions end early: by a panic of user code or by being forgotten
    if rng.chance(1, 3) {
        disturb(ctx, rng, &items);
    }
    // again in another order, on this thread, new threads and pool threads
    let mut order: Vec<usize> = (0..count).chain((0..count).filter(|_| rng.chance(1, 3))).collect();
    rng.shuffle(&mut order);
    for k in &order {
        let spare = rng.idx(40);
        let how = rng.below(if ctx.slow { 2 } else { 8 });
        let o = match how {
            0 => std::thread::scope(|sc| sc.spawn(|| items[*k].run(spare)).join().unwrap_or((2, "the thread died".into()))),
            #[cfg(feature = "par")]
            1 => crate::props::iter::pool(3).install(|| items[*k].run(spare)),
            _ => items[*k].run(spare),
        };
        ctx.evaluations += 1;
        ctx.count(["repeated on a new thread", "repeated on a pool thread", "repeated on the same thread"][how.min(2) as usize]);
        if let Some(d) = differs(*k, &o, "when repeated") {
            return ctx.fail(d);
        }
    }
    // all of them at the same time on several threads
    if rng.chance(1, if ctx.slow { 3 } else { 5 }) {
        let bad = together(ctx, rng, &items);
        for (k, o) in bad {
            if let Some(d) = differs(k, &o, "while other conversions run at the same time") {
                return ctx.fail(d);
            }
        }
    }
    // several iterators alive at once, stepped in turn, with whole conversions in between
    let mut live: Vec<(usize, Stepper, Vec<Vals>, usize, usize, bool)> = vec![];
    for (k, i) in items.iter().enumerate() {
        if let Item::Read(s, m, _) = i {
            if let Verdict::Valid(v) = verdict(m, &s.fields()) {
                for _ in 0..1 + rng.idx(2) {
                    let public = rng.chance(1, 2);
                    let hi = v.len();
                    match guard(|| s.stepper(clone_exact(m), public)) {
                        Ok(Ok(st)) => live.push((k, st, v.clone(), 0, hi, !public && cfg!(feature = "par"))),
                        Ok(Err(e)) => return ctx.fail(format!("{}: rejected with {e:?} while {} iterators are alive", i.name(), live.len())),
                        Err(p) => return ctx.fail(format!("{}: panic {p} while {} iterators are alive", i.name(), live.len())),
                    }
                }
            }
        }
    }
    if live.len() > 1 {
        ctx.count("sets of iterators alive together");
        ctx.add("iterators alive together", live.len() as u64);
        let steps = if ctx.slow { 12 } else { 120 };
        for _ in 0..steps {
            if rng.chance(1, 25) {
                let k = rng.idx(count);
                let o = items[k].run(rng.idx(9));
                ctx.evaluations += 1;
                if let Some(d) = differs(k, &o, "while iterators are alive") {
                    return ctx.fail(d);
                }
                continue;
            }
            let others = live.len();
            let j = rng.idx(others);
            let (k, st, want, lo, hi, both) = &mut live[j];
            let back = *both && rng.chance(1, 3);
            let expect = if lo >= hi { None } else if back { Some(want[*hi - 1]) } else { Some(want[*lo]) };
            let got = match guard(|| st(back)) {
                Ok(g) => g,
                Err(p) => return ctx.fail(format!("{}: panic {p} while {others} iterators are stepped in turn", items[*k].name())),
            };
            let nf = match &items[*k] {
                Item::Read(s, ..) => s.n(),
                _ => 0,
            };
            if got.map(|v| v[..nf].to_vec()) != expect.map(|v| v[..nf].to_vec()) {
                return ctx.fail(format!("{}: gave {:x?} instead of {:x?} at {lo}..{hi} while {others} iterators are stepped in turn", items[*k].name(),
                    got.map(|v| v[..nf].to_vec()), expect.map(|v| v[..nf].to_vec())));
            }
            if expect.is_some() {
                if back { *hi -= 1 } else { *lo += 1 }
            }
            ctx.evaluations += 1;
        }
    }
    drop(live);
    // conversions inside of the source of a conversion, and inside of a parallel closure
    let k = rng.idx(count);
    match &items[k] {
        Item::Write(s, v, _) if v.len() < 3000 => {
            let at: Vec<usize> = (0..3).map(|_| rng.idx(v.len() + 1)).collect();
            let mut bad = None;
            let which = rng.idx(count);
            let r = guard(|| {
                s.write_hooked(v, &mut |i| {
                    if at.contains(&i) {
                        let o = items[which].run(3);
                        bad = bad.take().or(differs(which, &o, "inside of the source of try_from_iter"));
                    }
                })
            });
            if let Some(b) = bad {
                return ctx.fail(b);
            }
            match r {
                Ok(Ok(m)) => {
                    if let Verdict::Valid(g) = verdict(&m, &s.fields()) {
                        if let Some(d) = same_vals(v, &g, &s.fields()) {
                            return ctx.fail(format!("{} with conversions inside of its source: {d}", items[k].name()));
                        }
                    } else {
                        return ctx.fail(format!("{} with conversions inside of its source: {}", items[k].name(), show_msg(&m)));
                    }
                    ctx.count("conversions nested in a source");
                }
                Ok(Err(e)) => return ctx.fail(format!("{} with conversions inside of its source: {e:?}", items[k].name())),
                Err(p) => return ctx.fail(format!("{} with conversions inside of its source: panic {p}", items[k].name())),
            }
        }
        #[cfg(feature = "par")]
        Item::Read(s, m, _) if npoints(m) < 3000 => {
            if let Verdict::Valid(want) = verdict(m, &s.fields()) {
                let at: Vec<usize> = (0..3).map(|_| rng.idx(want.len() + 1)).collect();
                let bad = std::sync::Mutex::new(None);
                let which = rng.idx(count);
                let m2 = clone_exact(m);
                let r = guard(|| {
                    crate::props::iter::pool(4).install(|| {
                        s.par_hooked(m2, &|i| {
                            if at.contains(&i) {
                                let o = items[which].run(3);
                                if let Some(d) = differs(which, &o, "inside of a parallel closure") {
                                    if let Ok(mut b) = bad.lock() {
                                        *b = Some(d);
                                    }
                                }
                            }
                        })
                    })
                });
                if let Some(b) = bad.into_inner().ok().flatten() {
                    return ctx.fail(b);
                }
                match r {
                    Ok(Ok(g)) => {
                        if let Some(d) = same_vals(&want, &g, &s.fields()) {
                            return ctx.fail(format!("{} with conversions inside of its closure: {d}", items[k].name()));
                        }
                        ctx.count("conversions nested in a parallel closure");
                    }
                    Ok(Err(e)) => return ctx.fail(format!("{} with conversions inside of its closure: {e:?}", items[k].name())),
                    Err(p) => return ctx.fail(format!("{} with conversions inside of its closure: panic {p}", items[k].name())),
                }
            }
        }
        _ => {}
    }
    if rng.chance(1, 6) {
        if let Err(e) = reentrant(ctx, rng) {
            return ctx.fail(e);
        }
    }
    digest.u(ctx.case);
    ctx.nontrivial(digest.0);
    if ctx.case % 997 == 5 {
        ctx.sample(|| items.iter().zip(&first).map(|(i, o)| format!("{} -> {}", i.name().chars().take(120).collect::<String>(), o.1.chars().take(60).collect::<String>())).collect::<Vec<_>>().join("; "));
    }
}
