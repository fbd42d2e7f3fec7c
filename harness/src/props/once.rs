//! C19: a ledger of every point instance and every call of the user's conversions.
//! Owning, dropping point types; panics injected at any conversion, source item or closure.
use crate::mon::{guard, Ctx, Hasher};
use crate::rng::Rng;
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::{CloudDimensions, Denseness, Endian};
use std::collections::BTreeMap;
use std::sync::Mutex;

const DEFAULT_ID: u32 = u32::MAX;
const BOOM: &str = "injected";

#[derive(Default)]
struct Ledger {
    serial: u64,
    /// serial -> id of instances that are alive
    live: BTreeMap<u64, u32>,
    errors: Vec<String>,
    pulls: Vec<u32>,
    into: Vec<u32>,
    from: Vec<u32>,
    drops: u64,
    /// drops of the plain (copied) type, by id
    plain_drops: BTreeMap<u32, i64>,
    panic_from: Option<u32>,
    panic_into: Option<u32>,
    panic_default: bool,
}
static LEDGER: Mutex<Option<Ledger>> = Mutex::new(None);
fn led<T>(f: impl FnOnce(&mut Ledger) -> T) -> T {
    let mut g = LEDGER.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Ledger::default))
}
fn reset() {
    led(|l| *l = Ledger::default())
}

/// Owns heap memory; the box must be freed exactly once.
#[repr(C)]
struct Own {
    id: u32,
    val: f32,
    weight: u16,
    canary: Box<u64>,
}
impl Own {
    fn make(id: u32, val: f32, weight: u16) -> Self {
        let s = led(|l| {
            l.serial += 1;
            l.live.insert(l.serial, id);
            l.serial
        });
        Own { id, val, weight, canary: Box::new(s) }
    }
}
impl Drop for Own {
    fn drop(&mut self) {
        let s = *self.canary;
        let id = self.id;
        led(|l| {
            l.drops += 1;
            match l.live.remove(&s) {
                Some(i) if i == id => {}
                Some(i) => l.errors.push(format!("instance {s} of point {i} was dropped as point {id}")),
                None => l.errors.push(format!("instance {s} (point {id}) dropped twice or never created")),
            }
        });
    }
}
impl Default for Own {
    fn default() -> Self {
        if led(|l| l.panic_default) {
            panic!("{BOOM}");
        }
        Own::make(DEFAULT_ID, 0.0, 0)
    }
}
/// Plain data with a destructor: may be created by copying bytes. Balance is kept per point id.
#[repr(C)]
struct Plain {
    id: u32,
    val: f32,
    weight: u16,
}
impl Plain {
    fn make(id: u32, val: f32, weight: u16) -> Self {
        led(|l| *l.plain_drops.entry(id).or_default() -= 1);
        Plain { id, val, weight }
    }
}
impl Drop for Plain {
    fn drop(&mut self) {
        let id = self.id;
        led(|l| {
            l.drops += 1;
            *l.plain_drops.entry(id).or_default() += 1
        });
    }
}
impl Default for Plain {
    fn default() -> Self {
        if led(|l| l.panic_default) {
            panic!("{BOOM}");
        }
        Plain::make(DEFAULT_ID, 0.0, 0)
    }
}
macro_rules! conv {
    ($t:ident, $($tail:expr),*) => {
        impl From<RPCL2Point<3>> for $t {
            fn from(p: RPCL2Point<3>) -> Self {
                let id: u32 = p[0].get();
                let boom = led(|l| {
                    l.from.push(id);
                    l.panic_from == Some(id)
                });
                if boom {
                    panic!("{BOOM}");
                }
                $t::make(id, p[1].get(), p[2].get())
            }
        }
        impl From<$t> for RPCL2Point<3> {
            fn from(p: $t) -> Self {
                let boom = led(|l| {
                    l.into.push(p.id);
                    l.panic_into == Some(p.id)
                });
                if boom {
                    panic!("{BOOM}");
                }
                [p.id.into(), p.val.into(), p.weight.into()].into()
            }
        }
        unsafe impl PointConvertible<3> for $t {
            fn layout() -> LayoutDescription {
                LayoutDescription::new(&[
                    LayoutField::new("id", "u32", 4),
                    LayoutField::new("val", "f32", 4),
                    LayoutField::new("weight", "u16", 2),
                    $($tail),*
                ])
            }
        }
    };
}
conv!(Own, LayoutField::padding(core::mem::size_of::<Own>() - 10));
conv!(Plain, LayoutField::padding(2));

trait Tracked: PointConvertible<3> + Send + Sync + 'static {
    fn mk(id: u32) -> Self;
    fn ok(&self) -> bool;
    fn id(&self) -> u32;
}
fn val_of(id: u32) -> f32 {
    f32::from_bits(0x3F80_0000 | (id.wrapping_mul(2654435761) >> 9))
}
fn weight_of(id: u32) -> u16 {
    (id.wrapping_mul(40503) >> 3) as u16
}
macro_rules! tracked {
    ($t:ident) => {
        impl Tracked for $t {
            fn mk(id: u32) -> Self {
                $t::make(id, val_of(id), weight_of(id))
            }
            fn ok(&self) -> bool {
                self.val.to_bits() == val_of(self.id).to_bits() && self.weight == weight_of(self.id)
            }
            fn id(&self) -> u32 {
                self.id
            }
        }
    };
}
tracked!(Own);
tracked!(Plain);

/// A message of n points with ids first.., in a layout that is not the memory layout of the point (`foreign`), or is.
fn message(rng: &mut Rng, n: u32, foreign: bool) -> PointCloud2Msg {
    let big = foreign && rng.chance(1, 2);
    let host_big = cfg!(target_endian = "big");
    // a foreign message differs in byte order or in the offsets
    let shift: u32 = if foreign && big == host_big { 1 + rng.below(5) as u32 } else { 0 };
    let big = if foreign { big } else { host_big };
    let (o0, o1, o2) = (shift, shift + 4, shift + 8);
    let step = shift + 10 + if foreign { rng.below(8) as u32 } else { 2 };
    let mut data = vec![0u8; (step * n) as usize];
    rng.fill(&mut data);
    for i in 0..n {
        let b = (i * step) as usize;
        let mut put = |o: u32, bytes: &[u8]| {
            for (k, x) in bytes.iter().enumerate() {
                let k = if big { bytes.len() - 1 - k } else { k };
                data[b + o as usize + k] = *x;
            }
        };
        put(o0, &i.to_le_bytes());
        put(o1, &val_of(i).to_le_bytes());
        put(o2, &weight_of(i).to_le_bytes());
    }
    let f = |name: &str, offset: u32, datatype: u8| PointFieldMsg { name: name.into(), offset, datatype, count: 1 };
    let mut fields = vec![f("id", o0, 6), f("val", o1, 7), f("weight", o2, 4)];
    if foreign && rng.chance(1, 3) {
        fields.reverse();
    }
    PointCloud2Msg {
        header: Default::default(),
        dimensions: CloudDimensions { width: n, height: u32::from(n > 0) },
        fields,
        endian: if big { Endian::Big } else { Endian::Little },
        point_step: step,
        row_step: step * n,
        data,
        dense: Denseness::Dense,
    }
}

/// A source of points with its own fault position and hint.
struct Source<C> {
    next: u32,
    n: u32,
    boom: Option<u32>,
    hint: u8,
    /// how many items it would give after having said that there are none
    resume: u32,
    _p: std::marker::PhantomData<fn() -> C>,
}
impl<C: Tracked> Iterator for Source<C> {
    type Item = C;
    fn next(&mut self) -> Option<C> {
        if self.boom == Some(self.next) {
            panic!("{BOOM}");
        }
        if self.next == self.n {
            if self.resume > 0 {
                self.n += self.resume;
                self.resume = 0;
            }
            return None;
        }
        let id = self.next;
        self.next += 1;
        led(|l| l.pulls.push(id));
        Some(C::mk(id))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = (self.n - self.next) as usize;
        match self.hint {
            0 => (0, None),
            1 => (left, Some(left)),
            2 => (left / 2, Some(left * 2 + 3)),
            3 => (0, Some(usize::MAX)),
            4 => (left, Some(usize::MAX / 2)),
            _ => (left, None),
        }
    }
}

/// The iterator as the library hands it out, or its type.
enum Steps<C: Tracked> {
    Public(Box<dyn Iterator<Item = C>>),
    Direct(PointCloudIterator<3, C>),
}
impl<C: Tracked> Steps<C> {
    fn next(&mut self) -> Option<C> {
        match self {
            Steps::Public(i) => i.next(),
            Steps::Direct(i) => i.next(),
        }
    }
    fn next_back(&mut self) -> Option<C> {
        match self {
            #[cfg(feature = "par")]
            Steps::Direct(i) => i.next_back(),
            _ => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self {
            Steps::Public(i) => i.size_hint(),
            Steps::Direct(i) => i.size_hint(),
        }
    }
}

/// What has to hold at the end of every scenario: nothing alive, nothing dropped twice.
fn balance(what: &str) -> Result<u64, String> {
    led(|l| {
        if let Some(e) = l.errors.first() {
            return Err(format!("{what}: {e}"));
        }
        if let Some((s, id)) = l.live.iter().next() {
            return Err(format!("{what}: {} instances were never dropped, e.g. instance {s} of point {id}", l.live.len()));
        }
        if let Some((id, d)) = l.plain_drops.iter().find(|(_, d)| **d != 0) {
            let how = if *d > 0 { "dropped too often" } else { "not dropped" };
            return Err(format!("{what}: point {id} was {how} ({d:+})"));
        }
        Ok(l.drops)
    })
}
fn distinct(v: &[u32]) -> Result<(), u32> {
    let mut s = v.to_vec();
    s.sort_unstable();
    match s.windows(2).find(|w| w[0] == w[1]) {
        Some(w) => Err(w[0]),
        None => Ok(()),
    }
}
fn no_default(v: &[u32]) -> Vec<u32> {
    v.iter().copied().filter(|i| *i != DEFAULT_ID).collect()
}

pub fn c19(ctx: &mut Ctx, rng: &mut Rng) {
    let own = rng.chance(1, 2);
    let n = if ctx.slow { rng.below(6) as u32 } else { *rng.pick(&[0u32, 1, 2, 3, 5, 8, 13, 40, 130, 700]) };
    #[cfg(feature = "par")]
    let kinds = 7;
    #[cfg(not(feature = "par"))]
    let kinds = 4;
    let kind = rng.below(kinds);
    reset();
    ctx.evaluations += 1;
    let r = if own { scenario::<Own>(ctx, rng, kind, n, true) } else { scenario::<Plain>(ctx, rng, kind, n, false) };
    let desc = match r {
        Ok(d) => d,
        Err(e) => {
            reset();
            return ctx.fail(e);
        }
    };
    let (drops, conv, pulls) = led(|l| (l.drops, l.from.len() + l.into.len(), l.pulls.len()));
    if let Err(e) = balance(&desc) {
        return ctx.fail(e);
    }
    ctx.add("instances dropped exactly once", drops);
    ctx.add("conversions observed", conv as u64);
    ctx.add("source items pulled", pulls as u64);
    ctx.count(&format!("scenario {}", ["write iterator", "write vec", "read iterator", "read vec", "split", "read parallel", "write parallel"][kind as usize]));
    if desc.contains("panic") {
        ctx.count("with an injected panic");
    }
    if drops + conv as u64 > 0 {
        let mut h = Hasher::new();
        h.b(desc.as_bytes());
        ctx.nontrivial(h.0);
    }
    if ctx.case % 101 == 3 {
        ctx.sample(|| format!("{desc}: {conv} conversions, {drops} drops"));
    }
    reset();
}

fn pick_fault(rng: &mut Rng, n: u32) -> Option<u32> {
    if n > 0 && rng.chance(1, 2) {
        Some(match rng.below(4) {
            0 => 0,
            1 => n - 1,
            _ => rng.below(n as u64) as u32,
        })
    } else {
        None
    }
}
/// The outcome of a guarded call must be a panic exactly if one was injected and reached.
fn expect_panic<T>(what: &str, r: Result<T, String>, injected: bool) -> Result<Option<T>, String> {
    match r {
        Ok(v) if injected => {
            drop(v);
            Err(format!("{what}: the panic of the user's code was swallowed"))
        }
        Ok(v) => Ok(Some(v)),
        Err(p) if injected && p.contains(BOOM) => Ok(None),
        Err(p) => Err(format!("{what}: unexpected panic {p}")),
    }
}

fn scenario<C: Tracked>(ctx: &mut Ctx, rng: &mut Rng, kind: u64, n: u32, own: bool) -> Result<String, String> {
    let ty = if own { "owning points" } else { "plain points" };
    let fault = pick_fault(rng, n);
    match kind {
        0 => {
            let mut boom = None;
            let what;
            let mode = if fault.is_some() { rng.below(3) } else { 3 };
            match mode {
                0 => {
                    led(|l| l.panic_into = fault);
                    what = format!("try_from_iter of {n} {ty}, panic converting point {fault:?}");
                }
                1 => {
                    boom = fault;
                    what = format!("try_from_iter of {n} {ty}, source panics at item {fault:?}");
                }
                2 => {
                    led(|l| l.panic_default = true);
                    what = format!("try_from_iter of {n} {ty}, Default panics");
                }
                _ => what = format!("try_from_iter of {n} {ty}"),
            }
            let src = Source::<C> { next: 0, n, boom, hint: rng.below(6) as u8, resume: rng.below(3) as u32, _p: Default::default() };
            let r = guard(|| PointCloud2Msg::try_from_iter(src));
            if mode == 2 {
                // Default need not be called
                match r {
                    Ok(Err(e)) => return Err(format!("{what}: {e:?}")),
                    Err(p) if !p.contains(BOOM) => return Err(format!("{what}: {p}")),
                    _ => return Ok(what),
                }
            }
            let msg = expect_panic(&what, r, fault.is_some())?;
            let (pulls, into) = led(|l| (l.pulls.clone(), no_default(&l.into)));
            let in_order = |v: &[u32]| v.iter().enumerate().all(|(i, x)| i as u32 == *x);
            if !in_order(&pulls) {
                return Err(format!("{what}: items pulled as {pulls:?}"));
            }
            if !in_order(&into) {
                return Err(format!("{what}: points converted as {into:?}"));
            }
            match (msg, fault) {
                (Some(Ok(m)), _) => {
                    if pulls.len() as u32 != n || into.len() as u32 != n {
                        return Err(format!("{what}: {} items pulled, {} converted", pulls.len(), into.len()));
                    }
                    if m.dimensions.width as u64 * m.dimensions.height as u64 != n as u64 {
                        return Err(format!("{what}: message of {:?}", m.dimensions));
                    }
                }
                (Some(Err(e)), _) => return Err(format!("{what}: {e:?}")),
                (None, Some(k)) => {
                    let limit = k + u32::from(mode == 0);
                    if into.len() as u32 > limit || (mode == 0 && into.len() as u32 != limit) {
                        return Err(format!("{what}: {} points converted", into.len()));
                    }
                }
                _ => {}
            }
            Ok(what)
        }
        1 => {
            let bad_default = fault.is_some();
            led(|l| l.panic_default = bad_default);
            let what = format!("try_from_vec of {n} {ty}{}", if bad_default { ", Default panics" } else { "" });
            let v: Vec<C> = (0..n).map(C::mk).collect();
            let r = guard(|| PointCloud2Msg::try_from_vec(v));
            match r {
                Ok(Ok(m)) => {
                    if m.dimensions.width as u64 * m.dimensions.height as u64 != n as u64 {
                        return Err(format!("{what}: message of {:?}", m.dimensions));
                    }
                }
                Ok(Err(e)) => return Err(format!("{what}: {e:?}")),
                Err(p) if bad_default && p.contains(BOOM) => {}
                Err(p) => return Err(format!("{what}: {p}")),
            }
            let into = led(|l| no_default(&l.into));
            if let Err(d) = distinct(&into) {
                return Err(format!("{what}: point {d} converted twice"));
            }
            Ok(what)
        }
        2 => {
            let foreign = own || rng.chance(1, 2);
            let m = message(rng, n, foreign);
            led(|l| l.panic_from = fault);
            let plan: Vec<u64> = (0..rng.below(2 * n as u64 + 4)).map(|_| rng.next()).collect();
            let public = rng.chance(1, 2);
            let what = format!("stepping {} over {n} {ty}, {} calls{}", if public { "try_into_iter" } else { "the iterator" }, plan.len(),
                fault.map(|f| format!(", panic converting point {f}")).unwrap_or_default());
            let mut it = match guard(|| if public { m.try_into_iter::<3, C>().map(|i| Steps::Public(Box::new(i))) } else { PointCloudIterator::<3, C>::try_from(m).map(Steps::Direct) }) {
                Ok(Ok(i)) => i,
                Ok(Err(e)) => return Err(format!("{what}: rejected {e:?}")),
                Err(p) => return Err(format!("{what}: {p}")),
            };
            let (mut lo, mut hi) = (0u32, n);
            let keep_results = rng.chance(1, 2);
            let mut kept: Vec<C> = vec![];
            let early = no_default(&led(|l| l.from.clone()));
            if !early.is_empty() {
                return Err(format!("{what}: points {early:?} converted before any was requested"));
            }
            for step in &plan {
                let before = led(|l| l.from.len());
                let back = cfg!(feature = "par") && !public && step % 3 == 0;
                if step % 7 == 5 {
                    let _ = it.size_hint();
                    if led(|l| l.from.len()) != before {
                        return Err(format!("{what}: size_hint converts points"));
                    }
                    continue;
                }
                let want = if lo >= hi { None } else if back { Some(hi - 1) } else { Some(lo) };
                let r = guard(|| {
                    if back {
                        it.next_back()
                    } else {
                        it.next()
                    }
                });
                let reached = want.is_some() && want == fault;
                let got = expect_panic(&what, r, reached)?;
                let log: Vec<u32> = led(|l| l.from[before..].to_vec());
                if log != want.into_iter().collect::<Vec<_>>() {
                    return Err(format!("{what}: asked for point {want:?} (front: {}), converted {log:?}", !back));
                }
                if reached {
                    ctx.count("iterators dropped after a panic");
                    break;
                }
                match (got.flatten(), want) {
                    (Some(p), Some(w)) => {
                        if p.id() != w || !p.ok() {
                            return Err(format!("{what}: point {w} came out as {}", p.id()));
                        }
                        if keep_results {
                            kept.push(p);
                        }
                        if back { hi -= 1 } else { lo += 1 }
                    }
                    (None, None) => {}
                    (g, w) => return Err(format!("{what}: expected {w:?}, got {:?}", g.map(|p| p.id()))),
                }
            }
            ctx.count(if lo < hi { "half used iterators dropped" } else { "iterators used up" });
            if rng.chance(1, 2) {
                drop(kept);
                drop(it);
            } else {
                drop(it);
                drop(kept);
            }
            Ok(what)
        }
        3 => {
            let foreign = own || rng.chance(1, 2);
            let m = message(rng, n, foreign);
            let fault = if foreign { fault } else { None };
            led(|l| l.panic_from = fault);
            let what = format!("try_into_vec of {n} {ty} from a {} layout{}", if foreign { "foreign" } else { "matching" },
                fault.map(|f| format!(", panic converting point {f}")).unwrap_or_default());
            let r = guard(|| m.try_into_vec::<3, C>());
            let out = expect_panic(&what, r, fault.is_some())?;
            let from = led(|l| l.from.clone());
            if !from.iter().enumerate().all(|(i, x)| i as u32 == *x) {
                return Err(format!("{what}: points converted as {from:?}"));
            }
            match out {
                Some(Ok(v)) => {
                    if v.len() as u32 != n || v.iter().enumerate().any(|(i, p)| p.id() != i as u32 || !p.ok()) {
                        return Err(format!("{what}: wrong points"));
                    }
                    if foreign && from.len() as u32 != n {
                        return Err(format!("{what}: {} conversions", from.len()));
                    }
                    if from.is_empty() {
                        // created by copying bytes: nobody told the ledger
                        led(|l| for p in &v { *l.plain_drops.entry(p.id()).or_default() -= 1 });
                    }
                    let mut v = v;
                    if n > 1 && rng.chance(1, 2) {
                        v.swap_remove(rng.idx(n as usize));
                    }
                }
                Some(Err(e)) => return Err(format!("{what}: {e:?}")),
                None => {}
            }
            Ok(what)
        }
        #[cfg(feature = "par")]
        4 => split_scenario::<C>(ctx, rng, n, ty, own, fault),
        #[cfg(feature = "par")]
        5 => par_read::<C>(ctx, rng, n, ty, own, fault),
        #[cfg(feature = "par")]
        6 => par_write::<C>(rng, n, ty, fault),
        _ => Ok("nothing".into()),
    }
}

#[cfg(feature = "par")]
fn split_scenario<C: Tracked>(ctx: &mut Ctx, rng: &mut Rng, n: u32, ty: &str, own: bool, fault: Option<u32>) -> Result<String, String> {
    let foreign = own || rng.chance(1, 2);
    let m = message(rng, n, foreign);
    led(|l| l.panic_from = fault);
    let what = format!("splitting an iterator over {n} {ty}{}", fault.map(|f| format!(", panic converting point {f}")).unwrap_or_default());
    let it = match guard(|| PointCloudIterator::<3, C>::try_from(m)) {
        Ok(Ok(i)) => i,
        Ok(Err(e)) => return Err(format!("{what}: rejected {e:?}")),
        Err(p) => return Err(format!("{what}: {p}")),
    };
    // parts with the ids they still owe
    let mut parts = vec![(it, 0u32, n)];
    for _ in 0..rng.below(6) {
        let i = rng.idx(parts.len());
        let (it, lo, hi) = parts.swap_remove(i);
        let at = rng.below((hi - lo) as u64 + 1) as u32;
        let (a, b) = match guard(|| it.split_at(at as usize)) {
            Ok(x) => x,
            Err(p) => return Err(format!("{what}: split_at({at}) of {} points panicked: {p}", hi - lo)),
        };
        parts.push((a, lo, lo + at));
        parts.push((b, lo + at, hi));
    }
    if led(|l| !l.from.is_empty()) {
        return Err(format!("{what}: splitting converted points"));
    }
    let mut want = vec![];
    for (mut it, lo, hi) in parts {
        let take = if rng.chance(1, 3) { rng.below((hi - lo) as u64 + 1) as u32 } else { hi - lo };
        for id in lo..lo + take {
            want.push(id);
            let r = guard(|| it.next());
            let reached = fault == Some(id);
            let got = expect_panic(&what, r, reached)?;
            if reached {
                break;
            }
            match got.flatten() {
                Some(p) if p.id() == id && p.ok() => {}
                g => return Err(format!("{what}: expected point {id}, got {:?}", g.map(|p| p.id()))),
            }
        }
        ctx.count("parts dropped");
    }
    let from = led(|l| l.from.clone());
    if from != want {
        return Err(format!("{what}: requested {want:?}, converted {from:?}"));
    }
    Ok(what)
}

#[cfg(feature = "par")]
fn par_read<C: Tracked>(ctx: &mut Ctx, rng: &mut Rng, n: u32, ty: &str, own: bool, fault: Option<u32>) -> Result<String, String> {
    use crate::props::iter::pool;
    let foreign = own || rng.chance(1, 2);
    let m = message(rng, n, foreign);
    let threads = if ctx.slow { 2 } else { *rng.pick(&[1usize, 2, 3, 4, 8]) };
    let mode = rng.below(5);
    let in_closure = rng.chance(1, 2);
    let target = if n > 0 { rng.below(n as u64) as u32 } else { 0 };
    let what = format!("parallel read of {n} {ty} on {threads} threads, consumer {mode}{}",
        fault.map(|f| format!(", panic {} point {f}", if in_closure { "in the closure at" } else { "converting" })).unwrap_or_default());
    if !in_closure {
        led(|l| l.panic_from = fault);
    }
    let check = move |p: C| -> C {
        if in_closure && Some(p.id()) == fault {
            panic!("{BOOM}");
        }
        p
    };
    let full = mode == 0 || mode == 4;
    let r = guard(|| {
        pool(threads).install(|| -> Result<Vec<u32>, String> {
            let it = m.try_into_par_iter::<3, C>().map_err(|e| format!("{e:?}"))?;
            if led(|l| !l.from.is_empty()) {
                return Err("points converted before any was requested".into());
            }
            Ok(match mode {
                0 => {
                    let v: Vec<C> = ParallelIterator::map(it, check).collect();
                    if let Some(p) = v.iter().find(|p| !p.ok()) {
                        return Err(format!("point {} came out broken", p.id()));
                    }
                    v.iter().map(|p| p.id()).collect()
                }
                1 => ParallelIterator::map(it, check).find_any(|p| p.id() == target).map(|p| p.id()).into_iter().collect(),
                2 => vec![ParallelIterator::any(it, move |p| check(p).id() == target) as u32],
                3 => {
                    let r: Result<(), u32> = ParallelIterator::try_for_each(it, move |p| {
                        let p = check(p);
                        if p.id() == target { Err(p.id()) } else { Ok(()) }
                    });
                    r.err().into_iter().collect()
                }
                _ => {
                    let (a, b): (Vec<C>, Vec<C>) = ParallelIterator::partition(ParallelIterator::map(it, check), |p| p.id() % 2 == 0);
                    let mut ids: Vec<u32> = a.iter().chain(b.iter()).map(|p| p.id()).collect();
                    ids.sort_unstable();
                    ids
                }
            })
        })
    });
    let from = led(|l| l.from.clone());
    if let Err(d) = distinct(&from) {
        return Err(format!("{what}: point {d} converted twice"));
    }
    match r {
        Ok(Err(e)) => return Err(format!("{what}: {e}")),
        Ok(Ok(ids)) => {
            if full {
                if fault.is_some() {
                    return Err(format!("{what}: the panic of the user's code was swallowed"));
                }
                if from.len() as u32 != n || ids != (0..n).collect::<Vec<_>>() {
                    return Err(format!("{what}: {} conversions, result {:?}", from.len(), &ids[..ids.len().min(40)]));
                }
            } else if n > 0 && fault.is_none() {
                let want = if mode == 2 { vec![1] } else { vec![target] };
                if ids != want {
                    return Err(format!("{what}: looked for {target}, got {ids:?}"));
                }
            }
        }
        Err(p) if fault.is_some() && p.contains(BOOM) => {}
        Err(p) => return Err(format!("{what}: unexpected panic {p}")),
    }
    Ok(what)
}

#[cfg(feature = "par")]
fn par_write<C: Tracked>(rng: &mut Rng, n: u32, ty: &str, fault: Option<u32>) -> Result<String, String> {
    use crate::props::iter::pool;
    let threads = *rng.pick(&[1usize, 2, 4]);
    let unindexed = rng.chance(1, 2);
    let what = format!("try_from_par_iter of {n} {ty} on {threads} threads{}", fault.map(|f| format!(", source panics at {f}")).unwrap_or_default());
    let make = move |id: u32| -> C {
        if fault == Some(id) {
            panic!("{BOOM}");
        }
        led(|l| l.pulls.push(id));
        C::mk(id)
    };
    let r = guard(|| {
        pool(threads).install(|| {
            let src = ParallelIterator::map((0..n).into_par_iter(), make);
            if unindexed {
                PointCloud2Msg::try_from_par_iter(ParallelIterator::filter(src, |_| true))
            } else {
                PointCloud2Msg::try_from_par_iter(src)
            }
        })
    });
    match expect_panic(&what, r, fault.is_some())? {
        Some(Ok(m)) => {
            if m.dimensions.width as u64 * m.dimensions.height as u64 != n as u64 {
                return Err(format!("{what}: message of {:?}", m.dimensions));
            }
            let pulls = led(|l| l.pulls.clone());
            if pulls.len() as u32 != n || distinct(&pulls).is_err() {
                return Err(format!("{what}: {} items pulled", pulls.len()));
            }
        }
        Some(Err(e)) => return Err(format!("{what}: {e:?}")),
        None => {}
    }
    let into = led(|l| no_default(&l.into));
    if let Err(d) = distinct(&into) {
        return Err(format!("{what}: point {d} converted twice"));
    }
    Ok(what)
}
