//! The point types under observation and the generic code that drives every conversion for them.
use crate::model::*;
use crate::script::{self, Obs, Op};
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::points::RGB;
use ros_pointcloud2::prelude::*;
use std::marker::PhantomData;
use std::mem::MaybeUninit;

type Msg = PointCloud2Msg;
type E = MsgConversionError;

/// Whether the code behind it belongs to this build: every property's monitors, or (feature `only`) those of one.
macro_rules! needed {
    ($($f:literal),*) => {
        if cfg!(not(any(not(feature = "only"), $(feature = $f),*))) {
            unreachable!("left out of this build");
        }
    };
}

/// A member that can be set from / read as raw bits.
pub trait Bits: Copy {
    const TY: Ty;
    fn to_u64(self) -> u64;
    fn of_u64(v: u64) -> Self;
}
macro_rules! bits_int {
    ($($t:ty, $u:ty, $v:ident);*) => { $(impl Bits for $t {
        const TY: Ty = Ty::$v;
        fn to_u64(self) -> u64 { self as $u as u64 }
        fn of_u64(v: u64) -> Self { v as $u as $t }
    })* };
}
bits_int!(i8, u8, I8; u8, u8, U8; i16, u16, I16; u16, u16, U16; i32, u32, I32; u32, u32, U32);
impl Bits for f32 {
    const TY: Ty = Ty::F32;
    fn to_u64(self) -> u64 {
        self.to_bits() as u64
    }
    fn of_u64(v: u64) -> Self {
        f32::from_bits(v as u32)
    }
}
impl Bits for f64 {
    const TY: Ty = Ty::F64;
    fn to_u64(self) -> u64 {
        self.to_bits()
    }
    fn of_u64(v: u64) -> Self {
        f64::from_bits(v)
    }
}
impl Bits for RGB {
    const TY: Ty = Ty::Rgb;
    fn to_u64(self) -> u64 {
        self.raw().to_bits() as u64
    }
    fn of_u64(v: u64) -> Self {
        RGB::new_from_packed(v as u32)
    }
}

pub unsafe trait Subj<const N: usize>: PointConvertible<N> + Send + Sync + 'static {
    const NAME: &'static str;
    fn fields() -> Vec<FieldSpec>;
    unsafe fn put(p: *mut Self, v: &Vals);
    fn get(&self) -> Vals;
}

#[macro_export]
macro_rules! subject {
    ($t:ty, $n:literal, $label:literal, [$($idx:literal $m:ident : $mt:ty => $name:expr),* $(,)?]) => {
        unsafe impl $crate::subjects::Subj<$n> for $t {
            const NAME: &'static str = $label;
            fn fields() -> Vec<$crate::model::FieldSpec> {
                vec![$($crate::model::FieldSpec {
                    name: $name,
                    ty: <$mt as $crate::subjects::Bits>::TY,
                    mem: ::core::mem::offset_of!($t, $m),
                }),*]
            }
            unsafe fn put(p: *mut Self, v: &$crate::model::Vals) {
                $(::core::ptr::addr_of_mut!((*p).$m).write_unaligned(<$mt as $crate::subjects::Bits>::of_u64(v[$idx]));)*
            }
            fn get(&self) -> $crate::model::Vals {
                let mut v = [0u64; $crate::model::MAXF];
                $(v[$idx] = <$mt as $crate::subjects::Bits>::to_u64({ self.$m });)*
                v
            }
        }
    };
}

/// How the memory between the members looks before a write conversion.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pad {
    /// left uninitialised
    Uninit,
    Fill(u8),
    /// pseudo random junk
    Junk(u64),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Writer {
    Iter,
    /// iterator without a useful size hint
    IterLazy,
    Vec,
    Par,
    /// parallel iterator of unknown length
    ParFilter,
    /// parallel sources whose parts differ in size: holes, chains, chunks, single items
    ParSkew,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Reader {
    Iter,
    /// `for_each`/fold based consumption of the iterator type
    IterFold,
    IterRev,
    IterBack,
    Vec,
    Par,
    /// indexed collect through the public iterator type
    ParIndexed,
}
pub const WRITERS_MIN: &[Writer] = &[Writer::Iter, Writer::IterLazy, Writer::Vec];
pub const READERS_MIN: &[Reader] = &[Reader::Iter, Reader::IterFold, Reader::Vec];
#[cfg(feature = "par")]
pub const WRITERS: &[Writer] = &[Writer::Iter, Writer::IterLazy, Writer::Vec, Writer::Par, Writer::ParFilter, Writer::ParSkew];
#[cfg(feature = "par")]
pub const READERS: &[Reader] =
    &[Reader::Iter, Reader::IterFold, Reader::Vec, Reader::IterRev, Reader::IterBack, Reader::Par, Reader::ParIndexed];
#[cfg(not(feature = "par"))]
pub const WRITERS: &[Writer] = WRITERS_MIN;
#[cfg(not(feature = "par"))]
pub const READERS: &[Reader] = READERS_MIN;

/// Steps of a split plan; the index picks one of the parts that exist at that moment.
#[derive(Clone, Debug)]
pub enum Cut {
    Front(usize, usize),
    Back(usize, usize),
    Split(usize, usize),
    Hint(usize),
}
#[derive(Clone, Debug)]
pub enum Drain {
    Front,
    Back,
    Alternate,
    Fold,
}

#[derive(Clone, Debug, Default)]
pub struct SplitObs {
    /// (part count at that moment, part, items or hint)
    pub events: Vec<(usize, Vec<Vals>)>,
    pub hints: Vec<(usize, usize, Option<usize>)>,
    pub leaves: Vec<Vec<Vals>>,
}

pub struct Metered {
    pub result: Result<usize, E>,
    pub max: usize,
    pub peak: usize,
    pub point_size: usize,
}

pub trait Ops: Sync {
    fn name(&self) -> &'static str;
    fn fields(&self) -> Vec<FieldSpec>;
    fn n(&self) -> usize;
    fn size(&self) -> usize;
    fn align(&self) -> usize;
    fn layout(&self) -> LayoutDescription;
    fn write(&self, w: Writer, vals: &[Vals], pad: Pad) -> Result<Msg, E>;
    /// claimed: upper bound of points to take (observes non-termination instead of hanging)
    fn read(&self, r: Reader, msg: Msg) -> Result<Vec<Vals>, E>;
    /// conversion to `Vec<C>` without any work of the harness in between, with the allocation monitor on
    fn read_metered(&self, r: Reader, msg: Msg) -> Metered;
    fn default_vals(&self) -> Vals;
    /// an iterator that stays alive between steps; the argument asks for the back (if there is one)
    fn stepper(&self, msg: Msg, public: bool) -> Result<Stepper, E>;
    /// sequential write that runs `hook` whenever the source is asked for a point
    fn write_hooked(&self, vals: &[Vals], hook: &mut dyn FnMut(usize)) -> Result<Msg, E>;
    /// parallel read of a message that runs `hook` at every point
    #[cfg(feature = "par")]
    fn par_hooked(&self, msg: Msg, hook: &(dyn Fn(usize) + Sync)) -> Result<Vec<Vals>, E>;
}
pub type Stepper = Box<dyn FnMut(bool) -> Option<Vals>>;
/// The iterator type itself, driven call by call (for a selection of the subjects: this code is generic).
pub trait Deep: Ops {
    fn script(&self, msg: Msg, ops: &[Op]) -> Result<Vec<Obs>, E>;
    /// script over the value returned by `try_into_iter`
    fn script_public(&self, msg: Msg, ops: &[Op]) -> Result<Vec<Obs>, E>;
    fn split(&self, msg: Msg, plan: &[Cut], drains: &[Drain]) -> Result<SplitObs, E>;
    #[cfg(feature = "par")]
    fn producer(&self, msg: Msg, pre: Before, plan: &[(usize, u64)]) -> Result<(Vec<Vec<Vals>>, usize), E>;
}
/// Every rayon adaptor on top of the parallel iterator.
#[cfg(feature = "par")]
pub trait Adapt: Ops {
    fn par_adapt(&self, msg: Msg, pre: Before, kind: u64, a: usize, b: usize) -> Result<ParObs, E>;
}
#[cfg(feature = "par")]
#[derive(Debug, Clone, PartialEq)]
pub struct ParObs {
    pub vals: Vec<Vals>,
    pub num: Vec<usize>,
}

pub struct Holder<const N: usize, C>(pub PhantomData<fn() -> C>);

/// A vector of points whose padding bytes are under our control.
pub fn build<const N: usize, C: Subj<N>>(vals: &[Vals], pad: Pad) -> Vec<C> {
    let mut v: Vec<C> = Vec::with_capacity(vals.len());
    unsafe {
        let p = v.as_mut_ptr();
        match pad {
            Pad::Uninit => {}
            Pad::Fill(b) => core::ptr::write_bytes(p.cast::<u8>(), b, vals.len() * core::mem::size_of::<C>()),
            Pad::Junk(s) => {
                let mut r = crate::rng::Rng::for_case(s, "junk", 0);
                let raw = core::slice::from_raw_parts_mut(p.cast::<MaybeUninit<u8>>(), vals.len() * core::mem::size_of::<C>());
                for b in raw {
                    b.write(r.next() as u8);
                }
            }
        }
        for (i, x) in vals.iter().enumerate() {
            C::put(p.add(i), x);
        }
        v.set_len(vals.len());
    }
    v
}

const SLACK: usize = 9;

/// What happened to an iterator before it is used in parallel: cut off at both ends, stepped from both ends.
#[derive(Clone, Copy, Debug, Default)]
pub struct Before {
    pub cut_front: usize,
    pub cut_back: usize,
    pub front: usize,
    pub back: usize,
}
#[cfg(feature = "par")]
impl Before {
    pub fn random(rng: &mut crate::rng::Rng, n: usize) -> Self {
        let k = |rng: &mut crate::rng::Rng| match rng.below(9) {
            0..=3 => 0,
            4 => n,
            5 => rng.idx(n + 2),
            _ => 1 + rng.idx(3),
        };
        if rng.chance(2, 5) {
            return Before::default();
        }
        Before { cut_front: k(rng), cut_back: k(rng), front: k(rng), back: k(rng) }
    }
    pub fn range(&self, n: usize) -> std::ops::Range<usize> {
        let lo = self.cut_front.min(n);
        let hi = lo + (n - lo).saturating_sub(self.cut_back);
        let lo2 = (lo.saturating_add(self.front)).min(hi);
        lo2..lo2 + (hi - lo2).saturating_sub(self.back)
    }
    pub fn apply<const N: usize, C: PointConvertible<N> + Send + Sync>(&self, it: PointCloudIterator<N, C>) -> PointCloudIterator<N, C> {
        let mut it = it;
        let n = ExactSizeIterator::len(&it);
        if self.cut_front > 0 {
            it = it.split_at(self.cut_front.min(n)).1;
        }
        let n = ExactSizeIterator::len(&it);
        if self.cut_back > 0 {
            it = it.split_at(n.saturating_sub(self.cut_back)).0;
        }
        for _ in 0..self.front.min(n + 2) {
            let _ = Iterator::next(&mut it);
        }
        for _ in 0..self.back.min(n + 2) {
            let _ = DoubleEndedIterator::next_back(&mut it);
        }
        it
    }
}

/// A source that keeps the rules of `Iterator`, and no more: hints without information, or with bounds that are
/// far away; it may go on after having returned `None`.
struct Lazy<C> {
    it: std::vec::IntoIter<C>,
    more: std::vec::IntoIter<C>,
    ended: bool,
    hint: u64,
}
impl<C> Iterator for Lazy<C> {
    type Item = C;
    fn next(&mut self) -> Option<C> {
        if self.ended {
            return self.more.next();
        }
        let x = self.it.next();
        self.ended = x.is_none();
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = if self.ended { self.more.len() } else { self.it.len() };
        match self.hint {
            0 => (0, None),
            1 => (0, Some(usize::MAX)),
            2 => (n / 2, Some(n.saturating_mul(2) + 1000)),
            3 => (n, None),
            4 => (n, Some(usize::MAX / 2 + 1)),
            5 => (0, Some(n)),
            _ => (n, Some(n)),
        }
    }
}

/// Write through a parallel source whose parts are not of equal size.
#[cfg(feature = "par")]
pub fn par_skew<const N: usize, C: Subj<N>>(pts: Vec<C>, seed: u64) -> Result<Msg, E> {
    let n = pts.len();
    let mut rng = crate::rng::Rng::for_case(seed, "skew", n as u64);
    let holes = |front: usize, back: usize| -> Vec<Option<C>> {
        let mut v: Vec<Option<C>> = (0..front).map(|_| None).collect();
        v.reserve(n + back);
        v
    };
    // every shape is another type of source for every type of point (and rayon is compiled again for it):
    // all of them for a selection of the points, holes anywhere for the others
    if const { N != 1 && N != 8 } {
        let (front, back) = (rng.idx(2 * n + 2) * rng.idx(2), rng.idx(2 * n + 2) * rng.idx(2));
        let mut v = holes(front, back);
        for p in pts {
            if rng.chance(1, 9) {
                v.extend((0..rng.idx(30)).map(|_| None));
            }
            v.push(Some(p));
        }
        v.extend((0..back).map(|_| None));
        let most = if rng.chance(1, 2) { 1 + rng.idx(3) } else { usize::MAX };
        return Msg::try_from_par_iter(v.into_par_iter().with_max_len(most).filter_map(|x| x));
    }
    match rng.below(9) {
        // nothing comes out of the left (right) parts
        0 | 1 => {
            let mut v = holes(n + rng.idx(n + 2), 0);
            v.extend(pts.into_iter().map(Some));
            Msg::try_from_par_iter(v.into_par_iter().filter_map(|x| x))
        }
        2 => {
            let more = n + rng.idx(n + 2);
            let mut v = holes(0, more);
            v.extend(pts.into_iter().map(Some));
            v.extend((0..more).map(|_| None));
            Msg::try_from_par_iter(v.into_par_iter().flatten_iter())
        }
        3 => {
            let mut v = holes(0, n);
            for p in pts {
                if rng.chance(1, 5) {
                    v.extend((0..rng.idx(30)).map(|_| None));
                }
                v.push(Some(p));
            }
            Msg::try_from_par_iter(v.into_par_iter().with_max_len(1 + rng.idx(3)).filter_map(|x| x))
        }
        4 => {
            let mut a = pts;
            let b = a.split_off(rng.idx(n.min(4) + 1));
            Msg::try_from_par_iter(a.into_par_iter().chain(b))
        }
        5 => {
            let mut a = pts;
            let b = a.split_off(rng.idx(n.min(4) + 1));
            Msg::try_from_par_iter(a.into_par_iter().with_max_len(1).filter(|_| true).chain(b.into_par_iter().with_max_len(1 + n / 3)))
        }
        6 | 7 => {
            // chunks of growing, shrinking or random length
            let mut chunks: Vec<Vec<C>> = vec![];
            let mode = rng.below(3);
            let mut rest = pts.into_iter();
            while rest.len() > 0 {
                let k = chunks.len();
                let take = match mode {
                    0 => 1 + k,
                    1 => 1 + rest.len() / 2,
                    _ => rng.idx(9),
                };
                chunks.push(rest.by_ref().take(take).collect());
            }
            if rng.chance(1, 2) {
                Msg::try_from_par_iter(chunks.into_par_iter().flatten())
            } else {
                Msg::try_from_par_iter(chunks.into_par_iter().flat_map_iter(|c| c))
            }
        }
        _ => Msg::try_from_par_iter(pts.into_par_iter().with_max_len(1)),
    }
}

impl<const N: usize, C: Subj<N>> Ops for Holder<N, C> {
    fn name(&self) -> &'static str {
        C::NAME
    }
    fn fields(&self) -> Vec<FieldSpec> {
        C::fields()
    }
    fn n(&self) -> usize {
        N
    }
    fn size(&self) -> usize {
        core::mem::size_of::<C>()
    }
    fn align(&self) -> usize {
        core::mem::align_of::<C>()
    }
    fn layout(&self) -> LayoutDescription {
        C::layout()
    }
    fn default_vals(&self) -> Vals {
        C::default().get()
    }
    fn write(&self, w: Writer, vals: &[Vals], pad: Pad) -> Result<Msg, E> {
        let pts = build::<N, C>(vals, pad);
        match w {
            Writer::Iter => Msg::try_from_iter(pts),
            Writer::IterLazy => {
                let h = vals.iter().fold(vals.len() as u64, |a, v| crate::rng::mix(a ^ v[0]));
                let more = build::<N, C>(&vals[..vals.len().min((h >> 8) as usize % 3)], pad);
                Msg::try_from_iter(Lazy { it: pts.into_iter(), more: more.into_iter(), ended: false, hint: h % 7 })
            }
            Writer::Vec => Msg::try_from_vec(pts),
            #[cfg(feature = "par")]
            Writer::Par => Msg::try_from_par_iter(pts.into_par_iter()),
            #[cfg(feature = "par")]
            Writer::ParFilter => Msg::try_from_par_iter(pts.into_par_iter().filter(|_| true)),
            #[cfg(feature = "par")]
            Writer::ParSkew => par_skew::<N, C>(pts, vals.iter().fold(vals.len() as u64, |a, v| crate::rng::mix(a ^ v[0]))),
            #[cfg(not(feature = "par"))]
            _ => Msg::try_from_vec(pts),
        }
    }
    fn read(&self, r: Reader, msg: Msg) -> Result<Vec<Vals>, E> {
        let cap = usize::try_from(npoints(&msg)).unwrap_or(usize::MAX).saturating_add(SLACK);
        match r {
            Reader::Iter => {
                let it = msg.try_into_iter::<N, C>()?;
                Ok(it.take(cap).map(|p| p.get()).collect())
            }
            Reader::IterFold => {
                let it = PointCloudIterator::<N, C>::try_from(msg)?;
                let mut out = vec![];
                Iterator::for_each(it, |p| out.push(p.get()));
                Ok(out)
            }
            Reader::Vec => Ok(msg.try_into_vec::<N, C>()?.iter().map(|p| p.get()).collect()),
            #[cfg(feature = "par")]
            Reader::IterRev => {
                let it = PointCloudIterator::<N, C>::try_from(msg)?;
                let mut v: Vec<Vals> = Iterator::rev(it).take(cap).map(|p| p.get()).collect();
                v.reverse();
                Ok(v)
            }
            #[cfg(feature = "par")]
            Reader::IterBack => {
                let mut it = PointCloudIterator::<N, C>::try_from(msg)?;
                let mut v = vec![];
                while let Some(p) = it.next_back() {
                    v.push(p.get());
                    if v.len() >= cap {
                        break;
                    }
                }
                v.reverse();
                Ok(v)
            }
            #[cfg(feature = "par")]
            Reader::Par => {
                let it = msg.try_into_par_iter::<N, C>()?;
                let v: Vec<C> = it.collect();
                Ok(v.iter().map(|p| p.get()).collect())
            }
            #[cfg(feature = "par")]
            Reader::ParIndexed => {
                let it = PointCloudIterator::<N, C>::try_from(msg)?;
                let mut v = vec![];
                ParallelIterator::map(it, |p: C| p.get()).collect_into_vec(&mut v);
                Ok(v)
            }
            #[cfg(not(feature = "par"))]
            _ => Ok(msg.try_into_vec::<N, C>()?.iter().map(|p| p.get()).collect()),
        }
    }
    fn read_metered(&self, r: Reader, msg: Msg) -> Metered {
        needed!("c02");
        crate::mon::alloc_reset();
        let result = match r {
            Reader::Iter => msg.try_into_iter::<N, C>().map(|i| i.collect::<Vec<C>>().len()),
            Reader::IterFold => PointCloudIterator::<N, C>::try_from(msg).map(|i| Iterator::count(i)),
            Reader::Vec => msg.try_into_vec::<N, C>().map(|v| v.len()),
            #[cfg(feature = "par")]
            Reader::IterRev => PointCloudIterator::<N, C>::try_from(msg).map(|i| Iterator::rev(i).collect::<Vec<C>>().len()),
            #[cfg(feature = "par")]
            Reader::IterBack => PointCloudIterator::<N, C>::try_from(msg).map(|mut i| {
                let mut n = 0;
                while i.next_back().is_some() {
                    n += 1;
                }
                n
            }),
            #[cfg(feature = "par")]
            Reader::Par => msg.try_into_par_iter::<N, C>().map(|i| i.collect::<Vec<C>>().len()),
            #[cfg(feature = "par")]
            Reader::ParIndexed => PointCloudIterator::<N, C>::try_from(msg).map(|i| {
                let mut v = vec![];
                i.collect_into_vec(&mut v);
                v.len()
            }),
            #[cfg(not(feature = "par"))]
            _ => msg.try_into_vec::<N, C>().map(|v| v.len()),
        };
        let (max, peak) = crate::mon::alloc_read();
        Metered { result, max, peak, point_size: core::mem::size_of::<C>() }
    }
    fn stepper(&self, msg: Msg, public: bool) -> Result<Stepper, E> {
        needed!("c24");
        if public {
            let mut it = msg.try_into_iter::<N, C>()?;
            return Ok(Box::new(move |_| it.next().map(|p| p.get())));
        }
        let mut it = PointCloudIterator::<N, C>::try_from(msg)?;
        #[cfg(feature = "par")]
        return Ok(Box::new(move |back| if back { it.next_back() } else { it.next() }.map(|p| p.get())));
        #[cfg(not(feature = "par"))]
        Ok(Box::new(move |_| it.next().map(|p| p.get())))
    }
    fn write_hooked(&self, vals: &[Vals], hook: &mut dyn FnMut(usize)) -> Result<Msg, E> {
        needed!("c24");
        let pts = build::<N, C>(vals, Pad::Fill(0));
        Msg::try_from_iter(pts.into_iter().enumerate().map(|(i, p)| {
            hook(i);
            p
        }))
    }
    #[cfg(feature = "par")]
    fn par_hooked(&self, msg: Msg, hook: &(dyn Fn(usize) + Sync)) -> Result<Vec<Vals>, E> {
        needed!("c24");
        let it = PointCloudIterator::<N, C>::try_from(msg)?;
        Ok(ParallelIterator::map(IndexedParallelIterator::enumerate(it), |(i, p): (usize, C)| {
            hook(i);
            p.get()
        })
        .collect())
    }
}

impl<const N: usize, C: Subj<N>> Deep for Holder<N, C> {
    fn script(&self, msg: Msg, ops: &[Op]) -> Result<Vec<Obs>, E> {
        needed!("c01", "c02", "c08");
        let it = PointCloudIterator::<N, C>::try_from(msg)?;
        let mut obs = vec![];
        #[cfg(feature = "par")]
        script::run_back(it, ops, &|p: C| p.get(), &mut obs);
        #[cfg(not(feature = "par"))]
        script::run_front(it, ops, &|p: C| p.get(), &mut obs);
        Ok(obs)
    }
    fn script_public(&self, msg: Msg, ops: &[Op]) -> Result<Vec<Obs>, E> {
        needed!("c01", "c02", "c08");
        let it = msg.try_into_iter::<N, C>()?;
        let mut obs = vec![];
        script::run_front(it, ops, &|p: C| p.get(), &mut obs);
        Ok(obs)
    }
    fn split(&self, msg: Msg, plan: &[Cut], drains: &[Drain]) -> Result<SplitObs, E> {
        needed!("c01", "c09");
        let it = PointCloudIterator::<N, C>::try_from(msg)?;
        let mut o = SplitObs::default();
        let mut parts = vec![it];
        for c in plan {
            match c {
                Cut::Front(p, k) => {
                    let got = parts[*p].by_ref().take(*k).map(|x| x.get()).collect();
                    o.events.push((*p, got));
                }
                Cut::Back(p, k) => {
                    #[cfg(feature = "par")]
                    {
                        let mut got = vec![];
                        for _ in 0..*k {
                            match parts[*p].next_back() {
                                Some(x) => got.push(x.get()),
                                None => break,
                            }
                        }
                        o.events.push((*p, got));
                    }
                    #[cfg(not(feature = "par"))]
                    {
                        let _ = k;
                        o.events.push((*p, vec![]));
                    }
                }
                Cut::Split(p, at) => {
                    let it = parts.remove(*p);
                    let (a, b) = it.split_at(*at);
                    parts.insert(*p, b);
                    parts.insert(*p, a);
                }
                Cut::Hint(p) => {
                    let (a, b) = parts[*p].size_hint();
                    o.hints.push((*p, a, b));
                    #[cfg(feature = "par")]
                    {
                        let l = ExactSizeIterator::len(&parts[*p]);
                        let r = IndexedParallelIterator::len(&parts[*p]);
                        let u = ParallelIterator::opt_len(&parts[*p]);
                        o.hints.push((*p, l, Some(r)));
                        o.hints.push((*p, l, u));
                    }
                }
            }
        }
        for (i, mut it) in parts.into_iter().enumerate() {
            let (a, b) = it.size_hint();
            o.hints.push((i, a, b));
            let d = &drains[i % drains.len()];
            let mut got: Vec<Vals> = vec![];
            match d {
                Drain::Front => {
                    while let Some(x) = it.next() {
                        got.push(x.get());
                    }
                }
                Drain::Fold => Iterator::for_each(it, |x| got.push(x.get())),
                #[cfg(feature = "par")]
                Drain::Back => {
                    while let Some(x) = it.next_back() {
                        got.push(x.get());
                    }
                    got.reverse();
                }
                #[cfg(feature = "par")]
                Drain::Alternate => {
                    let mut tail: Vec<Vals> = vec![];
                    loop {
                        match it.next() {
                            Some(x) => got.push(x.get()),
                            None => break,
                        }
                        match it.next_back() {
                            Some(x) => tail.push(x.get()),
                            None => break,
                        }
                    }
                    tail.reverse();
                    got.extend(tail);
                }
                #[cfg(not(feature = "par"))]
                _ => {
                    while let Some(x) = it.next() {
                        got.push(x.get());
                    }
                }
            }
            o.leaves.push(got);
        }
        Ok(o)
    }
    #[cfg(feature = "par")]
    fn producer(&self, msg: Msg, pre: Before, plan: &[(usize, u64)]) -> Result<(Vec<Vec<Vals>>, usize), E> {
        needed!("c09");
        use rayon::iter::plumbing::{Producer, ProducerCallback};
        struct Cb<'a> {
            plan: &'a [(usize, u64)],
            len: usize,
        }
        impl<'a, C2: Send> ProducerCallback<C2> for Cb<'a>
        where
            C2: GetVals,
        {
            type Output = Vec<Vec<Vals>>;
            fn callback<P: Producer<Item = C2>>(self, p: P) -> Self::Output {
                let mut parts = vec![(p, self.len)];
                for (which, at) in self.plan {
                    let i = which % parts.len();
                    let (p, len) = parts.remove(i);
                    let at = (*at % (len as u64 + 1)) as usize;
                    let (a, b) = p.split_at(at);
                    parts.insert(i, (b, len - at));
                    parts.insert(i, (a, at));
                }
                let mut out = vec![];
                for (i, (p, len)) in parts.into_iter().enumerate() {
                    match i % 3 {
                        0 => {
                            let it = p.into_iter();
                            assert_eq!(it.len(), len, "length of a producer part");
                            out.push(it.map(|x| x.vals()).collect());
                        }
                        1 => {
                            let mut v: Vec<Vals> = p.into_iter().rev().map(|x| x.vals()).collect();
                            v.reverse();
                            out.push(v)
                        }
                        _ => out.push(p.fold_with(CollectFolder(vec![])).0),
                    }
                }
                out
            }
        }
        let it = pre.apply(PointCloudIterator::<N, C>::try_from(msg)?);
        let len = IndexedParallelIterator::len(&it);
        let w = ParallelIterator::map(it, |p: C| Wrapped(p.get()));
        let r = IndexedParallelIterator::with_producer(w, Cb { plan, len });
        Ok((r, len))
    }
}

#[cfg(feature = "par")]
impl<const N: usize, C: Subj<N>> Adapt for Holder<N, C> {
    fn par_adapt(&self, msg: Msg, pre: Before, kind: u64, a: usize, b: usize) -> Result<ParObs, E> {
        needed!("c09");
        let spare = clone_exact(&msg);
        let it = pre.apply(PointCloudIterator::<N, C>::try_from(msg)?);
        let mut num = vec![];
        num.push(IndexedParallelIterator::len(&it));
        num.push(ParallelIterator::opt_len(&it).unwrap_or(usize::MAX));
        let get = |p: C| p.get();
        let vals: Vec<Vals> = match kind {
            0 => ParallelIterator::map(it, get).collect(),
            1 => {
                let (i, v): (Vec<usize>, Vec<Vals>) =
                    IndexedParallelIterator::enumerate(it).map(|(i, p)| (i, p.get())).unzip();
                num.push(i.iter().enumerate().filter(|(k, v)| k == *v).count());
                v
            }
            2 => IndexedParallelIterator::rev(it).map(get).collect(),
            3 => IndexedParallelIterator::skip(it, a).map(get).collect(),
            4 => IndexedParallelIterator::take(it, a).map(get).collect(),
            5 => IndexedParallelIterator::step_by(it, a % 7 + 1).map(get).collect(),
            6 => IndexedParallelIterator::chunks(it, a % 9 + 1)
                .map(|c| c.into_iter().map(get).collect::<Vec<_>>())
                .collect::<Vec<_>>()
                .into_iter()
                .flatten()
                .collect(),
            7 => IndexedParallelIterator::with_max_len(it, a % 5 + 1).map(get).collect(),
            8 => IndexedParallelIterator::with_min_len(it, a + 1).map(get).collect(),
            9 => ParallelIterator::filter(it, |p| p.get()[0] % 3 != 0).map(get).collect(),
            10 => {
                let other = PointCloudIterator::<N, C>::try_from(spare)?;
                ParallelIterator::chain(it, other).map(get).collect()
            }
            11 => {
                let other = PointCloudIterator::<N, C>::try_from(spare)?;
                IndexedParallelIterator::zip(IndexedParallelIterator::skip(it, a), other)
                    .map(|(x, y)| {
                        let (x, y) = (x.get(), y.get());
                        let mut z = x;
                        for k in 0..MAXF {
                            z[k] = x[k].rotate_left(7) ^ y[k];
                        }
                        z
                    })
                    .collect()
            }
            12 => ParallelIterator::fold(it, Vec::new, |mut v: Vec<Vals>, p| {
                v.push(p.get());
                v
            })
            .reduce(Vec::new, |mut x, y| {
                x.extend(y);
                x
            }),
            13 => ParallelIterator::flat_map_iter(it, |p| [p.get(), p.get()].into_iter()).collect(),
            14 => {
                num.push(ParallelIterator::count(it));
                vec![]
            }
            15 => {
                let r = IndexedParallelIterator::position_first(it, |p| p.get()[0] % 5 == 0);
                num.push(r.unwrap_or(usize::MAX));
                vec![]
            }
            16 => {
                let r = ParallelIterator::find_first(it, |p| p.get()[0] % 5 == 0);
                r.map(get).into_iter().collect()
            }
            17 => {
                let r = ParallelIterator::find_last(it, |p| p.get()[0] % 5 == 0);
                r.map(get).into_iter().collect()
            }
            18 => {
                let other = PointCloudIterator::<N, C>::try_from(spare)?;
                IndexedParallelIterator::interleave(IndexedParallelIterator::take(it, a), other).map(get).collect()
            }
            19 => {
                // skip / take / rev / enumerate stacked
                IndexedParallelIterator::skip(it, a).take(b).rev().map(get).collect()
            }
            20 => {
                let mut v = Vec::new();
                ParallelIterator::map(it, get).collect_into_vec(&mut v);
                v
            }
            21 => {
                let (l, r): (Vec<Vals>, Vec<Vals>) = ParallelIterator::map(it, get).partition(|v| v[0] % 2 == 0);
                num.push(l.len());
                l.into_iter().chain(r).collect()
            }
            22 => IndexedParallelIterator::by_exponential_blocks(it).map(get).collect(),
            23 => IndexedParallelIterator::by_uniform_blocks(it, a % 11 + 1).map(get).collect(),
            24 => ParallelIterator::map(it, get).collect_vec_list().into_iter().flatten().collect(),
            _ => {
                use std::sync::Mutex;
                let out = Mutex::new(vec![]);
                IndexedParallelIterator::enumerate(it).for_each(|(i, p)| out.lock().unwrap_or_else(|e| e.into_inner()).push((i, p.get())));
                let mut o = out.into_inner().unwrap_or_default();
                o.sort_by_key(|x| x.0);
                o.into_iter().map(|x| x.1).collect()
            }
        };
        Ok(ParObs { vals, num })
    }
}

#[cfg(feature = "par")]
pub struct Wrapped(pub Vals);
#[cfg(feature = "par")]
pub trait GetVals {
    fn vals(&self) -> Vals;
}
#[cfg(feature = "par")]
impl GetVals for Wrapped {
    fn vals(&self) -> Vals {
        self.0
    }
}
#[cfg(feature = "par")]
struct CollectFolder(Vec<Vals>);
#[cfg(feature = "par")]
impl<T: GetVals> rayon::iter::plumbing::Folder<T> for CollectFolder {
    type Result = Vec<Vals>;
    fn consume(mut self, item: T) -> Self {
        self.0.push(item.vals());
        self
    }
    fn complete(self) -> Vec<Vals> {
        self.0
    }
    fn full(&self) -> bool {
        false
    }
}

/// What the rayon adaptor `kind` must yield, by definition of the adaptor on a sequence.
#[cfg(feature = "par")]
pub fn par_adapt_model(all: &[Vals], pre: Before, kind: u64, a: usize, b: usize) -> ParObs {
    let v = &all[pre.range(all.len())];
    let n = v.len();
    let mut num = vec![n, n];
    let vals: Vec<Vals> = match kind {
        1 => {
            num.push(n);
            v.to_vec()
        }
        2 => v.iter().rev().copied().collect(),
        3 => v.iter().skip(a).copied().collect(),
        4 => v.iter().take(a).copied().collect(),
        5 => v.iter().step_by(a % 7 + 1).copied().collect(),
        9 => v.iter().filter(|p| p[0] % 3 != 0).copied().collect(),
        10 => v.iter().chain(all.iter()).copied().collect(),
        11 => v
            .iter()
            .skip(a)
            .zip(all.iter())
            .map(|(x, y)| {
                let mut z = *x;
                for k in 0..MAXF {
                    z[k] = x[k].rotate_left(7) ^ y[k];
                }
                z
            })
            .collect(),
        13 => v.iter().flat_map(|p| [*p, *p]).collect(),
        14 => {
            num.push(n);
            vec![]
        }
        15 => {
            num.push(v.iter().position(|p| p[0] % 5 == 0).unwrap_or(usize::MAX));
            vec![]
        }
        16 => v.iter().find(|p| p[0] % 5 == 0).copied().into_iter().collect(),
        17 => v.iter().rev().find(|p| p[0] % 5 == 0).copied().into_iter().collect(),
        18 => {
            let l = &v[..a.min(n)];
            let mut out = vec![];
            for i in 0..l.len().max(all.len()) {
                if i < l.len() {
                    out.push(l[i]);
                }
                if i < all.len() {
                    out.push(all[i]);
                }
            }
            out
        }
        19 => {
            let mut t: Vec<Vals> = v.iter().skip(a).take(b).copied().collect();
            t.reverse();
            t
        }
        21 => {
            let l: Vec<Vals> = v.iter().filter(|p| p[0] % 2 == 0).copied().collect();
            num.push(l.len());
            l.into_iter().chain(v.iter().filter(|p| p[0] % 2 != 0).copied()).collect()
        }
        _ => v.to_vec(),
    };
    ParObs { vals, num }
}
#[cfg(feature = "par")]
pub const PAR_KINDS: u64 = 26;

// ---------------------------------------------------------------- predefined points

subject!(PointXYZ, 3, "PointXYZ", [0 x: f32 => "x", 1 y: f32 => "y", 2 z: f32 => "z"]);
subject!(PointXYZI, 4, "PointXYZI", [0 x: f32 => "x", 1 y: f32 => "y", 2 z: f32 => "z", 3 intensity: f32 => "intensity"]);
subject!(PointXYZL, 4, "PointXYZL", [0 x: f32 => "x", 1 y: f32 => "y", 2 z: f32 => "z", 3 label: u32 => "label"]);
subject!(PointXYZRGB, 4, "PointXYZRGB", [0 x: f32 => "x", 1 y: f32 => "y", 2 z: f32 => "z", 3 rgb: RGB => "rgb"]);
subject!(PointXYZRGBA, 5, "PointXYZRGBA", [0 x: f32 => "x", 1 y: f32 => "y", 2 z: f32 => "z", 3 rgb: RGB => "rgb", 4 a: u8 => "a"]);
subject!(PointXYZRGBNormal, 7, "PointXYZRGBNormal", [0 x: f32 => "x", 1 y: f32 => "y", 2 z: f32 => "z", 3 rgb: RGB => "rgb",
    4 normal_x: f32 => "normal_x", 5 normal_y: f32 => "normal_y", 6 normal_z: f32 => "normal_z"]);
subject!(PointXYZINormal, 7, "PointXYZINormal", [0 x: f32 => "x", 1 y: f32 => "y", 2 z: f32 => "z", 3 intensity: f32 => "intensity",
    4 normal_x: f32 => "normal_x", 5 normal_y: f32 => "normal_y", 6 normal_z: f32 => "normal_z"]);
subject!(PointXYZRGBL, 5, "PointXYZRGBL", [0 x: f32 => "x", 1 y: f32 => "y", 2 z: f32 => "z", 3 rgb: RGB => "rgb", 4 label: u32 => "label"]);
subject!(PointXYZNormal, 6, "PointXYZNormal", [0 x: f32 => "x", 1 y: f32 => "y", 2 z: f32 => "z",
    3 normal_x: f32 => "normal_x", 4 normal_y: f32 => "normal_y", 5 normal_z: f32 => "normal_z"]);

// ---------------------------------------------------------------- derived points

#[derive(Clone, Copy, Default, PointConvertible)]
#[repr(C)]
pub struct MixedC {
    pub a: u8,
    pub b: f64,
    pub c: u16,
    pub d: f32,
    pub e: i8,
    pub f: i32,
    pub g: i16,
    pub h: u32,
}
subject!(MixedC, 8, "MixedC", [0 a: u8 => "a", 1 b: f64 => "b", 2 c: u16 => "c", 3 d: f32 => "d", 4 e: i8 => "e", 5 f: i32 => "f", 6 g: i16 => "g", 7 h: u32 => "h"]);

// default representation: the compiler reorders the members
#[derive(Clone, Copy, Default, PointConvertible)]
pub struct MixedRust {
    pub a: u8,
    pub b: f64,
    pub c: u16,
    pub d: f32,
    pub e: i8,
    pub f: i32,
    pub g: i16,
    pub h: u32,
}
subject!(MixedRust, 8, "MixedRust", [0 a: u8 => "a", 1 b: f64 => "b", 2 c: u16 => "c", 3 d: f32 => "d", 4 e: i8 => "e", 5 f: i32 => "f", 6 g: i16 => "g", 7 h: u32 => "h"]);

#[derive(Clone, Copy, Default, PointConvertible)]
#[repr(C, packed)]
pub struct PackedAll {
    pub a: u8,
    pub b: f64,
    pub c: u16,
    pub d: f32,
    pub e: i8,
    pub f: i32,
    pub g: i16,
    pub h: u32,
}
subject!(PackedAll, 8, "PackedAll", [0 a: u8 => "a", 1 b: f64 => "b", 2 c: u16 => "c", 3 d: f32 => "d", 4 e: i8 => "e", 5 f: i32 => "f", 6 g: i16 => "g", 7 h: u32 => "h"]);

#[derive(Clone, Copy, Default, PointConvertible)]
#[repr(C)]
pub struct OneByte {
    pub v: u8,
}
subject!(OneByte, 1, "OneByte", [0 v: u8 => "v"]);

#[derive(Clone, Copy, Default, PointConvertible)]
#[repr(C)]
pub struct OneDouble {
    pub t: f64,
}
subject!(OneDouble, 1, "OneDouble", [0 t: f64 => "t"]);

#[derive(Clone, Copy, Default, PointConvertible)]
#[repr(C, align(4))]
pub struct SwappedNames {
    #[rpcl2(rename("y"))]
    pub x: f32,
    #[rpcl2(rename("x"))]
    pub y: f32,
    pub z: f32,
    #[rpcl2(rename("i"))]
    pub intensity: f32,
}
subject!(SwappedNames, 4, "SwappedNames", [0 x: f32 => "y", 1 y: f32 => "x", 2 z: f32 => "z", 3 intensity: f32 => "i"]);

#[derive(Clone, Copy, Default, PointConvertible)]
#[repr(C)]
pub struct Documented {
    /// first coordinate
    pub x: f32,
    pub y: f32,
    /// a documented and renamed member
    #[rpcl2(rename("time"))]
    pub t: u16,
    #[allow(dead_code)]
    pub z: f32,
}
subject!(Documented, 4, "Documented", [0 x: f32 => "x", 1 y: f32 => "y", 2 t: u16 => "time", 3 z: f32 => "z"]);

#[derive(Clone, Copy, Default, PointConvertible)]
#[repr(C)]
pub struct Wide16 {
    pub f00: f32,
    pub f01: f64,
    pub f02: u8,
    pub f03: u8,
    pub f04: u16,
    pub f05: u32,
    pub f06: i8,
    pub f07: i16,
    pub f08: i32,
    pub f09: f32,
    pub f10: f64,
    pub f11: u8,
    pub f12: f32,
    pub f13: u16,
    pub f14: i8,
    pub f15: f64,
}
subject!(Wide16, 16, "Wide16", [0 f00: f32 => "f00", 1 f01: f64 => "f01", 2 f02: u8 => "f02", 3 f03: u8 => "f03", 4 f04: u16 => "f04",
    5 f05: u32 => "f05", 6 f06: i8 => "f06", 7 f07: i16 => "f07", 8 f08: i32 => "f08", 9 f09: f32 => "f09", 10 f10: f64 => "f10",
    11 f11: u8 => "f11", 12 f12: f32 => "f12", 13 f13: u16 => "f13", 14 f14: i8 => "f14", 15 f15: f64 => "f15"]);

#[derive(Clone, Copy, Default, PointConvertible)]
#[repr(C, align(32))]
pub struct Align32 {
    pub x: f32,
    pub y: f32,
    pub q: u8,
}
subject!(Align32, 3, "Align32", [0 x: f32 => "x", 1 y: f32 => "y", 2 q: u8 => "q"]);

#[derive(Clone, Copy, Default, PointConvertible)]
#[repr(C, align(64))]
pub struct Align64 {
    pub id: u16,
    pub x: f64,
}
subject!(Align64, 2, "Align64", [0 id: u16 => "id", 1 x: f64 => "x"]);

/// a point of more than 256 bytes, most of it padding
#[derive(Clone, Copy, Default, PointConvertible)]
#[repr(C, align(512))]
pub struct Align512 {
    pub a: u8,
    pub x: f32,
}
subject!(Align512, 2, "Align512", [0 a: u8 => "a", 1 x: f32 => "x"]);

/// more members than any fixed table of 16 holds, names not in alphabetical order
#[derive(Clone, Copy, Default, PointConvertible)]
#[repr(C)]
pub struct Wide20 {
    pub q: u8,
    pub w: u16,
    pub e: u8,
    pub r: f64,
    pub t: u8,
    pub y: f32,
    pub u: i8,
    pub i: u32,
    pub o: i16,
    pub p: f32,
    pub a: u8,
    pub s: i32,
    pub d: f64,
    pub f: u8,
    pub g: u16,
    pub h: u8,
    pub j: f32,
    pub k: u8,
    pub l: u32,
    pub z: u8,
}
subject!(Wide20, 20, "Wide20", [0 q: u8 => "q", 1 w: u16 => "w", 2 e: u8 => "e", 3 r: f64 => "r", 4 t: u8 => "t", 5 y: f32 => "y", 6 u: i8 => "u",
    7 i: u32 => "i", 8 o: i16 => "o", 9 p: f32 => "p", 10 a: u8 => "a", 11 s: i32 => "s", 12 d: f64 => "d", 13 f: u8 => "f", 14 g: u16 => "g",
    15 h: u8 => "h", 16 j: f32 => "j", 17 k: u8 => "k", 18 l: u32 => "l", 19 z: u8 => "z"]);

#[derive(Clone, Copy, Default, PointConvertible)]
#[repr(C)]
pub struct DoubleXYZ {
    pub x: f64,
    pub y: f64,
    pub z: f64,
}
subject!(DoubleXYZ, 3, "DoubleXYZ", [0 x: f64 => "x", 1 y: f64 => "y", 2 z: f64 => "z"]);

#[derive(Clone, Copy, Default, PointConvertible)]
#[repr(C)]
pub struct ReverseZYX {
    pub z: f32,
    pub y: f32,
    pub x: f32,
}
subject!(ReverseZYX, 3, "ReverseZYX", [0 z: f32 => "z", 1 y: f32 => "y", 2 x: f32 => "x"]);

#[derive(Clone, Copy, Default, PointConvertible)]
#[repr(C)]
pub struct TinyBytes {
    pub a: i8,
    pub b: u8,
    pub c: i8,
}
subject!(TinyBytes, 3, "TinyBytes", [0 a: i8 => "a", 1 b: u8 => "b", 2 c: i8 => "c"]);

#[derive(Clone, Copy, Default, PointConvertible)]
#[repr(C)]
pub struct Ouster {
    pub x: f32,
    pub y: f32,
    pub z: f32,
    pub intensity: f32,
    pub t: u32,
    pub reflectivity: u16,
    pub ring: u16,
    pub ambient: u16,
    pub range: u32,
}
subject!(Ouster, 9, "Ouster", [0 x: f32 => "x", 1 y: f32 => "y", 2 z: f32 => "z", 3 intensity: f32 => "intensity", 4 t: u32 => "t",
    5 reflectivity: u16 => "reflectivity", 6 ring: u16 => "ring", 7 ambient: u16 => "ambient", 8 range: u32 => "range"]);

#[derive(Clone, Copy, Default, PointConvertible)]
#[repr(C)]
pub struct OddNames {
    #[rpcl2(rename(""))]
    pub a: f32,
    #[rpcl2(rename("X"))]
    pub b: u16,
    #[rpcl2(rename("x "))]
    pub c: i16,
    #[rpcl2(rename("intensität/コ"))]
    pub d: u8,
    pub x: f32,
}
subject!(OddNames, 5, "OddNames", [0 a: f32 => "", 1 b: u16 => "X", 2 c: i16 => "x ", 3 d: u8 => "intensität/コ", 4 x: f32 => "x"]);

#[derive(Clone, Copy, Default, PointConvertible)]
pub struct RawIdent {
    pub r#type: u8,
    pub x: f32,
    pub r#fn: u16,
}
subject!(RawIdent, 3, "RawIdent", [0 r#type: u8 => "type", 1 x: f32 => "x", 2 r#fn: u16 => "fn"]);

// ---------------------------------------------------------------- manual implementations

/// a member that is no message field: it pads the layout
#[derive(Clone, Copy, Default)]
#[repr(C)]
pub struct Hidden {
    pub x: f32,
    pub hidden: u32,
    pub y: f32,
    pub tag: u8,
}
impl From<RPCL2Point<3>> for Hidden {
    fn from(p: RPCL2Point<3>) -> Self {
        Hidden { x: p[0].get(), hidden: 0, y: p[1].get(), tag: p[2].get() }
    }
}
impl From<Hidden> for RPCL2Point<3> {
    fn from(p: Hidden) -> Self {
        [p.x.into(), p.y.into(), p.tag.into()].into()
    }
}
unsafe impl PointConvertible<3> for Hidden {
    fn layout() -> LayoutDescription {
        LayoutDescription::new(&[
            LayoutField::new("x", "f32", 4),
            LayoutField::padding(4),
            LayoutField::new("y", "f32", 4),
            LayoutField::new("tag", "u8", 1),
            LayoutField::padding(3),
        ])
    }
}
subject!(Hidden, 3, "Hidden", [0 x: f32 => "x", 1 y: f32 => "y", 2 tag: u8 => "tag"]);

/// a user type as field value
#[derive(Clone, Copy, Default, PartialEq)]
#[repr(transparent)]
pub struct Ring(pub u16);
impl GetFieldDatatype for Ring {
    fn field_datatype() -> FieldDatatype {
        FieldDatatype::U16
    }
}
impl From<Ring> for PointDataBuffer {
    fn from(r: Ring) -> Self {
        r.0.into()
    }
}
impl FromBytes for Ring {
    fn from_be_bytes(b: PointDataBuffer) -> Self {
        Ring(u16::from_be_bytes([b[0], b[1]]))
    }
    fn from_le_bytes(b: PointDataBuffer) -> Self {
        Ring(u16::from_le_bytes([b[0], b[1]]))
    }
}
impl Bits for Ring {
    const TY: Ty = Ty::U16;
    fn to_u64(self) -> u64 {
        self.0 as u64
    }
    fn of_u64(v: u64) -> Self {
        Ring(v as u16)
    }
}
#[derive(Clone, Copy, Default)]
#[repr(C)]
pub struct RingPoint {
    pub rgb: RGB,
    pub ring: Ring,
    pub x: f64,
}
impl From<RPCL2Point<3>> for RingPoint {
    fn from(p: RPCL2Point<3>) -> Self {
        RingPoint { rgb: p[0].get(), ring: p[1].get(), x: p[2].get() }
    }
}
impl From<RingPoint> for RPCL2Point<3> {
    fn from(p: RingPoint) -> Self {
        [ros_pointcloud2::PointData::new(p.rgb), ros_pointcloud2::PointData::new(p.ring), p.x.into()].into()
    }
}
unsafe impl PointConvertible<3> for RingPoint {
    fn layout() -> LayoutDescription {
        const TAIL: usize = core::mem::size_of::<RingPoint>() - core::mem::offset_of!(RingPoint, x) - 8;
        const GAP: usize = core::mem::offset_of!(RingPoint, x) - 6;
        let mut l = vec![
            LayoutField::new("rgb", "rgb", 4),
            LayoutField::new("ring", "u16", 2),
        ];
        if GAP > 0 {
            l.push(LayoutField::padding(GAP));
        }
        l.push(LayoutField::new("x", "F64", 8));
        if TAIL > 0 {
            l.push(LayoutField::padding(TAIL));
        }
        LayoutDescription::new(&l)
    }
}
subject!(RingPoint, 3, "RingPoint", [0 rgb: RGB => "rgb", 1 ring: Ring => "ring", 2 x: f64 => "x"]);

macro_rules! h {
    ($n:literal, $t:ty) => {
        &Holder::<$n, $t>(PhantomData) as &'static dyn Ops
    };
}
pub fn predefined() -> Vec<&'static dyn Ops> {
    vec![
        h!(3, PointXYZ),
        h!(4, PointXYZI),
        h!(4, PointXYZL),
        h!(4, PointXYZRGB),
        h!(5, PointXYZRGBA),
        h!(7, PointXYZRGBNormal),
        h!(7, PointXYZINormal),
        h!(5, PointXYZRGBL),
        h!(6, PointXYZNormal),
    ]
}
pub fn custom() -> Vec<&'static dyn Ops> {
    vec![
        h!(8, MixedC),
        h!(8, MixedRust),
        h!(8, PackedAll),
        h!(1, OneByte),
        h!(1, OneDouble),
        h!(4, SwappedNames),
        h!(4, Documented),
        h!(16, Wide16),
        h!(20, Wide20),
        h!(2, Align512),
        h!(3, Align32),
        h!(2, Align64),
        h!(3, DoubleXYZ),
        h!(3, ReverseZYX),
        h!(3, TinyBytes),
        h!(9, Ouster),
        h!(5, OddNames),
        h!(3, RawIdent),
        h!(3, Hidden),
        h!(3, RingPoint),
    ]
}
pub fn all() -> Vec<&'static dyn Ops> {
    let mut v = predefined();
    v.extend(custom());
    v
}

macro_rules! hd {
    ($tr:ident; $($n:literal, $t:ty);*) => {
        vec![$(&Holder::<$n, $t>(PhantomData) as &'static dyn $tr),*]
    };
}
pub fn giants() -> Vec<&'static dyn crate::props::giant::Giant> {
    use crate::props::giant::Giant;
    hd!(Giant; 1, OneByte; 8, PackedAll; 4, PointXYZI; 3, PointXYZ; 1, OneDouble)
}
pub fn deep() -> Vec<&'static dyn Deep> {
    hd!(Deep; 3, PointXYZ; 5, PointXYZRGBA; 8, MixedC; 1, OneByte; 3, Hidden; 8, PackedAll)
}
#[cfg(feature = "par")]
pub fn adapt() -> Vec<&'static dyn Adapt> {
    hd!(Adapt; 3, PointXYZ; 8, MixedC; 1, OneByte)
}
