//! A self-checking workload that needs nothing but `core` and `alloc`.
#![cfg_attr(not(feature = "host"), no_std)]
extern crate alloc;
#[cfg(not(feature = "host"))]
use alloc::{format, string::String, vec, vec::Vec};
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::points::*;
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::ros::{HeaderMsg, TimeMsg};
use ros_pointcloud2::{CloudDimensions, CloudDimensionsBuilder, PointCloud2MsgBuilder, Denseness, Endian, FieldDatatype, PointData};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn idx(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

/// What a run saw; `fail` holds the first complaint.
pub struct Seen {
    pub hash: u64,
    pub checks: u64,
    pub points: u64,
    pub errors: u64,
    pub types: u64,
    pub fail: Option<String>,
}
impl Default for Seen {
    fn default() -> Self {
        Seen { hash: 0xcbf2_9ce4_8422_2325, checks: 0, points: 0, errors: 0, types: 0, fail: None }
    }
}
impl Seen {
    fn u(&mut self, x: u64) {
        for b in x.to_le_bytes() {
            self.hash = (self.hash ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
    fn check(&mut self, ok: bool, what: impl FnOnce() -> String) -> bool {
        self.checks += 1;
        if !ok && self.fail.is_none() {
            self.fail = Some(what());
        }
        ok
    }
}

trait Bits {
    const CODE: u8;
    const SIZE: usize;
    fn bits(&self) -> u64;
    fn of(v: u64) -> Self;
}
macro_rules! bits {
    ($($t:ty, $u:ty, $c:literal);*) => { $(impl Bits for $t {
        const CODE: u8 = $c;
        const SIZE: usize = core::mem::size_of::<$t>();
        fn bits(&self) -> u64 { <$u>::from_ne_bytes(self.to_ne_bytes()) as u64 }
        fn of(v: u64) -> Self { <$t>::from_ne_bytes((v as $u).to_ne_bytes()) }
    })* };
}
bits!(i8, u8, 1; u8, u8, 2; i16, u16, 3; u16, u16, 4; i32, u32, 5; u32, u32, 6; f32, u32, 7; f64, u64, 8);
impl Bits for RGB {
    const CODE: u8 = 7;
    const SIZE: usize = 4;
    fn bits(&self) -> u64 {
        self.raw().to_bits() as u64
    }
    fn of(v: u64) -> Self {
        RGB::new_from_packed(v as u32)
    }
}

trait Subject<const N: usize>: PointConvertible<N> + Copy {
    /// name, code, size
    const FIELDS: [(&'static str, u8, usize); N];
    fn make(v: &[u64; N]) -> Self;
    fn look(&self) -> [u64; N];
}
macro_rules! subject {
    ($t:ty, $n:literal, $($i:literal $m:ident : $mt:ty => $name:literal),*) => {
        impl Subject<$n> for $t {
            const FIELDS: [(&'static str, u8, usize); $n] = [$(($name, <$mt as Bits>::CODE, <$mt as Bits>::SIZE)),*];
            fn make(v: &[u64; $n]) -> Self {
                let mut p = <$t>::default();
                $(p.$m = <$mt as Bits>::of(v[$i]);)*
                p
            }
            fn look(&self) -> [u64; $n] {
                [$({ let m = self.$m; m.bits() }),*]
            }
        }
    };
}
subject!(PointXYZ, 3, 0 x: f32 => "x", 1 y: f32 => "y", 2 z: f32 => "z");
subject!(PointXYZI, 4, 0 x: f32 => "x", 1 y: f32 => "y", 2 z: f32 => "z", 3 intensity: f32 => "intensity");
subject!(PointXYZL, 4, 0 x: f32 => "x", 1 y: f32 => "y", 2 z: f32 => "z", 3 label: u32 => "label");
subject!(PointXYZRGB, 4, 0 x: f32 => "x", 1 y: f32 => "y", 2 z: f32 => "z", 3 rgb: RGB => "rgb");
subject!(PointXYZRGBA, 5, 0 x: f32 => "x", 1 y: f32 => "y", 2 z: f32 => "z", 3 rgb: RGB => "rgb", 4 a: u8 => "a");
subject!(PointXYZRGBL, 5, 0 x: f32 => "x", 1 y: f32 => "y", 2 z: f32 => "z", 3 rgb: RGB => "rgb", 4 label: u32 => "label");
subject!(PointXYZNormal, 6, 0 x: f32 => "x", 1 y: f32 => "y", 2 z: f32 => "z", 3 normal_x: f32 => "normal_x", 4 normal_y: f32 => "normal_y",
    5 normal_z: f32 => "normal_z");
subject!(PointXYZINormal, 7, 0 x: f32 => "x", 1 y: f32 => "y", 2 z: f32 => "z", 3 intensity: f32 => "intensity", 4 normal_x: f32 => "normal_x",
    5 normal_y: f32 => "normal_y", 6 normal_z: f32 => "normal_z");
subject!(PointXYZRGBNormal, 7, 0 x: f32 => "x", 1 y: f32 => "y", 2 z: f32 => "z", 3 rgb: RGB => "rgb", 4 normal_x: f32 => "normal_x",
    5 normal_y: f32 => "normal_y", 6 normal_z: f32 => "normal_z");

/// Written by hand, like in the documentation of the trait.
#[derive(Clone, Copy, Default)]
#[repr(C)]
struct Manual {
    t: f64,
    ring: u16,
    x: f32,
}
impl From<Manual> for RPCL2Point<3> {
    fn from(p: Manual) -> Self {
        [p.t.into(), p.ring.into(), p.x.into()].into()
    }
}
impl From<RPCL2Point<3>> for Manual {
    fn from(p: RPCL2Point<3>) -> Self {
        Manual { t: p[0].get(), ring: p[1].get(), x: p[2].get() }
    }
}
unsafe impl PointConvertible<3> for Manual {
    fn layout() -> LayoutDescription {
        LayoutDescription::new(&[
            LayoutField::new("time", "f64", 8),
            LayoutField::new("ring", "u16", 2),
            LayoutField::padding(2),
            LayoutField::new("x", "f32", 4),
        ])
    }
}
subject!(Manual, 3, 0 t: f64 => "time", 1 ring: u16 => "ring", 2 x: f32 => "x");

#[cfg(feature = "derive")]
mod derived {
    use super::*;

    #[derive(Clone, Copy, Default, PointConvertible)]
    #[repr(C)]
    pub struct Mixed {
        pub a: u8,
        pub b: f64,
        pub c: i16,
        /// documented
        #[rpcl2(rename("dee"))]
        pub d: f32,
        pub e: i8,
        pub f: u32,
        pub g: u16,
        pub h: i32,
    }
    subject!(Mixed, 8, 0 a: u8 => "a", 1 b: f64 => "b", 2 c: i16 => "c", 3 d: f32 => "dee", 4 e: i8 => "e", 5 f: u32 => "f", 6 g: u16 => "g", 7 h: i32 => "h");

    #[derive(Clone, Copy, Default, PointConvertible)]
    pub struct Reordered {
        pub a: u8,
        pub b: f64,
        pub c: i16,
        pub d: f32,
    }
    subject!(Reordered, 4, 0 a: u8 => "a", 1 b: f64 => "b", 2 c: i16 => "c", 3 d: f32 => "d");

    #[derive(Clone, Copy, Default, PointConvertible)]
    #[repr(C, packed)]
    pub struct Packed {
        pub a: u8,
        pub b: f64,
        pub c: u16,
    }
    subject!(Packed, 3, 0 a: u8 => "a", 1 b: f64 => "b", 2 c: u16 => "c");

    #[derive(Clone, Copy, Default, PointConvertible)]
    #[repr(C, align(64))]
    pub struct Aligned {
        pub x: f32,
    }
    subject!(Aligned, 1, 0 x: f32 => "x");
}

/// Without the payload that only exists with the standard library.
fn kind(e: &MsgConversionError) -> u64 {
    let s = format!("{e:?}");
    let name: &str = s.split(|c: char| !c.is_ascii_alphanumeric()).next().unwrap_or("");
    let mut k = 0u64;
    for b in name.bytes() {
        k = k.wrapping_mul(131).wrapping_add(b as u64);
    }
    if let MsgConversionError::FieldsNotFound(v) = e {
        for n in v {
            for b in n.bytes() {
                k = k.wrapping_mul(131).wrapping_add(b as u64);
            }
        }
    }
    k
}

fn bits_of<const N: usize, C: Subject<N>>(rng: &mut Rng) -> [u64; N] {
    let mut v = [0; N];
    for (x, f) in v.iter_mut().zip(C::FIELDS) {
        let m = if f.2 == 8 { u64::MAX } else { (1u64 << (8 * f.2)) - 1 };
        *x = match rng.idx(8) {
            0 => 0,
            1 => m,
            2 => 0x7F80_0001 & m,
            3 => 1 << (8 * f.2 - 1),
            _ => rng.next(),
        } & m;
    }
    v
}

fn outcome<const N: usize, C: Subject<N>>(r: Result<Vec<C>, MsgConversionError>) -> Result<Vec<[u64; N]>, u64> {
    match r {
        Ok(v) => Ok(v.iter().map(|p| p.look()).collect()),
        Err(e) => {
            let text = format!("{e}");
            assert!(!text.is_empty());
            Err(kind(&e))
        }
    }
}

fn reads<const N: usize, C: Subject<N>>(m: &PointCloud2Msg, which: usize) -> Result<Vec<[u64; N]>, u64> {
    let m = m.clone();
    outcome::<N, C>(match which {
        0 => m.try_into_iter().map(|i| i.collect()),
        1 => m.try_into_vec(),
        2 => PointCloudIterator::<N, C>::try_from(m).map(|i| {
            let n = i.size_hint().0;
            let (a, b) = i.split_at(n / 3);
            a.chain(b).collect()
        }),
        _ => PointCloudIterator::<N, C>::try_from(m).map(|mut i| {
            let mut v = vec![];
            let mut left = i.size_hint().0;
            while let Some(p) = i.next() {
                v.push(p);
                left -= 1;
                assert_eq!(i.size_hint(), (left, Some(left)));
            }
            assert!(i.next().is_none());
            v
        }),
    })
}

fn one<const N: usize, C: Subject<N>>(name: &str, rng: &mut Rng, seen: &mut Seen) {
    let n = [0, 1, 2, 3, 7, 16, 40][rng.idx(7)];
    let vals: Vec<[u64; N]> = (0..n).map(|_| bits_of::<N, C>(rng)).collect();
    let pts: Vec<C> = vals.iter().map(|v| C::make(v)).collect();
    seen.points += n as u64;
    seen.types += 1;
    // there and back
    for w in 0..2 {
        let m = if w == 0 { PointCloud2Msg::try_from_iter(pts.iter().copied()) } else { PointCloud2Msg::try_from_vec(pts.clone()) };
        let m = match m {
            Ok(m) => m,
            Err(e) => {
                seen.check(false, || format!("{name}: writing {n} points fails: {e}"));
                return;
            }
        };
        let shape = m.dimensions.width as usize == n
            && m.fields.len() == N
            && m.data.len() == n * m.point_step as usize
            && C::FIELDS.iter().all(|f| m.fields.iter().any(|g| g.name == f.0 && g.datatype == f.1 && g.count == 1));
        seen.check(shape, || format!("{name}: the written message does not describe its bytes: {:?}", (&m.fields, m.point_step)));
        for f in &m.fields {
            seen.u(f.offset as u64);
        }
        for b in &m.data {
            seen.u(*b as u64);
        }
        for r in 0..4 {
            let got = reads::<N, C>(&m, r);
            if !seen.check(got.as_ref() == Ok(&vals), || format!("{name}: {n} points written ({w}) and read ({r}) are {got:x?} instead of {vals:x?}")) {
                return;
            }
        }
        // hostile headers: an answer, and the same one from everybody
        for _ in 0..3 {
            let mut h = m.clone();
            match rng.idx(9) {
                0 => h.point_step = rng.next() as u32,
                1 => h.dimensions = CloudDimensions { width: rng.next() as u32, height: rng.next() as u32 },
                2 => h.data.truncate(rng.idx(h.data.len() + 1)),
                3 => h.fields[rng.idx(N)].datatype = rng.next() as u8,
                4 => h.fields[rng.idx(N)].offset = rng.next() as u32,
                5 => h.fields[rng.idx(N)].name = "gone".into(),
                6 => drop(h.fields.pop()),
                7 => h.endian = Endian::Big,
                _ => h.dimensions.height = 0,
            }
            let first = reads::<N, C>(&h, 0);
            for r in 1..4 {
                let other = reads::<N, C>(&h, r);
                let ok = match (&first, &other) {
                    (Ok(a), Ok(b)) => a == b,
                    (Err(_), Err(_)) => true,
                    _ => false,
                };
                seen.check(ok, || format!("{name}: readers 0 and {r} disagree: {first:x?} and {other:x?}"));
            }
            match first {
                Ok(v) => v.iter().flatten().for_each(|x| seen.u(*x)),
                Err(k) => {
                    seen.errors += 1;
                    seen.u(k)
                }
            }
        }
    }
    // another producer: order, gaps, byte order
    let mut order: Vec<usize> = (0..N).collect();
    for i in (1..N).rev() {
        order.swap(i, rng.idx(i + 1));
    }
    let (mut at, mut fields) = (rng.idx(3), vec![]);
    let mut offs = [0; N];
    for k in order {
        let (name, datatype, size) = C::FIELDS[k];
        offs[k] = at;
        fields.push(PointFieldMsg { name: name.into(), offset: at as u32, datatype, count: 1 });
        at += size + rng.idx(3);
    }
    fields.push(PointFieldMsg { name: "more".into(), offset: at as u32, datatype: 2, count: 1 });
    at += 1;
    let big = rng.idx(2) == 1;
    let mut data = vec![0xA5u8; n * at];
    for (i, v) in vals.iter().enumerate() {
        for k in 0..N {
            let s = C::FIELDS[k].2;
            for b in 0..s {
                let shift = 8 * if big { s - 1 - b } else { b };
                data[i * at + offs[k] + b] = (v[k] >> shift) as u8;
            }
        }
    }
    let m = PointCloud2MsgBuilder::new()
        .header(HeaderMsg { seq: 7, stamp: TimeMsg { sec: -1, nanosec: 5 }, frame_id: "map".into() })
        .width(n as u32)
        .fields(fields)
        .endian(big)
        .point_step(at as u32)
        .row_step((at * n) as u32)
        .data(data)
        .dense(true)
        .build();
    let m = match m {
        Ok(m) => m,
        Err(e) => {
            seen.check(false, || format!("{name}: the builder refuses a valid message: {e}"));
            return;
        }
    };
    seen.check(m.header.frame_id == "map" && m.dense == Denseness::Dense && m.dimensions.width as usize == n, || format!("builder: {m:?}"));
    for r in 0..4 {
        let got = reads::<N, C>(&m, r);
        seen.check(got.as_ref() == Ok(&vals), || format!("{name}: a foreign message of {n} points (big endian: {big}) reads ({r}) as {got:x?} instead of {vals:x?}"));
    }
}

fn scalars(rng: &mut Rng, seen: &mut Seen) {
    let v = rng.next();
    macro_rules! each {
        ($($t:ty => $code:literal, $name:literal);*) => { $({
            let x = <$t as Bits>::of(v);
            let back: $t = PointData::new(x).get();
            seen.check(back.bits() == x.bits(), || format!("{} {:x} comes back as {:x}", $name, x.bits(), back.bits()));
            let d = FieldDatatype::try_from($code as u8).ok();
            let e: Option<FieldDatatype> = $name.parse().ok();
            seen.check(d.is_some() && d == e, || format!("code {} and name {}: {d:?} {e:?}", $code, $name));
            if let Some(d) = d {
                seen.check(d.size() == <$t as Bits>::SIZE && u8::from(d) == $code, || format!("{} has size {}", $name, d.size()));
            }
        })* };
    }
    each!(i8 => 1, "i8"; u8 => 2, "u8"; i16 => 3, "i16"; u16 => 4, "u16"; i32 => 5, "i32"; u32 => 6, "u32"; f32 => 7, "f32"; f64 => 8, "f64");
    let bad = (rng.next() as u8).max(9);
    match FieldDatatype::try_from(bad) {
        Ok(d) => drop(seen.check(false, || format!("code {bad} is {d:?}"))),
        Err(e) => {
            seen.errors += 1;
            seen.check(!format!("{e}").is_empty(), || "an error without text".into());
            seen.u(kind(&e));
        }
    }
    // colours
    let (r, g, b) = (rng.next() as u8, rng.next() as u8, rng.next() as u8);
    let mut c = RGB::new(r, g, b);
    seen.check(c.raw().to_bits() == u32::from_be_bytes([0, r, g, b]), || format!("colour {r} {g} {b} packs to {:x}", c.raw().to_bits()));
    seen.check(format!("{c}") == format!("#{r:02X}{g:02X}{b:02X}"), || format!("colour {r} {g} {b} displays as {c}"));
    c.set_g(!g);
    seen.check((c.r(), c.g(), c.b()) == (r, !g, b), || format!("setting green of {r} {g} {b}"));
    // builders
    let w = (rng.next() >> (rng.next() % 64)) as usize;
    match CloudDimensionsBuilder::new_with_width(w).build() {
        Ok(d) => drop(seen.check(d.width as u64 == w as u64 && d.height == u32::from(w > 0), || format!("{w} wide: {d:?}"))),
        Err(_) => {
            seen.errors += 1;
            seen.check(w as u64 > u32::MAX as u64, || format!("width {w} is refused"));
        }
    }
    let f = PointFieldMsg { name: "x".into(), offset: 0, datatype: (rng.next() % 12) as u8, count: (rng.next() % 3) as u32 };
    let step = (rng.next() % 12) as u32;
    let len = rng.idx(40);
    let valid = f.count == 1 && (1..=8).contains(&f.datatype) && step as usize >= [0, 1, 1, 2, 2, 4, 4, 4, 8, 99, 99, 99][f.datatype as usize] && len % (step.max(1) as usize) == 0;
    let got = PointCloud2MsgBuilder::new().fields(vec![f.clone()]).point_step(step).data(vec![1; len]).build();
    seen.check(got.is_ok() == valid, || format!("builder with {f:?}, stride {step} and {len} bytes: {:?}", got.as_ref().err()));
    if let Err(e) = got {
        seen.errors += 1;
        seen.u(kind(&e));
    }
    #[cfg(feature = "nalg")]
    {
        let p = PointXYZI::new(v as i16 as f32, 0.5, -3.25, 9.0);
        let (a, d) = (p.xyz_f32(), p.xyz_f64());
        seen.check(a.x == p.x && a.y == 0.5 && a.z == -3.25, || "xyz_f32".into());
        seen.check(d.x == p.x as f64 && d.y == 0.5 && d.z == -3.25, || "xyz_f64".into());
        let q: PointXYZ = nalgebra::Point3::<f64>::new(v as i32 as f64, 1.5, 2.5).into();
        seen.check(q.x == v as i32 as f64 as f32 && q.y == 1.5 && q.z == 2.5, || "from Point3".into());
    }
}

pub fn run_case(seed: u64, case: u64, seen: &mut Seen) {
    let mut rng = Rng(seed.wrapping_mul(0xD129_0D3A_87B1_1C05) ^ case.wrapping_mul(0x2545_F491_4F6C_DD1D));
    rng.next();
    let r = &mut rng;
    one::<3, PointXYZ>("PointXYZ", r, seen);
    one::<4, PointXYZI>("PointXYZI", r, seen);
    one::<4, PointXYZL>("PointXYZL", r, seen);
    one::<4, PointXYZRGB>("PointXYZRGB", r, seen);
    one::<5, PointXYZRGBA>("PointXYZRGBA", r, seen);
    one::<5, PointXYZRGBL>("PointXYZRGBL", r, seen);
    one::<6, PointXYZNormal>("PointXYZNormal", r, seen);
    one::<7, PointXYZINormal>("PointXYZINormal", r, seen);
    one::<7, PointXYZRGBNormal>("PointXYZRGBNormal", r, seen);
    one::<3, Manual>("a type written by hand", r, seen);
    #[cfg(feature = "derive")]
    {
        one::<8, derived::Mixed>("a derived type", r, seen);
        one::<4, derived::Reordered>("a derived type without repr", r, seen);
        one::<3, derived::Packed>("a packed derived type", r, seen);
        one::<1, derived::Aligned>("an aligned derived type", r, seen);
    }
    scalars(r, seen);
}

/// One line per case: `case hash checks points errors types`.
pub fn line(case: u64, s: &Seen) -> String {
    format!("case {case} {:016x} {} {} {} {}\n", s.hash, s.checks, s.points, s.errors, s.types)
}
