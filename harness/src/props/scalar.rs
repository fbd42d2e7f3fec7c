//! C20 scalar encoding and datatype codes.
use crate::model::*;
use crate::mon::{guard, Ctx, Hasher};
use crate::rng::Rng;
use crate::subjects::Bits;
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::PointData;

fn check<T: Bits + FromBytes>(v: u64) -> Result<(), String> {
    let size = T::TY.size();
    let x = T::of_u64(v);
    let b: PointDataBuffer = x.into();
    let raw: [u8; 8] = {
        let b: PointDataBuffer = x.into();
        b.raw()
    };
    let (mut le, mut be) = ([0u8; 8], [0u8; 8]);
    put_bits(&mut le, size, false, v);
    put_bits(&mut be, size, true, v);
    if raw[..size] != le[..size] || b.as_slice()[..size] != le[..size] {
        return Err(format!("{:?} {v:#x} is encoded as {:02x?} instead of {:02x?}", T::TY, &raw[..size], &le[..size]));
    }
    for i in 0..size {
        if b[i] != le[i] {
            return Err(format!("{:?} {v:#x}: byte {i} of the buffer is {:#x}", T::TY, b[i]));
        }
    }
    for (nm, got) in [
        ("from_le_bytes(new)", T::from_le_bytes(PointDataBuffer::new(le))),
        ("from_le_bytes(from_slice)", T::from_le_bytes(PointDataBuffer::from_slice(&le[..size]))),
        ("from_le_bytes(encoded)", T::from_le_bytes(x.into())),
        ("from_be_bytes(new)", T::from_be_bytes(PointDataBuffer::new(be))),
        ("from_be_bytes(from slice)", T::from_be_bytes(PointDataBuffer::from(&be[..size]))),
        ("PointData", PointData::new(x).get::<T>()),
    ] {
        if got.to_u64() != v {
            return Err(format!("{:?} {v:#x} via {nm} becomes {:#x}", T::TY, got.to_u64()));
        }
    }
    Ok(())
}
fn check_from<T: Bits + FromBytes + Into<PointData>>(v: u64) -> Result<(), String> {
    check::<T>(v)?;
    let d: PointData = T::of_u64(v).into();
    if d.get::<T>().to_u64() != v {
        return Err(format!("{:?} {v:#x} via From becomes {:#x}", T::TY, d.get::<T>().to_u64()));
    }
    Ok(())
}
fn by_ty(t: Ty, v: u64) -> Result<(), String> {
    match t {
        Ty::I8 => check_from::<i8>(v),
        Ty::U8 => check_from::<u8>(v),
        Ty::I16 => check_from::<i16>(v),
        Ty::U16 => check_from::<u16>(v),
        Ty::I32 => check_from::<i32>(v),
        Ty::U32 => check_from::<u32>(v),
        Ty::F32 => check_from::<f32>(v),
        Ty::F64 => check_from::<f64>(v),
        Ty::Rgb => check::<RGB>(v),
    }
}

fn lib(t: Ty) -> FieldDatatype {
    match t {
        Ty::I8 => FieldDatatype::I8,
        Ty::U8 => FieldDatatype::U8,
        Ty::I16 => FieldDatatype::I16,
        Ty::U16 => FieldDatatype::U16,
        Ty::I32 => FieldDatatype::I32,
        Ty::U32 => FieldDatatype::U32,
        Ty::F32 => FieldDatatype::F32,
        Ty::F64 => FieldDatatype::F64,
        Ty::Rgb => FieldDatatype::RGB,
    }
}
const NAMES: [(&str, Ty); 9] = [
    ("i8", Ty::I8), ("u8", Ty::U8), ("i16", Ty::I16), ("u16", Ty::U16), ("i32", Ty::I32), ("u32", Ty::U32), ("f32", Ty::F32),
    ("f64", Ty::F64), ("rgb", Ty::Rgb),
];

fn tables(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), String> {
    for (n, t) in NAMES {
        let d = lib(t);
        if d.size() != t.size() {
            return Err(format!("size of {t:?} is {}", d.size()));
        }
        if u8::from(d) != t.code() {
            return Err(format!("code of {t:?} is {}", u8::from(d)));
        }
        match n.parse::<FieldDatatype>() {
            Ok(x) if x == d => {}
            x => return Err(format!("name {n:?} maps to {x:?}")),
        }
        ctx.evaluations += 3;
    }
    macro_rules! gets {
        ($($t:ty),*) => { $(
            if <$t as GetFieldDatatype>::field_datatype() != lib(<$t as Bits>::TY) {
                return Err(format!("datatype of {} is {:?}", stringify!($t), <$t as GetFieldDatatype>::field_datatype()));
            }
        )* };
    }
    gets!(i8, u8, i16, u16, i32, u32, f32, f64, RGB);
    for c in 0..=255u8 {
        ctx.evaluations += 2;
        let want = SCALARS.iter().find(|t| t.code() == c).map(|t| lib(*t));
        let got = FieldDatatype::try_from(c).ok();
        if got != want {
            return Err(format!("code {c} maps to {got:?} instead of {want:?}"));
        }
        let f = PointFieldMsg { name: "q".into(), offset: 3, datatype: c, count: 1 };
        let got = FieldDatatype::try_from(&f).ok();
        if got != want {
            return Err(format!("field with code {c} maps to {got:?} instead of {want:?}"));
        }
        if let Some(d) = got {
            if u8::from(d) != c {
                return Err(format!("code {c} does not map back"));
            }
        }
    }
    // other names are errors
    let fixed = ["", "f", "f3", "f16", "f128", "f322", "i64", "u64", "i128", "bool", "usize", "F32", "Rgb", " f32", "f32 ", "rgba", "rg", "float32", "u8\0", "ｕ8", "rgb ", "i-8"];
    for k in 0..80 {
        let s: String = if k < fixed.len() {
            fixed[k].into()
        } else {
            let n = rng.idx(6);
            (0..n).map(|_| *rng.pick(&['i', 'u', 'f', 'r', 'g', 'b', '8', '1', '6', '3', '2', '4', ' '])).collect()
        };
        ctx.evaluations += 1;
        if NAMES.iter().any(|(n, _)| *n == s) {
            continue;
        }
        if let Ok(d) = s.parse::<FieldDatatype>() {
            return Err(format!("name {s:?} maps to {d:?}"));
        }
    }
    Ok(())
}

pub fn c20(ctx: &mut Ctx, rng: &mut Rng) {
    let r = guard(|| body(ctx, rng));
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => ctx.fail(e),
        Err(p) => ctx.fail(format!("panicked: {p}")),
    }
}
fn body(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    tables(rng, ctx)?;
    ctx.count("code and name tables walked");
    let mut h = Hasher::new();
    h.u(20);
    let c = ctx.case;
    if c < 4 {
        // exhaustive 8- and 16-bit scalars
        let t = SCALARS[c as usize];
        let stride = if ctx.slow { 97 } else { 1 };
        let mut v = 0;
        while v <= t.mask() {
            by_ty(t, v)?;
            ctx.evaluations += 7;
            v += stride;
        }
        h.u(c);
        ctx.count("scalar types walked exhaustively");
    } else if ctx.thorough && !ctx.slow && c < 4 + 4 * 4096 {
        // exhaustive 32-bit scalars, 2^20 patterns per case
        let k = c - 4;
        let t = [Ty::I32, Ty::U32, Ty::F32, Ty::Rgb][(k % 4) as usize];
        let base = (k / 4) << 20;
        for v in base..base + (1 << 20) {
            by_ty(t, v)?;
        }
        ctx.evaluations += 7 << 20;
        h.u(c);
        ctx.count("blocks of 2^20 32-bit patterns walked exhaustively");
    } else {
        let k = if ctx.slow { 20 } else { 4000 };
        for _ in 0..k {
            let t = *rng.pick(&[Ty::I32, Ty::U32, Ty::F32, Ty::F64, Ty::F64, Ty::Rgb, Ty::F64]);
            let v = match rng.below(3) {
                0 => special(rng, t),
                // one set byte, to see every byte position
                1 => (0x81u64 << (8 * rng.below(t.size() as u64))) & t.mask(),
                _ => rng.next() & t.mask(),
            };
            h.u(v);
            by_ty(t, v)?;
            ctx.evaluations += 7;
        }
        ctx.add("random and special patterns", k);
    }
    ctx.nontrivial(h.0);
    if c % 50 == 7 {
        ctx.sample(|| format!("block {c}: e.g. f64 {:#x}", value(rng, Ty::F64)));
    }
    Ok(())
}
