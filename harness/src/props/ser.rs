//! C18 serialisation.
use crate::gen;
use crate::model::*;
use crate::mon::{guard, Ctx, Hasher};
use crate::props::read::subject;
use crate::rng::Rng;
use crate::subjects::*;
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::{CloudDimensions, Denseness, Endian};
use serde::{de::DeserializeOwned, Serialize};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fmt {
    Bincode,
    Json,
    JsonValue,
    Cbor,
}
const FMTS: [Fmt; 4] = [Fmt::Bincode, Fmt::Json, Fmt::JsonValue, Fmt::Cbor];

fn trip<T: Serialize + DeserializeOwned>(f: Fmt, v: &T) -> Result<T, String> {
    let e = |x: &dyn std::fmt::Display| format!("{f:?}: {x}");
    match f {
        Fmt::Bincode => bincode::deserialize(&bincode::serialize(v).map_err(|x| e(&x))?).map_err(|x| e(&x)),
        Fmt::Json => serde_json::from_str(&serde_json::to_string(v).map_err(|x| e(&x))?).map_err(|x| e(&x)),
        Fmt::JsonValue => serde_json::from_value(serde_json::to_value(v).map_err(|x| e(&x))?).map_err(|x| e(&x)),
        Fmt::Cbor => {
            let mut b = vec![];
            ciborium::into_writer(v, &mut b).map_err(|x| e(&x))?;
            ciborium::from_reader(&b[..]).map_err(|x| e(&x))
        }
    }
}

fn tripped<T: Serialize + DeserializeOwned>(ctx: &mut Ctx, f: Fmt, what: &str, v: &T) -> Option<T> {
    ctx.evaluations += 1;
    match guard(|| trip(f, v)) {
        Ok(Ok(x)) => Some(x),
        Ok(Err(e)) => {
            ctx.fail(format!("{what} does not survive: {e}"));
            None
        }
        Err(p) => {
            ctx.fail(format!("{what} with {f:?} panicked: {p}"));
            None
        }
    }
}

/// exact: the format keeps every bit pattern of a float (NaN payloads included)
fn points<const N: usize, C: Subj<N> + Serialize + DeserializeOwned>(ctx: &mut Ctx, rng: &mut Rng) {
    let spec = C::fields();
    let k = if ctx.slow { 2 } else { 24 };
    for f in FMTS {
        let exact = f == Fmt::Bincode;
        let vals: Vec<Vals> = (0..k)
            .map(|_| {
                let mut v = [0u64; MAXF];
                for (i, s) in spec.iter().enumerate() {
                    v[i] = match s.ty {
                        Ty::F32 | Ty::Rgb if !exact => {
                            // formats that go through decimal or shortened floats: finite values only
                            if f == Fmt::Cbor {
                                let x = value(rng, s.ty) as u32;
                                if f32::from_bits(x).is_finite() { x as u64 } else if s.ty == Ty::Rgb { 0x00FE_1201 } else { f32::INFINITY.to_bits() as u64 }
                            } else {
                                ((rng.range(-100_000, 100_000) as f32) / 16.0).to_bits() as u64
                            }
                        }
                        t => value(rng, t),
                    };
                }
                v
            })
            .collect();
        let pts = build::<N, C>(&vals, Pad::Junk(1));
        let Some(back) = tripped(ctx, f, C::NAME, &pts) else { return };
        let got: Vec<Vals> = back.iter().map(|p| p.get()).collect();
        if let Some(d) = same_vals(&vals, &got, &spec) {
            return ctx.fail(format!("{} through {f:?}: {d}", C::NAME));
        }
        ctx.add(&format!("points through {f:?}"), k);
        let mut h = Hasher::new();
        h.u(18).b(C::NAME.as_bytes()).u(f as u64);
        hash_vals(&mut h, &vals, &spec);
        ctx.nontrivial(h.0);
    }
}

pub fn c18(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(16) {
        0 => points::<3, PointXYZ>(ctx, rng),
        1 => points::<4, PointXYZI>(ctx, rng),
        2 => points::<4, PointXYZL>(ctx, rng),
        3 => points::<4, PointXYZRGB>(ctx, rng),
        4 => points::<5, PointXYZRGBA>(ctx, rng),
        5 => points::<7, PointXYZRGBNormal>(ctx, rng),
        6 => points::<7, PointXYZINormal>(ctx, rng),
        7 => points::<5, PointXYZRGBL>(ctx, rng),
        8 => points::<6, PointXYZNormal>(ctx, rng),
        9 => colours(ctx, rng),
        10 | 11 => parts(ctx, rng),
        _ => messages(ctx, rng),
    }
}

fn colours(ctx: &mut Ctx, rng: &mut Rng) {
    let k = if ctx.slow { 4 } else { 200 };
    for _ in 0..k {
        let x = value(rng, Ty::Rgb) as u32;
        let c = RGB::new_from_packed(x);
        let mut fs = vec![Fmt::Bincode];
        if f32::from_bits(x).is_finite() {
            fs.push(Fmt::Cbor);
        }
        for f in fs {
            let Some(b) = tripped(ctx, f, "RGB", &c) else { return };
            if b.raw().to_bits() != x {
                return ctx.fail(format!("colour {x:#010x} through {f:?} becomes {:#010x}", b.raw().to_bits()));
            }
        }
        let mut h = Hasher::new();
        h.u(181).u(x as u64);
        ctx.nontrivial(h.0);
    }
    ctx.add("colours", k);
}

fn parts(ctx: &mut Ctx, rng: &mut Rng) {
    for f in FMTS {
        let hd = gen_header(rng);
        let Some(b) = tripped(ctx, f, "HeaderMsg", &hd) else { return };
        if b.seq != hd.seq || b.stamp.sec != hd.stamp.sec || b.stamp.nanosec != hd.stamp.nanosec || b.frame_id != hd.frame_id {
            return ctx.fail(format!("header {hd:?} through {f:?} becomes {b:?}"));
        }
        let Some(b) = tripped(ctx, f, "TimeMsg", &hd.stamp) else { return };
        if b.sec != hd.stamp.sec || b.nanosec != hd.stamp.nanosec {
            return ctx.fail(format!("time {:?} through {f:?} becomes {b:?}", hd.stamp));
        }
        let p = PointFieldMsg { name: gen_string(rng), offset: rng.next() as u32, datatype: rng.next() as u8, count: rng.next() as u32 };
        let Some(b) = tripped(ctx, f, "PointFieldMsg", &p) else { return };
        if b.name != p.name || b.offset != p.offset || b.datatype != p.datatype || b.count != p.count {
            return ctx.fail(format!("field {p:?} through {f:?} becomes {b:?}"));
        }
        let d = CloudDimensions { width: rng.next() as u32, height: rng.next() as u32 };
        let Some(b) = tripped(ctx, f, "CloudDimensions", &d) else { return };
        if b.width != d.width || b.height != d.height {
            return ctx.fail(format!("dimensions {d:?} through {f:?} become {b:?}"));
        }
        for e in [Endian::Big, Endian::Little] {
            let Some(b) = tripped(ctx, f, "Endian", &e) else { return };
            if (b == Endian::Big) != (e == Endian::Big) {
                return ctx.fail(format!("{e:?} through {f:?} becomes {b:?}"));
            }
        }
        for e in [Denseness::Dense, Denseness::Sparse] {
            let Some(b) = tripped(ctx, f, "Denseness", &e) else { return };
            if (b == Denseness::Dense) != (e == Denseness::Dense) {
                return ctx.fail(format!("{e:?} through {f:?} becomes {b:?}"));
            }
        }
        let mut h = Hasher::new();
        h.u(182).u(f as u64).b(format!("{hd:?}{p:?}{d:?}").as_bytes());
        ctx.nontrivial(h.0);
        ctx.add("message parts", 8);
    }
}

fn messages(ctx: &mut Ctx, rng: &mut Rng) {
    let s = subject(rng);
    let n = if ctx.slow { 1 } else { rng.idx(40) };
    let (mut m, kind) = gen::valid_msg(rng, s, n);
    if rng.chance(1, 3) {
        gen::mutate(rng, &mut m, &s.fields());
    }
    m.header = gen_header(rng);
    m.dense = if rng.chance(1, 2) { Denseness::Dense } else { Denseness::Sparse };
    for f in FMTS {
        let Some(b) = tripped(ctx, f, "PointCloud2Msg", &m) else { return };
        if let Some(d) = msg_diff(&m, &b) {
            return ctx.fail(format!("message through {f:?}: {d}; {}", show_msg(&m)));
        }
        ctx.count(&format!("messages through {f:?}"));
    }
    let mut h = Hasher::new();
    h.u(183);
    hash_msg(&mut h, &m);
    h.b(format!("{:?}", m.header).as_bytes());
    ctx.nontrivial(h.0);
    if ctx.case % 97 == 5 {
        ctx.sample(|| format!("{kind}: {}", show_msg(&m)));
    }
}
