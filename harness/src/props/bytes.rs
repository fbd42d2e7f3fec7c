//! C11 byte order of message and host, C12 initialised and deterministic bytes.
use crate::gen;
use crate::model::*;
use crate::mon::{guard, poison, Ctx, Hasher};
use crate::props::read::{check_values, subject};
use crate::rng::Rng;
use crate::subjects::*;
use ros_pointcloud2::{Endian, PointCloud2Msg};

/// Kinds whose layout does not depend on the memory layout of the host.
const HOST_FREE: &[&str] = &["packed", "permuted-packed", "random-gaps", "extras-interleaved", "overlapping", "huge-stride"];
const FIXED_MEM: &[&str] = &[
    "exact", "exact+extra", "packed", "random-gaps", "short-stride", "exact-permuted-list", "exact-swapped-offsets",
    "exact-odd-stride", "exact-big-stride", "exact-shifted", "overlapping", "rgb-as-u32",
];

pub fn c11(ctx: &mut Ctx, rng: &mut Rng) {
    let s = subject(rng);
    let spec = s.fields();
    // the same on every host, so that the digests can be compared between hosts
    let n = *rng.pick(&[0usize, 1, 1, 2, 3, 4, 5, 8, 9, 13]);
    let predefined = crate::subjects::predefined().iter().any(|p| p.name() == s.name());
    let kind = if predefined { *rng.pick(FIXED_MEM) } else { *rng.pick(HOST_FREE) };
    let big = rng.chance(1, 2);
    let m = gen::valid_msg_kind(rng, s, n, kind, big);
    let n = npoints(&m) as usize;
    let want = decode(&m, &spec);
    let mut h = Hasher::new();
    h.u(11).b(s.name().as_bytes());
    hash_msg(&mut h, &m);
    // reading: native order and foreign order
    check_values(ctx, rng, s, &m, &want, kind);
    if ctx.failed() {
        return;
    }
    if let Some(t) = gen::other_endian(&m, &spec) {
        debug_assert_eq!(decode(&t, &spec), want);
        check_values(ctx, rng, s, &t, &want, "byte-swapped twin");
        if ctx.failed() {
            return;
        }
        ctx.count("byte-swapped twins compared");
        hash_msg(&mut h, &t);
    }
    hash_vals(&mut h, &want, &spec);
    // writing
    let vals = gen_vals(rng, &spec, n);
    let mut natives: Vec<(Writer, PointCloud2Msg)> = vec![];
    let ws: &[Writer] = if ctx.slow { &[Writer::Iter, Writer::Vec] } else { WRITERS };
    for w in ws {
        ctx.evaluations += 1;
        let m = match guard(|| s.write(*w, &vals, Pad::Junk(7))) {
            Ok(Ok(m)) => m,
            Ok(Err(e)) => return ctx.fail(format!("{w:?} of {n} {} failed: {e:?}", s.name())),
            Err(e) => return ctx.fail(format!("{w:?} of {n} {} panicked: {e}", s.name())),
        };
        natives.push((*w, m));
    }
    for (w, m) in &natives {
        let Verdict::Valid(v) = verdict(m, &spec) else {
            return ctx.fail(format!("{w:?} of {n} {}: message is not valid; {}", s.name(), show_msg(m)));
        };
        if let Some(d) = same_vals(&vals, &v, &spec) {
            return ctx.fail(format!("{w:?} of {n} {}: written bytes decode to other values: {d}; {}", s.name(), show_msg(m)));
        }
        if let Some(t) = gen::other_endian(m, &spec) {
            check_values(ctx, rng, s, &t, &vals, "twin of a written message");
            if ctx.failed() {
                return;
            }
        }
        // what may not differ between hosts
        h.u(m.dimensions.width as u64).u(m.dimensions.height as u64).u((m.endian == Endian::Big) as u64);
        if *w == Writer::Iter {
            hash_msg(&mut h, m);
        } else if *w == Writer::Vec {
            // names and types, in an order that does not depend on the host's layout
            let mut fs: Vec<(&str, u8, u32)> = m.fields.iter().map(|f| (f.name.as_str(), f.datatype, f.count)).collect();
            fs.sort();
            for f in fs {
                h.b(f.0.as_bytes()).u(f.1 as u64).u(f.2 as u64);
            }
        }
        hash_vals(&mut h, &v, &spec);
    }
    if colours(ctx, rng, &mut h) {
        return;
    }
    ctx.nontrivial(h.0);
    if ctx.case % 97 == 5 {
        ctx.sample(|| format!("{} <- {kind}: {}", s.name(), show_msg(&m)));
    }
}

/// Packed colours built from channels must be the ROS packing on every host.
fn colours(ctx: &mut Ctx, rng: &mut Rng, h: &mut Hasher) -> bool {
    use ros_pointcloud2::prelude::*;
    let (r, g, b) = (rng.next() as u8, rng.next() as u8, rng.next() as u8);
    let want = ((r as u32) << 16) | ((g as u32) << 8) | b as u32;
    let mut pts = vec![PointXYZRGB::new(1.0, 2.0, 3.0, r, g, b)];
    let mut q = PointXYZRGB::default();
    q.rgb.set_r(r);
    q.rgb.set_g(g);
    q.rgb.set_b(b);
    pts.push(q);
    for w in 0..2 {
        let p = pts.clone();
        let m = match if w == 0 { PointCloud2Msg::try_from_iter(p) } else { PointCloud2Msg::try_from_vec(p) } {
            Ok(m) => m,
            Err(e) => {
                ctx.fail(format!("writing two coloured points failed: {e:?}"));
                return true;
            }
        };
        let spec = predefined()[3].fields();
        if let Verdict::Valid(v) = verdict(&m, &spec) {
            for x in v {
                h.u(x[3]);
                if x[3] != want as u64 {
                    ctx.fail(format!("colour ({r},{g},{b}) is written as {:#010x}, ROS packs it as {want:#010x}", x[3]));
                    return true;
                }
            }
        }
        let back: Vec<PointXYZRGB> = match m.try_into_iter() {
            Ok(i) => i.collect(),
            Err(e) => {
                ctx.fail(format!("reading two coloured points failed: {e:?}"));
                return true;
            }
        };
        for p in back {
            if (p.r(), p.g(), p.b()) != (r, g, b) {
                ctx.fail(format!("colour ({r},{g},{b}) reads back as ({},{},{})", p.r(), p.g(), p.b()));
                return true;
            }
        }
    }
    ctx.count("colours packed");
    false
}

pub fn c12(ctx: &mut Ctx, rng: &mut Rng) {
    crate::props::giant::stable(ctx);
    let s = subject(rng);
    let spec = s.fields();
    let n = if ctx.slow { *rng.pick(&[1usize, 2, 3, 5]) } else { gen_len(rng, false).min(5000) };
    let vals = gen_vals(rng, &spec, n);
    // thread pools are slow to interpret: one parallel writer per case there
    let only = if ctx.slow { WRITERS_MIN.len() + rng.idx(4) } else { usize::MAX };
    for (k, w) in WRITERS.iter().enumerate() {
        if ctx.slow && k >= WRITERS_MIN.len() && k != only {
            continue;
        }
        let mut first: Option<PointCloud2Msg> = None;
        let rounds: &[(u8, Pad)] =
            &[(0xA5, Pad::Fill(0xC7)), (0x3C, Pad::Junk(rng.next())), (0x91, Pad::Uninit), (0, Pad::Fill(0)), (0xFF, Pad::Fill(0xFF))];
        let rounds = if ctx.slow { &rounds[1..3] } else { rounds };
        for (pat, pd) in rounds {
            if *pat != 0 {
                poison(*pat);
            }
            ctx.evaluations += 1;
            let r = guard(|| s.write(*w, &vals, *pd));
            poison(0);
            let m = match r {
                Ok(Ok(m)) => m,
                Ok(Err(e)) => return ctx.fail(format!("{w:?} of {n} {} failed: {e:?}", s.name())),
                Err(e) => return ctx.fail(format!("{w:?} of {n} {} panicked: {e}", s.name())),
            };
            // every byte decides a branch: tools that track initialisation see it used
            let mut ff = 0u64;
            for b in &m.data {
                if *b == 0xFF {
                    ff += 1;
                }
            }
            ctx.add("message bytes inspected", m.data.len() as u64 + (ff & 0));
            let payload: usize = spec.iter().map(|f| f.ty.size()).sum::<usize>() * n;
            ctx.add("padding bytes inspected", (m.data.len().saturating_sub(payload)) as u64);
            if let Some(f) = &first {
                if let Some(d) = msg_diff(f, &m) {
                    return ctx.fail(format!(
                        "{w:?} of {n} {}: writing equal points twice gave different messages ({d}) when the memory around the members held {pd:?}; {}",
                        s.name(), show_msg(&m)
                    ));
                }
                ctx.count("equal messages");
            } else {
                first = Some(m);
            }
        }
    }
    if n > 0 {
        let mut h = Hasher::new();
        h.u(12).b(s.name().as_bytes());
        hash_vals(&mut h, &vals, &spec);
        ctx.nontrivial(h.0);
    }
    if ctx.case % 997 == 5 {
        ctx.sample(|| format!("{} x {n}: struct of {} bytes with {} bytes of members", s.name(), s.size(), spec.iter().map(|f| f.ty.size()).sum::<usize>()));
    }
}
