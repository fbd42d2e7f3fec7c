//! C17 builders, C21 sizes beyond the message format.
use crate::model::*;
use crate::mon::{alloc_read, alloc_reset, guard, Ctx, Hasher};
use crate::rng::Rng;
use crate::subjects::*;
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::{CloudDimensionsBuilder, Denseness, Endian, PointCloud2MsgBuilder};

pub fn c17(ctx: &mut Ctx, rng: &mut Rng) {
    if rng.chance(1, 6) {
        return dims(ctx, rng);
    }
    // fields: mostly fine, sometimes broken
    // more fields than bytes or 16-bit sizes can count
    let many = !ctx.slow && rng.chance(1, 150);
    let nf = match rng.below(8) {
        _ if many => *rng.pick(&[255, 256, 257, 4096, 8191, 8192, 8193, 16384, 65535, 65536, 65537]) + rng.idx(3),
        0 => 0,
        1 => 20 + rng.idx(400),
        _ => 1 + rng.idx(9),
    };
    let mut fields: Vec<PointFieldMsg> = (0..nf)
        .map(|_| PointFieldMsg {
            name: if many { String::from("f") } else { gen_string(rng) },
            offset: if rng.chance(1, 3) { rng.next() as u32 } else { rng.below(64) as u32 },
            datatype: 1 + rng.below(8) as u8,
            count: 1,
        })
        .collect();
    if many && rng.chance(1, 2) {
        for f in &mut fields {
            f.datatype = 8;
        }
    }
    if nf > 0 && rng.chance(1, 5) {
        let i = rng.idx(nf);
        fields[i].count = *rng.pick(&[0u32, 2, 3, 255, 256, 257, 65537, u32::MAX]);
    }
    if nf > 0 && rng.chance(1, 5) {
        let i = rng.idx(nf);
        fields[i].datatype = *rng.pick(&[0u8, 9, 10, 11, 127, 128, 129, 200, 255]);
    }
    let total: u64 = fields.iter().map(|f| code_size(f.datatype).unwrap_or(0) as u64).sum();
    let step: u32 = match rng.below(12) {
        0 => total.saturating_sub(1) as u32,
        1 => 0,
        2 => total as u32 + 1,
        3 => total as u32 + rng.below(64) as u32,
        4 => u32::MAX,
        5 => *rng.pick(&[1u32 << 31, 65536, 1 << 20, 3, 7]),
        6 => rng.below(total + 1) as u32,
        _ => total as u32,
    };
    // buffer length: multiples of the stride and neighbours; some beyond 32 bits (zero pages, never touched)
    let unit = step.max(1) as u64;
    let mut len: u64 = match rng.below(10) {
        0 => 0,
        1 => rng.below(5000),
        2 => unit.min(1 << 20) * rng.below(30) + 1,
        3 => (unit.min(1 << 20) * (1 + rng.below(30))).saturating_sub(1),
        4 | 5 if !ctx.slow && rng.chance(1, 3) => {
            // multiples of 2^32 off by something, and exact multiples of the stride above 2^32
            let base = 1u64 << 32;
            match rng.below(4) {
                0 => base + rng.below(64),
                1 => (base / unit + 1 + rng.below(3)) * unit,
                2 => base + unit * rng.below(5),
                _ => 2 * base + rng.below(9),
            }
        }
        _ => unit.min(1 << 20) * rng.below(40),
    };
    if len > 12 << 30 || usize::try_from(len).is_err() {
        len = unit % 1000;
    }
    let huge = len > u32::MAX as u64;
    let mut data = vec![0u8; len as usize];
    if !huge {
        rng.fill(&mut data);
    }
    let width = match rng.below(6) {
        0 => 0,
        1 => u32::MAX,
        2 => 1,
        _ => rng.next() as u32,
    };
    let row = rng.next() as u32;
    let (big, dense) = (rng.chance(1, 2), rng.chance(1, 2));
    let header = gen_header(rng);
    let ok = nf > 0
        && fields.iter().all(|f| f.count == 1 && code_size(f.datatype).is_some())
        && step as u64 >= total
        && step > 0
        && len % step as u64 == 0;
    let why = format!(
        "{nf} fields (sizes {total}, counts ok {}, types ok {}), stride {step}, buffer {len}, width {width}",
        fields.iter().all(|f| f.count == 1),
        fields.iter().all(|f| code_size(f.datatype).is_some())
    );
    let ptr = data.as_ptr() as usize;
    let copy = if huge { vec![] } else { data.clone() };
    let fields2 = fields.clone();
    let header2 = header.clone();
    // the order of the setters is the user's choice, a later call wins, a clone goes its own way
    let mut calls: Vec<(u8, bool)> = (0..8).map(|k| (k, true)).collect();
    for i in (1..8).rev() {
        calls.swap(i, rng.idx(i + 1));
    }
    for _ in 0..rng.idx(5) {
        // an earlier call of the same setter with another value
        let k = rng.below(8) as u8;
        let last = calls.iter().position(|c| *c == (k, true)).unwrap();
        calls.insert(rng.idx(last + 1), (k, false));
    }
    let fork = if huge || rng.chance(1, 2) { usize::MAX } else { rng.idx(calls.len()) };
    let mut data = Some(data);
    let res = guard(move || {
        let mut b = PointCloud2MsgBuilder::new();
        for (i, (k, right)) in calls.iter().enumerate() {
            if i == fork {
                let other = b.clone().width(width ^ 5).fields(vec![]).data(vec![7; 5]).point_step(1).dense(!dense).endian(!big).row_step(!row);
                if other.build().is_ok() {
                    panic!("a builder without fields builds");
                }
            }
            let x = !*right as u32;
            b = match k {
                0 => b.header(if *right { header2.clone() } else { Default::default() }),
                1 => b.width(width ^ (77 * x)),
                2 => b.fields(if *right { fields2.clone() } else { vec![PointFieldMsg::default()] }),
                3 => b.endian(big == *right),
                4 => b.point_step(step ^ x),
                5 => b.row_step(row ^ x),
                6 => b.data(if *right { data.take().unwrap() } else { vec![1, 2, 3] }),
                _ => b.dense(dense == *right),
            };
        }
        b.build()
    });
    ctx.evaluations += 1;
    let res = match res {
        Err(p) => return ctx.fail(format!("builder with {why} panicked: {p}")),
        Ok(r) => r,
    };
    match (ok, res) {
        (true, Err(e)) => return ctx.fail(format!("builder rejects {why}: {e:?}")),
        (false, Ok(_)) => return ctx.fail(format!("builder accepts {why}")),
        (false, Err(_)) => ctx.count(if huge { "rejected, buffer above 4 GiB" } else { "rejected" }),
        (true, Ok(m)) => {
            ctx.count(if huge { "built, buffer above 4 GiB" } else { "built" });
            let h = u32::from(width > 0);
            let want = PointCloud2Msg {
                header, fields,
                dimensions: ros_pointcloud2::CloudDimensions { width, height: h },
                endian: if big { Endian::Big } else { Endian::Little },
                point_step: step, row_step: row, data: copy,
                dense: if dense { Denseness::Dense } else { Denseness::Sparse },
            };
            if let Some(d) = meta_diff(&want, &m) {
                return ctx.fail(format!("message built from {why} holds something else: {d}"));
            }
            if m.data.len() as u64 != len || (!huge && m.data != want.data) {
                return ctx.fail(format!("message built from {why}: other data"));
            }
            if huge && m.data.as_ptr() as usize != ptr {
                ctx.count("huge buffer was copied");
            }
        }
    }
    let mut h = Hasher::new();
    h.u(17).b(why.as_bytes()).u(row as u64).u(big as u64 * 2 + dense as u64);
    ctx.nontrivial(h.0);
    if ctx.case % 997 == 5 {
        ctx.sample(|| format!("{why} -> {}", if ok { "built" } else { "error" }));
    }
}

fn dims(ctx: &mut Ctx, rng: &mut Rng) {
    let w: u64 = match rng.below(5) {
        0 => *rng.pick(&[0u64, 1, 2]),
        1 => u32::MAX as u64 - rng.below(3),
        2 => (1u64 << 32) + rng.below(3),
        3 => *rng.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, 1 << 40, 3 << 32, (7 << 32) | 5]),
        _ => rng.next() >> rng.below(64),
    };
    let Ok(w) = usize::try_from(w) else { return };
    ctx.evaluations += 1;
    let fits = w as u64 <= u32::MAX as u64;
    match (fits, guard(|| CloudDimensionsBuilder::new_with_width(w).build())) {
        (_, Err(p)) => return ctx.fail(format!("dimensions builder with width {w} panicked: {p}")),
        (true, Ok(Err(e))) => return ctx.fail(format!("dimensions builder rejects width {w}: {e:?}")),
        (false, Ok(Ok(d))) => return ctx.fail(format!("dimensions builder accepts width {w} as {}x{}", d.width, d.height)),
        (true, Ok(Ok(d))) => {
            if d.width as usize != w || d.height != u32::from(w > 0) {
                return ctx.fail(format!("dimensions for width {w}: {}x{}", d.width, d.height));
            }
            ctx.count("dimensions built");
        }
        (false, Ok(Err(_))) => ctx.count("dimensions rejected"),
    }
    let mut h = Hasher::new();
    h.u(171).u(w as u64);
    ctx.nontrivial(h.0);
}

/// A vector of `n` all-zero points on untouched zero pages.
pub fn zeroed<const N: usize, C: Subj<N>>(n: usize) -> Vec<C> {
    let lay = std::alloc::Layout::array::<C>(n).expect("layout");
    unsafe {
        let p = std::alloc::alloc_zeroed(lay).cast::<C>();
        assert!(!p.is_null(), "no address space for the source");
        Vec::from_raw_parts(p, n, n)
    }
}

fn too_big_vec<const N: usize, C: Subj<N>>(ctx: &mut Ctx, n: usize, how: u64) {
    let name = C::NAME;
    let v = zeroed::<N, C>(n);
    alloc_reset();
    let r = guard(|| match how {
        0 => PointCloud2Msg::try_from_vec(v),
        _ => PointCloud2Msg::try_from_iter(v),
    });
    let (max, _) = alloc_read();
    verdict21(ctx, &format!("{} of {n} {name} ({} B each)", if how == 0 { "try_from_vec" } else { "try_from_iter" }, core::mem::size_of::<C>()), r, n as u128, if how == 0 { Some(max) } else { None });
}
fn too_big_iter<const N: usize, C: Subj<N> + Clone>(ctx: &mut Ctx, n: usize, par: bool) {
    let name = C::NAME;
    let r = guard(|| {
        #[cfg(feature = "par")]
        if par {
            return PointCloud2Msg::try_from_par_iter(rayon::iter::repeat_n(C::default(), n));
        }
        let _ = par;
        PointCloud2Msg::try_from_iter(std::iter::repeat(C::default()).take(n))
    });
    verdict21(ctx, &format!("{} of {n} {name}", if par { "try_from_par_iter" } else { "try_from_iter" }), r, n as u128, None);
}

fn verdict21(ctx: &mut Ctx, what: &str, r: Result<Result<PointCloud2Msg, MsgConversionError>, String>, n: u128, vec_max: Option<usize>) {
    ctx.evaluations += 1;
    match r {
        Err(p) => return ctx.fail(format!("{what} panicked: {p}")),
        Ok(Err(_)) => {
            ctx.count("oversized clouds rejected");
            if let Some(m) = vec_max {
                ctx.add("largest allocation while rejecting", m as u64);
                if m > 64 << 20 {
                    return ctx.fail(format!("{what} failed, but only after allocating {m} bytes"));
                }
            }
        }
        Ok(Ok(m)) => {
            // accepted: then everything must fit and be consistent
            let w = m.dimensions.width as u128 * m.dimensions.height as u128;
            let row = m.dimensions.width as u128 * m.point_step as u128;
            if w != n || m.row_step as u128 != row || row > u32::MAX as u128 || m.data.len() as u128 != n * m.point_step as u128 {
                return ctx.fail(format!("{what} returned a message with width {} height {} stride {} row {} and {} bytes", m.dimensions.width, m.dimensions.height, m.point_step, m.row_step, m.data.len()));
            }
            ctx.count("clouds that fit");
        }
    }
    let mut h = Hasher::new();
    h.u(21).b(what.as_bytes());
    ctx.nontrivial(h.0);
    ctx.sample(|| what.to_string());
}

pub fn c21(ctx: &mut Ctx, rng: &mut Rng) {
    const G4: u64 = 1 << 32;
    let us = |x: u64| usize::try_from(x).unwrap_or(usize::MAX / 128);
    // the first cases are fixed boundary scenarios, the heavy ones are only run once
    match ctx.case {
        0 => return too_big_iter::<3, DoubleXYZ>(ctx, us(G4 / 24 + 1), false),
        1 => return too_big_iter::<1, OneByte>(ctx, us(G4 + 5), false),
        2 => return too_big_vec::<1, OneByte>(ctx, us(G4), 0),
        3 => return too_big_vec::<1, OneByte>(ctx, us(G4 + 3), 0),
        4 => return too_big_vec::<3, PointXYZ>(ctx, us(G4 / 16), 0),
        5 => return too_big_vec::<3, PointXYZ>(ctx, us(G4 / 16 + 1), 0),
        6 => return too_big_vec::<5, PointXYZRGBA>(ctx, us(G4 / 32), 0),
        7 => return too_big_vec::<8, PackedAll>(ctx, us(G4 / 27 + 1), 0),
        8 => return too_big_vec::<2, Align64>(ctx, us(G4 / 64), 0),
        9 => return too_big_vec::<1, OneDouble>(ctx, us(G4 / 8), 0),
        10 if ctx.thorough => return too_big_iter::<1, OneByte>(ctx, us(G4), true),
        11 if ctx.thorough => return too_big_iter::<1, OneByte>(ctx, us(G4), false),
        12 if ctx.thorough => return too_big_vec::<3, DoubleXYZ>(ctx, us(G4 / 24 + 1), 1),
        13 if ctx.thorough => return too_big_iter::<3, DoubleXYZ>(ctx, us(G4 / 24 + 9), true),
        // the largest cloud that fits
        14 if ctx.thorough => return too_big_vec::<3, PointXYZ>(ctx, us(G4 / 16 - 1), 0),
        15 if ctx.thorough => return too_big_iter::<16, Wide16>(ctx, us(G4 / 54 + 1), false),
        16 => return too_big_vec::<1, OneByte>(ctx, us(2 * G4), 0),
        17 => return too_big_vec::<7, PointXYZINormal>(ctx, us(G4 / 32 * 3), 0),
        _ => {}
    }
    // random sizes beyond the limits, all on untouched pages
    let over = |rng: &mut Rng, size: u64| -> usize {
        let base = G4 / size + 1;
        us(match rng.below(4) {
            0 => base,
            1 => base + rng.below(1000),
            2 => base * (1 + rng.below(3)),
            _ => (G4 * (1 + rng.below(3))) / size + rng.below(5) + 1,
        })
    };
    macro_rules! go {
        ($n:literal, $t:ty) => {{
            let k = over(rng, core::mem::size_of::<$t>() as u64);
            too_big_vec::<$n, $t>(ctx, k, 0)
        }};
    }
    match rng.below(14) {
        0 => go!(3, PointXYZ),
        1 => go!(4, PointXYZI),
        2 => go!(4, PointXYZL),
        3 => go!(4, PointXYZRGB),
        4 => go!(5, PointXYZRGBA),
        5 => go!(7, PointXYZRGBNormal),
        6 => go!(5, PointXYZRGBL),
        7 => go!(6, PointXYZNormal),
        8 => go!(8, MixedC),
        9 => go!(8, MixedRust),
        10 => go!(8, PackedAll),
        11 => go!(1, OneByte),
        12 => go!(3, TinyBytes),
        _ => go!(3, Align32),
    }
}
