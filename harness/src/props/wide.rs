//! Messages of very many fields: a point of 70 members whose long names differ in the tail, in case or by a suffix only,
//! in clouds of up to 70 000 further fields. Used by C03 to C07 and C25.
use crate::model::{clone_exact, code_size, gen_header, get_bits, put_bits, show_msg};
use crate::mon::{guard, Ctx, Hasher};
use crate::rng::Rng;
use crate::wide70::{Wide70, SPEC};
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::ros::PointFieldMsg;
use ros_pointcloud2::{CloudDimensions, Denseness, Endian};

const N: usize = 70;
type Row = [u64; N];
type Res = Result<Vec<Wide70>, MsgConversionError>;

fn reads() -> Vec<(&'static str, fn(PointCloud2Msg) -> Res)> {
    #[allow(unused_mut)]
    let mut v: Vec<(&'static str, fn(PointCloud2Msg) -> Res)> = vec![
        ("try_into_iter", |m| Ok(m.try_into_iter()?.collect())),
        ("try_into_iter nth", |m| {
            let mut it = m.try_into_iter()?;
            let mut v = vec![];
            while let Some(p) = it.nth(0) {
                v.push(p);
            }
            Ok(v)
        }),
        ("try_into_vec", |m| m.try_into_vec()),
    ];
    #[cfg(feature = "par")]
    v.push(("try_into_par_iter", |m| {
        use rayon::iter::ParallelIterator;
        Ok(m.try_into_par_iter()?.collect())
    }));
    v
}
fn writes() -> Vec<(&'static str, fn(Vec<Wide70>) -> Result<PointCloud2Msg, MsgConversionError>)> {
    #[allow(unused_mut)]
    let mut v: Vec<(&'static str, fn(Vec<Wide70>) -> Result<PointCloud2Msg, MsgConversionError>)> = vec![
        ("try_from_iter", |p| PointCloud2Msg::try_from_iter(p)),
        ("try_from_vec", |p| PointCloud2Msg::try_from_vec(p)),
    ];
    #[cfg(feature = "par")]
    v.push(("try_from_par_iter", |p| {
        use rayon::iter::IntoParallelIterator;
        PointCloud2Msg::try_from_par_iter(p.into_par_iter())
    }));
    v
}

fn rows(rng: &mut Rng, n: usize) -> Vec<Row> {
    (0..n)
        .map(|_| {
            core::array::from_fn(|k| {
                let bits = 8 * SPEC[k].2;
                let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
                let v = rng.next() & m;
                // no NaN: moving a signalling one through a float register may change it on some targets
                match SPEC[k].1 {
                    7 => v & !(1 << 23),
                    8 => v & !(1 << 52),
                    _ => v,
                }
            })
        })
        .collect()
}

/// What an independent decoder sees, by name.
fn decode(m: &PointCloud2Msg) -> Result<Vec<Row>, String> {
    let big = m.endian == Endian::Big;
    let step = m.point_step as usize;
    let n = m.dimensions.width as usize * m.dimensions.height as usize;
    let mut at = [0usize; N];
    for (k, (name, code, size)) in SPEC.iter().enumerate() {
        let f: Vec<&PointFieldMsg> = m.fields.iter().filter(|f| f.name == *name).collect();
        match f[..] {
            [f] if f.datatype == *code && f.count == 1 && f.offset as usize + size <= step => at[k] = f.offset as usize,
            _ => return Err(format!("field {name:?} is described as {f:?} (stride {step})")),
        }
    }
    if m.data.len() != n * step {
        return Err(format!("{} bytes for {n} points of stride {step}", m.data.len()));
    }
    Ok((0..n).map(|i| core::array::from_fn(|k| get_bits(&m.data[i * step + at[k]..], SPEC[k].2, big))).collect())
}

fn diff(want: &[Row], got: &[Row]) -> Option<String> {
    if want.len() != got.len() {
        return Some(format!("{} points instead of {}", got.len(), want.len()));
    }
    for (i, (a, b)) in want.iter().zip(got).enumerate() {
        for k in 0..N {
            if a[k] != b[k] {
                return Some(format!("point {i}, field {k} {:?}: bits {:x} instead of {:x}", SPEC[k].0, b[k], a[k]));
            }
        }
    }
    None
}

/// A name like one of the names of the point, but another one.
fn near(rng: &mut Rng, used: &mut std::collections::HashSet<String>) -> String {
    loop {
        let base = SPEC[rng.idx(N)].0;
        let s = match rng.below(8) {
            0 => base.to_uppercase(),
            1 => format!("{base}{}", rng.below(100)),
            2 => format!(" {base}"),
            3 => format!("{base}\0"),
            4 => base[..base.len() - 1].to_string(),
            5 => base[..base.len().min(16)].to_string(),
            6 => base[base.len() / 2..].to_string(),
            _ => format!("e{}", rng.next() % 1_000_000),
        };
        if used.insert(s.clone()) {
            return s;
        }
    }
}

/// A cloud of another producer which has the 70 fields among `extras` others, in any order.
fn foreign(rng: &mut Rng, vals: &[Row], extras: usize, permuted: bool) -> PointCloud2Msg {
    let mut used: std::collections::HashSet<String> = SPEC.iter().map(|s| s.0.to_string()).collect();
    let mut list: Vec<(String, u8)> = SPEC.iter().map(|s| (s.0.to_string(), s.1)).collect();
    for _ in 0..extras {
        list.push((near(rng, &mut used), 1 + rng.below(8) as u8));
    }
    if permuted {
        rng.shuffle(&mut list);
    }
    let mut step = 0u32;
    let gap = if permuted { rng.below(4) } else { 0 };
    let mut fields = vec![];
    for (name, datatype) in list {
        step += if gap > 0 { rng.below(gap) as u32 } else { 0 };
        fields.push(PointFieldMsg { name, offset: step, datatype, count: 1 });
        step += code_size(datatype).unwrap_or(0) as u32;
    }
    step += rng.below(5) as u32;
    if permuted {
        // the list need not be in the order of the bytes
        rng.shuffle(&mut fields);
    }
    let big = rng.chance(1, 2);
    let mut data = vec![0u8; vals.len() * step as usize];
    rng.fill(&mut data);
    let at: Vec<usize> = SPEC.iter().map(|s| fields.iter().find(|f| f.name == s.0).map_or(0, |f| f.offset as usize)).collect();
    for (i, v) in vals.iter().enumerate() {
        for k in 0..N {
            put_bits(&mut data[i * step as usize + at[k]..], SPEC[k].2, big, v[k]);
        }
    }
    PointCloud2Msg {
        header: gen_header(rng),
        dimensions: CloudDimensions { width: vals.len() as u32, height: 1 },
        row_step: vals.len() as u32 * step,
        fields,
        endian: if big { Endian::Big } else { Endian::Little },
        point_step: step,
        data,
        dense: Denseness::Dense,
    }
}

fn show(m: &PointCloud2Msg) -> String {
    let s = show_msg(m);
    let cut = (0..=s.len().min(300)).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0);
    format!("{} fields, stride {}, {} points; {}...", m.fields.len(), m.point_step, m.dimensions.width, &s[..cut])
}

/// One case in 64 is about wide points. True when this case was one.
pub fn wide(ctx: &mut Ctx, rng: &mut Rng) -> bool {
    if ctx.slow || ctx.case % 64 != 9 {
        return false;
    }
    let r = match ctx.prop.as_str() {
        "C03" | "C04" => writing(ctx, rng),
        "C05" | "C06" => reading(ctx, rng),
        _ => faulty(ctx, rng),
    };
    if let Err(e) = r {
        ctx.fail(format!("point of 70 members: {e}"));
    }
    true
}

fn note(ctx: &mut Ctx, m: &PointCloud2Msg) {
    ctx.count("clouds of 70 and more fields");
    let mut h = Hasher::new();
    h.u(70).u(m.fields.len() as u64).u(m.point_step as u64).b(&m.data);
    ctx.nontrivial(h.0);
}

fn writing(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let n = 1 + rng.idx(200);
    let vals = rows(rng, n);
    for (w, f) in writes() {
        ctx.evaluations += 1;
        let pts: Vec<Wide70> = vals.iter().map(Wide70::make).collect();
        let m = match guard(|| f(pts)) {
            Ok(Ok(m)) => m,
            Ok(Err(e)) => return Err(format!("{w} failed: {e:?}")),
            Err(p) => return Err(format!("{w} panicked: {p}")),
        };
        if ctx.prop == "C04" {
            if m.fields.len() != N {
                return Err(format!("{w} described {} fields", m.fields.len()));
            }
            let mut spans: Vec<(u32, u32)> = m.fields.iter().map(|f| (f.offset, f.offset + code_size(f.datatype).unwrap_or(0) as u32)).collect();
            spans.sort();
            if let Some(x) = spans.windows(2).find(|x| x[0].1 > x[1].0) {
                return Err(format!("{w}: fields overlap at {x:?}"));
            }
            let got = decode(&m).map_err(|e| format!("{w}: {e}"))?;
            if let Some(d) = diff(&vals, &got) {
                return Err(format!("{w}: an independent decoder sees {d}"));
            }
            note(ctx, &m);
        } else {
            check(ctx, &m, &vals, w)?;
        }
    }
    Ok(())
}

fn check(ctx: &mut Ctx, m: &PointCloud2Msg, vals: &[Row], what: &str) -> Result<(), String> {
    for (r, f) in reads() {
        ctx.evaluations += 1;
        let m2 = clone_exact(m);
        let bad = match guard(|| f(m2)) {
            Ok(Ok(v)) => diff(vals, &v.iter().map(|p| p.look()).collect::<Vec<_>>()),
            Ok(Err(e)) => Some(format!("rejected with {e:?}")),
            Err(p) => Some(format!("panicked: {p}")),
        };
        if let Some(b) = bad {
            return Err(format!("{what} read with {r}: {b}; {}", show(m)));
        }
    }
    note(ctx, m);
    Ok(())
}

fn extras(ctx: &Ctx, rng: &mut Rng) -> usize {
    match rng.below(8) {
        0 => 0,
        1 => 186 + rng.idx(2),
        2..=5 => rng.idx(300),
        6 => 1000 + rng.idx(2000),
        _ if ctx.case % 128 == 9 => 65_400 + rng.idx(300),
        _ => 40,
    }
}

fn reading(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    if rng.chance(1, 4) {
        return almost_exact(ctx, rng);
    }
    let x = extras(ctx, rng);
    let n = if x > 300 { 1 + rng.idx(3) } else { 1 + rng.idx(40) };
    let vals = rows(rng, n);
    let permuted = rng.chance(3, 4);
    let m = foreign(rng, &vals, x, permuted);
    if x > 65_000 {
        ctx.count("clouds of more than 65 000 fields");
    }
    check(ctx, &m, &vals, "foreign cloud")
}

/// The layout of the point itself, except that some fields of one type trade places and that others follow.
fn almost_exact(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let n = 1 + rng.idx(30);
    let pts: Vec<Wide70> = rows(rng, n).iter().map(Wide70::make).collect();
    let mut m = match guard(|| PointCloud2Msg::try_from_vec(pts)) {
        Ok(Ok(m)) => m,
        o => return Err(format!("try_from_vec: {:?}", o.map(|r| r.map(|_| ())))),
    };
    for _ in 0..rng.below(3) {
        let (a, b) = (rng.idx(N), rng.idx(N));
        let (fa, fb) = (m.fields[a].clone(), m.fields[b].clone());
        if fa.datatype == fb.datatype {
            if rng.chance(1, 2) {
                (m.fields[a].offset, m.fields[b].offset) = (fb.offset, fa.offset);
            } else {
                (m.fields[a].name, m.fields[b].name) = (fb.name, fa.name);
            }
        }
    }
    if rng.chance(1, 3) {
        rng.shuffle(&mut m.fields);
    }
    let mut used: std::collections::HashSet<String> = SPEC.iter().map(|s| s.0.to_string()).collect();
    for _ in 0..rng.below(4) {
        let at = rng.idx(m.fields.len() + 1);
        // other fields may lie on top of the known ones
        m.fields.insert(at, PointFieldMsg { name: near(rng, &mut used), offset: rng.below(100) as u32, datatype: 2, count: 1 });
    }
    let want = decode(&m).map_err(|e| format!("harness: {e}"))?;
    ctx.count("clouds of almost the layout of the point");
    check(ctx, &m, &want, "almost exact cloud")
}

fn faulty(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let n = 1 + rng.idx(4);
    let vals = rows(rng, n);
    let (x, permuted) = (rng.idx(200), rng.chance(1, 2));
    let mut m = foreign(rng, &vals, x, permuted);
    let kind = rng.below(3);
    let mut gone: Vec<String> = vec![];
    match kind {
        0 => {
            let k = match rng.below(4) {
                0 => 1,
                1 => N,
                _ => 1 + rng.idx(N),
            };
            let mut ix: Vec<usize> = (0..N).collect();
            rng.shuffle(&mut ix);
            gone = ix[..k].iter().map(|i| SPEC[*i].0.to_string()).collect();
            gone.sort();
            m.fields.retain(|f| !gone.contains(&f.name));
            if m.fields.is_empty() {
                // without any field a message is faulty in another way as well
                m.fields.push(PointFieldMsg { name: "other".into(), offset: 0, datatype: 2, count: 1 });
            }
        }
        1 => {
            // one field of another type of the same size or smaller: only its code is wrong
            let k = rng.idx(N);
            let Some(f) = m.fields.iter_mut().find(|f| f.name == SPEC[k].0) else { return Ok(()) };
            let c = 1 + rng.below(8) as u8;
            if c == f.datatype || code_size(c) > code_size(f.datatype) {
                return Ok(());
            }
            f.datatype = c;
        }
        _ => {
            // one field behind the end of the point
            let k = rng.idx(N);
            let step = m.point_step;
            let Some(f) = m.fields.iter_mut().find(|f| f.name == SPEC[k].0) else { return Ok(()) };
            f.offset = step + 1 - SPEC[k].2 as u32;
        }
    }
    for (r, f) in reads() {
        ctx.evaluations += 1;
        let m2 = clone_exact(&m);
        let e = match guard(|| f(m2)) {
            Ok(Err(e)) => e,
            Ok(Ok(v)) => return Err(format!("{r} accepted a faulty cloud (kind {kind}) with {} points; {}", v.len(), show(&m))),
            Err(p) => return Err(format!("{r} panicked: {p}; {}", show(&m))),
        };
        let ok = match (&e, kind) {
            // the direct copy has its own answer to missing fields
            (_, 0) if r == "try_into_vec" => true,
            (MsgConversionError::FieldsNotFound(names), 0) => {
                let mut names = names.clone();
                names.sort();
                names == gone
            }
            (_, 0) => false,
            (MsgConversionError::InvalidFieldFormat, 1) => true,
            (MsgConversionError::DataLengthMismatch, 2) => true,
            // C07 demands an error, C25 says which
            _ => ctx.prop != "C25",
        };
        if !ok {
            return Err(format!("{r} answered {e:?} to fault kind {kind} (missing {gone:?}); {}", show(&m)));
        }
    }
    note(ctx, &m);
    Ok(())
}
