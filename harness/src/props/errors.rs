//! C25: an error names the fault. Inputs with exactly one fault, and the text of every error.
use crate::gen;
use crate::model::*;
use crate::mon::{guard, Ctx, Hasher};
use crate::props::read::subject;
use crate::rng::Rng;
use crate::subjects::*;
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::{CloudDimensionsBuilder, PointCloud2MsgBuilder};

/// Text and trait behaviour of an error.
fn text_ok(e: MsgConversionError, names: &[&str]) -> Result<(), String> {
    let t = guard(|| (e.to_string(), format!("{e:?}"), format!("{e}"))).map_err(|p| format!("formatting the error panicked: {p}"))?;
    if t.0.trim().is_empty() || t.1.trim().is_empty() {
        return Err(format!("{} has an empty text", t.1));
    }
    if t.0 != t.2 {
        return Err(format!("two texts of one error: {:?} and {:?}", t.0, t.2));
    }
    for n in names {
        let esc = format!("{n:?}");
        if !n.is_empty() && !t.0.contains(n) && !t.0.contains(&esc[1..esc.len() - 1]) {
            return Err(format!("the text {:?} does not name {n:?}", t.0));
        }
    }
    let b: Box<dyn std::error::Error> = Box::new(e);
    if b.to_string() != t.0 {
        return Err(format!("as a boxed error {:?} reads {:?}", t.0, b.to_string()));
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq)]
enum Want {
    Missing(Vec<String>),
    Type(String),
    Format,
    Length,
    Count,
    Number,
}
fn is(e: &MsgConversionError, w: &Want) -> bool {
    match (e, w) {
        (MsgConversionError::FieldsNotFound(n), Want::Missing(m)) => {
            let (mut n, mut m) = (n.clone(), m.clone());
            n.sort();
            m.sort();
            n == m
        }
        (MsgConversionError::UnsupportedFieldType(t), Want::Type(c)) => t.contains(c.as_str()),
        (MsgConversionError::InvalidFieldFormat, Want::Format) => true,
        (MsgConversionError::DataLengthMismatch, Want::Length) => true,
        (MsgConversionError::UnsupportedFieldCount, Want::Count) => true,
        (MsgConversionError::NumberConversion, Want::Number) => true,
        _ => false,
    }
}
fn names_of(w: &Want) -> Vec<&str> {
    match w {
        Want::Missing(n) => n.iter().map(|s| s.as_str()).collect(),
        Want::Type(t) => vec![t.as_str()],
        _ => vec![],
    }
}

pub fn c25(ctx: &mut Ctx, rng: &mut Rng) {
    if crate::props::wide::wide(ctx, rng) {
        return;
    }
    let r = match rng.below(10) {
        0 | 1 => builder(ctx, rng),
        2 if ctx.case % 16 == 0 && !ctx.slow => oversize(ctx, rng),
        _ => reading(ctx, rng),
    };
    if let Err(e) = r {
        ctx.fail(e);
    }
}

fn judge(ctx: &mut Ctx, what: &str, r: Result<Result<(), MsgConversionError>, String>, want: &Want) -> Result<(), String> {
    ctx.evaluations += 1;
    match r {
        Err(p) => Err(format!("{what} panicked instead of returning {want:?}: {p}")),
        Ok(Ok(())) => Err(format!("{what} succeeded instead of returning {want:?}")),
        Ok(Err(e)) => {
            if !is(&e, want) {
                return Err(format!("{what}: the error is {e:?} instead of {want:?}"));
            }
            ctx.count(&format!("{} errors", err_kind(&e)));
            text_ok(e, &names_of(want)).map_err(|t| format!("{what}: {t}"))
        }
    }
}

fn reading(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let s = subject(rng);
    let spec = s.fields();
    let n = if ctx.slow { rng.idx(4) } else { rng.idx(20) };
    let (mut m, _) = gen::valid_msg(rng, s, n);
    let at: Vec<usize> = spec.iter().map(|f| m.fields.iter().position(|g| g.name == f.name).unwrap_or(0)).collect();
    let k = rng.idx(spec.len());
    let kind = rng.below(5);
    let want = match kind {
        0 => {
            let mut gone = vec![];
            for (j, i) in at.iter().enumerate() {
                if j == k || rng.chance(1, 4) {
                    gone.push(spec[j].name.to_string());
                    m.fields[*i].name = format!("#{}", spec[j].name);
                }
            }
            if rng.chance(1, 2) {
                m.fields.retain(|f| !f.name.starts_with('#'));
            }
            Want::Missing(gone)
        }
        1 => {
            let c = *rng.pick(&[0u8, 9, 10, 11, 12, 64, 100, 127, 128, 129, 200, 254, 255]);
            m.fields[at[k]].datatype = c;
            Want::Type(c.to_string())
        }
        2 => {
            let f = &mut m.fields[at[k]];
            let c = 1 + rng.below(8) as u8;
            if spec[k].ty.accepts(c) || f.offset as u64 + code_size(c).unwrap_or(0) as u64 > m.point_step as u64 {
                return Ok(());
            }
            f.datatype = c;
            Want::Format
        }
        3 => {
            let cut = 1 + rng.idx(m.data.len().max(1));
            if rng.chance(1, 2) && cut <= m.data.len() {
                m.data.truncate(m.data.len() - cut);
            } else {
                m.data.extend((0..1 + rng.idx(40)).map(|_| 7u8));
            }
            m.data.shrink_to_fit();
            Want::Length
        }
        _ => {
            let size = spec[k].ty.size() as u32;
            m.fields[at[k]].offset = match rng.below(3) {
                0 => (m.point_step + 1).saturating_sub(size),
                1 => u32::MAX - rng.below(8) as u32,
                _ => m.point_step.saturating_add(rng.below(100) as u32),
            };
            Want::Length
        }
    };
    for r in READERS {
        // the direct copy compares layouts first and has its own answer to missing fields
        let m2 = clone_exact(&m);
        let got = guard(|| s.read(*r, m2).map(|_| ()));
        if *r == Reader::Vec && kind == 0 {
            match got {
                Ok(Err(e)) => text_ok(e, &[]).map_err(|t| format!("Vec of {}: {t}", s.name()))?,
                Ok(Ok(())) => return Err(format!("Vec of {} succeeded although {want:?}", s.name())),
                Err(p) => return Err(format!("Vec of {} panicked: {p}", s.name())),
            }
            continue;
        }
        judge(ctx, &format!("{r:?} of {} <- {}", s.name(), show_msg(&m)), got, &want)?;
    }
    let mut h = Hasher::new();
    h.u(25).u(kind).b(s.name().as_bytes());
    hash_msg(&mut h, &m);
    ctx.nontrivial(h.0);
    if ctx.case % 997 == 5 {
        ctx.sample(|| format!("{} <- {}: {want:?}", s.name(), show_msg(&m)));
    }
    Ok(())
}

fn builder(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let nf = 1 + rng.idx(9);
    let mut fields: Vec<PointFieldMsg> = (0..nf)
        .map(|i| PointFieldMsg { name: format!("f{i}"), offset: rng.next() as u32, datatype: 1 + rng.below(8) as u8, count: 1 })
        .collect();
    let total: u32 = fields.iter().map(|f| code_size(f.datatype).unwrap_or(0) as u32).sum();
    let mut step = total + rng.below(9) as u32;
    let mut data = vec![3u8; step as usize * rng.idx(9)];
    let k = rng.idx(nf);
    let kind = rng.below(6);
    let want = match kind {
        0 => {
            fields.clear();
            Want::Missing(vec![])
        }
        1 => {
            fields[k].count = *rng.pick(&[0u32, 2, 3, 256, u32::MAX]);
            Want::Count
        }
        2 => {
            let c = *rng.pick(&[0u8, 9, 10, 100, 128, 255]);
            fields[k].datatype = c;
            Want::Type(c.to_string())
        }
        3 => {
            if total < 2 {
                return Ok(());
            }
            step = total - 1 - rng.below(u64::from(total) - 1).min(3) as u32;
            data = vec![9u8; step as usize * rng.idx(9)];
            Want::Format
        }
        4 => {
            if step < 2 {
                return Ok(());
            }
            data.extend(std::iter::repeat(5).take(1 + rng.idx(step as usize - 1)));
            Want::Length
        }
        _ => {
            let w = match rng.below(3) {
                0 => 1u64 << 32,
                1 => u64::MAX - rng.below(5),
                _ => (1 << 32) + (rng.next() >> 2),
            };
            let Ok(w) = usize::try_from(w) else { return Ok(()) };
            ctx.count("dimensions");
            let what = format!("dimensions of width {w}");
            return judge(ctx, &what, guard(|| CloudDimensionsBuilder::new_with_width(w).build().map(|_| ())), &Want::Number);
        }
    };
    let what = format!("builder with {fields:?}, stride {step}, {} bytes", data.len());
    let mut h = Hasher::new();
    h.u(2525).b(what.as_bytes());
    let r = guard(move || PointCloud2MsgBuilder::new().fields(fields).point_step(step).data(data).width(1).build().map(|_| ()));
    judge(ctx, &what, r, &want)?;
    ctx.nontrivial(h.0);
    Ok(())
}

fn oversize(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let n = match usize::try_from((1u64 << 32) / 12 + 1 + rng.below(1000)) {
        Ok(n) => n,
        Err(_) => return Ok(()),
    };
    // untouched zero pages
    let v: Vec<PointXYZ> = unsafe {
        let lay = std::alloc::Layout::array::<PointXYZ>(n).map_err(|e| e.to_string())?;
        let p = std::alloc::alloc_zeroed(lay).cast::<PointXYZ>();
        if p.is_null() {
            return Ok(());
        }
        Vec::from_raw_parts(p, n, n)
    };
    let what = format!("try_from_vec of {n} PointXYZ");
    let r = guard(move || PointCloud2Msg::try_from_vec(v).map(|_| ()));
    judge(ctx, &what, r, &Want::Number)
}
