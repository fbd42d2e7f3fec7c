//! C14 predefined points: memory, ROS/PCL schema, mutual readability.
use crate::model::*;
use crate::mon::{guard, Ctx, Hasher};
use crate::rng::Rng;
use crate::subjects::*;

/// Parse the `Debug` output of a layout description: (name, type, size) or padding.
#[derive(Debug, PartialEq, Clone)]
pub enum L {
    Field(String, String, usize),
    Pad(usize),
}
pub fn layout_of(s: &dyn Ops) -> Option<Vec<L>> {
    let d = format!("{:?}", s.layout());
    let mut out = vec![];
    let inner = d.strip_prefix("LayoutDescription([")?.strip_suffix("])")?;
    let mut rest = inner;
    while !rest.is_empty() {
        rest = rest.trim_start_matches(", ");
        if let Some(r) = rest.strip_prefix("Padding { size: ") {
            let e = r.find(" }")?;
            out.push(L::Pad(r[..e].parse().ok()?));
            rest = &r[e + 2..];
        } else if let Some(r) = rest.strip_prefix("Field { name: \"") {
            let e = r.find("\", ty: \"")?;
            let name = r[..e].to_string();
            let r = &r[e + 8..];
            let e = r.find("\", size: ")?;
            let ty = r[..e].to_string();
            let r = &r[e + 9..];
            let e = r.find(" }")?;
            out.push(L::Field(name, ty, r[..e].parse().ok()?));
            rest = &r[e + 2..];
        } else {
            return None;
        }
    }
    Some(out)
}
fn ty_name(t: Ty) -> &'static str {
    match t {
        Ty::I8 => "i8",
        Ty::U8 => "u8",
        Ty::I16 => "i16",
        Ty::U16 => "u16",
        Ty::I32 => "i32",
        Ty::U32 => "u32",
        Ty::F32 => "f32",
        Ty::F64 => "f64",
        Ty::Rgb => "rgb",
    }
}

/// The described layout must be the compiler's: every member at its offset, the total the struct's size.
pub fn layout_matches(s: &dyn Ops) -> Result<bool, String> {
    let Some(l) = layout_of(s) else { return Ok(false) };
    let spec = s.fields();
    let mut off = 0;
    let mut seen = vec![false; spec.len()];
    for x in &l {
        match x {
            L::Pad(k) => off += k,
            L::Field(n, t, k) => {
                let Some(i) = spec.iter().position(|f| f.name.escape_debug().to_string() == *n) else {
                    return Err(format!("{}: layout describes a member {n:?} that does not exist: {l:?}", s.name()));
                };
                if seen[i] {
                    return Err(format!("{}: layout describes member {n:?} twice: {l:?}", s.name()));
                }
                seen[i] = true;
                let f = &spec[i];
                if off != f.mem || *k != f.ty.size() || t.to_lowercase() != ty_name(f.ty) {
                    return Err(format!("{}: layout puts {n:?} ({t}, {k} B) at {off}; it is a {:?} of {} B at {}: {l:?}", s.name(), f.ty, f.ty.size(), f.mem));
                }
                off += k;
            }
        }
    }
    if let Some(i) = seen.iter().position(|b| !b) {
        return Err(format!("{}: layout does not describe {:?}: {l:?}", s.name(), spec[i].name));
    }
    if off != s.size() {
        return Err(format!("{}: layout covers {off} bytes of a struct of {}: {l:?}", s.name(), s.size()));
    }
    Ok(true)
}

pub fn c14(ctx: &mut Ctx, rng: &mut Rng) {
    let pre = predefined();
    // all ordered pairs in turn
    let a = pre[(ctx.case / 9 % 9) as usize];
    let b = pre[(ctx.case % 9) as usize];
    let (sa, sb) = (a.fields(), b.fields());
    match guard(|| layout_matches(a)) {
        Ok(Ok(true)) => ctx.count("layouts compared with the compiler's"),
        Ok(Ok(false)) => ctx.count("layout description not readable"),
        Ok(Err(e)) | Err(e) => return ctx.fail(e),
    }
    if a.n() != sa.len() {
        return ctx.fail(format!("{} has {} fields, members {}", a.name(), a.n(), sa.len()));
    }
    let n = if ctx.slow { 2 } else { *rng.pick(&[1usize, 2, 5, 33]) };
    let vals = gen_vals(rng, &sa, n);
    let missing: Vec<&str> = sb.iter().filter(|f| !sa.iter().any(|g| g.name == f.name)).map(|f| f.name).collect();
    for w in WRITERS {
        let m = match guard(|| a.write(*w, &vals, Pad::Junk(3))) {
            Ok(Ok(m)) => m,
            Ok(Err(e)) => return ctx.fail(format!("writing {} with {w:?} failed: {e:?}", a.name())),
            Err(p) => return ctx.fail(format!("writing {} with {w:?} panicked: {p}", a.name())),
        };
        // conventional names and datatypes for the members
        if let Err(e) = written_ok(&m, &sa, n) {
            return ctx.fail(format!("{} written with {w:?}: {e}; {}", a.name(), show_msg(&m)));
        }
        match verdict(&m, &sa) {
            Verdict::Valid(v) => {
                if let Some(d) = same_vals(&vals, &v, &sa) {
                    return ctx.fail(format!("{} written with {w:?}: member under the wrong name: {d}; {}", a.name(), show_msg(&m)));
                }
            }
            v => return ctx.fail(format!("{} written with {w:?}: {}", a.name(), v.tag())),
        }
        for r in READERS {
            ctx.evaluations += 1;
            let m2 = clone_exact(&m);
            let got = match guard(|| b.read(*r, m2)) {
                Err(p) => return ctx.fail(format!("{} ({w:?}) read as {} with {r:?} panicked: {p}", a.name(), b.name())),
                Ok(g) => g,
            };
            match (missing.is_empty(), got) {
                (false, Err(_)) => ctx.count("pairs rejected for missing members"),
                (false, Ok(_)) => return ctx.fail(format!("{} ({w:?}) read as {} with {r:?} succeeded although {missing:?} is missing", a.name(), b.name())),
                (true, Err(e)) => return ctx.fail(format!("{} ({w:?}) read as {} with {r:?} failed: {e:?}", a.name(), b.name())),
                (true, Ok(g)) => {
                    if g.len() != n {
                        return ctx.fail(format!("{} ({w:?}) read as {} with {r:?}: {} of {n} points", a.name(), b.name(), g.len()));
                    }
                    for (i, p) in g.iter().enumerate() {
                        for (k, f) in sb.iter().enumerate() {
                            let j = sa.iter().position(|x| x.name == f.name).unwrap_or(0);
                            if vals[i][j] != p[k] {
                                return ctx.fail(format!("{} ({w:?}) read as {} with {r:?}: point {i} member {:?}: {:#x} instead of {:#x}", a.name(), b.name(), f.name, p[k], vals[i][j]));
                            }
                        }
                    }
                    ctx.count("pairs read with equal shared members");
                }
            }
        }
    }
    let mut h = Hasher::new();
    h.u(14).b(a.name().as_bytes()).b(b.name().as_bytes());
    hash_vals(&mut h, &vals, &sa);
    ctx.nontrivial(h.0);
    if ctx.case % 81 == 7 {
        ctx.sample(|| format!("{} -> {}: missing {missing:?}; {:?}", a.name(), b.name(), layout_of(a)));
    }
}
