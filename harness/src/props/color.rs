#![allow(unused_mut)]
//! C16 packed colours.
use crate::mon::{Ctx, Hasher};
use crate::rng::Rng;
use ros_pointcloud2::prelude::*;

/// every case covers 2^16 packed values; 256 cases cover all colours, 65536 cases all 32-bit patterns
fn pack(r: u8, g: u8, b: u8) -> u32 {
    ((r as u32) << 16) | ((g as u32) << 8) | b as u32
}

/// All observations on one colour; returns a complaint. `x` holds all 32 bits.
#[inline]
fn one(x: u32, other: u8) -> Result<(), &'static str> {
    let (r, g, b) = ((x >> 16) as u8, (x >> 8) as u8, x as u8);
    let c = RGB::new_from_packed(x);
    if c.raw().to_bits() != x {
        return Err("new_from_packed -> raw");
    }
    let f = RGB::new_from_packed_f32(f32::from_bits(x));
    if f.raw().to_bits() != x {
        return Err("new_from_packed_f32 -> raw");
    }
    let v: RGB = f32::from_bits(x).into();
    let back: f32 = v.into();
    if back.to_bits() != x {
        return Err("From<f32> / Into<f32>");
    }
    if (c.r(), c.g(), c.b()) != (r, g, b) || (f.r(), f.g(), f.b()) != (r, g, b) || (v.r(), v.g(), v.b()) != (r, g, b) {
        return Err("channels of a packed colour");
    }
    let n = RGB::new(r, g, b);
    if n.raw().to_bits() != pack(r, g, b) {
        return Err("new(r, g, b) -> packing");
    }
    if (n.r(), n.g(), n.b()) != (r, g, b) {
        return Err("new(r, g, b) -> channels");
    }
    // equality is exactly the three channels
    if c != n || n != c || c != f {
        return Err("equal channels compare unequal");
    }
    let mut s = c;
    s.set_r(other);
    if s.raw().to_bits() != (x & 0xFF00_FFFF) | (other as u32) << 16 {
        return Err("set_r");
    }
    if (s == c) != (other == r) {
        return Err("equality after set_r");
    }
    let mut s = c;
    s.set_g(other);
    if s.raw().to_bits() != (x & 0xFFFF_00FF) | (other as u32) << 8 {
        return Err("set_g");
    }
    if (s == c) != (other == g) {
        return Err("equality after set_g");
    }
    let mut s = c;
    s.set_b(other);
    if s.raw().to_bits() != (x & 0xFFFF_FF00) | other as u32 {
        return Err("set_b");
    }
    if (s == c) != (other == b) {
        return Err("equality after set_b");
    }
    Ok(())
}

fn text(x: u32) -> Result<(), String> {
    let (r, g, b) = ((x >> 16) as u8, (x >> 8) as u8, x as u8);
    let c = RGB::new_from_packed(x);
    let d = format!("{c}");
    if d != format!("#{r:02X}{g:02X}{b:02X}") && d != format!("#{r:02x}{g:02x}{b:02x}") {
        return Err(format!("display of {x:#010x} is {d}"));
    }
    let d = format!("{c:?}");
    let squeezed: String = d.chars().filter(|c| !c.is_whitespace()).collect();
    for (n, v) in [("r", r), ("g", g), ("b", b)] {
        let k = format!("{n}:{v}");
        let ok = squeezed.match_indices(&k).any(|(i, _)| {
            let before = squeezed[..i].chars().last().map(|c| !c.is_alphanumeric()).unwrap_or(true);
            let after = squeezed[i + k.len()..].chars().next().map(|c| !c.is_ascii_digit()).unwrap_or(true);
            before && after
        });
        if !ok {
            return Err(format!("debug output of {x:#010x} is {d}, without {k}"));
        }
    }
    Ok(())
}

fn through_message(xs: &[u32]) -> Result<(), String> {
    macro_rules! go {
        ($t:ty, $mk:expr) => {{
            let pts: Vec<$t> = xs.iter().map(|x| $mk(RGB::new_from_packed(*x))).collect();
            let mut msgs = vec![("iter", PointCloud2Msg::try_from_iter(pts.clone())), ("vec", PointCloud2Msg::try_from_vec(pts.clone()))];
            #[cfg(feature = "par")]
            msgs.push(("par", PointCloud2Msg::try_from_par_iter(pts.into_par_iter())));
            for (w, m) in msgs {
                let m = m.map_err(|e| format!("writing {} with {w}: {e:?}", stringify!($t)))?;
                let f = m.fields.iter().find(|f| f.name == "rgb").ok_or_else(|| format!("{} has no rgb field", stringify!($t)))?;
                if f.datatype != 7 {
                    return Err(format!("rgb of {} has datatype {}", stringify!($t), f.datatype));
                }
                for (i, x) in xs.iter().enumerate() {
                    let at = i * m.point_step as usize + f.offset as usize;
                    let raw = u32::from_le_bytes([m.data[at], m.data[at + 1], m.data[at + 2], m.data[at + 3]]);
                    if raw != *x {
                        return Err(format!("{} with {w}: colour {x:#010x} is written as {raw:#010x}", stringify!($t)));
                    }
                }
                // big-endian twin and unsigned packing as other producers send it
                let mut twin = m.clone();
                let step = m.point_step as usize;
                for i in 0..xs.len() {
                    for g in &m.fields {
                        let s = match g.datatype { 1 | 2 => 1, 3 | 4 => 2, 8 => 8, _ => 4 };
                        let a = i * step + g.offset as usize;
                        twin.data[a..a + s].reverse();
                    }
                }
                twin.endian = ros_pointcloud2::Endian::Big;
                let mut as_u32 = m.clone();
                for g in as_u32.fields.iter_mut().filter(|g| g.name == "rgb") {
                    g.datatype = 6;
                }
                for (k, m) in [("as written", m), ("big-endian twin", twin), ("uint32 packed", as_u32)] {
                    let check = |how: &str, v: Vec<$t>| -> Result<(), String> {
                        if v.len() != xs.len() {
                            return Err(format!("{} {w} -> {how}: {} points", stringify!($t), v.len()));
                        }
                        for (p, x) in v.iter().zip(xs) {
                            let got = p.rgb.raw().to_bits();
                            if got != *x || (p.r(), p.g(), p.b()) != ((x >> 16) as u8, (x >> 8) as u8, *x as u8) {
                                return Err(format!("{} {w} -> {how} ({k}): colour {x:#010x} reads back as {got:#010x}", stringify!($t)));
                            }
                        }
                        Ok(())
                    };
                    let e = |e: MsgConversionError| format!("reading {} ({k}): {e:?}", stringify!($t));
                    check("iter", m.clone().try_into_iter().map_err(e)?.collect())?;
                    #[cfg(feature = "par")]
                    check("par", m.clone().try_into_par_iter().map_err(e)?.collect())?;
                    check("vec", m.try_into_vec().map_err(e)?)?;
                }
            }
        }};
    }
    go!(PointXYZRGB, |rgb| PointXYZRGB { rgb, ..Default::default() });
    go!(PointXYZRGBA, |rgb| PointXYZRGBA { rgb, a: 200, ..Default::default() });
    go!(PointXYZRGBNormal, |rgb| PointXYZRGBNormal { rgb, ..Default::default() });
    go!(PointXYZRGBL, |rgb| PointXYZRGBL { rgb, label: 77, ..Default::default() });
    Ok(())
}

pub fn c16(ctx: &mut Ctx, rng: &mut Rng) {
    // exhaustive part: low 24 bits in order, top byte from the case
    let block = (ctx.case % 65536) as u32;
    let hi = if ctx.case < 256 { (block & 0xFF) << 16 } else { block << 16 };
    let tops: Vec<u32> = if ctx.case < 256 { vec![0, (rng.next() as u32) << 24] } else { vec![0] };
    let stride = if ctx.slow { 1021 } else { 1 };
    for top in tops {
        let mut x = 0u32;
        while x < 1 << 16 {
            let v = top | hi | x;
            ctx.evaluations += 1;
            if let Err(e) = one(v, crate::rng::mix(v as u64) as u8) {
                return ctx.fail(format!("colour {v:#010x}: {e}"));
            }
            x += stride;
        }
    }
    let mut h = Hasher::new();
    h.u(16).u(hi as u64);
    // text and messages on random and special patterns
    let k = if ctx.slow { 6 } else { 300 };
    let xs: Vec<u32> = (0..k)
        .map(|i| match i % 4 {
            0 => crate::model::special(rng, crate::model::Ty::Rgb) as u32,
            1 => 0x7F80_0000 | (rng.next() as u32 & 0x007F_FFFF) | ((rng.next() as u32) << 31),
            _ => rng.next() as u32,
        })
        .collect();
    for x in &xs {
        ctx.evaluations += 1;
        h.u(*x as u64);
        if let Err(e) = text(*x) {
            return ctx.fail(e);
        }
        // inequality with a colour that differs in one channel only
        let y = x ^ (1u32 << rng.below(24));
        if RGB::new_from_packed(*x) == RGB::new_from_packed(y) {
            return ctx.fail(format!("{x:#010x} equals {y:#010x}"));
        }
    }
    match crate::mon::guard(|| through_message(&xs)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return ctx.fail(e),
        Err(p) => return ctx.fail(format!("panicked: {p}")),
    }
    ctx.add("colours through messages", 3 * 4 * xs.len() as u64);
    if ctx.case < 256 {
        ctx.count("blocks of the 24-bit colour space covered exhaustively");
    } else {
        ctx.count("blocks of the 32-bit pattern space covered exhaustively");
    }
    ctx.nontrivial(h.0);
    if ctx.case % 64 == 3 {
        ctx.sample(|| format!("block {hi:#010x}..{:#010x} and {k} patterns such as {:#010x}", hi + 0xFFFF, xs[1]));
    }
}
