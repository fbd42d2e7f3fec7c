//! C22 constructors and accessors.
use crate::model::*;
use crate::mon::{guard, Ctx, Hasher};
use crate::rng::Rng;
use ros_pointcloud2::prelude::*;

struct A {
    f: [f32; 8],
    ch: [u8; 4],
    label: u32,
}
fn b(x: f32) -> u32 {
    x.to_bits()
}

fn body(a: &A) -> Result<(), String> {
    let f = &a.f;
    let [r, g, bl, al] = a.ch;
    macro_rules! same {
        ($what:expr, $($got:expr => $want:expr),* $(,)?) => { $(
            if $got != $want {
                return Err(format!("{}: {} is {:?} instead of {:?}", $what, stringify!($got), $got, $want));
            }
        )* };
    }
    let p = PointXYZ::new(f[0], f[1], f[2]);
    same!("PointXYZ::new", b(p.x) => b(f[0]), b(p.y) => b(f[1]), b(p.z) => b(f[2]));
    let i = PointXYZI::new(f[0], f[1], f[2], f[3]);
    same!("PointXYZI::new", b(i.x) => b(f[0]), b(i.y) => b(f[1]), b(i.z) => b(f[2]), b(i.intensity) => b(f[3]));
    let l = PointXYZL::new(f[0], f[1], f[2], a.label);
    same!("PointXYZL::new", b(l.x) => b(f[0]), b(l.y) => b(f[1]), b(l.z) => b(f[2]), l.label => a.label);
    let c = PointXYZRGB::new(f[0], f[1], f[2], r, g, bl);
    same!("PointXYZRGB::new", b(c.x) => b(f[0]), b(c.y) => b(f[1]), b(c.z) => b(f[2]), c.r() => r, c.g() => g, c.b() => bl,
        (c.rgb.r(), c.rgb.g(), c.rgb.b()) => (r, g, bl));
    let d = PointXYZRGBA::new(f[0], f[1], f[2], r, g, bl, al);
    same!("PointXYZRGBA::new", b(d.x) => b(f[0]), b(d.y) => b(f[1]), b(d.z) => b(f[2]), d.r() => r, d.g() => g, d.b() => bl, d.a => al,
        (d.rgb.r(), d.rgb.g(), d.rgb.b()) => (r, g, bl));
    let rgb = RGB::new_from_packed(a.label);
    let e = PointXYZRGBNormal::new(f[0], f[1], f[2], rgb, f[3], f[4], f[5]);
    same!("PointXYZRGBNormal::new", b(e.x) => b(f[0]), b(e.y) => b(f[1]), b(e.z) => b(f[2]), e.rgb.raw().to_bits() => a.label,
        b(e.normal_x) => b(f[3]), b(e.normal_y) => b(f[4]), b(e.normal_z) => b(f[5]),
        (e.r(), e.g(), e.b()) => ((a.label >> 16) as u8, (a.label >> 8) as u8, a.label as u8));
    let n = PointXYZINormal::new(f[0], f[1], f[2], f[3], f[4], f[5], f[6]);
    same!("PointXYZINormal::new", b(n.x) => b(f[0]), b(n.y) => b(f[1]), b(n.z) => b(f[2]), b(n.intensity) => b(f[3]),
        b(n.normal_x) => b(f[4]), b(n.normal_y) => b(f[5]), b(n.normal_z) => b(f[6]));
    let q = PointXYZRGBL::new(f[0], f[1], f[2], r, g, bl, a.label);
    same!("PointXYZRGBL::new", b(q.x) => b(f[0]), b(q.y) => b(f[1]), b(q.z) => b(f[2]), q.r() => r, q.g() => g, q.b() => bl, q.label => a.label);
    let m = PointXYZNormal::new(f[0], f[1], f[2], f[3], f[4], f[5]);
    same!("PointXYZNormal::new", b(m.x) => b(f[0]), b(m.y) => b(f[1]), b(m.z) => b(f[2]),
        b(m.normal_x) => b(f[3]), b(m.normal_y) => b(f[4]), b(m.normal_z) => b(f[5]));
    // defaults are zero everywhere
    let z = PointXYZRGBA::default();
    same!("PointXYZRGBA::default", b(z.x) => 0, b(z.y) => 0, b(z.z) => 0, z.rgb.raw().to_bits() => 0, z.a => 0);

    #[cfg(feature = "nalg")]
    {
        use nalgebra::Point3;
        // plain widening keeps the value (NaN stays NaN)
        let w = |got: f64, x: f32| got.to_bits() == (x as f64).to_bits() || (got.is_nan() && x.is_nan());
        let nr = |got: f32, x: f64| got.to_bits() == (x as f32).to_bits() || (got.is_nan() && x.is_nan());
        macro_rules! coords {
            ($($v:ident),*) => { $(
                let s = $v.xyz_f32();
                same!(concat!(stringify!($v), ".xyz_f32()"), b(s.x) => b(f[0]), b(s.y) => b(f[1]), b(s.z) => b(f[2]));
                #[allow(deprecated)]
                let s = $v.xyz();
                same!(concat!(stringify!($v), ".xyz()"), b(s.x) => b(f[0]), b(s.y) => b(f[1]), b(s.z) => b(f[2]));
                let t = $v.xyz_f64();
                if !(w(t.x, f[0]) && w(t.y, f[1]) && w(t.z, f[2])) {
                    return Err(format!("{}.xyz_f64() is {t:?} for {:?}", stringify!($v), &f[..3]));
                }
            )* };
        }
        coords!(p, i, l, c, d, e, n, q, m);
        let s: Point3<f32> = p.into();
        same!("Point3<f32> from PointXYZ", b(s.x) => b(f[0]), b(s.y) => b(f[1]), b(s.z) => b(f[2]));
        let s: Point3<f32> = (&p).into();
        same!("Point3<f32> from &PointXYZ", b(s.x) => b(f[0]), b(s.y) => b(f[1]), b(s.z) => b(f[2]));
        for (nm, t) in [("PointXYZ", Point3::<f64>::from(p)), ("&PointXYZ", Point3::<f64>::from(&p))] {
            if !(w(t.x, f[0]) && w(t.y, f[1]) && w(t.z, f[2])) {
                return Err(format!("Point3<f64> from {nm} is {t:?} for {:?}", &f[..3]));
            }
        }
        let o = Point3::new(f[3], f[4], f[5]);
        for (nm, t) in [("Point3<f32>", PointXYZ::from(o)), ("&Point3<f32>", PointXYZ::from(&o))] {
            same!(format!("PointXYZ from {nm}"), b(t.x) => b(f[3]), b(t.y) => b(f[4]), b(t.z) => b(f[5]));
        }
        // narrowing, with values that need rounding, overflow to infinity or become subnormal
        let mk = |x: f32, k: u32| f64::from_bits((x as f64).to_bits() ^ ((k as u64) << 3) ^ (k as u64 & 0x70) << 52);
        let o = Point3::new(mk(f[0], a.label), mk(f[1], a.label.rotate_left(7)), mk(f[2], a.label.rotate_left(19)));
        for (nm, t) in [("Point3<f64>", PointXYZ::from(o)), ("&Point3<f64>", PointXYZ::from(&o))] {
            if !(nr(t.x, o.x) && nr(t.y, o.y) && nr(t.z, o.z)) {
                return Err(format!("PointXYZ from {nm} {o:?} is {t:?}"));
            }
        }
    }
    Ok(())
}

pub fn c22(ctx: &mut Ctx, rng: &mut Rng) {
    let k = if ctx.slow { 3 } else { 200 };
    let mut h = Hasher::new();
    h.u(22);
    for j in 0..k {
        let mut f = [0f32; 8];
        for x in &mut f {
            *x = f32::from_bits(value(rng, Ty::F32) as u32);
            h.u(x.to_bits() as u64);
        }
        let ch = [rng.next() as u8, rng.next() as u8, rng.next() as u8, rng.next() as u8];
        let label = value(rng, Ty::U32) as u32;
        h.u(label as u64).u(u32::from_le_bytes(ch) as u64);
        ctx.evaluations += 1;
        let a = A { f, ch, label };
        match guard(|| body(&a)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return ctx.fail(e),
            Err(p) => return ctx.fail(format!("panicked: {p}")),
        }
        if ctx.case % 50 == 7 && j == 0 {
            ctx.sample(|| format!("coordinates {:?}, channels {ch:?}, label {label}", &f[..7]));
        }
    }
    ctx.add("argument tuples", k);
    ctx.nontrivial(h.0);
}
