//! Reference model: what a PointCloud2 message means, written from the ROS message definition only.
use crate::rng::Rng;
use ros_pointcloud2::ros::{HeaderMsg, PointFieldMsg, TimeMsg};
use ros_pointcloud2::{CloudDimensions, Denseness, Endian, MsgConversionError, PointCloud2Msg};

pub const MAXF: usize = 20;
/// Raw bits of every field of one point, in declaration order.
pub type Vals = [u64; MAXF];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    I8,
    U8,
    I16,
    U16,
    I32,
    U32,
    F32,
    F64,
    Rgb,
}
pub const SCALARS: [Ty; 8] = [Ty::I8, Ty::U8, Ty::I16, Ty::U16, Ty::I32, Ty::U32, Ty::F32, Ty::F64];

impl Ty {
    pub fn size(self) -> usize {
        match self {
            Ty::I8 | Ty::U8 => 1,
            Ty::I16 | Ty::U16 => 2,
            Ty::I32 | Ty::U32 | Ty::F32 | Ty::Rgb => 4,
            Ty::F64 => 8,
        }
    }
    /// sensor_msgs/PointField constants
    pub fn code(self) -> u8 {
        match self {
            Ty::I8 => 1,
            Ty::U8 => 2,
            Ty::I16 => 3,
            Ty::U16 => 4,
            Ty::I32 => 5,
            Ty::U32 => 6,
            Ty::F32 | Ty::Rgb => 7,
            Ty::F64 => 8,
        }
    }
    pub fn accepts(self, code: u8) -> bool {
        code == self.code() || (self == Ty::Rgb && code == 6)
    }
    pub fn mask(self) -> u64 {
        if self.size() == 8 {
            u64::MAX
        } else {
            (1u64 << (8 * self.size())) - 1
        }
    }
}
pub fn code_size(code: u8) -> Option<usize> {
    Some(match code {
        1 | 2 => 1,
        3 | 4 => 2,
        5..=7 => 4,
        8 => 8,
        _ => return None,
    })
}

#[derive(Clone, Debug)]
pub struct FieldSpec {
    pub name: &'static str,
    pub ty: Ty,
    pub mem: usize,
}

pub fn get_bits(bytes: &[u8], size: usize, big: bool) -> u64 {
    let mut v = 0u64;
    for k in 0..size {
        let b = if big { bytes[k] } else { bytes[size - 1 - k] };
        v = (v << 8) | b as u64;
    }
    v
}
pub fn put_bits(bytes: &mut [u8], size: usize, big: bool, v: u64) {
    for k in 0..size {
        let sh = if big { 8 * (size - 1 - k) } else { 8 * k };
        bytes[k] = (v >> sh) as u8;
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Valid(Vec<Vals>),
    /// reason
    Invalid(&'static str),
    /// the documentation does not settle it
    Unspecified(&'static str),
}
impl Verdict {
    pub fn tag(&self) -> &'static str {
        match self {
            Verdict::Valid(_) => "valid",
            Verdict::Invalid(r) => r,
            Verdict::Unspecified(r) => r,
        }
    }
}

/// Every fault of the message as seen by a reader that needs `need`.
pub struct Faults {
    pub missing: Vec<&'static str>,
    pub other: Option<&'static str>,
    pub unspecified: Option<&'static str>,
}

pub fn faults(msg: &PointCloud2Msg, need: &[FieldSpec]) -> Faults {
    let mut f = Faults { missing: vec![], other: None, unspecified: None };
    for n in need {
        let cands: Vec<&PointFieldMsg> = msg.fields.iter().filter(|g| g.name == n.name).collect();
        if cands.is_empty() {
            f.missing.push(n.name);
            continue;
        }
        if cands.len() > 1 {
            f.unspecified = Some("duplicate-name");
        }
        // with duplicates the message is certainly unusable only if every candidate is
        let mut any_ok = false;
        let mut reason = "";
        for c in &cands {
            if code_size(c.datatype).is_none() {
                reason = "unknown-datatype";
            } else if !n.ty.accepts(c.datatype) {
                reason = "other-datatype";
                if n.ty == Ty::Rgb && c.datatype == 5 {
                    // int32-packed colours: neither promised nor excluded by PCL tooling, but the type is not the declared one
                }
            } else if c.offset as u64 + n.ty.size() as u64 > msg.point_step as u64 {
                reason = "outside-stride";
            } else {
                any_ok = true;
            }
        }
        if cands.iter().any(|c| c.count != 1) {
            f.unspecified = Some("count");
        }
        if !any_ok {
            f.other = Some(reason);
        }
    }
    let want = msg.dimensions.width as u128 * msg.dimensions.height as u128 * msg.point_step as u128;
    if want != msg.data.len() as u128 {
        f.other = Some("data-length");
    }
    f
}

pub fn npoints(msg: &PointCloud2Msg) -> u64 {
    msg.dimensions.width as u64 * msg.dimensions.height as u64
}

/// Decode the needed fields; only called on messages without faults.
pub fn decode(msg: &PointCloud2Msg, need: &[FieldSpec]) -> Vec<Vals> {
    let n = npoints(msg) as usize;
    let big = msg.endian == Endian::Big;
    let step = msg.point_step as usize;
    let locs: Vec<(usize, usize)> = need
        .iter()
        .map(|f| {
            let m = msg.fields.iter().find(|g| g.name == f.name).expect("decode: field present");
            (m.offset as usize, f.ty.size())
        })
        .collect();
    (0..n)
        .map(|i| {
            let mut v = [0u64; MAXF];
            for (k, (off, sz)) in locs.iter().enumerate() {
                v[k] = get_bits(&msg.data[i * step + off..], *sz, big);
            }
            v
        })
        .collect()
}

pub fn verdict(msg: &PointCloud2Msg, need: &[FieldSpec]) -> Verdict {
    let f = faults(msg, need);
    if !f.missing.is_empty() {
        return Verdict::Invalid("missing-field");
    }
    if let Some(r) = f.other {
        return Verdict::Invalid(r);
    }
    if let Some(r) = f.unspecified {
        return Verdict::Unspecified(r);
    }
    Verdict::Valid(decode(msg, need))
}

/// Structural validity of a written message (what C04 demands), independent of any reader. Returns a complaint.
pub fn written_ok(msg: &PointCloud2Msg, spec: &[FieldSpec], n: usize) -> Result<(), String> {
    if msg.fields.len() != spec.len() {
        return Err(format!("{} fields written for {} members", msg.fields.len(), spec.len()));
    }
    let mut spans = vec![];
    for s in spec {
        let c: Vec<_> = msg.fields.iter().filter(|f| f.name == s.name).collect();
        if c.len() != 1 {
            return Err(format!("field {:?} occurs {} times", s.name, c.len()));
        }
        let f = c[0];
        if f.datatype != s.ty.code() {
            return Err(format!("field {:?} has datatype code {} instead of {}", s.name, f.datatype, s.ty.code()));
        }
        if f.count != 1 {
            return Err(format!("field {:?} has count {}", s.name, f.count));
        }
        let end = f.offset as u64 + s.ty.size() as u64;
        if end > msg.point_step as u64 {
            return Err(format!("field {:?} at {}..{} exceeds stride {}", s.name, f.offset, end, msg.point_step));
        }
        spans.push((f.offset as u64, end, s.name));
    }
    spans.sort();
    for w in spans.windows(2) {
        if w[0].1 > w[1].0 {
            return Err(format!("fields {:?} and {:?} overlap", w[0].2, w[1].2));
        }
    }
    // order of the field list: declared order or memory order
    let names: Vec<&str> = msg.fields.iter().map(|f| f.name.as_str()).collect();
    let declared: Vec<&str> = spec.iter().map(|s| s.name).collect();
    let mut by_mem: Vec<&FieldSpec> = spec.iter().collect();
    by_mem.sort_by_key(|s| s.mem);
    let memory: Vec<&str> = by_mem.iter().map(|s| s.name).collect();
    if names != declared && names != memory {
        return Err(format!("field order {names:?} is neither declared {declared:?} nor memory order {memory:?}"));
    }
    let (w, h) = (msg.dimensions.width as u64, msg.dimensions.height as u64);
    if w * h != n as u64 {
        return Err(format!("width {w} * height {h} != {n} points"));
    }
    if h != u64::from(n > 0) {
        return Err(format!("height {h} for {n} points"));
    }
    if msg.row_step as u64 != w * msg.point_step as u64 {
        return Err(format!("row_step {} for width {w} and stride {}", msg.row_step, msg.point_step));
    }
    if msg.data.len() as u64 != n as u64 * msg.point_step as u64 {
        return Err(format!("{} data bytes for {n} points of stride {}", msg.data.len(), msg.point_step));
    }
    Ok(())
}

// ---------------------------------------------------------------- values

pub fn special(rng: &mut Rng, ty: Ty) -> u64 {
    let v = match ty {
        Ty::F32 => *rng.pick(&[
            0u64, 0x8000_0000, 0x3F80_0000, 0xBF80_0000, 0x7F80_0000, 0xFF80_0000, 0x7FC0_0000, 0x7FC0_1234, 0xFFC0_0001,
            0x7F80_0001, 0x7FA5_5A5A, 0xFFBF_FFFF, 0x7FFF_FFFF, 0xFFFF_FFFF, 1, 0x8000_0001, 0x007F_FFFF, 0x0080_0000,
            0x7F7F_FFFF, 0xFF7F_FFFF, 0x4049_0FDB,
        ]),
        Ty::F64 => *rng.pick(&[
            0u64, 1 << 63, 0x3FF0_0000_0000_0000, 0x7FF0_0000_0000_0000, 0xFFF0_0000_0000_0000, 0x7FF8_0000_0000_0000,
            0x7FF8_0000_DEAD_BEEF, 0x7FF0_0000_0000_0001, 0xFFF4_0000_0000_0001, u64::MAX, 1, (1 << 63) | 1,
            0x000F_FFFF_FFFF_FFFF, 0x7FEF_FFFF_FFFF_FFFF, 0x4009_21FB_5444_2D18,
        ]),
        Ty::Rgb => *rng.pick(&[
            0u64, 0x00FF_FFFF, 0x00FF_0000, 0x0000_FF00, 0xFF, 0xFF00_0000, 0xFFFF_FFFF, 0x0102_0304, 0x7F80_0001, 0x7FA0_1122,
            0xFF81_8283, 0x8000_0000, 0x007F_8081,
        ]),
        t => {
            let bits = 8 * t.size() as u32;
            *rng.pick(&[0u64, 1, t.mask(), t.mask() >> 1, 1 << (bits - 1), 0x0102_0304_0506_0708 & t.mask(), 0x80 & t.mask()])
        }
    };
    v & ty.mask()
}
pub fn value(rng: &mut Rng, ty: Ty) -> u64 {
    match rng.below(4) {
        0 => special(rng, ty),
        1 if matches!(ty, Ty::F32) => ((rng.range(-10000, 10000) as f32) / 16.0).to_bits() as u64,
        1 if matches!(ty, Ty::F64) => ((rng.range(-1000000, 1000000) as f64) / 16.0).to_bits(),
        _ => rng.next() & ty.mask(),
    }
}
pub fn gen_vals(rng: &mut Rng, spec: &[FieldSpec], n: usize) -> Vec<Vals> {
    // unique tags make order and identity observable: where the first wide field allows, points carry their index
    let tag = rng.chance(1, 2);
    let cheap = n > 2000;
    let tagf = if tag { spec.iter().position(|f| f.ty.size() >= 4 && f.ty != Ty::F32 && f.ty != Ty::F64).or(spec.iter().position(|f| f.ty.size() >= 4)) } else { None };
    (0..n)
        .map(|i| {
            let mut v = [0u64; MAXF];
            for (k, f) in spec.iter().enumerate() {
                v[k] = if cheap { rng.next() & f.ty.mask() } else { value(rng, f.ty) };
            }
            if let Some(t) = tagf {
                v[t] = (0x4100_0000u64 + i as u64) & spec[t].ty.mask();
            }
            v
        })
        .collect()
}

pub fn gen_len(rng: &mut Rng, slow: bool) -> usize {
    if slow {
        return *rng.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33]);
    }
    match rng.below(100) {
        0..=9 => 0,
        10..=19 => 1,
        20..=29 => 2,
        30..=79 => 1 + rng.idx(40),
        80..=93 => *rng.pick(&[63usize, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513]),
        94..=98 => *rng.pick(&[1000usize, 1023, 1024, 1025, 1441, 2047, 2048, 2049, 4095, 4096, 4097]),
        _ if rng.chance(1, 30) => *rng.pick(&[100_000usize, 131_071, 131_072, 131_073]),
        _ => *rng.pick(&[8191usize, 8192, 8193, 12000, 16383, 16385, 65535, 65536, 65537]),
    }
}

pub fn gen_string(rng: &mut Rng) -> String {
    match rng.below(8) {
        // something in front of or behind an ordinary name: nothing may be trimmed, completed or normalised
        6 | 7 => {
            const AROUND: [&str; 14] = [" ", "/", "\n", "\t", "\0", "//", "\"", "'", "_", "~", "\r\n", "\u{a0}", "\u{feff}", "."];
            let mut s = String::from(*rng.pick(&["base_link", "map", "Lidar Front", "", "odom/laser", "A_b"]));
            for _ in 0..1 + rng.idx(2) {
                let a = *rng.pick(&AROUND);
                match rng.below(3) {
                    0 => s.insert_str(0, a),
                    1 => s.push_str(a),
                    _ => s = format!("{a}{s}{a}"),
                }
            }
            s
        }
        0 => String::new(),
        1 => "base_link".into(),
        2 => "ünï/コード\u{0}\"\\\n".into(),
        3 => "x".repeat(rng.idx(300)),
        _ => {
            let n = rng.idx(12);
            (0..n).map(|_| char::from_u32(1 + rng.below(0x2000) as u32).unwrap_or('?')).collect()
        }
    }
}
pub fn gen_header(rng: &mut Rng) -> HeaderMsg {
    let pick = |rng: &mut Rng| -> u32 {
        match rng.below(4) {
            0 => 0,
            1 => u32::MAX,
            2 => *rng.pick(&[1, 999_999_999, 1_000_000_000, 0x7FFF_FFFF, 0x8000_0000]),
            _ => rng.next() as u32,
        }
    };
    HeaderMsg { seq: pick(rng), stamp: TimeMsg { sec: pick(rng) as i32, nanosec: pick(rng) }, frame_id: gen_string(rng) }
}

// ---------------------------------------------------------------- comparisons and display

pub fn same_vals(a: &[Vals], b: &[Vals], spec: &[FieldSpec]) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} points instead of {}", b.len(), a.len()));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        for (k, f) in spec.iter().enumerate() {
            if x[k] != y[k] {
                return Some(format!("point {i} of {}, field {:?} ({:?}): expected bits {:#x}, got {:#x}", a.len(), f.name, f.ty, x[k], y[k]));
            }
        }
    }
    None
}

/// Full equality of messages (every member).
pub fn msg_diff(a: &PointCloud2Msg, b: &PointCloud2Msg) -> Option<String> {
    if let Some(d) = meta_diff(a, b) {
        return Some(d);
    }
    if a.data != b.data {
        let i = a.data.iter().zip(&b.data).position(|(x, y)| x != y);
        return Some(match i {
            Some(i) => format!("data[{i}]: {:#04x} vs {:#04x} (lengths {} and {})", a.data[i], b.data[i], a.data.len(), b.data.len()),
            None => format!("data length {} vs {}", a.data.len(), b.data.len()),
        });
    }
    None
}
pub fn meta_diff(a: &PointCloud2Msg, b: &PointCloud2Msg) -> Option<String> {
    macro_rules! d {
        ($x:expr, $y:expr, $n:literal) => {
            if $x != $y {
                return Some(format!(concat!($n, ": {:?} vs {:?}"), $x, $y));
            }
        };
    }
    d!(a.header.seq, b.header.seq, "header.seq");
    d!(a.header.stamp.sec, b.header.stamp.sec, "header.stamp.sec");
    d!(a.header.stamp.nanosec, b.header.stamp.nanosec, "header.stamp.nanosec");
    d!(a.header.frame_id, b.header.frame_id, "header.frame_id");
    d!(a.dimensions.width, b.dimensions.width, "width");
    d!(a.dimensions.height, b.dimensions.height, "height");
    d!(a.point_step, b.point_step, "point_step");
    d!(a.row_step, b.row_step, "row_step");
    d!((a.endian == Endian::Big), (b.endian == Endian::Big), "is_bigendian");
    d!((a.dense == Denseness::Dense), (b.dense == Denseness::Dense), "is_dense");
    d!(a.fields.len(), b.fields.len(), "number of fields");
    for (x, y) in a.fields.iter().zip(&b.fields) {
        d!(x.name, y.name, "field name");
        d!(x.offset, y.offset, "field offset");
        d!(x.datatype, y.datatype, "field datatype");
        d!(x.count, y.count, "field count");
    }
    None
}

pub fn show_msg(m: &PointCloud2Msg) -> String {
    let fs: Vec<String> = m
        .fields
        .iter()
        .map(|f| format!("{:?}@{} t{} x{}", f.name, f.offset, f.datatype, f.count))
        .collect();
    let hex: String = m.data.iter().take(48).map(|b| format!("{b:02x}")).collect();
    format!(
        "msg {}x{} step {} row {} {} data {}B [{}{}] fields [{}]",
        m.dimensions.width,
        m.dimensions.height,
        m.point_step,
        m.row_step,
        if m.endian == Endian::Big { "BE" } else { "LE" },
        m.data.len(),
        hex,
        if m.data.len() > 48 { ".." } else { "" },
        fs.join(", ")
    )
}

pub fn hash_msg(h: &mut crate::mon::Hasher, m: &PointCloud2Msg) {
    h.u(m.dimensions.width as u64).u(m.dimensions.height as u64).u(m.point_step as u64).u(m.row_step as u64);
    h.u((m.endian == Endian::Big) as u64);
    for f in &m.fields {
        h.b(f.name.as_bytes()).u(f.offset as u64).u(f.datatype as u64).u(f.count as u64);
    }
    h.b(&m.data);
}
pub fn hash_vals(h: &mut crate::mon::Hasher, v: &[Vals], spec: &[FieldSpec]) {
    h.u(v.len() as u64);
    for p in v {
        for k in 0..spec.len() {
            h.u(p[k]);
        }
    }
}

pub fn err_kind(e: &MsgConversionError) -> String {
    match e {
        MsgConversionError::InvalidFieldFormat => "InvalidFieldFormat".into(),
        MsgConversionError::DataLengthMismatch => "DataLengthMismatch".into(),
        MsgConversionError::FieldsNotFound(_) => "FieldsNotFound".into(),
        MsgConversionError::UnsupportedFieldCount => "UnsupportedFieldCount".into(),
        MsgConversionError::NumberConversion => "NumberConversion".into(),
        MsgConversionError::ExhaustedSource => "ExhaustedSource".into(),
        _ => "UnsupportedFieldType".into(),
    }
}

pub fn clone_exact(m: &PointCloud2Msg) -> PointCloud2Msg {
    // capacity == length, so that a read past the end leaves the allocation
    let mut data = Vec::with_capacity(m.data.len());
    data.extend_from_slice(&m.data);
    PointCloud2Msg {
        header: m.header.clone(),
        dimensions: CloudDimensions { width: m.dimensions.width, height: m.dimensions.height },
        fields: m.fields.clone(),
        endian: m.endian,
        point_step: m.point_step,
        row_step: m.row_step,
        data,
        dense: m.dense,
    }
}
