//! Workload generators: messages from every kind of producer, and hostile ones.
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use crate::model::*;
use crate::rng::Rng;
use crate::subjects::Ops;
use ros_pointcloud2::ros::PointFieldMsg;
use ros_pointcloud2::{CloudDimensions, Denseness, Endian, PointCloud2Msg};

pub const KINDS: &[&str] = &[
    "exact", "exact+extra", "packed", "permuted-packed", "random-gaps", "short-stride", "overlapping", "extras-interleaved",
    "exact-permuted-list", "exact-swapped-offsets", "exact-odd-stride", "rgb-as-u32", "huge-stride", "exact-shifted", "exact-big-stride", "many-extras",
];

/// Keep messages small (interpreters and the native run compared with them).
pub static SLOW: AtomicBool = AtomicBool::new(false);

fn field(name: &str, offset: usize, datatype: u8, count: u32) -> PointFieldMsg {
    PointFieldMsg { name: name.into(), offset: offset as u32, datatype, count }
}

fn extra_name(rng: &mut Rng, spec: &[FieldSpec], k: usize) -> String {
    let base = spec[rng.idx(spec.len())].name;
    let cand = match rng.below(9) {
        0 => format!("{base} "),
        1 => format!(" {base}"),
        2 => base.to_uppercase(),
        3 => format!("{base}{base}"),
        4 => format!("{base}\0"),
        5 => base.chars().take(base.chars().count().saturating_sub(1)).collect(),
        6 => format!("_{base}"),
        7 => "intensity".into(),
        _ => format!("extra{k}"),
    };
    if spec.iter().any(|s| s.name == cand) {
        format!("zz_{k}_{cand}")
    } else {
        cand
    }
}

/// Field table and stride for `kind`.
fn layout(rng: &mut Rng, s: &dyn Ops, spec: &[FieldSpec], kind: &str) -> (Vec<PointFieldMsg>, usize) {
    let mut mem: Vec<&FieldSpec> = spec.iter().collect();
    mem.sort_by_key(|f| f.mem);
    let exact: Vec<PointFieldMsg> = mem.iter().map(|f| field(f.name, f.mem, f.ty.code(), 1)).collect();
    let last_end = mem.iter().map(|f| f.mem + f.ty.size()).max().unwrap_or(0);
    let size = s.size();
    match kind {
        "exact" => (exact, size),
        "exact+extra" => {
            let mut f = exact;
            let mut end = size;
            for k in 0..1 + rng.idx(3) {
                let ty = *rng.pick(&SCALARS);
                f.push(field(&extra_name(rng, spec, k), end, ty.code(), 1));
                end += ty.size();
            }
            let step = end + if rng.chance(1, 2) { rng.idx(9) } else { 0 };
            (f, step)
        }
        "packed" => {
            let mut off = 0;
            let f = spec
                .iter()
                .map(|x| {
                    let r = field(x.name, off, x.ty.code(), 1);
                    off += x.ty.size();
                    r
                })
                .collect();
            (f, off)
        }
        "permuted-packed" => {
            let mut order: Vec<&FieldSpec> = spec.iter().collect();
            rng.shuffle(&mut order);
            let mut off = 0;
            let mut f: Vec<PointFieldMsg> = order
                .iter()
                .map(|x| {
                    let r = field(x.name, off, x.ty.code(), 1);
                    off += x.ty.size();
                    r
                })
                .collect();
            if rng.chance(1, 2) {
                rng.shuffle(&mut f);
            }
            (f, off)
        }
        "random-gaps" | "extras-interleaved" | "rgb-as-u32" | "huge-stride" => {
            let mut order: Vec<&FieldSpec> = spec.iter().collect();
            if kind != "rgb-as-u32" || rng.chance(1, 2) {
                rng.shuffle(&mut order);
            }
            let gaps = rng.chance(3, 4);
            let slow = SLOW.load(Relaxed);
            let mut off = if kind != "huge-stride" {
                0
            } else if slow {
                *rng.pick(&[0usize, 200, 250, 255, 256])
            } else {
                *rng.pick(&[0usize, 200, 250, 255, 256, 65530, 65536, 70000])
            };
            let mut f = vec![];
            let mut k = 0;
            for x in order {
                if gaps && rng.chance(1, 2) {
                    off += 1 + rng.idx(7);
                }
                if kind == "extras-interleaved" && rng.chance(1, 2) {
                    k += 1;
                    // members the reader does not need may be anything
                    let (dt, sz) = match rng.below(4) {
                        0 => (*rng.pick(&[0u8, 9, 10, 200, 255]), 3),
                        _ => {
                            let t = *rng.pick(&SCALARS);
                            (t.code(), t.size())
                        }
                    };
                    let cnt = *rng.pick(&[1u32, 1, 1, 3, 0, 7, u32::MAX]);
                    let o = if rng.chance(1, 8) { u32::MAX as usize - rng.idx(9) } else { off };
                    f.push(field(&extra_name(rng, spec, k), o, dt, cnt));
                    off += sz * if cnt < 8 { cnt as usize } else { 1 };
                }
                let code = if kind == "rgb-as-u32" && x.ty == Ty::Rgb { 6 } else { x.ty.code() };
                f.push(field(x.name, off, code, 1));
                off += x.ty.size();
            }
            if rng.chance(1, 2) {
                rng.shuffle(&mut f);
            }
            let tail = if kind == "huge-stride" { *rng.pick(if slow { &[0usize, 1, 255] } else { &[0usize, 1, 255, 1000, 65536][..] }) } else { rng.idx(6) };
            (f, off + tail)
        }
        "short-stride" => {
            let step = last_end + if size > last_end { rng.idx(size - last_end) } else { 0 };
            (exact, step)
        }
        "overlapping" => {
            let span = 8 + rng.idx(16);
            let mut f = vec![];
            let mut step = 0;
            for x in spec {
                let o = rng.idx(span);
                step = step.max(o + x.ty.size());
                f.push(field(x.name, o, x.ty.code(), 1));
                if rng.chance(1, 3) {
                    f.push(field(&extra_name(rng, spec, f.len()), o, x.ty.code(), 1));
                }
            }
            (f, step + if rng.chance(1, 2) { 0 } else { rng.idx(5) })
        }
        "exact-permuted-list" => {
            let mut f = exact;
            rng.shuffle(&mut f);
            (f, size)
        }
        "exact-swapped-offsets" => {
            // two members of equal type trade places in memory, the list keeps its order
            let mut f = exact;
            let n = f.len();
            for _ in 0..20 {
                let (i, j) = (rng.idx(n), rng.idx(n));
                if i != j && f[i].datatype == f[j].datatype {
                    let t = f[i].offset;
                    f[i].offset = f[j].offset;
                    f[j].offset = t;
                    break;
                }
            }
            (f, size)
        }
        "many-extras" => {
            // a wide message: the needed members lie scattered between dozens of others
            let total = if SLOW.load(Relaxed) { 10 + rng.idx(20) } else { 20 + rng.idx(280) };
            let mut slots: Vec<Option<&FieldSpec>> = spec.iter().map(Some).collect();
            slots.resize(spec.len() + total, None);
            rng.shuffle(&mut slots);
            let mut off = 0;
            let mut f = vec![];
            for (k, x) in slots.into_iter().enumerate() {
                let (name, ty) = match x {
                    Some(x) => (x.name.to_string(), x.ty),
                    None => (format!("e{k}"), *rng.pick(&SCALARS)),
                };
                f.push(field(&name, off, ty.code(), 1));
                off += ty.size();
            }
            (f, off)
        }
        "exact-odd-stride" => (exact, size + 1 + rng.idx(7)),
        "exact-big-stride" => (exact, size + size * (1 + rng.idx(3))),
        "exact-shifted" => {
            let d = 1 + rng.idx(8);
            let f = exact
                .into_iter()
                .map(|mut f| {
                    f.offset += d as u32;
                    f
                })
                .collect();
            (f, size + d)
        }
        _ => (exact, size),
    }
}

pub fn dims(rng: &mut Rng, n: usize) -> (u32, u32) {
    if n == 0 {
        return match rng.below(4) {
            0 => (0, 1),
            1 => (0, 1 + rng.below(9) as u32),
            2 => (1 + rng.below(9) as u32, 0),
            _ => (0, 0),
        };
    }
    if rng.chance(1, 2) {
        return (n as u32, 1);
    }
    let mut ds: Vec<u32> = (1..=n.min(4096) as u32).filter(|d| n as u32 % d == 0).collect();
    ds.push(n as u32);
    let h = *rng.pick(&ds);
    (n as u32 / h, h)
}

/// A message that is valid for the subject, from an arbitrary producer.
pub fn valid_msg(rng: &mut Rng, s: &dyn Ops, n: usize) -> (PointCloud2Msg, &'static str) {
    let spec = s.fields();
    let mut kind = *rng.pick(KINDS);
    let n = if kind == "huge-stride" { n.min(12) } else if kind == "many-extras" { n.min(2000) } else { n };
    if kind == "rgb-as-u32" && !spec.iter().any(|f| f.ty == Ty::Rgb) {
        kind = "exact-permuted-list";
    }
    let (fields, step) = layout(rng, s, &spec, kind);
    let n = n.min((24 << 20) / step.max(1));
    let big = rng.chance(1, 3);
    (assemble(rng, &spec, fields, step, n, big), kind)
}
pub fn valid_msg_kind(rng: &mut Rng, s: &dyn Ops, n: usize, kind: &'static str, big: bool) -> PointCloud2Msg {
    let spec = s.fields();
    let (fields, step) = layout(rng, s, &spec, kind);
    assemble(rng, &spec, fields, step, n, big)
}

fn assemble(rng: &mut Rng, spec: &[FieldSpec], fields: Vec<PointFieldMsg>, step: usize, n: usize, big: bool) -> PointCloud2Msg {
    let (w, h) = dims(rng, n);
    let mut data = vec![0u8; n * step];
    rng.fill(&mut data);
    let vals = gen_vals(rng, spec, n);
    let locs: Vec<(usize, usize, usize)> = spec
        .iter()
        .enumerate()
        .filter_map(|(k, f)| fields.iter().find(|g| g.name == f.name).map(|g| (k, g.offset as usize, f.ty.size())))
        .collect();
    for (i, v) in vals.iter().enumerate() {
        for (k, off, sz) in &locs {
            put_bits(&mut data[i * step + off..], *sz, big, v[*k]);
        }
    }
    data.shrink_to_fit();
    let row = (w as u64 * step as u64) as u32;
    PointCloud2Msg {
        header: gen_header(rng),
        dimensions: CloudDimensions { width: w, height: h },
        fields,
        endian: if big { Endian::Big } else { Endian::Little },
        point_step: step as u32,
        row_step: row,
        data,
        dense: if rng.chance(1, 2) { Denseness::Dense } else { Denseness::Sparse },
    }
}

/// The same cloud with the other byte order (needed and extra scalar fields swapped in place).
pub fn other_endian(m: &PointCloud2Msg, spec: &[FieldSpec]) -> Option<PointCloud2Msg> {
    let mut spans: Vec<(usize, usize)> = vec![];
    for f in spec {
        let g = m.fields.iter().find(|g| g.name == f.name)?;
        spans.push((g.offset as usize, f.ty.size()));
    }
    spans.sort();
    if spans.windows(2).any(|w| w[0].0 + w[0].1 > w[1].0) {
        return None; // aliasing fields have no byte-swapped twin
    }
    let mut t = clone_exact(m);
    let n = npoints(m) as usize;
    for i in 0..n {
        for (o, s) in &spans {
            let a = i * m.point_step as usize + o;
            t.data[a..a + s].reverse();
        }
    }
    t.endian = if m.endian == Endian::Big { Endian::Little } else { Endian::Big };
    Some(t)
}

/// Break a message in one to three ways. Returns the names of the mutations.
pub fn mutate(rng: &mut Rng, m: &mut PointCloud2Msg, spec: &[FieldSpec]) -> Vec<&'static str> {
    let times = match rng.below(10) {
        0..=6 => 1,
        7 | 8 => 2,
        _ => 3,
    };
    (0..times).map(|_| mutate1(rng, m, spec)).collect()
}

pub fn mutate1(rng: &mut Rng, m: &mut PointCloud2Msg, spec: &[FieldSpec]) -> &'static str {
    let n = npoints(m);
    let needed: Vec<usize> = m.fields.iter().enumerate().filter(|(_, f)| spec.iter().any(|s| s.name == f.name)).map(|(i, _)| i).collect();
    let any_needed = |rng: &mut Rng| if needed.is_empty() { None } else { Some(needed[rng.idx(needed.len())]) };
    match rng.below(26) {
        0 => {
            let k = m.data.len();
            if k > 0 {
                let cut = if rng.chance(1, 2) { 1 + rng.idx(k.min(9)) } else { 1 + rng.idx(k) };
                m.data.truncate(k - cut.min(k));
                m.data.shrink_to_fit();
            }
            "truncate"
        }
        1 => {
            let k = if rng.chance(1, 2) { 1 + rng.idx(9) } else { m.point_step as usize % 100_000 };
            m.data.extend(std::iter::repeat(0xEE).take(k));
            m.data.shrink_to_fit();
            "extend"
        }
        2 => {
            m.data = vec![];
            "no-data"
        }
        3 => {
            m.dimensions.width = match rng.below(6) {
                0 => u32::MAX,
                1 => 1 << 31,
                2 => m.dimensions.width.wrapping_add(1),
                3 => m.dimensions.width.wrapping_sub(1),
                4 => m.dimensions.width.wrapping_mul(2),
                _ => rng.next() as u32,
            };
            "width"
        }
        4 => {
            m.dimensions.height = match rng.below(6) {
                0 => u32::MAX,
                1 => 1 << 31,
                2 => m.dimensions.height.wrapping_add(1),
                3 => 0,
                4 => m.dimensions.height.wrapping_mul(2),
                _ => rng.next() as u32,
            };
            "height"
        }
        5 => {
            m.point_step = match rng.below(6) {
                0 => 0,
                1 => u32::MAX,
                2 => m.point_step.wrapping_add(1),
                3 => m.point_step.wrapping_sub(1),
                4 => 1,
                _ => rng.next() as u32,
            };
            "stride"
        }
        6 => {
            // same product, other stride: the buffer length still matches
            let total = m.data.len() as u64;
            if total > 0 {
                let d: Vec<u64> = (1..=total.min(300)).filter(|d| total % d == 0).collect();
                let step = *rng.pick(&d);
                m.point_step = step as u32;
                let n = total / step;
                m.dimensions.width = n as u32;
                m.dimensions.height = 1;
                m.row_step = m.dimensions.width.wrapping_mul(m.point_step);
            }
            "refactored-product"
        }
        7 => {
            // products that wrap modulo 2^32 / 2^64 to the buffer length
            let len = m.data.len() as u64;
            match rng.below(4) {
                0 => {
                    m.dimensions.width = 1 << 31;
                    m.dimensions.height = 2;
                    m.point_step = 1u32 << rng.below(32);
                    if rng.chance(1, 2) {
                        m.data = vec![];
                    }
                }
                1 => {
                    // w*h*step == 2^64 exactly, buffer empty
                    m.dimensions.width = 1 << 31;
                    m.dimensions.height = 1 << 31;
                    m.point_step = 4 << (rng.below(4) * 2);
                    m.data = vec![];
                }
                2 => {
                    // w*step = 2^32 + len
                    let t = (1u64 << 32) + len;
                    let step = m.point_step.max(1) as u64;
                    if t % step == 0 {
                        m.dimensions.height = 1;
                        m.dimensions.width = (t / step) as u32;
                    } else {
                        m.dimensions.width = (((1u64 << 32) / step) + 1) as u32;
                    }
                }
                _ => {
                    m.dimensions.width = 1 << 16;
                    m.dimensions.height = 1 << 16;
                    if rng.chance(1, 2) {
                        m.data = vec![];
                    }
                }
            }
            "wrap"
        }
        8 => {
            if let Some(i) = any_needed(rng) {
                let sz = code_size(m.fields[i].datatype).unwrap_or(4) as u32;
                m.fields[i].offset = match rng.below(7) {
                    0 => u32::MAX,
                    1 => m.point_step,
                    2 => m.point_step.wrapping_sub(sz).wrapping_add(1),
                    3 => m.point_step.wrapping_sub(1),
                    4 => 1 << 31,
                    5 => u32::MAX - sz + 1,
                    _ => rng.next() as u32,
                };
            }
            "offset"
        }
        9 => {
            if let Some(i) = any_needed(rng) {
                m.fields[i].datatype = *rng.pick(&[0u8, 9, 10, 11, 127, 128, 255, 247]);
            }
            "unknown-type"
        }
        10 => {
            if let Some(i) = any_needed(rng) {
                m.fields[i].datatype = 1 + rng.below(8) as u8;
            }
            "other-type"
        }
        11 => {
            if let Some(i) = any_needed(rng) {
                m.fields.remove(i);
            }
            "remove-field"
        }
        12 => {
            for _ in 0..2 {
                let nd: Vec<usize> = m.fields.iter().enumerate().filter(|(_, f)| spec.iter().any(|s| s.name == f.name)).map(|(i, _)| i).collect();
                if !nd.is_empty() {
                    let i = nd[rng.idx(nd.len())];
                    m.fields.remove(i);
                }
            }
            "remove-two"
        }
        13 => {
            if let Some(i) = any_needed(rng) {
                let k = m.fields.len();
                let nn = extra_name(rng, spec, k);
                m.fields[i].name = nn;
            }
            "rename"
        }
        14 => {
            if let Some(i) = any_needed(rng) {
                let mut d = m.fields[i].clone();
                match rng.below(3) {
                    0 => {}
                    1 => d.offset = rng.next() as u32,
                    _ => d.datatype = rng.next() as u8,
                }
                let at = rng.idx(m.fields.len() + 1);
                m.fields.insert(at, d);
            }
            "duplicate"
        }
        15 => {
            if let Some(i) = any_needed(rng) {
                m.fields[i].count = *rng.pick(&[0u32, 2, 3, u32::MAX]);
            }
            "count"
        }
        16 => {
            m.fields.clear();
            "no-fields"
        }
        17 => {
            m.row_step = *rng.pick(&[0u32, 1, u32::MAX, m.row_step.wrapping_add(1)]);
            "row-step"
        }
        18 => {
            if needed.len() >= 2 {
                let (i, j) = (needed[rng.idx(needed.len())], needed[rng.idx(needed.len())]);
                let t = m.fields[i].name.clone();
                m.fields[i].name = m.fields[j].name.clone();
                m.fields[j].name = t;
            }
            "swap-names"
        }
        19 => {
            m.dimensions.width = 0;
            if rng.chance(1, 2) {
                m.dimensions.height = 0;
            }
            "zero-width"
        }
        20 => {
            // empty cloud, arbitrary stride
            m.dimensions.width = *rng.pick(&[0u32, 0, 5, u32::MAX]);
            m.dimensions.height = if m.dimensions.width == 0 { *rng.pick(&[0u32, 1, 7, u32::MAX]) } else { 0 };
            m.data = vec![];
            if rng.chance(1, 2) {
                m.point_step = *rng.pick(&[0u32, 1, 4, 12, 16, 1 << 30, u32::MAX]);
            }
            "empty"
        }
        21 => {
            // rows padded: the buffer holds more bytes per row than width * stride
            let h = m.dimensions.height as usize;
            let pad = 1 + rng.idx(16);
            let extra = pad * h.min(5000);
            m.row_step = m.row_step.wrapping_add(pad as u32);
            m.data.extend(std::iter::repeat(0x55).take(extra));
            m.data.shrink_to_fit();
            "row-padding"
        }
        22 => {
            // stride shrinks below the last needed member while the buffer matches
            let need_end = m.fields.iter().filter(|f| spec.iter().any(|s| s.name == f.name)).map(|f| f.offset as u64 + code_size(f.datatype).unwrap_or(1) as u64).max().unwrap_or(1);
            if need_end >= 2 && need_end < 100_000 && n < 70_000 && n * need_end < (4 << 20) {
                let step = (need_end - 1 - rng.below((need_end - 1).min(4))) as u32;
                m.point_step = step;
                m.row_step = m.dimensions.width.wrapping_mul(step);
                m.data.resize((n * step as u64) as usize, 0xAB);
                m.data.shrink_to_fit();
            }
            "stride-below-field"
        }
        23 => {
            // one needed member is moved out of the stride although a later one still fits
            if let Some(i) = any_needed(rng) {
                m.fields[i].offset = m.point_step.wrapping_add(rng.below(64) as u32).wrapping_sub(code_size(m.fields[i].datatype).unwrap_or(1) as u32 / 2 + 1).wrapping_add(1);
            }
            "one-outside"
        }
        24 => {
            m.endian = if m.endian == Endian::Big { Endian::Little } else { Endian::Big };
            "endian"
        }
        _ => {
            // width claims more, height 1, data unchanged
            m.dimensions.height = 1;
            m.dimensions.width = (n as u32).wrapping_add(1 + rng.below(100_000_000) as u32);
            "claims-more"
        }
    }
}
