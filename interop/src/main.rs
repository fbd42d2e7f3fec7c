//! C15: conversions between `PointCloud2Msg` and the messages of the integrated ROS libraries.
//! ROS 2 (ros2-interfaces-jazzy) and ROS 1 (rosrust, messages generated by rosrust_msg from ./msgs) are the real
//! libraries; r2r is a stand-in with the same structs.
use pcmon::mon::{alloc_read, alloc_reset, guard, Ctx, Hasher};
use pcmon::rng::Rng;
use ros2_interfaces_jazzy as jazzy;
use ros_pointcloud2::ros::{HeaderMsg, PointFieldMsg, TimeMsg};
use std::sync::atomic::{AtomicU64, Ordering};
use ros_pointcloud2::{CloudDimensions, Denseness, Endian, PointCloud2Msg};

#[global_allocator]
static ALLOC: pcmon::mon::Monitor = pcmon::mon::Monitor;

/// What a message says, independent of any library.
#[derive(Debug, PartialEq)]
struct Plain {
    seq: u32,
    sec: i32,
    nsec: u32,
    frame: String,
    width: u32,
    height: u32,
    fields: Vec<(String, u32, u8, u32)>,
    big: bool,
    point_step: u32,
    row_step: u32,
    data: Vec<u8>,
    dense: bool,
}

fn int(rng: &mut Rng) -> u32 {
    match rng.below(6) {
        0 => rng.below(4) as u32,
        1 => u32::MAX - rng.below(3) as u32,
        2 => (1u32 << rng.below(32)).wrapping_sub(rng.below(2) as u32),
        3 => rng.below(300) as u32,
        _ => rng.next() as u32,
    }
}
fn text(rng: &mut Rng) -> String {
    let n = match rng.below(8) {
        0 => 0,
        1 => 40 + rng.idx(400),
        _ => 1 + rng.idx(12),
    };
    (0..n)
        .map(|_| match rng.below(8) {
            0 => '\0',
            1 => *rng.pick(&['é', '漢', '🤖', '\u{7f}', ' ', '/', '\n', '"']),
            _ => (b'a' + rng.below(26) as u8) as char,
        })
        .collect()
}
fn plain(rng: &mut Rng) -> Plain {
    let nf = match rng.below(8) {
        0 => 0,
        1 => 20 + rng.idx(200),
        _ => 1 + rng.idx(6),
    };
    let nd = match rng.below(10) {
        0 | 1 => 0,
        2 => 1,
        3 => 4096 + rng.idx(5000),
        4 => (1 << 20) + rng.idx(1 << 20),
        _ => rng.idx(200),
    };
    let mut data = Vec::with_capacity(nd + if rng.chance(1, 2) { rng.idx(1000) } else { 0 });
    for _ in 0..nd.min(9000) {
        data.push(rng.next() as u8);
    }
    data.resize(nd, 0x5A);
    Plain {
        seq: int(rng),
        sec: int(rng) as i32,
        nsec: int(rng),
        frame: text(rng),
        width: int(rng),
        height: int(rng),
        fields: (0..nf).map(|_| (text(rng), int(rng), rng.next() as u8, int(rng))).collect(),
        big: rng.chance(1, 2),
        point_step: int(rng),
        row_step: int(rng),
        data,
        dense: rng.chance(1, 2),
    }
}

fn exact(d: &[u8], cap: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(cap);
    v.extend_from_slice(d);
    v
}

/// Keeps the spare capacity of the buffer, unlike a derived clone.
impl Clone for Plain {
    fn clone(&self) -> Self {
        Plain { frame: self.frame.clone(), fields: self.fields.clone(), data: exact(&self.data, self.data.capacity()), ..*self }
    }
}

impl Plain {
    fn msg(&self) -> PointCloud2Msg {
        PointCloud2Msg {
            header: HeaderMsg { seq: self.seq, stamp: TimeMsg { sec: self.sec, nanosec: self.nsec }, frame_id: self.frame.clone() },
            dimensions: CloudDimensions { width: self.width, height: self.height },
            fields: self.fields.iter().map(|(n, o, t, c)| PointFieldMsg { name: n.clone(), offset: *o, datatype: *t, count: *c }).collect(),
            endian: if self.big { Endian::Big } else { Endian::Little },
            point_step: self.point_step,
            row_step: self.row_step,
            data: exact(&self.data, self.data.capacity()),
            dense: if self.dense { Denseness::Dense } else { Denseness::Sparse },
        }
    }
    fn of_msg(m: &PointCloud2Msg) -> Plain {
        Plain {
            seq: m.header.seq,
            sec: m.header.stamp.sec,
            nsec: m.header.stamp.nanosec,
            frame: m.header.frame_id.clone(),
            width: m.dimensions.width,
            height: m.dimensions.height,
            fields: m.fields.iter().map(|f| (f.name.clone(), f.offset, f.datatype, f.count)).collect(),
            big: m.endian == Endian::Big,
            point_step: m.point_step,
            row_step: m.row_step,
            data: m.data.clone(),
            dense: m.dense == Denseness::Dense,
        }
    }
    fn diff(&self, o: &Plain) -> Option<String> {
        macro_rules! cmp {
            ($($f:ident),*) => {
                $(if self.$f != o.$f {
                    let s = |x: String| x.chars().take(300).collect::<String>();
                    return Some(format!("{} was {} and became {}", stringify!($f), s(format!("{:?}", self.$f)), s(format!("{:?}", o.$f))));
                })*
            };
        }
        cmp!(seq, sec, nsec, frame, width, height, fields, big, point_step, row_step, data, dense);
        None
    }
}

/// One library: its message type in and out of [`Plain`].
trait Lib {
    const NAME: &'static str;
    const SEQ: bool;
    type M: Into<PointCloud2Msg> + From<PointCloud2Msg>;
    fn make(p: &Plain) -> Self::M;
    fn take(m: &Self::M) -> Plain;
    fn data(m: &Self::M) -> &Vec<u8>;
}
struct Jazzy;
struct R2r;
struct Rosrust;

macro_rules! ros2 {
    ($lib:ident, $name:literal, $($root:tt)+) => {
        impl Lib for $lib {
            const NAME: &'static str = $name;
            const SEQ: bool = false;
            type M = $($root)+::sensor_msgs::msg::PointCloud2;
            fn make(p: &Plain) -> Self::M {
                let mut m = Self::M::default();
                m.header.stamp.sec = p.sec;
                m.header.stamp.nanosec = p.nsec;
                m.header.frame_id = p.frame.clone();
                m.height = p.height;
                m.width = p.width;
                m.fields = p.fields.iter().map(|(n, o, t, c)| {
                    let mut f = $($root)+::sensor_msgs::msg::PointField::default();
                    f.name = n.clone();
                    f.offset = *o;
                    f.datatype = *t;
                    f.count = *c;
                    f
                }).collect();
                m.is_bigendian = p.big;
                m.point_step = p.point_step;
                m.row_step = p.row_step;
                m.data = exact(&p.data, p.data.capacity());
                m.is_dense = p.dense;
                m
            }
            fn take(m: &Self::M) -> Plain {
                Plain {
                    seq: 0, sec: m.header.stamp.sec, nsec: m.header.stamp.nanosec, frame: m.header.frame_id.clone(),
                    width: m.width, height: m.height,
                    fields: m.fields.iter().map(|f| (f.name.clone(), f.offset, f.datatype, f.count)).collect(),
                    big: m.is_bigendian, point_step: m.point_step, row_step: m.row_step, data: m.data.clone(), dense: m.is_dense,
                }
            }
            fn data(m: &Self::M) -> &Vec<u8> { &m.data }
        }
    };
}
ros2!(Jazzy, "ros2-interfaces-jazzy", jazzy);
ros2!(R2r, "r2r (stand-in)", r2r);
impl Lib for Rosrust {
    const NAME: &'static str = "rosrust";
    const SEQ: bool = true;
    type M = rosrust_msg::sensor_msgs::PointCloud2;
    fn make(p: &Plain) -> Self::M {
        rosrust_msg::sensor_msgs::PointCloud2 {
            header: rosrust_msg::std_msgs::Header { seq: p.seq, stamp: rosrust::Time { sec: p.sec as u32, nsec: p.nsec }, frame_id: p.frame.clone() },
            height: p.height,
            width: p.width,
            fields: p.fields.iter().map(|(n, o, t, c)| rosrust_msg::sensor_msgs::PointField { name: n.clone(), offset: *o, datatype: *t, count: *c }).collect(),
            is_bigendian: p.big,
            point_step: p.point_step,
            row_step: p.row_step,
            data: exact(&p.data, p.data.capacity()),
            is_dense: p.dense,
        }
    }
    fn take(m: &Self::M) -> Plain {
        Plain {
            seq: m.header.seq, sec: m.header.stamp.sec as i32, nsec: m.header.stamp.nsec, frame: m.header.frame_id.clone(),
            width: m.width, height: m.height,
            fields: m.fields.iter().map(|f| (f.name.clone(), f.offset, f.datatype, f.count)).collect(),
            big: m.is_bigendian, point_step: m.point_step, row_step: m.row_step, data: m.data.clone(), dense: m.is_dense,
        }
    }
    fn data(m: &Self::M) -> &Vec<u8> { &m.data }
}

/// conversions seen with a buffer that has spare capacity
static SPARE: AtomicU64 = AtomicU64::new(0);

/// Observe one conversion: members, data pointer and capacity, largest allocation.
fn watch<A, B>(what: &str, a: A, da: impl Fn(&A) -> &Vec<u8>, db: impl Fn(&B) -> &Vec<u8>, f: impl FnOnce(A) -> B) -> Result<B, String> {
    let (ptr, cap, len) = (da(&a).as_ptr(), da(&a).capacity(), da(&a).len());
    alloc_reset();
    let b = guard(|| f(a)).map_err(|e| format!("{what} panicked: {e}"))?;
    let (max, _) = alloc_read();
    if cap > len && len > 0 {
        SPARE.fetch_add(1, Ordering::Relaxed);
    }
    let d = db(&b);
    if cap > 0 && (d.as_ptr() != ptr || d.capacity() != cap) {
        return Err(format!("{what}: the data buffer ({len} B, capacity {cap}) was not moved: capacity is {} and the pointer {}", d.capacity(),
            if d.as_ptr() == ptr { "the same" } else { "another one" }));
    }
    if len >= 1 << 20 && max >= len {
        return Err(format!("{what}: allocated {max} B for a message with {len} B of data"));
    }
    Ok(b)
}

fn lib<L: Lib>(ctx: &mut Ctx, p: &Plain) -> Result<(), String> {
    let mut p = p.clone();
    if !L::SEQ {
        p.seq = 0;
    }
    ctx.evaluations += 4;
    // in
    let m: PointCloud2Msg = watch(&format!("{} -> message", L::NAME), L::make(&p), L::data, |m: &PointCloud2Msg| &m.data, |a| a.into())?;
    if let Some(d) = p.diff(&Plain::of_msg(&m)) {
        return Err(format!("{} -> message: {d}", L::NAME));
    }
    // out again
    let r: L::M = watch(&format!("{} -> message -> {}", L::NAME, L::NAME), m, |m: &PointCloud2Msg| &m.data, L::data, L::M::from)?;
    if let Some(d) = p.diff(&L::take(&r)) {
        return Err(format!("{} -> message -> {}: {d}", L::NAME, L::NAME));
    }
    // out, of a message with everything set
    let mut q = p.clone();
    q.seq = q.seq.wrapping_add(77);
    let r: L::M = watch(&format!("message -> {}", L::NAME), q.msg(), |m: &PointCloud2Msg| &m.data, L::data, L::M::from)?;
    if !L::SEQ {
        q.seq = 0;
    }
    if let Some(d) = q.diff(&L::take(&r)) {
        return Err(format!("message -> {}: {d}", L::NAME));
    }
    let m: PointCloud2Msg = watch(&format!("message -> {} -> message", L::NAME), r, L::data, |m: &PointCloud2Msg| &m.data, |a| a.into())?;
    if let Some(d) = q.diff(&Plain::of_msg(&m)) {
        return Err(format!("message -> {} -> message: {d}", L::NAME));
    }
    ctx.add(L::NAME, 4);
    Ok(())
}

fn parts(ctx: &mut Ctx, p: &Plain) -> Result<(), String> {
    ctx.evaluations += 3;
    let t: TimeMsg = jazzy::builtin_interfaces::msg::Time { sec: p.sec, nanosec: p.nsec }.into();
    if (t.sec, t.nanosec) != (p.sec, p.nsec) {
        return Err(format!("ROS 2 time {} {} became {t:?}", p.sec, p.nsec));
    }
    let t: TimeMsg = rosrust::Time { sec: p.sec as u32, nsec: p.nsec }.into();
    if (t.sec, t.nanosec) != (p.sec, p.nsec) {
        return Err(format!("rosrust time {} {} became {t:?}", p.sec as u32, p.nsec));
    }
    let h: HeaderMsg = jazzy::std_msgs::msg::Header { stamp: jazzy::builtin_interfaces::msg::Time { sec: p.sec, nanosec: p.nsec }, frame_id: p.frame.clone() }.into();
    if (h.stamp.sec, h.stamp.nanosec, &h.frame_id) != (p.sec, p.nsec, &p.frame) {
        return Err(format!("ROS 2 header {} {} {:?} became {h:?}", p.sec, p.nsec, p.frame));
    }
    ctx.add("time and header parts", 3);
    Ok(())
}

fn c15(ctx: &mut Ctx, rng: &mut Rng) {
    let p = plain(rng);
    let r = parts(ctx, &p).and_then(|_| lib::<Jazzy>(ctx, &p)).and_then(|_| lib::<R2r>(ctx, &p)).and_then(|_| lib::<Rosrust>(ctx, &p));
    if let Err(e) = r {
        return ctx.fail(e);
    }
    ctx.add("conversions of a buffer with spare capacity", SPARE.swap(0, Ordering::Relaxed));
    let mut h = Hasher::new();
    h.u(15).b(p.frame.as_bytes()).u(p.width as u64).u(p.height as u64).u(p.row_step as u64).u(p.point_step as u64).b(&p.data);
    for f in &p.fields {
        h.b(f.0.as_bytes()).u(f.1 as u64).u(f.2 as u64);
    }
    ctx.nontrivial(h.0);
    if p.data.is_empty() {
        ctx.count("messages without data");
    }
    if ctx.case % 97 == 5 && p.data.len() < 100 && p.fields.len() < 6 {
        ctx.sample(|| format!("{p:?}"));
    }
}

fn main() {
    pcmon::driver::main_with(|p| if p == "C15" { Some(c15) } else { None });
}
