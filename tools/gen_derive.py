"""C13: the derive macro on freshly generated structs.

1. Every generated struct must compile, every struct with an unsupported field must not (rustc is the observer).
2. The generated structs run in the monitors: layout against the compiler's, messages against the reference model.
"""
import fcntl, json, os, random, re, shutil, subprocess, time

TYPES = ["f32", "f64", "i8", "u8", "i16", "u16", "i32", "u32"]
IDENTS = ["x", "y", "z", "w", "intensity", "t", "ring", "label", "a", "b", "c", "d", "_e", "fields", "size", "offset", "offsets", "point", "name",
          "last_field_end", "layout", "order", "idx", "len", "data", "time_stamp", "normal_x", "curvature", "r#type", "r#fn", "r#match", "r#struct",
          "grösse", "übung", "r#in", "f32_", "u8", "f32", "x1", "X", "ORDER_", "struct_size", "ty"]
NAMES = ["x", "y", "z", "i", "intensity", "time stamp", "a-b", "", "Größe", "漢字", "_", "type", "u8", "x ", " y", "a\\\"q", "back\\\\slash", "tab\\there",
         "very_long_name_of_a_field_that_is_still_valid_in_a_message_and_must_be_kept_as_it_is", "X", "0", "{}", "{name}", "normal_x", "rgb", "RGB"]
ATTRS = ["/// documented", "#[doc = \"x\"]", "#[allow(dead_code)]", "#[cfg(all())]", "/** block comment */", "#[doc(hidden)]", "#[allow(unused)] /// two",
         "// no attribute"]
BAD = ["u64", "i64", "bool", "char", "usize", "isize", "u128", "i128", "[f32; 2]", "(f32, f32)", "(f32,)", "Option<f32>", "RGB", "ros_pointcloud2::points::RGB",
       "Inner", "[u8; 1]", "()", "core::num::Wrapping<f32>", "core::num::NonZeroU8", "String", "&'static u8", "*const u8"]


def reprs(rng, n):
    r = rng.random()
    if r < 0.28:
        return ["#[repr(C)]"]
    if r < 0.5:
        return []
    if r < 0.62:
        return ["#[repr(C, align(%d))]" % rng.choice([1, 2, 4, 8, 16, 32, 64, 128])]
    if r < 0.7:
        return ["#[repr(align(%d))]" % rng.choice([2, 4, 8, 16, 32])]
    if r < 0.78:
        return ["#[repr(C, packed)]"]
    if r < 0.84:
        return ["#[repr(packed)]"]
    if r < 0.9:
        return ["#[repr(C, packed(%d))]" % rng.choice([2, 4, 8])]
    if r < 0.95:
        return ["#[repr(packed(%d))]" % rng.choice([2, 4])]
    if n == 1:
        return ["#[repr(transparent)]"]
    return ["#[repr(C)]", "#[repr(align(%d))]" % rng.choice([4, 16])]


class Struct:
    def __init__(self, rng, k):
        self.name = "S%d" % k
        n = rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 17, 20]) if k >= 4 else (1, 3, 8, 20)[k]
        self.repr = reprs(rng, n)
        ids = rng.sample(IDENTS, n)
        mode = rng.random()
        if mode < 0.15:
            pool = [rng.choice(TYPES)]
        elif mode < 0.4:
            pool = rng.sample(TYPES, 2)
        else:
            pool = TYPES
        declared = [i[2:] if i.startswith("r#") else i for i in ids]
        names = list(declared)
        ren = rng.random()
        if ren < 0.2 and n >= 2:
            # rotate the declared names among each other
            p = list(range(n))
            rng.shuffle(p)
            names = [declared[j] for j in p]
        elif ren < 0.7:
            for i in range(n):
                if rng.random() < 0.4:
                    c = rng.choice(NAMES)
                    if c not in names:
                        names[i] = c
        self.fields = []
        for i in range(n):
            pre, post = [], []
            if names[i] != declared[i] or rng.random() < 0.05:
                at = rng.random()
                (pre if at < 0.5 else post).append("#[rpcl2(rename(\"%s\"))]" % names[i])
            for where in (pre, post):
                if rng.random() < 0.2:
                    where.append(rng.choice(ATTRS))
            if rng.random() < 0.5:
                pre, post = post, pre
            self.fields.append((pre + post, rng.choice(["pub ", "pub ", "pub(crate) ", ""]), ids[i], rng.choice(pool), names[i]))
        self.outer = [a for a in ["/// A documented point.", "#[allow(dead_code)]", "#[must_use]"] if rng.random() < 0.2]
        self.derives = rng.choice(["Clone, Copy, Default, PointConvertible", "PointConvertible, Clone, Copy, Default", "Default, PointConvertible, Copy, Clone"])
        self.qualified = rng.random() < 0.3
        self.via_macro = rng.random() < 0.1

    def source(self, bad=None):
        """bad: (field index, type) to put in"""
        out = []
        d = self.derives.replace("PointConvertible", "::ros_pointcloud2::prelude::PointConvertible") if self.qualified else self.derives
        out += self.outer
        out.append("#[derive(%s)]" % d)
        out += self.repr
        out.append("pub struct %s {" % self.name)
        for i, (attrs, vis, ident, ty, _) in enumerate(self.fields):
            for a in attrs:
                out.append("    " + a)
            if bad and bad[0] == i:
                ty = bad[1]
            out.append("    %s%s: %s," % (vis, ident, ty))
        out.append("}")
        src = "\n".join(out)
        if self.via_macro:
            src = "macro_rules! make_%s { () => {\n%s\n} }\nmake_%s!();" % (self.name, src, self.name)
        return src

    def subject(self):
        fs = ", ".join("%d %s: %s => \"%s\"" % (i, f[2], f[3], f[4]) for i, f in enumerate(self.fields))
        return "pcmon::subject!(%s, %d, \"%s\", [%s]);" % (self.name, len(self.fields), self.name + " " + " ".join(self.repr).replace('"', ""), fs)

    def describe(self):
        return "%s %s { %s }" % (" ".join(self.repr), self.name, ", ".join("%s: %s as %r" % (f[2], f[3], f[4]) for f in self.fields))


HEAD = "#![allow(non_snake_case, non_camel_case_types, non_upper_case_globals, uncommon_codepoints, mixed_script_confusables, dead_code, unused_imports, unused_doc_comments, unused_macros)]\n"
PROBE_HEAD = HEAD + "use ros_pointcloud2::prelude::*;\nuse ros_pointcloud2::points::RGB;\n"
# a use of both conversions, so that accepting a struct means that it can be used
PROBE_TAIL = """
fn main() {
    let m = PointCloud2Msg::try_from_iter(vec![%s::default()]).unwrap();
    let _: Vec<%s> = m.try_into_iter().unwrap().collect();
}
"""


def write(path, txt):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == txt:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(txt)


def cargo_json(c, args, cwd, tdir, logf):
    env = c.base_env()
    with open(logf, "w") as le:
        p = subprocess.run(["cargo", "+stable", *args, "--offline", "--message-format=json", "--target-dir", tdir], cwd=cwd, env=env,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=le, timeout=600)
    msgs = []
    for l in p.stdout.decode(errors="replace").splitlines():
        try:
            msgs.append(json.loads(l))
        except ValueError:
            pass
    return p.returncode, msgs


def errors_by_target(msgs):
    r = {}
    for m in msgs:
        if m.get("reason") == "compiler-message" and m["message"]["level"].startswith("error"):
            r.setdefault((m["target"]["kind"][0], m["target"]["name"]), []).append(m["message"].get("rendered") or m["message"]["message"])
    return r


def built(msgs):
    return {(m["target"]["kind"][0], m["target"]["name"]) for m in msgs if m.get("reason") == "compiler-artifact"}


def generate(c, quick_n, thorough_n):
    rng = random.Random("derive %d" % c.SEED)
    return rng, [Struct(rng, k) for k in range(thorough_n if c.THOROUGH else quick_n)]


def probes(c, structs, rng):
    """returns (count good, count bad, violation or None)"""
    tdir = os.path.join(c.TARGET, "probe")
    src = os.path.join(tdir, "crate")
    shutil.rmtree(os.path.join(src, "src"), ignore_errors=True)
    os.makedirs(os.path.join(src, "src", "bin"))
    write(os.path.join(src, "Cargo.toml"), """[package]
name = "probe"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
ros_pointcloud2 = { path = "%s/rpcl2", default-features = false, features = ["derive", "std"] }
""" % c.REPO)
    shutil.copy(os.path.join(c.HARNESS, "Cargo.lock"), os.path.join(src, "Cargo.lock"))
    files = {}
    files["base"] = PROBE_HEAD + "#[derive(Clone, Copy, Default, PointConvertible)]\n#[repr(C)]\npub struct B { pub x: f32, pub y: f32, pub z: f32 }\n" + PROBE_TAIL % ("B", "B")
    for s in structs:
        files["good_" + s.name.lower()] = PROBE_HEAD + s.source() + PROBE_TAIL % (s.name, s.name)
    plain = [s for s in structs if "#[repr(transparent)]" not in s.repr]
    for i, t in enumerate(BAD):
        base = plain[i % len(plain)]
        k = rng.randrange(len(base.fields))
        inner = "#[derive(Clone, Copy, Default)]\npub struct Inner { pub v: f32 }\n"
        files["bad_%02d" % i] = PROBE_HEAD + inner + base.source((k, t)) + PROBE_TAIL % (base.name, base.name)
    for i, body in enumerate([
            "#[derive(Clone, Copy, Default, PointConvertible)]\npub struct Q(pub f32, pub f32);",
            "#[derive(Clone, Copy, Default, PointConvertible)]\npub struct Q;",
            "#[derive(Clone, Copy, Default, PointConvertible)]\npub struct Q {}",
            "#[derive(Clone, Copy, Default, PointConvertible)]\npub enum Q { #[default] A }",
            "#[derive(Clone, Copy, PointConvertible)]\npub union Q { pub a: f32, pub b: u32 }\nimpl Default for Q { fn default() -> Self { Q { b: 0 } } }"]):
        files["shape_%02d" % i] = PROBE_HEAD + body + PROBE_TAIL % ("Q", "Q")
    for n, t in files.items():
        write(os.path.join(src, "src", "bin", n + ".rs"), t)
    stamp, h, _ = c.fresh(tdir, ("ros_pointcloud2", "rpcl2-derive", "probe"), [])
    # probes change with the seed: never reuse their fingerprints
    import glob
    for p in glob.glob(os.path.join(tdir, "**", ".fingerprint", "probe-*"), recursive=True):
        shutil.rmtree(p, ignore_errors=True)
    rc, msgs = cargo_json(c, ["check", "--keep-going", "--bins"], src, tdir, os.path.join(tdir, "build.log"))
    errs, ok = errors_by_target(msgs), built(msgs)
    if ("bin", "base") not in ok:
        raise c.NoAnswer("not even the simplest derived struct builds: %s" % (errs.get(("bin", "base")) or open(os.path.join(tdir, "build.log")).read()[-2000:]))
    with open(stamp, "w") as f:
        f.write(h)
    good = bad = 0
    for n, t in sorted(files.items()):
        accepted, rejected = ("bin", n) in ok, ("bin", n) in errs
        if not accepted and not rejected:
            raise c.NoAnswer("the compiler gave no verdict on probe %s" % n)
        if n.startswith("good"):
            good += 1
            if not accepted:
                return good, bad, (n, t, "a struct of supported field types does not compile: " + errs[("bin", n)][0])
        elif n != "base":
            bad += 1
            if accepted:
                return good, bad, (n, t, "an unsupported struct compiles: " + t)
    return good, bad, None


MAIN = HEAD + """
use pcmon::gen;
use pcmon::model::*;
use pcmon::mon::{guard, Ctx};
use pcmon::props::read::check_values;
use pcmon::props::schema::layout_matches;
use pcmon::props::write::{c03_on, c04_on};
use pcmon::rng::Rng;
use pcmon::subjects::*;
use ros_pointcloud2::prelude::*;
use std::marker::PhantomData;

#[global_allocator]
static ALLOC: pcmon::mon::Monitor = pcmon::mon::Monitor;

%s

fn all() -> Vec<&'static dyn Ops> {
    vec![%s]
}

fn c13(ctx: &mut Ctx, rng: &mut Rng) {
    let v = all();
    let s = v[(ctx.case / 8 %% v.len() as u64) as usize];
    let spec = s.fields();
    if ctx.case / 8 < v.len() as u64 || rng.chance(1, 16) {
        ctx.evaluations += 1;
        match guard(|| layout_matches(s)) {
            Ok(Ok(true)) => ctx.count("layouts compared with the compiler's"),
            Ok(Ok(false)) => ctx.count("layout description not readable"),
            Ok(Err(e)) | Err(e) => return ctx.fail(e),
        }
        if s.n() != spec.len() {
            return ctx.fail(format!("{} converts {} fields of {}", s.name(), s.n(), spec.len()));
        }
        ctx.sample(|| format!("{}: {:?}", s.name(), s.layout()));
    }
    match rng.below(3) {
        0 => c03_on(ctx, rng, s),
        1 => c04_on(ctx, rng, s),
        _ => {
            let n = 1 + rng.idx(20);
            let (m, kind) = gen::valid_msg(rng, s, n);
            let Verdict::Valid(want) = verdict(&m, &spec) else { return };
            check_values(ctx, rng, s, &m, &want, kind);
            let mut h = pcmon::mon::Hasher::new();
            h.u(13).b(s.name().as_bytes());
            hash_msg(&mut h, &m);
            ctx.nontrivial(h.0);
            ctx.count("messages of other layouts read");
        }
    }
    ctx.count(if spec.iter().any(|f| f.mem %% f.ty.size() != 0) { "structs with unaligned members" } else { "structs with aligned members" });
    if spec.windows(2).any(|w| w[0].mem > w[1].mem) {
        ctx.count("structs reordered by the compiler");
    }
}

fn main() {
    pcmon::driver::main_with(|p| if p == "C13" { Some(c13) } else { None });
}
"""


def build(c, structs):
    tdir = os.path.join(c.TARGET, "derive")
    src = os.path.join(tdir, "crate")
    os.makedirs(src, exist_ok=True)
    write(os.path.join(src, "Cargo.toml"), """[package]
name = "derived"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
pcmon = { path = "%s", features = ["std"] }
ros_pointcloud2 = { path = "%s/rpcl2", default-features = false, features = ["derive", "std"] }

[profile.dev]
opt-level = 1
debug = "line-tables-only"
incremental = false
""" % (c.HARNESS, c.REPO))
    shutil.copy(os.path.join(c.HARNESS, "Cargo.lock"), os.path.join(src, "Cargo.lock"))
    for k in range(8):
        part = structs[k::8]
        body = "\n".join(s.source() + "\n" + s.subject() + "\n" for s in part)
        hold = ", ".join("&Holder::<%d, %s>(PhantomData)" % (len(s.fields), s.name) for s in part)
        write(os.path.join(src, "src", "bin", "derived%d.rs" % k), MAIN % (body, hold))
    t = time.time()
    stamp, h, _ = c.fresh(tdir, ("ros_pointcloud2", "rpcl2-derive", "pcmon", "derived"), [c.HARNESS, src])
    rc, msgs = cargo_json(c, ["build"], src, tdir, os.path.join(tdir, "build.log"))
    if rc != 0:
        errs = errors_by_target(msgs)
        raise c.NoAnswer("building the generated structs failed: %s" % ([e[0][:1500] for e in errs.values()] or open(os.path.join(tdir, "build.log")).read()[-2000:]))
    with open(stamp, "w") as f:
        f.write(h)
    c.log("built derived structs in %.0fs" % (time.time() - t))
    return [[os.path.join(tdir, "debug", "derived%d" % k)] for k in range(8)]


def sizes(c):
    return generate(c, 40, 240)


def setup(c):
    rng, structs = sizes(c)
    probes(c, structs, rng)
    build(c, structs)


def prefix(c):
    rng, structs = sizes(c)
    return build(c, structs)


def check(c):
    rng, structs = sizes(c)
    for d in ("probe", "derive"):
        os.makedirs(os.path.join(c.TARGET, d), exist_ok=True)
    with open(os.path.join(c.TARGET, "derive", "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        good, bad, v = probes(c, structs, rng)
        c.log("%d structs compile, %d are rejected" % (good, bad))
        if v:
            os.makedirs(c.OUT, exist_ok=True)
            path = os.path.join(c.OUT, "C13-probe.rs")
            write(path, v[1])
            c.evidence("C13", [], {"evaluations": good + bad, "distinct_nontrivial": good + bad, "samples": [v[1]]}, 1)
            if c.violation("C13", "rustc", None, v[2], "", {"source": v[1]}):
                return 1
            raise c.NoAnswer("stopped at a known finding")
        pre = build(c, structs)
        cases = 400000 if c.THOROUGH else 24000
        shards = [c.Shard("C13", "derive", pre[k], k, 8, cases, {}) for k in range(8)]
        c.run_shards(shards)
    extra = {"structs_generated": len(structs), "structs_accepted_by_rustc": good, "unsupported_structs_rejected_by_rustc": bad,
             "generated": [s.describe() for s in structs[:12]]}
    return c.conclude("C13", shards, extra)
