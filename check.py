#!/usr/bin/env python3
"""Runs the monitors of one property against the current tree of /repo.

  check.py C05                 run the check of property C05 (VERIF_TIER, VERIF_SEED)
  check.py replay out/x.json   run one reported case again, verbosely
  check.py setup               build everything the checks need

Verdicts: 0 held on everything explored, 1 violated (VIOLATION line), 2 no answer.
"""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "out")
HARNESS = os.path.join(VERIF, "harness")
HOST = "x86_64-unknown-linux-gnu"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"
T0 = time.time()

MIRIFLAGS = "-Zmiri-permissive-provenance -Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-disable-isolation"
# aliasing does not depend on the target: it is checked once, on x86_64
MIRIFLAGS_HOSTS = "-Zmiri-permissive-provenance -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-disable-isolation"

# name -> (toolchain, cargo arguments, features, profile, target triple or None, RUSTFLAGS, is miri)
VARIANTS = {
    "dbg":  ("stable", [], "par", "dev", None, "", False),
    "rel":  ("stable", [], "par", "release", None, "", False),
    "min":  ("stable", [], "std", "dev", None, "", False),
    "nal":  ("stable", [], "std,nalg", "dev", None, "", False),
    "ser":  ("stable", [], "ser", "dev", None, "", False),
    "asan": ("nightly", ["-Zbuild-std"], "par", "san", HOST, "-Zsanitizer=address", False),
    "msan": ("nightly", ["-Zbuild-std"], "par", "san", HOST, "-Zsanitizer=memory", False),
    "tsan": ("nightly", ["-Zbuild-std"], "par", "san", HOST, "-Zsanitizer=thread", False),
    "miri": ("nightly", [], "par", "raw", HOST, "", True),
    "miri-be": ("nightly", [], "std", "raw", "s390x-unknown-linux-gnu", "", True),
    "miri-32": ("nightly", [], "std", "raw", "i686-unknown-linux-gnu", "", True),
}
DESCR = {
    "dbg": "debug build (overflow checks, debug assertions), rayon on",
    "rel": "release build (wrapping arithmetic), rayon on",
    "min": "debug build without the rayon feature",
    "nal": "debug build with the nalgebra feature",
    "ser": "debug build with the serde feature",
    "asan": "AddressSanitizer, standard library instrumented",
    "msan": "MemorySanitizer, standard library instrumented",
    "tsan": "ThreadSanitizer, standard library instrumented",
    "miri": "Miri (x86_64, 64 bit little endian)",
    "miri-be": "Miri (s390x, 64 bit big endian)",
    "miri-32": "Miri (i686, 32 bit little endian)",
    "interop": "debug build with the ROS integrations",
    "derive": "debug build of the structs generated for this seed",
}

# variants fast enough for clouds of millions of points
GIANT = ("dbg", "rel", "min")

# property -> list of (variant, quick cases, thorough cases, shards, options)
J = lambda v, q, t, n=8, **o: (v, q, t, n, o)
PLAN = {
    "C01": [J("asan", 24000, 800000), J("msan", 16000, 500000), J("dbg", 16000, 400000), J("miri", 96, 4000), J("miri-32", 96, 4000)],
    "C02": [J("dbg", 40000, 1500000), J("rel", 40000, 1500000), J("min", 40000, 1500000), J("miri-32", 240, 6000)],
    "C03": [J("dbg", 48000, 700000), J("rel", 48000, 700000), J("min", 48000, 700000)],
    "C04": [J("dbg", 120000, 2000000), J("rel", 120000, 2000000), J("min", 60000, 1000000)],
    "C05": [J("dbg", 120000, 2000000), J("rel", 120000, 2000000), J("min", 120000, 1000000)],
    "C06": [J("dbg", 120000, 2000000), J("rel", 120000, 2000000), J("min", 120000, 1000000)],
    "C07": [J("dbg", 24000, 200000), J("rel", 24000, 200000), J("min", 24000, 200000), J("miri-32", 400, 8000)],
    "C08": [J("dbg", 900000, 12000000), J("rel", 900000, 12000000), J("min", 300000, 4000000)],
    "C09": [J("dbg", 100000, 1200000), J("rel", 150000, 1200000), J("min", 50000, 500000)],
    "C10": [J("tsan", 1600, 60000, 4), J("dbg", 8000, 250000, 4), J("rel", 8000, 250000, 4), J("miri", 16, 512, 8, seeds=True)],
    "C11": [J("dbg", 40000, 1200000), J("min", 104, 2400, 8, slow=True, digest=True), J("miri-be", 104, 2400, 8, digest=True),
            J("miri-32", 104, 2400, 8, digest=True)],
    "C12": [J("dbg", 30000, 700000), J("rel", 30000, 700000), J("msan", 10000, 300000), J("miri", 64, 3000)],
    "C14": [J("dbg", 16200, 810000), J("rel", 16200, 810000), J("min", 16200, 810000), J("miri-be", 81, 810)],
    "C16": [J("rel", 256, 65536), J("min", 256, 4096), J("miri-be", 8, 128, 8)],
    "C17": [J("dbg", 24000, 300000, 4), J("rel", 24000, 300000, 4)],
    "C18": [J("ser", 120000, 1500000)],
    "C19": [J("dbg", 150000, 5000000), J("rel", 150000, 5000000), J("min", 50000, 2000000), J("asan", 40000, 800000), J("miri", 160, 6000)],
    "C20": [J("dbg", 300, 4 + 16384), J("rel", 300, 300), J("miri-be", 64, 1024, 8, start=4)],
    "C21": [J("rel", 18 + 400, 18 + 4000, 1), J("dbg", 400, 4000, 1, start=2)],
    "C22": [J("nal", 400000, 3000000), J("min", 60000, 300000)],
    "C24": [J("dbg", 24000, 700000, 8, digest=True), J("dbg", 24000, 700000, 8, digest=True, reverse=True), J("rel", 24000, 700000),
            J("min", 16000, 300000), J("tsan", 1600, 40000, 4), J("miri", 16, 1200)],
    "C25": [J("dbg", 60000, 1500000), J("rel", 60000, 1500000), J("min", 60000, 1500000), J("miri-32", 64, 2000)],
}
LIMIT_SECS = 200 if not THOROUGH else 1500      # one shard
DEADLINE = 540 if not THOROUGH else 3000        # no shard starts later than this

TITLE, LEVEL = {}, "exploration"
RULE = {}
try:
    with open(os.path.join(VERIF, "rules.json")) as f:
        RULE = json.load(f)
except FileNotFoundError:
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


class NoAnswer(Exception):
    pass


def sources_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "out"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def base_env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET", "MIRIFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RAYON_NUM_THREADS"] = "4"
    return e


def fresh(tdir, crates=("ros_pointcloud2", "rpcl2-derive", "pcmon"), extra=()):
    """Forget the fingerprints of crates under observation when the sources differ from the ones built.
    (Time stamps cannot be trusted: the tree may have been restored with older ones.)
    Returns the stamp file, the hash of the sources and what was built from just these sources."""
    h = sources_hash([os.path.join(REPO, "rpcl2"), os.path.join(REPO, "rpcl2-derive"), *extra])
    stamp = os.path.join(tdir, "sources.sha256")
    try:
        was = open(stamp).read().split()
    except OSError:
        was = [""]
    if was[:1] == [h]:
        return stamp, h, was[1:]
    if os.path.exists(stamp):
        os.unlink(stamp)
    for c in crates:
        for p in glob.glob(os.path.join(tdir, "**", ".fingerprint", c + "-*"), recursive=True):
            shutil.rmtree(p, ignore_errors=True)
    return stamp, h, []


def variant_env(v):
    tc, args, feats, prof, triple, rf, miri = VARIANTS[v]
    e = base_env()
    if rf:
        e["RUSTFLAGS"] = rf
    if miri:
        e["MIRIFLAGS"] = MIRIFLAGS if v == "miri" else MIRIFLAGS_HOSTS
        e["XDG_CACHE_HOME"] = os.path.join(TARGET, "cache")
    return e


def cargo_cmd(v, tdir, verb, mode):
    """mode: "all", or the id of the property whose monitors suffice"""
    tc, args, feats, prof, triple, rf, miri = VARIANTS[v]
    if mode != "all":
        feats += ",only," + mode.lower()
    c = ["cargo", "+" + tc]
    if miri:
        c += ["miri"]
    c += [verb, "-q", "--offline", "--manifest-path", os.path.join(HARNESS, "run", "Cargo.toml"), "--target-dir", tdir, "--features", feats,
          "--profile", prof, "--bin", "pcmon"] + args
    if triple:
        c += ["--target", triple]
    return c


def run_cmd(cmd, env, timeout, cwd=VERIF, stdout=None, stderr=None):
    """returns (rc or None on timeout)"""
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=stdout, stderr=stderr, stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        return p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        return None


def build(v, prop="all"):
    """Build a variant; returns the command prefix that runs it.
    Setup builds the monitors of all properties. Where the tree has changed since, only those of `prop` are built."""
    tc, args, feats, prof, triple, rf, miri = VARIANTS[v]
    tdir = os.path.join(TARGET, v)
    os.makedirs(tdir, exist_ok=True)
    t = time.time()
    with open(os.path.join(tdir, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp, h, have = fresh(tdir, extra=[HARNESS])
        mode = "all" if "all" in have else prop
        env = variant_env(v)
        logf = os.path.join(tdir, "build.log")
        with open(logf, "w") as lf:
            if miri:
                cache = os.path.join(TARGET, "cache")
                os.makedirs(cache, exist_ok=True)
                with open(os.path.join(cache, "lock"), "w") as cl:
                    fcntl.flock(cl, fcntl.LOCK_EX)
                    rc = run_cmd(["cargo", "+" + tc, "miri", "setup", "--target", triple], env, 600, stdout=lf, stderr=lf)
                if rc != 0:
                    raise NoAnswer("Miri has no standard library for %s, see %s" % (triple, logf))
                rc = run_cmd(cargo_cmd(v, tdir, "run", mode) + ["--", "--prop", "none"], env, 800, stdout=lf, stderr=lf)
                ok = rc == 64
            else:
                rc = run_cmd(cargo_cmd(v, tdir, "build", mode), env, 800, stdout=lf, stderr=lf)
                ok = rc == 0
        if not ok:
            with open(logf) as lf:
                tail = lf.read()[-3000:]
            raise NoAnswer("building %s failed (rc %s): %s" % (v, rc, tail))
        with open(stamp, "w") as f:
            f.write(" ".join([h] + sorted({mode, *have})))
        # the same file is written for every mode: keep each under a name of its own
        made = os.path.join(tdir, triple or "", {"dev": "debug"}.get(prof, prof), "pcmon")
        mine = os.path.join(tdir, "pcmon-" + mode)
        if not miri:
            if os.path.exists(mine):
                os.unlink(mine)
            os.link(made, mine)
    log("built %s (%s) in %.0fs" % (v, mode, time.time() - t))
    if miri:
        return cargo_cmd(v, tdir, "run", mode) + ["--"]
    return [mine]


SAN = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=1",
    "MSAN_OPTIONS": "abort_on_error=1:allocator_may_return_null=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:suppressions=" + os.path.join(VERIF, "tools/tsan.supp"),
}
REPORTS = [
    (r"ERROR: AddressSanitizer:? ([^\n]*)", "AddressSanitizer"),
    (r"WARNING: MemorySanitizer: ([^\n]*)", "MemorySanitizer"),
    (r"WARNING: ThreadSanitizer: ([^\n]*)", "ThreadSanitizer"),
    (r"error: Undefined Behavior: ([^\n]*)", "Miri"),
]
SIGNALS = {-signal.SIGSEGV: "SIGSEGV", -signal.SIGBUS: "SIGBUS", -signal.SIGABRT: "SIGABRT", -signal.SIGILL: "SIGILL", -signal.SIGFPE: "SIGFPE",
           -signal.SIGTRAP: "SIGTRAP"}


class Shard:
    def __init__(self, prop, v, prefix, k, n, cases, opts, tag="", prog=None):
        self.prop, self.v, self.prefix, self.k, self.n, self.cases, self.opts = prop, v, prefix, k, n, cases, opts
        if opts.get("reverse"):
            tag += "-reversed"
        self.base = os.path.join(OUT, "%s.%s%s.%d" % (prop, v, tag, k))
        self.report = self.violation = self.problem = self.incomplete = None
        self.miri_seed = None

    def args(self):
        a = ["--prop", self.prop, "--seed", str(SEED), "--shard", "%d/%d" % (self.k, self.n), "--cases", str(self.cases),
             "--max-secs", str(self.secs), "--out", self.base]
        if self.opts.get("start"):
            a += ["--start", str(self.opts["start"])]
        if self.opts.get("slow"):
            a += ["--slow"]
        if self.opts.get("reverse"):
            a += ["--reverse"]
        if self.v in GIANT:
            a += ["--giant"]
        if THOROUGH:
            a += ["--thorough"]
        return a

    def env(self):
        e = variant_env(self.v) if self.v in VARIANTS else base_env()
        e.update(SAN)
        if self.opts.get("seeds"):
            # another scheduling of the same program in each shard
            self.miri_seed = (SEED * 1000 + self.k) % (1 << 31)
            e["MIRIFLAGS"] = e["MIRIFLAGS"] + " -Zmiri-seed=%d -Zmiri-preemption-rate=%s" % (self.miri_seed, ["0.01", "0.05", "0.1", "0.3"][self.k % 4])
        return e

    def run(self):
        for ext in (".hashes", ".out", ".err"):
            try:
                os.unlink(self.base + ext)
            except OSError:
                pass
        left = DEADLINE - (time.time() - T0)
        if left < 3:
            self.incomplete = "not started, time was up"
            return self
        self.secs = int(max(5, min(LIMIT_SECS, left)))
        cmd = self.prefix + self.args()
        with open(self.base + ".out", "w") as so, open(self.base + ".err", "w") as se:
            rc = run_cmd(cmd, self.env(), self.secs + 150, stdout=so, stderr=se)
        out = open(self.base + ".out", errors="replace").read()
        with open(self.base + ".err", "rb") as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(max(0, size - 400000))
            err = f.read().decode(errors="replace")
        m = re.search(r"^PCMON (\{.*\})\s*$", out, re.M)
        if m:
            self.report = json.loads(m.group(1))
        crumbs = re.findall(r"^@case (\d+)$", err, re.M)
        case = int(crumbs[-1]) if crumbs else None
        noise = re.sub(r"^@case \d+\n", "", err, flags=re.M)
        for rx, who in REPORTS:
            r = re.search(rx, err)
            if r:
                at = re.findall(r"(/repo/[\w/.-]+\.rs:\d+)", err[r.start():])
                # ASan also names resource problems as errors: those are no memory errors
                if who == "AddressSanitizer" and re.search(r"failed to allocate|out of memory|exceeds maximum|allocation-size-too-big|out-of-memory|rss-limit", r.group(1)):
                    continue
                self.violation = (case, "%s: %s%s" % (who, r.group(1).strip(), " in " + at[0] if at else ""), noise[-6000:])
                return self
        if rc is None and VARIANTS.get(self.v, (0,) * 7)[6]:
            # the interpreter is four orders of magnitude slower: what it has seen until here counts, nothing more
            self.incomplete = "stopped in case %s" % case
        elif rc is None:
            self.problem = "%s shard %d did not finish in time (case %s)" % (self.v, self.k, case)
        elif rc == 10 and self.report and self.report.get("violation"):
            x = self.report["violation"]
            self.violation = (x["case"], x["message"], "")
        elif rc == 0 and self.report:
            if self.report["elapsed_ms"] > self.secs * 1000:
                self.incomplete = "stopped after case %s, time was up" % self.report["last"]
        elif rc == 11 and "@stuck" in err:
            if VARIANTS.get(self.v, ("stable",))[0] == "stable":
                self.violation = (case, "a call does not return: the case used more than 60 s of processor time", noise[-2000:])
            else:
                self.problem = "%s shard %d is stuck in case %s" % (self.v, self.k, case)
        elif rc == 12 and "@runaway" in err:
            self.violation = (case, "the case keeps more than 2.5 GiB alive (its input has some megabytes)", noise[-2000:])
        elif rc in SIGNALS and case is not None or (rc == 134 and case is not None):
            if "memory allocation of" in err and self.prop not in ("C02",):
                self.problem = "%s shard %d ran out of memory at case %s" % (self.v, self.k, case)
            else:
                why = noise.strip().splitlines()[-1][:300] if noise.strip() else ""
                self.violation = (case, "the process died of %s: %s" % (SIGNALS.get(rc, "SIGABRT"), why), noise[-4000:])
        else:
            self.problem = "%s shard %d ended with rc %s at case %s: %s" % (self.v, self.k, rc, case, noise[-1500:])
        return self


def known():
    """Lines `finding: property=<id> match=<regular expression> <what fails>` of known_findings.txt."""
    r = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
            if m:
                r.append(m.groups())
    except OSError:
        pass
    return r


def distinct_hashes(shards):
    import array
    seen = set()
    for s in shards:
        try:
            a = array.array("Q")
            with open(s.base + ".hashes", "rb") as f:
                a.frombytes(f.read())
            seen.update(a)
        except (OSError, ValueError):
            pass
    return len(seen)


def digests_agree(shards):
    """The digests recorded per case must be equal on all hosts (C11) and for any history of the process (C24)."""
    def who(s):
        return DESCR[s.v] + (", cases in opposite order" if s.opts.get("reverse") else "")
    by = {}
    for s in shards:
        if s.opts.get("digest"):
            by.setdefault(s.k, []).append(s)
    compared = 0
    for k, ss in sorted(by.items()):
        # a reversed run that was cut short begins elsewhere: nothing to align
        data = [(s, open(s.base + ".hashes", "rb").read()) for s in ss if s.report and not (s.opts.get("reverse") and s.incomplete)]
        if len(data) < 2:
            continue
        ref = next(((s, d) for s, d in data if s.v == "min"), data[0])
        for s, d in data:
            n = min(len(d), len(ref[1])) // 8
            for i in range(n):
                if d[8 * i:8 * i + 8] != ref[1][8 * i:8 * i + 8]:
                    return compared, (k + i * s.n, "(%s) and (%s) disagree about case %d: digests %s and %s" % (
                        who(s), who(ref[0]), k + i * s.n, d[8 * i:8 * i + 8].hex(), ref[1][8 * i:8 * i + 8].hex()), s)
            if s is not ref[0]:
                compared += n
                if len(d) != len(ref[1]) and not s.incomplete and not ref[0].incomplete:
                    raise NoAnswer("(%s) and (%s) ran a different number of cases" % (who(s), who(ref[0])))
    return compared, None


def violation(prop, v, case, msg, detail, extra=None):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, "%s-violation.json" % prop)
    d = {"property": prop, "variant": v, "seed": SEED, "tier": TIER, "case": case, "message": msg, "detail": detail}
    d.update(extra or {})
    with open(path, "w") as f:
        json.dump(d, f, indent=1)
    for p, rx, what in known():
        if p == prop and re.search(rx, msg):
            print("KNOWN-FINDING: property=%s %s" % (p, what))
            return False
    print("%s (%s, case %s): %s" % (prop, v, case, msg[:3000]))
    if detail:
        print(detail[-3000:], file=sys.stderr)
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return True


def evidence(prop, shards, extra_cov, violations):
    reps = [s for s in shards if s.report]
    counters = {}
    per = {}
    for s in reps:
        r = s.report
        for k, c in r["counters"].items():
            counters[k] = counters.get(k, 0) + c
        p = per.setdefault(s.v, {"what": DESCR.get(s.v, s.v), "cases": 0, "evaluations": 0, "seconds": 0})
        p["cases"] += r["cases_done"]
        p["evaluations"] += r["evaluations"]
        p["seconds"] = round(p["seconds"] + r["elapsed_ms"] / 1000, 1)
    samples, seen = [], set()
    for s in reps:
        for x in s.report["samples"]:
            if x not in seen and len(samples) < 8:
                seen.add(x)
                samples.append(x)
    cov = {
        "evaluations": sum(s.report["evaluations"] for s in reps),
        "distinct_nontrivial": distinct_hashes(reps),
        "rule": RULE.get(prop, "cases are a pure function of (seed, property, case number)"),
        "samples": samples,
        "observed": dict(sorted(counters.items(), key=lambda kv: -kv[1])[:120]),
        "executions": per,
    }
    inc = ["%s shard %d: %s" % (s.v, s.k, s.incomplete) for s in shards if s.incomplete]
    if inc:
        cov["incomplete"] = inc
    cov.update(extra_cov or {})
    e = {
        "property": prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": "exploration", "coverage": cov,
        "assumptions": ["held on the executions counted here, nothing is claimed about others",
                        "the reference model in /verif/harness/src/model.rs reads the ROS message definition correctly"],
        "wall_s": round(time.time() - T0, 1), "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    txt = json.dumps(e, indent=1)
    if len(txt) > 60000:
        cov["observed"] = dict(list(cov["observed"].items())[:30])
        txt = json.dumps(e, indent=1)
    with open(path + ".tmp", "w") as f:
        f.write(txt)
    os.replace(path + ".tmp", path)
    return cov


def run_shards(shards, workers=8):
    stop = threading.Event()

    def one(s):
        if stop.is_set():
            return s
        s.run()
        if s.violation:
            stop.set()
        return s
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, shards))


def conclude(prop, shards, extra_cov=None, late=None):
    """late: an optional (variant, case, message, detail) found after the shards ran"""
    bad = [s for s in shards if s.violation]
    found = [(s.v, s.violation[0], s.violation[1], s.violation[2], {"miri_seed": s.miri_seed, "opts": s.opts}) for s in bad]
    if late:
        found.append((*late, {}))
    cov = evidence(prop, shards, extra_cov, len(found))
    real = False
    for f in found:
        real = violation(prop, *f) or real
        if real:
            return 1
    probs = [s.problem for s in shards if s.problem]
    if probs:
        raise NoAnswer("; ".join(probs)[:3000])
    done = {s.v for s in shards if s.report}
    for s in shards:
        if s.v not in done:
            log("nothing was observed in", s.v)
    if not [v for v in done if v in ("dbg", "rel", "min", "ser", "nal") or v not in VARIANTS]:
        raise NoAnswer("no native run completed")
    if cov["evaluations"] == 0 or cov["distinct_nontrivial"] == 0:
        raise NoAnswer("nothing was observed")
    print("%s held on %d evaluations, %d distinct non-trivial cases, %.0fs" % (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - T0))
    return 0


def check(prop):
    os.makedirs(OUT, exist_ok=True)
    if prop == "C13":
        import gen_derive
        return gen_derive.check(sys.modules[__name__])
    if prop == "C15":
        import interop_check
        return interop_check.check(sys.modules[__name__])
    if prop == "C23":
        import nostd_check
        return nostd_check.check(sys.modules[__name__])
    plan = PLAN[prop]
    vs = sorted({p[0] for p in plan})
    with ThreadPoolExecutor(len(vs)) as ex:
        futs = {v: ex.submit(build, v, prop) for v in vs}
        prefix = {v: f.result() for v, f in futs.items()}
    log("all builds done")
    shards = []
    for v, q, t, n, o in plan:
        cases = t if THOROUGH else q
        shards += [Shard(prop, v, prefix[v], k, n, cases, o) for k in range(n)]
    # long interpreter shards first
    shards.sort(key=lambda s: not VARIANTS[s.v][6])
    workers = 2 if prop == "C21" else 8
    run_shards(shards, workers)
    extra, late = {}, None
    if prop in ("C11", "C24") and not any(s.violation or s.problem for s in shards):
        n, d = digests_agree(shards)
        extra["cross_host_digests_compared" if prop == "C11" else "digests_compared_with_the_opposite_order"] = n
        if d:
            late = (d[2].v, d[0], d[1], "")
    return conclude(prop, shards, extra, late)


def replay(path):
    d = json.load(open(path))
    if d.get("replay_cmd"):
        print(d["message"])
        return subprocess.call(d["replay_cmd"], cwd=VERIF)
    v = d["variant"]
    global SEED, TIER, THOROUGH
    SEED, TIER, THOROUGH = d["seed"], d["tier"], d["tier"] == "thorough"
    if v == "rustc" or d["property"] == "C23":
        print(d["message"])
        return 0
    if v == "interop":
        import interop_check
        prefix = interop_check.build(sys.modules[__name__])
    elif v == "derive":
        import gen_derive
        prefix = gen_derive.prefix(sys.modules[__name__])[d["case"] % 8]
    else:
        prefix = build(v, d["property"])
    e = variant_env(v) if v in VARIANTS else base_env()
    e.update(SAN)
    if d.get("miri_seed") is not None:
        e["MIRIFLAGS"] += " -Zmiri-seed=%d" % d["miri_seed"]
    a = ["--prop", d["property"], "--seed", str(d["seed"]), "--only", str(d["case"])]
    if d.get("opts", {}).get("slow"):
        a += ["--slow"]
    if v in GIANT:
        a += ["--giant"]
    if d["tier"] == "thorough":
        a += ["--thorough"]
    print(d["message"])
    return subprocess.call(prefix + a, env=e)


def setup():
    bad = 0
    for group in (["dbg", "rel", "min", "nal", "ser"], ["asan", "msan", "tsan"], ["miri", "miri-be", "miri-32"]):
        with ThreadPoolExecutor(len(group)) as ex:
            for v, f in [(v, ex.submit(build, v)) for v in group]:
                try:
                    f.result()
                except NoAnswer as e:
                    bad += 1
                    print(e)
    for mod in ("gen_derive", "interop_check", "nostd_check"):
        try:
            __import__(mod).setup(sys.modules[__name__])
        except ImportError:
            pass
        except NoAnswer as e:
            bad += 1
            print(e)
    return 1 if bad else 0


def main():
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    sys.modules["check"] = sys.modules[__name__]
    a = sys.argv[1:]
    try:
        if a[:1] == ["replay"]:
            return replay(a[1])
        if a[:1] == ["setup"]:
            return setup()
        return check(a[0])
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
