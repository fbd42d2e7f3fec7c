"""C23: builds a workload for a target that has no standard library, runs it, and compares what it did with the same
workload where there is a standard library.

x86_64-unknown-none has core and alloc only; with an entry point, an allocator and a panic handler of its own the program
still runs here, because all it asks of the system are two system calls (write and exit)."""
import fcntl, os, re, shutil, struct, time
from concurrent.futures import ThreadPoolExecutor

TRIPLE = "x86_64-unknown-none"
FLAGS = "-C relocation-model=static -C link-arg=-no-pie -C linker=gcc -C linker-flavor=gcc -C link-arg=-nostdlib -C link-arg=-static"
# name -> (features of the crate, what it is)
SETS = {
    "core": ("", "no features"),
    "derive": ("derive", "derived point types"),
    "nalg": ("derive,nalg", "derived point types and nalgebra"),
}


class BuildFails(Exception):
    pass


def build(c):
    """(set, 'bare' or 'host') -> program"""
    src = os.path.join(c.VERIF, "nostd")
    tdir = os.path.join(c.TARGET, "nostd")
    os.makedirs(tdir, exist_ok=True)
    t = time.time()
    progs = {}
    with open(os.path.join(tdir, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp, h, _ = c.fresh(tdir, ("ros_pointcloud2", "rpcl2-derive", "nostd"), [src])

        def one(kind):
            errs = {}
            for name, (feats, what) in SETS.items():
                env = c.base_env()
                cmd = ["cargo", "+nightly", "build", "-q", "--offline", "--locked", "--manifest-path", os.path.join(src, "Cargo.toml"),
                       "--target-dir", os.path.join(tdir, kind), "--bin", kind, "--features", ",".join(x for x in (kind, feats) if x)]
                out = os.path.join(tdir, kind, "debug", kind)
                if kind == "bare":
                    env["RUSTFLAGS"] = FLAGS
                    cmd += ["-Zbuild-std=core,alloc", "--target", TRIPLE]
                    out = os.path.join(tdir, kind, TRIPLE, "debug", kind)
                logf = os.path.join(tdir, "build-%s-%s.log" % (kind, name))
                with open(logf, "w") as lf:
                    rc = c.run_cmd(cmd, env, 600, stdout=lf, stderr=lf)
                if rc != 0:
                    errs[name] = (rc, open(logf).read())
                    continue
                keep = os.path.join(tdir, "%s-%s" % (kind, name))
                shutil.copy(out, keep)
                progs[name, kind] = keep
            return errs
        with ThreadPoolExecutor(2) as ex:
            host, bare = ex.map(one, ["host", "bare"])
        for name, (rc, log) in host.items():
            raise c.NoAnswer("building the workload with a standard library failed (%s, rc %s): %s" % (name, rc, log[-3000:]))
        if not bare:
            with open(stamp, "w") as f:
                f.write(h)
    c.log("built nostd in %.0fs" % (time.time() - t))
    for name, (rc, log) in bare.items():
        # the same sources build where there is a standard library
        first = re.search(r"^error(?:\[\w+\])?: .*(?:\n.*){0,4}", log, re.M)
        if rc is None or not first or not re.search(r"ros_pointcloud2|rpcl2|nostd|/repo/", log):
            raise c.NoAnswer("building for %s failed (%s, rc %s): %s" % (TRIPLE, name, rc, log[-3000:]))
        raise BuildFails("the crate with %s does not build without a standard library: %s" % (SETS[name][1], first.group(0)), log[-5000:])
    return progs


def setup(c):
    try:
        build(c)
    except BuildFails as e:
        print(e.args[0])


class Run:
    """One process; looks like a shard to check.py."""
    def __init__(self, c, name, kind, prog, seed, cases, k):
        self.c, self.name, self.kind, self.prog, self.seed, self.cases, self.k = c, name, kind, prog, seed, cases, k
        self.prop, self.v, self.n, self.opts, self.miri_seed = "C23", "%s-%s" % (kind, name), 8, {}, None
        self.base = os.path.join(c.OUT, "C23.%s.%d" % (self.v, k))
        self.report = self.violation = self.problem = self.incomplete = None
        self.lines = []

    def run(self):
        c, t = self.c, time.time()
        with open(self.base + ".out", "w") as so:
            rc = c.run_cmd([self.prog, str(self.seed), str(self.cases)], {}, 600, stdout=so, stderr=so)
        txt = open(self.base + ".out", errors="replace").read()
        self.lines = re.findall(r"^case (\d+) (\w+) (\d+) (\d+) (\d+) (\d+)$", txt, re.M)
        last = txt.strip().splitlines()[-1] if txt.strip() else ""
        case = int(self.lines[-1][0]) + 1 if self.lines else 0
        where = "without a standard library" if self.kind == "bare" else "with a standard library"
        if rc is None:
            self.problem = "%s did not finish (case %d)" % (self.v, case)
        elif rc == 10 and last.startswith("FAIL"):
            self.violation = (case, "%s: %s" % (where, last), txt[-2000:])
        elif rc in c.SIGNALS or rc in (101, 134):
            self.violation = (case, "%s the program died (rc %s): %s" % (where, rc, last), txt[-2000:])
        elif rc != 0 or last != "done":
            self.problem = "%s ended with rc %s: %s" % (self.v, rc, last)
        num = [[int(x) for x in l[2:]] for l in self.lines]
        tot = [sum(x) for x in zip(*num)] or [0, 0, 0, 0]
        self.report = {"evaluations": tot[0], "nontrivial": len(num), "cases_done": len(num), "elapsed_ms": int(1000 * (time.time() - t)),
                       "counters": {self.kind + ": checks": tot[0], self.kind + ": points": tot[1], self.kind + ": errors returned": tot[2],
                                    self.kind + ": clouds": tot[3]},
                       "samples": ["%s: %s" % (self.v, " ".join(self.lines[0]))] if self.lines else []}
        with open(self.base + ".hashes", "wb") as f:
            for l in self.lines:
                f.write(struct.pack("<Q", int(l[1], 16)))
        return self


def check(c):
    os.makedirs(c.OUT, exist_ok=True)
    for name, (_, what) in SETS.items():
        c.DESCR["bare-" + name] = "%s: core and alloc only, %s" % (TRIPLE, what)
        c.DESCR["host-" + name] = "the same workload with the standard library, %s" % what
    try:
        progs = build(c)
    except BuildFails as e:
        c.evidence("C23", [], {"evaluations": 1, "distinct_nontrivial": 1, "samples": [e.args[0]]}, 1)
        if c.violation("C23", "bare", None, e.args[0], e.args[1]):
            return 1
        raise c.NoAnswer("stopped at a known finding")
    cases = 60000 if c.THOROUGH else 3000
    runs = []
    for k in range(8):
        for name in SETS:
            for kind in ("bare", "host"):
                runs.append(Run(c, name, kind, progs[name, kind], c.SEED * 1000 + k, cases if name == "nalg" else cases // 4, k))
    runs.sort(key=lambda r: r.name != "nalg")
    c.run_shards(runs)
    late, compared = None, 0
    if not any(r.violation or r.problem for r in runs):
        by = {(r.name, r.kind, r.k): r for r in runs}
        for (name, kind, k), b in by.items():
            if kind != "bare":
                continue
            a = by[name, "host", k]
            for x, y in zip(b.lines, a.lines):
                compared += 1
                if x != y and not late:
                    late = (b.v, int(x[0]), "seed %d, case %s: with and without a standard library the conversions do different things: %s and %s"
                            % (b.seed, x[0], " ".join(y), " ".join(x)), "")
    return c.conclude("C23", runs, {"cases_compared_between_both": compared}, late)
