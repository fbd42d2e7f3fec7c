"""C15: builds and runs the interop crate against the real and stand-in ROS libraries."""
import fcntl, os, time


def build(c):
    src = os.path.join(c.VERIF, "interop")
    tdir = os.path.join(c.TARGET, "interop")
    os.makedirs(tdir, exist_ok=True)
    t = time.time()
    env = c.base_env()
    env["ROSRUST_MSG_PATH"] = os.path.join(src, "msgs")
    for k in ("CMAKE_PREFIX_PATH", "ROS_PACKAGE_PATH"):
        env.pop(k, None)
    with open(os.path.join(tdir, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp, h, _ = c.fresh(tdir, ("ros_pointcloud2", "rpcl2-derive", "pcmon", "interop"), [c.HARNESS, src])
        logf = os.path.join(tdir, "build.log")
        with open(logf, "w") as lf:
            rc = c.run_cmd(["cargo", "+stable", "build", "-q", "--offline", "--locked", "--manifest-path", os.path.join(src, "Cargo.toml"),
                            "--target-dir", tdir, "--bin", "interop"], env, 800, stdout=lf, stderr=lf)
        if rc != 0:
            raise c.NoAnswer("building interop failed (rc %s): %s" % (rc, open(logf).read()[-3000:]))
        with open(stamp, "w") as f:
            f.write(h)
    c.log("built interop in %.0fs" % (time.time() - t))
    return [os.path.join(tdir, "debug", "interop")]


def setup(c):
    build(c)


def check(c):
    prefix = build(c)
    cases = 1500000 if c.THOROUGH else 40000
    shards = [c.Shard("C15", "interop", prefix, k, 8, cases, {}) for k in range(8)]
    c.run_shards(shards)
    return c.conclude("C15", shards)
