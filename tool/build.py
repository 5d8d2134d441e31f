"""Builds: the engine, the LLVM IR of harness + /repo's current sources, and the native replayer."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KSYM_REPO", "/repo")
OUT = os.path.join(V, "build")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"


class BuildError(Exception):
    pass


def env(target):
    e = {k: v for k, v in os.environ.items() if not k.startswith("CARGO_") and k not in ("RUSTFLAGS", "RUSTC_WRAPPER")}
    if "CARGO_HOME" in os.environ:
        e["CARGO_HOME"] = os.environ["CARGO_HOME"]
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=target)
    return e


def run(cmd, cwd, e, what, timeout=1500):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("%s failed (exit %d)\n%s" % (what, p.returncode, p.stdout[-6000:]))
    return p.stdout


def tree_hash(*roots):
    h = hashlib.sha256()
    for r in roots:
        fs = [r] if os.path.isfile(r) else sorted(
            os.path.join(d, f) for d, ds, fs in os.walk(r) for f in fs if "/target/" not in d + "/" and "/.git/" not in d + "/")
        for f in fs:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:24]


def repo_hash():
    return tree_hash(REPO + "/src", REPO + "/Cargo.toml")


class Lock:
    def __init__(self, name):
        os.makedirs(OUT, exist_ok=True)
        self.f = open(os.path.join(OUT, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def read(p):
    try:
        with open(p) as f:
            return f.read()
    except OSError:
        return ""


def write(p, s):
    with open(p, "w") as f:
        f.write(s)


def engine():
    d = os.path.join(V, "engine")
    t = os.path.join(d, "target")
    exe = os.path.join(t, "release", "ksym")
    with Lock("engine"):
        run(["cargo", "build", "--release", "--offline"], d, env(t), "engine build")
    return exe


def _fresh(d, t, e, stamp, rh):
    """cargo decides by mtime whether /repo changed; a content hash decides here."""
    if read(stamp) != rh:
        subprocess.run(["cargo", "clean", "--release", "--offline", "-p", "klavier-core"], cwd=d, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def ir(feature):
    """LLVM IR (text) of the harnesses of one part, linked with klavier-core and std. Returns (path, seconds, hash)."""
    t0 = time.time()
    d = os.path.join(V, "sym")
    t = os.path.join(d, "target")
    e = env(t)
    dst = os.path.join(OUT, feature + ".ll")
    with Lock("sym"):
        rh = repo_hash()
        key = rh + ":" + tree_hash(V + "/harness", V + "/stubs", d + "/Cargo.toml", d + "/Cargo.lock")
        if read(dst + ".key") == key and os.path.exists(dst):
            return dst, time.time() - t0, key
        stamp = os.path.join(OUT, "sym.repo")
        _fresh(d, t, e, stamp, rh)
        subprocess.run(["cargo", "clean", "--release", "--offline", "-p", "ksymh"], cwd=d, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        deps = os.path.join(t, "release", "deps")
        for f in glob.glob(deps + "/ksymh.*") + glob.glob(deps + "/libksymh*"):
            os.remove(f)
        run(["cargo", "rustc", "--release", "--offline", "--features", feature, "--", "-C", "save-temps=yes", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], d, e, "symbolic build")
        write(stamp, rh)
        bc = [f for f in glob.glob(deps + "/ksymh.*.rcgu.bc") if ".lto." not in f and "no-opt" not in f]
        if len(bc) != 1:
            raise BuildError("expected one optimized module, found %r" % bc)
        sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=e, cwd=d, stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
        dis = glob.glob(sysroot + "/lib/rustlib/*/bin/llvm-dis")
        if not dis:
            raise BuildError("llvm-dis not found")
        run([dis[0], bc[0], "-o", dst], d, e, "llvm-dis")
        for f in glob.glob(deps + "/ksymh.*") + glob.glob(deps + "/libksymh*"):
            os.remove(f)
        write(dst + ".key", key)
    return dst, time.time() - t0, key


def native():
    t0 = time.time()
    d = os.path.join(V, "native")
    t = os.path.join(d, "target")
    e = env(t)
    with Lock("native"):
        rh = repo_hash()
        stamp = os.path.join(OUT, "native.repo")
        _fresh(d, t, e, stamp, rh)
        run(["cargo", "build", "--release", "--offline"], d, e, "native build")
        write(stamp, rh)
    return os.path.join(t, "release", "replay"), time.time() - t0
