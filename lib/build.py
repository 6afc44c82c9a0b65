"""Builds everything a check needs from /repo's current working tree.

.build/rw      the source-to-source rewriter (f64 -> symbolic real)
.build/sym     rewritten library + rewritten environment models + rewritten harness, on the symbolic engine
.build/native  /repo's own source (by path) + the same environment models + the same harness, on f64
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, ".build")


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = ""
    e.pop("CARGO_TARGET_DIR", None)
    return e


def run(cmd, cwd, what):
    p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s" % (what, p.stdout[-6000:]))
    return p.stdout


def put(path, text):
    """write only if changed, so that cargo's timestamps stay useful"""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def sync(src, dst):
    """mirror a directory, touching only what differs"""
    want = set()
    for r, _, fs in os.walk(src):
        for f in fs:
            p = os.path.join(r, f)
            rel = os.path.relpath(p, src)
            want.add(rel)
            put(os.path.join(dst, rel), open(p).read())
    for r, _, fs in os.walk(dst):
        for f in fs:
            p = os.path.join(r, f)
            if os.path.relpath(p, dst) not in want:
                os.remove(p)


RM = """[package]
name = "rusty-machine"
version = "0.5.4"
edition = "2015"

[lib]
path = "%(lib)s"

[features]
stats = []
datasets = []

[dependencies]
num = { path = "../num", default-features = false }
rand = { path = "../rand" }
rulinalg = { path = "../rulinalg" }
%(extra)s
[lints.rust]
warnings = "allow"
"""

HARNESS = """[package]
name = "harness"
version = "0.1.0"
edition = "2021"

[[bin]]
name = "harness"
path = "%(main)s"

[dependencies]
symx = { path = "%(symx)s" }
rusty-machine = { path = "../rm", features = ["stats"] }
rulinalg = { path = "../rulinalg" }
rand = { path = "../rand" }
"""

PROFILE = """
[profile.dev]
debug = 0
opt-level = 0
incremental = false
debug-assertions = true
overflow-checks = true
panic = "unwind"
codegen-units = 8
%s
"""


def workspace(d, symx, lib, main, stubs, sym):
    put(d + "/Cargo.toml", '[workspace]\nresolver = "2"\nmembers = ["num", "rand", "rulinalg", "rm", "harness"]\n'
        + PROFILE % ('[profile.dev.package.symx]\nopt-level = 2\n' if sym else ""))
    for s in ("num", "rand", "rulinalg"):
        t = open("%s/crates/stubs/%s/Cargo.toml.in" % (V, s)).read().replace("@SYMX@", symx)
        t += '\n[lib]\npath = "%s/%s/src/lib.rs"\n[lints.rust]\nwarnings = "allow"\n' % (stubs, s)
        put("%s/%s/Cargo.toml" % (d, s), t)
    put(d + "/rm/Cargo.toml", RM % {"lib": lib, "extra": 'symx = { path = "%s" }\n' % symx if sym else ""})
    put(d + "/harness/Cargo.toml", HARNESS % {"main": main, "symx": symx})
    put(d + "/.cargo/config.toml", "[net]\noffline = true\n")


def rewriter():
    run(["cargo", "build", "--offline", "-q", "--target-dir", B + "/rw"], V + "/crates/rw", "building the rewriter")
    return B + "/rw/debug/rw"


def build_sym():
    rw = rewriter()
    d = B + "/sym"
    tmp = d + "/.tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    args = []
    for s in ("num", "rand", "rulinalg"):
        args += ["%s/crates/stubs/%s/src" % (V, s), "%s/%s" % (tmp, s)]
    args += [REPO + "/src", tmp + "/rm", V + "/harness/src", tmp + "/harness"]
    os.makedirs(tmp, exist_ok=True)
    run([rw] + args, V, "rewriting the sources")
    for s in ("num", "rand", "rulinalg", "rm", "harness"):
        sync("%s/%s" % (tmp, s), "%s/%s/src" % (d, s))
    shutil.rmtree(tmp, ignore_errors=True)
    workspace(d, V + "/crates/symx", "src/lib.rs", "src/main.rs", d, True)
    run(["cargo", "build", "--offline", "-q"], d, "building the symbolic harness")
    return d + "/target/debug/harness"


def build_native():
    d = B + "/native"
    workspace(d, V + "/crates/symx_native", REPO + "/src/lib.rs", V + "/harness/src/main.rs", V + "/crates/stubs", False)
    run(["cargo", "build", "--offline", "-q"], d, "building the native harness")
    return d + "/target/debug/harness"


class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(B + "/lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build(which=("sym", "native")):
    t = time.time()
    with Lock():
        r = {}
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(2) as ex:
            fs = {k: ex.submit(build_sym if k == "sym" else build_native) for k in which}
            for k, f in fs.items():
                r[k] = f.result()
    return r, time.time() - t


if __name__ == "__main__":
    try:
        print(build(tuple(sys.argv[1:]) or ("sym", "native")))
    except BuildError as e:
        print(e)
        sys.exit(2)
