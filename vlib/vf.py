#!/usr/bin/env python3
"""Build plumbing shared by every check: compiles the analyser, the pinned
dependencies and /repo's crates (metadata + MIR only, nothing is run)."""
import glob, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CACHE = os.environ.get("VF_CACHE", os.path.join(VERIF, ".cache"))
TOOLCHAIN = "nightly-x86_64-unknown-linux-gnu"
ENV = dict(os.environ)
ENV.update(HOME=os.environ.get("HOME", "/root"), RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER"):
    ENV.pop(k, None)

CRATES = [  # name, path, deps
    ("cglinalg_numeric", "crates/cglinalg_numeric/src/lib.rs", []),
    ("cglinalg_trigonometry", "crates/cglinalg_trigonometry/src/lib.rs", ["cglinalg_numeric"]),
    ("cglinalg_core", "crates/cglinalg_core/src/lib.rs", ["cglinalg_numeric", "cglinalg_trigonometry"]),
    ("cglinalg_transform", "crates/cglinalg_transform/src/lib.rs",
     ["cglinalg_numeric", "cglinalg_trigonometry", "cglinalg_core"]),
    ("cglinalg", "src/lib.rs",
     ["cglinalg_numeric", "cglinalg_trigonometry", "cglinalg_core", "cglinalg_transform"]),
]
MIRFLAGS = ["-Zalways-encode-mir", "-Zmir-opt-level=0", "-Cdebug-assertions=off", "-Coverflow-checks=off",
            "--cap-lints=allow", "-Awarnings"]


class BuildError(Exception):
    def __init__(self, crate, text):
        super().__init__(crate)
        self.crate, self.text = crate, text


def run(cmd, **kw):
    return subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


def sysroot():
    return run(["rustc", "--print", "sysroot"]).stdout.strip()


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def driver():
    """Path of the analyser binary, (re)built when its sources changed."""
    src = os.path.join(VERIF, "driver")
    files = glob.glob(src + "/src/*.rs") + [src + "/Cargo.toml"]
    out = os.path.join(CACHE, "driver")
    stamp = os.path.join(out, "stamp")
    binp = os.path.join(out, "release", "vflow")
    h = tree_hash(files) + run(["rustc", "-vV"]).stdout
    if not (os.path.exists(binp) and os.path.exists(stamp) and open(stamp).read() == h):
        os.makedirs(out, exist_ok=True)
        r = run(["cargo", "build", "--release", "--offline", "--manifest-path", src + "/Cargo.toml",
                 "--target-dir", out])
        if r.returncode != 0:
            raise BuildError("analyser", r.stdout)
        with open(stamp, "w") as f:
            f.write(h)
    return binp


def registry(name):
    for base in (os.environ.get("CARGO_HOME"), os.path.join(ENV["HOME"], ".cargo"), "/root/.cargo"):
        if base:
            g = glob.glob(os.path.join(base, "registry/src/*/" + name))
            if g:
                return g[0]
    raise BuildError(name, "crate source not found in the cargo registry")


def rustc_meta(name, root, outdir, externs=(), cfgs=(), edition="2021", extra=()):
    cmd = ["rustc", "--edition", edition, "--crate-name", name, "--crate-type", "rlib", "--emit", "metadata",
           "--out-dir", outdir, "-L", outdir] + MIRFLAGS
    for c in cfgs:
        cmd += ["--cfg", c]
    for e in externs:
        cmd += ["--extern", "%s=%s/lib%s.rmeta" % (e, outdir, e)]
    r = run(cmd + list(extra) + [root])
    if r.returncode != 0:
        raise BuildError(name, r.stdout)


def deps():
    """num-traits and the approx_cmp stand-in, cached by source hash."""
    nt = registry("num-traits-0.2.19")
    st = os.path.join(VERIF, "stubs/approx_cmp/src/lib.rs")
    out = os.path.join(CACHE, "deps")
    stamp = os.path.join(out, "stamp")
    h = tree_hash(glob.glob(nt + "/src/**/*.rs", recursive=True) + [st, __file__])
    if not (os.path.exists(stamp) and open(stamp).read() == h):
        os.makedirs(out, exist_ok=True)
        rustc_meta("num_traits", nt + "/src/lib.rs", out, cfgs=['feature="std"', "has_total_cmp"])
        rustc_meta("approx_cmp", st, out, cfgs=["vf"])
        with open(stamp, "w") as f:
            f.write(h)
    return out


TREE = [None]  # the scratch copy in use, when some body of the tree had to be cut


def source(path):
    return os.path.join(TREE[0].root if TREE[0] else REPO, path)


def is_cut(loc):
    """Is this location (file:line:...) one of the stand-ins for a cut body?"""
    f, line = loc.split(":")[0], int(loc.split(":")[1])
    return bool(TREE[0]) and f.startswith(TREE[0].root) and "vf_not_analysed" in open(f).read().split("\n")[line - 1]


def cut_bodies():
    return list(TREE[0].cut) if TREE[0] else []


def repo_crates(work, upto="cglinalg"):
    """Compile /repo's crates to metadata+MIR in `work`. Returns externs."""
    d = deps()
    for f in glob.glob(d + "/*.rmeta"):
        dst = os.path.join(work, os.path.basename(f))
        if not os.path.exists(dst):
            os.link(f, dst) if os.stat(f).st_dev == os.stat(work).st_dev else subprocess.run(["cp", f, dst])
    built = []
    for name, path, ds in CRATES:
        for rnd in range(25):
            kw = dict(externs=["num_traits", "approx_cmp"] + ds, cfgs=['feature="std"', 'feature="default"'])
            try:
                rustc_meta(name, source(path), work, **kw)
                break
            except BuildError as first:
                from . import recover
                if TREE[0] is None:
                    TREE[0] = recover.Tree(REPO, work)
                try:
                    rustc_meta(name, source(path), work, extra=["--error-format=json"], **kw)
                except BuildError as e:
                    if rnd == 24 or not TREE[0].repair(e.text):
                        raise first
        built.append(name)
        if name == upto:
            break
    return built


def analyse(work, root, name, built, extra=(), env=None, out=None):
    cmd = [driver(), "--edition", "2021", "--crate-name", name, "--crate-type", "rlib", "--emit", "metadata",
           "--sysroot", sysroot(), "--out-dir", out or work, "-L", work] + MIRFLAGS
    for e in ["num_traits", "approx_cmp"] + built:
        cmd += ["--extern", "%s=%s/lib%s.rmeta" % (e, work, e)]
    e2 = dict(ENV)
    e2["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    e2.update(env or {})
    return subprocess.run(cmd + list(extra) + [root], env=e2, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                          errors="replace")
