"""Rules over the items of the type-checked workspace: layout (P36), freedom from
hidden state and effects (P37), and encapsulation of invariant-carrying types (P39)."""
import json, os, re, subprocess
from . import vf, shapes


def facts(work, crates=None):
    vf.repo_crates(work)
    scratch = os.path.join(work, "f")
    os.makedirs(scratch, exist_ok=True)
    rows = []
    for name, path, ds in vf.CRATES:
        out = os.path.join(work, "facts.%s.json" % name)
        r = vf.analyse(work, vf.source(path), name, ds, env={"VF_FACTS": out}, extra=["--cfg", 'feature="std"'], out=scratch)
        if not os.path.exists(out):
            raise vf.BuildError(name, r.stderr)
        for l in open(out):
            d = json.loads(l)
            d["crate"] = name
            rows.append(d)
    return rows


INTS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]
FLOATS = ["f32", "f64"]


def layout_table():
    """(type, number of scalars) per scalar type."""
    t = []
    for n in (1, 2, 3, 4):
        t.append(("Vector<{s}, %d>" % n, n, INTS + FLOATS))
        for m in (1, 2, 3, 4):
            t.append(("Matrix<{s}, %d, %d>" % (n, m), n * m, INTS + FLOATS))
    for n in (1, 2, 3):
        t.append(("Point<{s}, %d>" % n, n, INTS + FLOATS))
    t += [("Quaternion<{s}>", 4, INTS + FLOATS), ("Complex<{s}>", 2, INTS + FLOATS), ("Radians<{s}>", 1, FLOATS), ("Degrees<{s}>", 1, FLOATS),
          ("Euler<Radians<{s}>>", 3, FLOATS), ("Euler<Degrees<{s}>>", 3, FLOATS), ("Unit<Vector3<{s}>>", 3, FLOATS), ("Unit<Vector2<{s}>>", 2, FLOATS),
          ("Unit<Quaternion<{s}>>", 4, FLOATS), ("Unit<Complex<{s}>>", 2, FLOATS)]
    for n in (2, 3):
        t += [("Translation%d<{s}>" % n, n, FLOATS), ("Scale%d<{s}>" % n, n, FLOATS), ("Rotation%d<{s}>" % n, n * n, FLOATS),
              ("Isometry%d<{s}>" % n, n * n + n, FLOATS), ("Similarity%d<{s}>" % n, n * n + n + 1, FLOATS), ("Transform%d<{s}>" % n, (n + 1) ** 2, FLOATS)]
    return t


PLAIN = ["Shear2<{s}>", "Shear3<{s}>", "Reflection2<{s}>", "Reflection3<{s}>", "Perspective3<{s}>", "Orthographic3<{s}>"]
ORDERED = ["Radians", "Degrees", "Complex", "Euler", "Matrix", "Point", "Quaternion", "Unit", "Vector"]  # raw views are offered of these


def layout(work, tier):
    rows = facts(work)
    built = [c[0] for c in vf.CRATES[:4]]
    viol, ok, n = [], [], 0
    for ty, k, ss in layout_table():
        for s in ss:
            t = ty.format(s=s)
            ok.append(("size of " + t, "", "const _: () = assert!(core::mem::size_of::<%s>() == %d * core::mem::size_of::<%s>())" % (t, k, s) + ";"))
            ok.append(("alignment of " + t, "", "const _: () = assert!(core::mem::align_of::<%s>() == core::mem::align_of::<%s>())" % (t, s) + ";"))
            ok.append(("array view of " + t, "", "const _: () = assert!(core::mem::size_of::<[%s; 7]>() == 7 * %d * core::mem::size_of::<%s>())" % (t, k, s) + ";"))
    for ty in [x[0] for x in layout_table()] + PLAIN:
        for s in ("f32", "f64"):
            t = ty.format(s=s)
            ok.append(("plain data " + t, "", "fn p<T: Copy + Clone + PartialEq + core::fmt::Debug + Send + Sync + Unpin + core::panic::UnwindSafe + core::panic::RefUnwindSafe + 'static>() {} p::<%s>();" % t))
        if "i32" in (next((x[2] for x in layout_table() if x[0] == ty), [])):
            t = ty.format(s="i32")
            ok.append(("hashable data " + t, "", "fn p<T: Copy + Eq + core::hash::Hash>() {} p::<%s>();" % t))
    for k, (ty, _, ss) in enumerate(layout_table()):
        t = ty.format(s=ss[-1])
        ok.append(("destructor of " + t, "", "const _: () = assert!(!core::mem::needs_drop::<%s>());" % t))
    errs, stray = shapes.compile(work, built, ok, "layout")
    for m in stray:
        viol.append(("stray", "the layout assertions failed for another reason: %s" % m[:300], ""))
    for i, (what, _, b) in enumerate(ok):
        if i in errs:
            viol.append((what, "%s is not as promised: %s" % (what, errs[i][0][1][:200]), b))
    seen = set()
    for r in rows:
        if r["k"] != "adt":
            continue
        n += 1
        nm = r["path"].split("::")[-1]
        if nm in ORDERED:
            seen.add(nm)
            if not (r["c"] or r["transparent"]):
                viol.append(("repr " + nm, "%s: %s is read through raw views but its field order is left to the compiler (no repr(C) or repr(transparent))" % (r["loc"], nm), ""))
        if r["packed"] or r["align"]:
            viol.append(("packed " + r["path"], "%s: %s has a modified packing or alignment" % (r["loc"], r["path"]), ""))
    for nm in ORDERED:
        if nm not in seen:
            viol.append(("missing " + nm, "no definition of %s was found" % nm, ""))
    # every struct that a pointer cast turns a data type into must be ordered too: the coordinate views are
    for r in rows:
        if r["k"] == "adt" and re.search(r"::(VectorCoords|View)\w+$", "::" + r["path"]) and not (r["c"] or r["transparent"]):
            viol.append(("repr " + r["path"], "%s: the coordinate view %s has no fixed field order" % (r["loc"], r["path"]), ""))
    cov = dict(explanation="Size, alignment, destructor and auto-trait facts are constant assertions evaluated by rustc over the current definitions; "
               "representation attributes are read from the type-checked program.", rule="one obligation per type, scalar and fact", obligations=len(ok) + n,
               types=n, assertions=len(ok), samples=[x[0] for x in ok[::200][:5]], exhaustive=True)
    return viol, cov, ["rustc's layout computation for this target (x86_64)"]


DENY = re.compile(r"^(std|core|alloc)::(io|fs|env|time|process|thread|net|os|cell|sync|random|arch|backtrace|panic::(set_hook|take_hook|catch_unwind)|"
                  r"collections::(hash_map|hash_set|HashMap|HashSet)|hash::(RandomState|DefaultHasher|random)|intrinsics::(volatile|atomic)|ptr::(read_volatile|write_volatile)|alloc::)")
ADDR = re.compile(r"(::addr$|::expose_provenance$|::align_offset$|::addr_eq$|::type_name|::type_id$|Location::.*caller|::is_aligned)")


def purity(work, tier):
    rows = facts(work)
    viol, calls, bodies = [], 0, 0
    for r in rows:
        at = "%s: %s" % (r["loc"], r["path"])
        if r["k"] == "static":
            if r["mut"] or not r["freeze"]:
                viol.append(("static " + r["path"], "%s is mutable global state" % at, ""))
            continue
        if r["k"] == "foreign" and vf.is_cut(r["loc"]):
            continue
        if r["k"] == "foreign":
            viol.append(("foreign " + r["path"], "%s declares foreign functions" % at, ""))
            continue
        if r["k"] == "adt":
            for f in r["fields"]:
                if re.search(r"\b(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|Mutex|RwLock|OnceLock|LazyLock|Atomic\w+)\b", f["ty"]):
                    viol.append(("cell %s.%s" % (r["path"], f["name"]), "%s has interior-mutable field %s: %s" % (at, f["name"], f["ty"]), ""))
            continue
        bodies += 1
        if r["asm"]:
            viol.append(("asm " + r["path"], "%s uses inline assembly" % at, ""))
        for t in r["tls"]:
            viol.append(("tls " + r["path"], "%s reads thread-local %s" % (at, t), ""))
        for t in r["casts"]:
            viol.append(("addr " + r["path"], "%s turns an address into a number at %s" % (at, t), ""))
        for c in r["calls"]:
            calls += 1
            if DENY.search(c) or ADDR.search(c):
                viol.append(("call %s %s" % (r["path"], c), "%s calls %s, whose result or effect is not a function of the arguments" % (at, c), ""))
    if bodies < 2500 or calls < 5000:
        viol.append(("floor", "only %d bodies and %d calls were seen" % (bodies, calls), ""))
    cov = dict(explanation="Every function and closure body of the five workspace crates is scanned in MIR: statics, thread-locals, inline assembly, foreign items, "
               "interior-mutable fields, address-to-integer casts and calls into effectful parts of the standard library are violations.",
               rule="one obligation per body, static, type and call", obligations=len(rows) + calls, bodies=bodies, calls=calls, items=len(rows),
               samples=[r["path"] for r in rows[:: len(rows) // 5]][:5], exhaustive=True)
    return viol, cov, ["num-traits and the standard library's arithmetic are themselves functions of their arguments",
                       "calls through a caller's own scalar type or closure are the caller's"]


GUARDED = ["Unit", "Rotation", "Isometry", "Similarity", "Reflection", "Shear", "Perspective3", "Orthographic3", "Translation", "Scale"]
GTY = {"Unit": ["Unit<Vector3<f64>>", "Unit<Quaternion<f64>>"], "Perspective3": ["Perspective3<f64>"], "Orthographic3": ["Orthographic3<f64>"]}
FOREIGN_MUT = ["core::ops::DerefMut", "core::ops::IndexMut<usize>", "core::ops::IndexMut<(usize, usize)>", "core::borrow::BorrowMut<[f64]>"]


def guarded(work, tier):
    rows = facts(work)
    built = [c[0] for c in vf.CRATES[:4]]
    viol, nf, nfields, muts = [], 0, 0, []
    gre = {g: re.compile(r"&(?:'\w+ )?mut (?:\w+::)*%s(?:<|\b)" % g) for g in GUARDED}
    own = {g: re.compile(r"^(?:\w+::)*%s<" % g) for g in GUARDED}
    seen = set()
    for r in rows:
        if r["k"] == "adt":
            nm = r["path"].split("::")[-1]
            if nm in GUARDED:
                seen.add(nm)
                for f in r["fields"]:
                    nfields += 1
                    if f["public"]:
                        viol.append(("field %s.%s" % (nm, f["name"]), "%s: field %s of %s is public, so its invariant can be overwritten" % (r["loc"], f["name"], nm), ""))
        if r["k"] == "fn" and r["exported"] and not r["unsafe"]:
            nf += 1
            for g in GUARDED:
                if any(gre[g].search(i) for i in r["inputs"]):
                    muts.append(r["path"])
                    if r["mut_out"]:
                        viol.append(("mut " + r["path"], "%s: safe function %s hands out a mutable view into a %s" % (r["loc"], r["path"], g), ""))
    for g in GUARDED:
        if g not in seen:
            viol.append(("missing " + g, "no definition of %s was found" % g, ""))
    bad, ok = [], []
    tys = [t for g in GUARDED for t in GTY.get(g, [g + "2<f64>", g + "3<f64>"])]
    for t in tys:
        for m in FOREIGN_MUT + ["AsMut<[f64; %d]>" % k for k in (2, 3, 4, 9, 16)] + ["AsMut<Vector2<f64>>", "AsMut<Vector3<f64>>", "AsMut<Quaternion<f64>>",
                                "AsMut<Matrix2x2<f64>>", "AsMut<Matrix3x3<f64>>", "AsMut<Matrix4x4<f64>>", "AsMut<[[f64; 3]; 3]>", "AsMut<[[f64; 2]; 2]>"]:
            bad.append(("%s as %s" % (t, m), "", "fn p<T: %s>() {} p::<%s>();" % (m, t)))
    for t, inner in (("Unit<Vector3<f64>>", "Vector3<f64>"), ("Unit<Quaternion<f64>>", "Quaternion<f64>"), ("Rotation2<f64>", "Matrix2x2<f64>"), ("Rotation3<f64>", "Matrix3x3<f64>"),
                     ("Isometry3<f64>", "Matrix4x4<f64>"), ("Isometry2<f64>", "Matrix3x3<f64>"), ("Similarity3<f64>", "Matrix4x4<f64>"), ("Similarity2<f64>", "Matrix3x3<f64>"),
                     ("Reflection3<f64>", "Matrix4x4<f64>"), ("Shear3<f64>", "Matrix4x4<f64>")):
        bad.append(("%s from an arbitrary %s" % (t, inner), "", "fn p<T: From<%s>>() {} p::<%s>();" % (inner, t)))
        bad.append(("%s from an arbitrary %s" % (t, inner), "", "fn p<T: for<'a> From<&'a %s>>() {} p::<%s>();" % (inner, t)))
    bad.append(("an arbitrary default unit vector", "", "fn p<T: Default>() {} p::<Unit<Vector3<f64>>>();"))
    for t in ("Unit<Vector3<f64>>", "Unit<Quaternion<f64>>"):
        for op in ("core::ops::Add<Output = {t}>", "core::ops::Sub<Output = {t}>", "core::ops::Mul<f64, Output = {t}>", "core::ops::AddAssign", "core::ops::SubAssign",
                   "core::ops::MulAssign<f64>", "core::ops::DivAssign<f64>"):
            bad.append(("%s closed under %s" % (t, op), "", "fn p<T: %s>() {} p::<%s>();" % (op.format(t=t), t)))
        ok.append(("negation of " + t, "u: " + t, "let _r: %s = -u;" % t))
    ok.append(("reading a unit vector", "u: Unit<Vector3<f64>>", "let _r: Vector3<f64> = u.into_inner(); let _s: &Vector3<f64> = u.as_ref();"))
    eb, s1 = shapes.compile(work, built, bad, "closed")
    eo, s2 = shapes.compile(work, built, ok, "open")
    for m in s1 + s2:
        viol.append(("stray", "the witnesses failed for another reason: %s" % m[:300], ""))
    for i, (what, p, b) in enumerate(bad):
        if i not in eb:
            viol.append(("bad " + what, "%s: safe code can now bypass the invariant (this program is accepted: %s)" % (what, b), ""))
        elif not any(c in shapes.CODES for c, _ in eb[i]):
            viol.append(("odd " + what, "%s: the witness is rejected for another reason: %s" % (what, eb[i][0]), ""))
    for i, (what, p, b) in enumerate(ok):
        if i in eo:
            viol.append(("ok " + what, "%s is rejected: %s" % (what, eo[i][0][1][:200]), ""))
    if nf < 1500 or nfields < 10:
        viol.append(("floor", "only %d functions and %d fields were seen" % (nf, nfields), ""))
    cov = dict(explanation="Field visibility and the signature of every exported safe function are read from the type-checked program; witness programs ask the trait solver "
               "for every trait that would let safe code write into, or conjure, a guarded value.",
               rule="one obligation per field, exported safe function and witness", obligations=nf + nfields + len(bad) + len(ok), functions=nf, fields=nfields,
               witnesses=len(bad) + len(ok), mutating_methods=sorted(set(muts))[:60], exhaustive=True)
    return viol, cov, ["functions named *_unchecked and unsafe functions are the documented escape hatches",
                       "what the exported functions compute is decided by the other properties; this one decides that nothing else can write"]


DATA = ["Vector2<{0}>", "Vector4<{0}>", "Point3<{0}>", "Matrix2x2<{0}>", "Matrix<{0}, 2, 3>", "Quaternion<{0}>", "Complex<{0}>", "Unit<Vector3<{0}>>", "Unit<{0}>",
        "Euler<{0}>", "Radians<{0}>", "Degrees<{0}>", "Translation2<{0}>", "Scale3<{0}>", "Rotation2<{0}>", "Isometry3<{0}>", "Similarity2<{0}>", "Shear2<{0}>",
        "Reflection3<{0}>", "Transform2<{0}>", "Perspective3<{0}>", "Orthographic3<{0}>"]


def sound(work, tier):
    """No undefined behaviour from safe code: every function with unsafe operations is
    interpreted at every admitted instantiation on arguments owning exactly their memory."""
    built = vf.repo_crates(work)
    scratch = os.path.join(work, "f")
    os.makedirs(scratch, exist_ok=True)
    viol, open_, roots, n = [], [], [], dict(bodies=0, unsafe_functions=0, unsafe_operations=0, roots=0)
    for name, path, ds in vf.CRATES:
        out = os.path.join(work, "audit.%s.json" % name)
        r = vf.analyse(work, vf.source(path), name, ds, env={"VF_AUDIT": out}, extra=["--cfg", 'feature="std"'], out=scratch)
        if not os.path.exists(out):
            raise vf.BuildError(name, r.stderr)
        for l in open(out):
            d = json.loads(l)
            if d["k"] == "summary":
                for k in n:
                    n[k] += d[k]
                continue
            if vf.TREE[0] and vf.is_cut(d["loc"]):
                continue
            roots.append(d)
            for v in d["violations"]:
                viol.append((d["path"], "%s: safe function %s (%s): %s" % (d["loc"], d["path"], "; ".join(d["sites"][:2]), v), ""))
            for v in d["undecided"][:3]:
                open_.append("%s %s" % (d["path"], v[:160]))
            if not d["instances"]:
                open_.append("%s: no instantiation was admitted" % d["path"])
    bad = [("%s shared between threads" % t.format("Rc"), "", "fn p<T: %s>() {} p::<%s>();" % (b, t.format(x)))
           for t in DATA for b, x in (("Send", "std::rc::Rc<f64>"), ("Sync", "std::cell::Cell<f64>"))]
    ok = [("%s shared between threads" % t.format("f64"), "", "fn p<T: Send + Sync>() {} p::<%s>();" % t.format("f64")) for t in DATA]
    eb, s1 = shapes.compile(work, built[:4], bad, "unsent")
    eo, s2 = shapes.compile(work, built[:4], ok, "sent")
    for m in s1 + s2:
        viol.append(("stray", "the witnesses failed for another reason: %s" % m[:300], ""))
    for i, (what, _, b) in enumerate(bad):
        if i not in eb:
            viol.append(("bad %s %s" % (what, b), "%s although its components must not be: this program is accepted: %s" % (what, b), ""))
    for i, (what, _, b) in enumerate(ok):
        if i in eo:
            viol.append(("ok " + what, "%s is rejected: %s" % (what, eo[i][0][1][:200]), ""))
    if n["bodies"] < 2500:
        viol.append(("floor", "only %d bodies were seen" % n["bodies"], ""))
    cov = dict(explanation="Unsafe operations (raw dereferences, transmutes, calls of unsafe functions, union reads, assembly) are located in MIR. Every safe function that contains one, "
               "or whose private callees do, is interpreted abstractly at every instantiation its bounds admit among byte, double and niche scalars and dimensions 0 to 6 (up to 16 for "
               "flattened matrices), on opaque arguments owning exactly the memory of their types; accesses, results and arguments left behind must lie in initialised memory "
               "of the right extent, alignment and mutability, and results may not outlive what they point into.",
               rule="one obligation per interpreted instantiation and argument choice, and per thread-safety witness", obligations=sum(d["runs"] for d in roots) + len(bad) + len(ok),
               functions=len(roots), instantiations=sum(d["instances"] for d in roots), undecided=open_[:20], samples=["%s: %s" % (d["path"], d["sites"][0]) for d in roots[::17]][:5],
               exhaustive=not open_, **{k: n[k] for k in ("bodies", "unsafe_functions", "unsafe_operations")})
    return viol, cov, ["scalar types, dimensions and lengths outside the probes behave as the probes do", "rustc's layout of homogeneous tuples on this target is that of arrays",
                       "pointers made from the first element of an array may reach the whole array (true under tree borrows)"]


# what may panic by design: root function -> reason. Everything else must not.
MAY = [
    (r"(^|::)inverse$", "", "inverse of a value that has none"),
    (r"(^|::)cast$", "", "cast of a number the target type cannot hold"),
    (r"SimdScalarOrd>::clamp$", "", "clamping whole numbers to reversed bounds"),
    (r"Transform::<.*>::(inverse_)?apply_point$", "", "a general transform sending a point to infinity"),
    (r"Transform<.*as std::ops::Mul<.*Point<.*>>::mul$", "", "a general transform sending a point to infinity"),
    (r"(std::ops::(Div|Rem)(Assign)?(<.*)?>::(div|rem)(_assign)?|::unscale)$", "by zero", "dividing whole numbers by zero"),
]


def sweep(work, tier):
    """Interpret every exported safe function; the rows of all crates."""
    vf.repo_crates(work)
    scratch = os.path.join(work, "f")
    os.makedirs(scratch, exist_ok=True)

    def one(c):
        out = os.path.join(work, "total.%s.json" % c[0])
        r = vf.analyse(work, vf.source(c[1]), c[0], c[2], env={"VF_TOTAL": out, "VERIF_TIER": tier}, extra=["--cfg", 'feature="std"', "-Cdebug-assertions=on"], out=scratch)
        if not os.path.exists(out):
            raise vf.BuildError(c[0], r.stderr)
        return [json.loads(l) for l in open(out)]

    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(len(vf.CRATES)) as ex:
        return [d for r in ex.map(one, vf.CRATES) for d in r]


ENDLESS = re.compile(r"branch nesting too deep|call depth exceeded|analysis budget exhausted|switch without join")


def bounded(work, tier):
    """Every interpreted run of every exported safe function ends without the number of rounds of a loop or the depth of a recursion depending on an unknown number."""
    viol, open_, n = [], [], dict(functions=0, instantiations=0, runs=0)
    for d in sweep(work, tier):
        if d.get("k") != "fn":
            continue
        n["functions"] += 1
        n["instantiations"] += d["instances"]
        n["runs"] += d["runs"]
        bad = [u for u in d["undecided"] if ENDLESS.search(u)]
        if bad:
            viol.append((d["path"], "%s: %s does not end within a number of steps fixed by the shapes of its arguments: %s" % (d["loc"], d["path"], bad[0][:500]), ""))
        open_ += ["%s %s" % (d["path"], u[:160]) for u in d["undecided"] if not ENDLESS.search(u)][:1]
        if not d["instances"]:
            open_.append("%s: no instantiation was admitted" % d["path"])
    if n["functions"] < 2500 and not viol:
        viol.append(("floor", "only %d functions were seen" % n["functions"], ""))
    cov = dict(explanation="Every exported safe function of the five crates is interpreted abstractly at every instantiation its bounds admit among double and 32-bit integer scalars and dimensions one to four "
               "on unknown component values, and on values that are not numbers. A loop or recursion whose end is decided by an unknown number has no end in the interpretation and is reported; "
               "all others unroll completely.", rule="one obligation per interpreted run: it ends", obligations=n["runs"], undecided=[x for x in open_ if "dyn std::fmt::Write" not in x][:40],
               undecided_count=len(open_), exhaustive=False, **n)
    return viol, cov, ["scalar types and dimensions outside the probes behave as the probes do", "the standard library and num-traits end on every number",
                       "exponents other than the thirteen tried behave as those do"]


def freestanding(work, tier):
    rows = facts(work)
    viol, bodies = [], 0
    for r in rows:
        bodies += r["k"] in ("fn", "body")
        for h in r.get("hosted", []):
            what, _, at = h.partition(" at ")
            viol.append(("%s %s" % (r["path"], what), "%s: %s uses %s, which needs an allocator or an operating system" % (at or r["loc"], r["path"], what), ""))
    if bodies < 2500:
        viol.append(("floor", "only %d bodies were seen" % bodies, ""))
    cov = dict(explanation="Every function called and every type mentioned by every body (closures included), signature and field of the five workspace crates is resolved to the crate that defines it; "
               "anything defined in alloc or std rather than core, whatever path it is named by, is a violation.", rule="one obligation per body and type definition", obligations=len(rows), bodies=bodies,
               items=len(rows), samples=[r["path"] for r in rows[:: len(rows) // 5]][:5], exhaustive=True)
    return viol, cov, ["num-traits provides its functions without the standard library when built with libm, as the manifests ask"]


def total(work, tier):
    """Panic freedom: every exported safe function is interpreted at every admitted probe instantiation on
    unknown arguments (and on arguments that are not numbers); each reachable panic is an obligation."""
    ds = sweep(work, tier)
    viol, open_, seen, n, may = [], [], {}, dict(functions=0, instantiations=0, runs=0, panic_paths=0, panic_paths_infeasible=0), {}
    for d in ds:
        if d.get("k") == "fn":
            n["functions"] += 1
            n["instantiations"] += d["instances"]
            n["runs"] += d["runs"]
            for u in d["undecided"][:1]:
                open_.append("%s %s" % (d["path"], u[:160]))
            if not d["instances"]:
                open_.append("%s: no instantiation was admitted" % d["path"])
            continue
        n["panic_paths"] += d["obligations"]
        n["panic_paths_infeasible"] += d["proved"]
        root = re.sub(r" at <.*", "", d["law"])
        if d["error"] or d["sampled"]:
            open_.append("%s: %s" % (d["law"], (d["error"] or d["sampled"][0])[:160]))
        for v in d["violations"]:
            what, _, via = v["path"].partition(" via ")
            ok = [w for r, m, w in MAY if re.search(r, root) and m in what]
            if ok:
                may.setdefault(ok[0], set()).add(root)
            elif (root, what) not in seen:
                seen[root, what] = 1
                viol.append(("%s %s" % (root, what), "%s: %s panics (%s) along %s" % (d["loc"], d["law"], what, via[:400]), v.get("why", "")))
    if n["functions"] < 2500 and not viol:
        viol.append(("floor", "only %d functions were seen" % n["functions"], ""))
    cov = dict(explanation="Every exported safe function of the five crates is interpreted abstractly at every instantiation its bounds admit among double and 32-bit integer scalars and dimensions one to four "
               "(library types where no scalar fits), first on unknown numbers, then with components that are not numbers (all of them, and the first or last of each argument). Every panic (assertion, unwrap, "
               "explicit panic, index or slice check) on a path of the interpretation is an obligation: its path condition is contradictory, or the panic is one of the documented ones.",
               rule="one obligation per interpreted run (no panic on any path) and per panic path found", obligations=n["runs"] + n["panic_paths"],
               permitted={k: "%d functions" % len(v) for k, v in may.items()}, undecided=[x for x in open_ if "dyn std::fmt::Write" not in x][:40], undecided_count=len(open_), exhaustive=False, **n)
    return viol, cov, ["scalar types and dimensions outside the probes behave as the probes do", "whole-number arithmetic does not overflow",
                       "functions passed in by the caller do not panic", "index arguments are in range"]


def decide(pid, work, tier):
    return {"P44": sound, "P45": total, "P46": freestanding, "P47": bounded, "P36": layout, "P37": purity, "P39": guarded}[pid](work, tier)
