"""Witness programs for P05: for every operation and shape, the ill-shaped use
must be rejected by the type checker and its well-shaped twin accepted with the
stated result type. One function per line; the verdict is read off rustc's
diagnostics. Nothing is executed."""
import json, os, re, subprocess
from . import vf

HEAD = """#![allow(warnings)]
use cglinalg_core::*; use cglinalg_numeric::*; use cglinalg_trigonometry::*; use cglinalg_transform::*;
"""
# what a rejection for reasons of shape, kind or unit looks like
CODES = {"E0277", "E0308", "E0599", "E0369", "E0271", "E0600", "E0368", "E0609", "E0610", "E0282", "E0283", "E0631"}
FORMS = [("", ""), ("", "&"), ("&", ""), ("&", "&")]


class W:
    def __init__(self):
        self.ok, self.bad = [], []

    def good(self, what, params, body, out=None):
        self.ok.append((what, params, ("let _r: %s = %s;" % (out, body)) if out else body + ";"))

    def wrong(self, what, params, body):
        self.bad.append((what, params, "let _r = %s;" % body if not re.search(r"[^=<>!]=[^=]", body) else body + ";"))

    def binop(self, what, ok, a, b, op, out=None, forms=FORMS):
        for x, y in forms:
            p = "a: %s, b: %s" % (a, b)
            e = "%sa %s %sb" % (x, op, y)
            w = "%s: %s%s %s %s%s" % (what, x, a, op, y, b)
            self.good(w, p, e, out) if ok else self.wrong(w, p, e)


def mat(s, r, c):
    return "Matrix<%s, %d, %d>" % (s, r, c)


def vec(s, n):
    return "Vector<%s, %d>" % (s, n)


def pt(s, n):
    return "Point<%s, %d>" % (s, n)


def witnesses(thorough):
    w = W()
    D = (1, 2, 3, 4)
    for s in ("f64", "i32") + (("u8", "f32", "i128") if thorough else ()):
        for r1 in D:
            for c1 in D:
                for r2 in D:
                    for c2 in D:
                        ok = c1 == r2
                        w.binop("matrix product", ok, mat(s, r1, c1), mat(s, r2, c2), "*", mat(s, r1, c2), FORMS if (s == "f64" or thorough) else FORMS[:1])
                        same = (r1, c1) == (r2, c2)
                        if s == "f64" or thorough:
                            for op in "+-":
                                w.binop("matrix sum", same, mat(s, r1, c1), mat(s, r2, c2), op, mat(s, r1, c1), FORMS[:1] if not same else FORMS)
                            a = "mut a: %s, b: %s" % (mat(s, r1, c1), mat(s, r2, c2))
                            for e in ("a += b", "a -= b"):
                                (w.good if same else w.wrong)("matrix assign %s %s,%s" % (e, (r1, c1), (r2, c2)), a, e)
                            a = "a: %s, b: %s" % (mat(s, r1, c1), mat(s, r2, c2))
                            if same:
                                w.good("component_mul", a, "a.component_mul(&b)", mat(s, r1, c1))
                                w.good("==", a, "a == b", "bool")
                            else:
                                w.wrong("component_mul %s %s" % ((r1, c1), (r2, c2)), a, "a.component_mul(&b)")
                                w.wrong("matrix comparison %s %s" % ((r1, c1), (r2, c2)), a, "a == b")
                            if same:
                                w.good("dot", a, "a.dot(&b)", s)
                            else:
                                w.wrong("dot of %s and %s" % ((r1, c1), (r2, c2)), a, "a.dot(&b)")
                            if (r1, c1) == (c2, r2):
                                w.good("tr_dot", a, "a.tr_dot(&b)", s)
                            else:
                                w.wrong("tr_dot of %s and %s" % ((r1, c1), (r2, c2)), a, "a.tr_dot(&b)")
                            if r1 == r2:
                                w.good("tr_mul", a, "a.tr_mul(&b)", mat(s, c1, c2))
                            else:
                                w.wrong("tr_mul of %s by %s" % ((r1, c1), (r2, c2)), a, "a.tr_mul(&b)")
                for n in D:
                    ok = c1 == n
                    if c1 == n or s == "f64":
                        w.binop("matrix times vector", ok, mat(s, r1, c1), vec(s, n), "*", vec(s, r1))
                if r1 != c1 and s == "f64":
                    for m in ("trace()", "determinant()", "try_inverse()", "inverse()", "diagonal()", "transpose_mut()", "is_identity()"):
                        w.wrong("%s of a %dx%d matrix" % (m, r1, c1), "mut a: " + mat(s, r1, c1), "a." + m)
                    w.wrong("identity %dx%d" % (r1, c1), "", mat(s, r1, c1).replace("Matrix<", "Matrix::<") + "::identity()")
                    w.wrong("a transposed %dx%d matrix keeping its shape" % (r1, c1), "a: " + mat(s, r1, c1), "{ let t: %s = a.transpose(); t }" % mat(s, r1, c1))
                if s == "f64":
                    w.good("transpose", "a: " + mat(s, r1, c1), "a.transpose()", mat(s, c1, r1))
                    w.good("row", "a: " + mat(s, r1, c1), "a.row(0)", vec(s, c1))
                    w.good("column", "a: " + mat(s, r1, c1), "a.column(0)", vec(s, r1))
        if s == "f64":
            for n in D:
                for m in ("trace()", "determinant()"):
                    w.good(m, "a: " + mat(s, n, n), "a." + m, s)
                w.good("inverse", "a: " + mat(s, n, n), "a.try_inverse()", "Option<%s>" % mat(s, n, n))
                w.good("identity", "", mat(s, n, n).replace("Matrix<", "Matrix::<") + "::identity()", mat(s, n, n))
        for n in D:
            for m in D:
                same = n == m
                p = "a: %s, b: %s" % (vec(s, n), vec(s, m))
                for op in "+-":
                    w.binop("vector sum", same, vec(s, n), vec(s, m), op, vec(s, n))
                for call, out in (("a.dot(&b)", s), ("a.component_mul(&b)", vec(s, n)), ("a == b", "bool"), ("a.metric_distance_squared(&b)", s)):
                    if same:
                        w.good(call, p, call, out)
                    else:
                        w.wrong("%s in dimensions %d and %d" % (call, n, m), p, call)
                for e in ("a += b", "a -= b"):
                    (w.good if same else w.wrong)("vector %s in dimensions %d, %d" % (e, n, m), "mut " + p, e)
                if n <= 3 and m <= 3:
                    w.binop("point plus vector", same, pt(s, n), vec(s, m), "+", pt(s, n))
                    w.binop("point minus vector", same, pt(s, n), vec(s, m), "-", pt(s, n))
                    w.binop("point minus point", same, pt(s, n), pt(s, m), "-", vec(s, n))
                    w.binop("point plus point", False, pt(s, n), pt(s, m), "+")
                    w.binop("vector minus point", False, vec(s, n), pt(s, m), "-", None, FORMS[:1])
                    w.wrong("point compared with vector", "a: %s, b: %s" % (pt(s, n), vec(s, m)), "a == b")
                    if not same:
                        w.wrong("point comparison across dimensions", "a: %s, b: %s" % (pt(s, n), pt(s, m)), "a == b")
                    else:
                        w.good("point comparison", "a: %s, b: %s" % (pt(s, n), pt(s, m)), "a == b", "bool")
                    for e in ("a += b", "a -= b"):
                        (w.good if same else w.wrong)("point %s vector in dimensions %d, %d" % (e, n, m), "mut a: %s, b: %s" % (pt(s, n), vec(s, m)), e)
                if n <= 4:
                    if m == n + 1:
                        w.good("extend", "a: %s, x: %s" % (vec(s, n), s), "a.extend(x)", vec(s, m))
                        w.good("to_homogeneous", "a: " + vec(s, n), "a.to_homogeneous()", vec(s, m))
                    else:
                        w.wrong("extend %d to %d" % (n, m), "a: %s, x: %s" % (vec(s, n), s), "{ let r: %s = a.extend(x); r }" % vec(s, m))
                        if s == "f64":
                            w.wrong("to_homogeneous %d to %d" % (n, m), "a: " + vec(s, n), "{ let r: %s = a.to_homogeneous(); r }" % vec(s, m))
                            w.wrong("point to_homogeneous %d to %d" % (n, m), "a: " + pt(s, n), "{ let r: %s = a.to_homogeneous(); r }" % vec(s, m))
                    if m == n - 1:
                        w.good("contract", "a: " + vec(s, n), "a.contract()", vec(s, m))
                    else:
                        w.wrong("contract %d to %d" % (n, m), "a: " + vec(s, n), "{ let r: %s = a.contract(); r }" % vec(s, m))
            if n != 3:
                w.wrong("cross product in dimension %d" % n, "a: %s, b: %s" % (vec(s, n), vec(s, n)), "a.cross(&b)")
            else:
                w.good("cross product", "a: %s, b: %s" % (vec(s, 3), vec(s, 3)), "a.cross(&b)", vec(s, 3))
            for i, c in enumerate("xyzw"):
                P = "a: " + vec(s, n)
                (w.good if i < n else w.wrong)("coordinate .%s of a %d-vector" % (c, n), P, "a.%s" % c, *((s,) if i < n else ()))
                (w.good if i < n else w.wrong)("swizzle .%s() of a %d-vector" % (c, n), P, "a.%s()" % c, *((vec(s, 1),) if i < n else ()))
                if n <= 3 and i < 3:
                    P = "a: " + pt(s, n)
                    (w.good if i < n else w.wrong)("coordinate .%s of a %d-point" % (c, n), P, "a.%s" % c, *((s,) if i < n else ()))
            for (k, names) in ((2, ("xx", "xy", "yz", "zy", "zw", "wx")), (3, ("xyz", "zzy", "xyw", "yyx"))):
                for nm in names:
                    ok = all("xyzw".index(ch) < n for ch in nm)
                    if n > 2 or (n == 2 and (k == 2 or not ok)):
                        (w.good if ok else w.wrong)("swizzle .%s() of a %d-vector" % (nm, n), "a: " + vec(s, n), "a.%s()" % nm, *((vec(s, k),) if ok else ()))
    # scalars are never converted silently, unsigned values have no negation, integers no length
    for a, b in (("f32", "f64"), ("i32", "f64"), ("u8", "i32")):
        for k in ("Vector<%s, 3>", "Point<%s, 3>", "Matrix<%s, 2, 2>", "Quaternion<%s>", "Complex<%s>"):
            w.wrong("mixed scalars " + k, "a: %s, b: %s" % (k % a, k % b), "a - b")
            w.good("one scalar " + k, "a: %s, b: %s" % (k % b, k % b), "a - b")
    for u in ("u8", "u16", "u32", "u64", "u128", "usize"):
        for k in ("Vector<%s, 3>", "Matrix<%s, 2, 3>", "Quaternion<%s>", "Complex<%s>"):
            w.wrong("negation of unsigned " + k % u, "a: " + k % u, "-a")
            w.good("negation of signed " + k, "a: " + k % "i32", "-a", k % "i32")
    for i in ("i32", "u32", "i64", "usize"):
        for k in ("Vector<%s, 3>", "Quaternion<%s>"):
            for m in ("norm()", "normalize()"):
                w.wrong("%s of integer %s" % (m, k % i), "a: " + k % i, "a." + m)
                w.good("%s of float %s" % (m, k), "a: " + k % "f64", "a." + m)
    # units of angle
    for s in ("f32", "f64"):
        r, d = "Radians<%s>" % s, "Degrees<%s>" % s
        for op in ("+", "-", "/", "%"):
            w.binop("angle units", False, r, d, op)
            w.binop("angle units", False, d, r, op)
            for x in (r, d):
                w.binop("same unit", True, x, x, op, s if op == "/" else x)
        for x in (r, d):
            for op in "+-":
                w.binop("angle and bare number", False, x, s, op)
            w.binop("angle times number", True, x, s, "*", x, FORMS[:1])
            w.binop("angle times angle", False, x, x, "*")
        w.wrong("comparison across units", "a: %s, b: %s" % (r, d), "a == b")
        w.wrong("comparison across units", "a: %s, b: %s" % (r, d), "a < b")
        w.wrong("angle added in place across units", "mut a: %s, b: %s" % (r, d), "a += b")
        w.wrong("a bare number as an angle", "a: " + s, "Matrix2x2::<%s>::from_angle(a)" % s)
        w.good("an angle", "a: " + d, "Matrix2x2::<%s>::from_angle(a)" % s)
        w.wrong("sine of a bare number as an angle", "a: " + s, "Angle::sin(a)")
    # a unit vector is required where a direction is
    w.wrong("an unnormalised axis", "v: Vector3<f64>, t: Radians<f64>", "Matrix3x3::from_axis_angle(&v, t)")
    w.good("a unit axis", "v: Unit<Vector3<f64>>, t: Radians<f64>", "Matrix3x3::from_axis_angle(&v, t)")
    w.wrong("an unnormalised axis", "v: Vector3<f64>, t: Radians<f64>", "Quaternion::from_axis_angle(&v, t)")
    w.good("a unit axis", "v: Unit<Vector3<f64>>, t: Radians<f64>", "Quaternion::from_axis_angle(&v, t)")
    w.wrong("an unnormalised axis", "v: Vector3<f64>, t: Radians<f64>", "Rotation3::from_axis_angle(&v, t)")
    w.good("a unit axis", "v: Unit<Vector3<f64>>, t: Radians<f64>", "Rotation3::from_axis_angle(&v, t)")
    for n in (2, 3):
        w.wrong("an unnormalised normal", "v: %s, p: %s" % (vec("f64", n), pt("f64", n)), "Reflection%d::from_normal_bias(&v, &p)" % n)
        w.good("a unit normal", "v: Unit<%s>, p: %s" % (vec("f64", n), pt("f64", n)), "Reflection%d::from_normal_bias(&v, &p)" % n)
    # transforms act on their own dimension and kind of object
    T2 = ["Translation", "Rotation", "Scale", "Shear", "Reflection", "Isometry", "Similarity", "Transform"]
    ty = lambda t, n, s="f64": "%s%d<%s>" % (t, n, s)
    for t in T2:
        for n in (2, 3):
            for m in (2, 3):
                ok = n == m
                for kind, mk in (("point", pt), ("vector", vec)):
                    w.binop("transform times " + kind, ok, ty(t, n), mk("f64", m), "*", mk("f64", n))
                    for inv in (("apply_", "inverse_apply_") if t != "Transform" else ("apply_",)):
                        c = "f.%s%s(&a)" % (inv, kind)
                        p = "f: %s, a: %s" % (ty(t, n), mk("f64", m))
                        if ok:
                            w.good(c, p, c, mk("f64", n))
                        else:
                            w.wrong("%s of %s on dimension %d" % (c, ty(t, n), m), p, c)
                other = {"point": vec, "vector": pt}
                if ok:
                    for kind in other:
                        w.wrong("%s applied as %s" % (ty(t, n), kind), "f: %s, a: %s" % (ty(t, n), other[kind]("f64", n)), "f.apply_%s(&a)" % kind)
                if t == "Shear":
                    w.binop("composition", ok, ty(t, n), ty(t, m), "*", ty("Transform", n))
                elif t != "Reflection":
                    w.binop("composition", ok, ty(t, n), ty(t, m), "*", ty(t, n))
                w.wrong("comparison of transforms across dimensions", "a: %s, b: %s" % (ty(t, 2), ty(t, 3)), "a == b")
                w.good("comparison of transforms", "a: %s, b: %s" % (ty(t, n), ty(t, n)), "a == b", "bool")
            w.wrong("mixed scalars", "a: %s, b: %s" % (ty(t, n), pt("f32", n)), "a * b")
            w.good("matrix of a transform", "a: %s" % ty(t, n), "a.to_affine_matrix()" if t not in ("Transform",) else "a.to_matrix()", mat("f64", n + 1, n + 1))
    for a, b, c in (("Rotation", "Translation", "Isometry"), ("Translation", "Rotation", "Isometry"), ("Isometry", "Rotation", "Isometry"),
                    ("Rotation", "Isometry", "Isometry"), ("Isometry", "Translation", "Isometry"), ("Translation", "Isometry", "Isometry"),
                    ("Similarity", "Isometry", "Similarity")):
        for n in (2, 3):
            for m in (2, 3):
                w.binop("composition", n == m, ty(a, n), ty(b, m), "*", ty(c, n))
    for t in ("Perspective3", "Orthographic3"):
        w.binop("projection", True, t + "<f64>", pt("f64", 3), "*", pt("f64", 3))
        w.binop("projection", False, t + "<f64>", pt("f64", 2), "*")
        w.binop("projection", False, t + "<f64>", vec("f64", 4), "*")
        w.wrong("projection of a vector as a point", "f: %s<f64>, a: Vector3<f64>" % t, "f.project_point(&a)")
        w.good("projection of a point", "f: %s<f64>, a: Point3<f64>" % t, "f.project_point(&a)", "Point3<f64>")
    # affine builders take one dimension less than the matrix
    for n in (2, 3, 4):
        for m in D:
            P = "v: " + vec("f64", m)
            for call in ("from_affine_translation", "from_affine_nonuniform_scale"):
                e = "Matrix::<f64, %d, %d>::%s(&v)" % (n, n, call)
                (w.good if m == n - 1 else w.wrong)("%s of a %dx%d matrix from a %d-vector" % (call, n, n, m), P, e)
    for n in D:
        for m in D:
            P = "v: " + vec("f64", m)
            e = "Matrix::<f64, %d, %d>::from_nonuniform_scale(&v)" % (n, n)
            (w.good if m == n else w.wrong)("from_nonuniform_scale of a %dx%d matrix from a %d-vector" % (n, n, m), P, e)
            if m != n:
                (w.good if m < n else w.wrong)("embedding %dx%d into %dx%d" % (m, m, n, n), "a: " + mat("f64", m, m), "Matrix::<f64, %d, %d>::from(a)" % (n, n))
    # views of, and conversions from, arrays and tuples take all components and no more
    def view(t, arr, fits):
        for b in ("AsRef<%s>", "AsMut<%s>", "From<%s>"):
            (w.good if fits else w.wrong)("%s as %s" % (t, b % arr), "", "{ fn p<T: %s>() {} p::<%s>() }" % (b % arr, t))
        (w.good if fits else w.wrong)("&%s from &%s" % (t, arr), "a: &%s" % arr, "<&%s>::from(a)" % t)
    for r in D:
        for c in D:
            for k in sorted({1, 2, 3, 4, 6, 8, 9, 12, 16, r * c - 1, r * c + 1} - {0}):
                view(mat("f64", r, c), "[f64; %d]" % k, k == r * c)
            for r2 in D:
                for c2 in D:
                    view(mat("f64", r, c), "[[f64; %d]; %d]" % (r2, c2), (r2, c2) == (r, c))
    for n in D:
        for m in (1, 2, 3, 4, 5):
            for t in ([vec("f64", n)] if n == 4 else [vec("f64", n), pt("f64", n)]):
                view(t, "[f64; %d]" % m, n == m)
                view(t, "(%s)" % ("f64, " * m), n == m)
    for m in (1, 2, 3, 4, 5):
        for t, n in (("Quaternion<f64>", 4), ("Complex<f64>", 2)):
            view(t, "[f64; %d]" % m, n == m)
            view(t, "(%s)" % ("f64, " * m), n == m)
    return w


def compile(work, built, rows, name):
    src = os.path.join(work, name + ".rs")
    with open(src, "w") as f:
        f.write(HEAD)
        for i, (_, p, b) in enumerate(rows):
            f.write("pub fn w%d(%s) { %s }\n" % (i, p, b))
    base = HEAD.count("\n") + 1
    cmd = ["rustc", "--edition", "2021", "--crate-name", name, "--crate-type", "rlib", "--emit", "metadata", "--out-dir", work, "-L", work,
           "--error-format=json", "--cap-lints=allow", "-Awarnings", "-Zthreads=8"]
    for e in ["num_traits", "approx_cmp"] + built:
        cmd += ["--extern", "%s=%s/lib%s.rmeta" % (e, work, e)]
    r = subprocess.run(cmd + [src], env=vf.ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    errs, stray = {}, []
    for l in r.stderr.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            if "panicked" in l:
                stray.append(l)
            continue
        if d.get("level") != "error" or (not d["spans"] and d["message"].startswith(("aborting", "could not"))):
            continue
        ln = [s["line_start"] for s in d["spans"] if s["is_primary"] and s["file_name"] == src]
        if not ln:
            stray.append(d["message"])
            continue
        errs.setdefault(ln[0] - base, []).append(((d.get("code") or {}).get("code"), d["message"]))
    return errs, stray


def decide(work, tier):
    built = vf.repo_crates(work, "cglinalg_transform")
    w = witnesses(tier == "thorough")
    viol = []
    eo, so = compile(work, built, w.ok, "accepted")
    eb, sb = compile(work, built, w.bad, "rejected")
    for m in so + sb:
        viol.append(("stray", "a witness crate failed for another reason: %s" % m[:300], ""))
    for i, (what, p, b) in enumerate(w.ok):
        if i in eo:
            viol.append(("ok " + what, "%s: a well-shaped program is rejected: fn (%s) { %s }: %s" % (what, p, b, eo[i][0][1][:200]), str(eo[i])))
    for i, (what, p, b) in enumerate(w.bad):
        if i not in eb:
            viol.append(("bad " + what, "%s: an ill-shaped program is accepted: fn (%s) { %s }" % (what, p, b), ""))
        elif not any(c in CODES for c, _ in eb[i]):
            viol.append(("odd " + what, "%s: the witness is rejected for another reason: %s" % (what, eb[i][0]), str(eb[i])))
    hist = {}
    for i in eb:
        hist[eb[i][0][0]] = hist.get(eb[i][0][0], 0) + 1
    cov = dict(explanation="Each witness is one function type-checked by rustc against the crates of the current tree; ill-shaped programs must be "
               "rejected with a type or trait error at their own line, well-shaped twins must be accepted with the stated result type.",
               rule="one obligation per witness program; the ill-shaped and well-shaped cases of an operation cover all shapes of its stated dimensions",
               obligations=len(w.ok) + len(w.bad), accepted_programs=len(w.ok) - len(eo), rejected_programs=len(eb), rejection_codes=hist,
               samples=[x[0] + ": " + x[2] for x in w.ok[::400][:4] + w.bad[::300][:5]], exhaustive=True)
    return viol, cov, ["rustc's type checker decides acceptance", "operations and dimensions outside the generated list are not covered"]
