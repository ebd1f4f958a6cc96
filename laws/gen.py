#!/usr/bin/env python3
"""Generates the enumerated parts of the law files (development tool): shapes, component names, swizzles."""
import itertools, os, re
here = os.path.dirname(os.path.abspath(__file__))
MARK = "// generated from here on by gen.py\n"


def put(name, text):
    p = os.path.join(here, name)
    s = open(p).read().split(MARK)[0] if os.path.exists(p) else ""
    open(p, "w").write(s + MARK + text)


shapes = [(r, c) for r in range(1, 5) for c in range(1, 5)]
out = ["dim!(r%dc%d, %d, %d, %d);" % (r, c, r, c, r * c) for r, c in shapes]
for r, c in shapes:
    if c == 1 and r != 1:
        continue
    T = "Matrix%dx%d" % (r, c)
    ns = [["c%dr%d" % (j, i) for i in range(r)] for j in range(c)]
    flat = [(j, i) for j in range(c) for i in range(r)]
    pat = "[" + ", ".join("[" + ", ".join(n) + "]" for n in ns) + "]"
    out.append("pub fn law_names_%dx%d(a: [[S; %d]; %d], x: S) {" % (r, c, r, c))
    out.append("    let m: %s<S> = mat_of(a);" % T)
    out.append("    same(rawm(%s::new(%s)), a);" % (T, ", ".join("a[%d][%d]" % f for f in flat)))
    for j, i in flat:
        out.append("    same(m.c%dr%d, a[%d][%d]); let mut w = m; w.c%dr%d = x; let mut e = a; e[%d][%d] = x; same(rawm(w), e);" % (j, i, j, i, j, i, j, i))
    out.append("}")
out.append("pub fn law_scalar(x: S) { same(Matrix1x1::new(x).to_scalar(), x); }")
put("p10m.rs", "\n".join(out) + "\n")

# swizzles: the public names in the source decide which exist today; each must select the named components
out = ["// Swizzles: a method named by components returns those components in that order."]
for f, T, mk, dims in (("vector.rs", "Vector", "vec_of", range(1, 5)), ("point.rs", "Point", "pt_of", range(1, 4))):
    s = open("/repo/crates/cglinalg_core/src/" + f).read()
    names = {n: set() for n in dims}
    for m in re.finditer(r"(?m)^impl_swizzle!\((\w+)\(\)\s*=>\s*%s(\d)" % T, s):
        names[int(m.group(2))].add(m.group(1))
    for n in dims:
        out.append("pub fn law_%s%d(a: [S; %d]) {" % (T.lower(), n, n))
        out.append("    let v: %s%d<S> = %s(a);" % (T, n, mk))
        raw = "raw" if T == "Vector" else "rawp"
        for w in sorted(names[n], key=lambda w: (len(w), w)):
            out.append("    same(%s(v.%s()), [%s]);" % (raw, w, ", ".join("a[%d]" % "xyzw".index(ch) for ch in w)))
        out.append("}")
        print(T, n, len(names[n]))
p = os.path.join(here, "p11.rs")
open(p, "w").write("\n".join(out) + "\n")
