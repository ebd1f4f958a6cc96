"""Compile-time dimension facts: constraint.rs is compiled together with a
generated module that asks the trait solver, for every tuple of dimensions in
the domain, whether the fact holds, and compares the answer with arithmetic.
The result is read off rustc's diagnostics; nothing is executed."""
import itertools, os, re, tempfile
from . import vf

SRC = "crates/cglinalg_core/src/constraint.rs"

HEAD = """
#![allow(dead_code, unused_imports, non_local_definitions, unused)]
#[path = "%s"]
pub mod constraint;
use constraint::*;
pub struct Q<const K: usize, const A: usize, const B: usize, const C: usize, const D: usize>;
pub trait No { const V: bool = false; const O: Option<usize> = None; }
impl<T> No for T {}
pub trait Val { const N: usize; }
impl<const N: usize> Val for Const<N> { const N: usize = N; }
macro_rules! ask { ($k:literal, $($b:tt)*) => {
    impl<const A: usize, const B: usize, const C: usize, const D: usize> Q<$k, A, B, C, D> where ShapeConstraint: $($b)* { pub const V: bool = true; }
} }
macro_rules! out { ($k:literal, $t:ident, $o:ident) => {
    impl<const A: usize, const B: usize, const C: usize, const D: usize> Q<$k, A, B, C, D>
    where ShapeConstraint: $t<Const<A>, Const<B>>, <ShapeConstraint as $t<Const<A>, Const<B>>>::$o: Val
    { pub const O: Option<usize> = Some(<<ShapeConstraint as $t<Const<A>, Const<B>>>::$o as Val>::N); }
} }
ask!(0, DimEq<Const<A>, Const<B>>);
ask!(1, DimLt<Const<A>, Const<B>>);
ask!(2, DimAdd<Const<A>, Const<B>>);
ask!(3, DimSub<Const<A>, Const<B>>);
ask!(4, DimMul<Const<A>, Const<B>>);
ask!(5, CanMultiply<Const<A>, Const<B>, Const<C>, Const<D>>);
ask!(6, CanTransposeMultiply<Const<A>, Const<B>, Const<C>, Const<D>>);
ask!(7, CanExtend<Const<A>, Const<B>>);
ask!(8, CanContract<Const<A>, Const<B>>);
out!(10, DimEq, Representative);
out!(12, DimAdd, Output);
out!(13, DimSub, Output);
out!(14, DimMul, Output);
"""

# consequences a caller that only names the compound fact relies on
IMPLIED = {
    "P01": [("equality is reflexive for every dimension", """
        fn need<D: Dim>() where ShapeConstraint: DimEq<D, D> {}
        pub fn all<const N: usize>() { need::<Const<N>>() }
        fn rep<D: Dim>() -> [(); 0] where ShapeConstraint: DimEq<D, D, Representative = D> { [] }
        pub fn all2<const N: usize>() { rep::<Const<N>>(); }""")],
    "P02": [],
    "P03": [("multipliable implies the inner dimensions are equal both ways", """
        fn eq<A: Dim, B: Dim>() where ShapeConstraint: DimEq<A, B> {}
        pub fn f<R1: Dim, C1: Dim, R2: Dim, C2: Dim>() where ShapeConstraint: CanMultiply<R1, C1, R2, C2> { eq::<C1, R2>(); eq::<R2, C1>(); }"""),
            ("transpose-multipliable implies the row counts are equal both ways", """
        fn eq<A: Dim, B: Dim>() where ShapeConstraint: DimEq<A, B> {}
        pub fn f<R1: Dim, C1: Dim, R2: Dim, C2: Dim>() where ShapeConstraint: CanTransposeMultiply<R1, C1, R2, C2> { eq::<R1, R2>(); eq::<R2, R1>(); }"""),
            ("every square-compatible pair multiplies, for any dimension", """
        fn mul<R1: Dim, C1: Dim, R2: Dim, C2: Dim>() where ShapeConstraint: CanMultiply<R1, C1, R2, C2> {}
        fn tmul<R1: Dim, C1: Dim, R2: Dim, C2: Dim>() where ShapeConstraint: CanTransposeMultiply<R1, C1, R2, C2> {}
        pub fn f<const R: usize, const K: usize, const C: usize>() { mul::<Const<R>, Const<K>, Const<K>, Const<C>>(); tmul::<Const<K>, Const<R>, Const<K>, Const<C>>(); }""")],
    "P04": [("extension implies the sum fact", """
        fn add<A: Dim, B: Dim>() where ShapeConstraint: DimAdd<A, Const<1>, Output = B> {}
        pub fn f<A: Dim, B: Dim>() where ShapeConstraint: CanExtend<A, B> { add::<A, B>() }"""),
            ("contraction implies the difference fact", """
        fn sub<A: Dim, B: Dim>() where ShapeConstraint: DimSub<A, Const<1>, Output = B> {}
        pub fn f<A: Dim, B: Dim>() where ShapeConstraint: CanContract<A, B> { sub::<A, B>() }""")],
}
NAMES = {0: "DimEq", 1: "DimLt", 2: "DimAdd", 3: "DimSub", 4: "DimMul", 5: "CanMultiply",
         6: "CanTransposeMultiply", 7: "CanExtend", 8: "CanContract"}


def domain(text):
    text = re.sub(r"//[^\n]*", "", text)
    lits = {int(x) for x in re.findall(r"(?<![\w.])(\d{1,6})(?:usize)?\b", text)}
    base = set(range(0, 10))
    for l in lits:
        base |= {l, l + 1, max(l - 1, 0)}
    return sorted(base)[:40]


def questions(pid, dom):
    """(message, rust condition) pairs."""
    qs = []
    q = lambda k, *a: "<Q<%d, %s>>" % (k, ", ".join(map(str, (list(a) + [0, 0, 0, 0])[:4])))
    V = lambda k, *a: q(k, *a) + "::V"
    O = lambda k, *a: q(k, *a) + "::O"
    if pid == "P01":
        for a, b in itertools.product(dom, dom):
            qs.append(("DimEq<%d,%d> must hold exactly when equal" % (a, b), "%s == %s" % (V(0, a, b), str(a == b).lower())))
            if a == b:
                qs.append(("DimEq<%d,%d> must represent %d" % (a, b, a), "matches!(%s, Some(%d))" % (O(10, a, b), a)))
            if not a < b:
                qs.append(("DimLt<%d,%d> must not hold" % (a, b), "!%s" % V(1, a, b)))
            elif b <= 4:
                qs.append(("DimLt<%d,%d> must hold" % (a, b), V(1, a, b)))
    if pid == "P02":
        for k, nm, f, ok in ((2, "DimAdd", lambda a, b: a + b, lambda a, b: 1 <= a <= 4 and 1 <= b <= 4),
                             (3, "DimSub", lambda a, b: a - b, lambda a, b: 1 <= b <= a <= 4),
                             (4, "DimMul", lambda a, b: a * b, lambda a, b: 1 <= a <= 4 and 1 <= b <= 4)):
            for a, b in itertools.product(dom, dom):
                r = f(a, b)
                if ok(a, b):
                    qs.append(("%s<%d,%d> must be %d" % (nm, a, b, r), "matches!(%s, Some(%d))" % (O(10 + k, a, b), r)))
                elif r < 0:
                    qs.append(("%s<%d,%d> must not exist" % (nm, a, b), "!%s" % V(k, a, b)))
                else:
                    qs.append(("%s<%d,%d> may only be %d" % (nm, a, b, r),
                               "matches!(%s, None | Some(%d)) && %s == %s.is_some()" % (O(10 + k, a, b), r, V(k, a, b), O(10 + k, a, b))))
    if pid == "P03":
        big = [d for d in dom if d > 5]
        tup = list(itertools.product(range(0, 6), repeat=4))
        for d in big:
            tup += [(d, 2, 2, d), (2, d, d, 2), (2, d, 3, 2), (2, 3, d, 2), (d, 3, d, 4), (d, d, 2, d), (2, d, d, d)]
        for t in sorted(set(tup)):
            qs.append(("CanMultiply<%d,%d,%d,%d> must hold exactly when the inner dimensions agree" % t,
                       "%s == %s" % (V(5, *t), str(t[1] == t[2]).lower())))
            qs.append(("CanTransposeMultiply<%d,%d,%d,%d> must hold exactly when the row counts agree" % t,
                       "%s == %s" % (V(6, *t), str(t[0] == t[2]).lower())))
    if pid == "P04":
        for a, b in itertools.product(dom, dom):
            if b == a + 1 and 1 <= a <= 4:
                qs.append(("CanExtend<%d,%d> must hold" % (a, b), V(7, a, b)))
            elif b != a + 1:
                qs.append(("CanExtend<%d,%d> must not hold" % (a, b), "!%s" % V(7, a, b)))
            if b == a - 1 and 1 <= a <= 4:
                qs.append(("CanContract<%d,%d> must hold" % (a, b), V(8, a, b)))
            elif b != a - 1:
                qs.append(("CanContract<%d,%d> must not hold" % (a, b), "!%s" % V(8, a, b)))
    return qs


def check(pid, work):
    """-> dict(violations=[(key, text)], counts...)"""
    path = os.path.join(vf.REPO, SRC)
    text = open(path).read()
    dom = domain(text.split("#[cfg(test)]")[0])
    qs = questions(pid, dom)
    body = [HEAD % path]
    for i, (msg, cond) in enumerate(qs):
        body.append('const _: () = if %s {} else { panic!("%s") };' % (cond, "FACT " + msg))
    f = os.path.join(work, "facts.rs")
    open(f, "w").write("\n".join(body))
    r = vf.run(["rustc", "--edition", "2021", "--crate-type", "rlib", "--crate-name", "facts", "--emit", "metadata",
                "--out-dir", work, "-Awarnings", f])
    viol = []
    bad = sorted(set(re.findall(r"FACT ([^'\"\n`]+)", "\n".join(
        l for l in r.stdout.splitlines() if "evaluation" in l or "panicked" in l))))
    for b in bad:
        viol.append((b, "%s: %s" % (SRC, b)))
    if r.returncode != 0 and not bad:
        viol.append(("compile", "%s does not provide the dimension facts: %s" % (SRC, first_error(r.stdout))))
    implied = 0
    for name, code in IMPLIED[pid]:
        g = os.path.join(work, "implied.rs")
        open(g, "w").write((HEAD % path) + "mod w { use super::constraint::*; %s }" % code)
        r2 = vf.run(["rustc", "--edition", "2021", "--crate-type", "rlib", "--crate-name", "implied", "--emit",
                     "metadata", "--out-dir", work, "-Awarnings", g])
        implied += 1
        if r2.returncode != 0:
            viol.append((name, "%s: %s no longer type-checks: %s" % (SRC, name, first_error(r2.stdout))))
    impls = len(re.findall(r"(?m)^\s*(?:impl\b|impl_dim_\w+!\()", text.split("#[cfg(test)]")[0]))
    return dict(violations=viol, facts=len(qs), implied=implied, domain=dom, impl_items=impls,
                samples=[m for m, _ in qs[:: max(1, len(qs) // 5)]][:6])


def first_error(t):
    for l in t.splitlines():
        if l.startswith("error"):
            return l
    return t.strip().splitlines()[0] if t.strip() else "no diagnostics"
