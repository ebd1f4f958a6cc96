#!/usr/bin/env python3
"""check.py ID | --setup | --all : decide one property of /repo from its source.
Exit 0: held. Exit 1 plus a VIOLATION line: broken. Nothing of /repo is executed."""
import json, os, re, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import vf, lawgen, recover, registry, tables

EV = os.path.join(vf.VERIF, "evidence")
TIER = os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick"
ASSUME_LAWS = [
    "floating-point arithmetic is read as exact real arithmetic: rounding, overflow, NaN and infinities are outside the rule",
    "integer arithmetic is read as exact integer arithmetic (no overflow)",
    "std functions on scalars (sin, sqrt, ...) mean the real functions they name; approx_cmp comparisons are uninterpreted predicates of their arguments",
    "rustc's MIR and its trait selection are those of the shipped build",
]


def known():
    p = os.path.join(vf.VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def finish(pid, t0, violations, coverage, assumptions):
    """violations: [(key, text, details)]"""
    listed = {(k["property"], k["key"]): k for k in known() if k.get("status") == "known"}
    new, old = [], []
    for v in violations:
        (old if (pid, v[0]) in listed else new).append(v)
    os.makedirs(EV, exist_ok=True)
    rep = os.path.join(EV, pid + ".violations.txt")
    coverage = dict(coverage)
    coverage["known_findings_seen"] = len(old)
    ev = dict(property=pid, tier=TIER, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
              coverage=coverage, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(EV, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    with open(rep, "w") as f:
        f.write("property %s: re-run with: cd /verif && python3 check.py %s\n\n" % (pid, pid))
        for k, text, det in new:
            f.write("key: %s\n%s\n%s\n\n" % (k, text, det))
    for k, text, _ in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, listed[(pid, k)]["what"]))
    if new:
        for k, text, _ in new[:20]:
            print("  " + text)
        if len(new) > 20:
            print("  ... and %d more" % (len(new) - 20))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    print("OK property=%s %s" % (pid, " ".join("%s=%s" % (k, v) for k, v in coverage.items() if isinstance(v, int))))
    return 0


def decide_tables(pid, work):
    r = tables.check(pid, work)
    cov = dict(explanation="Each dimension fact is asked of rustc's trait solver by compiling constraint.rs together with one "
               "constant assertion per tuple of dimensions (0..9 and every literal in the file +-1) and comparing with the "
               "arithmetic truth; generic witnesses are type-checked for every dimension. Violations are the failing assertions.",
               rule="one obligation per fact and tuple of dimensions; all tuples of the domain are asked",
               obligations=r["facts"], generic_witnesses=r["implied"], impl_items_in_source=r["impl_items"],
               domain=r["domain"], samples=r["samples"], exhaustive=True)
    v = [(k, t, "") for k, t in r["violations"]]
    if r["facts"] < 90:
        v.append(("floor", "only %d facts were asked" % r["facts"], ""))
    return v, cov, ["the facts are decided for the listed domain of dimensions; dimensions outside it share the generic impls only"]


def law_names(parts):
    out = []
    for f, k in parts:
        out += lawgen.names(f, k)
    return out


def decide_laws(pid, work, spec):
    parts = list(spec["parts"]) + (list(spec.get("thorough", [])) if TIER == "thorough" else [])
    viol = []
    built = vf.repo_crates(work, spec.get("upto", "cglinalg_transform"))
    src = os.path.join(work, "laws.rs")
    open(src, "w").write(lawgen.crate(parts, spec.get("prelude", "prelude.rs")))
    out = os.path.join(work, "out.json")
    env = {"VF_OUT": out}
    if os.environ.get("VF_REACHED"):
        env["VF_SPANS"] = os.path.join(work, "spans")
    r = vf.analyse(work, src, "laws", built, env=env)
    if not os.path.exists(out):
        raise vf.BuildError("laws", r.stderr)
    rows = [json.loads(l) for l in open(out)]
    have = {x["law"].split("::")[0] + "::" + x["law"].split("::")[-1] for x in rows}
    for m in sorted(set(law_names(parts)) - have):
        viol.append((m, "law %s was not analysed" % m, ""))
    reached, calls, skipped, cut = set(), set(), [], vf.cut_bodies()
    for x in sorted(rows, key=lambda x: x["law"]):
        fns = [c for c in x["calls"] if "cglinalg" in c]
        reached |= {c for c in x["reached"] if "cglinalg" in c}
        calls |= set(fns)
        about = "; about " + ", ".join(fns[:4]) if fns else ""
        if x["error"] and cut and recover.MARK in x["error"]:
            skipped.append(x["law"])
            continue
        if x["error"]:
            viol.append((x["law"] + " unsupported", "%s: the analysis cannot follow the code: %s%s" % (x["law"], x["error"][:300], about), x["error"]))
        elif x["groups"] == 0:
            viol.append((x["law"] + " empty", "%s: no obligation was generated%s" % (x["law"], about), ""))
        elif x["dead_groups"]:
            viol.append((x["law"] + " dead", "%s: an obligation is unreachable in the code%s" % (x["law"], about), ""))
        seen = set()
        for b in x["violations"]:
            key = x["law"] + " " + re.sub(r"^(#\d+).*", r"\1", b["path"])
            det = "%s\n  where: %s\n  residual: %s\n  point: %s\n  terms: %s" % (x["loc"], b["path"], b["why"], b["witness"], b["terms"])
            if key in seen:
                continue
            seen.add(key)
            viol.append((key, "%s at %s fails: %s%s%s" % (x["law"], b["path"][:120], b["why"][:160],
                                                          "; e.g. " + b["witness"][:160] if b["witness"] else "", about), det))
    nob = sum(x["obligations"] for x in rows)
    npr = sum(x["proved"] for x in rows)
    samp = [s for x in rows for s in [x["law"] + " " + y for y in x["sampled"]]]
    if len(rows) <= len(skipped):
        viol.append(("cut", "nothing could be analysed: function bodies do not type-check: %s" % "; ".join(cut)[:400], "\n".join(cut)))
    if len(rows) < spec.get("floor", 1):
        viol.append(("floor", "only %d laws were analysed" % len(rows), ""))
    cov = dict(explanation="Interprocedural value numbering of the type-checked program: each law calls the library's public API on "
               "symbolic components; every callee body (MIR, monomorphized) is abstractly interpreted into gated algebraic terms "
               "and both sides of the law are compared by normal form under every combination of branch conditions.",
               rule="an obligation is one component of one law under one combination of branch outcomes; it is discharged when the "
               "two normal forms coincide or the branch combination is contradictory",
               laws=len(rows), obligations=nob, discharged=npr, branch_leaves=sum(x["leaves"] for x in rows),
               undecided_by_normal_form_but_equal_at_sample_points=len(samp), functions_reached=len(reached),
               functions_called_directly=len(calls),
               samples=[dict(law=x["law"], calls=x["calls"][:4], obligations=x["obligations"]) for x in rows[:: max(1, len(rows) // 4)]][:5],
               undecided=samp[:10])
    if cut:
        print("NOT-ANALYSED: %d function bodies do not type-check and were cut (%s); %d of %d laws need them" % (
            len(cut), "; ".join(cut)[:300], len(skipped), len(rows)))
        cov.update(bodies_not_type_checking=cut, laws_not_analysed=skipped)
    if os.environ.get("VF_REACHED"):
        with open(os.environ["VF_REACHED"], "a") as f:
            for c in open(env["VF_SPANS"]).read().split():
                f.write("%s\t%s\n" % (pid, c))
    return viol, cov, ASSUME_LAWS


def check(pid):
    t0 = time.time()
    os.makedirs(vf.CACHE, exist_ok=True)
    work = tempfile.mkdtemp(prefix="work-", dir=vf.CACHE)
    try:
        if pid in registry.TABLES:
            v, c, a = decide_tables(pid, work)
        elif pid in registry.LAWS:
            v, c, a = decide_laws(pid, work, registry.LAWS[pid])
        else:
            from vlib import rules
            v, c, a = rules.decide(pid, work, TIER)
    except vf.BuildError as e:
        err = [l for l in e.text.splitlines() if l.startswith("error") or l.lstrip().startswith("--> ")][:6]
        v = [("build " + e.crate, "%s no longer type-checks against the property's laws: %s" % (e.crate, " ".join(err)[:600]), e.text[:20000])]
        c, a = dict(explanation="the crate could not be type-checked", obligations=0), []
    except Exception as e:
        v = [("internal", "the analysis failed on this tree: %r" % (e,), traceback.format_exc())]
        c, a = dict(explanation="the analysis failed", obligations=0), []
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return finish(pid, t0, v, c, a)


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        vf.driver()
        vf.deps()
        print("analyser built")
        return 0
    if a == ["--all"]:
        rc = 0
        for pid in [c["property"] for c in json.load(open(os.path.join(vf.VERIF, "MANIFEST.json")))["checks"]]:
            rc |= check(pid)
        return rc
    return check(a[0])


if __name__ == "__main__":
    sys.exit(main())
