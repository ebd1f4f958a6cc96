"""Assembles a law crate: the shared prelude plus law files instantiated per scalar type."""
import os
from . import vf
LAWS = os.path.join(vf.VERIF, "laws")
SC = {"d": ("f64", "std::f64::consts"), "f": ("f32", "std::f32::consts"), "i8": ("i8", None), "i16": ("i16", None),
      "i": ("i32", None), "i64": ("i64", None), "i128": ("i128", None), "isize": ("isize", None),
      "u8": ("u8", None), "u16": ("u16", None), "u": ("u32", None), "u64": ("u64", None), "u128": ("u128", None),
      "usize": ("usize", None)}


def crate(parts, prelude="prelude.rs"):
    """parts: [(file, scalar key)]"""
    out = ["#![feature(formatting_options, fmt_internals)] #![allow(internal_features)]" if prelude == "prelude_fmt.rs" else "", "#![allow(warnings)]", 'include!("%s/%s");' % (LAWS, prelude)]
    for f, k in parts:
        t, c = SC[k]
        out.append("pub mod %s_%s { use super::*; pub type S = %s; %s include!(\"%s/%s.rs\"); }" % (
            f, k, t, "use %s as K;" % c if c else "", LAWS, f))
    return "\n".join(out) + "\n"


def names(f, k):
    """The laws a file must contribute: literal `fn law_*` and those generated by its `un!`-style macros (`law_*:`)."""
    import re
    t = re.sub(r"//[^\n]*", "", open(os.path.join(LAWS, f + ".rs")).read())
    ns = set(re.findall(r"\bpub fn (law_\w+)", t)) | set(re.findall(r"\b(law_\w+)\s*:", t))
    return ["%s_%s::%s" % (f, k, n) for n in sorted(ns)]
