//! Cut points of the value-flow analysis: compiler intrinsics, the scalar
//! floating point primitives, the scalar approximate comparisons, and panics.
use crate::interp::*;
use crate::term::*;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::BinOp;
use rustc_public::ty::*;
use rustc_public::CrateDef;

type Args<'a> = &'a [(Blob, Ty)];

fn ga_ty(inst: Instance, i: usize) -> R<Ty> {
    let mut k = 0;
    for a in inst.args().0.iter() {
        if let GenericArgKind::Type(t) = a {
            if k == i {
                return Ok(*t);
            }
            k += 1;
        }
    }
    Err("missing type argument".into())
}

fn t(it: &mut Interp, a: &(Blob, Ty)) -> R<Id> {
    let l = leaf_of(&a.1.kind()).ok_or_else(|| format!("scalar argument expected, got {:?}", a.1))?;
    it.scalar(&a.0, l)
}

fn ret(it: &mut Interp, ret_ty: Ty, v: Id) -> R<Option<Option<Blob>>> {
    let s = it.ti(ret_ty)?.size;
    Ok(Some(Some(Blob::one(s, Val::T(v)))))
}

fn unit() -> R<Option<Option<Blob>>> {
    Ok(Some(Some(Blob::default())))
}

/// Semantics of the scalar floating point primitives over the reals.
pub fn float_fn(it: &mut Interp, m: &str, a: &[Id]) -> Option<Id> {
    let ar = &mut it.ar;
    let one = ar.rat(1, 1);
    let two = ar.rat(2, 1);
    let zero = ar.rat(0, 1);
    let nan = |ar: &Arena, x: Id| matches!(ar.n(x), Node::NaN);
    if ar.exact {
        let opaque = |ar: &mut Arena, name: &str, s| Some(ar.fun(intern_str(&format!("the_{name}")), a.to_vec(), s));
        match m {
            "log" if a.len() == 2 => {
                let n = float_fn(it, "ln", &a[..1])?;
                let d = float_fn(it, "ln", &a[1..])?;
                return Some(it.ar.div(n, d));
            }
            "fract" => {
                let t = float_fn(it, "trunc", a)?;
                return Some(it.ar.sub(a[0], t));
            }
            "is_sign_positive" => {
                let n = float_fn(it, "is_sign_negative", a)?;
                return Some(it.ar.not(n));
            }
            "signum" => {
                let c = class_of(ar, a[0], true);
                let s = float_fn(it, "copysign", &[one, a[0]])?;
                let n = it.ar.mk(Node::NaN);
                return Some(it.ar.ite(c, n, s));
            }
            "abs" | "fabs" if nan(ar, a[0]) => return Some(a[0]),
            "is_sign_negative" => return opaque(ar, m, Sort::Bool),
            "expm1" => return opaque(ar, "exp_m1", Sort::Real),
            "log1p" => return opaque(ar, "ln_1p", Sort::Real),
            "log" => return opaque(ar, "ln", Sort::Real),
            "fma" | "fmuladd" => return opaque(ar, "mul_add", Sort::Real),
            "fabs" => return opaque(ar, "abs", Sort::Real),
            "pow" => return opaque(ar, "powf", Sort::Real),
            "sqrt" | "cbrt" | "sin" | "cos" | "tan" | "asin" | "acos" | "atan" | "atan2" | "exp" | "exp2" | "exp_m1" | "ln"
            | "ln_1p" | "log2" | "log10" | "sinh" | "cosh" | "tanh" | "asinh" | "acosh" | "atanh" | "abs" | "floor" | "ceil"
            | "round" | "trunc" | "mul_add" | "hypot" | "copysign" | "to_degrees" | "to_radians" | "powi" | "powf" => {
                return opaque(ar, m, Sort::Real)
            }
            _ => {}
        }
    }
    Some(match (m, a.len()) {
        ("max" | "maxnum" | "min" | "minnum", 2) if nan(ar, a[0]) => a[1],
        ("max" | "maxnum" | "min" | "minnum", 2) if nan(ar, a[1]) => a[0],
        ("sqrt", 1) => ar.fun1("sqrt", a[0]),
        ("cbrt", 1) => ar.fun1("cbrt", a[0]),
        ("sin", 1) => ar.fun1("sin", a[0]),
        ("cos", 1) => ar.fun1("cos", a[0]),
        ("tan", 1) => {
            let s = ar.fun1("sin", a[0]);
            let c = ar.fun1("cos", a[0]);
            ar.div(s, c)
        }
        ("asin", 1) => ar.fun1("asin", a[0]),
        ("acos", 1) => ar.fun1("acos", a[0]),
        ("atan", 1) => ar.fun1("atan", a[0]),
        ("atan2", 2) => ar.fun("atan2", vec![a[0], a[1]], Sort::Real),
        ("exp", 1) => ar.fun1("exp", a[0]),
        ("exp2", 1) => {
            let l = ar.fun1("ln", two);
            let p = ar.mul(a[0], l);
            ar.fun1("exp", p)
        }
        ("exp_m1" | "expm1", 1) => {
            let e = ar.fun1("exp", a[0]);
            ar.sub(e, one)
        }
        ("ln" | "log", 1) => ar.fun1("ln", a[0]),
        ("ln_1p" | "log1p", 1) => {
            let p = ar.add(one, a[0]);
            ar.fun1("ln", p)
        }
        ("log", 2) => {
            let n = ar.fun1("ln", a[0]);
            let d = ar.fun1("ln", a[1]);
            ar.div(n, d)
        }
        ("log2", 1) => {
            let n = ar.fun1("ln", a[0]);
            let d = ar.fun1("ln", two);
            ar.div(n, d)
        }
        ("log10", 1) => {
            let ten = ar.rat(10, 1);
            let n = ar.fun1("ln", a[0]);
            let d = ar.fun1("ln", ten);
            ar.div(n, d)
        }
        ("sinh" | "cosh" | "tanh", 1) => {
            let p = ar.fun1("exp", a[0]);
            let n = ar.neg(a[0]);
            let q = ar.fun1("exp", n);
            let d = ar.sub(p, q);
            let s = ar.add(p, q);
            match m {
                "sinh" => ar.div(d, two),
                "cosh" => ar.div(s, two),
                _ => ar.div(d, s),
            }
        }
        ("asinh", 1) => {
            let x2 = ar.mul(a[0], a[0]);
            let p = ar.add(x2, one);
            let r = ar.fun1("sqrt", p);
            let s = ar.add(a[0], r);
            ar.fun1("ln", s)
        }
        ("acosh", 1) => {
            let x2 = ar.mul(a[0], a[0]);
            let p = ar.sub(x2, one);
            let r = ar.fun1("sqrt", p);
            let s = ar.add(a[0], r);
            ar.fun1("ln", s)
        }
        ("atanh", 1) => {
            let n = ar.add(one, a[0]);
            let d = ar.sub(one, a[0]);
            let q = ar.div(n, d);
            let l = ar.fun1("ln", q);
            ar.div(l, two)
        }
        ("abs" | "fabs", 1) => ar.fun1("abs", a[0]),
        ("abs_sub", 2) => {
            let c = ar.cmp(COp::Le, a[0], a[1]);
            let d = ar.sub(a[0], a[1]);
            ar.ite(c, zero, d)
        }
        ("floor", 1) => ar.fun1("floor", a[0]),
        ("ceil", 1) => ar.fun1("ceil", a[0]),
        ("round", 1) => ar.fun1("round", a[0]),
        ("round_ties_even" | "rint" | "nearbyint", 1) => ar.fun1("rint", a[0]),
        ("trunc", 1) => ar.fun1("trunc", a[0]),
        ("fract", 1) => {
            let t = ar.fun1("trunc", a[0]);
            ar.sub(a[0], t)
        }
        ("recip", 1) => ar.div(one, a[0]),
        ("mul_add" | "fma" | "fmuladd", 3) => {
            let p = ar.mul(a[0], a[1]);
            ar.add(p, a[2])
        }
        ("hypot", 2) => {
            let x = ar.mul(a[0], a[0]);
            let y = ar.mul(a[1], a[1]);
            let s = ar.add(x, y);
            ar.fun1("sqrt", s)
        }
        ("max" | "maxnum", 2) => {
            let c = ar.cmp(COp::Lt, a[0], a[1]);
            ar.ite(c, a[1], a[0])
        }
        ("min" | "minnum", 2) => {
            let c = ar.cmp(COp::Lt, a[1], a[0]);
            ar.ite(c, a[1], a[0])
        }
        ("copysign", 2) => {
            let x = ar.fun1("abs", a[0]);
            let n = ar.neg(x);
            let c = ar.cmp(COp::Lt, a[1], zero);
            ar.ite(c, n, x)
        }
        ("signum", 1) if ar.spreads && nan(ar, a[0]) => a[0],
        ("signum", 1) => {
            let m1 = ar.rat(-1, 1);
            let c = ar.cmp(COp::Lt, a[0], zero);
            ar.ite(c, m1, one)
        }
        ("is_sign_positive", 1) => ar.cmp(COp::Le, zero, a[0]),
        ("is_sign_negative", 1) => ar.cmp(COp::Lt, a[0], zero),
        ("is_nan", 1) => class_of(ar, a[0], true),
        ("is_infinite", 1) => class_of(ar, a[0], false),
        ("is_finite", 1) => {
            let (n, i) = (class_of(ar, a[0], true), class_of(ar, a[0], false));
            let f = ar.boolean(false);
            let ni = ar.not(i);
            ar.ite(n, f, ni)
        }
        ("is_normal", 1) => ar.fun("is_normal", vec![a[0]], Sort::Bool),
        ("is_subnormal", 1) => ar.fun("is_subnormal", vec![a[0]], Sort::Bool),
        ("to_degrees", 1) => {
            let pi = ar.mk(Node::Konst("pi"));
            let h = ar.rat(180, 1);
            let k = ar.div(h, pi);
            ar.mul(a[0], k)
        }
        ("to_radians", 1) => {
            let pi = ar.mk(Node::Konst("pi"));
            let h = ar.rat(180, 1);
            let k = ar.div(pi, h);
            ar.mul(a[0], k)
        }
        ("powi", 2) => match ar.as_int(a[1]) {
            Some(n) if n.abs() <= 64 => pow_int(ar, a[0], n),
            _ => ar.fun("powi", vec![a[0], a[1]], Sort::Real),
        },
        ("powf" | "pow", 2) => match ar.as_rat(a[1]) {
            Some((n, 1)) if n.abs() <= 64 => pow_int(ar, a[0], n),
            Some((1, 2)) => ar.fun1("sqrt", a[0]),
            _ => ar.fun("powf", vec![a[0], a[1]], Sort::Real),
        },
        ("clamp", 3) => {
            let lo = ar.cmp(COp::Lt, a[0], a[1]);
            let x = ar.ite(lo, a[1], a[0]);
            let hi = ar.cmp(COp::Lt, a[2], x);
            ar.ite(hi, a[2], x)
        }
        _ => return None,
    })
}

fn is_inf(ar: &Arena, x: Id) -> bool {
    match ar.n(x) {
        Node::Inf => true,
        Node::Neg(y) => is_inf(ar, *y),
        _ => false,
    }
}

pub fn pow_int(ar: &mut Arena, x: Id, n: i128) -> Id {
    let one = ar.rat(1, 1);
    let mut r = one;
    for _ in 0..n.abs() {
        r = ar.mul(r, x);
    }
    if n < 0 {
        ar.div(one, r)
    } else {
        r
    }
}

/// Last path segment without generic arguments.
fn last_seg(name: &str) -> &str {
    let mut s = name;
    if s.ends_with('>') {
        // strip trailing generic args "::<...>"
        let mut d = 0i32;
        for (i, c) in s.char_indices().rev() {
            match c {
                '>' => d += 1,
                '<' => {
                    d -= 1;
                    if d == 0 {
                        s = &s[..i];
                        break;
                    }
                }
                _ => {}
            }
        }
        s = s.trim_end_matches("::");
    }
    match s.rfind("::") {
        Some(i) => &s[i + 2..],
        None => s,
    }
}

/// The name under which the law crate may stand in for a formatting function of the standard library.
pub fn shim_name(name: &str) -> Option<String> {
    let seg = last_seg(name);
    if name == "core::fmt::write" || name == "std::fmt::write" {
        return Some("write".into());
    }
    if let Some(i) = name.find(" as std::fmt::Display>::fmt") {
        return Some(format!("display_{}", &name[1..i]));
    }
    if let Some(i) = name.find("impl std::fmt::Display for ") {
        return Some(format!("display_{}", name[i + 27..].split('>').next().unwrap_or("")));
    }
    if name.contains("fmt::format::format_inner") {
        return Some("format".into());
    }
    if seg.ends_with("to_string") {
        return name.find(" as std::string::").map(|i| format!("to_string_{}", &name[1..i]));
    }
    if name.contains("fmt::Formatter") {
        return Some(format!("formatter_{seg}"));
    }
    None
}

pub fn hook(it: &mut Interp, inst: Instance, name: &str, args: Args, ret_ty: Ty) -> R<Option<Option<Blob>>> {
    if let Some(i) = inst.intrinsic_name() {
        if let Some(r) = intrinsic(it, inst, &i, args, ret_ty)? {
            return Ok(Some(r));
        }
        return Ok(None);
    }
    let krate = inst.def.krate().name;
    let seg = last_seg(name);
    if krate == "laws" {
        if let Some(r) = marker(it, seg, args, ret_ty)? {
            return Ok(Some(r));
        }
    }
    // panics
    if (krate == "core" || krate == "std" || krate == "alloc")
        && (name.contains("panicking::") || name.contains("begin_panic") || name.contains("unwrap_failed")
            || name.contains("expect_failed") || name.contains("slice_index_fail") || name.contains("_index_len_fail")
            || name.contains("index_order_fail") || name.contains("copy_from_slice_impl::len_mismatch_fail")
            || name.contains("len_mismatch_fail"))
    {
        it.record_panic(seg);
        return Ok(Some(None));
    }
    if krate == "core" && it.shims.is_empty() && (name.contains("fmt::Arguments") || name.contains("fmt::rt::Argument")) {
        // message construction: irrelevant to the value flow
        return Ok(Some(Some(Blob::default())));
    }
    // heap memory: every allocation is a fresh object
    match seg {
        "__rust_no_alloc_shim_is_unstable_v2" | "__rust_dealloc" if krate == "alloc" => return unit(),
        "__rust_alloc" if krate == "alloc" => {
            let a = it.fresh_alloc();
            return Ok(Some(Some(Blob::one(8, Val::Ptr(a, 0)))));
        }
        "__rust_realloc" if krate == "alloc" => return Ok(Some(Some(Blob::one(8, it.blob_ptr(&args[0].0)?)))),
        "total_cmp" if krate == "core" && (name.contains("<impl f64>") || name.contains("<impl f32>")) => {
            let a = it.deref_scalar(&args[0].0, args[0].1)?.0;
            let b = it.deref_scalar(&args[1].0, args[1].1)?.0;
            let s = Sort::Int { bits: 8, signed: true };
            let (m, z, o) = (it.ar.int(-1, s), it.ar.int(0, s), it.ar.int(1, s));
            let lt = it.ar.cmp(COp::Lt, a, b);
            let eq = it.ar.cmp(COp::Eq, a, b);
            let r = it.ar.ite(eq, z, o);
            let r = it.ar.ite(lt, m, r);
            return ret(it, ret_ty, r);
        }
        _ => {}
    }
    if krate == "core" && name.contains("ub_checks") {
        return unit();
    }
    // scalar floating point primitives
    let is_num_float = krate == "num_traits"
        && (name.contains("num_traits::Float") || name.contains("num_traits::real::Real") || name.contains("FloatCore")
            || name.contains("num_traits::float::Float"));
    let is_inherent = (krate == "std" || krate == "core")
        && (name.contains("<impl f64>") || name.contains("<impl f32>") || name.contains("f64::math") || name.contains("f32::math"));
    let is_libm = krate == "libm";
    if is_num_float || is_inherent || is_libm {
        let seg2 = if is_libm && seg.ends_with('f') && !["exp2f", "log1pf"].contains(&seg) && float_name(&seg[..seg.len() - 1]) {
            &seg[..seg.len() - 1]
        } else {
            seg
        };
        if seg2 == "sin_cos" || seg2 == "sincos" {
            let x = t(it, &args[0])?;
            let s = float_fn(it, "sin", &[x]).ok_or("sin")?;
            let c = float_fn(it, "cos", &[x]).ok_or("cos")?;
            let ti = it.ti(ret_ty)?;
            let fs = it.fields(&ti, 0)?;
            let sz = it.ti(fs[0].1)?.size;
            return Ok(Some(Some(Blob(vec![(fs[0].0, sz, Val::T(s)), (fs[1].0, sz, Val::T(c))]))));
        }
        if float_name(seg2) {
            let mut xs = vec![];
            for a in args {
                xs.push(it.deref_scalar(&a.0, a.1)?.0);
            }
            if let Some(r) = float_fn(it, seg2, &xs) {
                return ret(it, ret_ty, r);
            }
        }
    }
    // num_traits::Signed on floats: abs/signum/is_positive/is_negative
    if krate == "num_traits" && name.contains("Signed") && (name.contains("f64") || name.contains("f32")) {
        let m = match seg {
            "abs" | "signum" => seg,
            "is_positive" => "is_sign_positive",
            "is_negative" => "is_sign_negative",
            _ => "",
        };
        if !m.is_empty() {
            let x = it.deref_scalar(&args[0].0, args[0].1)?.0;
            if let Some(r) = float_fn(it, m, &[x]) {
                return ret(it, ret_ty, r);
            }
        }
    }
    // scalar approximate comparisons: uninterpreted predicates
    if krate == "approx_cmp" {
        let all_ref_scalar = args.iter().all(|a| match a.1.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, p, _)) => leaf_of(&p.kind()).is_some(),
            _ => false,
        });
        let base = match seg {
            "abs_diff_eq" | "abs_diff_ne" => Some(("abs_diff_eq", seg.ends_with("ne"))),
            "relative_eq" | "relative_ne" => Some(("relative_eq", seg.ends_with("ne"))),
            "ulps_eq" | "ulps_ne" => Some(("ulps_eq", seg.ends_with("ne"))),
            "abs_diff_all_eq" | "abs_diff_all_ne" => Some(("abs_diff_eq", seg.ends_with("ne"))),
            "relative_all_eq" | "relative_all_ne" => Some(("relative_eq", seg.ends_with("ne"))),
            "ulps_all_eq" | "ulps_all_ne" => Some(("ulps_eq", seg.ends_with("ne"))),
            "debug_abs_diff" | "debug_abs_diff_tolerance" | "debug_relative_tolerance"
            | "debug_ulps_tolerance" | "debug_abs_diff_all_tolerance" | "debug_relative_all_tolerance"
            | "debug_ulps_all_tolerance" => Some((intern_str(&seg.replace("_all", "")), false)),
            _ => None,
        };
        if let (Some((b, negate)), true) = (base, all_ref_scalar) {
            let mut xs = vec![];
            for a in args {
                xs.push(it.deref_scalar(&a.0, a.1)?.0);
            }
            // every scalar comparison is symmetric in the compared values
            if xs.len() >= 2 && xs[0] > xs[1] {
                xs.swap(0, 1);
            }
            let rl = leaf_of(&ret_ty.kind()).ok_or("comparison result")?;
            let mut r = it.ar.fun(b, xs, rl.sort());
            if negate {
                r = it.ar.not(r);
            }
            return ret(it, ret_ty, r);
        }
    }
    Ok(None)
}

/// The vocabulary of the law files.
fn marker(it: &mut Interp, seg: &str, args: Args, ret_ty: Ty) -> R<Option<Option<Blob>>> {
    match seg {
        "same" => {
            let mut out = vec![];
            let gates = it.pc.clone();
            it.pair_goals(args[0].1, &args[0].0, &args[1].0, "", &gates, &mut out)?;
            let group = it.site.map_or(0, crate::interp::site_of);
            let n = it.guards.len();
            for (path, gates, goal) in out {
                it.obligations.push(Obligation { path, gates, nguards: n, goal, group });
            }
            Ok(Some(Some(Blob::default())))
        }
        "holds" | "never" => {
            let c = if seg == "never" { it.ar.boolean(false) } else { t(it, &args[0])? };
            let group = it.site.map_or(0, crate::interp::site_of);
            let n = it.guards.len();
            let gates = it.pc.clone();
            it.obligations.push(Obligation {
                path: seg.to_string(),
                gates,
                nguards: n,
                goal: crate::nf::Goal::True(c),
                group,
            });
            Ok(Some(Some(Blob::default())))
        }
        "assume" => {
            let c = t(it, &args[0])?;
            it.guard(c, true);
            Ok(Some(Some(Blob::default())))
        }
        "may_panic" => {
            it.may_panic = true;
            Ok(Some(Some(Blob::default())))
        }
        "spreading" => {
            it.ar.spreads = true;
            it.ar.ordinary = true;
            Ok(Some(Some(Blob::default())))
        }
        "exactly" => {
            it.ar.exact = true;
            Ok(Some(Some(Blob::default())))
        }
        "is_address" => {
            let b = matches!(args[0].0.get(0), Some((_, _, Val::Ptr(..))));
            let b = it.ar.boolean(b);
            ret(it, ret_ty, b)
        }
        "uf1" | "uf2" | "uf3" | "text_of" => {
            let mut xs = vec![];
            for a in args {
                xs.push(it.deref_scalar(&a.0, a.1)?.0);
            }
            let l = leaf_of(&ret_ty.kind()).ok_or("uf result")?;
            let name = intern_str(seg);
            let r = it.ar.fun(name, xs, l.sort());
            ret(it, ret_ty, r).map(|x| x)
        }
        _ => Ok(None),
    }
}

fn float_name(s: &str) -> bool {
    matches!(
        s,
        "sqrt" | "cbrt" | "sin" | "cos" | "tan" | "asin" | "acos" | "atan" | "atan2" | "exp" | "exp2" | "exp_m1" | "expm1"
            | "ln" | "log" | "ln_1p" | "log1p" | "log2" | "log10" | "sinh" | "cosh" | "tanh" | "asinh" | "acosh" | "atanh"
            | "abs" | "fabs" | "abs_sub" | "floor" | "ceil" | "round" | "round_ties_even" | "rint" | "trunc" | "fract"
            | "recip" | "mul_add" | "fma" | "hypot" | "max" | "min" | "copysign" | "signum" | "is_sign_positive"
            | "is_sign_negative" | "is_nan" | "is_infinite" | "is_finite" | "is_normal" | "is_subnormal" | "to_degrees"
            | "to_radians" | "powi" | "powf" | "pow" | "clamp"
    )
}

fn intrinsic(it: &mut Interp, inst: Instance, name: &str, args: Args, ret_ty: Ty) -> R<Option<Option<Blob>>> {
    let k = |it: &mut Interp, i: usize| t(it, &args[i]);
    match name {
        "size_of" | "size_of_val" => {
            let mut ty = ga_ty(inst, 0)?;
            if name == "size_of_val" {
                if let (TyKind::RigidTy(RigidTy::Slice(e)), Some((_, _, Val::T(n)))) = (ty.kind(), args[0].0.get(8)) {
                    let es = it.ti(e)?.size as i128;
                    let n = it.ar.as_int(*n).ok_or("symbolic slice length")?;
                    let v = it.ar.usize_(n * es);
                    return ret(it, ret_ty, v);
                }
                if let (TyKind::RigidTy(RigidTy::Dynamic(..)), Some((_, _, Val::Vt(t)))) = (ty.kind(), args[0].0.get(8)) {
                    ty = *t;
                }
                if let TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str | RigidTy::Dynamic(..)) = ty.kind() {
                    return Err("size of unsized value".into());
                }
            }
            let s = it.ti(ty)?.size;
            let v = it.ar.usize_(s as i128);
            return ret(it, ret_ty, v);
        }
        "align_of" | "min_align_of" | "pref_align_of" | "align_of_val" | "min_align_of_val" => {
            let ty = ga_ty(inst, 0)?;
            let s = it.ti(ty)?.shape.abi_align;
            let v = it.ar.usize_(s as i128);
            return ret(it, ret_ty, v);
        }
        "needs_drop" => {
            let v = it.ar.boolean(false);
            return ret(it, ret_ty, v);
        }
        "likely" | "unlikely" | "black_box" => return Ok(Some(Some(args[0].0.clone()))),
        "assert_zero_valid" | "assert_mem_uninitialized_valid" if it.audit => {
            let ty = ga_ty(inst, 0)?;
            if it.has_niche(ty, name == "assert_mem_uninitialized_valid")? {
                return Err(format!("UB: a {} value of type {ty}", if name == "assert_zero_valid" { "zeroed" } else { "uninitialised" }));
            }
            return unit();
        }
        "assume" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path" | "forget" => {
            return unit()
        }
        "ub_checks" | "contract_checks" | "overflow_checks" | "is_val_statically_known" => {
            let v = it.ar.boolean(false);
            return ret(it, ret_ty, v);
        }
        "caller_location" => return Ok(Some(Some(Blob::one(8, Val::Opaque)))),
        "type_id" | "type_name" => return Err(format!("intrinsic {name}")),
        "abort" | "unreachable" => {
            if name == "abort" {
                it.record_panic("abort");
            } else if it.audit && it.pc.is_empty() {
                return Err("UB: reaching unreachable_unchecked".into());
            }
            return Ok(Some(None));
        }
        "transmute" | "transmute_unchecked" => return Ok(Some(Some(args[0].0.clone()))),
        "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
            let p = it.ptr_of(&args[0].0)?;
            let b = it.read_at(&p, ret_ty)?;
            return Ok(Some(Some(b)));
        }
        "write_via_move" | "volatile_store" => {
            let p = it.ptr_of(&args[0].0)?;
            it.write_at(&p, args[1].1, &args[1].0)?;
            return unit();
        }
        "typed_swap_nonoverlapping" => {
            let ty = ga_ty(inst, 0)?;
            let p = it.ptr_of(&args[0].0)?;
            let q = it.ptr_of(&args[1].0)?;
            let a = it.read_at(&p, ty)?;
            let b = it.read_at(&q, ty)?;
            it.write_at(&p, ty, &b)?;
            it.write_at(&q, ty, &a)?;
            return unit();
        }
        "copy" | "copy_nonoverlapping" => {
            let ty = ga_ty(inst, 0)?;
            let n = k(it, 2)?;
            it.mem_copy(&args[0].0, &args[1].0, n, ty)?;
            return unit();
        }
        "write_bytes" => {
            let ty = ga_ty(inst, 0)?;
            let v = k(it, 1)?;
            let n = k(it, 2)?;
            let n = it.ar.as_int(n).ok_or("symbolic memset length")?;
            if it.ar.as_int(v) != Some(0) {
                return Err("memset with non-zero byte".into());
            }
            let p = it.ptr_of(&args[0].0)?;
            let mut b = Blob::default();
            it.zero_blob(ty, 0, &mut b)?;
            let es = it.ti(ty)?.size as i64;
            for i in 0..n as i64 {
                let q = it.padd(&p, i * es)?;
                it.write_at(&q, ty, &b)?;
            }
            return unit();
        }
        "offset" | "arith_offset" => {
            let pointee = match args[0].1.kind() {
                TyKind::RigidTy(RigidTy::RawPtr(t, _)) => t,
                _ => return Err("offset of non-pointer".into()),
            };
            let es = it.ti(pointee)?.size as i64;
            let n = k(it, 1)?;
            let p = it.ptr_of(&args[0].0)?;
            let r = it.pindex(&p, n, es)?;
            return Ok(Some(Some(Blob::one(8, r))));
        }
        "slice_get_unchecked" => {
            // (slice ptr/ref, index) -> element ptr/ref
            let elem = match ret_ty.kind() {
                TyKind::RigidTy(RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _)) => t,
                _ => return Err("slice_get_unchecked".into()),
            };
            let es = it.ti(elem)?.size as i64;
            let n = k(it, 1)?;
            let p = it.ptr_of(&args[0].0)?;
            let r = it.pindex(&p, n, es)?;
            return Ok(Some(Some(Blob::one(8, r))));
        }
        "ptr_offset_from" | "ptr_offset_from_unsigned" => {
            let ty = ga_ty(inst, 0)?;
            let es = it.ti(ty)?.size as i64;
            match (it.ptr_of(&args[0].0)?, it.ptr_of(&args[1].0)?) {
                (Val::Ptr(a, x), Val::Ptr(b, y)) if a == b && es > 0 => {
                    let l = leaf_of(&ret_ty.kind()).unwrap();
                    let v = it.ar.int(((x - y) / es) as i128, l.sort());
                    return ret(it, ret_ty, v);
                }
                _ => return Err("pointer difference".into()),
            }
        }
        "ptr_guaranteed_cmp" => return Err("ptr_guaranteed_cmp".into()),
        "ptr_metadata" => {
            let b = &args[0].0;
            for x in &b.0 {
                if x.0 == 8 {
                    return Ok(Some(Some(Blob::one(8, x.2.clone()))));
                }
            }
            return unit();
        }
        "aggregate_raw_ptr" => {
            let p = it.ptr_of(&args[0].0)?;
            let mut b = Blob::one(8, p);
            if let Some(x) = args[1].0 .0.iter().find(|x| x.0 == 0) {
                b.0.push((8, 8, x.2.clone()));
            }
            return Ok(Some(Some(b)));
        }
        "discriminant_value" => {
            let ty = ga_ty(inst, 0)?;
            let p = it.ptr_of(&args[0].0)?;
            let b = it.read_at(&p, ty)?;
            let ti = it.ti(ty)?;
            let v = it.variant_blob(&ti, &b)?;
            if let Val::T(id) = v {
                let l = leaf_of(&ret_ty.kind()).unwrap();
                if let TyKind::RigidTy(RigidTy::Adt(def, _)) = &ti.kind {
                    let n = def.num_variants();
                    let mut acc = None;
                    for i in (0..n).rev() {
                        let d = it.ar.int(def.discriminant_for_variant(vidx(i)).val as i128, l.sort());
                        acc = Some(match acc {
                            None => d,
                            Some(r) => {
                                let iv = it.ar.usize_(i as i128);
                                let c = it.ar.cmp(COp::Eq, id, iv);
                                it.ar.ite(c, d, r)
                            }
                        });
                    }
                    return ret(it, ret_ty, acc.unwrap());
                }
            }
            return Err("discriminant_value".into());
        }
        "three_way_compare" => {
            let a = k(it, 0)?;
            let b = k(it, 1)?;
            let s = Sort::Int { bits: 8, signed: true };
            let m = it.ar.int(-1, s);
            let z = it.ar.int(0, s);
            let o = it.ar.int(1, s);
            let lt = it.ar.cmp(COp::Lt, a, b);
            let eq = it.ar.cmp(COp::Eq, a, b);
            let r = it.ar.ite(eq, z, o);
            let r = it.ar.ite(lt, m, r);
            return ret(it, ret_ty, r);
        }
        "const_eval_select" => {
            // at run time the third argument is called with the argument tuple
            let fty = args[2].1;
            if let TyKind::RigidTy(RigidTy::FnDef(d, ga)) = fty.kind() {
                let target = Instance::resolve(d, &ga).map_err(|e| format!("{e:?}"))?;
                let tt = args[0].1;
                let ti = it.ti(tt)?;
                let fs = it.fields(&ti, 0)?;
                let mut av = vec![];
                for (o, fty) in fs {
                    let sz = it.ti(fty)?.size as i64;
                    let b = Blob(
                        args[0].0 .0.iter().filter(|x| x.0 >= o && x.0 < o + sz).map(|x| (x.0 - o, x.1, x.2.clone())).collect(),
                    );
                    av.push((b, fty));
                }
                return Ok(Some(it.call_inst(target, av, ret_ty, false)?));
            }
            return Err("const_eval_select".into());
        }
        "raw_eq" => {
            let ty = ga_ty(inst, 0)?;
            let (p, q) = (it.ptr_of(&args[0].0)?, it.ptr_of(&args[1].0)?);
            let (a, b) = (it.read_at(&p, ty)?, it.read_at(&q, ty)?);
            if a.0.len() != b.0.len() {
                return Err("raw_eq on differently split values".into());
            }
            let mut r = it.ar.boolean(true);
            for (x, y) in a.0.iter().zip(b.0.iter()) {
                match (&x.2, &y.2) {
                    (Val::T(i), Val::T(j)) if x.0 == y.0 && x.1 == y.1 => {
                        let e = it.ar.cmp(COp::Eq, *i, *j);
                        let no = it.ar.boolean(false); r = it.ar.ite(r, e, no);
                    }
                    _ => return Err("raw_eq on non-scalar pieces".into()),
                }
            }
            return ret(it, ret_ty, r);
        }
        "compare_bytes" => return Err(format!("intrinsic {name}")),
        _ => {}
    }
    // integer arithmetic
    let bin = |s: &str| -> Option<(BOp, bool)> {
        Some(match s {
            "wrapping_add" | "unchecked_add" => (BOp::Add, false),
            "wrapping_sub" | "unchecked_sub" => (BOp::Sub, false),
            "wrapping_mul" | "unchecked_mul" => (BOp::Mul, false),
            "unchecked_div" | "exact_div" => (BOp::Div, false),
            "unchecked_rem" => (BOp::Rem, false),
            "unchecked_shl" => (BOp::Shl, false),
            "unchecked_shr" => (BOp::Shr, false),
            "add_with_overflow" => (BOp::Add, true),
            "sub_with_overflow" => (BOp::Sub, true),
            "mul_with_overflow" => (BOp::Mul, true),
            "fadd_fast" | "fadd_algebraic" => (BOp::Add, false),
            "fsub_fast" | "fsub_algebraic" => (BOp::Sub, false),
            "fmul_fast" | "fmul_algebraic" => (BOp::Mul, false),
            "fdiv_fast" | "fdiv_algebraic" => (BOp::Div, false),
            _ => return None,
        })
    };
    if let Some((op, ovf)) = bin(name) {
        let a = k(it, 0)?;
        let b = k(it, 1)?;
        let r = it.ar.bin(op, a, b);
        if !ovf {
            return ret(it, ret_ty, r);
        }
        let o = match (it.ar.as_int(a), it.ar.as_int(b)) {
            (Some(x), Some(y)) => {
                let v = match op {
                    BOp::Add => x.wrapping_add(y),
                    BOp::Sub => x.wrapping_sub(y),
                    _ => x.wrapping_mul(y),
                };
                Arena::wrap(v, it.ar.sort(a)) != v
            }
            _ => false,
        };
        let o = it.ar.boolean(o);
        let ti = it.ti(ret_ty)?;
        let fs = it.fields(&ti, 0)?;
        let s0 = it.ti(fs[0].1)?.size;
        return Ok(Some(Some(Blob(vec![(fs[0].0, s0, Val::T(r)), (fs[1].0, 1, Val::T(o))]))));
    }
    if name == "saturating_add" || name == "saturating_sub" {
        let a = k(it, 0)?;
        let b = k(it, 1)?;
        if let (Some(x), Some(y)) = (it.ar.as_int(a), it.ar.as_int(b)) {
            let s = it.ar.sort(a);
            let v = if name == "saturating_add" { x + y } else { x - y };
            let (lo, hi) = match s {
                Sort::Int { bits, signed: true } => (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1),
                Sort::Int { bits, .. } if bits < 127 => (0, (1i128 << bits) - 1),
                _ => return Err(name.to_string()),
            };
            let r = it.ar.int(v.clamp(lo, hi), s);
            return ret(it, ret_ty, r);
        }
        return Err("symbolic saturating arithmetic".into());
    }
    if matches!(name, "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero") {
        let a = k(it, 0)?;
        if let (Some(x), Sort::Int { bits, .. }) = (it.ar.as_int(a), it.ar.sort(a)) {
            let u = (x as u128) & if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
            let v = match name {
                "ctpop" => u.count_ones(),
                "cttz" | "cttz_nonzero" => u.trailing_zeros().min(bits as u32),
                _ => u.leading_zeros() - (128 - bits as u32),
            };
            let l = leaf_of(&ret_ty.kind()).unwrap();
            let r = it.ar.int(v as i128, l.sort());
            return ret(it, ret_ty, r);
        }
        return Err(format!("symbolic {name}"));
    }
    // float intrinsics: strip the f32/f64 suffix
    let base = name.strip_suffix("f64").or_else(|| name.strip_suffix("f32")).unwrap_or(name);
    let base = base.strip_suffix("_nsz").or_else(|| base.strip_suffix("_number_nsz")).unwrap_or(base);
    let base = base.trim_end_matches('_');
    let base = match base {
        "maximum_number" | "maxnum" | "maximum" => "max",
        "minimum_number" | "minnum" | "minimum" => "min",
        b => b,
    };
    let all_float = !args.is_empty()
        && matches!(leaf_of(&args[0].1.kind()), Some(Leaf::F32 | Leaf::F64));
    if all_float {
        let mut xs = vec![];
        for i in 0..args.len() {
            xs.push(k(it, i)?);
        }
        if name == "float_to_int_unchecked" {
            let l = leaf_of(&ret_ty.kind()).unwrap();
            let r = it.r2i(xs[0], l.sort());
            return ret(it, ret_ty, r);
        }
        let base = if base == "log" { "ln" } else { base };
        if let Some(r) = float_fn(it, base, &xs) {
            return ret(it, ret_ty, r);
        }
    }
    let _ = BinOp::Add;
    if inst.has_body() {
        return Ok(None);
    }
    Err(format!("unmodelled intrinsic {name}"))
}

/// Is the value not a number (or infinite)? Inputs may be either; a result computed from them is taken to be an
/// ordinary number, since the rule is about exact arithmetic, unless it is built from a literal of that kind.
fn class_of(ar: &mut Arena, t: Id, nan: bool) -> Id {
    match ar.n(t).clone() {
        Node::NaN => ar.boolean(nan),
        Node::Inf => ar.boolean(!nan),
        Node::Rat(..) | Node::Konst(_) | Node::KBits(_) | Node::Int(..) => ar.boolean(false),
        Node::Neg(x) => class_of(ar, x, nan),
        Node::Ite(c, x, y) => {
            let (x, y) = (class_of(ar, x, nan), class_of(ar, y, nan));
            ar.ite(c, x, y)
        }
        Node::Fun("abs", v, _) => class_of(ar, v[0], nan),
        Node::Sym(..) if ar.ordinary => ar.boolean(false),
        Node::Sym(..) => ar.fun(if nan { "is_nan" } else { "is_infinite" }, vec![t], Sort::Bool),
        // a conditional below may have a branch that is not a number, and arithmetic passes that on
        Node::Bin(_, x, y) if ar.ordinary && nan && ar.sort(t) == Sort::Real => either(ar, &[x, y]),
        Node::Fun(_, v, Sort::Real) if ar.ordinary && nan => either(ar, &v),
        _ => ar.boolean(false),
    }
}

/// Is one of the operands not a number?
fn either(ar: &mut Arena, v: &[Id]) -> Id {
    let mut r = ar.boolean(false);
    for x in v {
        if ar.sort(*x) == Sort::Real && ar.gated(*x) {
            let (t, c) = (ar.boolean(true), class_of(ar, *x, true));
            r = ar.ite(c, t, r);
        }
    }
    r
}
