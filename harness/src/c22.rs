//! C22: dual numbers carry the plain value and the exact first derivative.
use crate::c11::dt;
use crate::fw::Mc;
use crate::num::{fpartial, lib_fn, D, E};
use crate::tree::*;
use num_traits::{Bounded, Float, FloatConst, FromPrimitive, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::sync::Arc;
use symb_anafis::{symb, Diff, Dual, MathScalar};

pub const UN: &[&str] = &[
    "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "ln", "log2", "log10", "sqrt", "cbrt", "abs", "signum", "floor", "ceil", "round", "trunc",
    "fract", "recip", "exp2", "to_degrees", "to_radians", "exp_m1", "ln_1p", "sin_cos.0", "sin_cos.1", "powi:-3", "powi:-2", "powi:-1", "powi:0", "powi:1", "powi:2", "powi:3", "powi:4", "Signed::abs", "Signed::signum", "neg",
];
pub const SPECIAL: &[&str] = &[
    "erf", "erfc", "gamma", "digamma", "trigamma", "lambertw", "zeta", "sinc", "sign", "elliptic_k", "elliptic_e", "polygamma:0", "polygamma:1", "polygamma:2", "polygamma:3", "polygamma:4", "besselj:-2",
    "besselj:-1", "besselj:0", "besselj:1", "besselj:2", "besselj:3",
];
pub const BIN: &[&str] = &["+", "-", "*", "/", "%", "+=", "-=", "*=", "/=", "%=", "powf", "log", "hypot", "atan2", "max", "min", "abs_sub", "copysign", "mul_add.0", "mul_add.1"];

fn un<S: MathScalar>(f: &str, a: S) -> Option<S> {
    Some(match f {
        "sin" => Float::sin(a),
        "cos" => Float::cos(a),
        "tan" => Float::tan(a),
        "asin" => Float::asin(a),
        "acos" => Float::acos(a),
        "atan" => Float::atan(a),
        "sinh" => Float::sinh(a),
        "cosh" => Float::cosh(a),
        "tanh" => Float::tanh(a),
        "asinh" => Float::asinh(a),
        "acosh" => Float::acosh(a),
        "atanh" => Float::atanh(a),
        "exp" => Float::exp(a),
        "ln" => Float::ln(a),
        "log2" => Float::log2(a),
        "log10" => Float::log10(a),
        "sqrt" => Float::sqrt(a),
        "cbrt" => Float::cbrt(a),
        "abs" => Float::abs(a),
        "signum" => Float::signum(a),
        "floor" => Float::floor(a),
        "ceil" => Float::ceil(a),
        "round" => Float::round(a),
        "trunc" => Float::trunc(a),
        "fract" => Float::fract(a),
        "recip" => Float::recip(a),
        "to_degrees" => Float::to_degrees(a),
        "to_radians" => Float::to_radians(a),
        "exp2" => Float::exp2(a),
        "exp_m1" => Float::exp_m1(a),
        "ln_1p" => Float::ln_1p(a),
        "sin_cos.0" => Float::sin_cos(a).0,
        "sin_cos.1" => Float::sin_cos(a).1,
        "Signed::abs" => Signed::abs(&a),
        "Signed::signum" => Signed::signum(&a),
        "neg" => -a,
        _ => Float::powi(a, f.strip_prefix("powi:")?.parse().ok()?),
    })
}

fn bin<S: MathScalar>(f: &str, a: S, b: S) -> Option<S> {
    let mut c = a;
    Some(match f {
        "+" => a + b,
        "-" => a - b,
        "*" => a * b,
        "/" => a / b,
        "%" => a % b,
        "+=" => {
            c += b;
            c
        }
        "-=" => {
            c -= b;
            c
        }
        "*=" => {
            c *= b;
            c
        }
        "/=" => {
            c /= b;
            c
        }
        "%=" => {
            c %= b;
            c
        }
        "powf" => Float::powf(a, b),
        "log" => Float::log(a, b),
        "hypot" => Float::hypot(a, b),
        "atan2" => Float::atan2(a, b),
        "max" => Float::max(a, b),
        "min" => Float::min(a, b),
        "copysign" => Float::copysign(a, b),
        "abs_sub" => Signed::abs_sub(&a, &b),
        "mul_add.0" => Float::mul_add(a, b, a),
        "mul_add.1" => Float::mul_add(a, a, b),
        _ => return None,
    })
}

fn special<S: MathScalar>(f: &str, a: Dual<S>) -> Option<Dual<S>> {
    match f {
        "erf" => Some(a.erf()),
        "erfc" => Some(a.erfc()),
        "gamma" => a.gamma(),
        "digamma" => a.digamma(),
        "trigamma" => a.trigamma(),
        "lambertw" => a.lambert_w(),
        "zeta" => a.zeta(),
        "sinc" => Some(a.sinc()),
        "sign" => Some(a.sign()),
        "elliptic_k" => a.elliptic_k(),
        "elliptic_e" => a.elliptic_e(),
        _ => match f.split_once(':')? {
            ("polygamma", k) => a.polygamma(k.parse().ok()?),
            ("besselj", k) => a.bessel_j(k.parse().ok()?),
            _ => None,
        },
    }
}

/// a program of operations, run on any kind of scalar (without the functions only dual numbers have)
fn run_plain(t: &T, env: Env) -> Option<f64> {
    let g = |a: &A| run_plain(a, env);
    match t {
        T::N(x) => Some(*x),
        T::V(s) => env.iter().find(|p| p.0 == *s).map(|p| p.1),
        T::F(f, a) if SPECIAL.contains(f) => {
            let x = g(&a[0])?;
            Some(match f.split_once(':') {
                Some((h, k)) => lib_fn(h, &[k.parse().unwrap(), x]),
                None if *f == "sign" => x.signum(),
                None => lib_fn(f, &[x]),
            })
        }
        T::F("beta", a) => Some(lib_fn("beta", &[g(&a[0])?, g(&a[1])?])),
        T::F(f, a) if a.len() == 1 => un(f, g(&a[0])?),
        T::F(f, a) => bin(f, g(&a[0])?, g(&a[1])?),
        _ => None,
    }
}

fn run_dual<S: MathScalar>(t: &T, env: &[(&'static str, Dual<S>)]) -> Option<Dual<S>> {
    let g = |a: &A| run_dual(a, env);
    match t {
        T::N(x) => Some(Dual::constant(<S as NumCast>::from(*x)?)),
        T::V(s) => env.iter().find(|p| p.0 == *s).map(|p| p.1),
        T::F("beta", a) => g(&a[0])?.beta(g(&a[1])?),
        T::F(f, a) if SPECIAL.contains(f) => special(f, g(&a[0])?),
        T::F(f, a) if a.len() == 1 => un(f, g(&a[0])?),
        T::F(f, a) => bin(f, g(&a[0])?, g(&a[1])?),
        _ => None,
    }
}

/// Reference: value and derivative; undefined wherever an operation is not differentiable.
fn reference(t: &T, env: Env, w: &str) -> D {
    let g = |a: &A| reference(a, env, w);
    let x = E::exact;
    let func = |h: &'static str, a: &[D]| {
        let mut d = D::func(h, a);
        let vs: Vec<E> = a.iter().map(|q| q.v).collect();
        for i in crate::num::int_orders(h)..a.len() {
            let p = fpartial(h, &vs, i);
            if !p.defined() || !p.stable() {
                d.d = if p.defined() { E::unstable(0.0) } else { E::UNDEF };
            }
        }
        if !d.d.stable() {
            d.k = false;
        }
        d
    };
    let trunc = |v: E| -> D {
        if !v.defined() {
            return D { v: E::UNDEF, d: E::UNDEF, k: false };
        }
        if !v.stable() || (v.v - v.v.round()).abs() <= 4.0 * v.e + 1e-12 && v.e > 0.0 {
            return D { v: E::unstable(0.0), d: E::UNDEF, k: false };
        }
        let jump = v.v == v.v.trunc() && v.v != 0.0;
        D { v: x(v.v.trunc()), d: if jump { E::UNDEF } else { x(0.0) }, k: false }
    };
    let pick = |a: D, b: D, first: bool| -> D {
        let r = if first { a } else { b };
        if !a.v.stable() || !b.v.stable() {
            return D { v: if a.v.defined() && b.v.defined() { E::unstable(r.v.v) } else { E::UNDEF }, d: E::UNDEF, k: false };
        }
        if (a.v.v - b.v.v).abs() <= 4.0 * (a.v.e + b.v.e) {
            return D { v: r.v, d: E::UNDEF, k: false };
        }
        r
    };
    let square_sum = |a: D, b: D| a.mul(a).add(b.mul(b));
    match t {
        T::N(q) => D::cst(x(*q)),
        T::V(s) => {
            let v = x(env.iter().find(|p| p.0 == *s).unwrap().1);
            if *s == w {
                D { v, d: x(1.0), k: false }
            } else {
                D::cst(v)
            }
        }
        T::F(f, a) if a.len() == 1 => {
            let a = g(&a[0]);
            match *f {
                "sin_cos.0" => func("sin", &[a]),
                "sin_cos.1" => func("cos", &[a]),
                "Signed::abs" => func("abs", &[a]),
                "Signed::signum" | "sign" => func("signum", &[a]),
                "neg" => a.neg(),
                "recip" => D::cst(x(1.0)).div(a),
                "to_degrees" => a.mul(D::cst(E { v: 180.0 / std::f64::consts::PI, e: 1e-14, m: 60.0 })),
                "to_radians" => a.mul(D::cst(E { v: std::f64::consts::PI / 180.0, e: 1e-17, m: 0.02 })),
                "exp2" => func("exp", &[a.mul(D::cst(E { v: std::f64::consts::LN_2, e: 1e-17, m: 1.0 }))]),
                "exp_m1" => func("exp", &[a]).sub(D::cst(x(1.0))),
                "ln_1p" => func("ln", &[a.add(D::cst(x(1.0)))]),
                "trunc" => trunc(a.v),
                "fract" => a.sub(trunc(a.v)),
                "round" => {
                    let h = a.v.v - a.v.v.floor();
                    if (h - 0.5).abs() <= 4.0 * a.v.e {
                        return D { v: if a.v.e == 0.0 { x(a.v.v.round()) } else { E::unstable(0.0) }, d: E::UNDEF, k: false };
                    }
                    func("round", &[a])
                }
                _ => match f.split_once(':') {
                    Some(("powi", k)) => {
                        let k: f64 = k.parse().unwrap();
                        if k == 0.0 {
                            // (0^0 is 1 here, as for plain numbers)
                            return if a.v.stable() { D { v: x(1.0), d: x(0.0), k: a.k } } else { D { v: E::UNDEF, d: E::UNDEF, k: false } };
                        }
                        a.pow(D::cst(x(k)))
                    }
                    Some((h, k)) => func(leak(h), &[D::cst(x(k.parse().unwrap())), a]),
                    None => func(f, &[a]),
                },
            }
        }
        T::F(f, a) => {
            let (a, b) = (g(&a[0]), g(&a[1]));
            match *f {
                "+" | "+=" => a.add(b),
                "-" | "-=" => a.sub(b),
                "*" | "*=" => a.mul(b),
                "/" | "/=" => a.div(b),
                "%" | "%=" => {
                    let q = trunc(a.v.div(b.v));
                    if !q.d.defined() {
                        return D { v: E::unstable(0.0), d: E::UNDEF, k: false };
                    }
                    a.sub(b.mul(q))
                }
                "powf" => {
                    if b.k && b.v.v == 0.0 && b.v.e == 0.0 && a.v.defined() {
                        return D { v: x(1.0), d: x(0.0), k: a.k };
                    }
                    let mut r = a.pow(b);
                    if a.v.stable() && b.v.stable() && r.v.defined() && (a.v.v <= 0.0 && !b.k || a.v.v == 0.0 && b.v.v < 1.0) {
                        r.k = false;
                        r.d = E::UNDEF;
                    }
                    r
                }
                "log" => func("log", &[b, a]),
                "hypot" => func("sqrt", &[square_sum(a, b)]),
                "atan2" => func("atan2", &[a, b]),
                "max" => pick(a, b, a.v.v > b.v.v),
                "min" => pick(a, b, a.v.v < b.v.v),
                "copysign" => {
                    if a.v.v.abs() <= 4.0 * a.v.e || b.v.v.abs() <= 4.0 * b.v.e || !a.v.stable() || !b.v.stable() {
                        return D { v: if a.v.defined() && b.v.defined() { E::unstable(a.v.v) } else { E::UNDEF }, d: E::UNDEF, k: false };
                    }
                    if a.v.v.is_sign_negative() == b.v.v.is_sign_negative() { a } else { a.neg() }
                }
                "abs_sub" => pick(a.sub(b), D::cst(x(0.0)), a.v.v > b.v.v),
                "mul_add.0" => a.mul(b).add(a),
                "mul_add.1" => a.mul(a).add(b),
                "beta" => func("beta", &[a, b]),
                _ => D { v: E::UNDEF, d: E::UNDEF, k: false },
            }
        }
        _ => D { v: E::UNDEF, d: E::UNDEF, k: false },
    }
}

/// the same program as a formula, where there is one
fn formula(t: &T) -> Option<A> {
    Some(match t {
        T::N(x) => n(*x),
        T::V(s) => v(s),
        T::F(g, a) if a.len() == 1 => {
            let a = formula(&a[0])?;
            match *g {
                "sin_cos.0" => f("sin", a),
                "sin_cos.1" => f("cos", a),
                "Signed::abs" => f("abs", a),
                "neg" => neg(a),
                "recip" => div(n(1.0), a),
                "exp2" => pow(n(2.0), a),
                "exp_m1" => sub(f("exp", a), n(1.0)),
                "ln_1p" => f("ln", add(n(1.0), a)),
                "to_degrees" | "to_radians" | "trunc" | "fract" | "sign" | "signum" | "Signed::signum" | "floor" | "ceil" | "round" => return None,
                _ => match g.split_once(':') {
                    Some(("powi", k)) => pow(a, n(k.parse().ok()?)),
                    Some((h, k)) => fs(leak(h), vec![n(k.parse().ok()?), a]),
                    None => f(g, a),
                },
            }
        }
        T::F(g, a) => {
            let (a, b) = (formula(&a[0])?, formula(&a[1])?);
            match *g {
                "+" | "+=" => add(a, b),
                "-" | "-=" => sub(a, b),
                "*" | "*=" => mul(a, b),
                "/" | "/=" => div(a, b),
                "powf" => pow(a, b),
                "log" => f2("log", b, a),
                "hypot" => f("sqrt", add(pow(a, n(2.0)), pow(b, n(2.0)))),
                "atan2" => f2("atan2", a, b),
                "mul_add.0" => add(mul(a.clone(), b), a),
                "mul_add.1" => add(pow(a, n(2.0)), b),
                "beta" => f2("beta", a, b),
                _ => return None,
            }
        }
        _ => return None,
    })
}

/// a formula as a program of these operations
fn program(t: &A) -> Option<A> {
    let two = |g: &'static str, a: &A, b: &A| Some(fs(g, vec![program(a)?, program(b)?]));
    Some(match &**t {
        T::N(_) | T::V(_) => t.clone(),
        T::C(k) => n(cval(k)),
        T::Neg(a) => fs("neg", vec![program(a)?]),
        T::Add(a, b) => two("+", a, b)?,
        T::Sub(a, b) => two("-", a, b)?,
        T::Mul(a, b) => two("*", a, b)?,
        T::Div(a, b) => two("/", a, b)?,
        T::Pow(a, b) => two("powf", a, b)?,
        T::F("log", a) => two("log", &a[1], &a[0])?,
        T::F("atan2", a) => two("atan2", &a[0], &a[1])?,
        T::F(g, a) if a.len() == 1 && (UN.contains(g) || SPECIAL.contains(g)) => fs(g, vec![program(&a[0])?]),
        _ => return None,
    })
}

fn text(t: &T) -> String {
    match t {
        T::F(f, a) => format!("{f}({})", a.iter().map(|x| text(x)).collect::<Vec<_>>().join(", ")),
        _ => t.text(),
    }
}

/// accuracy demanded of the derivatives (relative to value, derivative and 1)
fn slack(t: &T) -> f64 {
    let here = match t {
        T::F(f, _) if f.starts_with("besselj") => 1e-6,
        T::F(f, _) if f.contains("gamma") || matches!(*f, "zeta" | "beta") => 1e-7,
        T::F(f, _) if f.starts_with("elliptic") || *f == "sinc" => 1e-9,
        T::F(f, _) if *f == "lambertw" || f.starts_with("erf") => 1e-9,
        _ => 0.0,
    };
    t.children().iter().map(|k| slack(k)).fold(here, f64::max)
}

fn close(w: &E, got: f64, rel: f64) -> bool {
    got.is_finite() && (got - w.v).abs() <= w.tol() * 4.0 + rel * (w.v.abs() + w.m.min(1e6 * (w.v.abs() + 1.0)) + 1.0)
}

struct Opt {
    symbolic: bool,
    second: bool,
}

fn check(mc: &Mc, rank: u64, t: &T, points: &[Vec<(&'static str, f64)>], o: &Opt) {
    let lab = text(t);
    if !mc.wants(&lab) {
        return;
    }
    mc.enter(&lab);
    if mc.state(&lab) {
        mc.trace();
    }
    let rel = slack(t);
    let vars = t.var_list();
    let fo = formula(t);
    for w in ["x", "y"] {
        if !vars.contains(&w) && !(w == "x" && vars.is_empty()) {
            continue;
        }
        let symbolic = if o.symbolic { fo.as_ref().and_then(|f| Diff::new().skip_simplification(true).differentiate(&f.expr(), &symb(w)).ok()) } else { None };
        let d1 = if o.second { fo.as_ref().and_then(|f| dt(f, w)) } else { None };
        for p in points {
            let r = reference(t, p, w);
            let env: Vec<(&'static str, Dual<f64>)> = p.iter().map(|(k, v)| (*k, Dual::new(*v, if *k == w { 1.0 } else { 0.0 }))).collect();
            let got = run_dual(t, &env);
            let plain = run_plain(t, p);
            mc.trans(1);
            // the value is the plain one
            if let Some(q) = plain {
                let gv = got.map_or(f64::NAN, |g| g.val);
                let same = if r.v.stable() { close(&r.v, gv, rel.max(1e-12)) && close(&r.v, q, rel.max(1e-12)) } else { true };
                if !same {
                    mc.violation(rank, &format!("value of {lab}"), &format!("plain {q:e}, dual {gv:e}, reference {:e} at {}", r.v.v, env_text(p)));
                    break;
                }
            }
            if r.v.stable() && r.d.stable() {
                match got {
                    Some(g) if close(&r.d, g.eps, rel) => {}
                    _ => {
                        mc.violation(rank, &format!("derivative of {lab}"), &format!("by {w}: expected {:e}, got {:?} at {}", r.d.v, got.map(|g| g.eps), env_text(p)));
                        break;
                    }
                }
                // scaling the direction scales the derivative
                let env3: Vec<(&'static str, Dual<f64>)> = p.iter().map(|(k, v)| (*k, Dual::new(*v, if *k == w { -3.0 } else { 0.0 }))).collect();
                if let (Some(g), Some(h)) = (got, run_dual(t, &env3)) {
                    if (h.eps + 3.0 * g.eps).abs() > 12.0 * r.d.tol() + 1e-9 * (g.eps.abs() + 1e-3 * r.d.m) + 1e-12 {
                        mc.violation(rank, &format!("direction of {lab}"), &format!("by {w}: {:e} for 1, {:e} for -3 at {}", g.eps, h.eps, env_text(p)));
                        break;
                    }
                }
                // the symbolic derivative agrees
                if let (Some(s), Some(g)) = (&symbolic, got) {
                    let m: std::collections::HashMap<&str, f64> = p.iter().map(|(k, v)| (*k, *v)).collect();
                    let st = read(s).eval(p);
                    if st.stable() {
                        let sv = s.evaluate(&m, &Default::default()).as_number();
                        if !sv.is_some_and(|q| (q - g.eps).abs() <= 8.0 * (r.d.tol() + st.tol()) + rel.max(1e-9) * (1.0 + q.abs() + r.d.m.min(1e6 * (q.abs() + 1.0)))) {
                            mc.violation(rank, &format!("symbolic derivative of {lab}"), &format!("by {w}: dual {:e}, symbolic {sv:?} at {}: {s}", g.eps, env_text(p)));
                            break;
                        }
                    }
                }
                // dual numbers of dual numbers: the second derivative
                if let Some(d1) = &d1 {
                    let r2 = d1.eval_d(p, w);
                    if r2.d.stable() && r2.v.stable() {
                        let env: Vec<(&'static str, Dual<Dual<f64>>)> = p
                            .iter()
                            .map(|(k, v)| {
                                let e = if *k == w { 1.0 } else { 0.0 };
                                (*k, Dual::new(Dual::new(*v, e), Dual::constant(e)))
                            })
                            .collect();
                        let g2 = run_dual(t, &env);
                        let ok = g2.is_some_and(|g| close(&r2.d, g.eps.eps, 1e-9) && close(&r.d, g.eps.val, 1e-9) && close(&r.d, g.val.eps, 1e-9));
                        if !ok {
                            mc.violation(rank, &format!("second derivative of {lab}"), &format!("by {w}: expected {:e}, got {g2:?} at {}", r2.d.v, env_text(p)));
                            break;
                        }
                    }
                }
            }
        }
    }
}

fn same(a: f64, b: f64, rel: f64) -> bool {
    a == b || a.is_nan() && b.is_nan() || (a - b).abs() <= rel * a.abs().max(b.abs()) || a.is_finite() && b.is_finite() && (a - b).abs() < 1e-305
}

/// single operations at extreme values: the value is the plain one to the last digits
fn extremes(mc: &Arc<Mc>) {
    let vals: Vec<f64> = [0.0, 1.0, 0.5, 2.0, 3.0, 1e-17, 1e-9, 1e-5, 0.1, 0.9, 1.5, 2.5, 7.0, 10.0, 20.0, 100.0, 300.0, 700.0, 1e5, 1e10, 1e17, 1e160, 1e200, 1e308, 1e-160, 1e-300, f64::INFINITY, f64::NAN]
        .iter()
        .flat_map(|v: &f64| [*v, -*v])
        .collect();
    let (vals, nv) = (&vals, vals.len());
    mc.par("extreme values, one argument", (UN.len() * nv) as u64, 16, |i| {
        let (f, a) = (UN[i as usize / nv], vals[i as usize % nv]);
        let lab = format!("{f}({a:e})");
        if !mc.wants(&lab) {
            return;
        }
        mc.enter(&lab);
        mc.state(&lab);
        mc.trace();
        let want = un(f, a).unwrap();
        for eps in [0.0, 1.0] {
            let got = un(f, Dual::new(a, eps)).unwrap();
            if !same(want, got.val, 1e-12) {
                mc.violation(i, &lab, &format!("plain {want:e}, dual {:e}", got.val));
            }
        }
        mc.trans(2);
    });
    mc.par("extreme values, two arguments", (BIN.len() * nv * nv) as u64, 64, |i| {
        let k = i as usize;
        let (f, a, b) = (BIN[k / nv / nv], vals[k / nv % nv], vals[k % nv]);
        let lab = format!("{f}({a:e}, {b:e})");
        if !mc.wants(&lab) {
            return;
        }
        mc.enter(&lab);
        mc.state(&lab);
        mc.trace();
        let want = bin(f, a, b).unwrap();
        for (ea, eb) in [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)] {
            let got = bin(f, Dual::new(a, ea), Dual::new(b, eb)).unwrap();
            // (multiplication and addition round once or twice)
            let fused = f.starts_with("mul_add") && want.is_finite() && got.val.is_finite();
            if !same(want, got.val, 1e-12) && !(fused && (want - got.val).abs() <= 1e-12 * (a * b).abs().max(a * a).max(b.abs())) && !(f.starts_with("mul_add") && !want.is_finite()) {
                mc.violation(i, &lab, &format!("plain {want:e}, dual {:e} (directions {ea}, {eb})", got.val));
            }
        }
        mc.trans(3);
    });
    let sv: Vec<f64> = vals.iter().copied().filter(|v| v.abs() <= 1000.0 && (v.abs() >= 1e-9 || *v == 0.0)).collect();
    let (sv, ns) = (&sv, sv.len());
    mc.par("special functions", (SPECIAL.len() * ns) as u64, 8, |i| {
        let (f, a) = (SPECIAL[i as usize / ns], sv[i as usize % ns]);
        let lab = format!("{f}({a:e})");
        if !mc.wants(&lab) {
            return;
        }
        mc.enter(&lab);
        mc.state(&lab);
        mc.trace();
        let want = run_plain(&T::F(f, vec![n(a)]), &[]).unwrap();
        let got = special(f, Dual::new(a, 1.0));
        if !want.is_nan() && !got.is_some_and(|g| same(want, g.val, 1e-10)) || want.is_nan() && got.is_some_and(|g| g.val.is_finite()) {
            mc.violation(i, &lab, &format!("plain {want:e}, dual {got:?}"));
        }
        mc.trans(1);
    });
    let bv = [0.25, 0.5, 1.0, 1.5, 2.0, 3.5, 10.0, 60.0, 85.0, 100.0, 150.0, 171.0, 300.0, -0.5, -1.5, 0.0, -1.0];
    mc.par("beta", (bv.len() * bv.len()) as u64, 8, |i| {
        let (a, b) = (bv[i as usize / bv.len()], bv[i as usize % bv.len()]);
        let lab = format!("beta({a}, {b})");
        if !mc.wants(&lab) {
            return;
        }
        mc.enter(&lab);
        mc.state(&lab);
        mc.trace();
        let want = lib_fn("beta", &[a, b]);
        let got = Dual::new(a, 1.0).beta(Dual::constant(b));
        if !want.is_nan() && !got.is_some_and(|g| same(want, g.val, 1e-9)) || want.is_nan() && got.is_some_and(|g| g.val.is_finite()) {
            mc.violation(i, &lab, &format!("plain {want:e}, dual {got:?}"));
        }
        mc.trans(1);
    });
    mc.par("orders", 2 * 14 * 3, 1, |i| {
        let k = [i32::MIN, i32::MIN + 1, -1000, -3, -1, 0, 1, 5, 20, 100, 1000, i32::MAX - 2, i32::MAX - 1, i32::MAX][i as usize / 6];
        let x = [0.5, 1.0, -2.0][i as usize % 3];
        let lab = format!("powi, polygamma and bessel_j of order {k} at {x}");
        if !mc.wants(&lab) {
            return;
        }
        mc.enter(&lab);
        mc.state(&lab);
        mc.trace();
        let a = Dual::new(x, 1.0);
        mc.guard(i, || {
            if i / 3 % 2 == 0 {
                let p = Float::powi(a, k);
                let q = Float::powi(x, k);
                if !same(p.val, q, 1e-9) {
                    mc.violation(i, &lab, &format!("plain power {q:e}, dual {:e}", p.val));
                }
            } else {
                let _ = (k.abs_diff(0) <= 1000).then(|| (a.polygamma(k), a.bessel_j(k)));
                if k.abs_diff(0) > 1000 {
                    let _ = a.polygamma(k);
                }
            }
        });
        mc.trans(1);
    });
}

/// constants, conversions and predicates
fn rest(mc: &Arc<Mc>) {
    type Dl = Dual<f64>;
    let consts: Vec<(&str, Dl, f64)> = vec![
        ("E", FloatConst::E(), std::f64::consts::E),
        ("FRAC_1_PI", FloatConst::FRAC_1_PI(), std::f64::consts::FRAC_1_PI),
        ("FRAC_1_SQRT_2", FloatConst::FRAC_1_SQRT_2(), std::f64::consts::FRAC_1_SQRT_2),
        ("FRAC_2_PI", FloatConst::FRAC_2_PI(), std::f64::consts::FRAC_2_PI),
        ("FRAC_2_SQRT_PI", FloatConst::FRAC_2_SQRT_PI(), std::f64::consts::FRAC_2_SQRT_PI),
        ("FRAC_PI_2", FloatConst::FRAC_PI_2(), std::f64::consts::FRAC_PI_2),
        ("FRAC_PI_3", FloatConst::FRAC_PI_3(), std::f64::consts::FRAC_PI_3),
        ("FRAC_PI_4", FloatConst::FRAC_PI_4(), std::f64::consts::FRAC_PI_4),
        ("FRAC_PI_6", FloatConst::FRAC_PI_6(), std::f64::consts::FRAC_PI_6),
        ("FRAC_PI_8", FloatConst::FRAC_PI_8(), std::f64::consts::FRAC_PI_8),
        ("LN_10", FloatConst::LN_10(), std::f64::consts::LN_10),
        ("LN_2", FloatConst::LN_2(), std::f64::consts::LN_2),
        ("LOG10_2", FloatConst::LOG10_2(), std::f64::consts::LOG10_2),
        ("LOG10_E", FloatConst::LOG10_E(), std::f64::consts::LOG10_E),
        ("LOG2_10", FloatConst::LOG2_10(), std::f64::consts::LOG2_10),
        ("LOG2_E", FloatConst::LOG2_E(), std::f64::consts::LOG2_E),
        ("PI", FloatConst::PI(), std::f64::consts::PI),
        ("SQRT_2", FloatConst::SQRT_2(), std::f64::consts::SQRT_2),
        ("TAU", FloatConst::TAU(), std::f64::consts::TAU),
        ("zero", Zero::zero(), 0.0),
        ("one", One::one(), 1.0),
        ("nan", Float::nan(), f64::NAN),
        ("infinity", Float::infinity(), f64::INFINITY),
        ("neg_infinity", Float::neg_infinity(), f64::NEG_INFINITY),
        ("neg_zero", Float::neg_zero(), -0.0),
        ("min_value", Float::min_value(), f64::MIN),
        ("max_value", Float::max_value(), f64::MAX),
        ("Bounded::min_value", Bounded::min_value(), f64::MIN),
        ("Bounded::max_value", Bounded::max_value(), f64::MAX),
        ("min_positive_value", Float::min_positive_value(), f64::MIN_POSITIVE),
        ("constant", Dual::constant(2.5), 2.5),
        ("from_i64", FromPrimitive::from_i64(-7).unwrap(), -7.0),
        ("from_u64", FromPrimitive::from_u64(7).unwrap(), 7.0),
        ("from_f64", FromPrimitive::from_f64(0.1).unwrap(), 0.1),
        ("from_i32", FromPrimitive::from_i32(-3).unwrap(), -3.0),
        ("NumCast", NumCast::from(0.3f64).unwrap(), 0.3),
        ("from_str_radix", Num::from_str_radix("12.5", 10).unwrap(), 12.5),
    ];
    let consts = &consts;
    mc.par("constants", consts.len() as u64, 8, |i| {
        let (name, d, w) = &consts[i as usize];
        mc.enter(name);
        mc.state(name);
        mc.trace();
        mc.trans(1);
        if d.val.to_bits() != w.to_bits() && !(d.val.is_nan() && w.is_nan()) || d.eps != 0.0 {
            mc.violation(i, name, &format!("{d:?}, expected {w}"));
        }
    });
    let vals = [0.0, -0.0, 1.0, -1.0, 2.5, -2.5, 1e-310, 1e300, 9e18, -9e18, 3e19, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 255.0, 1e9];
    mc.par("predicates and conversions", (vals.len() * 3) as u64, 4, |i| {
        let (a, e) = (vals[i as usize / 3], [0.0, 1.0, -2.0][i as usize % 3]);
        let lab = format!("predicates of {a:e} + {e}ε");
        mc.enter(&lab);
        mc.state(&lab);
        mc.trace();
        mc.trans(1);
        let d = Dual::new(a, e);
        let bad = |w: &str| mc.violation(i, &lab, &format!("{w} differs from the plain number's"));
        if Float::is_nan(d) != a.is_nan() {
            bad("is_nan");
        }
        if Float::is_infinite(d) != a.is_infinite() {
            bad("is_infinite");
        }
        if Float::is_finite(d) != a.is_finite() {
            bad("is_finite");
        }
        if Float::is_normal(d) != a.is_normal() {
            bad("is_normal");
        }
        if Float::classify(d) != a.classify() {
            bad("classify");
        }
        if Float::is_sign_positive(d) != a.is_sign_positive() || Float::is_sign_negative(d) != a.is_sign_negative() {
            bad("the sign");
        }
        if Signed::is_positive(&d) != (a > 0.0) || Signed::is_negative(&d) != (a < 0.0) {
            bad("is_positive or is_negative");
        }
        if ToPrimitive::to_i64(&d) != ToPrimitive::to_i64(&a) || ToPrimitive::to_u64(&d) != ToPrimitive::to_u64(&a) || d.to_f64().map(f64::to_bits) != a.to_f64().map(f64::to_bits) || d.to_u8() != a.to_u8() {
            bad("a conversion");
        }
        if Float::integer_decode(d) != Float::integer_decode(a) {
            bad("integer_decode");
        }
        if Zero::is_zero(&d) != (a == 0.0 && e == 0.0) {
            bad("is_zero");
        }
        for b in vals {
            for eb in [0.0, 1.0] {
                let o = Dual::new(b, eb);
                if a != b && ((d < o) != (a < b) || (d > o) != (a > b) || (d <= o) != (a <= b)) || (a != b) && d == o {
                    bad(&format!("comparison with {b:e}"));
                }
            }
        }
    });
}

pub fn run(mc: &Arc<Mc>) {
    let th = mc.thorough;
    let xs = [0.37, 1.6, -0.8, 2.9, -2.3, 0.0, 1.0, 0.5, -1.0, 3.0, 0.02, 1e-4, -0.005, 0.98];
    let one: Vec<Vec<(&'static str, f64)>> = xs.iter().map(|x| vec![("x", *x), ("y", 1.7)]).collect();
    let few: Vec<Vec<(&'static str, f64)>> = [(0.37, 1.7), (1.6, 0.45), (-0.8, 2.3), (2.9, -1.2), (0.0, 2.0), (1.0, -3.0), (-2.0, 3.0), (0.5, 0.0)].iter().map(|(x, y)| vec![("x", *x), ("y", *y)]).collect();
    let all: Vec<&'static str> = UN.iter().chain(SPECIAL).copied().collect();
    let bins: Vec<&'static str> = BIN.iter().copied().chain(["beta"]).collect();
    let leaves = vec![v("x"), v("y"), n(2.0), n(3.0), n(0.5), n(-1.0), n(0.0)];
    extremes(mc);
    rest(mc);
    // every operation, every pair of operations
    let al = Alpha { leaves: leaves.clone(), un: all.clone(), neg: false, bin: "", bfn: bins.clone() };
    sweep(mc, "operations", &al, 4, |rank, t| check(mc, rank, t, &one, &Opt { symbolic: t.size() <= 3 || th, second: false }));
    // formulas with every number of a list in every numeric place, and every integer exponent
    let mut sl: Vec<A> = crate::slots::slots(th).iter().filter_map(program).collect();
    for k in -70..=70 {
        let p = leak(&format!("powi:{k}"));
        for t in [v("x"), fs("+", vec![v("x"), v("y")]), fs("sin", vec![v("x")])] {
            sl.push(fs(p, vec![t]));
        }
    }
    mc.par("numbers", sl.len() as u64, 16, |i| check(mc, 1 << 50 | i, &sl[i as usize], &few, &Opt { symbolic: i % 4 == 0, second: th && i % 3 == 0 }));
    let plain: Vec<&'static str> = vec!["sin", "tan", "exp", "ln", "sqrt", "abs", "recip", "powi:3", "atanh", "neg"];
    let pb: Vec<&'static str> = vec!["+", "-", "*", "/", "powf", "atan2", "hypot", "max", "%="];
    let al = Alpha { leaves: vec![v("x"), v("y"), n(2.0)], un: plain.clone(), neg: false, bin: "", bfn: pb.clone() };
    sweep(mc, "deeper programs", &al, if th { 7 } else { 6 }, |rank, t| {
        if t.size() > 3 {
            check(mc, rank, t, &few, &Opt { symbolic: false, second: false });
        }
    });
    let al = Alpha { leaves: vec![v("x"), n(2.0), n(3.0)], un: UN.to_vec(), neg: false, bin: "", bfn: vec!["+", "-", "*", "/", "powf", "log", "hypot", "atan2", "mul_add.0", "-=", "*=", "/="] };
    sweep(mc, "second derivatives", &al, if th { 5 } else { 4 }, |rank, t| check(mc, rank, t, &few, &Opt { symbolic: false, second: true }));
    for t in [fs("powf", vec![v("x"), n(3.0)]), fs("hypot", vec![v("x"), fs("sin", vec![v("y")])])] {
        let r = reference(&t, &few[0], "x");
        mc.sample(format!("{} at {}: {:e}, derivative {:e}", text(&t), env_text(&few[0]), r.v.v, r.d.v));
    }
}
