//! C06 compiled single-point evaluation, C07 batch evaluation.
use crate::fw::Mc;
use crate::num::UNARY;

pub const BINARY: &[&str] = &["atan2", "log", "beta", "besselj", "bessely", "besseli", "besselk", "polygamma", "zeta_deriv", "hermite"];
use crate::tree::*;
use std::sync::Arc;
use symb_anafis::{CompiledEvaluator, DiffError, Expr};

/// Alphabets shared by C06 and C07 (label, alphabet, max size).
pub fn alphabets(thorough: bool) -> Vec<(&'static str, Alpha, usize)> {
    let x = || v("x");
    let y = || v("y");
    let z = || v("z");
    let all = Alpha { leaves: vec![x(), y(), n(2.0), n(0.5), n(-1.0), n(3.0)], un: UNARY.to_vec(), neg: true, bin: "+-*/^", bfn: vec!["atan2", "log", "beta"] };
    let arith = Alpha { leaves: vec![x(), y(), n(2.0), n(-1.0), n(0.5)], un: vec!["exp", "sqrt"], neg: true, bin: "+-*/^", bfn: vec![] };
    let arith1 = Alpha { leaves: vec![x(), y(), n(2.0)], un: vec!["exp"], neg: false, bin: "+-*/^", bfn: vec![] };
    // composite leaves aimed at fused instructions
    let fused = Alpha {
        leaves: vec![
            x(), y(), z(), n(1.0), n(-1.0), n(2.0), n(-3.0),
            f("exp", x()), f("exp", neg(y())), f("exp", pow(x(), n(2.0))), f("exp", neg(pow(y(), n(2.0)))),
            mul(x(), y()), pow(x(), n(2.0)), pow(y(), n(3.0)), pow(x(), n(1.5)), pow(y(), n(-0.5)), pow(x(), n(-1.5)), pow(y(), n(-1.0)),
            pow(x(), n(-2.0)), pow(x(), n(-3.0)), pow(y(), n(4.0)), pow(x(), n(5.0)), pow(y(), n(-7.0)), f("sqrt", x()), f("cbrt", y()), f("ln", x()), f("sin", x()),
            c("pi"),
        ],
        un: vec![],
        neg: false,
        bin: "+-*/",
        bfn: vec![],
    };
    let shared = Alpha {
        leaves: vec![f("sin", x()), f("sin", y()), add(x(), y()), f("exp", mul(x(), y())), x(), n(2.0), mul(f("cos", x()), y())],
        un: vec!["sqrt", "exp"],
        neg: true,
        bin: "+-*/^",
        bfn: vec![],
    };
    let fused7 = Alpha { leaves: vec![x(), y(), z(), f("exp", x()), n(2.0), n(-1.0), mul(x(), y())], un: vec![], neg: false, bin: "+-*/", bfn: vec![] };
    let poly = Alpha {
        leaves: vec![x(), pow(x(), n(2.0)), pow(x(), n(3.0)), mul(n(3.0), x()), mul(n(-2.0), pow(x(), n(2.0))), n(1.0), n(-4.0), pow(f("sin", x()), n(2.0)), f("sin", x()), y()],
        un: vec![],
        neg: true,
        bin: "+-*",
        bfn: vec![],
    };
    // shapes that get an instruction of their own
    let shapes = Alpha { leaves: vec![x(), y(), n(1.0), n(-1.0), f("sin", x())], un: vec!["ln", "exp", "sqrt", "cbrt", "abs", "sinc"], neg: true, bin: "+-*/^", bfn: vec![] };
    let (a, b) = if thorough { (1, 1) } else { (0, 0) };
    vec![
        ("shapes", shapes, 5),
        ("all", all, 3 + a),
        ("arith", arith, 5),
        ("arith1", arith1, 6 + b),
        ("fused", fused, 5),
        ("shared", shared, 5),
        ("fused7", fused7, if thorough { 7 } else { 5 }),
        ("poly", poly, 5),
    ]
}

/// Structured families that cross size thresholds. Returns (label, tree).
pub fn families(thorough: bool) -> Vec<(String, A)> {
    let mut out: Vec<(String, A)> = vec![];
    let names: Vec<&'static str> = (0..330).map(|i| leak(&format!("p{i:03}"))).collect();
    let depths: Vec<usize> = if thorough { (1..=140).collect() } else { (1..=20).chain([24, 28, 30, 31, 32, 33, 34, 40, 44, 45, 46, 47, 48, 49, 50, 51, 55, 60, 61, 62, 63, 64, 65, 66, 67, 68, 90, 127, 128, 129]).collect() };
    for &d in &depths {
        // right nested: p0*(p1+(p2*(p3+...)))
        let mut t = v(names[d]);
        for i in (0..d).rev() {
            t = if i % 2 == 0 { mul(v(names[i]), t) } else { add(v(names[i]), t) };
        }
        out.push((format!("nest*+{d}"), t));
        let mut t = v(names[d]);
        for i in (0..d).rev() {
            t = if i % 2 == 0 { div(v(names[i]), t) } else { sub(v(names[i]), t) };
        }
        out.push((format!("nest/-{d}"), t));
        let mut t = v("x");
        for i in (0..d).rev() {
            t = if i % 3 == 0 { pow(add(v("y"), n(1.5)), t) } else { f2("atan2", v(names[i]), t) };
        }
        out.push((format!("nest^atan2 {d}"), t));
        // d shared subexpressions, each used twice at distance
        let s = |i: usize| f("sin", add(v(names[i]), v("x")));
        let mut t = n(0.0);
        for i in 0..d {
            t = add(t, mul(s(i), v(names[i])));
        }
        for i in 0..d {
            t = add(t, f("exp", neg(pow(s(i), n(2.0)))));
        }
        out.push((format!("shared{d}"), t));
        // shared nested inside each other
        let mut t = v("x");
        for i in 0..d.min(40) {
            t = add(f("sin", t.clone()), mul(t, v(names[i])));
        }
        if d <= 12 {
            out.push((format!("sharednest{d}"), t));
        }
        // exp(-u) fused with a sum, at depth
        let mut t = add(div(n(2.0), f("exp", v("x"))), v("y"));
        for i in (0..d).rev() {
            t = add(v(names[i]), mul(v(names[i + 1]), t));
        }
        out.push((format!("deepexpneg{d}"), t));
        let mut t = div(n(2.0), f("exp", v("x")));
        for i in (0..d).rev() {
            t = sub(div(n(3.0), f("exp", v(names[i]))), t);
        }
        out.push((format!("chainexpneg{d}"), t));
        // wide
        let mut a = n(0.0);
        let mut m = n(1.0);
        for i in 0..d {
            a = add(a, mul(v(names[i]), v(names[i + 1])));
            m = mul(m, add(v(names[i]), n(1.25)));
        }
        out.push((format!("widesum{d}"), a));
        out.push((format!("wideprod{d}"), m));
        // sparse polynomial in three kinds of base, degree d
        for (bl, b) in [("x", v("x")), ("sin", f("sin", v("x"))), ("x+y", mul(n(0.5), add(v("x"), v("y"))))] {
            let p = add(add(mul(n(1.5), pow(b.clone(), n(d as f64))), mul(n(-2.0), pow(b.clone(), n((d / 2) as f64)))), add(b.clone(), n(-0.75)));
            out.push((format!("poly{bl}{d}"), p));
        }
        // polynomial in a deep base; at the tip of a deep term; in a polynomial in a deep base
        let poly3 = |b: A| add(add(mul(n(1.5), pow(b.clone(), n(if d % 2 == 0 { 70.0 } else { 3.0 }))), mul(n(-2.0), pow(b.clone(), n(2.0)))), add(b, n(-0.75)));
        let deep = |tip: A, d: usize| {
            let mut t = tip;
            for i in (0..d).rev() {
                t = if i % 2 == 0 { div(v(names[i]), t) } else { sub(v(names[i]), t) };
            }
            t
        };
        out.push((format!("polydeep{d}"), poly3(f("sin", deep(v("x"), d)))));
        out.push((format!("deeppoly{d}"), deep(poly3(f("cos", mul(v("x"), v("y")))), d)));
        out.push((format!("polypoly{d}"), poly3(f("sin", poly3(f("cos", deep(v("x"), d)))))));
        if d >= 44 && d <= 68 || d < 3 {
            // every function, on top of a deep stack
            for g in UNARY {
                out.push((format!("deep{d} {g}"), deep(f(g, v("x")), d)));
            }
            for g in BINARY {
                out.push((format!("deep{d} {g}"), deep(f2(g, if matches!(*g, "atan2" | "log" | "beta") { v("y") } else { n(2.0) }, v("x")), d)));
            }
            out.push((format!("deep{d} assoc_legendre"), deep(fs("assoc_legendre", vec![n(3.0), n(1.0), v("x")]), d)));
            out.push((format!("deep{d} ynm"), deep(fs("ynm", vec![n(3.0), n(2.0), v("x"), v("y")]), d)));
            for q in [-4.0, -3.0, -2.0, -1.5, -1.0, -0.5, 0.5, 1.5, 2.0, 3.0, 4.0, 5.0, 7.0, 12.0] {
                out.push((format!("deep{d} ^{q}"), deep(pow(v("x"), n(q)), d)));
            }
            let one = || n(1.0);
            out.push((format!("deep{d} ln(1+x)"), deep(f("ln", add(one(), v("x"))), d)));
            out.push((format!("deep{d} exp(x)-1"), deep(sub(f("exp", v("x")), one()), d)));
            out.push((format!("deep{d} 1/(exp(x)-1)"), deep(div(one(), sub(f("exp", v("x")), one())), d)));
            out.push((format!("deep{d} exp(-x^2)"), deep(f("exp", neg(pow(v("x"), n(2.0)))), d)));
            out.push((format!("deep{d} exp(x^2)"), deep(f("exp", pow(v("x"), n(2.0))), d)));
        }
        // dense polynomial
        let mut t = n(1.0);
        for i in 1..=d.min(70) {
            t = add(t, mul(n((i % 7) as f64 - 3.0), pow(v("x"), n(i as f64))));
        }
        out.push((format!("dense{d}"), t));
        // nested calls
        let mut t = v("x");
        for i in 0..d {
            t = f(["sin", "atan", "tanh", "cos"][i % 4], t);
        }
        out.push((format!("calls{d}"), t));
        // integer powers
        out.push((format!("powi{d}"), add(pow(v("x"), n(d as f64)), pow(v("y"), n(-(d as f64))))));
        out.push((format!("powsum{d}"), pow(add(v("x"), f("cos", v("y"))), n(d as f64))));
    }
    // functions with integer orders and several arguments
    for g in ["besselj", "bessely", "besseli", "besselk", "polygamma", "zeta_deriv", "hermite"] {
        for k in 0..6 {
            out.push((format!("{g}{k}"), mul(v("y"), f2(g, n(k as f64), v("x")))));
            out.push((format!("{g}{k}+"), add(f2(g, n(k as f64), add(v("x"), v("y"))), v("x"))));
        }
    }
    for l in 0..4 {
        for m in 0..=l {
            out.push((format!("assoc{l}{m}"), mul(v("y"), fs("assoc_legendre", vec![n(l as f64), n(m as f64), f("sin", v("x"))]))));
            out.push((format!("ynm{l}{m}"), add(v("z"), fs("ynm", vec![n(l as f64), n(m as f64), v("x"), v("y")]))));
            out.push((format!("sph{l}{m}"), mul(v("z"), fs("spherical_harmonic", vec![n(l as f64), n(m as f64), v("x"), v("y")]))));
        }
    }
    out
}

pub const XS: &[f64] = &[0.7, -1.3, 2.0, 0.0, 1.0, -0.4, 3.5];

pub fn perms(k: usize) -> Vec<Vec<usize>> {
    fn go(cur: &mut Vec<usize>, k: usize, out: &mut Vec<Vec<usize>>) {
        if cur.len() == k {
            out.push(cur.clone());
            return;
        }
        for i in 0..k {
            if !cur.contains(&i) {
                cur.push(i);
                go(cur, k, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![], k, &mut out);
    out
}

/// A deterministic point for variable number i, variant k: exercises signs and sizes.
pub fn point(vars: &[&'static str], k: usize) -> Vec<(&'static str, f64)> {
    vars.iter().enumerate().map(|(i, s)| (*s, XS[(k * 3 + i * (k + 2)) % XS.len()] + if k >= XS.len() { 0.11 * (i % 5) as f64 } else { 0.0 })).collect()
}

pub fn env_points(vars: &[&'static str], per: &[f64], many: usize) -> Vec<Vec<(&'static str, f64)>> {
    if vars.len() <= 2 {
        grid(vars, per)
    } else if vars.len() == 3 {
        grid(vars, &per[..3])
    } else {
        (0..many).map(|k| point(vars, k)).collect()
    }
}

fn check_point(mc: &Mc, rank: u64, label: &dyn Fn() -> String, e: &Expr, rd: &A, ce: &CompiledEvaluator, order: &[&'static str], env: Env) {
    let r = rd.eval(env);
    if !r.stable() {
        return;
    }
    let args: Vec<f64> = order.iter().map(|o| env.iter().find(|p| p.0 == *o).map_or(9.75, |p| p.1)).collect();
    let got = ce.evaluate(&args);
    mc.trans(1);
    if !agree(&r, Some(got)) {
        // only a finding if the expression itself evaluates to the number
        let te = lib_eval(e, env);
        mc.violation(rank, &format!("compile [{}] order [{}] at {}", label(), order.join(","), env_text(env)), &format!("expression value {:?} (reference {:e} +- {:e}), compiled value {got:e}", te, r.v, r.tol()));
    } else {
        mc.state(&(got.to_bits() >> 12));
        mc.trace();
    }
}

fn check_tree(mc: &Mc, rank: u64, label: &str, t: &A, full: bool) {
    let lab = || if label.is_empty() { t.text() } else { label.to_string() };
    mc.enter(&lab());
    let e = t.expr();
    let rd = read(&e);
    let vars = t.var_list();
    let mut evars: Vec<String> = e.variables().into_iter().filter(|s| !crate::tree::is_const(s)).collect();
    evars.sort();
    // explicit parameters, every order (up to 3 variables), then auto detection, then an unused extra name
    let pts = env_points(&vars, &XS[..4], 6);
    let mut orders: Vec<Vec<&'static str>> = if full && vars.len() <= 3 { perms(vars.len()).into_iter().map(|p| p.into_iter().map(|i| vars[i]).collect()).collect() } else { vec![vars.clone(), vars.iter().rev().copied().collect()] };
    if full {
        let mut o = vec!["unused_q"];
        o.extend(vars.iter().copied());
        orders.push(o);
    }
    orders.dedup();
    for o in &orders {
        match CompiledEvaluator::compile(&e, o, None) {
            Ok(ce) => {
                if ce.param_names().iter().map(|s| s.as_str()).ne(o.iter().copied()) {
                    mc.violation(rank, &format!("params [{}] order [{}]", lab(), o.join(",")), &format!("param_names {:?}", ce.param_names()));
                }
                for p in &pts {
                    check_point(mc, rank, &lab, &e, &rd, &ce, o, p);
                }
            }
            Err(er) => {
                if !compile_may_fail(&rd) {
                    mc.violation(rank, &format!("compile [{}] order [{}]", lab(), o.join(",")), &format!("compile failed: {er:?}"));
                }
            }
        }
    }
    if let Ok(ce) = e.compile() {
        let o: Vec<&'static str> = ce.param_names().iter().map(|s| leak(s)).collect();
        let mut so = o.clone();
        so.sort();
        let ev: Vec<&str> = evars.iter().map(|s| s.as_str()).collect();
        if so != ev {
            mc.violation(rank, &format!("auto params [{}]", lab()), &format!("param_names {o:?}, variables {ev:?}"));
        }
        for p in pts.iter().take(4) {
            check_point(mc, rank, &lab, &e, &rd, &ce, &o, p);
        }
    }
    // leaving a used variable out must be reported
    if full {
        for i in 0..evars.len() {
            let o: Vec<&str> = evars.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, s)| s.as_str()).collect();
            mc.trans(1);
            match CompiledEvaluator::compile(&e, &o, None) {
                Err(DiffError::UnboundVariable(nm)) => {
                    if nm != evars[i] {
                        mc.violation(rank, &format!("unbound [{}] without {}", lab(), evars[i]), &format!("reported {nm}"));
                    }
                }
                Err(_) => {
                    if !compile_may_fail(&rd) {
                        mc.violation(rank, &format!("unbound [{}] without {}", lab(), evars[i]), "other error");
                    }
                }
                Ok(ce) => {
                    // legitimate only when the value does not depend on it
                    let mut bad = None;
                    for p in &pts {
                        let r = rd.eval(p);
                        if r.stable() {
                            let a: Vec<f64> = o.iter().map(|s| p.iter().find(|q| q.0 == *s).unwrap().1).collect();
                            let g = ce.evaluate(&a);
                            if !agree(&r, Some(g)) {
                                bad = Some((env_text(p), r.v, g));
                            }
                        }
                    }
                    if let Some(b) = bad {
                        mc.violation(rank, &format!("unbound [{}] without {}", lab(), evars[i]), &format!("compiled without an error although the value depends on it: {b:?}"));
                    }
                }
            }
        }
    }
}

/// (Products are left out: 0 times anything is 0 in an expression.)
/// With a NaN among the arguments there is a value only where the expression itself has one; the
/// compiled program says the same at every stack depth, point by point and in batches.
fn not_finite(mc: &Mc, rank: u64, t: &A) {
    mc.enter(&t.text());
    let vars = t.var_list();
    let mut deep = t.clone();
    for i in 0..70 {
        deep = add(v(leak(&format!("q{i}"))), deep);
    }
    let (e, ed) = (t.expr(), deep.expr());
    let dvars = deep.var_list();
    let (Ok(ce), Ok(cd)) = (CompiledEvaluator::compile(&e, &vars, None), CompiledEvaluator::compile(&ed, &dvars, None)) else { return };
    let pts: Vec<Vec<(&'static str, f64)>> = grid(&vars, &[f64::NAN, 1.0, -0.5, 3.0, 0.0]).into_iter().filter(|p| p.iter().any(|q| q.1.is_nan())).collect();
    let cols: Vec<Vec<f64>> = (0..vars.len()).map(|i| pts.iter().map(|p| p[i].1).collect()).collect();
    let cs: Vec<&[f64]> = cols.iter().map(|c| &c[..]).collect();
    let mut out = vec![0.0; pts.len()];
    let batch = ce.eval_batch(&cs, &mut out, None).is_ok();
    for (j, p) in pts.iter().enumerate() {
        let want = lib_eval(&e, p).filter(|x| x.is_finite());
        let args: Vec<f64> = p.iter().map(|q| q.1).collect();
        let dargs: Vec<f64> = dvars.iter().map(|s| p.iter().find(|q| q.0 == *s).map_or(0.0, |q| q.1)).collect();
        for (what, got) in [("compiled", ce.evaluate(&args)), ("compiled, deep stack", cd.evaluate(&dargs)), ("batch", if batch { out[j] } else { f64::NAN })] {
            mc.trans(1);
            let ok = match want {
                None => !got.is_finite(),
                Some(w) => (w - got).abs() <= 1e-9 * (1.0 + w.abs()),
            };
            if !ok {
                mc.violation(rank, &format!("{what} [{}] at {}", t.text(), env_text(p)), &format!("expression value {want:?}, compiled value {got:e}"));
            }
        }
    }
    mc.trace();
}

/// expressions compile() documents as unsupported
pub fn compile_may_fail(t: &T) -> bool {
    t.has_special()
}

pub fn run(mc: &Arc<Mc>) {
    mc.note("reference: value of the built expression read back through the public view, in error-bounded arithmetic; points where it is undefined or unstable are not compared");
    for (l, al, k) in alphabets(mc.thorough) {
        let big = k >= 6;
        sweep(mc, l, &al, k, |r, t| check_tree(mc, r, "", t, !big));
    }
    let fam = families(mc.thorough);
    mc.par("families", fam.len() as u64, 1, |i| {
        let (l, t) = &fam[i as usize];
        check_tree(mc, 1 << 40 | i, l, t, t.var_list().len() <= 3);
    });
    // arguments that are no numbers
    let mut calls: Vec<A> = UNARY.iter().map(|g| f(g, v("x"))).collect();
    calls.extend(BINARY.iter().map(|g| f2(g, v("x"), v("y"))));
    calls.push(fs("assoc_legendre", vec![v("x"), v("y"), v("z")]));
    calls.push(fs("ynm", vec![v("x"), v("y"), v("z"), v("w")]));
    calls.extend(['+', '-', '/', '^'].map(|o| match o {
        '+' => add(v("x"), v("y")),
        '-' => sub(v("x"), v("y")),
        '/' => div(v("x"), v("y")),
        _ => pow(v("x"), v("y")),
    }));
    mc.par("not finite", calls.len() as u64, 1, |i| not_finite(mc, 1 << 42 | i, &calls[i as usize]));
    let cc = collision_cases(if mc.thorough { 8000 } else { 1500 });
    mc.par("hash-collisions", cc.len() as u64, 16, |i| check_tree(mc, 1 << 41 | i, "", &cc[i as usize], false));
    let sl = crate::slots::slots(mc.thorough);
    mc.par("numbers", sl.len() as u64, 16, |i| check_tree(mc, 3 << 41 | i, "", &sl[i as usize], false));
    mc.sample(format!("{}", fam[10].1.text()));
    mc.sample(fam[40].0.clone());
}

// ---------------------------------------------------------------- C07

fn same(a: f64, b: f64, tol: f64) -> bool {
    tol.is_nan() && !b.is_finite() || (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= tol
}

fn batch_lengths(thorough: bool) -> Vec<usize> {
    if thorough {
        (0..=20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129]).chain(250..=262).chain([383, 384, 385]).chain(508..=518).chain([767, 768, 769, 770, 771, 1023, 1024, 1025, 1027]).collect()
    } else {
        (0..=13).chain([31, 33, 65, 255, 256, 257, 258, 259, 260, 511, 512, 513, 515]).collect()
    }
}

fn col(i: usize, j: usize) -> f64 {
    // value of parameter i at point j
    XS[(j + 2 * i) % XS.len()] + ((j / 7 + i) % 11) as f64 * 0.125
}

/// Compare every batch interface with point evaluation on `lens` batch lengths.
fn check_batch(mc: &Mc, rank: u64, label: &dyn Fn() -> String, t: &A, lens: &[usize], par: bool) {
    mc.enter(&label());
    let e = t.expr();
    let vars = t.var_list();
    let Ok(ce) = CompiledEvaluator::compile(&e, &vars, None) else { return };
    let maxn = lens.iter().copied().max().unwrap_or(0);
    let cols: Vec<Vec<f64>> = (0..vars.len()).map(|i| (0..maxn).map(|j| col(i, j)).collect()).collect();
    let rd = read(&e);
    let mut single = Vec::with_capacity(maxn);
    for j in 0..maxn {
        let a: Vec<f64> = cols.iter().map(|c| c[j]).collect();
        let env: Vec<(&'static str, f64)> = vars.iter().zip(&a).map(|(s, x)| (*s, *x)).collect();
        let s = ce.evaluate(&a);
        // points at which the expression is undefined or numerically unstable are not compared
        let r = rd.eval(&env);
        let tol = if r.stable() {
            r.tol() + 1e-11 * s.abs()
        } else if !r.defined() && !s.is_finite() {
            // no value either way
            f64::NAN
        } else {
            f64::INFINITY
        };
        single.push((s, tol));
    }
    let mut buf: Vec<wide::f64x4> = Vec::new();
    for &nn in lens {
        let cs: Vec<&[f64]> = cols.iter().map(|c| &c[..nn]).collect();
        let npts = if vars.is_empty() { 1 } else { nn };
        if vars.is_empty() && nn != lens[0] {
            continue;
        }
        let base: Vec<(f64, f64)> = if vars.is_empty() { let s = ce.evaluate(&[]); vec![(s, 0.0)] } else { single[..nn].to_vec() };
        let cmp = |what: &str, got: &[f64]| {
            mc.trans(1);
            for j in 0..npts {
                let (s, tol) = base[j];
                if tol.is_infinite() {
                    continue;
                }
                if !same(s, got[j], tol) {
                    let a: Vec<f64> = cols.iter().map(|c| c[j]).collect();
                    mc.violation(rank, &format!("{what} [{}] n={nn} point {j} at {a:?}", label()), &format!("single point gives {s:e}, batch gives {:e}", got[j]));
                    return;
                }
            }
            mc.trace();
        };
        // plain, with canaries beyond the end
        let mut out = vec![-777.25; npts + 5];
        match ce.eval_batch(&cs, &mut out, None) {
            Ok(()) => {
                cmp("eval_batch", &out);
                if out[npts..].iter().any(|x| *x != -777.25) {
                    mc.violation(rank, &format!("eval_batch overrun [{}] n={nn}", label()), &format!("wrote past the batch: {:?}", &out[npts..]));
                }
                mc.state(&(hash_f(&out)));
            }
            Err(er) => mc.violation(rank, &format!("eval_batch [{}] n={nn}", label()), &format!("{er:?}")),
        }
        // reused buffer
        let mut out = vec![0.5; npts];
        if ce.eval_batch(&cs, &mut out, Some(&mut buf)).is_ok() {
            cmp("eval_batch+buffer", &out);
        }
        if par {
            match ce.eval_batch_parallel(&cs) {
                Ok(o) if o.len() == npts => cmp("eval_batch_parallel", &o),
                o => mc.violation(rank, &format!("eval_batch_parallel [{}] n={nn}", label()), &format!("{:?}", o.map(|x| x.len()))),
            }
            if !vars.is_empty() {
                match symb_anafis::eval_f64(&[&e], &[&vars[..]], &[&cs[..]]) {
                    Ok(o) if o.len() == 1 && o[0].len() == npts => cmp("eval_f64", &o[0]),
                    o => mc.violation(rank, &format!("eval_f64 [{}] n={nn}", label()), &format!("{:?}", o.map(|x| x.len()))),
                }
            }
        }
    }
}

fn hash_f(x: &[f64]) -> u64 {
    crate::fw::hash64(&x.iter().map(|v| v.to_bits() >> 16).collect::<Vec<_>>())
}

fn shape_errors(mc: &Mc) {
    let t = add(mul(v("x"), v("y")), f("sin", v("z")));
    let e = t.expr();
    let vars = ["x", "y", "z"];
    let ce = CompiledEvaluator::compile(&e, &vars, None).unwrap();
    let data: Vec<f64> = (0..1200).map(|i| 0.25 * (i % 9) as f64).collect();
    let lens = [0usize, 1, 2, 3, 4, 5, 7, 8, 255, 256, 257, 300, 512, 600];
    // column count
    for k in 0..6 {
        if k == 3 {
            continue;
        }
        let cs: Vec<&[f64]> = (0..k).map(|_| &data[..5]).collect();
        let mut out = vec![0.0; 8];
        mc.enter(&format!("column count {k}"));
        for (w, r) in [
            ("eval_batch", ce.eval_batch(&cs, &mut out, None).err()),
            ("eval_batch_parallel", ce.eval_batch_parallel(&cs).err()),
        ] {
            mc.trans(1);
            match r {
                Some(DiffError::EvalColumnMismatch { expected: 3, got }) if got == k => mc.trace(),
                o => mc.violation(0, &format!("{w} with {k} columns for 3 parameters"), &format!("{o:?}")),
            }
        }
        if symb_anafis::eval_f64(&[&e], &[&vars], &[&cs[..]]).is_ok() {
            mc.violation(0, &format!("eval_f64 with {k} columns for 3 parameters"), "accepted");
        }
    }
    // unequal lengths in every position
    for &a in &lens {
        for &b in &lens {
            for pos in 0..3 {
                if a == b {
                    continue;
                }
                let cs: Vec<&[f64]> = (0..3).map(|i| if i == pos { &data[..b] } else { &data[..a] }).collect();
                mc.enter(&format!("lengths {a} with {b} at column {pos}"));
                let mut out = vec![0.0; a.max(b)];
                let key = format!("lengths {a} except column {pos} with {b}");
                mc.trans(3);
                mc.guard(0, || match ce.eval_batch(&cs, &mut out, None) {
                    Err(DiffError::EvalColumnLengthMismatch) => mc.trace(),
                    o => mc.violation(0, &format!("eval_batch {key}"), &format!("{o:?}")),
                });
                mc.guard(0, || match ce.eval_batch_parallel(&cs) {
                    Err(DiffError::EvalColumnLengthMismatch) => mc.trace(),
                    o => mc.violation(0, &format!("eval_batch_parallel {key}"), &format!("{:?}", o.map(|x| x.len()))),
                });
                mc.enter(&format!("eval_f64 {key}"));
                mc.guard(0, || match symb_anafis::eval_f64(&[&e], &[&vars], &[&cs[..]]) {
                    Err(_) => mc.trace(),
                    o => mc.violation(0, &format!("eval_f64 {key}"), &format!("accepted: {:?}", o.map(|x| x[0].len()))),
                });
            }
        }
    }
    // output too small
    for nn in 1..12usize {
        for have in 0..nn {
            let cs: Vec<&[f64]> = (0..3).map(|_| &data[..nn]).collect();
            let mut out = vec![3.25; have];
            mc.enter(&format!("output {have} of {nn}"));
            mc.trans(1);
            match ce.eval_batch(&cs, &mut out, None) {
                Err(DiffError::EvalOutputTooSmall { needed, got }) if needed == nn && got == have && out.iter().all(|x| *x == 3.25) => mc.trace(),
                o => mc.violation(0, &format!("eval_batch output {have} for {nn} points"), &format!("{o:?} {out:?}")),
            }
        }
    }
    // several expressions at once through eval_f64, in every order of sizes
    let es: Vec<Expr> = vec![add(v("x"), n(1.0)).expr(), mul(v("y"), v("x")).expr(), f("sin", v("z")).expr()];
    let vn: Vec<Vec<&str>> = vec![vec!["x"], vec!["y", "x"], vec!["z"]];
    for &a in &lens[1..] {
        for &b in &lens[1..] {
            for &c in &[1usize, 5, 256, 300] {
                let ls = [a, b, c];
                let cols: Vec<Vec<&[f64]>> = (0..3).map(|i| vn[i].iter().enumerate().map(|(k, _)| &data[k..k + ls[i]]).collect()).collect();
                let dr: Vec<&[&[f64]]> = cols.iter().map(|c| &c[..]).collect();
                let er: Vec<&Expr> = es.iter().collect();
                let vr: Vec<&[&str]> = vn.iter().map(|v| &v[..]).collect();
                mc.enter(&format!("eval_f64 three expressions {a},{b},{c}"));
                mc.trans(1);
                match symb_anafis::eval_f64(&er, &vr, &dr) {
                    Ok(o) => {
                        let ok = o.len() == 3
                            && (0..3).all(|i| o[i].len() == ls[i])
                            && (0..a).all(|j| (o[0][j] - (data[j] + 1.0)).abs() < 1e-12)
                            && (0..b).all(|j| (o[1][j] - data[j] * data[j + 1]).abs() < 1e-12)
                            && (0..c).all(|j| (o[2][j] - data[j].sin()).abs() < 1e-12);
                        if !ok {
                            mc.violation(0, &format!("eval_f64 three expressions lengths {ls:?}"), "wrong numbers or lengths");
                        } else {
                            mc.trace();
                        }
                    }
                    Err(er) => mc.violation(0, &format!("eval_f64 three expressions lengths {ls:?}"), &format!("{er:?}")),
                }
            }
        }
    }
}

pub fn run_batch(mc: &Arc<Mc>) {
    mc.note("oracle: single-point evaluation of the same compiled expression; a point at which neither is finite is not compared");
    let small: Vec<usize> = vec![5, 4, 1, 3, 7];
    for (l, al, k) in alphabets(mc.thorough) {
        let k = k.min(if mc.thorough { 6 } else { 5 });
        sweep(mc, l, &al, k, |r, t| check_batch(mc, r, &|| t.text(), t, &small, false));
    }
    let fam = families(mc.thorough);
    let lens = batch_lengths(mc.thorough);
    mc.par("families", fam.len() as u64, 1, |i| {
        let (l, t) = &fam[i as usize];
        check_batch(mc, 1 << 40 | i, &|| l.clone(), t, &[9, 4, 3], false);
    });
    let sl = crate::slots::slots(mc.thorough);
    mc.par("numbers", sl.len() as u64, 16, |i| check_batch(mc, 3 << 40 | i, &|| sl[i as usize].text(), &sl[i as usize], &small, false));
    // every instruction kind against every batch length, parallel entry points included
    let mut list: Vec<A> = vec![];
    for g in UNARY {
        list.push(f(g, v("x")));
        list.push(mul(v("y"), f(g, add(v("x"), v("y")))));
    }
    for (_, al, _) in alphabets(false).into_iter().skip(3).take(1) {
        for a in &al.leaves {
            list.push(a.clone());
            list.push(add(mul(a.clone(), v("y")), v("z")));
            list.push(sub(v("z"), mul(a.clone(), v("y"))));
        }
    }
    list.extend(fam.iter().filter(|(l, _)| l.starts_with("bessel") || l.starts_with("poly") || l.starts_with("ynm") || l.starts_with("hermite") || l.starts_with("assoc") || l.ends_with("33") || l.ends_with("65")).map(|x| x.1.clone()));
    list.push(n(2.5));
    list.push(c("pi"));
    mc.par("lengths", list.len() as u64, 1, |i| {
        let t = &list[i as usize];
        check_batch(mc, 2 << 40 | i, &|| { let s = t.text(); if s.len() > 200 { format!("list#{i}") } else { s } }, t, &lens, true);
    });
    mc.enter("shapes");
    mc.guard(0, || shape_errors(mc));
    mc.sample(list[3].text());
    mc.sample(format!("lengths {lens:?}"));
}
