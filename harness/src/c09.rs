//! C09 derivatives.
use crate::fw::Mc;
use crate::num::{E, UNARY};
use crate::tree::*;
use std::sync::Arc;
use symb_anafis::{symb, Diff, Expr};

pub const PTS: &[f64] = &[0.6, -0.7, 1.7, 0.0, -2.3, 0.25];
pub const POS: &[f64] = &[0.6, 1.7, 0.25, 2.4];

pub fn leaves_small() -> Vec<A> {
    vec![v("x"), v("y"), n(2.0), n(0.5), n(-1.0), n(3.0)]
}

/// Is `got` (a tree read back from the library) an acceptable value for the reference `r`?
/// None: fine or not comparable.  Some(text): wrong.
pub fn judge(r: &E, got: &T, env: Env) -> Option<String> {
    if !r.stable() {
        return None;
    }
    let g = got.eval(env);
    if !g.defined() {
        // overflow inside (x / inf): what the library evaluates it to decides
        if let Some(x) = lib_eval(&got.expr(), env) {
            if x.is_finite() && (x - r.v).abs() <= r.tol() {
                return None;
            }
        }
        return Some(format!("expected {:e}, result is undefined there", r.v));
    }
    if !g.stable() || agree2(r, &g) {
        return None;
    }
    Some(format!("expected {:e} (+-{:.1e}), result is {:e} (+-{:.1e})", r.v, r.tol(), g.v, g.tol()))
}

/// `judge` for the derivative by `w` of `t`; where the result is undefined at the point itself, the derivative formula
/// may have an isolated removable singularity (sinc at 0): it is accepted if it is right on every neighbour where it is
/// defined and there is such a neighbour, or if the expression is not stably differentiable next to the point at all.
pub fn judge_near(t: &T, w: &str, r: &E, got: &T, env: Env) -> Option<String> {
    let m = judge(r, got, env)?;
    if got.eval(env).defined() {
        return Some(m);
    }
    let mut comparable = false;
    let mut right = false;
    for sign in [1.0, -1.0, 1.3, -1.3] {
        let q: Vec<(&'static str, f64)> = env.iter().enumerate().map(|(i, (s, x))| (*s, x + sign * 0.0137 * (i + 1) as f64)).collect();
        let rq = t.eval_d(&q, w).d;
        if !rq.stable() {
            continue;
        }
        comparable = true;
        let g = got.eval(&q);
        if !g.defined() {
            continue;
        }
        if g.stable() {
            if !agree2(&rq, &g) {
                return Some(format!("{m}; and next to it, at {}, expected {:e}, result is {:e}", env_text(&q), rq.v, g.v));
            }
            right = true;
        }
    }
    if comparable && !right {
        Some(m)
    } else {
        None
    }
}

fn points(t: &T, pts: &[f64]) -> Vec<Vec<(&'static str, f64)>> {
    let vars = t.var_list();
    match vars.len() {
        0 => vec![vec![]],
        1 => grid(&vars, pts),
        2 => grid(&vars, &pts[..pts.len().min(5)]),
        3 => grid(&vars, &pts[..3]),
        _ => (0..6).map(|k| vars.iter().enumerate().map(|(i, s)| (*s, pts[(k + i * (k + 1)) % pts.len()] + 0.01 * i as f64)).collect()).collect(),
    }
}

/// level: 0 raw first derivative, 1 + simplified routes, 2 + second derivatives and text route
fn check(mc: &Mc, rank: u64, label: &str, t: &A, level: u8) {
    let lab = || if label.is_empty() { t.text() } else { label.to_string() };
    mc.enter(&lab());
    let e = t.expr();
    let pts = points(t, PTS);
    let mut wrt: Vec<&'static str> = t.var_list();
    wrt.sort_by_key(|w| !matches!(*w, "x" | "y"));
    wrt.truncate(2);
    if level >= 1 && rank % 16 == 0 {
        wrt.push("absent");
    }
    for w in wrt {
        let raw = e.derive(w, None);
        let rraw = read(&raw);
        mc.trans(1);
        mc.state(&raw.structural_hash());
        let mut refs = vec![];
        for p in &pts {
            let r = t.eval_d(p, w).d;
            if let Some(m) = judge_near(t, w, &r, &rraw, p) {
                let key = match known_site(t) {
                    Some(k) if m.contains("undefined there") => k.to_string(),
                    _ => format!("derivative of [{}] by {w} at {}", lab(), env_text(p)),
                };
                mc.violation(rank, &key, &format!("[{}] by {w}: {m}; derivative {raw}", lab()));
                return;
            }
            if r.stable() {
                mc.trace();
            }
            refs.push(r);
        }
        if level >= 1 {
            // the other public routes, with simplification: positive points at which the plain derivative is defined
            let mut routes: Vec<(&str, Expr)> = vec![];
            let s = symb(w);
            match Diff::new().differentiate(&e, &s) {
                Ok(d) => routes.push(("differentiate", d)),
                Err(er) => mc.violation(rank, &format!("differentiate [{}] by {w}", lab()), &format!("{er:?}")),
            }
            let dr = e.derive_raw(w);
            let rdr = read(&dr);
            for (p, r) in pts.iter().zip(&refs) {
                if let Some(m) = judge_near(t, w, r, &rdr, p) {
                    mc.violation(rank, &format!("derive_raw [{}] by {w} at {}", lab(), env_text(p)), &m);
                    return;
                }
            }
            match Diff::new().skip_simplification(true).differentiate(&e, &s) {
                Ok(d) => {
                    let rd = read(&d);
                    for (p, r) in pts.iter().zip(&refs) {
                        if let Some(m) = judge_near(t, w, r, &rd, p) {
                            mc.violation(rank, &format!("differentiate without simplification [{}] by {w} at {}", lab(), env_text(p)), &m);
                            return;
                        }
                    }
                }
                Err(er) => mc.violation(rank, &format!("differentiate without simplification [{}] by {w}", lab()), &format!("{er:?}")),
            }
            if level >= 2 {
                if let Ok(d) = e.diff(w) {
                    routes.push(("Expr::diff", d));
                }
                match symb_anafis::diff(&t.text(), w, &[], None) {
                    Ok(s) => match lib_parse(&s) {
                        Ok(d) => routes.push(("diff text", d)),
                        Err(er) => mc.violation(rank, &format!("diff text [{}] by {w}", lab()), &format!("result {s:?} does not parse: {er:?}")),
                    },
                    Err(er) => mc.violation(rank, &format!("diff text [{}] by {w}", lab()), &format!("{er:?}")),
                }
            }
            let pp = points(t, POS);
            for (nm, d) in &routes {
                let rd = read(d);
                mc.trans(1);
                for p in &pp {
                    let r = t.eval_d(p, w).d;
                    if !rraw.eval(p).stable() || !rraw.regular(p) || !t.regular(p) {
                        continue;
                    }
                    if let Some(m) = judge_near(t, w, &r, &rd, p) {
                        mc.violation(rank, &format!("{nm} [{}] by {w} at {}", lab(), env_text(p)), &format!("{m}; derivative {d}"));
                        return;
                    }
                }
            }
        }
        if level >= 2 {
            // second derivatives by induction: derivative of the first one
            for w2 in t.var_list().into_iter().take(2) {
                let d2 = raw.derive(w2, None);
                let rd2 = read(&d2);
                mc.trans(1);
                for p in &pts {
                    let r = rraw.eval_d(p, w2).d;
                    if let Some(m) = judge_near(&rraw, w2, &r, &rd2, p) {
                        mc.violation(rank, &format!("second derivative of [{}] by {w},{w2} at {}", lab(), env_text(p)), &format!("{m}; from {raw} got {d2}"));
                        return;
                    }
                }
            }
        }
    }
}

pub fn inner(x: &'static str, y: &'static str) -> Vec<A> {
    vec![
        v(x),
        mul(n(2.0), v(x)),
        add(v(x), v(y)),
        mul(v(x), v(y)),
        pow(v(x), n(2.0)),
        add(pow(v(x), n(2.0)), n(1.0)),
        div(v(x), v(y)),
        f("exp", v(x)),
        f("sin", v(x)),
        add(f("cos", v(y)), mul(n(0.5), v(x))),
        n(0.75),
        v(y),
    ]
}

/// functions with integer orders or several arguments, over the inner expressions
pub fn multi(thorough: bool) -> Vec<A> {
    let inn = inner("x", "y");
    let mut out = vec![];
    let top = if thorough { 9 } else { 5 };
    for g in &inn {
        for fname in ["besselj", "bessely", "besseli", "besselk", "polygamma", "zeta_deriv", "hermite"] {
            for k in 0..=top {
                if fname == "zeta_deriv" && k > 2 {
                    continue;
                }
                out.push(f2(fname, n(k as f64), g.clone()));
            }
            if fname.starts_with("bessel") {
                for k in 1..=3 {
                    out.push(f2(fname, n(-(k as f64)), g.clone()));
                }
            }
        }
        for l in 0..=top.min(4) {
            for m in -l..=l {
                out.push(fs("assoc_legendre", vec![n(l as f64), n(m as f64), f("cos", g.clone())]));
                out.push(fs("assoc_legendre", vec![n(l as f64), n(m as f64), mul(n(0.25), g.clone())]));
                for name in ["ynm", "spherical_harmonic"] {
                    out.push(fs(name, vec![n(l as f64), n(m as f64), g.clone(), v("y")]));
                    out.push(fs(name, vec![n(l as f64), n(m as f64), v("y"), g.clone()]));
                }
            }
        }
        for h in &inn {
            for name in ["atan2", "log", "beta"] {
                out.push(f2(name, g.clone(), h.clone()));
            }
        }
    }
    out
}

pub fn long_forms(thorough: bool) -> Vec<(String, A)> {
    let mut out = vec![];
    let x = || v("x");
    let fac: Vec<A> = vec![
        x(), f("sin", x()), f("exp", x()), add(x(), n(1.0)), f("cos", v("y")), v("y"), f("sqrt", add(pow(x(), n(2.0)), n(1.0))), f("tanh", x()), f("atan", x()),
        add(pow(x(), n(2.0)), n(0.5)), f("sinh", x()), add(v("y"), x()), f("erf", x()), f("asinh", x()), sub(x(), n(0.25)), f("cosh", v("y")),
    ];
    let top = if thorough { 24 } else { 14 };
    for k in 1..=top {
        for start in 0..fac.len() {
            let g = |i: usize| fac[(start + i * 5) % fac.len()].clone();
            out.push((format!("product{k}@{start}"), Arc::new(T::Prod((0..k).map(g).collect()))));
            out.push((format!("sum{k}@{start}"), Arc::new(T::Sum((0..k).map(g).collect()))));
            if start % 4 == 0 {
                out.push((format!("quotient{k}@{start}"), div(Arc::new(T::Prod((0..k).map(g).collect())), add(f("exp", g(k)), n(1.0)))));
                // polynomial in a base
                let mut p = n(1.0);
                for i in 1..=k.min(8) {
                    p = add(p, mul(n(((i * 3) % 5) as f64 - 2.0), pow(g(0), n(i as f64))));
                }
                out.push((format!("poly{k}@{start}"), p.clone()));
                out.push((format!("polyfn{k}@{start}"), f("sin", mul(p, n(0.1)))));
            }
        }
        let mut t = v("x");
        for i in 0..k.min(10) {
            t = f(["sin", "atan", "exp", "tanh", "cos", "sqrt", "asinh"][(i * 3 + k) % 7], mul(t, n(0.5)));
        }
        out.push((format!("chain{k}"), t));
    }
    for i in -12..=12 {
        for b in inner("x", "y") {
            out.push((format!("power {} ^ {}", b.text(), i as f64 / 2.0), pow(b.clone(), n(i as f64 / 2.0))));
            out.push((format!("coef power {} ^ {}", b.text(), i), mul(n(-1.5), pow(b, n(i as f64)))));
        }
    }
    out
}

/// Factors and terms of every kind, each alone and in pairs among plain ones, around the length at which products
/// switch to logarithmic differentiation.
pub fn mixed_long(thorough: bool) -> Vec<(String, A)> {
    let x = || v("x");
    let y = || v("y");
    let special: Vec<A> = vec![
        pow(x(), x()),
        pow(x(), y()),
        pow(y(), x()),
        pow(n(2.0), x()),
        pow(c("e"), x()),
        pow(x(), f("sin", x())),
        pow(f("exp", x()), y()),
        pow(add(x(), y()), x()),
        pow(add(x(), n(1.0)), n(2.0)),
        pow(x(), n(-2.0)),
        pow(x(), n(0.5)),
        pow(add(x(), y()), n(-1.5)),
        div(n(1.0), add(x(), n(2.0))),
        div(f("sin", x()), add(y(), x())),
        div(y(), f("exp", y())),
        add(add(pow(x(), n(2.0)), x()), n(1.0)),
        add(add(pow(f("sin", x()), n(2.0)), f("sin", x())), n(3.0)),
        add(add(pow(y(), n(2.0)), y()), n(1.0)),
        neg(f("exp", x())),
        f("abs", x()),
        f("sqrt", add(x(), y())),
        f("ln", x()),
        f2("besselj", n(1.0), x()),
        f2("atan2", x(), y()),
        f2("log", n(3.0), x()),
        f("sinc", x()),
        mul(n(3.0), x()),
        n(2.0),
    ];
    let names = ["a", "b", "d", "g", "h", "k", "m", "p", "q", "r", "s", "t", "u", "w"];
    let vary: Vec<A> = vec![x(), f("sin", x()), f("exp", y()), f("tanh", x()), f("cosh", y()), f("atan", x()), f("erf", x()), f("sinh", y()), f("asinh", x()), f("cosh", x()), f("tanh", y()), f("atan", y()), f("gamma", x()), f("erf", y())];
    let mut out = vec![];
    let ks: Vec<usize> = if thorough { (7..=15).collect() } else { vec![9, 10, 11, 13] };
    for k in ks {
        for (i, s) in special.iter().enumerate() {
            for vf in 0..2 {
                let fill = |m: usize| if vf == 0 { v(names[m % 14]) } else { vary[m % 14].clone() };
                // a product or sum of exactly k factors: operands are put in order by the library
                let mut one: Vec<A> = (0..k - 1).map(fill).collect();
                one.push(s.clone());
                out.push((format!("product of {k} with {} ({vf})", s.text()), Arc::new(T::Prod(one.clone()))));
                out.push((format!("sum of {k} with {} ({vf})", s.text()), Arc::new(T::Sum(one.clone()))));
                out.push((format!("quotient of {k} with {} ({vf})", s.text()), div(Arc::new(T::Prod(one.clone())), add(x(), y()))));
                for (j, s2) in special.iter().enumerate().take(i) {
                    if (i + j + k) % 2 == vf {
                        let mut two: Vec<A> = (0..k - 2).map(fill).collect();
                        two.push(s.clone());
                        two.push(s2.clone());
                        out.push((format!("product of {k} with {} and {}", s.text(), s2.text()), Arc::new(T::Prod(two))));
                    }
                }
            }
        }
    }
    out
}

pub fn macro_alpha() -> Alpha {
    Alpha {
        leaves: vec![
            v("x"), v("y"), n(2.0), n(-0.5), f("sin", v("x")), f("exp", mul(v("x"), v("y"))), add(pow(v("x"), n(2.0)), n(1.0)), f("ln", add(v("x"), n(3.0))), f("sqrt", add(v("x"), v("y"))), pow(v("x"), n(3.0)), f("abs", v("x")), f("tan", v("y")),
        ],
        un: vec!["exp", "sin", "sqrt", "ln"],
        neg: true,
        bin: "+-*/^",
        bfn: vec![],
    }
}

pub fn run(mc: &Arc<Mc>) {
    mc.note("reference: forward-mode dual numbers over the tree with hand-written derivative tables, error-bounded; undefined or unstable points are not compared");
    let th = mc.thorough;
    let all = Alpha { leaves: leaves_small(), un: UNARY.to_vec(), neg: true, bin: "+-*/^", bfn: vec!["atan2", "log", "beta"] };
    sweep(mc, "all", &all, 3, |r, t| check(mc, r, "", t, 2));
    let all4 = Alpha { leaves: vec![v("x"), v("y"), n(2.0)], ..all.clone() };
    sweep(mc, "all4", &all4, 4, |r, t| check(mc, r, "", t, if th { 2 } else { 1 }));
    let arith = Alpha { leaves: vec![v("x"), v("y"), n(2.0), n(-1.0), n(0.5)], un: vec!["exp", "ln", "sin"], neg: true, bin: "+-*/^", bfn: vec![] };
    sweep(mc, "arith", &arith, if th { 6 } else { 5 }, |r, t| check(mc, r, "", t, 2));
    sweep(mc, "arith-raw", &arith, if th { 7 } else { 6 }, |r, t| check(mc, r, "", t, 0));
    let m = macro_alpha();
    sweep(mc, "macro", &m, 4, |r, t| check(mc, r, "", t, 2));
    sweep(mc, "macro-raw", &m, if th { 6 } else { 5 }, |r, t| check(mc, r, "", t, 0));
    let mu = multi(th);
    mc.par("orders", mu.len() as u64, 4, |i| check(mc, 1 << 40 | i, "", &mu[i as usize], if i % 3 == 0 || th { 1 } else { 0 }));
    let sl = crate::slots::slots(th);
    mc.par("numbers", sl.len() as u64, 16, |i| check(mc, 4 << 40 | i, "", &sl[i as usize], 1));
    let lf = long_forms(th);
    mc.par("long", lf.len() as u64, 1, |i| check(mc, 2 << 40 | i, &lf[i as usize].0, &lf[i as usize].1, 1));
    let ml = mixed_long(th);
    mc.par("mixed-long", ml.len() as u64, 1, |i| check(mc, 3 << 40 | i, &ml[i as usize].0, &ml[i as usize].1, 0));
    mc.sample(lf[9].1.text());
    mc.sample(mu[40].text());
}

/// Call sites with a recorded, unrepaired finding (known_findings.txt names them)
fn known_site(t: &T) -> Option<&'static str> {
    let top = |t: &T| {
        if let T::F(n, a) = t {
            if *n == "ynm" && a.len() == 4 {
                if let (T::N(l), T::N(m)) = (&*a[0], &*a[1]) {
                    return l == m;
                }
            }
        }
        false
    };
    top(t).then_some("theta derivative of ynm(l,m,..) with m = l is undefined")
}
