//! C12 / C13: simplification keeps the value.
use crate::fw::Mc;
use crate::num::UNARY;
use crate::tree::*;
use std::sync::Arc;
use symb_anafis::{Expr, Simplify};

pub struct Theme {
    pub name: &'static str,
    pub al: Alpha,
    /// size bound: quick, thorough
    pub q: usize,
    pub t: usize,
}

/// Alphabets whose leaves are the building blocks the rewrite rules look for.
pub fn themes() -> Vec<Theme> {
    let x = || v("x");
    let y = || v("y");
    let sq = |a: A| pow(a, n(2.0));
    let mk = |name, leaves: Vec<A>, un: Vec<&'static str>, bin: &'static str, q, t| Theme { name, al: Alpha { leaves, un, neg: true, bin, bfn: vec![] }, q, t };
    let pi = || c("pi");
    vec![
        mk("arith", vec![x(), y(), n(2.0), n(-1.0), n(0.5), n(3.0)], vec![], "+-*/^", 6, 7),
        mk("ints", vec![x(), n(0.0), n(1.0), n(2.0), n(4.0), n(-6.0)], vec![], "+-*/^", 6, 7),
        mk(
            "poly",
            vec![x(), add(x(), n(1.0)), sub(x(), n(1.0)), sub(x(), y()), add(x(), y()), sq(x()), sq(y()), mul(x(), y()), n(2.0), n(-3.0), pow(x(), n(3.0)), mul(n(2.0), x())],
            vec![],
            "+-*/^",
            5,
            6,
        ),
        mk(
            "trinomials",
            {
                let mut l = vec![n(1.0), n(4.0), n(-9.0), n(6.0), n(2.25)];
                for m in [x(), sq(x()), pow(x(), n(-2.0)), pow(x(), n(-1.0)), pow(x(), n(4.0)), y(), sq(y()), mul(x(), y()), mul(sq(x()), y()), mul(x(), pow(y(), n(-1.0))), f("sin", x()), sq(f("sin", x())), mul(f("sin", x()), y()), pow(x(), n(3.0)), pow(x(), n(0.5))] {
                    for k in [1.0, 2.0, 4.0, -6.0] {
                        l.push(if k == 1.0 { m.clone() } else { mul(n(k), m.clone()) });
                    }
                }
                l
            },
            vec![],
            "+",
            5,
            5,
        ),
        mk(
            "trig",
            vec![
                x(), f("sin", x()), f("cos", x()), f("tan", x()), f("sin", mul(n(2.0), x())), f("cos", mul(n(2.0), x())), sq(f("sin", x())), sq(f("cos", x())), f("sin", y()), f("cos", y()), n(1.0), n(2.0), n(-0.5),
            ],
            vec!["sin", "cos", "tan"],
            "+-*/^",
            5,
            5,
        ),
        mk(
            "trig3",
            vec![
                f("sin", x()), f("cos", x()), pow(f("sin", x()), n(3.0)), pow(f("cos", x()), n(3.0)), f("sin", mul(n(3.0), x())), f("cos", mul(n(3.0), x())), n(3.0), n(4.0), f("sec", x()), f("csc", x()), f("cot", x()), sq(f("tan", x())), sq(f("sec", x())), sq(f("csc", x())), sq(f("cot", x())),
            ],
            vec![],
            "+-*/",
            5,
            6,
        ),
        mk(
            "angles",
            vec![x(), y(), pi(), div(pi(), n(2.0)), div(pi(), n(3.0)), div(pi(), n(4.0)), div(pi(), n(6.0)), mul(n(2.0), pi()), n(2.0), n(-1.0)],
            vec!["sin", "cos", "tan", "cot", "sec", "csc"],
            "+-*/",
            5,
            5,
        ),
        mk(
            "hyper",
            vec![
                f("exp", x()), f("exp", neg(x())), f("sinh", x()), f("cosh", x()), f("tanh", x()), sq(f("sinh", x())), sq(f("cosh", x())), f("sech", x()), f("coth", x()), f("csch", x()), n(1.0), n(2.0), n(-1.0), f("exp", mul(n(2.0), x())), sq(f("tanh", x())), sq(f("coth", x())), sq(f("sech", x())), sq(f("csch", x())),
            ],
            vec![],
            "+-*/^",
            5,
            5,
        ),
        mk(
            "hyper3",
            vec![pow(f("sinh", x()), n(3.0)), pow(f("cosh", x()), n(3.0)), f("sinh", x()), f("cosh", x()), n(3.0), n(4.0), x(), f("exp", x()), pow(c("e"), x())],
            vec!["sinh", "cosh", "tanh"],
            "+-*/",
            5,
            6,
        ),
        mk(
            "explog",
            vec![x(), y(), f("ln", x()), f("ln", y()), f("exp", x()), f("exp", y()), c("e"), n(2.0), n(-1.0), n(0.5), f("log2", x()), f("log10", x())],
            vec!["exp", "ln", "log2", "log10"],
            "+-*/^",
            5,
            5,
        ),
        mk(
            "roots",
            vec![x(), y(), f("sqrt", x()), f("cbrt", x()), f("abs", x()), sq(x()), pow(x(), n(0.5)), pow(x(), div(n(1.0), n(3.0))), n(2.0), n(-1.0), n(4.0), f("sqrt", y())],
            vec!["sqrt", "cbrt", "abs", "signum"],
            "+-*/^",
            5,
            5,
        ),
        mk("powers", vec![x(), y(), n(2.0), n(3.0), n(-2.0), div(n(1.0), n(2.0)), div(n(1.0), n(3.0)), div(n(2.0), n(3.0))], vec!["sqrt", "cbrt"], "*/^", 5, 6),
        mk("fractions", vec![x(), y(), n(2.0), n(6.0), div(n(1.0), x()), div(x(), y()), div(n(3.0), n(4.0)), add(x(), y())], vec![], "+-*/", 5, 6),
        mk("functions", vec![x(), y(), n(2.0), n(-1.0), n(0.0)], UNARY.to_vec(), "+-*/^", 3, 4),
        mk("inverse", vec![x(), neg(x()), n(0.5), n(1.0)], vec!["asin", "acos", "atan", "acot", "asec", "acsc", "sin", "cos", "tan", "cot", "sec", "csc"], "+-*/", 5, 5),
        mk("hinverse", vec![x(), neg(x()), n(0.5), n(2.0)], vec!["asinh", "acosh", "atanh", "acoth", "asech", "acsch", "sinh", "cosh", "tanh", "exp", "ln", "sqrt"], "+-*/", 5, 5),
        mk("sizes", vec![x(), y(), n(1e-11), n(1e-300), n(1.0 + 1e-11), n(1e16), n(3e-7), n(0.1), n(0.3), n(-1.0)], vec!["sqrt"], "+-*/^", 4, 5),
        mk("mixed", vec![x(), y(), f("sin", x()), f("exp", mul(x(), y())), add(sq(x()), n(1.0)), f("ln", add(x(), n(3.0))), f("sqrt", add(x(), y())), f("abs", sub(x(), y())), n(2.0), n(-0.5)], vec!["exp", "sqrt", "cos"], "+-*/^", 5, 5),
    ]
}

pub const ALL: &[f64] = &[0.6, -0.7, 1.7, 0.0, -2.3, 1.0, -1.0, 2.0, 0.25];
pub const POS: &[f64] = &[0.6, 1.7, 1.0, 0.25, 2.4, 2.0];

fn points(t: &T, pts: &[f64]) -> Vec<Vec<(&'static str, f64)>> {
    let vars = t.var_list();
    match vars.len() {
        0 => vec![vec![]],
        1 => grid(&vars, pts),
        2 => grid(&vars, &pts[..pts.len().min(6)]),
        _ => grid(&vars, &pts[..3]),
    }
}

/// None: fine
pub fn differs(t: &T, s: &T, p: Env, what: &str, strict: bool) -> Option<String> {
    let r = t.eval(p);
    if !r.stable() || (!strict && !t.regular(p)) {
        return None;
    }
    let g = s.eval(p);
    if !g.defined() {
        if let Some(x) = lib_eval(&s.expr(), p) {
            if x.is_finite() && (x - r.v).abs() <= r.tol() {
                return None;
            }
        }
        let bad = || Some(format!("at {}: value {:e}, {what} is undefined there", env_text(p), r.v));
        // an isolated point (a common denominator that vanishes there) is accepted if the result is right all around it
        let mut right = false;
        for sign in [1.0, -1.0, 1.3, -1.3] {
            let q: Vec<(&'static str, f64)> = p.iter().enumerate().map(|(i, (w, x))| (*w, x + sign * 0.0137 * (i + 1) as f64)).collect();
            let rq = t.eval(&q);
            if !rq.stable() || (!strict && !t.regular(&q)) {
                continue;
            }
            let gq = s.eval(&q);
            if gq.defined() && !gq.stable() {
                continue;
            }
            if !gq.defined() || !agree2(&rq, &gq) {
                return bad();
            }
            right = true;
        }
        return if right { None } else { bad() };
    }
    if !g.stable() || agree2(&r, &g) {
        return None;
    }
    Some(format!("at {}: value {:e} (+-{:.1e}), {what} gives {:e} (+-{:.1e})", env_text(p), r.v, r.tol(), g.v, g.tol()))
}

fn judge(mc: &Mc, rank: u64, t: &A, pts: &[Vec<(&'static str, f64)>], nm: &str, s: &Expr, strict: bool) -> bool {
    let rs = read(s);
    mc.trans(1);
    mc.state(&s.structural_hash());
    let vs = t.var_list();
    for w in rs.var_list() {
        if !vs.contains(&w) {
            mc.violation(rank, &format!("{nm} [{}]", t.text()), &format!("mentions the new variable {w}: {s}"));
            return false;
        }
    }
    for p in pts {
        if let Some(m) = differs(t, &rs, p, "result", strict) {
            mc.violation(rank, &format!("{nm} [{}]", t.text()), &format!("{m}; result {s}"));
            return false;
        }
        mc.trace();
    }
    true
}

fn check(mc: &Mc, rank: u64, t: &A, safe: bool) {
    mc.enter(&t.text());
    let e = t.expr();
    let pts = points(t, ALL);
    let ok = match Simplify::new().domain_safe(safe).simplify(&e) {
        Ok(s) => judge(mc, rank, t, &pts, "simplify", &s, safe),
        Err(er) => {
            mc.violation(rank, &format!("simplify [{}]", t.text()), &format!("{er:?}"));
            false
        }
    };
    if !ok || rank % 8 != 0 {
        return;
    }
    // the other entry points
    if !safe {
        match e.simplified() {
            Ok(s) => {
                judge(mc, rank, t, &pts, "Expr::simplified", &s, false);
            }
            Err(er) => mc.violation(rank, &format!("Expr::simplified [{}]", t.text()), &format!("{er:?}")),
        }
        match symb_anafis::simplify(&t.text(), &[], None) {
            Ok(s) => match lib_parse(&s) {
                Ok(s) => {
                    judge(mc, rank, t, &pts, "simplify text", &s, false);
                }
                Err(er) => mc.violation(rank, &format!("simplify text [{}]", t.text()), &format!("result {s:?} does not parse: {er:?}")),
            },
            Err(er) => mc.violation(rank, &format!("simplify text [{}]", t.text()), &format!("{er:?}")),
        }
    } else {
        match Simplify::new().domain_safe(true).simplify_str(&t.text(), &[]) {
            Ok(s) => match lib_parse(&s) {
                Ok(s) => {
                    judge(mc, rank, t, &pts, "simplify_str", &s, true);
                }
                Err(er) => mc.violation(rank, &format!("simplify_str [{}]", t.text()), &format!("result {s:?} does not parse: {er:?}")),
            },
            Err(er) => mc.violation(rank, &format!("simplify_str [{}]", t.text()), &format!("{er:?}")),
        }
    }
}

pub fn run(mc: &Arc<Mc>, safe: bool) {
    mc.note("every tree of the themed alphabets up to the size bound; value compared with error-bounded reference arithmetic on a grid of points of both signs and zero");
    for (k, th) in themes().iter().enumerate() {
        let max = if mc.thorough { th.t } else { th.q };
        sweep(mc, th.name, &th.al, max, |r, t| check(mc, (k as u64) << 48 | r, t, safe));
    }
    let cc = collision_cases(if mc.thorough { 3000 } else { 300 });
    mc.par("hash-collisions", cc.len() as u64, 4, |i| check(mc, 1 << 59 | i, &cc[i as usize], safe));
    let sl = crate::slots::slots(mc.thorough);
    mc.par("numbers", sl.len() as u64, 16, |i| check(mc, 1 << 58 | i, &sl[i as usize], safe));
    let lf = crate::c09::long_forms(mc.thorough);
    mc.par("long", lf.len() as u64, 1, |i| check(mc, 1 << 60 | i, &lf[i as usize].1, safe));
}
