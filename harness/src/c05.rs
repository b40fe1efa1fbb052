//! C05: evaluating an expression substitutes values soundly, fully or in stages.
use crate::fw::Mc;
use crate::num::UNARY;
use crate::tree::*;
use std::collections::HashMap;
use std::sync::Arc;
use symb_anafis::{symb, Expr};

const PTS: &[f64] = &[0.6, -1.7, 2.0, 0.0, 1.0, -0.5];

fn points(vars: &[&'static str]) -> Vec<Vec<(&'static str, f64)>> {
    match vars.len() {
        0 => vec![vec![]],
        1 => grid(vars, PTS),
        2 => grid(vars, &PTS[..5]),
        3 => grid(vars, &PTS[..3]),
        _ => grid(vars, &PTS[..2]),
    }
}

/// every ordered partition of 0..k into non-empty stages
pub fn stagings(k: usize) -> Vec<Vec<Vec<usize>>> {
    fn go(left: u32, k: usize, cur: &mut Vec<Vec<usize>>, out: &mut Vec<Vec<Vec<usize>>>) {
        if left == 0 {
            out.push(cur.clone());
            return;
        }
        let mut s = left;
        while s > 0 {
            cur.push((0..k).filter(|i| s >> i & 1 == 1).collect());
            go(left & !s, k, cur, out);
            cur.pop();
            s = (s - 1) & left;
        }
    }
    let mut out = vec![];
    go((1 << k) - 1, k, &mut vec![], &mut out);
    out
}

fn check(mc: &Arc<Mc>, rank: u64, t: &A, by_text: bool) {
    let what = t.text();
    if !mc.wants(&what) {
        return;
    }
    mc.enter(&what);
    let e = t.expr();
    // the meaning of the expression as built; that building keeps the meaning is C04
    let m = read(&e);
    let vars = t.var_list();
    let none = HashMap::new();
    if mc.state(&what) {
        mc.trace();
    }
    let st = stagings(vars.len());
    for p in points(&vars) {
        let want = m.eval(&p);
        let usable = want.defined() && want.stable() && want.v.is_finite();
        if !usable {
            // the reference makes no claim about the number (0^0, poles, outside the domain): at least it must not
            // depend on the stages -- apart from 0*u and 0/u, which the library takes for 0 whatever u turns out to be
            if products(t) {
                let _ = lib_eval(&e, &p);
                mc.trans(1);
                continue;
            }
            staged_same(mc, rank, &what, &e, &p, &st);
            continue;
        }
        for s in &st {
            let mut cur = e.clone();
            let mut given: Vec<(&'static str, f64)> = vec![];
            for (i, stage) in s.iter().enumerate() {
                let mut m1: HashMap<&str, f64> = HashMap::new();
                for k in stage {
                    m1.insert(p[*k].0, p[*k].1);
                    given.push(p[*k]);
                }
                // both kinds of variable maps
                cur = if (rank + i as u64) % 2 == 0 {
                    cur.evaluate(&m1, &none)
                } else {
                    let m2: HashMap<u64, f64> = m1.iter().map(|(k, v)| (symb(k).id(), *v)).collect();
                    cur.evaluate(&m2, &none)
                };
                mc.trans(1);
                if i + 1 < s.len() {
                    // what is left mentions only what was not given, and has the same value
                    let rest = read(&cur);
                    for v in rest.var_list() {
                        if given.iter().any(|g| g.0 == v) || !vars.contains(&v) {
                            mc.violation(rank, &format!("{what} with {}", env_text(&given)), &format!("left {cur}, which still mentions {v}"));
                            return;
                        }
                    }
                    let remaining: Vec<(&'static str, f64)> = p.iter().filter(|q| !given.iter().any(|g| g.0 == q.0)).copied().collect();
                    let got = rest.eval(&remaining);
                    // an intermediate result may have lost digits or the removable value; it may not be a wrong number
                    if got.defined() && got.v.is_finite() && !agree2(&want, &got) {
                        mc.violation(
                            rank,
                            &format!("{what} with {}", env_text(&given)),
                            &format!("left {cur}, which at {} means {:?}; the expression means {:?}", env_text(&remaining), got.v, want.v),
                        );
                        return;
                    }
                }
            }
            if s.is_empty() {
                cur = e.evaluate(&HashMap::<&str, f64>::new(), &none);
            }
            if !agree(&want, cur.as_number()) {
                let stages = s.iter().map(|g| g.iter().map(|k| format!("{}={}", p[*k].0, p[*k].1)).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(" then ");
                mc.violation(rank, &format!("{what} with {stages}"), &format!("evaluates to {cur} ({:?}), ordinary arithmetic gives {:?} +- {:.1e}", cur.as_number(), want.v, want.tol()));
                return;
            }
        }
        if by_text {
            let text = t.min_text();
            mc.trans(1);
            match symb_anafis::evaluate_str(&text, &p) {
                Ok(r) => match r.parse::<f64>() {
                    Ok(x) if agree(&want, Some(x)) => {}
                    _ => {
                        mc.violation(rank, &format!("evaluate_str {text} with {}", env_text(&p)), &format!("gives {r:?}, ordinary arithmetic gives {:?}", want.v));
                        return;
                    }
                },
                Err(x) => {
                    mc.violation(rank, &format!("evaluate_str {text} with {}", env_text(&p)), &format!("is an error: {x}"));
                    return;
                }
            }
            // half of the variables through the text interface: the rest stays
            if p.len() >= 2 {
                for k in 0..p.len() {
                    let one = [p[k]];
                    let rest: Vec<(&str, f64)> = p.iter().filter(|q| q.0 != p[k].0).copied().collect();
                    let r = symb_anafis::evaluate_str(&text, &one).and_then(|r| symb_anafis::evaluate_str(&r, &rest).map(|q| (r, q)));
                    mc.trans(2);
                    match r {
                        Ok((r, q)) => {
                            if !q.parse::<f64>().is_ok_and(|x| agree(&want, Some(x)) || close(x, want.v)) {
                                mc.violation(rank, &format!("evaluate_str {text} with {}", env_text(&one)), &format!("gives {r:?}, which with the rest gives {q:?}; ordinary arithmetic gives {:?}", want.v));
                                return;
                            }
                        }
                        Err(x) => {
                            mc.violation(rank, &format!("evaluate_str {text} in two steps at {}", env_text(&p)), &format!("is an error: {x}"));
                            return;
                        }
                    }
                }
            }
        }
    }
}

fn products(t: &A) -> bool {
    match &**t {
        T::Mul(..) | T::Div(..) | T::Prod(..) => true,
        T::N(_) | T::V(_) | T::C(_) => false,
        T::Neg(a) | T::Der(a, ..) => products(a),
        T::Add(a, b) | T::Sub(a, b) | T::Pow(a, b) => products(a) || products(b),
        T::F(_, l) | T::U(_, l) | T::Sum(l) => l.iter().any(products),
    }
}

/// The value of a fully determined expression: a number, one of the infinities, or none.
fn status(e: &Expr) -> Option<f64> {
    e.as_number().filter(|x| !x.is_nan())
}

fn staged_same(mc: &Arc<Mc>, rank: u64, what: &str, e: &Expr, p: &[(&'static str, f64)], st: &[Vec<Vec<usize>>]) {
    let none = HashMap::new();
    let all: HashMap<&str, f64> = p.iter().copied().collect();
    let full = e.evaluate(&all, &none);
    mc.trans(1);
    for s in st {
        if s.len() < 2 {
            continue;
        }
        let mut cur = e.clone();
        for stage in s {
            let m1: HashMap<&str, f64> = stage.iter().map(|k| p[*k]).collect();
            cur = cur.evaluate(&m1, &none);
            mc.trans(1);
        }
        let same = match (status(&full), status(&cur)) {
            (Some(a), Some(b)) => a == b || close(a, b),
            (None, None) => true,
            _ => false,
        };
        if !same {
            let stages = s.iter().map(|g| g.iter().map(|k| format!("{}={}", p[*k].0, p[*k].1)).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(" then ");
            mc.violation(rank, &format!("{what} with {stages}"), &format!("evaluates to {cur}; with all values at once to {full}"));
            return;
        }
    }
}

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + b.abs())
}

pub fn run(mc: &Arc<Mc>) {
    let th = mc.thorough as usize;
    let x = || v("x");
    let y = || v("y");
    let z = || v("z");
    let sq = |a: A| pow(a, n(2.0));
    let al = |leaves: Vec<A>, un: Vec<&'static str>, bin: &'static str| Alpha { leaves, un, neg: true, bin, bfn: vec![] };
    let themes: Vec<(&str, Alpha, usize, u64)> = vec![
        ("arith", al(vec![x(), y(), n(2.0), n(-1.0), n(0.5)], vec![], "+-*/^"), 6 + th, 7),
        ("three", al(vec![x(), y(), z(), n(2.0)], vec!["sin"], "+-*/^"), 5, 11),
        ("linear", al(vec![x(), y(), z(), n(3.0)], vec![], "+-*/"), 6 + th, 31),
        ("poly", al(vec![x(), add(x(), y()), sq(add(x(), y())), add(add(sq(x()), x()), n(1.0)), add(add(sq(f("sin", mul(x(), y()))), f("sin", mul(x(), y()))), n(2.0)), pow(y(), n(3.0)), n(-1.0), n(2.0)], vec![], "+-*/^"), 5, 13),
        ("powers", al(vec![x(), y(), n(0.0), n(2.0), n(-1.0)], vec!["sqrt", "ln"], "+-^"), 5 + th, 13),
        ("roots", al(vec![x(), y(), n(2.0), n(-1.0), div(n(1.0), n(3.0)), n(0.5)], vec!["sqrt", "abs", "ln", "exp"], "+*/^"), 5 + th, 5),
        ("functions", al(vec![x(), y(), n(2.0), n(0.0), n(-1.0)], UNARY.to_vec(), "+-*/^"), 3 + th, 3),
        ("consts", al(vec![x(), y(), c("pi"), c("e")], vec!["ln", "cos"], "+-*/^"), 5 + th, 3),
        ("four", al(vec![x(), y(), z(), v("w")], vec![], "+*/^"), if th == 1 { 7 } else { 5 }, 37),
    ];
    for (name, a, k, every) in &themes {
        sweep(mc, name, a, *k, |rank, t| check(mc, rank, t, rank % every == 0));
    }
    // functions of several arguments
    let mut multi = vec![];
    let args = [n(1.0), n(2.0), x(), y(), add(x(), y()), mul(n(0.5), x()), n(0.0)];
    for g in ["atan2", "log", "beta", "besselj", "bessely", "besseli", "besselk", "polygamma", "hermite", "zeta_deriv"] {
        for a in &args {
            for b in &args {
                multi.push(f2(g, a.clone(), b.clone()));
                multi.push(mul(z(), f2(g, a.clone(), b.clone())));
                multi.push(div(f2(g, a.clone(), b.clone()), add(n(1.0), y())));
            }
        }
    }
    for l in 0..4 {
        for m in -l..=l {
            multi.push(fs("assoc_legendre", vec![n(l as f64), n(m as f64), f("cos", x())]));
            multi.push(fs("ynm", vec![n(l as f64), n(m as f64), x(), y()]));
            multi.push(fs("assoc_legendre", vec![add(y(), n(l as f64)), n(m as f64), f("cos", x())]));
        }
    }
    mc.par("several-arguments", multi.len() as u64, 4, |i| check(mc, 1 << 50 | i, &multi[i as usize], true));
    let cc = collision_cases(if mc.thorough { 2000 } else { 200 });
    mc.par("hash-collisions", cc.len() as u64, 16, |i| check(mc, 1 << 51 | i, &cc[i as usize], false));
    let sl = crate::slots::slots(mc.thorough);
    mc.par("numbers", sl.len() as u64, 16, |i| check(mc, 1 << 53 | i, &sl[i as usize], false));
    deep(mc);
    mc.note("every ordered partition of the variables into evaluation stages; names and numeric symbol ids as keys; reference arithmetic with propagated rounding bounds; points where the expression has no finite value are only checked not to panic");
    let _: Option<Expr> = None;
}

/// Long and deep expressions, evaluated at once and in two stages.
fn deep(mc: &Arc<Mc>) {
    let mut cases: Vec<(String, A)> = vec![];
    for k in [2usize, 3, 5, 9, 17, 33, 65, 120, 300] {
        let mut s = v("x");
        let mut p = v("x");
        let mut nest = v("x");
        let mut sum = n(0.0);
        let mut alt = v("x");
        for i in 0..k {
            s = add(s, mul(n(1.0 + i as f64), pow(v(["x", "y", "z"][i % 3]), n((i % 5) as f64))));
            p = mul(p, add(v(["x", "y", "z"][i % 3]), n(0.01 * i as f64)));
            nest = f(["sin", "atan", "tanh"][i % 3], add(nest, v(["y", "z"][i % 2])));
            sum = add(sum, f("sin", mul(n(i as f64), v("x"))));
            alt = if i % 2 == 0 { div(v("y"), add(alt, n(2.5))) } else { sub(v("x"), mul(alt, n(0.5))) };
        }
        for (w, t) in [("sum", s), ("product", p), ("nested", nest), ("sines", sum), ("alternating", alt)] {
            cases.push((format!("{w} of {k}"), t));
        }
    }
    mc.par("long", cases.len() as u64, 1, |i| check(mc, 1 << 52 | i, &cases[i as usize].1, false));
}
