//! C11: gradients, Hessians and Jacobians collect the right partial derivatives.
use crate::c09::{judge_near, leaves_small};
use crate::fw::Mc;
use crate::tree::*;
use std::sync::Arc;
use symb_anafis::{gradient, gradient_str, hessian, hessian_str, jacobian, jacobian_str, symb, CompiledEvaluator, Context, Expr, Symbol};

const VALS: &[&[(&str, f64)]] = &[
    &[("x", 0.6), ("y", 1.7), ("z", 2.4), ("w", 0.9)],
    &[("x", 1.3), ("y", 0.45), ("z", 0.7), ("w", 2.1)],
    &[("x", 2.2), ("y", 0.8), ("z", 1.1), ("w", 0.3)],
];

fn env(k: usize) -> Vec<(&'static str, f64)> {
    VALS[k].to_vec()
}

/// naive derivative, for the shapes of the alphabets below
pub fn dt(t: &T, w: &str) -> Option<A> {
    Some(match t {
        T::N(_) | T::C(_) => n(0.0),
        T::V(s) => n(if *s == w { 1.0 } else { 0.0 }),
        T::Neg(a) => neg(dt(a, w)?),
        T::Add(a, b) => add(dt(a, w)?, dt(b, w)?),
        T::Sub(a, b) => sub(dt(a, w)?, dt(b, w)?),
        T::Mul(a, b) => add(mul(dt(a, w)?, b.clone()), mul(a.clone(), dt(b, w)?)),
        T::Div(a, b) => div(sub(mul(dt(a, w)?, b.clone()), mul(a.clone(), dt(b, w)?)), mul(b.clone(), b.clone())),
        T::Pow(a, b) => {
            let (da, db) = (dt(a, w)?, dt(b, w)?);
            let has = |t: &A| t.var_list().iter().any(|s| *s == w);
            match (has(a), has(b)) {
                (false, false) => n(0.0),
                (true, false) => mul(mul(b.clone(), pow(a.clone(), sub(b.clone(), n(1.0)))), da),
                (false, true) => mul(mul(pow(a.clone(), b.clone()), f("ln", a.clone())), db),
                (true, true) => mul(pow(a.clone(), b.clone()), add(mul(db, f("ln", a.clone())), mul(b.clone(), div(da, a.clone())))),
            }
        }
        T::F(g, v) if v.len() == 1 => {
            let a = &v[0];
            let da = dt(a, w)?;
            let out = match *g {
                "sin" => f("cos", a.clone()),
                "cos" => neg(f("sin", a.clone())),
                "exp" => f("exp", a.clone()),
                "ln" => div(n(1.0), a.clone()),
                "sqrt" => div(n(0.5), f("sqrt", a.clone())),
                "tanh" => sub(n(1.0), pow(f("tanh", a.clone()), n(2.0))),
                "atan" => div(n(1.0), add(n(1.0), pow(a.clone(), n(2.0)))),
                _ => return None,
            };
            mul(out, da)
        }
        T::Sum(v) => v.iter().map(|a| dt(a, w)).collect::<Option<Vec<_>>>()?.into_iter().reduce(add)?,
        T::Prod(v) => {
            let mut terms = vec![];
            for i in 0..v.len() {
                let mut q = dt(&v[i], w)?;
                for (j, o) in v.iter().enumerate() {
                    if i != j {
                        q = mul(q, o.clone());
                    }
                }
                terms.push(q);
            }
            terms.into_iter().reduce(add)?
        }
        _ => return None,
    })
}

/// every ordered list of up to `k` of the names, repetitions included
pub fn lists(names: &[&'static str], k: usize) -> Vec<Vec<&'static str>> {
    let mut out = vec![vec![]];
    let mut from = 0;
    for _ in 0..k {
        let to = out.len();
        for i in from..to {
            for s in names {
                let mut l = out[i].clone();
                l.push(*s);
                out.push(l);
            }
        }
        from = to;
    }
    out
}

fn regular_at(t: &A, d: &A, p: Env) -> bool {
    t.regular(p) && d.regular(p) && d.eval(p).stable()
}

/// one partial derivative result against its reference tree, `of` being what was differentiated
fn entry(mc: &Mc, rank: u64, key: &str, of: &A, w: &str, reference: &A, got: &Expr) -> bool {
    let g = read(got);
    for k in 0..VALS.len() {
        let p = env(k);
        if !of.regular(&p) {
            continue;
        }
        let r = of.eval_d(&p, w).d;
        if !regular_at(of, reference, &p) || !agree2(&r, &reference.eval(&p)) {
            continue;
        }
        if let Some(m) = judge_near(of, w, &r, &g, &p) {
            mc.violation(rank, key, &format!("{m} at {}; entry {got}", env_text(&p)));
            return false;
        }
    }
    mc.trans(1);
    true
}

fn check(mc: &Mc, rank: u64, t: &A, all: &[Vec<&'static str>], text: bool) {
    let lab = t.text();
    if !mc.wants(&lab) {
        return;
    }
    mc.enter(&lab);
    if mc.state(&lab) {
        mc.trace();
    }
    let e = t.expr();
    let s = t.text();
    for l in all {
        let syms: Vec<Symbol> = l.iter().map(|w| symb(w)).collect();
        let refs: Vec<&Symbol> = syms.iter().collect();
        let first: Vec<Option<A>> = l.iter().map(|w| dt(t, w)).collect();
        let key = |what: &str| format!("{what} of [{lab}] by {l:?}");
        // gradient
        match gradient(&e, &refs) {
            Err(er) => mc.violation(rank, &key("gradient"), &format!("{er:?}")),
            Ok(g) => {
                if g.len() != l.len() {
                    mc.violation(rank, &key("gradient"), &format!("{} entries for {} variables", g.len(), l.len()));
                    return;
                }
                for i in 0..l.len() {
                    if let Some(d) = &first[i] {
                        if !entry(mc, rank, &format!("{} entry {i}", key("gradient")), t, l[i], d, &g[i]) {
                            return;
                        }
                    }
                }
                if text {
                    match gradient_str(&s, l) {
                        Err(er) => mc.violation(rank, &key("gradient_str"), &format!("{er:?}")),
                        Ok(gs) => {
                            if gs.len() != l.len() {
                                mc.violation(rank, &key("gradient_str"), &format!("{} entries for {} variables", gs.len(), l.len()));
                                return;
                            }
                            for i in 0..l.len() {
                                match (lib_parse(&gs[i]), &first[i]) {
                                    (Ok(x), Some(d)) => {
                                        if !entry(mc, rank, &format!("{} entry {i}", key("gradient_str")), t, l[i], d, &x) {
                                            return;
                                        }
                                    }
                                    (Err(er), _) => mc.violation(rank, &format!("{} entry {i}", key("gradient_str")), &format!("{:?} does not parse: {er:?}", gs[i])),
                                    _ => {}
                                }
                            }
                        }
                    }
                }
            }
        }
        // Hessian
        let second: Vec<Vec<Option<A>>> = first.iter().map(|d| l.iter().map(|w| d.as_ref().and_then(|d| dt(d, w))).collect()).collect();
        let square = |what: &str, h: &[Vec<Expr>]| -> bool {
            if h.len() != l.len() || h.iter().any(|r| r.len() != l.len()) {
                mc.violation(rank, &key(what), &format!("rows of {:?} entries for {} variables", h.iter().map(|r| r.len()).collect::<Vec<_>>(), l.len()));
                return false;
            }
            for i in 0..l.len() {
                for j in 0..l.len() {
                    if let (Some(d), Some(dd)) = (&first[i], &second[i][j]) {
                        if VALS.iter().enumerate().all(|(k, _)| !t.regular(&env(k))) {
                            continue;
                        }
                        if !entry(mc, rank, &format!("{} entry {i},{j}", key(what)), d, l[j], dd, &h[i][j]) {
                            return false;
                        }
                    }
                }
            }
            true
        };
        match hessian(&e, &refs) {
            Err(er) => mc.violation(rank, &key("hessian"), &format!("{er:?}")),
            Ok(h) => {
                if !square("hessian", &h) {
                    return;
                }
                if text {
                    match hessian_str(&s, l) {
                        Err(er) => mc.violation(rank, &key("hessian_str"), &format!("{er:?}")),
                        Ok(hs) => match hs.iter().map(|r| r.iter().map(|x| lib_parse(x)).collect::<Result<Vec<_>, _>>()).collect::<Result<Vec<_>, _>>() {
                            Err(er) => mc.violation(rank, &key("hessian_str"), &format!("{hs:?} does not parse: {er:?}")),
                            Ok(h) => {
                                if !square("hessian_str", &h) {
                                    return;
                                }
                            }
                        },
                    }
                }
            }
        }
    }
}

/// Jacobians of up to three expressions.
fn jacobians(mc: &Arc<Mc>) {
    let pool: Vec<A> = vec![
        v("x"),
        n(3.0),
        add(v("x"), v("y")),
        mul(v("x"), v("y")),
        pow(v("x"), n(2.0)),
        div(v("y"), v("x")),
        f("sin", mul(v("x"), v("y"))),
        pow(v("x"), v("y")),
        add(mul(n(2.0), pow(v("z"), n(2.0))), add(v("z"), n(1.0))),
        f("exp", sub(v("x"), v("z"))),
        f("ln", add(v("x"), v("z"))),
        mul(mul(v("x"), v("y")), v("z")),
    ];
    let top = if mc.thorough { 3 } else { 2 };
    let ls = lists(&["x", "y", "z", "w"], 2).into_iter().chain([vec!["z", "y", "x"], vec!["x", "y", "z"], vec!["y", "x", "y"]]).collect::<Vec<_>>();
    let mut rows: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..top {
        let to = rows.len();
        for i in from..to {
            for k in 0..pool.len() {
                let mut r = rows[i].clone();
                r.push(k);
                rows.push(r);
            }
        }
        from = to;
    }
    rows.push(vec![7, 3, 0]);
    rows.push(vec![1, 8, 6]);
    rows.push(vec![2, 2, 2]);
    mc.par("jacobians", rows.len() as u64, 4, |i| {
        let ts: Vec<A> = rows[i as usize].iter().map(|k| pool[*k].clone()).collect();
        let lab = ts.iter().map(|t| t.text()).collect::<Vec<_>>().join(" ; ");
        if !mc.wants(&lab) {
            return;
        }
        mc.enter(&lab);
        mc.state(&lab);
        mc.trace();
        let es: Vec<Expr> = ts.iter().map(|t| t.expr()).collect();
        let texts: Vec<String> = ts.iter().map(|t| t.text()).collect();
        let strs: Vec<&str> = texts.iter().map(|s| s.as_str()).collect();
        for l in &ls {
            let syms: Vec<Symbol> = l.iter().map(|w| symb(w)).collect();
            let refs: Vec<&Symbol> = syms.iter().collect();
            let parsed = jacobian_str(&strs, l).map(|m| m.iter().map(|r| r.iter().map(|s| lib_parse(s)).collect::<Result<Vec<_>, _>>()).collect::<Result<Vec<_>, _>>());
            let parsed = match parsed {
                Ok(Ok(m)) => Ok(m),
                Ok(Err(e)) | Err(e) => Err(e),
            };
            for (what, m) in [("jacobian", jacobian(&es, &refs)), ("jacobian_str", parsed)] {
                let key = format!("{what} of [{lab}] by {l:?}");
                match m {
                    Err(er) => mc.violation(i, &key, &format!("{er:?}")),
                    Ok(m) => {
                        if m.len() != ts.len() || m.iter().any(|r| r.len() != l.len()) {
                            mc.violation(i, &key, &format!("rows of {:?} entries for {} expressions and {} variables", m.iter().map(|r| r.len()).collect::<Vec<_>>(), ts.len(), l.len()));
                            return;
                        }
                        for (a, t) in ts.iter().enumerate() {
                            for (b, w) in l.iter().enumerate() {
                                if !entry(mc, i, &format!("{key} entry {a},{b}"), t, w, &dt(t, w).unwrap(), &m[a][b]) {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
    });
}

/// Variables without a name, and several variables of the same name.
fn identities(mc: &Arc<Mc>) {
    let al = Alpha { leaves: vec![v("x"), v("y"), n(2.0)], un: vec!["sin"], neg: false, bin: "+*/^", bfn: vec![] };
    let global = symb("c11_shared");
    let c1 = Context::new();
    let c2 = Context::new();
    symb_anafis::remove_symbol("c11_own");
    let own1 = c1.symb("c11_own");
    let own2 = c2.symb("c11_own");
    let own_global = symb("c11_own");
    let kinds: Vec<(&str, [Symbol; 3])> = vec![
        ("two nameless symbols", [Symbol::anon(), Symbol::anon(), Symbol::anon()]),
        ("a nameless and a named symbol", [Symbol::anon(), global, symb("c11_other")]),
        ("symbols of one name of two contexts", [own1, own2, own_global]),
        ("a context's and a global symbol of one name", [own2, own_global, own1]),
    ];
    for (what, s) in &kinds {
        if s[0] == s[1] || s[1] == s[2] {
            mc.note(format!("{what}: not distinct here"));
            continue;
        }
        let idx = lists(&["x", "y", "w"], 2);
        sweep(mc, what, &al, if mc.thorough { 6 } else { 5 }, |rank, t| {
            let lab = format!("{} in {what}", t.text());
            if !mc.wants(&lab) {
                return;
            }
            mc.enter(&lab);
            mc.state(&lab);
            mc.trace();
            // built from the symbols themselves
            fn build(t: &T, s: &[Symbol; 3]) -> Expr {
                match t {
                    T::N(x) => Expr::number(*x),
                    T::V(q) => s[if *q == "x" { 0 } else { 1 }].to_expr(),
                    T::Add(a, b) => build(a, s) + build(b, s),
                    T::Mul(a, b) => build(a, s) * build(b, s),
                    T::Div(a, b) => build(a, s) / build(b, s),
                    T::Pow(a, b) => build(a, s).pow(build(b, s)),
                    T::F(g, v) => Expr::func(*g, build(&v[0], s)),
                    _ => unreachable!(),
                }
            }
            let e = build(t, s);
            let value = |e: &Expr, p: Env| CompiledEvaluator::compile(e, &[&s[0], &s[1], &s[2]], None).map(|c| c.evaluate(&[p[0].1, p[1].1, p[3].1]));
            for l in &idx {
                let syms: Vec<&Symbol> = l.iter().map(|q| &s[if *q == "x" { 0 } else if *q == "y" { 1 } else { 2 }]).collect();
                let judge1 = |key: String, of: &A, w: &str, d: &A, got: &Expr| -> bool {
                    for k in 0..VALS.len() {
                        let p = env(k);
                        let r = d.eval(&p);
                        if !of.regular(&p) || !regular_at(of, d, &p) || !r.stable() {
                            continue;
                        }
                        match value(got, &p) {
                            Ok(x) if x.is_finite() && (x - r.v).abs() <= 1e-9f64.max(r.tol() * 10.0) * r.v.abs().max(1.0) => mc.trans(1),
                            Ok(x) if !x.is_finite() && !r.v.is_finite() => {}
                            other => {
                                mc.violation(rank, &key, &format!("by {w} expected {:e}, got {other:?} at {}; entry {got}", r.v, env_text(&p)));
                                return false;
                            }
                        }
                    }
                    true
                };
                let g = match gradient(&e, &syms) {
                    Ok(g) if g.len() == l.len() => g,
                    other => {
                        mc.violation(rank, &format!("gradient of [{lab}] by {l:?}"), &format!("{other:?}"));
                        return;
                    }
                };
                let h = match hessian(&e, &syms) {
                    Ok(h) if h.len() == l.len() && h.iter().all(|r| r.len() == l.len()) => h,
                    other => {
                        mc.violation(rank, &format!("hessian of [{lab}] by {l:?}"), &format!("{other:?}"));
                        return;
                    }
                };
                let j = match jacobian(&[e.clone(), e.clone()], &syms) {
                    Ok(j) if j.len() == 2 && j.iter().all(|r| r.len() == l.len()) => j,
                    other => {
                        mc.violation(rank, &format!("jacobian of [{lab}] by {l:?}"), &format!("{other:?}"));
                        return;
                    }
                };
                for i in 0..l.len() {
                    let d = dt(t, l[i]).unwrap();
                    if !judge1(format!("gradient of [{lab}] by {l:?} entry {i}"), t, l[i], &d, &g[i]) || !judge1(format!("jacobian of [{lab}] by {l:?} entry 1,{i}"), t, l[i], &d, &j[1][i]) {
                        return;
                    }
                    for k in 0..l.len() {
                        if !judge1(format!("hessian of [{lab}] by {l:?} entry {i},{k}"), t, l[k], &dt(&d, l[k]).unwrap(), &h[i][k]) {
                            return;
                        }
                    }
                }
            }
        });
    }
}

pub fn run(mc: &Arc<Mc>) {
    let th = mc.thorough;
    let every = lists(&["x", "y", "z", "w"], 3);
    let pairs = lists(&["x", "y", "w"], 2);
    let few: Vec<Vec<&'static str>> = vec![vec!["x", "y"], vec!["y", "x"], vec!["z", "y", "x"], vec!["w", "x", "x"]];
    let small = Alpha { leaves: vec![v("x"), v("y"), v("z"), n(2.0)], un: vec!["sin", "exp"], neg: true, bin: "+*/^", bfn: vec![] };
    sweep(mc, "every list", &small, if th { 5 } else { 4 }, |r, t| check(mc, r, t, &every, true));
    let two = Alpha { leaves: vec![v("x"), v("y"), n(3.0)], un: vec!["ln"], neg: false, bin: "+*/^", bfn: vec![] };
    sweep(mc, "pairs", &two, if th { 7 } else { 6 }, |r, t| check(mc, r, t, &pairs, t.size() <= 4));
    let three = Alpha { leaves: vec![v("x"), v("y"), v("z"), n(2.0)], un: vec![], neg: false, bin: "+*^", bfn: vec![] };
    sweep(mc, "three variables", &three, if th { 9 } else { 7 }, |r, t| check(mc, r, t, &few, false));
    let funcs = Alpha { leaves: leaves_small(), un: vec!["sin", "cos", "exp", "ln", "sqrt", "tanh", "atan"], neg: true, bin: "+*", bfn: vec![] };
    sweep(mc, "functions", &funcs, if th { 5 } else { 4 }, |r, t| check(mc, r, t, &few[..3], r % 8 == 0));
    // sums and products of many terms and factors
    let fac: Vec<A> = vec![v("x"), v("y"), f("sin", v("x")), add(v("x"), v("y")), f("exp", mul(v("x"), v("y"))), pow(v("y"), n(2.0)), v("z"), f("ln", add(v("z"), n(1.0))), div(v("x"), v("z")), f("cos", v("y")), sub(v("z"), n(0.25)), pow(v("x"), v("y")), f("sqrt", v("x"))];
    let mut long: Vec<A> = vec![];
    for k in 2..=(if th { 16 } else { 13 }) {
        for start in 0..(if th { 13 } else { 4 }) {
            let g = |i: usize| fac[(start + i * 5) % fac.len()].clone();
            long.push(Arc::new(T::Prod((0..k).map(g).collect())));
            long.push(Arc::new(T::Sum((0..k).map(g).collect())));
            let mut p = n(1.0);
            for i in 1..=k.min(6) {
                p = add(p, mul(n(((i * 3) % 5) as f64 - 1.0), pow(g(0), n(i as f64))));
            }
            long.push(p);
        }
    }
    mc.par("long sums, products and polynomials", long.len() as u64, 1, |i| check(mc, i, &long[i as usize], &few[..3], true));
    let sl = crate::slots::slots(th);
    mc.par("numbers", sl.len() as u64, 16, |i| {
        let t = &sl[i as usize];
        if th || i < 40000 {
            check(mc, 1 << 50 | i, t, &few[..if t.var_list().len() > 1 { 2 } else { 1 }], false);
        }
    });
    jacobians(mc);
    identities(mc);
}
