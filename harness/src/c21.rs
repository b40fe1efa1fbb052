//! C21: options and limits are honoured exactly.
use crate::fw::Mc;
use crate::tree::*;
use std::sync::Arc;
use symb_anafis::{symb, Context, Diff, DiffError, Expr, Simplify, Symbol, UserFunction};

fn kind(r: &Result<String, DiffError>) -> &'static str {
    match r {
        Ok(_) => "a result",
        Err(DiffError::MaxDepthExceeded) => "depth",
        Err(DiffError::MaxNodesExceeded) => "nodes",
        Err(DiffError::VariableInBothFixedAndDiff { .. }) => "fixed",
        Err(DiffError::NameCollision { .. }) => "collision",
        Err(_) => "other",
    }
}

/// depth and number of nodes
fn size(e: &Expr) -> (usize, usize) {
    crate::c15::shown_size(e).unwrap_or_else(|| (e.max_depth(), e.node_count()))
}

/// limits around the size
fn limits(mc: &Mc, rank: u64, t: &A, e: &Expr) {
    let (d, k) = size(e);
    let lab = t.text();
    let free = (Diff::new().differentiate(e, &symb("x")).map(|r| r.to_string()), Simplify::new().simplify(e).map(|r| r.to_string()));
    let text = e.to_string();
    let again = lib_parse(&text).ok();
    let ranges = |a: usize| -> Vec<Option<usize>> {
        let mut v: Vec<usize> = vec![0, 1, a.saturating_sub(1), a, a + 1, 2 * a, 100 * a, usize::MAX];
        v.sort_unstable();
        v.dedup();
        std::iter::once(None).chain(v.into_iter().map(Some)).collect()
    };
    for md in ranges(d) {
        for mk in ranges(k) {
            mc.trans(2);
            let mut b = Diff::new();
            let mut s = Simplify::new();
            if let Some(q) = md {
                b = b.max_depth(q);
                s = s.max_depth(q);
            }
            if let Some(q) = mk {
                b = b.max_nodes(q);
                s = s.max_nodes(q);
            }
            let (over_d, over_k) = (md.is_some_and(|q| d > q), mk.is_some_and(|q| k > q));
            let got = [b.differentiate(e, &symb("x")).map(|r| r.to_string()), s.simplify(e).map(|r| r.to_string())];
            for (i, (g, w)) in got.iter().zip([&free.0, &free.1]).enumerate() {
                let ok = match kind(g) {
                    "depth" => over_d,
                    "nodes" => over_k,
                    "a result" => !over_d && !over_k,
                    _ => false,
                };
                let what = ["derivative", "simplification"][i];
                if !ok {
                    mc.violation(rank, &format!("{lab}: limits"), &format!("{what} with depth limit {md:?} and node limit {mk:?}: {g:?} (depth {d}, nodes {k})"));
                    return;
                }
                if let (Ok(g), Ok(w)) = (g, w) {
                    if g != w {
                        mc.violation(rank, &format!("{lab}: limits change the result"), &format!("{what} with depth limit {md:?} and node limit {mk:?}: {g}, without: {w} (depth {d}, nodes {k})"));
                        return;
                    }
                }
            }
        }
    }
    // the textual interface goes by the size of the parsed formula
    if let Some(p) = again {
        let (d, k) = size(&p);
        for (md, mk) in [(d, k), (d - 1, k), (d, k - 1)] {
            mc.trans(2);
            let g = [Diff::new().max_depth(md).max_nodes(mk).diff_str(&text, "x", &[]), Simplify::new().max_nodes(mk).max_depth(md).simplify_str(&text, &[])];
            for g in g {
                let good = (md, mk) == (d, k);
                if good != g.is_ok() || !good && !matches!(kind(&g), "depth" | "nodes") {
                    mc.violation(rank, &format!("{lab}: limits of the textual interface"), &format!("depth limit {md}, node limit {mk}: {g:?} (depth {d}, nodes {k})"));
                    return;
                }
            }
        }
    }
}

pub fn run(mc: &Arc<Mc>) {
    let th = mc.thorough;
    let al = Alpha { leaves: vec![v("x"), v("y"), n(2.0), n(-1.0)], un: vec!["sin", "exp", "sqrt", "abs", "ln"], neg: true, bin: "+-*/^", bfn: vec!["atan2", "besselj"] };
    sweep(mc, "limits", &al, if th { 6 } else { 5 }, |rank, t| {
        let lab = t.text();
        if !mc.wants(&lab) {
            return;
        }
        mc.enter(&lab);
        mc.state(&lab);
        mc.trace();
        let e = t.expr();
        mc.guard(rank, || limits(mc, rank, t, &e));
    });
    sizes(mc);
    values(mc);
    names(mc);
    histories(mc);
}

/// the default limits of the one-call functions: depth 100 and 10 000 nodes
fn sizes(mc: &Arc<Mc>) {
    let shapes: Vec<(&str, fn(A, usize) -> A)> = vec![
        ("sin(..)", |a, _| f("sin", a)),
        ("y^..", |a, _| pow(v("y"), a)),
        ("1/(1+..)", |a, k| if k % 2 == 0 { add(n(1.0), a) } else { div(n(1.0), a) }),
        ("x*exp(..)", |a, k| if k % 2 == 0 { f("exp", a) } else { mul(v("x"), a) }),
        ("f(.., y)", |a, _| f2("atan2", a, v("y"))),
        ("f(y, ..)", |a, _| f2("atan2", v("y"), a)),
        ("y + x*..", |a, k| if k % 2 == 0 { add(v("y"), a) } else { mul(v("x"), a) }),
        ("(..)^y", |a, k| if k % 2 == 0 { pow(a, v("y")) } else { add(a, v("x")) }),
        ("y/..", |a, k| if k % 2 == 0 { div(v("y"), a) } else { sub(v("x"), a) }),
    ];
    let depths: Vec<usize> = (1..=12).chain(45..=55).chain(95..=105).collect();
    let (sh, de) = (&shapes, &depths);
    mc.par("depth limits of chains", (shapes.len() * depths.len()) as u64, 1, |i| {
        let (name, g) = sh[i as usize % sh.len()];
        let k = de[i as usize / sh.len()];
        let lab = format!("{name} nested {k} times");
        if !mc.wants(&lab) {
            return;
        }
        mc.enter(&lab);
        mc.state(&lab);
        mc.trace();
        let t = (0..k).fold(v("x"), g);
        let e = t.expr();
        let (d, nodes) = size(&e);
        mc.guard(i, || {
            let text = e.to_string();
            let parsed = lib_parse(&text).map(|p| size(&p));
            // (long simplifications of deep quotients are not needed to see the limit)
            let slow = k > 12 && name != "sin(..)";
            if let Ok((pd, pn)) = parsed {
                mc.trans(1);
                let over = pd > 100 || pn > 10_000;
                if over || !slow {
                    for (what, g) in [("diff", symb_anafis::diff(&text, "x", &[], None)), ("simplify", symb_anafis::simplify(&text, &[], None))] {
                        if over != matches!(kind(&g), "depth" | "nodes") || !over && g.is_err() {
                            mc.violation(i, &format!("{lab}: default limits"), &format!("{what}: {} for depth {pd}, {pn} nodes", kind(&g)));
                        }
                    }
                }
            }
            for q in [d - 1, d, d + 1, 50, 100] {
                mc.trans(1);
                if slow && q >= d {
                    continue;
                }
                let raw = Diff::new().skip_simplification(true).max_depth(q).differentiate(&e, &symb("x")).map(|r| r.to_string());
                let s = if slow && q >= d { Ok(String::new()) } else { Simplify::new().max_depth(q).simplify(&e).map(|r| r.to_string()) };
                for g in [raw, s] {
                    if (d > q) != (kind(&g) == "depth") || d <= q && g.is_err() {
                        mc.violation(i, &format!("{lab}: limits"), &format!("depth limit {q}: {} (depth {d}, nodes {nodes})", kind(&g)));
                    }
                }
            }
        });
    });
    let counts: Vec<usize> = vec![1, 2, 3, 10, 100, 1000, 1663, 1666, 1667, 1999, 2000, 2001, 2499, 2500, 2501, 3332, 3333, 3334, 4998, 4999, 5000, 5001, 9998, 9999, 10_000, 10_001];
    let ct = &counts;
    mc.par("node limits of long sums", (counts.len() * 3) as u64, 1, |i| {
        let (k, form) = (ct[i as usize % ct.len()], i as usize / ct.len());
        let lab = format!("sum of {k} terms of form {form}");
        if !mc.wants(&lab) {
            return;
        }
        mc.enter(&lab);
        mc.state(&lab);
        mc.trace();
        mc.trans(1);
        let term = |j: usize| match form {
            0 => format!("a{j}"),
            1 => format!("sin(a{j})"),
            _ => format!("x*a{j}"),
        };
        let known: Vec<String> = (0..k).map(|j| format!("a{j}")).collect();
        let known: Vec<&str> = known.iter().map(|s| s.as_str()).collect();
        let text = (0..k).map(term).collect::<Vec<_>>().join(" + ");
        let set: std::collections::HashSet<String> = known.iter().map(|s| s.to_string()).collect();
        mc.guard(i, || {
            let Ok(e) = symb_anafis::parse(&text, &set, &std::collections::HashSet::new(), None) else {
                mc.violation(i, &lab, "does not parse");
                return;
            };
            let (d, c) = (e.max_depth(), e.node_count());
            let over = c > 10_000 || d > 100;
            let g = symb_anafis::diff(&text, "x", &known, None);
            if over != matches!(kind(&g), "depth" | "nodes") || !over && g.is_err() {
                mc.violation(i, &format!("{lab}: default limits"), &format!("diff: {} for depth {d}, {c} nodes", kind(&g)));
            }
            if over {
                let g = symb_anafis::simplify(&text, &known, None);
                if !matches!(kind(&g), "depth" | "nodes") {
                    mc.violation(i, &format!("{lab}: default limits"), &format!("simplify: {} for depth {d}, {c} nodes", kind(&g)));
                }
            }
            for q in [c - 1, c, c + 1] {
                let g = Diff::new().max_nodes(q).skip_simplification(true).differentiate(&e, &symb("x")).map(|r| r.to_string());
                if (c > q) != (kind(&g) == "nodes") || c <= q && g.is_err() {
                    mc.violation(i, &format!("{lab}: limits"), &format!("node limit {q}: {} ({c} nodes)", kind(&g)));
                }
            }
        });
    });
}

/// all combinations of options: the value is that of the derivative, or of the expression
fn values(mc: &Arc<Mc>) {
    let al = Alpha { leaves: vec![v("x"), v("y"), n(2.0), n(-1.0), n(0.5)], un: vec!["sin", "exp", "sqrt", "abs", "ln", "tan", "cosh"], neg: true, bin: "+-*/^", bfn: vec!["atan2"] };
    let points: Vec<Vec<(&'static str, f64)>> = vec![vec![("x", 0.6), ("y", 1.7)], vec![("x", 2.3), ("y", 0.35)], vec![("x", -0.7), ("y", 1.2)], vec![("x", 1.4), ("y", -0.8)]];
    let pts = &points;
    sweep(mc, "values under options", &al, if mc.thorough { 5 } else { 4 }, |rank, t| {
        let lab = t.text();
        if !mc.wants(&lab) {
            return;
        }
        mc.enter(&lab);
        mc.state(&lab);
        mc.trace();
        let e = t.expr();
        let text = e.to_string();
        let parsed = lib_parse(&text).ok();
        mc.guard(rank, || {
            for o in 0..16u32 {
                let (safe, skip, lim, fix) = (o & 1 != 0, o & 2 != 0, o & 4 != 0, o & 8 != 0);
                let mut b = Diff::new().domain_safe(safe).skip_simplification(skip);
                let mut s = Simplify::new().domain_safe(safe);
                if lim {
                    b = b.max_depth(e.max_depth()).max_nodes(e.node_count());
                    s = s.max_depth(e.max_depth()).max_nodes(e.node_count());
                }
                if fix {
                    b = b.fixed_var(&symb("y")).fixed_vars(&["z", "y"]);
                    s = s.fixed_var(&"y").fixed_vars(&[symb("z")]);
                }
                let mut outs: Vec<(&str, bool, Option<Expr>)> = vec![("derivative", true, b.differentiate(&e, &symb("x")).ok())];
                if !skip {
                    outs.push(("simplification", false, s.simplify(&e).ok()));
                }
                if let (Some(q), true) = (&parsed, o < 8) {
                    let b = if lim { b.max_depth(q.max_depth()).max_nodes(q.node_count()) } else { b };
                    let known: &[&str] = if fix { &[] } else { &["y"] };
                    outs.push(("textual derivative", true, b.diff_str(&text, "x", known).ok().and_then(|q| lib_parse(&q).ok())));
                }
                for (what, der, got) in outs {
                    mc.trans(1);
                    let Some(got) = got else {
                        mc.violation(rank, &lab, &format!("no {what} (domain safe {safe}, unsimplified {skip}, limits {lim}, fixed {fix})"));
                        return;
                    };
                    let g = read(&got);
                    for p in pts {
                        // (the default simplification takes variables as positive)
                        if !safe && !(skip && der) && p.iter().any(|q| q.1 < 0.0) || !t.regular(p) || !safe && !t.pos(p) {
                            continue;
                        }
                        let want = if der { t.eval_d(p, "x").d } else { t.eval(p) };
                        let a = g.eval(p);
                        if want.stable() && !agree2(&want, &a) && (a.stable() || !a.defined()) {
                            mc.violation(rank, &lab, &format!("{what} {got} (domain safe {safe}, unsimplified {skip}, limits {lim}, fixed {fix}): {:e} where {:e} is expected at {}", a.v, want.v, env_text(p)));
                            return;
                        }
                    }
                }
            }
        });
    });
}

/// every assignment of roles to names
fn names(mc: &Arc<Mc>) {
    // role: nothing, fixed, known for this call, user function, symbol of the context, function of the context
    let pool = ["a", "bc", "fun"];
    let vals = [("x", 0.7), ("a", 1.3), ("bc", 2.1), ("fun", 0.4)];
    let val = |s: &str| vals.iter().find(|p| p.0 == s).map(|p| p.1);
    mc.par("roles of names", 6u64.pow(3) * 4 * 3, 4, |i| {
        let roles: Vec<usize> = (0..3).map(|k| (i / 6u64.pow(k)) as usize % 6).collect();
        let k = i / 216;
        let (var, how) = (["x", "a", "bc", "fun"][(k % 4) as usize], (k / 4) as usize);
        let lab = format!(
            "{}, by {var}, fixed as {}",
            pool.iter().zip(&roles).map(|(n, r)| format!("{n} {}", ["free", "fixed", "known", "a function", "in the context", "a function of the context"][*r])).collect::<Vec<_>>().join(", "),
            ["&str", "Symbol", "&Symbol"][how]
        );
        if !mc.wants(&lab) {
            return;
        }
        mc.enter(&lab);
        mc.state(&lab);
        mc.trace();
        let has = |r: usize| pool.iter().zip(&roles).filter(move |(_, q)| **q == r).map(|(n, _)| *n);
        let body = || UserFunction::new(1..=1).body(|a: &[Arc<Expr>]| Expr::sum(vec![(*a[0]).clone(), Expr::number(1.0)])).partial(0, |_: &[Arc<Expr>]| Expr::number(1.0)).unwrap();
        let mut d = Diff::new();
        let mut s = Simplify::new();
        for q in has(1) {
            let y = symb(q);
            match how {
                0 => (d, s) = (d.fixed_var(&q), s.fixed_var(&q)),
                1 => (d, s) = (d.fixed_var(&y), s.fixed_var(&y)),
                _ => (d, s) = (d.fixed_vars(&[&y]), s.fixed_vars(&[&y])),
            }
        }
        for q in has(3) {
            d = d.user_fn(q, body());
            s = s.user_fn(q, body());
        }
        let mut ctx = Context::new();
        for q in has(4) {
            ctx = ctx.with_symbol(q);
        }
        for q in has(5) {
            ctx = ctx.with_function(q, body());
        }
        if has(4).chain(has(5)).next().is_some() {
            d = d.with_context(&ctx);
            s = s.with_context(&ctx);
        }
        let known: Vec<&str> = has(2).collect();
        // names in function roles are called, others stand alone
        let named = |q: &str| pool.iter().position(|p| *p == q).map_or(0, |k| roles[k]);
        let item = |q: &str| if matches!(named(q), 3 | 5) { format!("{q}(x)") } else { q.to_string() };
        let text = format!("x^2*{} + x*{} + 3*{}", item("a"), item("bc"), item("fun"));
        let both = matches!(named(var), 1 | 2) && var != "x";
        // value of a name: a multi-letter name nobody declared is not judged
        let open = ["bc", "fun"].iter().any(|q| named(q) == 0);
        let at = |q: &str, x: f64| if matches!(named(q), 3 | 5) { x + 1.0 } else { val(q).unwrap() };
        let dat = |q: &str| if matches!(named(q), 3 | 5) { 1.0 } else { 0.0 };
        mc.trans(2);
        let Some(g) = mc.guard(i, || d.diff_str(&text, var, &known)) else { return };
        if both != (kind(&g) == "fixed") {
            mc.violation(i, &lab, &format!("{text}: {g:?}"));
            return;
        }
        let x = 0.7;
        if let (false, false, Ok(g)) = (both, open, &g) {
            let fun = matches!(named(var), 3 | 5) && var != "x";
            let want = match var {
                "x" => 2.0 * x * at("a", x) + x * x * dat("a") + at("bc", x) + x * dat("bc") + 3.0 * dat("fun"),
                "a" => x * x,
                "bc" => x,
                _ => 3.0,
            };
            let want = if fun { 0.0 } else { want };
            let got = symb_anafis::parse(g, &pool.iter().map(|s| s.to_string()).collect(), &std::collections::HashSet::new(), None).ok().and_then(|e| lib_eval(&e, &vals));
            if !got.is_some_and(|q| (q - want).abs() < 1e-9) {
                mc.violation(i, &lab, &format!("{text}: derivative {g}, {got:?} where {want} is expected"));
            }
        } else if let (false, false, Err(e)) = (both, open, &g) {
            mc.violation(i, &lab, &format!("{text}: {e:?}"));
        }
        let Some(g) = mc.guard(i, || s.simplify_str(&text, &known)) else { return };
        match &g {
            Ok(g) if !open => {
                let want = x * x * at("a", x) + x * at("bc", x) + 3.0 * at("fun", x);
                let got = symb_anafis::parse(g, &pool.iter().map(|s| s.to_string()).collect(), &std::collections::HashSet::new(), None).ok().and_then(|e| lib_eval(&e, &vals));
                if !got.is_some_and(|q| (q - want).abs() < 1e-9) {
                    mc.violation(i, &lab, &format!("{text}: simplification {g}, {got:?} where {want} is expected"));
                }
            }
            Ok(_) => {}
            Err(e) => mc.violation(i, &lab, &format!("{text}: {e:?}")),
        }
        // the expression interface
        if both {
            let e = symb("x").to_expr() * 2.0;
            let (p, q) = (named(var), d.differentiate(&e, &symb(var)).map(|r| r.to_string()));
            if (p == 1) != (kind(&q) == "fixed") {
                mc.violation(i, &lab, &format!("differentiating an expression: {q:?}"));
            }
        }
    });
    // names used as a fixed or known variable and as a function
    mc.par("collisions of names", 2 * 3 * 3 * 4, 1, |i| {
        let (known_how, fun_how, formula, call) = (i % 2, (i / 2 % 3) as usize, (i / 6 % 3) as usize, i / 18);
        let text = ["fun*x", "fun(x)", "x^2"][formula];
        let lab = format!("{text} where fun is {} and {} [{}]", ["known", "fixed"][known_how as usize], ["a user function", "a function without definition", "a function of the context"][fun_how], ["Diff", "Simplify", "diff", "simplify"][call as usize]);
        if !mc.wants(&lab) {
            return;
        }
        mc.enter(&lab);
        mc.state(&lab);
        mc.trace();
        mc.trans(1);
        let def = || if fun_how == 0 { UserFunction::new(1..=1).body(|a: &[Arc<Expr>]| (*a[0]).clone()) } else { UserFunction::any_arity() };
        let own = Context::new().with_function("fun", def());
        let known: &[&str] = if known_how == 0 { &["fun"] } else { &[] };
        let g = mc.guard(i, || match call {
            0 => {
                let b = if fun_how == 2 { Diff::new().with_context(&own) } else { Diff::new().user_fn("fun", def()) };
                if known_how == 1 { b.fixed_var(&"fun") } else { b }.diff_str(text, "x", known)
            }
            1 => {
                let b = if fun_how == 2 { Simplify::new().with_context(&own) } else { Simplify::new().user_fn("fun", def()) };
                if known_how == 1 { b.fixed_var(&"fun") } else { b }.simplify_str(text, known)
            }
            2 => symb_anafis::diff(text, "x", &["fun"], Some(&["fun"])),
            _ => symb_anafis::simplify(text, &["fun"], Some(&["fun"])),
        });
        if g.as_ref().is_some_and(|g| kind(g) != "collision") {
            mc.violation(i, &lab, &format!("{g:?}"));
        }
    });
    // fixed variables given as symbols of every kind
    let ctx = Context::new().with_symbol("t");
    let syms: Vec<(&str, Symbol)> = vec![("a global symbol", symb("t")), ("an anonymous symbol", Symbol::anon()), ("a context symbol", ctx.symb("t")), ("another anonymous symbol", Symbol::anon())];
    let sy = &syms;
    mc.par("kinds of fixed variables", 16, 1, |i| {
        let ((fname, fixed), (vname, var)) = (&sy[i as usize % 4], &sy[i as usize / 4]);
        let lab = format!("{fname} fixed, differentiated by {vname}");
        mc.enter(&lab);
        mc.state(&lab);
        mc.trace();
        mc.trans(1);
        let e = var.to_expr() * 3.0;
        let g = Diff::new().fixed_var(fixed).differentiate(&e, var).map(|r| r.to_string());
        // (names decide, also between a context and the global symbols)
        let same = fixed.id() == var.id() || fixed.name().is_some() && fixed.name() == var.name();
        if same != (kind(&g) == "fixed") || !same && g != Ok("3".to_string()) {
            mc.violation(i, &lab, &format!("{g:?}"));
        }
    });
}

#[derive(Clone, Debug, Default, PartialEq)]
struct Set {
    safe: bool,
    skip: bool,
    depth: Option<usize>,
    nodes: Option<usize>,
    fixed: Vec<&'static str>,
}

/// every sequence of settings: the last of each kind counts, the order of kinds does not
fn histories(mc: &Arc<Mc>) {
    const OPS: [&str; 10] = ["safe", "unsafe", "skip", "noskip", "depth 3", "depth 9", "nodes 4", "nodes 60", "fix y", "fix x"];
    let apply = |s: &mut Set, d: Diff, m: Simplify, o: usize| -> (Diff, Simplify) {
        match o {
            0 | 1 => {
                s.safe = o == 0;
                (d.domain_safe(o == 0), m.domain_safe(o == 0))
            }
            2 | 3 => {
                s.skip = o == 2;
                (d.skip_simplification(o == 2), m)
            }
            4 | 5 => {
                let q = [3, 9][o - 4];
                s.depth = Some(q);
                (d.max_depth(q), m.max_depth(q))
            }
            6 | 7 => {
                let q = [4, 60][o - 6];
                s.nodes = Some(q);
                (d.max_nodes(q), m.max_nodes(q))
            }
            _ => {
                let q = ["y", "x"][o - 8];
                s.fixed.push(q);
                s.fixed.sort_unstable();
                s.fixed.dedup();
                (d.fixed_var(&q), m.fixed_var(&q))
            }
        }
    };
    let build = |s: &Set| -> (Diff, Simplify) {
        let mut d = Diff::new();
        let mut m = Simplify::new();
        for q in &s.fixed {
            d = d.fixed_var(q);
            m = m.fixed_var(q);
        }
        if let Some(q) = s.nodes {
            d = d.max_nodes(q);
            m = m.max_nodes(q);
        }
        if let Some(q) = s.depth {
            d = d.max_depth(q);
            m = m.max_depth(q);
        }
        (d.skip_simplification(s.skip).domain_safe(s.safe), m.domain_safe(s.safe))
    };
    let exprs = [f("sqrt", pow(v("x"), n(2.0))), add(v("x"), v("x")), div(mul(v("x"), v("y")), v("x")), f("sin", f("exp", f("sin", mul(v("x"), v("y"))))), n(2.0)];
    let texts: Vec<(Expr, String)> = exprs.iter().map(|t| (t.expr(), t.text())).collect();
    let tx = &texts;
    let max = if mc.thorough { 6 } else { 5 };
    for len in 0..=max {
        mc.par(&format!("sequences of {len} settings"), 10u64.pow(len), 64, |i| {
            let ops: Vec<usize> = (0..len).map(|k| (i / 10u64.pow(k)) as usize % 10).collect();
            let lab = ops.iter().map(|o| OPS[*o]).collect::<Vec<_>>().join(", ");
            if !mc.wants(&lab) {
                return;
            }
            mc.enter(&lab);
            mc.trace();
            let mut s = Set::default();
            let (mut d, mut m) = (Diff::new(), Simplify::new());
            for o in &ops {
                // (a clone kept beside is not affected)
                let (d0, m0, s0) = (d.clone(), m.clone(), s.clone());
                (d, m) = apply(&mut s, d, m, *o);
                if ops.len() <= 3 {
                    let (wd, wm) = build(&s0);
                    for (e, _) in tx {
                        if d0.differentiate(e, &symb("x")).map(|r| r.to_string()) != wd.differentiate(e, &symb("x")).map(|r| r.to_string()) || m0.simplify(e).map(|r| r.to_string()) != wm.simplify(e).map(|r| r.to_string()) {
                            mc.violation(i, &lab, "a clone made earlier changed");
                        }
                    }
                }
            }
            mc.state(&format!("{s:?}"));
            let (wd, wm) = build(&s);
            for (e, t) in tx {
                mc.trans(2);
                let g = [d.differentiate(e, &symb("x")).map(|r| r.to_string()), m.simplify(e).map(|r| r.to_string())];
                let w = [wd.differentiate(e, &symb("x")).map(|r| r.to_string()), wm.simplify(e).map(|r| r.to_string())];
                if g != w {
                    mc.violation(i, &lab, &format!("{t}: {g:?}, expected {w:?}"));
                    return;
                }
                // and the outcome is the one the settings ask for
                let fixed = s.fixed.contains(&"x");
                let (dd, nn) = (e.max_depth(), e.node_count());
                let over = s.depth.is_some_and(|q| dd > q) || s.nodes.is_some_and(|q| nn > q);
                if !matches!((kind(&g[0]), fixed, over), ("fixed", true, _) | ("depth" | "nodes", _, true) | ("a result", false, false)) || (g[1].is_err()) != over {
                    mc.violation(i, &lab, &format!("{t}: {g:?} with {s:?}"));
                    return;
                }
            }
        });
    }
    mc.sample("safe, depth 3, fix y, noskip: differentiate and simplify five expressions, same as in canonical order");
}
