//! C15: substitution, inspection and traversal agree with the structure.
use crate::fw::Mc;
use crate::num::E;
use crate::tree::*;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Arc;
use symb_anafis::visitor::{walk_expr, ExprView, ExprVisitor, NodeCounter, VariableCollector};
use symb_anafis::{symb, symb_get, Context, Expr};

const NAMES: [&str; 4] = ["x", "y", "z", "w"];

fn envs() -> Vec<Vec<(&'static str, f64)>> {
    let rows = [[0.6, 1.7, 2.4, 0.9], [-1.3, 0.45, -0.7, 2.1], [2.2, -0.8, 1.1, -0.3], [0.35, 0.75, 0.25, 3.1]];
    rows.iter().map(|r| NAMES.iter().zip(r).map(|(s, x)| (*s, *x)).collect()).collect()
}

/// a stand-in meaning for functions and derivatives the reference does not know, so that they can be compared
pub fn known(t: &A) -> A {
    let g = |a: &A| known(a);
    match &**t {
        T::N(_) | T::V(_) | T::C(_) => t.clone(),
        T::Neg(a) => neg(g(a)),
        T::Add(a, b) => add(g(a), g(b)),
        T::Sub(a, b) => sub(g(a), g(b)),
        T::Mul(a, b) => mul(g(a), g(b)),
        T::Div(a, b) => div(g(a), g(b)),
        T::Pow(a, b) => pow(g(a), g(b)),
        T::F(h, a) => Arc::new(T::F(h, a.iter().map(g).collect())),
        T::Sum(a) => Arc::new(T::Sum(a.iter().map(g).collect())),
        T::Prod(a) => Arc::new(T::Prod(a.iter().map(g).collect())),
        T::U(h, a) => {
            let k = h.bytes().map(|b| b as f64).sum::<f64>() / 100.0;
            a.iter().enumerate().fold(n(k), |s, (i, x)| f("atan", add(mul(s, n(1.5)), mul(n(i as f64 + 2.0), g(x)))))
        }
        T::Der(a, w, k) => f("atan", add(mul(n(*k as f64 + 0.5), g(a)), n(w.bytes().map(|b| b as f64).sum::<f64>() / 100.0))),
    }
}

/// every free name of a tree, the variables of derivatives included
fn names(t: &A, out: &mut BTreeSet<String>) {
    match &**t {
        T::V(s) | T::C(s) => {
            out.insert(s.to_string());
        }
        T::Der(_, w, _) => {
            out.insert(w.to_string());
        }
        _ => {}
    }
    for k in t.children() {
        names(k, out);
    }
}

/// what a visitor sees, as a multiset of node descriptions; `stop` names a kind of node whose operands are not visited
#[derive(Default)]
struct See {
    seen: BTreeMap<String, usize>,
    order: Vec<String>,
    stop: &'static str,
}
impl See {
    fn add(&mut self, k: &'static str, s: String) -> bool {
        let d = format!("{k} {s}");
        self.order.push(d.clone());
        *self.seen.entry(d).or_default() += 1;
        k != self.stop
    }
}
impl ExprVisitor for See {
    fn visit_number(&mut self, x: f64) -> bool {
        self.add("number", format!("{x:?}"))
    }
    fn visit_symbol(&mut self, s: &str) -> bool {
        self.add("symbol", s.into())
    }
    fn visit_function(&mut self, s: &str, a: &[Arc<Expr>]) -> bool {
        self.add("function", format!("{s}/{}", a.len()))
    }
    fn visit_binary(&mut self, op: &str, _: &Expr, _: &Expr) -> bool {
        self.add("binary", op.into())
    }
    fn visit_sum(&mut self, t: &[Arc<Expr>]) -> bool {
        self.add("sum", format!("{}", t.len()))
    }
    fn visit_product(&mut self, t: &[Arc<Expr>]) -> bool {
        self.add("product", format!("{}", t.len()))
    }
    fn visit_derivative(&mut self, _: &Expr, v: &str, k: u32) -> bool {
        self.add("derivative", format!("{v} {k}"))
    }
}

/// the same through the view; polynomials are sums there (returns whether there were any)
fn see_view(e: &Expr, s: &mut See) -> bool {
    match e.view() {
        ExprView::Number(x) => {
            s.visit_number(x);
            false
        }
        ExprView::Symbol(x) => {
            s.visit_symbol(&x);
            false
        }
        ExprView::Function { name, args } => s.visit_function(name, args) && args.iter().fold(false, |p, a| see_view(a, s) || p),
        ExprView::Sum(t) => {
            let poly = matches!(t, Cow::Owned(_));
            (s.visit_sum(&t) && t.iter().fold(false, |p, a| see_view(a, s) || p)) || poly
        }
        ExprView::Product(t) => s.visit_product(&t) && t.iter().fold(false, |p, a| see_view(a, s) || p),
        ExprView::Div(a, b) => {
            s.visit_binary("/", a, b) && {
                let p = see_view(a, s);
                see_view(b, s) || p
            }
        }
        ExprView::Pow(a, b) => {
            s.visit_binary("^", a, b) && {
                let p = see_view(a, s);
                see_view(b, s) || p
            }
        }
        ExprView::Derivative { inner, var, order } => s.visit_derivative(inner, var, order) && see_view(inner, s),
    }
}

/// one node of the view
fn label(e: &Expr) -> String {
    match e.view() {
        ExprView::Number(x) => format!("number {x:?}"),
        ExprView::Symbol(x) => format!("symbol {x}"),
        ExprView::Function { name, args } => format!("function {name}/{}", args.len()),
        ExprView::Sum(t) => format!("sum {}", t.len()),
        ExprView::Product(t) => format!("product {}", t.len()),
        ExprView::Div(..) => "binary /".into(),
        ExprView::Pow(..) => "binary ^".into(),
        ExprView::Derivative { var, order, .. } => format!("derivative {var} {order}"),
    }
}

/// 0.375 added to every node, operands first
fn lifted(t: &A) -> A {
    let g = |k: &[A]| k.iter().map(lifted).collect::<Vec<_>>();
    let u = match &**t {
        T::F(name, k) => Arc::new(T::F(name, g(k))),
        T::Sum(k) => Arc::new(T::Sum(g(k))),
        T::Prod(k) => Arc::new(T::Prod(g(k))),
        T::Div(a, b) => div(lifted(a), lifted(b)),
        T::Pow(a, b) => pow(lifted(a), lifted(b)),
        _ => t.clone(),
    };
    add(u, n(0.375))
}

fn view_depth(e: &Expr) -> usize {
    1 + match e.view() {
        ExprView::Number(_) | ExprView::Symbol(_) => 0,
        ExprView::Function { args, .. } => args.iter().map(|a| view_depth(a)).max().unwrap_or(0),
        ExprView::Sum(t) | ExprView::Product(t) => t.iter().map(|a| view_depth(a)).max().unwrap_or(0),
        ExprView::Div(a, b) | ExprView::Pow(a, b) => view_depth(a).max(view_depth(b)),
        ExprView::Derivative { inner, .. } => view_depth(inner),
    }
}

/// depth and number of nodes as the public view shows them, if it shows the very nodes (a polynomial it writes out)
pub fn shown_size(e: &Expr) -> Option<(usize, usize)> {
    let mut s = See::default();
    if see_view(e, &mut s) {
        return None;
    }
    Some((view_depth(e), s.seen.values().sum()))
}

/// rebuild from the view with the public constructors
fn rebuild(e: &Expr) -> Expr {
    let g = |t: &[Arc<Expr>]| t.iter().map(|a| rebuild(a)).collect::<Vec<_>>();
    match e.view() {
        ExprView::Number(x) => Expr::number(x),
        ExprView::Symbol(s) => Expr::symbol(&*s),
        ExprView::Function { name, args } => Expr::func_multi(name, g(args)),
        ExprView::Sum(t) => Expr::sum(g(&t)),
        ExprView::Product(t) => Expr::product(g(&t)),
        ExprView::Div(a, b) => Expr::div_expr(rebuild(a), rebuild(b)),
        ExprView::Pow(a, b) => Expr::pow_static(rebuild(a), rebuild(b)),
        ExprView::Derivative { inner, var, order } => Expr::derivative(rebuild(inner), var, order),
    }
}

/// got has the value of `want` wherever that is defined
fn same(want: &A, got: &Expr) -> Option<String> {
    let (w, r) = (known(want), read(got));
    let g = known(&r);
    for p in envs() {
        let x = w.eval(&p);
        if !x.stable() || !x.v.is_finite() {
            continue;
        }
        let y = g.eval(&p);
        let lib = || lib_eval(got, &p);
        if y.stable() && !agree2(&x, &y) || !y.defined() && (r.has_special() || !agree(&x, lib())) {
            return Some(format!("expected {:e}, got {:e} at {}; result {got}", x.v, y.v, env_text(&p)));
        }
    }
    None
}

/// the value of the tree depends on the variable
fn depends(t: &A, w: &str) -> bool {
    let k = known(t);
    envs().iter().any(|p| {
        let a = k.eval(p);
        let mut q = p.clone();
        for s in q.iter_mut() {
            if s.0 == w {
                s.1 += 0.375;
            }
        }
        let b = k.eval(&q);
        a.stable() && b.stable() && !agree2(&a, &E { e: b.e * 4.0, ..b })
    })
}

fn show(s: &BTreeSet<String>) -> String {
    s.iter().cloned().collect::<Vec<_>>().join(",")
}

/// inspection and traversal of one expression
fn inspect(mc: &Mc, rank: u64, lab: &str, t: &A, e: &Expr) {
    let bad = |what: &str, m: String| mc.violation(rank, &format!("{what} of {lab}"), &m);
    let vars: BTreeSet<String> = e.variables().into_iter().collect();
    let mut written = BTreeSet::new();
    names(t, &mut written);
    let mut shown = BTreeSet::new();
    names(&read(e), &mut shown);
    if !vars.is_subset(&written) {
        bad("variables", format!("[{}] of an expression over [{}]; {e}", show(&vars), show(&written)));
    }
    if vars != shown {
        bad("variables", format!("[{}], but the view shows [{}]; {e}", show(&vars), show(&shown)));
    }
    for w in NAMES {
        if !vars.contains(w) && written.contains(w) && depends(t, w) {
            bad("variables", format!("[{}] although the value depends on {w}; {e}", show(&vars)));
        }
    }
    for w in ["x", "y", "z", "w", "pi", "e", "sin", "s", "xy", "", "absent_name", "f"] {
        let want = vars.contains(w);
        if e.contains_var(w) != want {
            bad("contains_var", format!("{w:?}: {}, variables [{}]; {e}", !want, show(&vars)));
        }
        if let Ok(s) = symb_get(w) {
            if e.contains_var_id(s.id()) != want {
                bad("contains_var_id", format!("{w:?}: {}, variables [{}]; {e}", !want, show(&vars)));
            }
        }
    }
    for mask in 0..16u32 {
        let ex: HashSet<String> = NAMES.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, s)| s.to_string()).collect();
        let want = vars.iter().any(|s| !ex.contains(s));
        if e.has_free_variables(&ex) != want {
            bad("has_free_variables", format!("without {ex:?}: {}, variables [{}]; {e}", !want, show(&vars)));
        }
    }
    // visitor and view see the same nodes
    let mut poly = false;
    for stop in ["", "function", "sum", "product", "binary", "derivative", "number", "symbol"] {
        let mut a = See { stop, ..Default::default() };
        let mut b = See { stop, ..Default::default() };
        walk_expr(e, &mut a);
        poly = see_view(e, &mut b) || stop != "" && poly;
        if !poly && a.order != b.order {
            bad("walk", format!("visits {:?}, the view shows {:?}; {e}", a.order, b.order));
        }
        if poly && stop.is_empty() {
            for k in b.seen.keys() {
                if (k.starts_with("symbol") || k.starts_with("function")) && !a.seen.contains_key(k) {
                    bad("walk", format!("never visits {k}; {e}"));
                }
            }
        }
    }
    let mut vc = VariableCollector::default();
    walk_expr(e, &mut vc);
    // (the collector counts the variables an expression is written in, the variable of a derivative among them or not)
    let got: BTreeSet<String> = vc.variables.iter().map(|s| s.to_string()).collect();
    let mut inner_only = BTreeSet::new();
    let mut s = See::default();
    see_view(e, &mut s);
    for k in s.seen.keys() {
        if let Some(x) = k.strip_prefix("symbol ") {
            inner_only.insert(x.to_string());
        }
    }
    if got != vars && got != inner_only {
        bad("VariableCollector", format!("[{}], variables [{}]; {e}", show(&got), show(&vars)));
    }
    let total: usize = s.seen.values().sum();
    let mut nc = NodeCounter::default();
    walk_expr(e, &mut nc);
    if !poly {
        if nc.count != total {
            bad("NodeCounter", format!("{} for {total} nodes; {e}", nc.count));
        }
        if e.node_count() != total {
            bad("node_count", format!("{} for {total} nodes; {e}", e.node_count()));
        }
        if e.max_depth() != view_depth(e) {
            bad("max_depth", format!("{} for depth {}; {e}", e.max_depth(), view_depth(e)));
        }
    }
    // fold reaches what the walk reaches
    let folded = e.fold(BTreeSet::new(), |mut s: BTreeSet<String>, x| {
        match x.view() {
            ExprView::Symbol(q) => {
                s.insert(q.into_owned());
            }
            ExprView::Function { name, .. } => {
                s.insert(format!("{name}()"));
            }
            _ => {}
        }
        s
    });
    let mut want: BTreeSet<String> = inner_only.clone();
    for k in s.seen.keys() {
        if let Some(x) = k.strip_prefix("function ") {
            want.insert(format!("{}()", x.split('/').next().unwrap()));
        }
    }
    if folded != want {
        bad("fold", format!("reaches [{}] of [{}]; {e}", show(&folded), show(&want)));
    }
    if !poly {
        // every node once, a parent before its operands, these from left to right
        let order = e.fold(Vec::new(), |mut o: Vec<String>, x| {
            o.push(label(x));
            o
        });
        if order != s.order {
            bad("fold", format!("goes {order:?}, the view {:?}; {e}", s.order));
        }
        // a function that acts on every node, its operands done
        if !t.has_special() {
            if let Some(m) = same(&lifted(&read(e)), &e.map(|x| x.clone() + Expr::number(0.375))) {
                bad("map adding to every node", m);
            }
        }
    }
    // rebuilding
    let reading = read(e);
    let base = if reading.has_special() { reading } else { t.clone() };
    for (what, g) in [("view rebuilt", rebuild(e)), ("map with identity", e.map(|x| x.clone())), ("map with view rebuilt", e.map(rebuild)), ("deep_clone", e.deep_clone()), ("clone", e.clone())] {
        if let Some(m) = same(&base, &g) {
            bad(what, m);
        }
    }
    if e.deep_clone() != *e || e.map(|x| x.clone()) != *e {
        // only the value is promised; count how often the form changes
        mc.count("rebuilt form differs", 1);
    }
    mc.trans(40);
}

/// every substitution of one expression
fn substitutions(mc: &Mc, rank: u64, lab: &str, t: &A, e: &Expr, by: &[(A, Expr)]) {
    let special = t.has_special();
    let mut ders = BTreeSet::new();
    fn der_vars(t: &A, out: &mut BTreeSet<&'static str>) {
        if let T::Der(_, w, _) = &**t {
            out.insert(*w);
        }
        for k in t.children() {
            der_vars(k, out);
        }
    }
    der_vars(t, &mut ders);
    for w in NAMES {
        if ders.contains(w) {
            continue; // the variable of a derivative is not free
        }
        for (rt, re) in by {
            let rv = rt.var_list();
            if rv.iter().any(|s| ders.contains(s)) {
                continue; // would be captured
            }
            let got = e.substitute(w, re);
            let key = || format!("substitute {w} by {} in {lab}", rt.text());
            let want = t.subst(w, rt);
            if let Some(m) = same(&want, &got) {
                mc.violation(rank, &key(), &m);
                return;
            }
            let left = got.variables();
            if left.contains(w) && !rv.contains(&w) {
                mc.violation(rank, &key(), &format!("{w} is left: {got}"));
                return;
            }
            if let Some(s) = left.iter().find(|s| !t.var_list().contains(&s.as_str()) && !rv.contains(&s.as_str()) && !is_const(s) && !special) {
                mc.violation(rank, &key(), &format!("{s} appears: {got}"));
                return;
            }
            // the same through map
            let m = e.map(|x| if matches!(x.view(), ExprView::Symbol(s) if s == w) { re.clone() } else { x.clone() });
            if let Some(msg) = same(&want, &m) {
                mc.violation(rank, &format!("map {w} to {} in {lab}", rt.text()), &msg);
                return;
            }
            mc.trans(2);
        }
    }
}

fn replacements(th: bool) -> Vec<(A, Expr)> {
    let x = || v("x");
    let y = || v("y");
    let mut out = vec![
        n(0.0),
        n(1.0),
        n(-1.0),
        n(2.0),
        n(0.5),
        x(),
        y(),
        neg(x()),
        mul(n(-2.0), y()),
        add(x(), n(1.0)),
        mul(x(), y()),
        pow(y(), n(2.0)),
        pow(x(), n(-1.0)),
        f("sqrt", y()),
        f("sin", x()),
        div(n(1.0), y()),
        add(add(pow(x(), n(2.0)), x()), n(1.0)),
        sub(sub(pow(y(), n(3.0)), mul(n(2.0), y())), n(3.0)),
        add(v("w"), f("exp", v("w"))),
    ];
    if th {
        out.extend([n(-0.5), n(3.0), f("ln", x()), pow(x(), y()), sub(x(), y()), div(x(), add(y(), n(1.0))), f("abs", x()), neg(pow(y(), n(2.0))), add(x(), y()), mul(n(2.0), pow(x(), n(2.0)))]);
    }
    out.into_iter().map(|t| (t.clone(), t.expr())).collect()
}

fn pool() -> Vec<(&'static str, Alpha, usize, usize)> {
    let x = || v("x");
    let y = || v("y");
    let xs = |k: f64| pow(v("x"), n(k));
    let u = |g: &'static str, a: Vec<A>| Arc::new(T::U(g, a));
    vec![
        ("arith", Alpha { leaves: vec![x(), y(), n(2.0), n(-1.0)], un: vec!["exp", "sqrt"], neg: true, bin: "+-*/^", bfn: vec![] }, 5, 5),
        ("functions", Alpha { leaves: vec![x(), y(), n(3.0), c("pi")], un: crate::num::UNARY.to_vec(), neg: true, bin: "+*/^", bfn: vec!["atan2", "log", "beta"] }, 3, 3),
        (
            "polynomials",
            Alpha { leaves: vec![x(), xs(2.0), xs(3.0), mul(n(3.0), x()), mul(n(-2.0), xs(2.0)), n(1.0), n(-4.0)], un: vec![], neg: true, bin: "+-*", bfn: vec![] },
            5,
            5,
        ),
        (
            "polynomials in functions",
            Alpha {
                leaves: vec![
                    add(add(pow(f("sin", x()), n(2.0)), f("sin", x())), n(1.0)),
                    add(add(pow(add(x(), y()), n(2.0)), add(x(), y())), n(1.0)),
                    add(add(pow(f("exp", mul(x(), y())), n(2.0)), mul(n(3.0), f("exp", mul(x(), y())))), n(-2.0)),
                    add(add(xs(2.0), x()), n(1.0)),
                    y(),
                    n(2.0),
                    f("sin", x()),
                ],
                un: vec!["ln", "cos"],
                neg: true,
                bin: "+-*/^",
                bfn: vec!["atan2"],
            },
            4,
            4,
        ),
        (
            "unknown functions and derivatives",
            Alpha {
                leaves: vec![
                    x(),
                    n(2.0),
                    u("f", vec![x()]),
                    u("g", vec![x(), y()]),
                    u("h", vec![]),
                    Arc::new(T::Der(u("g", vec![x(), y()]), "x", 1)),
                    Arc::new(T::Der(u("f", vec![v("z")]), "z", 2)),
                    u("f", vec![add(mul(x(), y()), n(1.0))]),
                    u("f", vec![add(add(xs(2.0), x()), n(1.0))]),
                ],
                un: vec!["sin"],
                neg: true,
                bin: "+*/^",
                bfn: vec![],
            },
            4,
            4,
        ),
    ]
}

/// expressions with symbols of contexts and without names
fn contexts(mc: &Arc<Mc>) {
    let forms: Vec<(&str, fn(&Expr, &Expr) -> Expr, fn(A, A) -> A)> = vec![
        ("a+b", |a, b| a.clone() + b.clone(), add),
        ("a*b", |a, b| a.clone() * b.clone(), mul),
        ("a^b", |a, b| Expr::pow_static(a.clone(), b.clone()), pow),
        ("a^2+a+b", |a, b| Expr::pow_static(a.clone(), Expr::number(2.0)) + a.clone() + b.clone(), |a, b| add(add(pow(a.clone(), n(2.0)), a), b)),
        ("a^2+a+1", |a, _| Expr::pow_static(a.clone(), Expr::number(2.0)) + a.clone() + 1.0, |a, _| add(add(pow(a.clone(), n(2.0)), a), n(1.0))),
        ("sin(a)/b", |a, b| Expr::func("sin", a.clone()) / b.clone(), |a, b| div(f("sin", a), b)),
        ("atan2(b,a)", |a, b| Expr::func_multi("atan2", vec![b.clone(), a.clone()]), |a, b| f2("atan2", b, a)),
    ];
    let by = replacements(false);
    let by = &by;
    let forms = &forms;
    // the symbols of a context under names that the global table has (x, y), and under names of its own
    let ctx = Context::new().with_symbol("x").with_symbol("own_a").with_symbol("late");
    let other = Context::new().with_symbol("x").with_symbol("own_a").with_symbol("late");
    // from here on a global symbol has the name of the contexts' own
    let _ = symb("late");
    let (ctx, other) = (&ctx, &other);
    mc.par("context symbols", (forms.len() * 16 * by.len()) as u64, 4, |i| {
        let i = i as usize;
        let (what, mk, tr) = forms[i % forms.len()];
        let (rt, re) = &by[i / forms.len() / 16];
        let k = i / forms.len() % 16;
        let sym = |k: usize| match k {
            0 => ("x", ctx.get_symbol("x").unwrap().to_expr()),
            1 => ("own_a", ctx.get_symbol("own_a").unwrap().to_expr()),
            2 => ("late", ctx.get_symbol("late").unwrap().to_expr()),
            _ => ("y", symb("y").to_expr()),
        };
        let ((an, a), (bn, b)) = (sym(k % 4), sym(k / 4));
        let e = mk(&a, &b);
        let t = tr(v(an), v(bn));
        let lab = format!("{what} with a={an}, b={bn} of a context");
        if !mc.wants(&lab) {
            return;
        }
        mc.enter(&lab);
        if mc.state(&lab) {
            mc.trace();
        }
        let bad = |what: &str, m: String| mc.violation(i as u64, &format!("{what} in {lab}"), &m);
        let vars = e.variables();
        for w in ["x", "own_a", "late", "y", "z"] {
            let want = t.var_list().contains(&w);
            if vars.contains(w) != want || e.contains_var(w) != want {
                bad("variables", format!("{w}: variables {}, contains_var {}, expected {want}", vars.contains(w), e.contains_var(w)));
            }
            if !want {
                continue;
            }
            let got = e.substitute(w, re);
            let want = t.subst(w, rt);
            let env = [("x", 0.6), ("own_a", 1.3), ("late", 2.3), ("y", 1.7), ("w", 0.4)];
            let r = want.eval(&env);
            if r.stable() && !agree(&r, lib_eval(&got, &env)) {
                bad(&format!("substitute {w} by {}", rt.text()), format!("expected {:e}, got {:?}: {got}", r.v, lib_eval(&got, &env)));
            }
            if !rt.var_list().contains(&w) && got.contains_var(w) {
                bad(&format!("substitute {w} by {}", rt.text()), format!("{w} is left: {got}"));
            }
        }
        // by identity
        for (ctx2, same) in [(ctx, true), (other, false)] {
            for w in ["own_a", "late"] {
                let id = ctx2.get_symbol(w).unwrap().id();
                let want = same && t.var_list().contains(&w);
                if e.contains_var_id(id) != want {
                    bad("contains_var_id", format!("{w} of {} context: {}", if same { "the" } else { "another" }, !want));
                }
            }
        }
        mc.trans(6);
    });
    // derivatives of unknown functions by such symbols keep them through every rebuilding
    let routes: Vec<(&str, fn(&Expr) -> Expr)> = vec![
        ("clone", |e| e.clone()),
        ("deep_clone", |e| e.deep_clone()),
        ("map", |e| e.map(|x| x.clone())),
        ("evaluate with nothing", |e| e.evaluate(&std::collections::HashMap::<&str, f64>::new(), &std::collections::HashMap::new())),
        ("evaluate with y", |e| e.evaluate(&std::collections::HashMap::from([("y", 1.5)]), &std::collections::HashMap::new())),
        ("substitute y", |e| e.substitute("y", &Expr::number(2.0))),
        ("simplified", |e| e.simplified().unwrap()),
    ];
    let bodies: Vec<(&str, fn(&Expr) -> Expr)> = vec![
        ("f(a)", |a| Expr::func("f", a.clone())),
        ("g(a,y)", |a| Expr::func_multi("g", vec![a.clone(), symb("y").to_expr()])),
        ("y*f(a)+a", |a| symb("y").to_expr() * Expr::func("f", a.clone()) + a.clone()),
        ("sin(f(a))", |a| Expr::func("sin", Expr::func("f", a.clone()))),
        ("f(a)^2+f(a)+1", |a| Expr::pow_static(Expr::func("f", a.clone()), Expr::number(2.0)) + Expr::func("f", a.clone()) + 1.0),
    ];
    let nameless = symb_anafis::Symbol::anon();
    let kinds: Vec<(&str, symb_anafis::Symbol)> =
        vec![("x", symb("x")), ("own_a of a context", ctx.get_symbol("own_a").unwrap()), ("late of a context", ctx.get_symbol("late").unwrap()), ("a nameless symbol", nameless)];
    for (kn, a) in &kinds {
        for (bn, body) in &bodies {
            for (rn, route) in &routes {
                let lab = format!("second derivative of {bn} by {kn} through {rn}");
                if !mc.wants(&lab) {
                    continue;
                }
                mc.enter(&lab);
                if mc.state(&lab) {
                    mc.trace();
                }
                mc.trans(2);
                let diff = symb_anafis::Diff::new();
                let raw = diff.clone().skip_simplification(true);
                let e = body(&a.to_expr());
                let d = raw.differentiate(&raw.differentiate(&e, a).unwrap(), a).unwrap();
                let r = route(&d);
                let id = a.id();
                if !r.contains_var_id(id) {
                    mc.violation(0, &lab, &format!("the symbol is lost: {d} became {r}"));
                    continue;
                }
                if *rn == "simplified" || rn.contains('y') && bn.contains('y') {
                    continue;
                }
                let (d2, r2) = (raw.differentiate(&d, a).unwrap(), raw.differentiate(&r, a).unwrap());
                if d2 != r2 {
                    mc.violation(0, &lab, &format!("third derivative {r2}, without the rebuilding {d2}"));
                }
            }
        }
    }
}

pub fn run(mc: &Arc<Mc>) {
    let th = mc.thorough;
    let by = replacements(th);
    for w in NAMES {
        let _ = symb(w);
    }
    for (name, al, quick, deep) in pool() {
        sweep(mc, name, &al, if th { deep } else { quick }, |rank, t| {
            let lab = format!("[{}]", t.text());
            if !mc.wants(&lab) {
                return;
            }
            mc.enter(&lab);
            if mc.state(&lab) {
                mc.trace();
            }
            let e = t.expr();
            inspect(mc, rank, &lab, t, &e);
            substitutions(mc, rank, &lab, t, &e, &by);
            // the same for what comes out of the parser, the derivative and the simplifier
            if !t.has_special() && t.size() <= 3 {
                if let Ok(p) = lib_parse(&t.text()) {
                    inspect(mc, rank, &format!("{lab} parsed"), t, &p);
                    substitutions(mc, rank, &format!("{lab} parsed"), t, &p, &by);
                }
            }
        });
    }
    for (name, al, _, _) in pool() {
        if name.starts_with("unknown") {
            continue;
        }
        sweep(mc, &format!("{name}, results"), &al, if th { 4 } else { 3 }, |rank, t| {
            let lab = format!("[{}]", t.text());
            if !mc.wants(&lab) {
                return;
            }
            mc.enter(&lab);
            let e = t.expr();
            if let Ok(d) = e.diff("x") {
                let r = read(&d);
                let l = format!("derivative of {lab}");
                if mc.state(&l) {
                    mc.trace();
                }
                inspect(mc, rank, &l, &r, &d);
                substitutions(mc, rank, &l, &r, &d, &by[..by.len().min(11)]);
            }
            if let Ok(d) = e.simplified() {
                let r = read(&d);
                let l = format!("simplified {lab}");
                if mc.state(&l) {
                    mc.trace();
                }
                inspect(mc, rank, &l, &r, &d);
                substitutions(mc, rank, &l, &r, &d, &by[..by.len().min(11)]);
            }
        });
    }
    let fam = crate::c06::families(false);
    mc.par("size families", fam.len() as u64, 1, |i| {
        let (name, t) = &fam[i as usize];
        if t.size() > 400 || !mc.wants(name) {
            return;
        }
        mc.enter(name);
        if mc.state(name) {
            mc.trace();
        }
        let e = t.expr();
        inspect(mc, i, name, t, &e);
    });
    let sl = crate::slots::slots(mc.thorough);
    mc.par("numbers", sl.len() as u64, 16, |i| {
        let t = &sl[i as usize];
        let l = t.text();
        if !mc.wants(&l) {
            return;
        }
        mc.enter(&l);
        if mc.state(&l) {
            mc.trace();
        }
        inspect(mc, 1 << 45 | i, &l, t, &t.expr());
    });
    contexts(mc);
}
