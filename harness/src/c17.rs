//! C17: user-defined functions behave like their definition everywhere.
use crate::c11::dt;
use crate::fw::Mc;
use crate::c06::BINARY;
use crate::num::{D, E, UNARY};
use crate::tree::*;
use std::collections::{HashMap, HashSet};
use std::cell::Cell;
use std::sync::Arc;
use symb_anafis::visitor::ExprView;
use symb_anafis::{parse, symb, CompiledEvaluator, Context, Diff, Expr, Simplify, UserFunction};

/// formal parameters
const P: [&str; 4] = ["p0", "p1", "p2", "p3"];

/// A definition: body and partial derivatives over the formal parameters.
#[derive(Clone)]
struct Def {
    name: &'static str,
    arity: (usize, usize),
    body: Option<A>,
    partials: Vec<Option<A>>,
}
type Defs = Vec<Def>;

fn find<'a>(defs: &'a Defs, g: &str) -> Option<&'a Def> {
    defs.iter().find(|d| d.name == g)
}

/// simultaneous substitution of the formal parameters
fn inst(body: &A, args: &[A]) -> A {
    let g = |a: &A| inst(a, args);
    match &**body {
        T::V(s) => P.iter().position(|p| p == s).and_then(|i| args.get(i).cloned()).unwrap_or_else(|| body.clone()),
        T::N(_) | T::C(_) => body.clone(),
        T::Neg(a) => neg(g(a)),
        T::Add(a, b) => add(g(a), g(b)),
        T::Sub(a, b) => sub(g(a), g(b)),
        T::Mul(a, b) => mul(g(a), g(b)),
        T::Div(a, b) => div(g(a), g(b)),
        T::Pow(a, b) => pow(g(a), g(b)),
        T::F(h, a) => Arc::new(T::F(h, a.iter().map(g).collect())),
        T::U(h, a) => Arc::new(T::U(h, a.iter().map(g).collect())),
        T::Sum(a) => Arc::new(T::Sum(a.iter().map(g).collect())),
        T::Prod(a) => Arc::new(T::Prod(a.iter().map(g).collect())),
        T::Der(a, w, k) => Arc::new(T::Der(g(a), w, *k)),
    }
}

/// the body as a library expression over the given arguments
fn build(body: &T, args: &[Arc<Expr>]) -> Expr {
    let g = |a: &A| build(a, args);
    match body {
        T::V(s) => P.iter().position(|p| p == s).map_or_else(|| symb(s).to_expr(), |i| (*args[i]).clone()),
        T::N(x) => Expr::number(*x),
        T::C(s) => Expr::symbol(s),
        T::Neg(a) => -g(a),
        T::Add(a, b) => g(a) + g(b),
        T::Sub(a, b) => g(a) - g(b),
        T::Mul(a, b) => g(a) * g(b),
        T::Div(a, b) => g(a) / g(b),
        T::Pow(a, b) => Expr::pow_static(g(a), g(b)),
        T::F(h, a) | T::U(h, a) => Expr::func_multi(h, a.iter().map(g).collect()),
        T::Sum(a) => Expr::sum(a.iter().map(g).collect()),
        T::Prod(a) => Expr::product(a.iter().map(g).collect()),
        T::Der(a, w, k) => Expr::derivative(g(a), w, *k),
    }
}

/// set when a body or partial was called with a number of arguments outside the declared range
thread_local!(static WRONG: Cell<bool> = const { Cell::new(false) });

impl Def {
    fn function(&self) -> UserFunction {
        let (lo, hi) = self.arity;
        let mut u = UserFunction::new(lo..=hi);
        if let Some(b) = &self.body {
            let b = b.clone();
            u = u.body(move |args| {
                if args.len() < lo || args.len() > hi {
                    WRONG.set(true);
                    return Expr::number(f64::NAN);
                }
                build(&b, args)
            });
        }
        for (i, p) in self.partials.iter().enumerate() {
            if let Some(p) = p.clone() {
                u = u
                    .partial(i, move |args| {
                        if args.len() < lo || args.len() > hi {
                            WRONG.set(true);
                            return Expr::number(f64::NAN);
                        }
                        build(&p, args)
                    })
                    .unwrap();
            }
        }
        u
    }
}

fn context(defs: &Defs) -> Context {
    defs.iter().fold(Context::new(), |c, d| c.with_function(d.name, d.function()))
}

/// Replace calls by their bodies; calls without one, and symbolic partial derivatives, by a stand-in meaning.
fn meaning(t: &A, defs: &Defs) -> A {
    let g = |a: &A| meaning(a, defs);
    let stand_in = |h: &str, a: &[A], shift: f64| -> A {
        let k = h.bytes().map(|b| b as f64).sum::<f64>() / 100.0 + shift;
        let s = a.iter().enumerate().fold(n(k), |s, (i, x)| f("atan", add(mul(s, n(1.5)), mul(n(i as f64 + 2.0), g(x)))));
        add(n(2.0), s)
    };
    match &**t {
        T::N(_) | T::V(_) | T::C(_) => t.clone(),
        T::Neg(a) => neg(g(a)),
        T::Add(a, b) => add(g(a), g(b)),
        T::Sub(a, b) => sub(g(a), g(b)),
        T::Mul(a, b) => mul(g(a), g(b)),
        T::Div(a, b) => div(g(a), g(b)),
        T::Pow(a, b) => pow(g(a), g(b)),
        T::F(h, a) => Arc::new(T::F(h, a.iter().map(g).collect())),
        T::Sum(a) => Arc::new(T::Sum(a.iter().map(g).collect())),
        T::Prod(a) => Arc::new(T::Prod(a.iter().map(g).collect())),
        T::U(h, a) => match find(defs, h) {
            Some(d) if d.body.is_some() && (d.arity.0..=d.arity.1).contains(&a.len()) => g(&inst(d.body.as_ref().unwrap(), a)),
            _ => stand_in(h, a, 0.0),
        },
        T::Der(a, w, _) => match &**a {
            // the symbolic partial derivative by one argument
            T::U(h, args) => match w.strip_prefix("arg").and_then(|d| d.parse::<usize>().ok()) {
                Some(i) => stand_in(h, args, 0.3 + i as f64),
                None => t.clone(),
            },
            _ => t.clone(),
        },
    }
}

/// Value and derivative by the definition: the chain rule through exactly the given partial derivatives.
fn chain(t: &A, defs: &Defs, p: Env, w: &str) -> D {
    let g = |a: &A| chain(a, defs, p, w);
    match &**t {
        T::N(_) | T::V(_) | T::C(_) => t.eval_d(p, w),
        T::Neg(a) => g(a).neg(),
        T::Add(a, b) => g(a).add(g(b)),
        T::Sub(a, b) => g(a).sub(g(b)),
        T::Mul(a, b) => g(a).mul(g(b)),
        T::Div(a, b) => g(a).div(g(b)),
        T::Pow(a, b) => g(a).pow(g(b)),
        T::F(h, a) => {
            let v: Vec<D> = a.iter().map(g).collect();
            D::func(h, &v)
        }
        T::Sum(a) => a.iter().fold(D::cst(E::exact(0.0)), |s, x| s.add(g(x))),
        T::Prod(a) => a.iter().fold(D::cst(E::exact(1.0)), |s, x| s.mul(g(x))),
        T::U(h, a) => {
            let v = meaning(t, defs).eval(p);
            let mut d = E::exact(0.0);
            let mut k = true;
            let fits = find(defs, h).filter(|d| (d.arity.0..=d.arity.1).contains(&a.len()));
            for (i, x) in a.iter().enumerate() {
                let dx = g(x);
                if dx.k {
                    continue;
                }
                k = false;
                let partial = match fits.and_then(|f| f.partials.get(i).cloned().flatten()) {
                    Some(q) => meaning(&inst(&q, a), defs).eval(p),
                    None => meaning(&Arc::new(T::Der(t.clone(), leak(&format!("arg{i}")), 1)), defs).eval(p),
                };
                d = d.add(partial.mul(dx.d));
            }
            D { v, d, k }
        }
        T::Der(..) => D { v: E::UNDEF, d: E::UNDEF, k: false },
    }
}

fn envs() -> Vec<Vec<(&'static str, f64)>> {
    [[0.6, 1.7], [1.3, 0.45], [2.2, 0.8]].iter().map(|r| vec![("x", r[0]), ("y", r[1])]).collect()
}

/// functions unknown to the reference become user functions
fn user(t: &A) -> A {
    match &**t {
        T::F(h, a) if crate::num::intern_fn(h).is_none() => Arc::new(T::U(h, a.iter().map(user).collect())),
        T::F(h, a) => Arc::new(T::F(h, a.iter().map(user).collect())),
        T::N(_) | T::V(_) | T::C(_) => t.clone(),
        T::Neg(a) => neg(user(a)),
        T::Add(a, b) => add(user(a), user(b)),
        T::Sub(a, b) => sub(user(a), user(b)),
        T::Mul(a, b) => mul(user(a), user(b)),
        T::Div(a, b) => div(user(a), user(b)),
        T::Pow(a, b) => pow(user(a), user(b)),
        _ => t.clone(),
    }
}

fn has_der(t: &T) -> bool {
    matches!(t, T::Der(..)) || t.children().iter().any(|k| has_der(k))
}

struct Case<'a> {
    mc: &'a Mc,
    rank: u64,
    lab: String,
    defs: &'a Defs,
    t: A,
    whole: A,
}

impl Case<'_> {
    fn bad(&self, what: &str, m: &str) {
        self.mc.violation(self.rank, &format!("{what} of {}", self.lab), m);
    }
    /// an expression with the value of the original
    fn value(&self, what: &str, got: &Expr) {
        let m = meaning(&read(got), self.defs);
        for p in envs() {
            let w = self.whole.eval(&p);
            if !w.stable() || !self.whole.regular(&p) {
                continue;
            }
            let x = m.eval(&p);
            // (a value that underflows may come from something that overflows)
            if x.stable() && !agree2(&w, &x) || !x.defined() && w.v.abs() > 1e-250 {
                self.bad(what, &format!("expected {:e}, got {:e} at {}; result {got}", w.v, x.v, env_text(&p)));
                return;
            }
        }
        self.mc.trans(1);
    }
    fn numbers(&self, what: &str, f: impl Fn(Env) -> Option<f64>) {
        for p in envs() {
            let w = self.whole.eval(&p);
            if !w.stable() {
                continue;
            }
            let g = f(&p);
            if !agree(&w, g) {
                self.bad(what, &format!("expected {:e}, got {g:?} at {}", w.v, env_text(&p)));
                return;
            }
        }
        self.mc.trans(1);
    }
    fn derivative(&self, what: &str, w: &str, got: &Expr, simplified: Option<&A>) {
        let m = meaning(&read(got), self.defs);
        if has_der(&m) {
            return;
        }
        for p in envs() {
            let r = chain(&self.t, self.defs, &p, w);
            if !r.d.stable() || !r.v.stable() || !self.whole.regular(&p) || simplified.is_some_and(|s| !s.regular(&p)) {
                continue;
            }
            let x = m.eval(&p);
            if x.stable() && !agree2(&r.d, &x) || !x.defined() && simplified.is_some() {
                self.bad(what, &format!("by {w}: expected {:e}, got {:e} at {}; result {got}", r.d.v, x.v, env_text(&p)));
                return;
            }
        }
        self.mc.trans(1);
    }
}

fn def_text(defs: &Defs) -> String {
    defs.iter()
        .map(|d| {
            format!(
                "{}/{}..{}={} partials [{}]",
                d.name,
                d.arity.0,
                if d.arity.1 == usize::MAX { "any".into() } else { d.arity.1.to_string() },
                d.body.as_ref().map_or("none".into(), |b| b.text()),
                d.partials.iter().map(|p| p.as_ref().map_or("none".into(), |p| p.text())).collect::<Vec<_>>().join(" ; ")
            )
        })
        .collect::<Vec<_>>()
        .join(", ")
}

type Customs = HashMap<String, Arc<dyn Fn(&[f64]) -> Option<f64> + Send + Sync>>;

fn customs(defs: &Defs) -> Customs {
    let mut m: Customs = HashMap::new();
    for d in defs {
        if let Some(b) = &d.body {
            let (b, all, (lo, hi)) = (b.clone(), defs.clone(), d.arity);
            m.insert(
                d.name.to_string(),
                Arc::new(move |a: &[f64]| {
                    if a.len() < lo || a.len() > hi {
                        return None;
                    }
                    let args: Vec<A> = a.iter().map(|x| n(*x)).collect();
                    let r = meaning(&inst(&b, &args), &all).eval(&[]);
                    r.defined().then_some(r.v)
                }),
            );
        }
    }
    m
}

fn complete(t: &T, defs: &Defs) -> bool {
    let here = match t {
        T::U(h, a) => find(defs, h).is_some_and(|d| d.body.is_some() && (d.arity.0..=d.arity.1).contains(&a.len())),
        _ => true,
    };
    here && t.children().iter().all(|k| complete(k, defs))
}

/// one expression with one set of definitions, on every route
fn check(mc: &Mc, rank: u64, t: &A, defs: &Defs, ctx: &Context, cust: &Customs) {
    let lab = format!("[{}] with {}", t.text(), def_text(defs));
    if !mc.wants(&lab) {
        return;
    }
    mc.enter(&lab);
    if mc.state(&lab) {
        mc.trace();
    }
    let whole = meaning(t, defs);
    let e = t.expr();
    let c = Case { mc, rank, lab, defs, t: t.clone(), whole };
    let full = complete(t, defs);
    // compiled
    for (what, r) in [("compile", CompiledEvaluator::compile(&e, &["x", "y"], Some(ctx))), ("compile with other order", CompiledEvaluator::compile(&e, &["y", "q", "x"], Some(ctx)))] {
        match r {
            Err(er) => {
                if full {
                    c.bad(what, &format!("error {er:?}"));
                }
            }
            Ok(cc) => {
                if !complete(&read(&e), defs) {
                    c.bad(what, "a function without a body, or with a wrong number of arguments, compiles");
                } else if full {
                    c.numbers(what, |p| {
                        let v: Vec<f64> = cc.param_names().iter().map(|s| p.iter().find(|q| q.0 == s.as_str()).map_or(7.5, |q| q.1)).collect();
                        Some(cc.evaluate(&v))
                    });
                }
            }
        }
    }
    // evaluated with custom evaluations, at once and in stages (they see their arguments alone)
    let closed = |d: &Def| d.body.as_ref().is_none_or(|b| b.var_list().iter().all(|w| P.contains(w)));
    if full && defs.iter().all(closed) {
        c.numbers("evaluate", |p| {
            let m: HashMap<&str, f64> = p.iter().map(|(k, v)| (*k, *v)).collect();
            e.evaluate(&m, cust).as_number()
        });
        for order in [["x", "y"], ["y", "x"]] {
            c.numbers(&format!("evaluate in stages {order:?}"), |p| {
                let mut r = e.clone();
                for w in order {
                    let m: HashMap<&str, f64> = p.iter().filter(|q| q.0 == w).map(|(k, v)| (*k, *v)).collect();
                    r = r.evaluate(&m, cust);
                }
                r.as_number()
            });
        }
    }
    // without the definitions nothing is known of the functions
    // simplified
    let with = |ds: bool| defs.iter().fold(Simplify::new().domain_safe(ds), |s, d| s.user_fn(d.name, d.function()));
    let withd = |raw: bool| defs.iter().fold(Diff::new().skip_simplification(raw), |s, d| s.user_fn(d.name, d.function()));
    for (what, s) in [
        ("simplify", with(false)),
        ("domain-safe simplify", with(true)),
        ("simplify in context", Simplify::new().with_context(ctx)),
        ("simplify without definitions", Simplify::new()),
    ] {
        match s.simplify(&e) {
            Ok(r) => c.value(what, &r),
            Err(er) => c.bad(what, &format!("error {er:?}")),
        }
    }
    // parsed in the context
    let none: HashSet<String> = HashSet::new();
    let names: HashSet<String> = defs.iter().map(|d| d.name.to_string()).collect();
    for (what, r) in [("parse in context", parse(&t.text(), &none, &none, Some(ctx))), ("parse with names", parse(&t.text(), &none, &names, None))] {
        match r {
            Ok(r) => c.value(what, &r),
            Err(er) => c.bad(what, &format!("error {er:?}")),
        }
    }
    // differentiated
    for w in ["x", "y"] {
        let s = symb(w);
        let raw = withd(true).differentiate(&e, &s);
        match &raw {
            Ok(r) => c.derivative("derivative", w, r, None),
            Err(er) => c.bad("derivative", &format!("error {er:?}")),
        }
        let Ok(raw) = raw else { continue };
        match Diff::new().skip_simplification(true).with_context(ctx).differentiate(&e, &s) {
            Ok(r) => {
                if r != raw {
                    c.derivative("derivative in context", w, &r, None);
                }
            }
            Err(er) => c.bad("derivative in context", &format!("error {er:?}")),
        }
        let rt = meaning(&read(&raw), defs);
        for (what, d) in [("simplified derivative", withd(false)), ("simplified derivative in context", Diff::new().with_context(ctx)), ("domain-safe derivative", withd(false).domain_safe(true))] {
            match d.differentiate(&e, &s) {
                Ok(r) => {
                    c.derivative(what, w, &r, Some(&rt));
                }
                Err(er) => c.bad(what, &format!("error {er:?}")),
            }
        }
        // the derivative compiles in the context when everything is defined
        if full && complete(&read(&raw), defs) && !has_der(&read(&raw)) {
            match CompiledEvaluator::compile(&raw, &["x", "y"], Some(ctx)) {
                Ok(cc) => {
                    for p in envs() {
                        let r = chain(t, defs, &p, w);
                        let got = cc.evaluate(&[p[0].1, p[1].1]);
                        if r.d.stable() && r.v.stable() && c.whole.regular(&p) && rt.eval(&p).stable() && !agree(&r.d, Some(got)) {
                            c.bad("compiled derivative", &format!("by {w}: expected {:e}, got {got:e} at {}; derivative {raw}", r.d.v, env_text(&p)));
                            break;
                        }
                    }
                    mc.trans(1);
                }
                Err(er) => c.bad("compiled derivative", &format!("error {er:?}: {raw}")),
            }
        }
    }
    if WRONG.replace(false) {
        c.bad("calls", "a definition was called with a number of arguments outside its range");
    }
}

/// partial derivatives of a body, consistent with it, where the reference knows them
fn consistent(body: &A, defs: &Defs, k: usize) -> Vec<Option<A>> {
    let b = meaning(body, defs);
    (0..k).map(|i| dt(&b, P[i])).collect()
}

fn def_sets(th: bool) -> Vec<Defs> {
    let p0 = || v("p0");
    let p1 = || v("p1");
    let call = |g: &'static str, a: Vec<A>| -> A { Arc::new(T::U(g, a)) };
    let fb: Vec<A> = vec![
        add(pow(p0(), n(2.0)), n(1.0)),
        add(add(pow(p0(), n(2.0)), p0()), n(1.0)),
        f("sin", p0()),
        n(2.0),
        p0(),
        f("exp", neg(pow(p0(), n(2.0)))),
        div(n(1.0), p0()),
        f("sqrt", p0()),
        add(mul(p0(), v("x")), v("y")),
    ];
    let gb: Vec<A> = vec![
        sub(p0(), p1()),
        div(p0(), p1()),
        pow(p0(), p1()),
        p1(),
        mul(p0(), f("sin", p1())),
        add(add(mul(pow(p0(), n(2.0)), p1()), pow(p1(), n(2.0))), n(3.0)),
    ];
    let def = |name, k: usize, body: Option<A>, partials| Def { name, arity: (k, k), body, partials };
    let mut out: Vec<Defs> = vec![];
    // every body with every body, all partial derivatives given
    for a in &fb {
        for b in &gb {
            if !th && (fb.iter().position(|q| q == a).unwrap() + gb.iter().position(|q| q == b).unwrap()) % 2 == 1 {
                continue;
            }
            // (the body that mentions x and y has partials by its argument alone)
            out.push(vec![def("f", 1, Some(a.clone()), consistent(a, &vec![], 1)), def("g", 2, Some(b.clone()), consistent(b, &vec![], 2))]);
        }
    }
    // bodies that call the other function
    let inner = def("f", 1, Some(fb[1].clone()), consistent(&fb[1], &vec![], 1));
    for b in [call("f", vec![mul(p0(), p1())]), mul(call("f", vec![p0()]), p1()), call("f", vec![call("f", vec![add(p0(), p1())])]), sub(call("f", vec![p1()]), call("f", vec![p0()]))] {
        let d = vec![inner.clone()];
        let partials = consistent(&b, &d, 2);
        out.push(vec![inner.clone(), def("g", 2, Some(b.clone()), partials)]);
        out.push(vec![inner.clone(), def("g", 2, Some(b), vec![None, None])]);
    }
    let inner = def("g", 2, Some(gb[1].clone()), consistent(&gb[1], &vec![], 2));
    for b in [call("g", vec![p0(), p0()]), call("g", vec![n(1.0), p0()]), add(call("g", vec![p0(), n(2.0)]), call("g", vec![n(2.0), p0()]))] {
        let d = vec![inner.clone()];
        let partials = consistent(&b, &d, 1);
        out.push(vec![def("f", 1, Some(b), partials), inner.clone()]);
    }
    // every set of given partial derivatives, with and without bodies; the marked ones are not the body's
    let mark = [mul(n(7.0), p0()), add(p0(), mul(n(3.0), p1()))];
    for body in [false, true] {
        for fp in 0..3 {
            for gp in 0..5 {
                let fbod = fb[0].clone();
                let gbod = gb[4].clone();
                let fps = match fp {
                    0 => vec![None],
                    1 => consistent(&fbod, &vec![], 1),
                    _ => vec![Some(mark[0].clone())],
                };
                let c = consistent(&gbod, &vec![], 2);
                let gps = match gp {
                    0 => vec![None, None],
                    1 => vec![c[0].clone(), None],
                    2 => vec![None, c[1].clone()],
                    3 => vec![Some(mark[0].clone()), Some(mark[1].clone())],
                    _ => vec![Some(mark[1].clone()), None],
                };
                out.push(vec![def("f", 1, body.then(|| fbod.clone()), fps), def("g", 2, body.then(|| gbod.clone()), gps)]);
            }
        }
    }
    // partial derivatives that call functions
    out.push(vec![
        def("f", 1, Some(f("exp", p0())), vec![Some(call("f", vec![p0()]))]),
        def("g", 2, Some(mul(f("exp", p0()), p1())), vec![Some(call("g", vec![p0(), p1()])), Some(call("f", vec![p0()]))]),
    ]);
    out
}

/// numbers of arguments inside and outside the declared range
fn arities(mc: &Arc<Mc>) {
    let ranges = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (2, 3), (0, usize::MAX), (1, usize::MAX), (3, 3)];
    // the body uses as many arguments as there are at least
    let body = |lo: usize| (0..lo).fold(n(1.5), |s, i| add(mul(s, n(2.0)), mul(n(i as f64 + 1.0), v(P[i]))));
    let actual: Vec<A> = vec![v("x"), f("sin", v("y")), mul(v("x"), v("y")), add(v("y"), n(1.0)), n(2.0)];
    let wraps: Vec<(&str, fn(A) -> A)> = vec![("the call", |a| a), ("sin of it", |a| f("sin", a)), ("its square plus it plus one", |a| add(add(pow(a.clone(), n(2.0)), a), n(1.0))), ("x times it", |a| mul(v("x"), a))];
    let (ranges, actual, wraps, body) = (&ranges, &actual, &wraps, &body);
    mc.par("numbers of arguments", (ranges.len() * 6 * 2 * 3 * wraps.len()) as u64, 4, |i| {
        let i = i as usize;
        let (lo, hi) = ranges[i % ranges.len()];
        let k = i / ranges.len() % 6;
        let with_body = i / ranges.len() / 6 % 2 == 1;
        let ps = i / ranges.len() / 12 % 3;
        let wrap = wraps[i / ranges.len() / 36];
        let mut partials: Vec<Option<A>> = (0..lo).map(|j| (ps > 0).then(|| add(n(j as f64 + 3.0), v(P[0])))).collect();
        if ps == 2 && lo > 0 {
            partials[lo - 1] = None;
        }
        let defs = vec![Def { name: "f", arity: (lo, hi), body: with_body.then(|| body(lo)), partials }];
        let t = (wrap.1)(Arc::new(T::U("f", actual.iter().cycle().take(k).cloned().collect())));
        if k == 0 && lo > 0 && i % 2 == 1 && k > 5 {
            return;
        }
        let ctx = context(&defs);
        check_calls(mc, i as u64, &t, &defs, &ctx);
    });
}

/// like `check`, for one thread at a time: the calls the definitions see
fn check_calls(mc: &Mc, rank: u64, t: &A, defs: &Defs, ctx: &Context) {
    check(mc, rank, t, defs, ctx, &customs(defs));
}

/// definitions that call themselves
fn recursion(mc: &Arc<Mc>) {
    let p0 = || v("p0");
    let call = |g: &'static str, a: Vec<A>| -> A { Arc::new(T::U(g, a)) };
    let bodies: Vec<(&str, A, A)> = vec![
        ("f = f", call("f", vec![p0()]), n(1.0)),
        ("f = f+1", add(call("f", vec![p0()]), n(1.0)), n(1.0)),
        ("f = 2f", mul(n(2.0), call("f", vec![p0()])), n(1.0)),
        ("f = f(p+1)", call("f", vec![add(p0(), n(1.0))]), n(1.0)),
        ("f = p*f(p-1)", mul(p0(), call("f", vec![sub(p0(), n(1.0))])), n(1.0)),
        ("f = f(f)", call("f", vec![call("f", vec![p0()])]), n(1.0)),
        ("f = f+f", add(call("f", vec![add(p0(), n(1.0))]), call("f", vec![sub(p0(), n(1.0))])), n(1.0)),
        ("f = f^f", pow(call("f", vec![p0()]), call("f", vec![add(p0(), n(1.0))])), n(1.0)),
        ("f = sin(f)", f("sin", call("f", vec![p0()])), n(1.0)),
        ("f = g, g = f", call("g", vec![p0()]), call("f", vec![p0()])),
        ("f = g+1, g = 2f", add(call("g", vec![p0()]), n(1.0)), mul(n(2.0), call("f", vec![p0()]))),
        ("f = g(f), g = f(g)", call("g", vec![call("f", vec![p0()])]), call("f", vec![call("g", vec![p0()])])),
        ("f = g(p+1)+g(p), g = f(p-1)*f(p)", add(call("g", vec![add(p0(), n(1.0))]), call("g", vec![p0()])), mul(call("f", vec![sub(p0(), n(1.0))]), call("f", vec![p0()]))),
        ("f = 1/f", div(n(1.0), call("f", vec![p0()])), n(1.0)),
    ];
    let args: Vec<A> = vec![v("x"), n(2.0), call("f", vec![v("x")]), add(v("x"), v("y"))];
    let wraps: Vec<fn(A) -> A> = vec![|a| a, |a| f("sin", a), |a| add(pow(a.clone(), n(2.0)), a), |a| mul(v("x"), a)];
    let (bodies, args, wraps) = (&bodies, &args, &wraps);
    mc.par("recursion", (bodies.len() * args.len() * wraps.len() * 2) as u64, 1, |i| {
        let k = i as usize;
        let (name, fb, gb) = &bodies[k % bodies.len()];
        let a = &args[k / bodies.len() % args.len()];
        let wrap = wraps[k / bodies.len() / args.len() % wraps.len()];
        let partials = k / bodies.len() / args.len() / wraps.len() == 1;
        if !mc.thorough && *name == "f = p*f(p-1)" && (k / bodies.len() % (args.len() * wraps.len())) % 5 != 0 {
            return; // (these grow slowly)
        }
        let defs: Defs = vec![
            Def { name: "f", arity: (1, 1), body: Some(fb.clone()), partials: vec![partials.then(|| fb.clone())] },
            Def { name: "g", arity: (1, 1), body: Some(gb.clone()), partials: vec![partials.then(|| gb.clone())] },
        ];
        let t = wrap(call("f", vec![a.clone()]));
        let lab = format!("recursion {name}, {} partials: {}", if partials { "recursive" } else { "no" }, t.text());
        if !mc.wants(&lab) {
            return;
        }
        mc.enter(&lab);
        mc.state(&lab);
        mc.trace();
        let ctx = context(&defs);
        let e = t.expr();
        // (a result or an error; a crash or a hang shows as such)
        let r = CompiledEvaluator::compile(&e, &["x", "y"], Some(&ctx));
        if r.is_ok() {
            mc.violation(i, &lab, "an endless recursion compiles");
        }
        let s = defs.iter().fold(Simplify::new(), |s, d| s.user_fn(d.name, d.function()));
        let _ = s.simplify(&e);
        let _ = Simplify::new().with_context(&ctx).simplify(&e);
        let d = defs.iter().fold(Diff::new(), |s, d| s.user_fn(d.name, d.function()));
        let x = symb("x");
        let _ = d.differentiate(&e, &x);
        let _ = d.clone().skip_simplification(true).differentiate(&e, &x);
        let _ = Diff::new().with_context(&ctx).differentiate(&e, &x);
        mc.trans(6);
    });
    // recursion that ends: factorial by numbers
    mc.par("recursion that ends", 13, 1, |i| {
        let lab = format!("factorial of {i}");
        if !mc.wants(&lab) {
            return;
        }
        mc.enter(&lab);
        mc.state(&lab);
        mc.trace();
        let fact = UserFunction::new(1..=1).body(|a| match a[0].as_number() {
            Some(k) if k <= 0.0 => Expr::number(1.0),
            Some(k) => Expr::number(k) * Expr::func("fact", Expr::number(k - 1.0)),
            None => Expr::func("fact", (*a[0]).clone()),
        });
        let e = Expr::func("fact", Expr::number(i as f64));
        let want: f64 = (1..=i).map(|k| k as f64).product();
        let s = Simplify::new().user_fn("fact", fact.clone()).simplify(&e).unwrap();
        // unfolding stops somewhere at the latest at the iteration limit; a number must be the right one
        if s.as_number().is_some_and(|x| x != want) {
            mc.violation(i, &lab, &format!("simplified to {s}, expected {want}"));
        }
        let ctx = Context::new().with_function("fact", fact);
        if let Ok(c) = CompiledEvaluator::compile(&e, &["x"], Some(&ctx)) {
            let g = c.evaluate(&[0.0]);
            if g != want {
                mc.violation(i, &lab, &format!("compiled to {g}, expected {want}"));
            }
        }
        mc.trans(2);
    });
    // depth: the call below many other operations, and many nested calls
    let deep: Vec<usize> = vec![1, 2, 10, 30, 49, 50, 51, 60, 90, 98, 99, 100, 101, 102, 110, 130, 150];
    let shapes: Vec<(&str, fn(A) -> A)> = vec![
        ("sin(..)", |a| f("sin", a)),
        ("1/(1+..)", |a| div(n(1.0), add(n(1.0), a))),
        ("y*(x+..)", |a| mul(v("y"), add(v("x"), a))),
        ("f(..)", |a| Arc::new(T::U("f", vec![a]))),
        ("g(..,x)", |a| Arc::new(T::U("g", vec![a, v("x")]))),
        ("sin(f(..))", |a| f("sin", Arc::new(T::U("f", vec![a])))),
    ];
    let (deep, shapes) = (&deep, &shapes);
    let defs: Defs = vec![
        Def { name: "f", arity: (1, 1), body: Some(div(n(1.0), add(n(1.0), v("p0")))), partials: vec![None] },
        Def { name: "g", arity: (2, 2), body: Some(mul(n(0.5), add(f("sin", v("p0")), v("p1")))), partials: vec![None, None] },
    ];
    let (defs, ctx) = (&defs, &context(&defs));
    mc.par("deep calls", (deep.len() * shapes.len()) as u64, 1, |i| {
        let (name, sh) = &shapes[i as usize % shapes.len()];
        let d = deep[i as usize / shapes.len()];
        let lab = format!("f(x) below {d} times {name}");
        if !mc.wants(&lab) {
            return;
        }
        mc.enter(&lab);
        mc.state(&lab);
        mc.trace();
        let mut t: A = Arc::new(T::U("f", vec![v("x")]));
        for _ in 0..d {
            t = sh(t);
        }
        let e = t.expr();
        let whole = meaning(&t, defs);
        match CompiledEvaluator::compile(&e, &["x", "y"], Some(ctx)) {
            Err(er) => mc.violation(i, &lab, &format!("error {er:?}")),
            Ok(c) => {
                for p in envs() {
                    let w = whole.eval(&p);
                    let g = c.evaluate(&[p[0].1, p[1].1]);
                    if w.stable() && !agree(&w, Some(g)) {
                        mc.violation(i, &lab, &format!("expected {:e}, got {g:e} at {}", w.v, env_text(&p)));
                        break;
                    }
                }
            }
        }
        mc.trans(1);
    });
}

/// definitions of one context are unknown to another; later ones replace earlier ones
fn isolation(mc: &Arc<Mc>) {
    // operations on two contexts and a builder: define f as one of three functions, remove it, copy
    let bodies = [add(v("p0"), n(1.0)), mul(n(3.0), v("p0")), f("sin", v("p0"))];
    const OPS: u64 = 10;
    let len = if mc.thorough { 5 } else { 4 };
    let bodies = &bodies;
    mc.par("histories of definitions", OPS.pow(len), 32, |i| {
        let mut r = i;
        let ops: Vec<u64> = (0..len)
            .map(|_| {
                let o = r % OPS;
                r /= OPS;
                o
            })
            .collect();
        let names = ["A f=p+1", "A f=3p", "A f=sin", "A remove f", "B f=p+1", "B f=3p", "B remove f", "B=copy of A", "A=copy of B", "A clear functions"];
        let lab = ops.iter().map(|o| names[*o as usize]).collect::<Vec<_>>().join(", ");
        if !mc.wants(&lab) {
            return;
        }
        mc.enter(&lab);
        mc.state(&lab);
        mc.trace();
        let mk = |k: usize| Def { name: "f", arity: (1, 1), body: Some(bodies[k].clone()), partials: consistent(&bodies[k], &vec![], 1) };
        let mut ctx = [Context::new(), Context::new()];
        let mut model: [Option<usize>; 2] = [None, None];
        for o in &ops {
            match *o {
                0..=2 => {
                    ctx[0] = ctx[0].clone().with_function("f", mk(*o as usize).function());
                    model[0] = Some(*o as usize);
                }
                3 => {
                    ctx[0].remove_function("f");
                    model[0] = None;
                }
                4 | 5 => {
                    ctx[1] = ctx[1].clone().with_function("f", mk(*o as usize - 4).function());
                    model[1] = Some(*o as usize - 4);
                }
                6 => {
                    ctx[1].remove_function("f");
                    model[1] = None;
                }
                7 => {
                    ctx[1] = ctx[0].clone();
                    model[1] = model[0];
                }
                8 => {
                    ctx[0] = ctx[1].clone();
                    model[0] = model[1];
                }
                _ => {
                    ctx[0].clear_functions();
                    model[0] = None;
                }
            }
        }
        let e = Expr::func("f", symb("x").to_expr());
        let x = 0.7f64;
        for k in 0..2 {
            let name = ["A", "B"][k];
            let defs: Defs = model[k].map(mk).into_iter().collect();
            let want = model[k].map(|b| [x + 1.0, 3.0 * x, x.sin()][b]);
            let got = CompiledEvaluator::compile(&e, &["x"], Some(&ctx[k])).ok().map(|c| c.evaluate(&[x]));
            let ok = match (want, got) {
                (None, None) => true,
                (Some(a), Some(b)) => (a - b).abs() < 1e-14,
                _ => false,
            };
            if !ok {
                mc.violation(i, &lab, &format!("f(0.7) compiled in {name} is {got:?}, expected {want:?}"));
            }
            if ctx[k].has_function("f") != want.is_some() || ctx[k].function_names().contains("f") != want.is_some() || ctx[k].get_body("f").is_some() != want.is_some() {
                mc.violation(i, &lab, &format!("has_function, function_names or get_body of {name} disagree with the history"));
            }
            let d = Diff::new().skip_simplification(true).with_context(&ctx[k]).differentiate(&e, &symb("x")).unwrap();
            let dv = meaning(&read(&d), &defs).eval(&[("x", x)]);
            let dw = chain(&Arc::new(T::U("f", vec![v("x")])), &defs, &[("x", x)], "x").d;
            if !agree2(&dv, &dw) {
                mc.violation(i, &lab, &format!("the derivative in {name} is {d}, expected value {}", dw.v));
            }
            let s = Simplify::new().with_context(&ctx[k]).simplify(&e).unwrap();
            let sv = meaning(&read(&s), &defs).eval(&[("x", x)]);
            let sw = meaning(&Arc::new(T::U("f", vec![v("x")])), &defs).eval(&[("x", x)]);
            if !agree2(&sv, &sw) {
                mc.violation(i, &lab, &format!("simplified in {name} to {s}, expected value {}", sw.v));
            }
            // definitions given to a builder go before those of its context
            let over = Diff::new().skip_simplification(true).with_context(&ctx[k]).user_fn("f", mk(2).function()).differentiate(&e, &symb("x")).unwrap();
            let ov = meaning(&read(&over), &vec![mk(2)]).eval(&[("x", x)]);
            if !agree(&ov, Some(x.cos())) {
                mc.violation(i, &lab, &format!("the derivative by the builder's own f over {name} is {over}"));
            }
        }
        mc.trans(12);
    });
}

/// numbers come out where everything is given, and partial derivatives are accepted exactly within the range
fn direct(mc: &Arc<Mc>) {
    let sets = def_sets(true);
    let sets = &sets;
    mc.par("calls with numbers", (sets.len() * 2 * 16) as u64, 4, |i| {
        let i = i as usize;
        let defs = &sets[i % sets.len()];
        let j = i / sets.len();
        let vals = [2.0, 0.5, 3.0, 1.0];
        let (name, args) = if j < 16 { ("f", vec![n(vals[j % 4])]) } else { ("g", vec![n(vals[j % 4]), n(vals[j / 4 % 4])]) };
        let t: A = Arc::new(T::U(name, args));
        let lab = format!("simplify {} with {}", t.text(), def_text(defs));
        if !mc.wants(&lab) || find(defs, name).unwrap().body.is_none() {
            return;
        }
        mc.enter(&lab);
        mc.state(&lab);
        let e = t.expr();
        let ctx = context(defs);
        let whole = meaning(&t, defs);
        let w = whole.eval(&[("x", 0.6), ("y", 1.7)]);
        for (what, s) in [("user_fn", defs.iter().fold(Simplify::new(), |s, d| s.user_fn(d.name, d.function()))), ("with_context", Simplify::new().with_context(&ctx))] {
            let r = s.simplify(&e).unwrap();
            let m = read(&r);
            if m.has_special() {
                mc.violation(i as u64, &lab, &format!("through {what} the call is not replaced by its body: {r}"));
            } else if w.stable() && !agree2(&w, &m.eval(&[("x", 0.6), ("y", 1.7)])) {
                mc.violation(i as u64, &lab, &format!("through {what}: expected value {}, got {r}", w.v));
            }
        }
        mc.trans(2);
    });
    mc.par("indexes of partial derivatives", 6 * 6 * 8, 8, |i| {
        let (lo, hi, idx) = ((i % 6) as usize, (i / 6 % 6) as usize, (i / 36) as usize);
        let hi = if hi == 5 { usize::MAX } else { hi };
        let lab = format!("partial {idx} of a function of {lo} to {hi} arguments");
        if !mc.wants(&lab) || lo > hi {
            return;
        }
        mc.enter(&lab);
        mc.state(&lab);
        let u = UserFunction::new(lo..=hi);
        for k in 0..9 {
            if u.accepts_arity(k) != (k >= lo && k <= hi) {
                mc.violation(i, &lab, &format!("accepts_arity({k})"));
            }
        }
        let ok = idx < hi;
        let a = u.clone().partial(idx, |_| Expr::number(1.0));
        let b = u.partial_arc(idx, Arc::new(|_: &[Arc<Expr>]| Expr::number(1.0)));
        if a.is_ok() != ok || b.is_ok() != ok {
            mc.violation(i, &lab, &format!("accepted: {} and {}", a.is_ok(), b.is_ok()));
        }
        if let Ok(a) = a {
            for k in 0..9 {
                if a.has_partial(k) != (k == idx) {
                    mc.violation(i, &lab, &format!("has_partial({k})"));
                }
            }
        }
        mc.trans(1);
    });
}

/// definitions under the names of built-in functions go before these
fn redefinitions(mc: &Arc<Mc>) {
    let one = add(mul(n(3.0), pow(v("p0"), n(2.0))), add(v("p0"), n(1.5)));
    let two = add(mul(v("p0"), pow(v("p1"), n(2.0))), add(mul(n(2.0), v("p0")), v("p1")));
    let mut cases: Vec<(Defs, A)> = vec![];
    let names = UNARY.iter().map(|g| (*g, 1)).chain(BINARY.iter().map(|g| (*g, 2)));
    for (g, k) in names {
        let body = if k == 1 { &one } else { &two };
        let d = vec![Def { name: g, arity: (k, k), body: Some(body.clone()), partials: consistent(body, &vec![], k) }];
        for a in [v("x"), mul(n(2.0), v("x")), add(v("x"), v("y")), pow(v("y"), n(2.0)), f("sqrt", v("x")), f("exp", v("y"))] {
            if matches!(&*a, T::F(h, _) if *h == g) {
                continue;
            }
            for b in if k == 1 { vec![n(0.0)] } else { vec![v("y"), mul(v("x"), v("y")), n(2.0)] } {
                let call: A = Arc::new(T::F(g, if k == 1 { vec![a.clone()] } else { vec![a.clone(), b] }));
                for t in [call.clone(), add(call.clone(), v("x")), mul(v("y"), call.clone()), div(v("x"), call.clone()), pow(call.clone(), n(2.0))] {
                    cases.push((d.clone(), t));
                }
            }
        }
    }
    fn inlined(t: &A, d: &Def) -> A {
        let g = |k: &[A]| k.iter().map(|a| inlined(a, d)).collect::<Vec<_>>();
        match &**t {
            T::F(h, k) if *h == d.name => inst(d.body.as_ref().unwrap(), &g(k)),
            T::F(h, k) => Arc::new(T::F(h, g(k))),
            T::Add(a, b) => add(inlined(a, d), inlined(b, d)),
            T::Mul(a, b) => mul(inlined(a, d), inlined(b, d)),
            T::Div(a, b) => div(inlined(a, d), inlined(b, d)),
            T::Pow(a, b) => pow(inlined(a, d), inlined(b, d)),
            _ => t.clone(),
        }
    }
    let pts = grid(&["x", "y"], &[0.6, 1.7, 2.4]);
    mc.par("names of built-in functions", cases.len() as u64, 4, |i| {
        let (defs, t) = &cases[i as usize];
        let lab = format!("[{}] with {}", t.text(), def_text(defs));
        mc.enter(&lab);
        mc.state(&lab);
        mc.trace();
        let (ctx, cust) = (context(defs), customs(defs));
        let want = inlined(t, &defs[0]);
        let e = t.expr();
        let bad = |what: &str, m: String| mc.violation(i, &format!("{what} {lab}"), &m);
        let agrees = |what: &str, w: &A, by: Option<&str>, got: &dyn Fn(&[(&'static str, f64)]) -> Option<f64>| {
            for p in &pts {
                mc.trans(1);
                let x = match by {
                    None => w.eval(p),
                    Some(by) => w.eval_d(p, by).d,
                };
                if x.stable() && !agree(&x, got(p)) {
                    return bad(what, format!("expected {:e}, got {:?} at {}", x.v, got(p), env_text(p)));
                }
            }
        };
        let by_custom = |e: &Expr, p: &[(&'static str, f64)]| {
            let m: HashMap<&str, f64> = p.iter().copied().collect();
            e.evaluate(&m, &cust).as_number()
        };
        agrees("evaluate", &want, None, &|p| by_custom(&e, p));
        match CompiledEvaluator::compile(&e, &["x", "y"], Some(&ctx)) {
            Ok(c) => agrees("compile", &want, None, &|p| Some(c.evaluate(&[p[0].1, p[1].1]))),
            Err(er) => bad("compile", format!("error {er:?}")),
        }
        match Simplify::new().with_context(&ctx).simplify(&e) {
            Ok(s) => agrees("simplify", &want, None, &|p| lib_eval(&s, p)),
            Err(er) => bad("simplify", format!("error {er:?}")),
        }
        for by in ["x", "y"] {
            for raw in [true, false] {
                match Diff::new().with_context(&ctx).skip_simplification(raw).differentiate(&e, &symb(by)) {
                    Ok(d) => agrees(&format!("{}derivative by {by} of", if raw { "" } else { "simplified " }), &want, Some(by), &|p| by_custom(&d, p)),
                    Err(er) => bad("derivative", format!("error {er:?}")),
                }
            }
        }
    });
}

pub fn run(mc: &Arc<Mc>) {
    redefinitions(mc);
    let th = mc.thorough;
    let sets = def_sets(th);
    mc.note(format!("{} sets of definitions", sets.len()));
    let ctxs: Vec<(Context, Customs)> = sets.iter().map(|d| (context(d), customs(d))).collect();
    let al = Alpha { leaves: vec![v("x"), v("y"), n(2.0)], un: vec!["f", "sin"], neg: false, bin: "+*^", bfn: vec!["g"] };
    sweep(mc, "expressions", &al, if th { 4 } else { 3 }, |rank, t| {
        let t = user(t);
        if !t.has_special() && t.size() > 1 {
            return;
        }
        for (d, (c, k)) in sets.iter().zip(&ctxs) {
            check(mc, rank, &t, d, c, k);
        }
    });
    let al = Alpha {
        leaves: vec![v("x"), fs("f", vec![v("x")]), fs("g", vec![v("x"), v("y")]), fs("g", vec![v("y"), n(2.0)]), fs("f", vec![fs("g", vec![v("y"), v("x")])]), fs("f", vec![mul(v("x"), v("y"))])],
        un: vec!["f", "exp"],
        neg: true,
        bin: "+-*/^",
        bfn: vec!["g"],
    };
    sweep(mc, "expressions of calls", &al, 3, |rank, t| {
        let t = user(t);
        if !t.has_special() && t.size() > 1 {
            return;
        }
        for (k, (d, (c, q))) in sets.iter().zip(&ctxs).enumerate() {
            if th || t.size() < 6 || (k as u64 + rank) % 3 == 0 {
                check(mc, rank, &t, d, c, q);
            }
        }
    });
    let polys: Vec<A> = {
        let call = |a: A| -> A { Arc::new(T::U("f", vec![a])) };
        let g = |a: A, b: A| -> A { Arc::new(T::U("g", vec![a, b])) };
        let quad = |a: A| add(add(pow(a.clone(), n(2.0)), mul(n(3.0), a)), n(-1.0));
        vec![
            quad(call(v("x"))),
            quad(g(v("x"), v("y"))),
            call(quad(v("x"))),
            g(quad(v("y")), v("x")),
            g(v("x"), quad(call(v("y")))),
            f("sin", quad(call(quad(v("x"))))),
            mul(quad(call(v("x"))), quad(call(v("y")))),
            call(quad(call(quad(v("y"))))),
            div(call(v("x")), quad(call(v("x")))),
            quad(quad(call(v("x")))),
        ]
    };
    mc.par("calls in polynomials", (polys.len() * sets.len()) as u64, 2, |i| {
        let (d, (c, q)) = (&sets[i as usize / polys.len()], &ctxs[i as usize / polys.len()]);
        check(mc, i, &polys[i as usize % polys.len()], d, c, q);
    });
    direct(mc);
    arities(mc);
    recursion(mc);
    isolation(mc);
    let _ = |e: &Expr| matches!(e.view(), ExprView::Number(_));
}
