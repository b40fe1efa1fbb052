//! Reference expression trees: enumeration, text, construction through the library, reading back.
use crate::num::{intern_fn, D, E};
use std::sync::Arc;
use symb_anafis::visitor::ExprView;
use symb_anafis::{symb, Expr};

pub type A = Arc<T>;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    N(f64),
    V(&'static str),
    /// pi or e
    C(&'static str),
    Neg(A),
    Add(A, A),
    Sub(A, A),
    Mul(A, A),
    Div(A, A),
    Pow(A, A),
    F(&'static str, Vec<A>),
    /// function unknown to the reference (user functions), kept by name
    U(&'static str, Vec<A>),
    /// n-ary, only produced when reading library expressions
    Sum(Vec<A>),
    Prod(Vec<A>),
    /// derivative node: inner, variable, order
    Der(A, &'static str, u32),
}

pub fn leak(s: &str) -> &'static str {
    use std::collections::HashMap;
    use std::sync::{Mutex, OnceLock};
    static M: OnceLock<Mutex<HashMap<String, &'static str>>> = OnceLock::new();
    let mut g = M.get_or_init(|| Mutex::new(HashMap::new())).lock().unwrap();
    if let Some(x) = g.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    g.insert(s.to_string(), l);
    l
}

pub fn n(v: f64) -> A {
    Arc::new(T::N(v))
}
pub fn v(s: &'static str) -> A {
    Arc::new(T::V(s))
}
pub fn c(s: &'static str) -> A {
    Arc::new(T::C(s))
}
pub fn neg(a: A) -> A {
    Arc::new(T::Neg(a))
}
pub fn add(a: A, b: A) -> A {
    Arc::new(T::Add(a, b))
}
pub fn sub(a: A, b: A) -> A {
    Arc::new(T::Sub(a, b))
}
pub fn mul(a: A, b: A) -> A {
    Arc::new(T::Mul(a, b))
}
pub fn div(a: A, b: A) -> A {
    Arc::new(T::Div(a, b))
}
pub fn pow(a: A, b: A) -> A {
    Arc::new(T::Pow(a, b))
}
pub fn f(s: &'static str, a: A) -> A {
    Arc::new(T::F(s, vec![a]))
}
pub fn f2(s: &'static str, a: A, b: A) -> A {
    Arc::new(T::F(s, vec![a, b]))
}
pub fn fs(s: &'static str, a: Vec<A>) -> A {
    Arc::new(T::F(s, a))
}

pub fn is_const(s: &str) -> bool {
    matches!(s, "pi" | "PI" | "Pi" | "e" | "E")
}

pub fn inverse(g: &str) -> bool {
    g.starts_with('a') && g.len() > 3 && !matches!(g, "assoc_legendre")
}

pub type Env<'a> = &'a [(&'static str, f64)];

pub fn cval(s: &str) -> f64 {
    match s {
        "pi" | "PI" | "Pi" => std::f64::consts::PI,
        _ => std::f64::consts::E,
    }
}

impl T {
    pub fn eval(&self, env: Env) -> E {
        match self {
            T::N(x) => E::exact(*x),
            T::V(s) => env.iter().find(|p| p.0 == *s).map_or(E::UNDEF, |p| E::exact(p.1)),
            T::C(s) => E { v: cval(s), e: 2e-16, m: 4.0 },
            T::Neg(a) => a.eval(env).neg(),
            T::Add(a, b) => a.eval(env).add(b.eval(env)),
            T::Sub(a, b) => a.eval(env).sub(b.eval(env)),
            T::Mul(a, b) => a.eval(env).mul(b.eval(env)),
            T::Div(a, b) => a.eval(env).div(b.eval(env)),
            T::Pow(a, b) => a.eval(env).pow(b.eval(env)),
            T::F(g, a) => {
                let v: Vec<E> = a.iter().map(|x| x.eval(env)).collect();
                E::func(g, &v)
            }
            T::Sum(a) => a.iter().fold(E::exact(0.0), |s, x| s.add(x.eval(env))),
            T::Prod(a) => a.iter().fold(E::exact(1.0), |s, x| s.mul(x.eval(env))),
            T::U(..) | T::Der(..) => E::UNDEF,
        }
    }
    pub fn eval_d(&self, env: Env, var: &str) -> D {
        match self {
            T::N(x) => D::cst(E::exact(*x)),
            T::V(s) => {
                let v = self.eval(env);
                D { v, d: E::exact(if *s == var { 1.0 } else { 0.0 }), k: *s != var }
            }
            T::C(_) => D::cst(self.eval(env)),
            T::Neg(a) => a.eval_d(env, var).neg(),
            T::Add(a, b) => a.eval_d(env, var).add(b.eval_d(env, var)),
            T::Sub(a, b) => a.eval_d(env, var).sub(b.eval_d(env, var)),
            T::Mul(a, b) => a.eval_d(env, var).mul(b.eval_d(env, var)),
            T::Div(a, b) => a.eval_d(env, var).div(b.eval_d(env, var)),
            T::Pow(a, b) => a.eval_d(env, var).pow(b.eval_d(env, var)),
            T::F(g, a) => {
                let v: Vec<D> = a.iter().map(|x| x.eval_d(env, var)).collect();
                D::func(g, &v)
            }
            T::Sum(a) => a.iter().fold(D::cst(E::exact(0.0)), |s, x| s.add(x.eval_d(env, var))),
            T::Prod(a) => a.iter().fold(D::cst(E::exact(1.0)), |s, x| s.mul(x.eval_d(env, var))),
            T::U(..) | T::Der(..) => D { v: E::UNDEF, d: E::UNDEF, k: false },
        }
    }
    /// Positive part by part: every factor, every base and every term is positive.
    pub fn pos(&self, env: Env) -> bool {
        let r = self.eval(env);
        if !(r.defined() && r.v > 4.0 * r.e) {
            return false;
        }
        match self {
            T::Mul(a, b) | T::Div(a, b) | T::Add(a, b) => a.pos(env) && b.pos(env),
            T::Prod(a) | T::Sum(a) => a.iter().all(|x| x.pos(env)),
            T::Pow(a, _) => a.pos(env),
            T::F(g, a) if matches!(*g, "sqrt" | "cbrt" | "abs") => a.iter().all(|x| x.pos(env)),
            T::Sub(..) | T::Neg(_) => false,
            _ => true,
        }
    }
    /// The documented assumption of the default simplification mode holds at this point: whatever stands under a root,
    /// logarithm, absolute value or non-integer power is positive part by part, and inverse functions applied to their
    /// function are on the principal branch.
    pub fn regular(&self, env: Env) -> bool {
        let here = match self {
            T::Pow(a, b) => match &**b {
                T::N(x) if *x == x.trunc() => true,
                _ => a.pos(env),
            },
            T::F(g, a) => match *g {
                "sqrt" | "cbrt" | "ln" | "log10" | "log2" | "log" | "abs" | "signum" | "lambertw" => a.iter().all(|x| x.pos(env)),
                _ if inverse(g) => a.iter().all(|x| match &**x {
                    T::F(h, i) if !inverse(h) => {
                        let u = i[0].eval(env);
                        i[0].pos(env) && u.v < 1.5 && !i[0].has_fn()
                    }
                    _ => !x.has_fn(),
                }),
                _ => true,
            },
            _ => true,
        };
        here && self.children().iter().all(|k| k.regular(env))
    }
    pub fn has_fn(&self) -> bool {
        matches!(self, T::F(..)) || self.children().iter().any(|k| k.has_fn())
    }
    pub fn children(&self) -> Vec<&A> {
        match self {
            T::N(_) | T::V(_) | T::C(_) => vec![],
            T::Neg(a) | T::Der(a, _, _) => vec![a],
            T::Add(a, b) | T::Sub(a, b) | T::Mul(a, b) | T::Div(a, b) | T::Pow(a, b) => vec![a, b],
            T::F(_, a) | T::U(_, a) | T::Sum(a) | T::Prod(a) => a.iter().collect(),
        }
    }
    pub fn vars(&self, out: &mut Vec<&'static str>) {
        if let T::V(s) = self {
            if !out.contains(s) {
                out.push(s);
            }
        }
        for k in self.children() {
            k.vars(out);
        }
    }
    pub fn var_list(&self) -> Vec<&'static str> {
        let mut v = vec![];
        self.vars(&mut v);
        v.sort();
        v
    }
    pub fn size(&self) -> usize {
        1 + self.children().iter().map(|k| k.size()).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self.children().iter().map(|k| k.depth()).max().unwrap_or(0)
    }
    pub fn has_special(&self) -> bool {
        matches!(self, T::U(..) | T::Der(..)) || self.children().iter().any(|k| k.has_special())
    }
    /// fully parenthesised text for the parser
    pub fn text(&self) -> String {
        match self {
            T::N(x) => {
                if *x < 0.0 { format!("(-{})", num_text(-x)) } else { num_text(*x) }
            }
            T::V(s) | T::C(s) => s.to_string(),
            T::Neg(a) => format!("(-{})", a.text()),
            T::Add(a, b) => format!("({}+{})", a.text(), b.text()),
            T::Sub(a, b) => format!("({}-{})", a.text(), b.text()),
            T::Mul(a, b) => format!("({}*{})", a.text(), b.text()),
            T::Div(a, b) => format!("({}/{})", a.text(), b.text()),
            T::Pow(a, b) => format!("({}^{})", a.text(), b.text()),
            T::F(g, a) | T::U(g, a) => format!("{g}({})", a.iter().map(|x| x.text()).collect::<Vec<_>>().join(",")),
            T::Sum(a) => format!("({})", a.iter().map(|x| x.text()).collect::<Vec<_>>().join("+")),
            T::Prod(a) => format!("({})", a.iter().map(|x| x.text()).collect::<Vec<_>>().join("*")),
            T::Der(a, v, k) => match &**a {
                T::V(s) | T::C(s) => format!("∂^{k}_({s})/∂_{v}^{k}"),
                T::N(x) if *x >= 0.0 => format!("∂^{k}_({})/∂_{v}^{k}", a.text()),
                _ => format!("∂^{k}_{}/∂_{v}^{k}", a.text()),
            },
        }
    }
    /// text with the fewest parentheses the documented grammar allows
    /// (precedence: + - 1, * / 2, unary minus 3, ^ 4, atom 5)
    pub fn min_text(&self) -> String {
        fn go(t: &T, need: u8) -> String {
            let (p, s) = match t {
                T::N(x) => {
                    if *x < 0.0 { (3, format!("-{}", num_text(-x))) } else { (5, num_text(*x)) }
                }
                T::V(s) | T::C(s) => (5, s.to_string()),
                T::Neg(a) => (3, format!("-{}", go(a, 3))),
                T::Add(a, b) => (1, format!("{}+{}", go(a, 1), go(b, 2))),
                T::Sub(a, b) => (1, format!("{}-{}", go(a, 1), go(b, 2))),
                T::Mul(a, b) => (2, format!("{}*{}", go(a, 2), go(b, 3))),
                T::Div(a, b) => (2, format!("{}/{}", go(a, 2), go(b, 3))),
                T::Pow(a, b) => (4, format!("{}^{}", go(a, 5), go(b, 3))),
                T::F(g, a) | T::U(g, a) => (5, format!("{g}({})", a.iter().map(|x| go(x, 0)).collect::<Vec<_>>().join(","))),
                _ => (5, t.text()),
            };
            if p < need { format!("({s})") } else { s }
        }
        go(self, 0)
    }
    /// build through the operator overloads
    pub fn expr(&self) -> Expr {
        match self {
            T::N(x) => Expr::number(*x),
            T::V(s) => symb(s).to_expr(),
            T::C(s) => Expr::symbol(s),
            T::Neg(a) => -a.expr(),
            T::Add(a, b) => a.expr() + b.expr(),
            T::Sub(a, b) => a.expr() - b.expr(),
            T::Mul(a, b) => a.expr() * b.expr(),
            T::Div(a, b) => a.expr() / b.expr(),
            T::Pow(a, b) => Expr::pow_static(a.expr(), b.expr()),
            T::F(g, a) | T::U(g, a) => Expr::func_multi(g, a.iter().map(|x| x.expr()).collect()),
            T::Sum(a) => Expr::sum(a.iter().map(|x| x.expr()).collect()),
            T::Prod(a) => Expr::product(a.iter().map(|x| x.expr()).collect()),
            T::Der(a, v, k) => Expr::derivative(a.expr(), v, *k),
        }
    }
    pub fn subst(self: &Arc<T>, var: &str, by: &A) -> A {
        let s = |a: &A| a.subst(var, by);
        match &**self {
            T::V(x) if *x == var => by.clone(),
            T::N(_) | T::V(_) | T::C(_) => self.clone(),
            T::Neg(a) => neg(s(a)),
            T::Add(a, b) => add(s(a), s(b)),
            T::Sub(a, b) => sub(s(a), s(b)),
            T::Mul(a, b) => mul(s(a), s(b)),
            T::Div(a, b) => div(s(a), s(b)),
            T::Pow(a, b) => pow(s(a), s(b)),
            T::F(g, a) => Arc::new(T::F(g, a.iter().map(s).collect())),
            T::U(g, a) => Arc::new(T::U(g, a.iter().map(s).collect())),
            T::Sum(a) => Arc::new(T::Sum(a.iter().map(s).collect())),
            T::Prod(a) => Arc::new(T::Prod(a.iter().map(s).collect())),
            T::Der(a, v, k) => Arc::new(T::Der(s(a), v, *k)),
        }
    }
}

pub fn num_text(x: f64) -> String {
    if x == x.trunc() && x.abs() < 1e15 {
        format!("{}", x as i64)
    } else {
        format!("{x:?}")
    }
}

/// Read a library expression through the public view. Symbols that are not pi/e become variables.
pub fn read(e: &Expr) -> A {
    match e.view() {
        ExprView::Number(x) => n(x),
        ExprView::Symbol(s) => {
            let s = leak(s.as_ref());
            if is_const(s) { c(s) } else { v(s) }
        }
        ExprView::Function { name, args } => {
            let a: Vec<A> = args.iter().map(|x| read(x)).collect();
            match intern_fn(name) {
                Some(g) if crate::num::arity(g) == a.len() => Arc::new(T::F(g, a)),
                _ => Arc::new(T::U(leak(name), a)),
            }
        }
        ExprView::Sum(ts) => Arc::new(T::Sum(ts.iter().map(|x| read(x)).collect())),
        ExprView::Product(ts) => Arc::new(T::Prod(ts.iter().map(|x| read(x)).collect())),
        ExprView::Div(a, b) => div(read(a), read(b)),
        ExprView::Pow(a, b) => pow(read(a), read(b)),
        ExprView::Derivative { inner, var, order } => Arc::new(T::Der(read(inner), leak(var), order)),
    }
}

/// Evaluate by the library, all variables given.
pub fn lib_eval(e: &Expr, env: Env) -> Option<f64> {
    let m: std::collections::HashMap<&str, f64> = env.iter().map(|(k, v)| (*k, *v)).collect();
    e.evaluate(&m, &std::collections::HashMap::new()).as_number()
}

/// An alphabet for bounded-exhaustive enumeration.
#[derive(Clone, Default)]
pub struct Alpha {
    pub leaves: Vec<A>,
    pub un: Vec<&'static str>,
    /// allow unary minus
    pub neg: bool,
    /// binary operators, any of "+-*/^"
    pub bin: &'static str,
    /// binary functions
    pub bfn: Vec<&'static str>,
}

impl Alpha {
    /// all trees with exactly k nodes, for k = 1..=max (index k)
    pub fn levels(&self, max: usize) -> Vec<Vec<A>> {
        let mut lv: Vec<Vec<A>> = vec![vec![]; max + 1];
        for k in 1..=max {
            let cnt = self.count_at(&lv, k);
            let mut out = Vec::with_capacity(cnt as usize);
            for i in 0..cnt {
                out.push(self.nth(&lv, k, i));
            }
            lv[k] = out;
        }
        lv
    }
    fn nun(&self) -> u64 {
        self.un.len() as u64 + self.neg as u64
    }
    fn nbin(&self) -> u64 {
        self.bin.len() as u64 + self.bfn.len() as u64
    }
    /// number of trees of size k given lower levels
    pub fn count_at(&self, lv: &[Vec<A>], k: usize) -> u64 {
        if k == 1 {
            return self.leaves.len() as u64;
        }
        let mut c = self.nun() * lv[k - 1].len() as u64;
        for i in 1..k.saturating_sub(1) {
            c += self.nbin() * lv[i].len() as u64 * lv[k - 1 - i].len() as u64;
        }
        c
    }
    /// the i-th tree of size k, built on stored lower levels
    pub fn nth(&self, lv: &[Vec<A>], k: usize, mut i: u64) -> A {
        if k == 1 {
            return self.leaves[i as usize].clone();
        }
        let l = lv[k - 1].len() as u64;
        if i < self.nun() * l {
            let a = lv[k - 1][(i % l) as usize].clone();
            let o = (i / l) as usize;
            return if o < self.un.len() { f(self.un[o], a) } else { neg(a) };
        }
        i -= self.nun() * l;
        for s in 1..k - 1 {
            let (p, q) = (lv[s].len() as u64, lv[k - 1 - s].len() as u64);
            let c = self.nbin() * p * q;
            if i < c {
                let o = (i / (p * q)) as usize;
                let r = i % (p * q);
                let a = lv[s][(r / q) as usize].clone();
                let b = lv[k - 1 - s][(r % q) as usize].clone();
                return if o < self.bin.len() {
                    match self.bin.as_bytes()[o] {
                        b'+' => add(a, b),
                        b'-' => sub(a, b),
                        b'*' => mul(a, b),
                        b'/' => div(a, b),
                        _ => pow(a, b),
                    }
                } else {
                    f2(self.bfn[o - self.bin.len()], a, b)
                };
            }
            i -= c;
        }
        unreachable!()
    }
}

/// Iterate an alphabet exhaustively up to size `max`: calls g(rank, tree).
pub fn sweep(mc: &std::sync::Arc<crate::fw::Mc>, what: &str, al: &Alpha, max: usize, g: impl Fn(u64, &A) + Sync) {
    let lv = al.levels(max.saturating_sub(1).max(1));
    let mut base = 0u64;
    for k in 1..=max {
        if mc.stopped() {
            break;
        }
        let cnt = if k < lv.len() { lv[k].len() as u64 } else { al.count_at(&lv, k) };
        let b = base;
        mc.par(&format!("{what}:size{k}"), cnt, 32, |i| {
            let t = if k < lv.len() { lv[k][i as usize].clone() } else { al.nth(&lv, k, i) };
            g(b + i, &t);
        });
        base += cnt;
    }
}

/// All tuples (cartesian product) of a grid over the given variables.
pub fn grid(vars: &[&'static str], vals: &[f64]) -> Vec<Vec<(&'static str, f64)>> {
    let mut out: Vec<Vec<(&'static str, f64)>> = vec![vec![]];
    for v in vars {
        let mut nx = vec![];
        for o in &out {
            for x in vals {
                let mut o = o.clone();
                o.push((*v, *x));
                nx.push(o);
            }
        }
        out = nx;
    }
    out
}
pub fn env_text(env: Env) -> String {
    env.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(",")
}

/// Compare a reference value with a value the library gave.
pub fn agree(r: &E, got: Option<f64>) -> bool {
    match got {
        Some(g) => g.is_finite() && (g - r.v).abs() <= r.tol(),
        None => false,
    }
}
/// Compare two bounded values.
pub fn agree2(a: &E, b: &E) -> bool {
    (a.v - b.v).abs() <= a.tol() + b.tol()
}

pub fn lib_parse(s: &str) -> Result<Expr, symb_anafis::DiffError> {
    let none: std::collections::HashSet<String> = std::collections::HashSet::new();
    symb_anafis::parse(s, &none, &none, None)
}

/// Pairs of different expressions with the same structural hash, found by enumerating small sums and products of
/// powers and multiples of two symbols. (None, if the hash has no such collisions.)
pub fn collisions(limit: usize) -> Vec<(A, A)> {
    use std::collections::HashMap;
    let nums: Vec<f64> = (-24..=24).map(|i| i as f64 / 2.0).filter(|k| *k != 0.0 && *k != 1.0).collect();
    let mut l1: Vec<A> = vec![];
    for s in ["x", "y"] {
        for k in &nums {
            l1.push(pow(v(s), n(*k)));
            l1.push(mul(n(*k), v(s)));
            l1.push(add(v(s), n(*k)));
        }
        l1.push(f("sin", v(s)));
    }
    let mut m: HashMap<u64, Vec<(A, Expr)>> = HashMap::new();
    for a in &l1 {
        for b in &l1 {
            for t in [add(a.clone(), b.clone()), mul(a.clone(), b.clone())] {
                let e = t.expr();
                let l = m.entry(e.structural_hash()).or_default();
                if !l.iter().any(|x| x.1 == e) {
                    l.push((t, e));
                }
            }
        }
    }
    let mut out: Vec<(A, A)> = vec![];
    for l in m.values() {
        for i in 0..l.len() {
            for j in 0..i {
                out.push((l[i].0.clone(), l[j].0.clone()));
            }
        }
    }
    out.sort_by_key(|p| {
        let (a, b) = (p.0.text(), p.1.text());
        (a.len() + b.len(), a, b)
    });
    out.truncate(limit);
    out
}

/// Expressions that bring two hash-colliding expressions together.
pub fn collision_cases(limit: usize) -> Vec<A> {
    let mut out = vec![];
    for (a, b) in collisions(limit) {
        let (a, b) = (&a, &b);
        let sq = |t: &A| pow(t.clone(), n(2.0));
        let s = |t: &A| f("sin", t.clone());
        let e = |t: &A| f("atan", t.clone());
        out.push(add(a.clone(), b.clone()));
        out.push(sub(a.clone(), b.clone()));
        out.push(mul(a.clone(), b.clone()));
        out.push(div(a.clone(), b.clone()));
        out.push(add(sq(a), sq(b)));
        out.push(add(add(sq(a), sq(b)), v("x")));
        out.push(add(s(a), s(b)));
        out.push(add(mul(n(2.0), s(a)), mul(n(3.0), sq(&s(b)))));
        out.push(add(add(s(a), sq(&s(b))), add(n(1.0), s(a))));
        out.push(mul(s(a), s(b)));
        out.push(div(s(a), s(b)));
        out.push(mul(sub(s(a), n(2.0)), add(s(b), n(3.0))));
        out.push(f2("atan2", e(a), e(b)));
        out.push(add(mul(e(a), e(a)), mul(e(b), e(a))));
        out.push(f("sqrt", add(n(2.0), mul(e(a), e(b)))));
    }
    out
}
