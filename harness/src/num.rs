//! Reference arithmetic: value with a running absolute error bound, plus first derivative.
//! Deliberately boring; independent of the library except for the special functions,
//! whose numbers come from the library's own numeric table (decided separately by C10).
use symb_anafis::Expr;
use std::collections::HashMap;

pub const EPS: f64 = f64::EPSILON;

/// v: value, e: absolute error bound (INF = numerically unstable), m: largest intermediate magnitude.
#[derive(Clone, Copy, Debug)]
pub struct E {
    pub v: f64,
    pub e: f64,
    pub m: f64,
}

impl E {
    pub const UNDEF: E = E { v: f64::NAN, e: 0.0, m: 0.0 };
    pub fn exact(v: f64) -> E {
        E { v, e: 0.0, m: v.abs() }
    }
    pub fn defined(&self) -> bool {
        self.v.is_finite()
    }
    /// Good enough to compare with.
    pub fn stable(&self) -> bool {
        self.v.is_finite() && self.e <= 1e-5 * (self.v.abs() + 1.0) && self.m < 1e100
    }
    pub fn tol(&self) -> f64 {
        64.0 * self.e + 1e-11 * self.v.abs() + 1e-13 * self.m + 1e-300
    }
    fn mk(v: f64, e: f64, m: f64) -> E {
        if !v.is_finite() {
            return E::UNDEF;
        }
        // close to underflow nothing can be compared
        let lost = e.is_nan() || (v != 0.0 && v.abs() < 1e-140);
        E { v, e: if lost { f64::INFINITY } else { e }, m: m.max(v.abs()) }
    }
    pub fn unstable(v: f64) -> E {
        E { v, e: f64::INFINITY, m: v.abs() }
    }
    pub fn add(self, o: E) -> E {
        if !self.defined() || !o.defined() {
            return E::UNDEF;
        }
        let s = self.v + o.v;
        // two-sum residual: exact when zero
        let bb = s - self.v;
        let r = (self.v - (s - bb)) + (o.v - bb);
        let re = if r == 0.0 { 0.0 } else { EPS * s.abs().max(self.v.abs()).max(o.v.abs()) };
        E::mk(s, self.e + o.e + re, self.m.max(o.m))
    }
    pub fn neg(self) -> E {
        E { v: -self.v, ..self }
    }
    pub fn sub(self, o: E) -> E {
        self.add(o.neg())
    }
    pub fn mul(self, o: E) -> E {
        if !self.defined() || !o.defined() {
            return E::UNDEF;
        }
        let p = self.v * o.v;
        let r = self.v.mul_add(o.v, -p);
        let re = if r == 0.0 { 0.0 } else { EPS * p.abs() };
        E::mk(p, self.v.abs() * o.e + o.v.abs() * self.e + self.e * o.e + re, self.m.max(o.m))
    }
    pub fn div(self, o: E) -> E {
        if !self.defined() || !o.defined() {
            return E::UNDEF;
        }
        if o.v == 0.0 && o.e == 0.0 {
            return E::UNDEF;
        }
        if o.v.abs() <= 4.0 * o.e {
            return E::unstable(0.0);
        }
        let q = self.v / o.v;
        let r = (-q).mul_add(o.v, self.v);
        let re = if r == 0.0 { 0.0 } else { EPS * q.abs() };
        E::mk(q, (self.e + q.abs() * o.e) / (o.v.abs() - o.e) + re, self.m.max(o.m))
    }
    pub fn pow(self, o: E) -> E {
        if !self.defined() || !o.defined() {
            return E::UNDEF;
        }
        let (a, b) = (self.v, o.v);
        let m = self.m.max(o.m);
        if o.e == 0.0 && b == b.trunc() && b.abs() < 1e9 {
            // integer power
            if b == 0.0 {
                // 0^0 is left undefined
                return if a == 0.0 { E::UNDEF } else if a.abs() <= self.e { E::unstable(1.0) } else { E::mk(1.0, 0.0, m) };
            }
            if b < 0.0 {
                if a == 0.0 && self.e == 0.0 {
                    return E::UNDEF;
                }
                if a.abs() <= 4.0 * self.e {
                    return E::unstable(0.0);
                }
            }
            let v = a.powi(b as i32);
            let small = self.e == 0.0 && v.abs() < 9e15 && v == v.trunc() && b > 0.0;
            let re = if small || b == 1.0 { 0.0 } else { (b.abs().min(60.0) + 2.0) * EPS * v.abs() };
            let de = if a == 0.0 { self.e.powf(b.max(0.0)) } else { (b * v / a).abs() * self.e * 1.5 };
            return E::mk(v, de + re, m);
        }
        if a < 0.0 {
            return if a.abs() <= self.e { E::unstable(0.0) } else if o.e > 0.0 && (b - b.round()).abs() <= 4.0 * o.e + 1e-9 { E::unstable(0.0) } else { E::UNDEF };
        }
        if a == 0.0 || a <= 4.0 * self.e {
            if a == 0.0 && self.e == 0.0 {
                return if b - o.e > 0.0 { E::mk(0.0, 0.0, m) } else if b + o.e < 0.0 { E::UNDEF } else { E::unstable(0.0) };
            }
            return E::unstable(0.0);
        }
        let v = a.powf(b);
        let de = v.abs() * ((b * self.e / a).abs() * 1.5 + a.ln().abs() * o.e * 1.5);
        E::mk(v, de + v.abs() * EPS * (4.0 + (b * a.ln()).abs()), m)
    }
    pub fn func(name: &'static str, args: &[E]) -> E {
        for a in args {
            if !a.defined() {
                return E::UNDEF;
            }
        }
        let vs: Vec<f64> = args.iter().map(|a| a.v).collect();
        let v = fval(name, &vs);
        let m = args.iter().map(|a| a.m).fold(0.0, f64::max);
        let int_args = int_orders(name);
        let mut e = 0.0;
        for (i, a) in args.iter().enumerate() {
            if a.e.is_infinite() {
                return E::unstable(v);
            }
            if i < int_args {
                if a.e != 0.0 || a.v != a.v.trunc() {
                    return if v.is_finite() { E::unstable(v) } else { E::UNDEF };
                }
                continue;
            }
            if a.e > 0.0 {
                let mut w = vs.clone();
                let h = 2.0 * a.e;
                w[i] = a.v + h;
                let hi = fval(name, &w);
                w[i] = a.v - h;
                let lo = fval(name, &w);
                if !v.is_finite() {
                    // undefined here; if a neighbour is defined we cannot tell
                    if hi.is_finite() || lo.is_finite() {
                        return E::unstable(0.0);
                    }
                    continue;
                }
                if !hi.is_finite() || !lo.is_finite() {
                    return E::unstable(v);
                }
                if is_step(name) && hi != lo {
                    return E::unstable(v);
                }
                e += (hi - v).abs().max((lo - v).abs());
            }
        }
        if !v.is_finite() {
            return E::UNDEF;
        }
        let re = if exact_fn(name) { 0.0 } else { fn_rel(name) * v.abs().max(fn_abs(name)) };
        let re = if (v == 0.0 || v == 1.0) && e == 0.0 && args.iter().all(|a| a.e == 0.0) && fn_abs(name) == 0.0 { 0.0 } else { re };
        E::mk(v, e + re, m)
    }
}

fn is_step(n: &str) -> bool {
    matches!(n, "floor" | "ceil" | "round" | "signum")
}
fn exact_fn(n: &str) -> bool {
    matches!(n, "floor" | "ceil" | "round" | "signum" | "abs")
}
/// relative rounding slack of the library's own function numbers
pub fn fn_rel(n: &str) -> f64 {
    match n {
        "sin" | "cos" | "tan" | "exp" | "ln" | "sqrt" | "cbrt" | "atan" | "asin" | "acos" | "sinh" | "cosh" | "tanh" => 2.0 * EPS,
        "besselj" | "bessely" | "besseli" | "besselk" => 1e-9,
        "zeta" | "zeta_deriv" => 1e-10,
        "gamma" | "digamma" | "trigamma" | "tetragamma" | "polygamma" | "beta" | "lambertw" | "elliptic_k" | "elliptic_e" | "erf" | "erfc" => 1e-12,
        _ => 8.0 * EPS,
    }
}
/// floor under |v| for functions computed as differences
fn fn_abs(n: &str) -> f64 {
    match n {
        "erf" | "erfc" => 1.0,
        "besselj" | "bessely" => 1.0,
        "digamma" | "zeta" | "zeta_deriv" => 1.0,
        "hermite" | "assoc_legendre" | "spherical_harmonic" | "ynm" => 1.0,
        _ => 0.0,
    }
}
/// how many leading arguments are integer orders
pub fn int_orders(n: &str) -> usize {
    match n {
        "besselj" | "bessely" | "besseli" | "besselk" | "polygamma" | "zeta_deriv" | "hermite" => 1,
        "assoc_legendre" | "spherical_harmonic" | "ynm" => 2,
        _ => 0,
    }
}
pub fn arity(n: &str) -> usize {
    match n {
        "atan2" | "log" | "beta" | "besselj" | "bessely" | "besseli" | "besselk" | "polygamma" | "zeta_deriv" | "hermite" => 2,
        "assoc_legendre" => 3,
        "spherical_harmonic" | "ynm" => 4,
        _ => 1,
    }
}

pub const UNARY: &[&str] = &[
    "sin", "cos", "tan", "cot", "sec", "csc", "asin", "acos", "atan", "acot", "asec", "acsc", "sinh", "cosh", "tanh", "coth",
    "sech", "csch", "asinh", "acosh", "atanh", "acoth", "asech", "acsch", "exp", "ln", "log10", "log2", "sqrt", "cbrt", "abs",
    "signum", "floor", "ceil", "round", "sinc", "erf", "erfc", "gamma", "digamma", "trigamma", "tetragamma", "lambertw",
    "elliptic_k", "elliptic_e", "zeta", "exp_polar",
];

pub fn intern_fn(n: &str) -> Option<&'static str> {
    for u in UNARY {
        if *u == n {
            return Some(u);
        }
    }
    for u in ["atan2", "log", "beta", "besselj", "bessely", "besseli", "besselk", "polygamma", "zeta_deriv", "hermite", "assoc_legendre", "spherical_harmonic", "ynm"] {
        if u == n {
            return Some(u);
        }
    }
    None
}

/// Number the library assigns to a built-in at numeric arguments (no folding applies to these).
pub fn lib_fn(name: &str, a: &[f64]) -> f64 {
    let e = Expr::func_multi(name, a.iter().map(|v| Expr::number(*v)).collect());
    let none: HashMap<&str, f64> = HashMap::new();
    let r = e.evaluate(&none, &HashMap::new());
    r.as_number().unwrap_or(f64::NAN)
}

/// Mathematical value on the real domain, NaN outside.
pub fn fval(n: &str, a: &[f64]) -> f64 {
    let x = a[0];
    let nan = f64::NAN;
    match n {
        "sin" => x.sin(),
        "cos" => x.cos(),
        "tan" => x.tan(),
        "cot" => {
            if x == 0.0 { nan } else { x.cos() / x.sin() }
        }
        "sec" => 1.0 / x.cos(),
        "csc" => {
            if x == 0.0 { nan } else { 1.0 / x.sin() }
        }
        "asin" => x.asin(),
        "acos" => x.acos(),
        "atan" => x.atan(),
        "acot" => std::f64::consts::FRAC_PI_2 - x.atan(),
        "asec" => {
            if x.abs() < 1.0 { nan } else { (1.0 / x).acos() }
        }
        "acsc" => {
            if x.abs() < 1.0 { nan } else { (1.0 / x).asin() }
        }
        "sinh" => x.sinh(),
        "cosh" => x.cosh(),
        "tanh" => x.tanh(),
        "coth" => {
            if x == 0.0 { nan } else { 1.0 / x.tanh() }
        }
        "sech" => 1.0 / x.cosh(),
        "csch" => {
            if x == 0.0 { nan } else { 1.0 / x.sinh() }
        }
        "asinh" => x.asinh(),
        "acosh" => x.acosh(),
        "atanh" => x.atanh(),
        "acoth" => {
            if x.abs() <= 1.0 { nan } else { (1.0 / x).atanh() }
        }
        "asech" => {
            if x <= 0.0 || x > 1.0 { nan } else { (1.0 / x).acosh() }
        }
        "acsch" => {
            if x == 0.0 { nan } else { (1.0 / x).asinh() }
        }
        "exp" | "exp_polar" => x.exp(),
        "ln" => {
            if x <= 0.0 { nan } else { x.ln() }
        }
        "log10" => {
            if x <= 0.0 { nan } else { x.log10() }
        }
        "log2" => {
            if x <= 0.0 { nan } else { x.log2() }
        }
        "log" => {
            if x <= 0.0 || x == 1.0 || a[1] <= 0.0 { nan } else { a[1].ln() / x.ln() }
        }
        "sqrt" => x.sqrt(),
        "cbrt" => x.cbrt(),
        "abs" => x.abs(),
        "signum" => {
            // the library follows f64::signum, which has no zero; leave the jump out
            if x == 0.0 { nan } else { x.signum() }
        }
        "floor" => x.floor(),
        "ceil" => x.ceil(),
        "round" => x.round(),
        "sinc" => {
            if x == 0.0 { 1.0 } else { x.sin() / x }
        }
        "atan2" => {
            if a[0] == 0.0 && a[1] <= 0.0 { nan } else { a[0].atan2(a[1]) }
        }
        _ => lib_fn(n, a),
    }
}

/// Partial derivative of function n with respect to argument i, as E arithmetic.
pub fn fpartial(n: &'static str, a: &[E], i: usize) -> E {
    let c = E::exact;
    let x = a[0];
    let f = |m: &'static str, u: E| E::func(m, &[u]);
    let one = c(1.0);
    let sq = |u: E| u.mul(u);
    match n {
        "sin" => f("cos", x),
        "cos" => f("sin", x).neg(),
        "tan" => one.div(sq(f("cos", x))),
        "cot" => one.div(sq(f("sin", x))).neg(),
        "sec" => f("sin", x).div(sq(f("cos", x))),
        "csc" => f("cos", x).div(sq(f("sin", x))).neg(),
        "asin" => one.div(f("sqrt", one.sub(sq(x)))),
        "acos" => one.div(f("sqrt", one.sub(sq(x)))).neg(),
        "atan" => one.div(one.add(sq(x))),
        "acot" => one.div(one.add(sq(x))).neg(),
        "asec" => one.div(f("abs", x).mul(f("sqrt", sq(x).sub(one)))),
        "acsc" => one.div(f("abs", x).mul(f("sqrt", sq(x).sub(one)))).neg(),
        "sinh" => f("cosh", x),
        "cosh" => f("sinh", x),
        "tanh" => one.div(sq(f("cosh", x))),
        "coth" => one.div(sq(f("sinh", x))).neg(),
        "sech" => f("sinh", x).div(sq(f("cosh", x))).neg(),
        "csch" => f("cosh", x).div(sq(f("sinh", x))).neg(),
        "asinh" => one.div(f("sqrt", sq(x).add(one))),
        "acosh" => {
            if x.v <= 1.0 { E::UNDEF } else { one.div(f("sqrt", sq(x).sub(one))) }
        }
        "atanh" => one.div(one.sub(sq(x))),
        "acoth" => one.div(one.sub(sq(x))),
        "asech" => one.div(x.mul(f("sqrt", one.sub(sq(x))))).neg(),
        "acsch" => one.div(f("abs", x).mul(f("sqrt", one.add(sq(x))))).neg(),
        "exp" | "exp_polar" => f("exp", x),
        "ln" => one.div(x),
        "log10" => one.div(x.mul(c(std::f64::consts::LN_10))),
        "log2" => one.div(x.mul(c(std::f64::consts::LN_2))),
        "sqrt" => c(0.5).div(f("sqrt", x)),
        "cbrt" => one.div(c(3.0).mul(sq(f("cbrt", x)))),
        "abs" => f("signum", x),
        "signum" => {
            if x.v == 0.0 { E::UNDEF } else { c(0.0) }
        }
        "floor" | "ceil" => {
            if x.v == x.v.floor() { E::UNDEF } else { c(0.0) }
        }
        "round" => {
            if (x.v - x.v.floor()) == 0.5 { E::UNDEF } else { c(0.0) }
        }
        "sinc" => {
            if x.v.abs() < 1e-2 {
                // -x/3 + x^3/30 - x^5/840
                let x2 = sq(x);
                x.mul(c(-1.0 / 3.0).add(x2.mul(c(1.0 / 30.0).sub(x2.mul(c(1.0 / 840.0))))))
            } else {
                x.mul(f("cos", x)).sub(f("sin", x)).div(sq(x))
            }
        }
        "erf" => c(std::f64::consts::FRAC_2_SQRT_PI).mul(f("exp", sq(x).neg())),
        "erfc" => c(-std::f64::consts::FRAC_2_SQRT_PI).mul(f("exp", sq(x).neg())),
        "gamma" => f("gamma", x).mul(f("digamma", x)),
        "digamma" => f("trigamma", x),
        "trigamma" => f("tetragamma", x),
        "tetragamma" => E::func("polygamma", &[c(3.0), x]),
        "polygamma" if i == 1 => E::func("polygamma", &[a[0].add(one), a[1]]),
        "beta" => {
            let s = a[0].add(a[1]);
            E::func("beta", a).mul(f("digamma", a[i]).sub(f("digamma", s)))
        }
        "zeta" => E::func("zeta_deriv", &[one, x]),
        "zeta_deriv" if i == 1 => E::func("zeta_deriv", &[a[0].add(one), a[1]]),
        "lambertw" => {
            let w = f("lambertw", x);
            one.div(f("exp", w).mul(one.add(w)))
        }
        "elliptic_k" if x.v.abs() > 0.05 => f("elliptic_e", x).div(x.mul(one.sub(sq(x)))).sub(f("elliptic_k", x).div(x)),
        "elliptic_e" if x.v.abs() > 0.05 => f("elliptic_e", x).sub(f("elliptic_k", x)).div(x),
        "atan2" => {
            let r2 = sq(a[0]).add(sq(a[1]));
            if i == 0 { a[1].div(r2) } else { a[0].div(r2).neg() }
        }
        "log" => {
            let lb = f("ln", x);
            if i == 1 { one.div(a[1].mul(lb)) } else { f("ln", a[1]).div(x.mul(sq(lb))).neg() }
        }
        "besselj" | "bessely" | "besseli" | "besselk" if i == 1 => {
            let lo = E::func(n, &[a[0].sub(one), a[1]]);
            let hi = E::func(n, &[a[0].add(one), a[1]]);
            match n {
                "besseli" => c(0.5).mul(lo.add(hi)),
                "besselk" => c(-0.5).mul(lo.add(hi)),
                _ => c(0.5).mul(lo.sub(hi)),
            }
        }
        "hermite" if i == 1 => {
            if a[0].v == 0.0 { c(0.0) } else { c(2.0).mul(a[0]).mul(E::func(n, &[a[0].sub(one), a[1]])) }
        }
        _ => fd_partial(n, a, i),
    }
}

/// Central differences with Richardson extrapolation; the error estimate rides along.
pub fn fd_partial(n: &'static str, a: &[E], i: usize) -> E {
    if i < int_orders(n) {
        return E::UNDEF;
    }
    let vs: Vec<f64> = a.iter().map(|z| z.v).collect();
    if vs.iter().any(|v| !v.is_finite()) {
        return E::UNDEF;
    }
    let x = vs[i];
    let h = 2e-3 * x.abs().clamp(0.25, 4.0);
    let g = |d: f64| {
        let mut w = vs.clone();
        w[i] = x + d;
        fval(n, &w)
    };
    let d1 = (g(h) - g(-h)) / (2.0 * h);
    let d2 = (g(2.0 * h) - g(-2.0 * h)) / (4.0 * h);
    let d4 = (g(4.0 * h) - g(-4.0 * h)) / (8.0 * h);
    let r1 = (4.0 * d1 - d2) / 3.0;
    let r2 = (4.0 * d2 - d4) / 3.0;
    let v = (16.0 * r1 - r2) / 15.0;
    let f0 = g(0.0);
    if !v.is_finite() || !f0.is_finite() {
        return E::unstable(0.0);
    }
    let noise = fn_rel(n).max(EPS) * (f0.abs() + fn_abs(n)) / h * 4.0;
    // argument error: curvature estimate
    let curv = ((g(h) - 2.0 * f0 + g(-h)) / (h * h)).abs();
    let ae: f64 = a.iter().map(|z| z.e).fold(0.0, f64::max);
    E { v, e: (v - r1).abs() * 0.5 + noise + curv * ae * 4.0 + 1e-12 * v.abs(), m: v.abs() }
}

/// Value and first derivative.
#[derive(Clone, Copy, Debug)]
pub struct D {
    pub v: E,
    pub d: E,
    /// independent of the variable
    pub k: bool,
}

impl D {
    pub fn cst(v: E) -> D {
        D { v, d: E::exact(0.0), k: true }
    }
    pub fn add(self, o: D) -> D {
        D { v: self.v.add(o.v), d: self.d.add(o.d), k: self.k && o.k }
    }
    pub fn sub(self, o: D) -> D {
        D { v: self.v.sub(o.v), d: self.d.sub(o.d), k: self.k && o.k }
    }
    pub fn neg(self) -> D {
        D { v: self.v.neg(), d: self.d.neg(), k: self.k }
    }
    pub fn mul(self, o: D) -> D {
        D { v: self.v.mul(o.v), d: self.d.mul(o.v).add(self.v.mul(o.d)), k: self.k && o.k }
    }
    pub fn div(self, o: D) -> D {
        let q = self.v.div(o.v);
        D { v: q, d: self.d.sub(q.mul(o.d)).div(o.v), k: self.k && o.k }
    }
    pub fn is_const(&self) -> bool {
        self.k
    }
    pub fn pow(self, o: D) -> D {
        let v = self.v.pow(o.v);
        let (a, b) = (self, o);
        if a.is_const() && b.is_const() {
            return D { v, d: if v.defined() { E::exact(0.0) } else { E::UNDEF }, k: a.k && b.k };
        }
        if b.is_const() {
            // b * a^(b-1) * a'
            if b.v.v == 0.0 && b.v.e == 0.0 {
                return D { v, d: if v.defined() { E::exact(0.0) } else { E::UNDEF }, k: a.k && b.k };
            }
            let bm1 = b.v.sub(E::exact(1.0));
            let p = if bm1.v == 0.0 && bm1.e == 0.0 { E::exact(1.0) } else { a.v.pow(bm1) };
            return D { v, d: b.v.mul(p).mul(a.d), k: false };
        }
        // general: needs positive base
        if a.v.v <= 0.0 {
            return D { v, d: E::UNDEF, k: false };
        }
        let ln = E::func("ln", &[a.v]);
        let d = v.mul(b.d.mul(ln).add(b.v.mul(a.d).div(a.v)));
        D { v, d, k: false }
    }
    pub fn func(n: &'static str, args: &[D]) -> D {
        let vs: Vec<E> = args.iter().map(|a| a.v).collect();
        let v = E::func(n, &vs);
        let mut d = E::exact(0.0);
        for (i, a) in args.iter().enumerate() {
            if !a.is_const() {
                d = d.add(fpartial(n, &vs, i).mul(a.d));
            } else if !a.v.defined() {
                d = E::UNDEF;
            }
        }
        if !v.defined() {
            d = E::UNDEF;
        }
        D { v, d, k: args.iter().all(|a| a.k) }
    }
}
