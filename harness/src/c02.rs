//! C02: the printed text reads back. C03: the LaTeX and Unicode forms denote the tree.
use crate::c12::{themes, Theme, ALL};
use crate::fw::Mc;
use crate::num::{intern_fn, UNARY};
use crate::c15::known;
use crate::tree::*;
use std::collections::HashSet;
use std::sync::Arc;
use symb_anafis::{Diff, Expr, Simplify};

/// Numbers, names and shapes that the printers treat specially.
pub fn print_themes() -> Vec<Theme> {
    let x = || v("x");
    let y = || v("y");
    let mk = |name, leaves: Vec<A>, un: Vec<&'static str>, bin: &'static str, bfn: Vec<&'static str>, q, t| Theme { name, al: Alpha { leaves, un, neg: true, bin, bfn }, q, t };
    let poly = |a: A, b: A, k: A| add(add(mul(a, pow(x(), n(2.0))), mul(b, x())), k);
    vec![
        mk("forms", vec![x(), y(), n(2.0), n(-3.0), n(1.0), n(-1.0), n(0.5)], vec!["sin"], "+-*/^", vec![], 5, 6),
        mk(
            "composed",
            vec![
                x(), n(-2.0), add(x(), y()), sub(x(), n(1.0)), mul(x(), y()), neg(mul(x(), y())), div(x(), y()), pow(x(), n(2.0)), pow(x(), y()), pow(x(), neg(y())), pow(x(), n(-2.0)), poly(n(1.0), n(1.0), n(1.0)), poly(n(-1.0), n(2.0), n(-3.0)), poly(n(0.5), n(-1.0), n(0.0)), f("exp", x()), pow(c("e"), x()), neg(x()), mul(n(-2.5), x()),
            ],
            vec!["sqrt"],
            "+-*/^",
            vec![],
            3,
            5,
        ),
        mk(
            "polybase",
            vec![
                x(), n(1.0), n(-1.0), n(3.0), f("sin", x()), pow(f("sin", x()), n(2.0)), pow(f("sin", x()), n(3.0)), div(x(), y()), pow(div(x(), y()), n(2.0)), pow(div(x(), y()), n(3.0)), pow(x(), y()), pow(pow(x(), y()), n(2.0)), pow(pow(x(), y()), n(4.0)), add(x(), y()), pow(add(x(), y()), n(2.0)), pow(add(x(), y()), n(3.0)), mul(x(), y()), pow(mul(x(), y()), n(2.0)), pow(mul(x(), y()), n(3.0)), pow(x(), n(2.0)), pow(x(), n(12.0)), neg(x()),
            ],
            vec![],
            "+-*",
            vec![],
            5,
            5,
        ),
        mk(
            "numbers",
            vec![x(), n(0.1), n(1e-7), n(-2.5e-9), n(1e10), n(-1e10), n(123456789012.0), n(1e21), n(1.0 / 3.0), n(-1.0000000000000002), n(1.0 + 2e-11), n(-1.0 - 3e-11), n(f64::MAX), n(5e-324), n(9007199254740993.0), n(12.0), n(1000.0), n(-0.001)],
            vec!["abs"],
            "+-*/^",
            vec![],
            3,
            4,
        ),
        mk("names", vec![v("alpha"), v("theta"), v("lambda"), c("pi"), c("e"), v("x"), n(2.0), v("omega")], vec!["exp", "ln"], "+-*/^", vec!["beta"], 4, 5),
        mk("subscripts", vec![v("x_1"), v("x_12"), v("alpha_1"), v("my_long_name"), v("foo"), v("x1"), v("theta"), n(2.0)], vec!["sin"], "+-*/^", vec![], 3, 5),
        mk(
            "derivatives",
            {
                let u = |g: &'static str, a: Vec<A>| -> A { Arc::new(T::U(g, a)) };
                let d = |a: A, w: &'static str, k: u32| -> A { Arc::new(T::Der(a, w, k)) };
                vec![
                    x(), n(2.0), n(-1.0), d(u("f", vec![x()]), "x", 1), d(u("my_f", vec![mul(n(2.0), x()), y()]), "arg_1", 2), d(d(u("g", vec![x(), y()]), "x", 1), "y", 1), d(u("f", vec![d(u("f", vec![x()]), "x", 1)]), "x", 1), d(add(pow(x(), n(2.0)), y()), "x", 1), d(x(), "x", 13), d(u("f", vec![v("alpha")]), "alpha", 2), d(f("sin", x()), "x", 1), u("f", vec![x()]),
                ]
            },
            vec![],
            "+-*/^",
            vec![],
            5,
            5,
        ),
        mk(
            "orders",
            vec![
                x(), n(-2.0), fs("assoc_legendre", vec![n(2.0), n(1.0), x()]), fs("assoc_legendre", vec![add(n(1.0), n(2.0)), n(-1.0), mul(n(0.5), y())]), fs("assoc_legendre", vec![sub(n(4.0), x()), x(), neg(pow(y(), n(2.0)))]),
                fs("ynm", vec![n(2.0), n(-1.0), x(), y()]), fs("spherical_harmonic", vec![n(3.0), n(2.0), add(x(), y()), div(x(), n(2.0))]), fs("ynm", vec![mul(n(2.0), y()), y(), neg(x()), n(0.3)]), f2("besselj", neg(x()), sub(y(), n(3.0))),
                f2("polygamma", sub(x(), n(1.0)), pow(y(), n(2.0))), f2("zeta_deriv", x(), add(y(), n(2.0))), f2("hermite", add(x(), y()), div(n(1.0), y())),
            ],
            vec!["sqrt", "sin"],
            "+-*/^",
            vec![],
            3,
            4,
        ),
        mk("calls", vec![x(), n(2.0), neg(y())], UNARY.to_vec(), "*^", vec!["atan2", "log", "besselj", "bessely", "besseli", "besselk", "polygamma", "beta", "hermite", "zeta_deriv"], 4, 4),
    ]
}

fn pts(t: &T) -> Vec<Vec<(&'static str, f64)>> {
    let vars = t.var_list();
    let p: &[f64] = match vars.len() {
        0 | 1 => ALL,
        2 => &[0.6, -0.7, 1.7, 2.0],
        _ => &[0.6, 1.7],
    };
    grid(&vars, p)
}

/// None if the two trees have the same value everywhere on the grid
fn same(t: &T, g: &T) -> Option<String> {
    for p in pts(t) {
        let a = t.eval(&p);
        let b = g.eval(&p);
        if a.stable() {
            if !b.defined() {
                return Some(format!("at {}: {:e} became undefined", env_text(&p), a.v));
            }
            if b.stable() && !agree2(&a, &b) {
                return Some(format!("at {}: {:e} became {:e}", env_text(&p), a.v, b.v));
            }
        }
    }
    None
}

fn finite(t: &T) -> bool {
    match t {
        T::N(x) => x.is_finite(),
        _ => t.children().iter().all(|k| finite(k)),
    }
}
fn names() -> HashSet<String> {
    ["alpha", "theta", "lambda", "omega", "alpha_1", "x_1", "x_12", "my_long_name", "foo", "x1", "arg_1"].iter().map(|s| s.to_string()).collect()
}

fn functions() -> HashSet<String> {
    ["f", "my_f", "g"].iter().map(|s| s.to_string()).collect()
}

fn one(mc: &Mc, rank: u64, key: &str, e: &Expr, text_mode: bool) {
    let t = read(e);
    if !finite(&t) {
        return;
    }
    // derivatives and unknown functions have no value: an opaque function of what is inside stands for each
    let t = known(&t);
    let none = functions();
    if text_mode {
        let s = e.to_string();
        mc.trans(1);
        mc.state(&s);
        match symb_anafis::parse(&s, &names(), &none, None) {
            Err(er) => mc.violation(rank, key, &format!("prints {s:?}, which is not accepted: {er:?}")),
            Ok(b) => {
                if let Some(m) = same(&t, &known(&read(&b))) {
                    mc.violation(rank, key, &format!("prints {s:?}: {m}"));
                }
            }
        }
    } else {
        for (w, s, r) in [("LaTeX", e.to_latex(), read_latex as fn(&str) -> Result<A, String>), ("Unicode", e.to_unicode(), read_unicode)] {
            mc.trans(1);
            mc.state(&s);
            match r(&s) {
                Err(er) => mc.violation(rank, &format!("{w} {key}"), &format!("gives {s:?}: {er}")),
                Ok(b) => {
                    if let Some(m) = same(&t, &known(&b)) {
                        mc.violation(rank, &format!("{w} {key}"), &format!("gives {s:?}: {m}"));
                    }
                }
            }
        }
    }
    mc.trace();
}

fn check(mc: &Mc, rank: u64, t: &A, text_mode: bool) {
    mc.enter(&t.text());
    let e = t.expr();
    one(mc, rank, &format!("built [{}]", t.text()), &e, text_mode);
    if let Ok(s) = Simplify::new().simplify(&e) {
        if s.structural_hash() != e.structural_hash() {
            one(mc, rank, &format!("simplified [{}]", t.text()), &s, text_mode);
        }
    }
    if let Some(w) = t.var_list().first() {
        let sy = symb_anafis::symb(w);
        if let Ok(d) = Diff::new().skip_simplification(true).differentiate(&e, &sy) {
            one(mc, rank, &format!("derivative [{}]", t.text()), &d, text_mode);
        }
        if rank % 4 == 0 {
            if let Ok(d) = Diff::new().differentiate(&e, &sy) {
                one(mc, rank, &format!("simplified derivative [{}]", t.text()), &d, text_mode);
            }
        }
    }
    if let Ok(p) = symb_anafis::parse(&t.text(), &names(), &functions(), None) {
        one(mc, rank, &format!("parsed [{}]", t.text()), &p, text_mode);
    }
}

pub fn run(mc: &Arc<Mc>, text_mode: bool) {
    mc.note("every tree of the printing alphabets up to the size bound, as built, parsed, simplified and differentiated; the text is read back and compared by value");
    let mut k = 0u64;
    for th in print_themes() {
        let max = if mc.thorough { th.t } else { th.q };
        k += 1;
        sweep(mc, th.name, &th.al, max, |r, t| check(mc, k << 48 | r, t, text_mode));
    }
    for th in themes() {
        let max = if mc.thorough { th.q.min(5) } else { 4.min(th.q) };
        k += 1;
        sweep(mc, th.name, &th.al, max, |r, t| check(mc, k << 48 | r, t, text_mode));
    }
    let sl = crate::slots::slots(mc.thorough);
    k += 1;
    mc.par("numbers", sl.len() as u64, 16, |i| check(mc, k << 48 | i, &sl[i as usize], text_mode));
}

// ---------------------------------------------------------------- readers

#[derive(Clone, Debug, PartialEq)]
enum K {
    Num(f64),
    /// a letter or a Greek letter
    Let(&'static str),
    /// a command or a name of several letters
    Cmd(String),
    /// superscript digits (Unicode)
    Sup(f64),
    Ch(char),
}

const GREEK: &[(&str, char)] = &[
    ("pi", 'π'), ("alpha", 'α'), ("beta", 'β'), ("gamma", 'γ'), ("delta", 'δ'), ("theta", 'θ'), ("lambda", 'λ'), ("omega", 'ω'), ("psi", 'ψ'), ("zeta", 'ζ'), ("mu", 'μ'), ("sigma", 'σ'), ("phi", 'φ'), ("rho", 'ρ'),
];

struct P {
    t: Vec<K>,
    i: usize,
    latex: bool,
}

fn var_or_const(s: &'static str) -> A {
    if s == "pi" || s == "e" { c(s) } else { v(s) }
}

fn lex_latex(s: &str) -> Result<Vec<K>, String> {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    let mut depth = 0i32;
    while i < b.len() {
        let ch = b[i];
        if ch == ' ' {
            i += 1;
        } else if ch.is_ascii_digit() {
            let st = i;
            while i < b.len() && (b[i].is_ascii_digit() || b[i] == '.') {
                i += 1;
            }
            out.push(K::Num(b[st..i].iter().collect::<String>().parse().map_err(|_| "number")?));
        } else if ch == '\\' {
            let st = i + 1;
            i += 1;
            while i < b.len() && b[i].is_ascii_alphabetic() {
                i += 1;
            }
            let w: String = b[st..i].iter().collect();
            if w.is_empty() && b.get(i) == Some(&'_') {
                return Err("name starting with an underscore".into());
            }
            if w.is_empty() {
                return Err("stray backslash".into());
            }
            if w == "text" || w == "operatorname" || w == "mathrm" {
                // the name in braces
                if b.get(i) != Some(&'{') {
                    return Err("name expected".into());
                }
                let st = i + 1;
                while i < b.len() && b[i] != '}' {
                    i += 1;
                }
                let nm: String = b[st..i].iter().collect();
                i += 1;
                if nm.replace("\\_", "").contains(['_', '^', '\\', '$', '&', '#', '%']) {
                    return Err(format!("{nm:?} is no text"));
                }
                out.push(K::Cmd(format!("fn {}", nm.replace("\\_", "_"))));
            } else if let Some((g, _)) = GREEK.iter().find(|g| g.0 == w) {
                out.push(K::Let(g));
            } else {
                out.push(K::Cmd(w));
            }
        } else if ch.is_ascii_alphabetic() {
            let mut w = String::new();
            loop {
                match b.get(i) {
                    Some(k) if k.is_ascii_alphanumeric() => w.push(*k),
                    Some('\\') if b.get(i + 1) == Some(&'_') => {
                        w.push('_');
                        i += 1;
                    }
                    _ => break,
                }
                i += 1;
            }
            out.push(K::Let(leak(&w)));
        } else {
            if ch == '{' {
                depth += 1;
            }
            if ch == '}' {
                depth -= 1;
            }
            if depth < 0 {
                return Err("unbalanced braces".into());
            }
            out.push(K::Ch(ch));
            i += 1;
        }
    }
    if depth != 0 {
        return Err("unbalanced braces".into());
    }
    Ok(out)
}

fn lex_unicode(s: &str) -> Result<Vec<K>, String> {
    let b: Vec<char> = s.chars().collect();
    let sup = |c: char| -> Option<char> { "⁰¹²³⁴⁵⁶⁷⁸⁹⁻".chars().position(|x| x == c).map(|p| "0123456789-".as_bytes()[p] as char) };
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let ch = b[i];
        if ch == ' ' {
            i += 1;
        } else if ch.is_ascii_digit() {
            let st = i;
            while i < b.len() && (b[i].is_ascii_digit() || b[i] == '.') {
                i += 1;
            }
            out.push(K::Num(b[st..i].iter().collect::<String>().parse().map_err(|_| "number")?));
        } else if sup(ch).is_some() {
            let mut w = String::new();
            while i < b.len() && sup(b[i]).is_some() {
                w.push(sup(b[i]).unwrap());
                i += 1;
            }
            out.push(K::Sup(w.parse().map_err(|_| "superscript")?));
        } else if ch.is_ascii_alphabetic() {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            let w: String = b[st..i].iter().collect();
            if b.get(i) == Some(&'(') {
                out.push(K::Cmd(format!("fn {w}")));
            } else {
                out.push(K::Let(leak(&w)));
            }
        } else if let Some((g, _)) = GREEK.iter().find(|g| g.1 == ch) {
            out.push(K::Let(g));
            i += 1;
        } else {
            out.push(K::Ch(match ch {
                '−' => '-',
                '·' => '*',
                _ => ch,
            }));
            i += 1;
        }
    }
    Ok(out)
}

pub fn read_latex(s: &str) -> Result<A, String> {
    let mut p = P { t: lex_latex(s)?, i: 0, latex: true };
    let e = p.sum()?;
    if p.i < p.t.len() { Err(format!("unexpected {:?}", p.t[p.i])) } else { Ok(e) }
}
pub fn read_unicode(s: &str) -> Result<A, String> {
    let mut p = P { t: lex_unicode(s)?, i: 0, latex: false };
    let e = p.sum()?;
    if p.i < p.t.len() { Err(format!("unexpected {:?}", p.t[p.i])) } else { Ok(e) }
}

impl P {
    fn peek(&self) -> Option<&K> {
        self.t.get(self.i)
    }
    fn ch(&mut self, c: char) -> bool {
        if self.peek() == Some(&K::Ch(c)) {
            self.i += 1;
            return true;
        }
        false
    }
    fn cmd(&mut self, c: &str) -> bool {
        if self.peek() == Some(&K::Cmd(c.to_string())) {
            self.i += 1;
            return true;
        }
        false
    }
    fn need(&mut self, c: char) -> Result<(), String> {
        if self.ch(c) { Ok(()) } else { Err(format!("expected {c:?} before {:?}", self.peek())) }
    }
    fn open(&mut self) -> Result<(), String> {
        if self.latex && !self.cmd("left") {
            return Err(format!("expected \\left before {:?}", self.peek()));
        }
        self.need('(')
    }
    fn close(&mut self) -> Result<(), String> {
        if self.latex && !self.cmd("right") {
            return Err(format!("expected \\right before {:?}", self.peek()));
        }
        self.need(')')
    }
    fn sum(&mut self) -> Result<A, String> {
        let mut a = if self.ch('-') { neg(self.product()?) } else { self.product()? };
        loop {
            if self.ch('+') {
                a = add(a, self.product()?);
            } else if self.ch('-') {
                a = sub(a, self.product()?);
            } else {
                return Ok(a);
            }
        }
    }
    fn times(&mut self) -> bool {
        if self.latex { self.cmd("cdot") } else { self.ch('*') }
    }
    fn product(&mut self) -> Result<A, String> {
        let mut a = self.signed()?;
        loop {
            if self.times() {
                a = mul(a, self.signed()?);
            } else if !self.latex && self.ch('/') {
                a = div(a, self.signed()?);
            } else if matches!(self.peek(), Some(K::Num(_) | K::Let(_) | K::Cmd(_))) && !(self.latex && self.peek() == Some(&K::Cmd("right".into()))) && !(self.latex && self.peek() == Some(&K::Cmd("rfloor".into()))) && !(self.latex && self.peek() == Some(&K::Cmd("rceil".into()))) {
                a = mul(a, self.power()?);
            } else {
                return Ok(a);
            }
        }
    }
    /// a factor after an explicit operator may carry a sign
    fn signed(&mut self) -> Result<A, String> {
        if self.ch('-') { Ok(neg(self.signed()?)) } else { self.power() }
    }
    fn group(&mut self) -> Result<A, String> {
        self.need('{')?;
        let e = self.sum()?;
        self.need('}')?;
        Ok(e)
    }
    fn power(&mut self) -> Result<A, String> {
        let fraction = self.latex && self.peek() == Some(&K::Cmd("frac".into())) || !self.latex && self.peek() == Some(&K::Ch('∂'));
        let a = self.atom()?;
        if fraction && matches!(self.peek(), Some(K::Sup(_)) | Some(K::Ch('^'))) {
            return Err("superscript at a fraction".into());
        }
        let a = self.power_of(a)?;
        if matches!(self.peek(), Some(K::Sup(_)) | Some(K::Ch('^'))) {
            return Err("doubled superscript".into());
        }
        Ok(a)
    }
    fn power_of(&mut self, a: A) -> Result<A, String> {
        if let Some(K::Sup(k)) = self.peek().cloned() {
            self.i += 1;
            return Ok(pow(a, n(k)));
        }
        if !self.ch('^') {
            return Ok(a);
        }
        let b = if self.latex {
            self.group()?
        } else if self.ch('(') {
            let e = self.sum()?;
            self.need(')')?;
            e
        } else {
            let sign = self.ch('-');
            let b = match self.peek().cloned() {
                Some(K::Num(x)) => n(x),
                Some(K::Let(s)) => var_or_const(s),
                o => return Err(format!("exponent {o:?}")),
            };
            self.i += 1;
            if sign { neg(b) } else { b }
        };
        Ok(pow(a, b))
    }
    fn args(&mut self) -> Result<Vec<A>, String> {
        self.open()?;
        let mut v = vec![self.sum()?];
        while self.ch(',') {
            v.push(self.sum()?);
        }
        self.close()?;
        Ok(v)
    }
    fn call(&mut self, name: &str, pre: Vec<A>) -> Result<A, String> {
        let mut a = pre;
        a.extend(self.args()?);
        match intern_fn(name) {
            Some(g) if crate::num::arity(g) == a.len() => Ok(fs(g, a)),
            None if name.starts_with(|c: char| c.is_ascii_alphabetic()) => Ok(Arc::new(T::U(leak(name), a))),
            _ => Err(format!("unknown function {name}/{}", a.len())),
        }
    }
    /// ^k or ^{k} behind ∂ or the variable of a derivative
    fn order(&mut self) -> Result<u32, String> {
        if let Some(K::Sup(k)) = self.peek().cloned() {
            self.i += 1;
            return Ok(k as u32);
        }
        if !self.ch('^') {
            return Ok(1);
        }
        let braces = self.ch('{');
        let Some(K::Num(k)) = self.peek().cloned() else { return Err("order of a derivative".into()) };
        self.i += 1;
        if braces {
            self.need('}')?;
        } else if k >= 10.0 {
            return Err("order without braces".into());
        }
        Ok(k as u32)
    }
    /// a variable, with its subscript
    fn variable(&mut self) -> Result<&'static str, String> {
        let Some(K::Let(s)) = self.peek().cloned() else { return Err("variable expected".into()) };
        self.i += 1;
        if self.latex && self.ch('_') { self.subscripted(s) } else { Ok(s) }
    }
    /// the name with the subscript that follows
    fn subscripted(&mut self, s: &str) -> Result<&'static str, String> {
        let braces = self.ch('{');
        let mut w = String::new();
        loop {
            match self.peek().cloned() {
                Some(K::Num(x)) => w += &x.to_string(),
                Some(K::Let(x)) => w += x,
                _ => break,
            }
            self.i += 1;
            if !braces {
                break;
            }
        }
        if braces {
            self.need('}')?;
        }
        if w.is_empty() || !braces && w.len() > 1 {
            return Err(format!("subscript on {s}"));
        }
        Ok(leak(&format!("{s}_{w}")))
    }
    fn at_paren(&self) -> bool {
        self.peek() == Some(&K::Cmd("left".into())) && self.t.get(self.i + 1) == Some(&K::Ch('('))
    }
    fn atom(&mut self) -> Result<A, String> {
        let k = self.peek().cloned().ok_or("unexpected end")?;
        self.i += 1;
        match k {
            K::Num(x) => Ok(n(x)),
            K::Sup(_) => Err("superscript without base".into()),
            K::Ch('(') if !self.latex => {
                let e = self.sum()?;
                self.need(')')?;
                Ok(e)
            }
            K::Ch('∂') if !self.latex => {
                let k = self.order()?;
                self.need('(')?;
                let inner = self.sum()?;
                self.need(')')?;
                self.need('/')?;
                self.need('∂')?;
                let w = self.variable()?;
                if self.order()? != k {
                    return Err("two orders".into());
                }
                Ok(Arc::new(T::Der(inner, w, k)))
            }
            K::Ch('{') if self.latex => {
                let e = self.sum()?;
                self.need('}')?;
                Ok(e)
            }
            K::Ch(x) => Err(format!("unexpected {x:?}")),
            K::Let(s) => {
                if self.latex {
                    if self.peek() == Some(&K::Ch('_')) && !["J", "Y", "I", "K", "H", "P", "psi"].contains(&s) {
                        self.i -= 1;
                        return Ok(v(self.variable()?));
                    }
                    if self.ch('_') {
                        let a = if let Some(K::Num(x)) = self.peek().cloned() {
                            self.i += 1;
                            n(x)
                        } else {
                            self.group()?
                        };
                        return match s {
                            "J" => self.call("besselj", vec![a]),
                            "Y" if self.ch('^') => {
                                let m = self.group()?;
                                self.call("spherical_harmonic", vec![a, m])
                            }
                            "Y" => self.call("bessely", vec![a]),
                            "I" => self.call("besseli", vec![a]),
                            "K" => self.call("besselk", vec![a]),
                            "H" => self.call("hermite", vec![a]),
                            "P" => {
                                self.need('^')?;
                                let m = self.group()?;
                                self.call("assoc_legendre", vec![a, m])
                            }
                            "psi" => match &*a {
                                T::N(1.0) => self.call("trigamma", vec![]),
                                T::N(2.0) => self.call("tetragamma", vec![]),
                                _ => Err("psi subscript".into()),
                            },
                            _ => Err(format!("subscript on {s}")),
                        };
                    }
                    if (s == "psi" || s == "zeta") && self.peek() == Some(&K::Ch('^')) {
                        self.i += 1;
                        self.need('{')?;
                        self.need('(')?;
                        let k = self.sum()?;
                        self.need(')')?;
                        self.need('}')?;
                        return self.call(if s == "psi" { "polygamma" } else { "zeta_deriv" }, vec![k]);
                    }
                    if self.at_paren() {
                        return match s {
                            "psi" => self.call("digamma", vec![]),
                            "zeta" => self.call("zeta", vec![]),
                            "K" => self.call("elliptic_k", vec![]),
                            "E" => self.call("elliptic_e", vec![]),
                            "W" => self.call("lambertw", vec![]),
                            _ => Err(format!("{s} applied to brackets")),
                        };
                    }
                }
                Ok(var_or_const(s))
            }
            K::Cmd(w) => match w.as_str() {
                "left" => {
                    if self.ch('(') {
                        let e = self.sum()?;
                        self.close()?;
                        return Ok(e);
                    }
                    self.need('|')?;
                    let e = self.sum()?;
                    if !self.cmd("right") {
                        return Err("expected \\right".into());
                    }
                    self.need('|')?;
                    Ok(f("abs", e))
                }
                "frac" if self.peek() == Some(&K::Ch('{')) && self.t.get(self.i + 1) == Some(&K::Cmd("partial".into())) => {
                    self.i += 2;
                    let k = self.order()?;
                    let inner = self.atom()?;
                    self.need('}')?;
                    self.need('{')?;
                    if !self.cmd("partial") {
                        return Err("expected \\partial".into());
                    }
                    let w = self.variable()?;
                    let j = self.order()?;
                    self.need('}')?;
                    if j != k {
                        return Err("two orders".into());
                    }
                    Ok(Arc::new(T::Der(inner, w, k)))
                }
                "frac" => {
                    let a = self.group()?;
                    let b = self.group()?;
                    Ok(div(a, b))
                }
                "sqrt" => {
                    if self.ch('[') {
                        if self.peek() != Some(&K::Num(3.0)) {
                            return Err("root order".into());
                        }
                        self.i += 1;
                        self.need(']')?;
                        return Ok(f("cbrt", self.group()?));
                    }
                    Ok(f("sqrt", self.group()?))
                }
                "lfloor" | "lceil" => {
                    let e = self.sum()?;
                    let r = if w == "lfloor" { "rfloor" } else { "rceil" };
                    if !self.cmd(r) {
                        return Err(format!("expected \\{r}"));
                    }
                    Ok(f(if w == "lfloor" { "floor" } else { "ceil" }, e))
                }
                "log" => {
                    if self.ch('_') {
                        if self.peek() == Some(&K::Num(2.0)) {
                            self.i += 1;
                            return self.call("log2", vec![]);
                        }
                        let b = self.group()?;
                        return self.call("log", vec![b]);
                    }
                    self.call("log10", vec![])
                }
                "Gamma" => self.call("gamma", vec![]),
                "sin" | "cos" | "tan" | "cot" | "sec" | "csc" | "sinh" | "cosh" | "tanh" | "coth" | "ln" | "exp" => self.call(&w, vec![]),
                _ => {
                    let Some(nm) = w.strip_prefix("fn ") else { return Err(format!("unknown command \\{w}")) };
                    let nm = match nm {
                        "arsinh" => "asinh",
                        "arcosh" => "acosh",
                        "artanh" => "atanh",
                        "arcoth" => "acoth",
                        "arsech" => "asech",
                        "arcsch" => "acsch",
                        "sgn" => "signum",
                        "B" => "beta",
                        o => o,
                    };
                    self.call(nm, vec![])
                }
            },
        }
    }
}
