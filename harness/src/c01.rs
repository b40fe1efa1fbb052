//! C01: parsing gives every formula the meaning the documented grammar gives it.
//!
//! Every character string up to a length bound over several alphabets, and every token sequence up to a longer bound, is
//! given to the parser and to an independent reader of the documented grammar (own scanner, recursive descent). The two
//! have to agree on accept/reject and, where accepted, on the value at several points.
use crate::fw::Mc;
use crate::num::{arity, intern_fn};
use crate::c15::known;
use crate::tree::*;
use std::collections::{HashMap, HashSet};
use std::sync::Arc;
use symb_anafis::Expr;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Num(f64),
    Id(String),
    /// built-in function directly before an opening parenthesis
    Fun(&'static str),
    Op(u8),
    L,
    R,
    Comma,
    /// derivative notation
    Der(A),
}

/// What the documented grammar says about a text.
enum Ref {
    /// has to be accepted and mean this
    Must(A),
    /// may be rejected; if accepted it means this
    May(A),
    /// may be rejected; if accepted it is no plain number at any point
    MayOpaque,
    /// has to be rejected
    Bad,
}

struct Cx {
    known: HashSet<String>,
    fns: HashSet<String>,
}

struct Lexed {
    toks: Vec<Tok>,
    /// the text uses something the documentation does not settle
    loose: bool,
    /// numeral with an underscore at its exponent: not settled by the documentation, any answer will do
    any: bool,
}

fn builtin_name(s: &str) -> Option<&'static str> {
    match s {
        "sen" => Some("sin"),
        "spherical_harmonic" => None,
        _ => intern_fn(s),
    }
}

fn scan(s: &str, cx: &Cx) -> Option<Lexed> {
    let ch: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut loose = false;
    let mut any = false;
    let mut i = 0;
    while i < ch.len() {
        let k = ch[i];
        if k == ' ' || k == '\t' || k == '\n' || k == '\r' {
            i += 1;
            continue;
        }
        if k.is_ascii_digit() || k == '.' {
            let st = i;
            while i < ch.len() && (ch[i].is_ascii_digit() || ch[i] == '.' || ch[i] == '_') {
                i += 1;
            }
            if i < ch.len() && (ch[i] == 'e' || ch[i] == 'E') {
                let mut j = i + 1;
                if j < ch.len() && (ch[j] == '+' || ch[j] == '-') {
                    j += 1;
                }
                any |= j < ch.len() && ch[j] == '_';
                if j < ch.len() && ch[j].is_ascii_digit() {
                    while j < ch.len() && (ch[j].is_ascii_digit() || ch[j] == '_' || ch[j] == '.') {
                        j += 1;
                    }
                    i = j;
                }
            }
            let t: String = ch[st..i].iter().collect();
            if t.contains('_') {
                loose = true;
            }
            let t = t.replace('_', "");
            let (m, e) = match t.find(['e', 'E']) {
                Some(p) => (&t[..p], &t[p + 1..]),
                None => (&t[..], "0"),
            };
            if m.matches('.').count() > 1 || !m.contains(|c: char| c.is_ascii_digit()) || e.contains('.') {
                return None;
            }
            let x: f64 = format!("{}{}e{e}", if m.starts_with('.') { "0" } else { "" }, m.trim_end_matches('.')).parse().ok()?;
            out.push(Tok::Num(x));
            continue;
        }
        if k.is_alphabetic() || k == '_' {
            if k == 'π' {
                out.push(Tok::Id("pi".into()));
                i += 1;
                continue;
            }
            let st = i;
            while i < ch.len() && (ch[i].is_alphanumeric() || ch[i] == '_') {
                i += 1;
            }
            let name: String = ch[st..i].iter().collect();
            if name.contains('π') {
                loose = true;
            }
            let mut j = i;
            while j < ch.len() && ch[j].is_whitespace() {
                j += 1;
            }
            let paren = j < ch.len() && ch[j] == '(';
            ident(&name, paren, cx, &mut out, &mut loose);
            continue;
        }
        if k == '∂' {
            out.push(Tok::Der(derivative(&ch, &mut i, cx, &mut loose, &mut any)?));
            continue;
        }
        i += 1;
        out.push(match k {
            '(' => Tok::L,
            ')' => Tok::R,
            ',' => Tok::Comma,
            '*' if i < ch.len() && ch[i] == '*' => {
                i += 1;
                Tok::Op(b'^')
            }
            '+' | '-' | '*' | '/' | '^' => Tok::Op(k as u8),
            _ => return None,
        });
    }
    Some(Lexed { toks: out, loose, any })
}

/// ∂[^n]_inner/∂_var[^n] where inner is a call, a name (of a function of var), another derivative or a group
fn derivative(ch: &[char], i: &mut usize, cx: &Cx, loose: &mut bool, any: &mut bool) -> Option<A> {
    let name = |i: &mut usize| -> String {
        let st = *i;
        while *i < ch.len() && (ch[*i].is_alphanumeric() || ch[*i] == '_') {
            *i += 1;
        }
        ch[st..*i].iter().collect()
    };
    let order = |i: &mut usize| -> Option<u32> {
        let mut j = *i + 1;
        if *i >= ch.len() || ch[*i] != '^' || j >= ch.len() || !ch[j].is_ascii_digit() {
            return None;
        }
        while j < ch.len() && ch[j].is_ascii_digit() {
            j += 1;
        }
        let k = ch[*i + 1..j].iter().collect::<String>().parse().ok();
        *i = j;
        k
    };
    *i += 1;
    let k = order(i).unwrap_or(1);
    if ch.get(*i) != Some(&'_') {
        return None;
    }
    *i += 1;
    let mut of_var = None;
    let inner = if ch.get(*i) == Some(&'∂') {
        Some(derivative(ch, i, cx, loose, any)?)
    } else {
        let f = name(i);
        if ch.get(*i) == Some(&'(') {
            let st = *i;
            let mut d = 0;
            loop {
                match ch.get(*i)? {
                    '(' => d += 1,
                    ')' => d -= 1,
                    _ => {}
                }
                *i += 1;
                if d == 0 {
                    break;
                }
            }
            let s: String = ch[st..*i].iter().collect();
            let lx = scan(&s, cx)?;
            *loose |= lx.loose;
            *any |= lx.any;
            let mut p = P { t: &lx.toks, i: 0, cx, loose: false, opaque: false };
            let a = if f.is_empty() { vec![p.sum()?] } else { p.args()? };
            if p.i != lx.toks.len() {
                return None;
            }
            *loose |= p.loose;
            *any |= p.opaque || a.is_empty();
            Some(match builtin_name(&f) {
                _ if f.is_empty() => a[0].clone(),
                Some(g) if arity(g) == a.len() => fs(g, a),
                _ => Arc::new(T::U(leak(&f), a)),
            })
        } else if f.is_empty() {
            return None;
        } else {
            of_var = Some(f);
            None
        }
    };
    for want in ['/', '∂', '_'] {
        if ch.get(*i) != Some(&want) {
            return None;
        }
        *i += 1;
    }
    let var = name(i);
    if var.is_empty() || order(i).is_some_and(|o| o != k) {
        return None;
    }
    let var = leak(&var);
    let inner = inner.unwrap_or_else(|| {
        let f = of_var.unwrap();
        match builtin_name(&f) {
            Some(g) if arity(g) == 1 => fs(g, vec![v(var)]),
            _ => Arc::new(T::U(leak(&f), vec![v(var)])),
        }
    });
    Some(Arc::new(T::Der(inner, var, k)))
}

fn ident(name: &str, paren: bool, cx: &Cx, out: &mut Vec<Tok>, loose: &mut bool) {
    if cx.known.contains(name) || is_const(name) {
        out.push(Tok::Id(name.into()));
        return;
    }
    if paren {
        if let Some(g) = builtin_name(name) {
            out.push(Tok::Fun(g));
            return;
        }
        if cx.fns.contains(name) {
            out.push(Tok::Id(name.into()));
            return;
        }
        // xsin( is x * sin(
        let mut best: Option<usize> = None;
        for (p, _) in name.char_indices().skip(1) {
            if builtin_name(&name[p..]).is_some() {
                best = Some(p);
                break;
            }
        }
        if let Some(p) = best {
            *loose |= name[..p].chars().count() > 1;
            ident(&name[..p], false, cx, out, loose);
            out.push(Tok::Fun(builtin_name(&name[p..]).unwrap()));
            return;
        }
    }
    // a declared symbol in front
    for (p, _) in name.char_indices().skip(1) {
        if cx.known.contains(&name[..p]) {
            *loose = true;
            out.push(Tok::Id(name[..p].into()));
            ident(&name[p..], paren, cx, out, loose);
            return;
        }
    }
    if builtin_name(name).is_some() || cx.fns.contains(name) {
        // a function name without a call
        *loose = true;
    }
    out.push(Tok::Id(name.into()));
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    cx: &'a Cx,
    loose: bool,
    opaque: bool,
}

impl P<'_> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn op(&self) -> u8 {
        match self.peek() {
            Some(Tok::Op(o)) => *o,
            _ => 0,
        }
    }
    fn sum(&mut self) -> Option<A> {
        let mut a = self.prod()?;
        loop {
            match self.op() {
                b'+' => {
                    self.i += 1;
                    a = add(a, self.prod()?);
                }
                b'-' => {
                    self.i += 1;
                    a = sub(a, self.prod()?);
                }
                _ => return Some(a),
            }
        }
    }
    /// the token before the current one and the current one are adjacent terms
    fn adjacent(&mut self) -> bool {
        let Some(cur) = self.peek() else { return false };
        if !matches!(cur, Tok::Num(_) | Tok::Id(_) | Tok::Fun(_) | Tok::L | Tok::Der(_)) {
            return false;
        }
        let numbers = matches!((&self.t[self.i - 1], cur), (Tok::Num(_), Tok::Num(_)));
        // the documentation does not say what follows a derivative
        if matches!(self.t[self.i - 1], Tok::Der(_)) {
            self.loose = true;
        }
        // two numbers in a row are not a product anybody writes
        if numbers {
            self.loose = true;
        }
        true
    }
    fn prod(&mut self) -> Option<A> {
        let mut a = self.unary()?;
        loop {
            match self.op() {
                b'*' => {
                    self.i += 1;
                    a = mul(a, self.unary()?);
                }
                b'/' => {
                    self.i += 1;
                    a = div(a, self.unary()?);
                }
                _ => {
                    if !self.adjacent() {
                        return Some(a);
                    }
                    a = mul(a, self.unary()?);
                }
            }
        }
    }
    fn unary(&mut self) -> Option<A> {
        match self.op() {
            b'-' => {
                self.i += 1;
                Some(neg(self.unary()?))
            }
            b'+' => {
                self.i += 1;
                self.unary()
            }
            _ => self.power(),
        }
    }
    fn power(&mut self) -> Option<A> {
        let a = self.atom()?;
        if self.op() == b'^' {
            self.i += 1;
            return Some(pow(a, self.unary()?));
        }
        Some(a)
    }
    fn args(&mut self) -> Option<Vec<A>> {
        // at the opening parenthesis
        self.i += 1;
        let mut v = vec![];
        if self.peek() == Some(&Tok::R) {
            self.i += 1;
            return Some(v);
        }
        loop {
            v.push(self.sum()?);
            match self.peek()? {
                Tok::Comma => self.i += 1,
                Tok::R => {
                    self.i += 1;
                    return Some(v);
                }
                _ => return None,
            }
        }
    }
    fn atom(&mut self) -> Option<A> {
        match self.peek()?.clone() {
            Tok::Num(x) => {
                self.i += 1;
                Some(n(x))
            }
            Tok::Der(a) => {
                self.i += 1;
                Some(a)
            }
            Tok::Id(s) => {
                self.i += 1;
                if self.peek() == Some(&Tok::L) && self.cx.fns.contains(&s) && !self.cx.known.contains(&s) && !is_const(&s) {
                    let v = self.args()?;
                    return Some(user(&v));
                }
                Some(if is_const(&s) { c(leak(&s)) } else { v(leak(&s)) })
            }
            Tok::Fun(g) => {
                self.i += 1;
                if self.peek() != Some(&Tok::L) {
                    return None;
                }
                let v = self.args()?;
                let (lo, hi) = if g == "log" { (1, 2) } else { (arity(g), arity(g)) };
                if v.len() < lo || v.is_empty() {
                    return None;
                }
                if v.len() > hi || (g == "log" && v.len() == 1) {
                    self.loose = true;
                    self.opaque = true;
                }
                Some(fs(g, v))
            }
            Tok::L => {
                self.i += 1;
                let a = self.sum()?;
                if self.peek() != Some(&Tok::R) {
                    return None;
                }
                self.i += 1;
                Some(a)
            }
            _ => None,
        }
    }
}

/// The meaning given to a registered function: distinct for every number, order and value of arguments.
fn user(args: &[A]) -> A {
    let mut s = n(0.375 + args.len() as f64);
    for (i, a) in args.iter().enumerate() {
        s = add(s, mul(n(1.75 * (i + 1) as f64), a.clone()));
    }
    s
}
fn user_eval(a: &[f64]) -> Option<f64> {
    let mut s = 0.375 + a.len() as f64;
    for (i, x) in a.iter().enumerate() {
        s += 1.75 * (i + 1) as f64 * x;
    }
    Some(s)
}

fn reference(s: &str, cx: &Cx) -> Ref {
    let (o, k) = (s.matches('(').count(), s.matches(')').count());
    let mut depth = 0i32;
    let mut order = true;
    for ch in s.chars() {
        depth += (ch == '(') as i32 - (ch == ')') as i32;
        order &= depth >= 0;
    }
    // Unbalanced parentheses may be rejected; what the parser may do instead is complete them at the ends.
    let (text, mut loose) = if o > k {
        (format!("{s}{}", ")".repeat(o - k)), true)
    } else if k > o {
        (format!("{}{s}", "(".repeat(k - o)), true)
    } else if !order {
        (format!("({s})"), true)
    } else {
        (s.to_string(), false)
    };
    let Some(lx) = scan(&text, cx) else { return Ref::Bad };
    loose |= lx.loose;
    if lx.any {
        return Ref::MayOpaque;
    }
    if lx.toks.is_empty() {
        return Ref::Bad;
    }
    let mut p = P { t: &lx.toks, i: 0, cx, loose, opaque: false };
    match p.sum() {
        Some(a) if p.i == lx.toks.len() => {
            if p.opaque {
                Ref::MayOpaque
            } else if p.loose {
                Ref::May(a)
            } else {
                Ref::Must(a)
            }
        }
        _ => Ref::Bad,
    }
}

fn value_of(name: &str, k: usize) -> f64 {
    let h = name.bytes().fold(7u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32));
    let u = (h % 97) as f64 / 97.0;
    match k {
        0 => 0.8 + u * 1.7,
        1 => -0.9 - u * 1.3,
        _ => 2.1 + u,
    }
}

fn check(mc: &Arc<Mc>, rank: u64, s: &str, cx: &Cx) {
    let what = format!("{:?}{}{}", s, if cx.fns.is_empty() { "" } else { " with function f" }, if cx.known.is_empty() { "" } else { " with known symbols" });
    if !mc.wants(&what) {
        return;
    }
    mc.enter(&what);
    let r = reference(s, cx);
    let got = symb_anafis::parse(s, &cx.known, &cx.fns, None);
    mc.trans(1);
    let (a, must, opaque) = match &r {
        Ref::Must(a) => (Some(a), true, false),
        Ref::May(a) => (Some(a), false, false),
        Ref::MayOpaque => (None, false, true),
        Ref::Bad => (None, false, false),
    };
    let e = match got {
        Ok(e) => e,
        Err(x) => {
            if must {
                mc.violation(rank, &what, &format!("well-formed formula is rejected: {x}; the grammar reads it as {}", a.unwrap().text()));
            }
            return;
        }
    };
    if opaque {
        return;
    }
    let Some(a) = a else {
        mc.violation(rank, &what, &format!("malformed formula is accepted as {e}"));
        return;
    };
    mc.state(&a.text());
    mc.trace();
    let vars = a.var_list();
    if a.has_special() {
        // derivatives have no value: an opaque function of what is inside stands for each
        let (want, back) = (known(a), known(&read(&e)));
        for k in 0..3 {
            let env: Vec<(&'static str, f64)> = vars.iter().map(|v| (*v, value_of(v, k))).collect();
            let (want, back) = (want.eval(&env), back.eval(&env));
            if want.stable() && !(back.defined() && (!back.stable() || agree2(&want, &back))) {
                mc.violation(rank, &what, &format!("parsed as {e}; the grammar reads it as {}", a.text()));
                return;
            }
        }
        return;
    }
    let mut ce: symb_anafis_evals::Map = HashMap::new();
    if !cx.fns.is_empty() {
        for g in &cx.fns {
            ce.insert(g.clone(), Arc::new(user_eval));
        }
    }
    for k in 0..3 {
        let env: Vec<(&'static str, f64)> = vars.iter().map(|v| (*v, value_of(v, k))).collect();
        let want = a.eval(&env);
        if !want.defined() || !want.stable() || !want.v.is_finite() {
            continue;
        }
        let m: HashMap<&str, f64> = env.iter().copied().collect();
        let out = e.evaluate(&m, &ce);
        mc.trans(1);
        if !agree(&want, out.as_number()) {
            mc.violation(
                rank,
                &what,
                &format!("parsed as {e}, which at {} is {out}; the grammar reads it as {} = {:?}", env_text(&env), a.text(), want.v),
            );
            return;
        }
        // the structure itself: what is read back through the public view has the same value
        if cx.fns.is_empty() && k == 0 {
            let back = read(&e).eval(&env);
            if !(agree2(&want, &back)) {
                mc.violation(rank, &what, &format!("the parsed tree {e} has value {:?} at {}; the grammar reads {} = {:?}", back.v, env_text(&env), a.text(), want.v));
                return;
            }
        }
    }
}

mod symb_anafis_evals {
    use std::collections::HashMap;
    use std::sync::Arc;
    pub type Map = HashMap<String, Arc<dyn Fn(&[f64]) -> Option<f64> + Send + Sync>>;
}

fn set(v: &[&str]) -> HashSet<String> {
    v.iter().map(|s| s.to_string()).collect()
}

/// all strings of exactly `len` pieces
fn strings(mc: &Arc<Mc>, what: &str, pieces: &[&str], maxlen: usize, join: &str, cx: &Cx, base: &mut u64) {
    for len in 1..=maxlen {
        if mc.stopped() {
            return;
        }
        let total = (pieces.len() as u64).pow(len as u32);
        let b = *base;
        mc.par(&format!("{what}:len{len}"), total, 512, |mut i| {
            let r = b + i;
            let mut s = String::new();
            for k in 0..len {
                if k > 0 {
                    s.push_str(join);
                }
                s.push_str(pieces[(i % pieces.len() as u64) as usize]);
                i /= pieces.len() as u64;
            }
            check(mc, r, &s, cx);
        });
        *base += total;
    }
}

pub fn run(mc: &Arc<Mc>) {
    let t = mc.thorough as usize;
    let none = Cx { known: set(&[]), fns: set(&[]) };
    let full = Cx { known: set(&["alpha", "ab", "x_1"]), fns: set(&["f"]) };
    let mut b = 0u64;
    // characters: operators, numbers, parentheses
    strings(mc, "operators", &["x", "2", "+", "-", "*", "/", "^", "(", ")", "y"], 6 + t, "", &none, &mut b);
    strings(mc, "powers", &["x", "3", "-", "^", "*", "y"], 8 + t, "", &none, &mut b);
    strings(mc, "numbers", &["1", "2", ".", "e", "E", "+", "-", "x", "_", "0"], 6 + t, "", &none, &mut b);
    strings(mc, "adjacent", &["x", "2", "(", ")", " ", "pi", "e", "sin("], 7, "", &none, &mut b);
    strings(mc, "adjacent-op", &["x", "2", "(", ")", "^", "/", "-", "cos("], 7, "", &none, &mut b);
    strings(mc, "spaced", &["x", "y", "2", ".5", "+", "-", "*", "/", "^", "**", "(", ")", "sin(", "e", "π"], 5 + t, " ", &none, &mut b);
    // calls
    strings(mc, "calls", &["x", "2", ",", "atan2(", "beta(", "sqrt(", ")", "-", "*"], 7, "", &none, &mut b);
    strings(mc, "user", &["x", "f", "(", ")", ",", "2", "+", "^", " "], 6 + t, "", &full, &mut b);
    strings(mc, "names", &["alpha", "ab", "a", "b", "f(", "exp(", "(", ")", "x_1", "2", "*"], 5 + t, "", &full, &mut b);
    strings(mc, "names-spaced", &["alpha", "ab", "f (", "sin (", "(", ")", "θ", "x1", "3", "-", "^", ","], 5 + t, " ", &full, &mut b);
    // derivative notation: its pieces, and whole derivatives within formulas
    strings(mc, "derivative", &["∂_", "∂^2_", "f(", "g", "(", ")", "x", "/∂_x", "/∂_y^2", ",", "+"], 6 + t, "", &none, &mut b);
    strings(mc, "derivatives", &["∂_f(x)/∂_x", "∂^2_my_f(x, 2y)/∂_y^2", "∂^1_∂^1_g(x,y)/∂_x^1/∂_y^1", "∂_g(∂_f(x)/∂_x)/∂_x_1", "(", ")", "+", "*", "^", "/", "2", "x"], 5 + t, "", &full, &mut b);
    // every built-in name as a call, alone, behind a factor, and squared
    every_builtin(mc, &none, &mut b);
    longer(mc, &none, &mut b);
    mc.note("the reference reader is an independent scanner and recursive-descent parser of the documented grammar");
    mc.note("texts with unbalanced parentheses, numerals with underscores, two adjacent numerals, function names without call, or wrong argument counts may be rejected; when accepted they have to have the value of the completed text (wrong argument counts: no requirement)");
}

fn every_builtin(mc: &Arc<Mc>, cx: &Cx, base: &mut u64) {
    let args = ["0.7", "x", "(x+1)", "-x", "2", "x^2", "y*x", "x y"];
    let mut names: Vec<String> = crate::num::UNARY.iter().map(|s| s.to_string()).collect();
    names.push("sen".into());
    let mut cases = vec![];
    for g in &names {
        for a in args {
            for w in ["{}", "2{}", "-{}", "{}^2", "x{}", "x {}", "{}x", "{}2", "({}){}", "{}{}", "2^{}", "y-{}-y", "1/{}/y", "{}(x+y)", "x^2{}", "x{}^2", "{} 3", "2x{}"] {
                let call = format!("{g}({a})");
                cases.push(w.replace("{}", &call));
                cases.push(w.replace("{}", &format!("{g} ( {a} )")));
            }
        }
    }
    for g in ["atan2", "beta", "log", "polygamma", "besselj", "bessely", "besseli", "besselk", "hermite", "zeta_deriv"] {
        for a in ["1", "2", "x", "y", "x+1", "-x", "2 y"] {
            for a2 in ["1", "2", "x", "y", "y^2", "3x", "x-y"] {
                for w in ["{}", "2{}", "-{}^2", "x{}", "{}x", "({}){}"] {
                    cases.push(w.replace("{}", &format!("{g}({a},{a2})")));
                    cases.push(w.replace("{}", &format!("{g}( {a} , {a2} )")));
                }
            }
        }
    }
    for a in ["2", "1"] {
        for m in ["0", "1", "-1"] {
            cases.push(format!("assoc_legendre({a},{m},x/9)"));
            cases.push(format!("ynm({a},{m},x,y)"));
            cases.push(format!("2ynm({a},{m},x,y)^2"));
        }
    }
    for t in crate::slots::slots(mc.thorough) {
        cases.push(t.text());
        cases.push(t.min_text());
    }
    let b = *base;
    mc.par("every-builtin", cases.len() as u64, 16, |i| check(mc, b + i, &cases[i as usize], cx));
    *base += cases.len() as u64;
}

/// Long operator chains: every sequence of binary operators between distinct operands, every position of one minus sign
/// and of one pair of parentheses.
fn longer(mc: &Arc<Mc>, cx: &Cx, base: &mut u64) {
    let names = ["x", "y", "3", "z", "0.5", "w", "2", "u"];
    let ops = ["+", "-", "*", "/", "^", "", "*-", "^-"];
    let maxn = if mc.thorough { 7 } else { 6 };
    for k in 3..=maxn {
        let total = (ops.len() as u64).pow(k as u32 - 1);
        let b = *base;
        mc.par(&format!("chains:{k}"), total, 64, |i| {
            let mut o = vec![];
            let mut j = i;
            for _ in 0..k - 1 {
                o.push(ops[(j % ops.len() as u64) as usize]);
                j /= ops.len() as u64;
            }
            let mut render = |open: usize, close: usize| {
                let mut s = String::new();
                for q in 0..k {
                    if q > 0 {
                        s.push_str(o[q - 1]);
                        if o[q - 1].is_empty() {
                            s.push(' ');
                        }
                    }
                    if q == open {
                        s.push('(');
                    }
                    s.push_str(names[q]);
                    if q == close {
                        s.push(')');
                    }
                }
                check(mc, b + i, &s, cx);
            };
            render(99, 99);
            for open in 0..k {
                for close in open + 1..k {
                    if (open, close) != (0, k - 1) {
                        render(open, close);
                    }
                }
            }
        });
        *base += total;
    }
}

#[allow(dead_code)]
fn _keep(_: &Expr) {}
