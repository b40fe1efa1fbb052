//! C23: the Python interface against the Rust interface.
//!
//! The module is built from /repo's working tree. Each harness thread owns a Python process
//! (py/worker.py) and sends it programs; what a program returns is compared with what the Rust
//! interface returns in this process for the same operations. All programs of each theme's
//! space are run. A Python process that dies is a violation of the program that killed it.

use crate::fw::{esc, Mc};
use crate::tree::{lib_parse, n, v, Alpha, A};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Arc, Mutex};
use symb_anafis::visitor::{ExprView, NodeCounter, VariableCollector};
use symb_anafis::*;

/// What a program has to return.
#[derive(Clone, Debug)]
pub enum W {
    E(Expr),
    S(Option<String>),
    F(f64),
    I(i64),
    B(bool),
    T(String),
    N,
    L(Vec<W>),
    /// a set of texts
    Z(Vec<String>),
    /// a NumPy array: shape, values
    Arr(Vec<usize>, Vec<f64>),
    D(f64, f64),
    /// an ordinary exception; with the text of the Rust error where there is one
    Err(Option<String>),
    /// any one of these
    One(Vec<W>),
    /// any value or ordinary exception
    Any,
}
use W::*;

/// What a program did return.
#[derive(Clone, Debug, PartialEq)]
enum G {
    E(Vec<String>),
    S(Option<String>),
    F(u64),
    I(String),
    B(bool),
    T(String),
    N,
    L(Vec<G>),
    Z(Vec<G>),
    Arr(String, Vec<u64>),
    D(u64, u64),
    X(String, String),
    P(String, String),
    O(String),
}

const P1: [(&str, f64); 6] = [("x", 0.7), ("y", 1.3), ("z", 0.4), ("a", 2.1), ("alpha", 1.7), ("b", 0.9)];
const P2: [(&str, f64); 6] = [("x", -1.2), ("y", 0.35), ("z", 2.6), ("a", -0.8), ("alpha", 0.6), ("b", 1.9)];
const NAN: u64 = 0x7ff8_0000_0000_0000;

fn bits(x: f64) -> u64 {
    if x.is_nan() {
        NAN
    } else {
        x.to_bits()
    }
}
fn read_bits(s: &str) -> u64 {
    if s == "nan" {
        NAN
    } else {
        u64::from_str_radix(s, 16).unwrap_or(1)
    }
}
fn at(e: &Expr, p: &[(&str, f64)]) -> Option<f64> {
    e.evaluate(&p.iter().copied().collect::<HashMap<&str, f64>>(), &HashMap::new()).as_number()
}
fn close(a: f64, b: f64) -> bool {
    bits(a) == bits(b) || (a - b).abs() <= 1e-12 * a.abs().max(b.abs()) || (a == 0.0 && b == 0.0)
}
/// Equal up to rounding through a different but equivalent form.
fn near(a: Option<f64>, b: Option<f64>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => close(a, b) || (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs())),
        _ => false,
    }
}

fn decode<'a>(t: &mut dyn Iterator<Item = &'a str>) -> Option<G> {
    let mut s = |t: &mut dyn Iterator<Item = &'a str>| t.next().map(|x| x.replace('\x1f', "\n"));
    Some(match t.next()? {
        "N" => G::N,
        "B" => G::B(t.next()? == "1"),
        "I" => G::I(s(t)?),
        "F" => G::F(read_bits(t.next()?)),
        "T" => G::T(s(t)?),
        "E" => G::E((0..5).map(|_| s(t)).collect::<Option<_>>()?),
        "S" => {
            let x = s(t)?;
            G::S(if x == "\x1a" { None } else { Some(x) })
        }
        "D" => G::D(read_bits(t.next()?), read_bits(t.next()?)),
        k @ ("L" | "Z") => {
            let m: usize = t.next()?.parse().ok()?;
            let mut r = vec![];
            for _ in 0..m {
                r.push(decode(t)?);
            }
            if k == "L" {
                G::L(r)
            } else {
                G::Z(r)
            }
        }
        "A" => {
            let sh = s(t)?;
            let m: usize = t.next()?.parse().ok()?;
            G::Arr(sh, (0..m).map(|_| t.next().map(read_bits)).collect::<Option<_>>()?)
        }
        "X" => G::X(s(t)?, s(t).unwrap_or_default()),
        "P" => G::P(s(t)?, s(t).unwrap_or_default()),
        "O" => G::O(s(t)?),
        _ => return None,
    })
}

fn same_text(want: &str, got: &str) -> bool {
    if want == got {
        return true;
    }
    // an equivalent form of the same answer
    let (Ok(a), Ok(b)) = (lib_parse(want), lib_parse(got)) else { return false };
    near(at(&a, &P1), at(&b, &P1)) && near(at(&a, &P2), at(&b, &P2))
}

fn fits(w: &W, g: &G) -> bool {
    match (w, g) {
        (One(ws), _) => ws.iter().any(|w| fits(w, g)),
        (_, G::P(..)) => false,
        (Any, _) => true,
        (Err(None), G::X(..)) => true,
        (Err(Some(m)), G::X(_, got)) => m.trim() == got.trim(),
        (N, G::N) => true,
        (B(a), G::B(b)) => a == b,
        (I(a), G::I(b)) => a.to_string() == *b,
        (F(a), G::F(b)) => close(*a, f64::from_bits(*b)),
        (T(a), G::T(b)) => same_text(a, b),
        (S(a), G::S(b)) => a == b,
        (D(a, b), G::D(c, d)) => close(*a, f64::from_bits(*c)) && close(*b, f64::from_bits(*d)),
        (L(a), G::L(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| fits(a, b)),
        (Z(a), G::Z(b)) => {
            let a: HashSet<&str> = a.iter().map(|s| s.as_str()).collect();
            a.len() == b.len() && b.iter().all(|g| matches!(g, G::T(s) if a.contains(s.as_str())))
        }
        (Arr(sh, a), G::Arr(gs, b)) => {
            sh.iter().map(|d| d.to_string()).collect::<Vec<_>>().join("x") == *gs
                && a.len() == b.len()
                && a.iter().zip(b).all(|(a, b)| close(*a, f64::from_bits(*b)))
        }
        (E(e), G::E(g)) => {
            let val = |s: &str| if s == "?" { None } else { Some(f64::from_bits(read_bits(s))) };
            let (v1, v2) = (at(e, &P1), at(e, &P2));
            let (g1, g2) = (val(&g[3]), val(&g[4]));
            if e.to_string() == g[0] {
                let same = |a: Option<f64>, b: Option<f64>| match (a, b) {
                    (Some(a), Some(b)) => close(a, b),
                    (None, None) => true,
                    _ => false,
                };
                e.to_latex() == g[1] && e.to_unicode() == g[2] && same(v1, g1) && same(v2, g2)
            } else {
                near(v1, g1) && near(v2, g2)
            }
        }
        _ => false,
    }
}

fn show_w(w: &W) -> String {
    match w {
        E(e) => format!("Expr {e}  [at P1 {:?}, at P2 {:?}]", at(e, &P1), at(e, &P2)),
        L(v) => format!("[{}]", v.iter().map(show_w).collect::<Vec<_>>().join(", ")),
        One(v) => format!("one of {{{}}}", v.iter().map(show_w).collect::<Vec<_>>().join(" | ")),
        Err(None) => "an exception".into(),
        Err(Some(m)) => format!("an exception saying {m:?}"),
        Any => "a value or an exception".into(),
        _ => format!("{w:?}"),
    }
}
fn show_g(g: &G) -> String {
    match g {
        G::E(p) => format!(
            "Expr {}  [at P1 {}, at P2 {}]",
            p[0],
            if p[3] == "?" { "-".into() } else { f64::from_bits(read_bits(&p[3])).to_string() },
            if p[4] == "?" { "-".into() } else { f64::from_bits(read_bits(&p[4])).to_string() }
        ),
        G::F(b) => format!("float {}", f64::from_bits(*b)),
        G::D(a, b) => format!("Dual({}, {})", f64::from_bits(*a), f64::from_bits(*b)),
        G::Arr(s, v) => format!("array {s} {:?}", v.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>()),
        G::L(v) => format!("[{}]", v.iter().map(show_g).collect::<Vec<_>>().join(", ")),
        G::X(c, m) => format!("{c}: {m}"),
        G::P(c, m) => format!("not an ordinary exception: {c}: {m}"),
        _ => format!("{g:?}"),
    }
}

// ---------------------------------------------------------------- the Python process

struct Py {
    child: Child,
    tx: BufWriter<ChildStdin>,
    rx: BufReader<ChildStdout>,
}
impl Py {
    fn new() -> Py {
        let dir = crate::fw::verif_dir();
        let mut child = Command::new(std::env::var("MC_PYTHON").unwrap_or_else(|_| "/opt/vp/venv/bin/python".into()))
            .arg("-S")
            .arg("-c")
            .arg("import site; site.main(); exec(open(__import__('os').environ['MC_WORKER']).read())")
            .env("MC_WORKER", dir.join("harness/py/worker.py"))
            .env("PYTHONPATH", dir.join("pystage"))
            .env("PYTHONDONTWRITEBYTECODE", "1")
            .env("OPENBLAS_NUM_THREADS", "1")
            .env("RAYON_NUM_THREADS", "2")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("python starts");
        let tx = BufWriter::new(child.stdin.take().unwrap());
        let rx = BufReader::new(child.stdout.take().unwrap());
        Py { child, tx, rx }
    }
    fn ask(&mut self, src: &[&str]) -> Option<Vec<String>> {
        let mut req = format!("{}\n", src.len());
        for s in src {
            assert!(!s.contains('\n'), "newline in program");
            req.push_str(s);
            req.push('\n');
        }
        self.tx.write_all(req.as_bytes()).ok()?;
        self.tx.flush().ok()?;
        let mut r = vec![];
        for _ in src {
            let mut l = String::new();
            if self.rx.read_line(&mut l).ok()? == 0 {
                return None;
            }
            r.push(l.trim_end_matches('\n').to_string());
        }
        Some(r)
    }
}
impl Drop for Py {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! { static PY: RefCell<Option<Py>> = const { RefCell::new(None) }; }

fn ask(src: &[&str]) -> Option<Vec<String>> {
    PY.with(|p| {
        let mut p = p.borrow_mut();
        let r = p.get_or_insert_with(Py::new).ask(src);
        if r.is_none() {
            *p = None;
        }
        r
    })
}

type Case = (String, W);

/// Run every case of 0..n of a theme. A case is a program and what it must return.
fn theme(mc: &Arc<Mc>, name: &str, count: u64, batch: u64, case: impl Fn(u64) -> Option<Case> + Sync) {
    if mc.stopped() {
        return;
    }
    mc.par(name, count.div_ceil(batch), 1, |b| {
        let mut cs: Vec<(u64, String, W)> = vec![];
        for i in b * batch..((b + 1) * batch).min(count) {
            mc.enter(&format!("{name} {i}"));
            let Ok(c) = catch_unwind(AssertUnwindSafe(|| case(i))) else {
                // The Rust interface panicked: other properties judge that. Python must survive it.
                mc.count("rust_panics", 1);
                continue;
            };
            let Some((src, w)) = c else { continue };
            if mc.wants(&key(name, &src)) {
                cs.push((i, src, w));
            }
        }
        if cs.is_empty() {
            return;
        }
        mc.enter(&key(name, &cs[0].1));
        let srcs: Vec<&str> = cs.iter().map(|c| c.1.as_str()).collect();
        let answers: Vec<Option<String>> = match ask(&srcs) {
            Some(a) => a.into_iter().map(Some).collect(),
            None => srcs
                .iter()
                .map(|s| {
                    mc.enter(&key(name, s));
                    ask(&[s]).map(|mut a| a.remove(0))
                })
                .collect(),
        };
        for ((i, src, w), a) in cs.iter().zip(answers) {
            mc.trans(1 + src.matches('\x1e').count() as u64);
            mc.trace();
            mc.state(&(name, src.as_str()));
            let Some(a) = a else {
                mc.violation(*i, &key(name, src), "the Python process ended");
                continue;
            };
            match decode(&mut a.split('\x1d')) {
                None => mc.violation(*i, &key(name, src), &format!("unreadable answer {a:?}")),
                Some(g) => {
                    if !fits(w, &g) {
                        mc.violation(*i, &key(name, src), &format!("Rust: {}\n  Python: {}", show_w(w), show_g(&g)));
                    }
                }
            }
        }
        if b == 0 {
            mc.sample(format!("{name}: {}", esc(&cs[cs.len() / 2].1.replace('\x1e', "; "))));
        }
    });
}
fn key(name: &str, src: &str) -> String {
    format!("{name}: {}", src.replace('\x1e', "; ").replace('\x1f', " / "))
}

/// A Python text literal.
fn q(s: &str) -> String {
    let mut o = String::from("'");
    for c in s.chars() {
        match c {
            '\'' | '\\' => {
                o.push('\\');
                o.push(c);
            }
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            _ => o.push(c),
        }
    }
    o.push('\'');
    o
}
fn qs(v: &[&str]) -> String {
    format!("[{}]", v.iter().map(|s| q(s)).collect::<Vec<_>>().join(","))
}
fn pf(x: f64) -> String {
    if x.is_nan() {
        "float('nan')".into()
    } else if x.is_infinite() {
        format!("float('{}inf')", if x < 0.0 { "-" } else { "" })
    } else {
        format!("{x:?}")
    }
}
fn pfs(v: &[f64]) -> String {
    format!("[{}]", v.iter().map(|x| pf(*x)).collect::<Vec<_>>().join(","))
}
fn re<X>(r: Result<X, DiffError>, f: impl FnOnce(X) -> W) -> W {
    match r {
        Ok(x) => f(x),
        Result::Err(e) => Err(Some(e.to_string())),
    }
}
fn wt(r: Result<String, DiffError>) -> W {
    re(r, T)
}
fn we(r: Result<Expr, DiffError>) -> W {
    re(r, E)
}
fn set(v: &[&str]) -> HashSet<String> {
    v.iter().map(|s| s.to_string()).collect()
}
fn rparse(s: &str, known: &[&str], custom: &[&str]) -> Result<Expr, DiffError> {
    parse(s, &set(known), &set(custom), None)
}
fn p(s: &str) -> Expr {
    rparse(s, &[], &[]).unwrap_or_else(|e| panic!("{s}: {e}"))
}

// ---------------------------------------------------------------- A: operators

#[derive(Clone)]
enum Val {
    Ex(Expr),
    Sy(Symbol),
    Nu(f64),
    St(&'static str),
}
impl Val {
    fn sym(&self) -> bool {
        matches!(self, Val::Ex(_) | Val::Sy(_))
    }
    fn expr(&self) -> Expr {
        match self {
            Val::Ex(e) => e.clone(),
            Val::Sy(s) => s.to_expr(),
            Val::Nu(n) => Expr::number(*n),
            Val::St(s) => symb(s).to_expr(),
        }
    }
}

fn operands() -> Vec<(&'static str, Val)> {
    vec![
        ("Expr('x')", Val::Ex(symb("x").to_expr())),
        ("symb('y')", Val::Sy(symb("y"))),
        ("2", Val::Nu(2.0)),
        ("0.5", Val::Nu(0.5)),
        ("parse('sin(x)+z')", Val::Ex(p("sin(x)+z"))),
        ("Expr(3)", Val::Ex(Expr::number(3.0))),
        ("-1", Val::Nu(-1.0)),
        ("np.float64(1.5)", Val::Nu(1.5)),
        ("'z'", Val::St("z")),
        ("symb('x')", Val::Sy(symb("x"))),
        ("0", Val::Nu(0.0)),
        ("True", Val::Nu(1.0)),
        ("np.int64(3)", Val::Nu(3.0)),
        ("10**15", Val::Nu(1e15)),
        ("Symbol('z')", Val::Sy(symb("z"))),
        ("symb('y').to_expr()", Val::Ex(symb("y").to_expr())),
        ("Expr('a')", Val::Ex(symb("a").to_expr())),
        ("Expr(symb('y'))", Val::Ex(symb("y").to_expr())),
        ("Expr(Expr(0.25))", Val::Ex(Expr::number(0.25))),
        ("Expr(np.float64(2.5))", Val::Ex(Expr::number(2.5))),
    ]
}

/// None: an operation between plain Python values; Some(Err): a type error.
fn bin(op: &str, a: &Val, b: &Val) -> Option<Result<Val, ()>> {
    if !a.sym() && !b.sym() {
        return None;
    }
    if matches!(a, Val::St(_)) {
        // text on the left: the interface may refuse it
        return Some(Result::Err(()));
    }
    let (x, y) = (a.expr(), b.expr());
    Some(Ok(Val::Ex(match op {
        "+" => x + y,
        "-" => x - y,
        "*" => x * y,
        "/" => x / y,
        _ => x.pow(y),
    })))
}

fn theme_a(mc: &Arc<Mc>) {
    let all = operands();
    let ops = ["+", "-", "*", "/", "**"];
    let fin = |s: String, r: Option<Result<Val, ()>>, alt: Option<Expr>| -> Option<Case> {
        match r? {
            Ok(v) => Some((s, if v.sym() { E(v.expr()) } else { return None })),
            Result::Err(()) => Some((s, alt.map_or(Err(None), |e| One(vec![Err(None), E(e)])))),
        }
    };
    let m = all.len() as u64;
    theme(mc, "two operands", 5 * m * m * 4, 64, |i| {
        let (op, a, b, form) = (ops[(i % 5) as usize], &all[(i / 5 % m) as usize], &all[(i / 5 / m % m) as usize], i / 5 / m / m);
        let r = bin(op, &a.1, &b.1);
        let alt = matches!(a.1, Val::St(_)).then(|| bin(op, &Val::Ex(a.1.expr()), &b.1).unwrap().ok().unwrap().expr());
        match form {
            0 => fin(format!("({}){op}({})", a.0, b.0), r, alt),
            1 => match r? {
                Ok(v) => Some((format!("-(({}){op}({}))", a.0, b.0), E(-v.expr()))),
                _ => None,
            },
            2 => {
                // the operand negated
                let nb = match &b.1 {
                    Val::St(_) => return None,
                    Val::Nu(n) => Val::Nu(-n),
                    s => Val::Ex(-s.expr()),
                };
                if b.0 == "True" {
                    return None;
                }
                match bin(op, &a.1, &nb)? {
                    Ok(v) => Some((format!("({}){op}(-({}))", a.0, b.0), E(v.expr()))),
                    _ => None,
                }
            }
            _ => {
                // through an augmented assignment
                match r? {
                    Ok(v) => Some((format!("t={}\x1et{op}={}\x1et", a.0, b.0), E(v.expr()))),
                    _ => None,
                }
            }
        }
    });
    let k = if mc.thorough { 16 } else { 11u64 };
    theme(mc, "three operands", 2 * 25 * k * k * k, 128, |i| {
        let (shape, o1, o2) = (i % 2, ops[(i / 2 % 5) as usize], ops[(i / 10 % 5) as usize]);
        let j = i / 50;
        let (a, b, c) = (&all[(j % k) as usize], &all[(j / k % k) as usize], &all[(j / k / k) as usize]);
        let (s, r) = if shape == 0 {
            let l = bin(o1, &a.1, &b.1)?.ok()?;
            (format!("(({}){o1}({})){o2}({})", a.0, b.0, c.0), bin(o2, &l, &c.1))
        } else {
            let r = bin(o2, &b.1, &c.1)?.ok()?;
            (format!("({}){o1}(({}){o2}({}))", a.0, b.0, c.0), bin(o1, &a.1, &r))
        };
        match r? {
            Ok(v) => Some((s, E(v.expr()))),
            _ => None,
        }
    });
    // what a value is, by every route
    let asks: Vec<(&str, fn(&Val) -> W)> = vec![
        ("Expr({})", |a| E(a.expr())),
        ("str({})", |a| T(a.expr().to_string())),
        ("Expr({}).is_symbol()", |a| B(matches!(a.expr().view(), ExprView::Symbol(_)))),
        ("Expr({}).is_number()", |a| B(a.expr().as_number().is_some())),
        ("float(Expr({}))", |a| a.expr().as_number().map_or(Err(None), F)),
        ("Expr({}).is_zero()", |a| B(a.expr().as_number() == Some(0.0))),
        ("Expr({}).is_one()", |a| B(a.expr().as_number() == Some(1.0))),
        ("Expr({}).node_count()", |a| I(a.expr().node_count() as i64)),
        ("Expr({}).max_depth()", |a| I(a.expr().max_depth() as i64)),
        ("simplify(str(Expr({})))", |a| wt(simplify(&a.expr().to_string(), &[], None))),
    ];
    let extra: Vec<(String, Val)> = all
        .iter()
        .map(|(s, v)| (s.to_string(), v.clone()))
        .chain([1.0, 1e-300, -0.0, 1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1.5, 1e-17, 123456789.125].iter().map(|x| (pf(*x), Val::Nu(*x))))
        .chain([("2**70".to_string(), Val::Nu(2f64.powi(70))), ("-2**60-1".to_string(), Val::Nu(-(2f64.powi(60)) - 1.0)), ("False".to_string(), Val::Nu(0.0)), ("np.float32(0.5)".to_string(), Val::Nu(0.5))])
        .collect();
    theme(mc, "values", extra.len() as u64 * asks.len() as u64, 16, |i| {
        let (a, f) = (&extra[i as usize / asks.len()], &asks[i as usize % asks.len()]);
        if f.0.starts_with("str(") && !a.1.sym() {
            return None;
        }
        Some((f.0.replace("{}", &a.0), f.1(&a.1)))
    });
    // equality and hashing, every ordered pair of symbolic values
    let mut es: Vec<(String, Expr, bool)> = vec![];
    for s in ["x", "y", "x+y", "y+x", "x*y", "x-y", "x^2", "x*x", "2*x", "sin(x)", "x/y", "1", "x^2+2*x+1", "1+2*x+x*x"] {
        es.push((format!("parse({})", q(s)), p(s), false));
    }
    for (s, e) in [("Expr('x')*Expr('x')", symb("x").to_expr() * symb("x").to_expr()), ("symb('x')+symb('y')", symb("x") + symb("y")), ("symb('y')+symb('x')", symb("y") + symb("x")), ("Expr(1)", Expr::number(1.0))] {
        es.push((s.into(), e, false));
    }
    for s in ["x", "y"] {
        es.push((format!("symb({})", q(s)), symb(s).to_expr(), true));
        es.push((format!("Symbol({})", q(s)), symb(s).to_expr(), true));
    }
    let m = es.len() as u64;
    theme(mc, "equality", m * m, 32, |i| {
        let (a, b) = (&es[(i % m) as usize], &es[(i / m) as usize]);
        let eq = a.1 == b.1;
        let s = format!("a={}\x1eb={}\x1e[a==b,b==a,a!=b,hash(a)==hash(b) or a!=b,len({{a,b}}),{{a:1}}.get(b)]", a.0, b.0);
        Some((s, L(vec![B(eq), B(eq), B(!eq), B(true), I(if eq { 1 } else { 2 }), if eq { I(1) } else { N }])))
    });
    theme(mc, "inequality with others", m * 8, 16, |i| {
        let (a, b) = (&es[(i % m) as usize], ["None", "'x'", "object()", "[1]", "Dual(1.0,0.0)", "Diff()", "Context()", "1.5"][(i / m) as usize]);
        Some((format!("a={}\x1e[a==({b}),a!=({b}),({b})==a]", a.0), L(vec![B(false), B(true), B(false)])))
    });
}

// ---------------------------------------------------------------- B: methods

const UN: [&str; 48] = [
    "sin", "cos", "tan", "cot", "sec", "csc", "asin", "acos", "atan", "acot", "asec", "acsc", "sinh", "cosh", "tanh", "coth", "sech", "csch", "asinh", "acosh",
    "atanh", "acoth", "asech", "acsch", "exp", "ln", "log10", "log2", "sqrt", "cbrt", "abs", "signum", "sinc", "erf", "erfc", "gamma", "digamma", "trigamma",
    "tetragamma", "floor", "ceil", "round", "elliptic_k", "elliptic_e", "exp_polar", "zeta", "lambertw", "to_expr",
];
const BI: [&str; 11] = ["log", "polygamma", "beta", "besselj", "bessely", "besseli", "besselk", "pow", "atan2", "hermite", "zeta_deriv"];

fn method(name: &str, e: Expr, a: &[Expr]) -> Expr {
    macro_rules! un { ($($m:ident),*) => { match name { $(stringify!($m) => return e.$m(),)* _ => {} } } }
    macro_rules! bi { ($($m:ident),*) => { match name { $(stringify!($m) => return e.$m(a[0].clone()),)* _ => {} } } }
    match a.len() {
        0 => un!(
            sin, cos, tan, cot, sec, csc, asin, acos, atan, acot, asec, acsc, sinh, cosh, tanh, coth, sech, csch, asinh, acosh, atanh, acoth, asech, acsch, exp, ln,
            log10, log2, sqrt, cbrt, abs, signum, sinc, erf, erfc, gamma, digamma, trigamma, tetragamma, floor, ceil, round, elliptic_k, elliptic_e, exp_polar, zeta,
            lambertw
        ),
        1 => {
            bi!(polygamma, beta, besselj, bessely, besseli, besselk, log);
            match name {
                "pow" => return e.pow(a[0].clone()),
                "atan2" => return Expr::func_multi("atan2", vec![e, a[0].clone()]),
                _ => return Expr::func_multi(name, vec![a[0].clone(), e]),
            }
        }
        2 => return Expr::func_multi(name, vec![a[0].clone(), a[1].clone(), e]),
        _ => return Expr::func_multi(name, vec![a[0].clone(), a[1].clone(), e, a[2].clone()]),
    }
    e // to_expr
}

fn theme_b(mc: &Arc<Mc>) {
    let nums: Vec<f64> = vec![0.0, 1.0, 2.0, -1.0, 0.5, -0.5, 3.0, -2.0, 1.5, -0.3678794, -0.5e-1, 10.0, 0.999, 1.001, -0.999, -1.001, 2.5, 1e-5, 171.5];
    let mut recv: Vec<(String, Expr, bool)> = vec![
        ("symb('x')".into(), symb("x").to_expr(), true),
        ("Expr('x')".into(), symb("x").to_expr(), false),
        ("parse('x^2+y')".into(), p("x^2+y"), false),
        ("parse('-x')".into(), p("-x"), false),
        ("(Expr('x')/symb('y'))".into(), symb("x") / symb("y"), false),
    ];
    for x in &nums {
        recv.push((format!("Expr({})", pf(*x)), Expr::number(*x), false));
    }
    let mut args: Vec<(String, Expr)> = vec![
        ("symb('y')".into(), symb("y").to_expr()),
        ("Expr('z')".into(), symb("z").to_expr()),
        ("'a'".into(), symb("a").to_expr()),
        ("0".into(), Expr::number(0.0)),
        ("1".into(), Expr::number(1.0)),
        ("2".into(), Expr::number(2.0)),
        ("-1".into(), Expr::number(-1.0)),
        ("0.5".into(), Expr::number(0.5)),
        ("np.float64(3.0)".into(), Expr::number(3.0)),
        ("Expr(-2)".into(), Expr::number(-2.0)),
    ];
    if mc.thorough {
        for x in [-0.5, 1.0000001, 4.0, 10.0, 1e-5] {
            args.push((pf(x), Expr::number(x)));
        }
    }
    // a domain error may be reported where the function has no finite value
    let judge = |s: String, e: Expr, all_numeric: bool| -> Case {
        let has_value = !all_numeric || at(&e, &P1).is_some_and(|x| x.is_finite());
        (s, if has_value { E(e) } else { One(vec![E(e), Err(None)]) })
    };
    let known = |e: &Expr| e.as_number().is_some();
    // these take whole orders; any other number may be refused
    let odd = |name: &str, first: &Expr| {
        ["polygamma", "hermite", "zeta_deriv", "assoc_legendre", "spherical_harmonic", "ynm"].contains(&name) && first.as_number().is_some_and(|n| n.fract() != 0.0)
    };
    theme(mc, "methods", recv.len() as u64 * UN.len() as u64, 32, |i| {
        let (r, m) = (&recv[i as usize / UN.len()], UN[i as usize % UN.len()]);
        if m == "to_expr" && !r.2 {
            return None;
        }
        let e = if m == "to_expr" { r.1.clone() } else { method(m, r.1.clone(), &[]) };
        Some(judge(format!("{}.{m}()", r.0), e, known(&r.1)))
    });
    let k = args.len();
    theme(mc, "methods with an argument", (recv.len() * BI.len() * k) as u64, 64, |i| {
        let i = i as usize;
        let (r, m, a) = (&recv[i / BI.len() / k], BI[i / k % BI.len()], &args[i % k]);
        if m == "pow" && r.2 {
            return None;
        }
        let e = method(m, r.1.clone(), &[a.1.clone()]);
        if odd(m, &a.1) {
            return Some((format!("{}.{m}({})", r.0, a.0), One(vec![E(e), Err(None)])));
        }
        // these are judged by what any one numeric argument rules out
        let ruled = known(&r.1) || known(&a.1);
        let has = if known(&r.1) && known(&a.1) { false } else { !ruled };
        let c = judge(format!("{}.{m}({})", r.0, a.0), e.clone(), !has);
        // with one argument symbolic: an error is only right if no value of the other gives a number
        if ruled && !(known(&r.1) && known(&a.1)) {
            let some = [0.5, 1.0, 2.0, 3.0, -0.5].iter().any(|t| {
                let pt: Vec<(&str, f64)> = ["x", "y", "z", "a"].iter().map(|s| (*s, *t)).collect();
                at(&e, &pt).is_some_and(|x| x.is_finite())
            });
            return Some((c.0, if some { E(e) } else { One(vec![E(e), Err(None)]) }));
        }
        Some(c)
    });
    let r3: Vec<&(String, Expr, bool)> = recv.iter().filter(|r| ["symb('x')", "Expr('x')", "parse('x^2+y')", "Expr(0.5)", "Expr(-1.0)", "Expr(1.5)", "Expr(0.0)", "Expr(1.0)"].contains(&r.0.as_str())).collect();
    let pts = |e: &Expr| {
        [0.5, 1.0, 0.0, 2.0, -0.5].iter().any(|t| {
            let pt: Vec<(&str, f64)> = ["x", "y", "z", "a"].iter().map(|s| (*s, *t)).collect();
            at(e, &pt).is_some_and(|x| x.is_finite())
        })
    };
    theme(mc, "associated Legendre", (r3.len() * k * k) as u64, 64, |i| {
        let i = i as usize;
        let (r, l, m) = (r3[i / k / k], &args[i / k % k], &args[i % k]);
        let e = method("assoc_legendre", r.1.clone(), &[l.1.clone(), m.1.clone()]);
        Some((format!("{}.assoc_legendre({},{})", r.0, l.0, m.0), if pts(&e) && !odd("ynm", &l.1) { E(e) } else { One(vec![E(e), Err(None)]) }))
    });
    theme(mc, "spherical harmonics", (2 * r3.len() * k * k * 4) as u64, 64, |i| {
        let i = i as usize;
        let (name, ph) = (["spherical_harmonic", "ynm"][i % 2], &args[[0, 2, 4, 7][i / 2 % 4]]);
        let j = i / 8;
        let (r, l, m) = (r3[j / k / k], &args[j / k % k], &args[j % k]);
        let e = method(name, r.1.clone(), &[l.1.clone(), m.1.clone(), ph.1.clone()]);
        Some((format!("{}.{name}({},{},{})", r.0, l.0, m.0, ph.0), if pts(&e) && !odd("ynm", &l.1) { E(e) } else { One(vec![E(e), Err(None)]) }))
    });
}

// ---------------------------------------------------------------- C: functions of texts

fn opt(v: &Option<Vec<&str>>) -> String {
    v.as_ref().map_or("None".into(), |v| qs(v))
}

fn theme_c(mc: &Arc<Mc>) {
    let toks = ["x", "y", "2", "+", "*", "^", "(", ")", "sin(", "-", "/", ",", "alpha", "f(", "@", "é", "1.5.2", " ", "e", "1e", "."];
    let m = toks.len() as u64;
    let len = if mc.thorough { 4 } else { 3u32 };
    for l in 0..=len {
        let total = m.pow(l);
        let fns = if l < 4 { 5 } else { 2 };
        theme(mc, &format!("texts of {l} tokens"), total * fns, 128, |i| {
            let mut j = i / fns;
            let mut s = String::new();
            for _ in 0..l {
                s.push_str(toks[(j % m) as usize]);
                j /= m;
            }
            Some(match i % fns {
                0 => (format!("parse({})", q(&s)), we(rparse(&s, &[], &[]))),
                1 => (format!("diff({},'x')", q(&s)), wt(diff(&s, "x", &[], None))),
                2 => (format!("simplify({})", q(&s)), wt(simplify(&s, &[], None))),
                3 => (format!("parse({},['alpha'],['f'])", q(&s)), we(rparse(&s, &["alpha"], &["f"]))),
                _ => (format!("evaluate_str({},[('x',2.0)])", q(&s)), wt(evaluate_str(&s, &[("x", 2.0)]))),
            })
        });
    }
    let formulas = ["x", "2*x", "alpha*x", "alphax", "f(x)", "f(x,y)", "x^2+y", "f(alpha)*x", "g(x)+f(y)", "xy", "sin(x)*y", "", "x+", "x y", "fx", "f(x", "alpha", "x^f(x)", "1/x", "exp(alpha*x)"];
    let known: Vec<Option<Vec<&str>>> = vec![None, Some(vec![]), Some(vec!["alpha"]), Some(vec!["x"]), Some(vec!["alpha", "xy"]), Some(vec!["f"]), Some(vec![""])];
    let custom: Vec<Option<Vec<&str>>> = vec![None, Some(vec![]), Some(vec!["f"]), Some(vec!["f", "g"]), Some(vec!["x"]), Some(vec!["sin"])];
    let vars = ["x", "y", "alpha", "f", ""];
    theme(mc, "options", (formulas.len() * known.len() * custom.len() * (vars.len() + 2) * 2) as u64, 64, |i| {
        let i = i as usize;
        let (kw, i) = (i % 2, i / 2);
        let f = formulas[i % formulas.len()];
        let j = i / formulas.len();
        let (k, c) = (&known[j % known.len()], &custom[j / known.len() % custom.len()]);
        let w = j / known.len() / custom.len();
        let ks: Vec<&str> = k.clone().unwrap_or_default();
        let cs = c.clone();
        let tail = if kw == 0 { format!("{},{}", opt(k), opt(c)) } else { format!("custom_functions={},known_symbols={}", opt(c), opt(k)) };
        Some(if w < vars.len() {
            (format!("diff({},{},{tail})", q(f), q(vars[w])), wt(diff(f, vars[w], &ks, cs.as_deref())))
        } else if w == vars.len() {
            (format!("simplify({},{tail})", q(f)), wt(simplify(f, &ks, cs.as_deref())))
        } else {
            (format!("parse({},{tail})", q(f)), we(rparse(f, &ks, cs.as_deref().unwrap_or(&[]))))
        })
    });
}

// ---------------------------------------------------------------- D: operations on expressions

fn tree_w(e: &Expr) -> W {
    let t = |s: &str| T(s.to_string());
    let (kind, value, name, dv, dor, flag, kids): (&str, W, W, W, W, i64, Vec<Expr>) = match e.view() {
        ExprView::Number(x) => ("Number", F(x), N, N, N, 0, vec![]),
        ExprView::Symbol(s) => ("Symbol", N, t(&s), N, N, 1, vec![]),
        ExprView::Sum(v) => ("Sum", N, N, N, N, 2, v.iter().map(|a| (**a).clone()).collect()),
        ExprView::Product(v) => ("Product", N, N, N, N, 3, v.iter().map(|a| (**a).clone()).collect()),
        ExprView::Div(a, b) => ("Div", N, N, N, N, 4, vec![a.clone(), b.clone()]),
        ExprView::Pow(a, b) => ("Pow", N, N, N, N, 5, vec![a.clone(), b.clone()]),
        ExprView::Function { name, args } => ("Function", N, t(name), N, N, 6, args.iter().map(|a| (**a).clone()).collect()),
        ExprView::Derivative { inner, var, order } => ("Derivative", N, N, t(var), I(order as i64), 7, vec![inner.clone()]),
    };
    L(vec![t(kind), value, name, dv, dor, I(flag), I(1), B(true), L(kids.iter().map(tree_w).collect())])
}

fn theme_d(mc: &Arc<Mc>) {
    let al = Alpha { leaves: vec![v("x"), v("y"), n(2.0), n(0.5)], un: vec!["sin", "exp"], neg: true, bin: "+-*/^", bfn: vec!["log"] };
    let size = if mc.thorough { 6 } else { 5 };
    let mut ts: Vec<String> = al.levels(size).into_iter().flatten().map(|t: A| t.text()).collect();
    for s in ["f(x)", "f(x,y)", "∂_f(x)/∂_x", "x^2+2*x*y+y^2", "3*x^5-2*x^3+x-7", "sqrt(x)*abs(y)", "atan2(y,x)", "alpha*x+z", "ynm(2,1,x,y)", "1e300*x", "x*y*z*a"] {
        ts.push(s.to_string());
    }
    type Op = (&'static str, fn(&Expr) -> W);
    fn nodes(e: &Expr) -> i64 {
        let mut c = NodeCounter::default();
        visitor::walk_expr(e, &mut c);
        c.count as i64
    }
    fn vars(e: &Expr) -> Vec<String> {
        let mut c = VariableCollector::default();
        visitor::walk_expr(e, &mut c);
        c.variable_names().into_iter().collect()
    }
    let ops: Vec<Op> = vec![
        ("e", |e| E(e.clone())),
        ("tree(e)", tree_w),
        ("[e.node_count(),e.max_depth(),count_nodes(e),collect_variables(e),e.is_symbol(),e.is_number(),str(e),repr(e).endswith('('+str(e)+')'),len(repr(e.view()))>0]", |e| {
            L(vec![
                I(e.node_count() as i64),
                I(e.max_depth() as i64),
                I(nodes(e)),
                Z(vars(e)),
                B(matches!(e.view(), ExprView::Symbol(_))),
                B(e.as_number().is_some()),
                T(e.to_string()),
                B(true),
                B(true),
            ])
        }),
        ("[e.diff('x'),e.diff('y')]", |e| L(["x", "y"].iter().map(|v| we(Diff::new().differentiate(e, &symb(v)))).collect())),
        ("[e.simplify(),Simplify().simplify(e)]", |e| {
            let s = we(Simplify::new().simplify(e));
            L(vec![s.clone(), s])
        }),
        ("[e.substitute('x',3),e.substitute('x',Expr('y')+1),e.substitute('y',symb('x')),e.substitute('x','z'),e.substitute('q',1.5)]", |e| {
            L(vec![
                E(e.substitute("x", &Expr::number(3.0))),
                E(e.substitute("x", &(symb("y") + 1.0))),
                E(e.substitute("y", &symb("x").to_expr())),
                E(e.substitute("x", &symb("z").to_expr())),
                E(e.substitute("q", &Expr::number(1.5))),
            ])
        }),
        ("[e.evaluate({'x':2.0,'y':3.5}),evaluate(e,[('y',-1.0),('x',0.25)]),e.evaluate({'x':2}),evaluate(e,[]),e.evaluate({'q':1.0,'y':0.0})]", |e| {
            let ev = |v: &[(&str, f64)]| E(e.evaluate(&v.iter().copied().collect::<HashMap<&str, f64>>(), &HashMap::new()));
            L(vec![ev(&[("x", 2.0), ("y", 3.5)]), ev(&[("y", -1.0), ("x", 0.25)]), ev(&[("x", 2.0)]), ev(&[]), ev(&[("q", 1.0), ("y", 0.0)])])
        }),
        ("[gradient(e,['x','y']),gradient(e,['y']),gradient(e,[]),hessian(e,['x','y']),hessian(e,['y','x']),jacobian([e,e+1],['y','x'])]", |e| {
            let g = |v: &[&str]| {
                let s: Vec<Symbol> = v.iter().map(|v| symb(v)).collect();
                re(gradient(e, &s.iter().collect::<Vec<_>>()), |g| L(g.into_iter().map(E).collect()))
            };
            let h = |v: &[&str]| {
                let s: Vec<Symbol> = v.iter().map(|v| symb(v)).collect();
                re(hessian(e, &s.iter().collect::<Vec<_>>()), |g| L(g.into_iter().map(|r| L(r.into_iter().map(E).collect())).collect()))
            };
            let (x, y) = (symb("x"), symb("y"));
            let j = re(jacobian(&[e.clone(), e.clone() + 1.0], &[&y, &x]), |g| L(g.into_iter().map(|r| L(r.into_iter().map(E).collect())).collect()));
            L(vec![g(&["x", "y"]), g(&["y"]), g(&[]), h(&["x", "y"]), h(&["y", "x"]), j])
        }),
        ("CompiledEvaluator(e,['y','x']).evaluate([0.3,1.7])", |e| re(CompiledEvaluator::compile(e, &["y", "x"], None), |c| F(c.evaluate(&[0.3, 1.7])))),
    ];
    theme(mc, "operations on expressions", ts.len() as u64 * ops.len() as u64, 32, |i| {
        let (t, o) = (&ts[i as usize / ops.len()], &ops[i as usize % ops.len()]);
        let Ok(e) = lib_parse(t) else { return None };
        Some((format!("e=parse({})\x1e{}", q(t), o.0), (o.1)(&e)))
    });
}

// ---------------------------------------------------------------- E, F: numeric evaluation

fn safe(f: impl FnOnce() -> W) -> W {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or(Err(None))
}

/// The ways of handing a column of numbers over: program text, whether it is a NumPy array of
/// floats, whether the interface may also refuse it.
fn column(form: usize, d: &[f64]) -> (String, bool, bool) {
    let l = pfs(d);
    match form {
        0 => (l, false, false),
        1 => (format!("np.array({l},dtype=float)"), true, false),
        2 => (format!("tuple({l})"), false, true),
        3 => (format!("np.repeat(np.array({l},dtype=float),2)[::2]"), true, true),
        4 => (format!("np.array({l},dtype=float)[::-1][::-1]"), true, true),
        5 => (format!("np.concatenate([[9.5],{l},[7.5]])[1:-1]"), true, true),
        6 => (format!("[int(t) if t==int(t) else t for t in {l}]"), false, false),
        7 => (format!("[np.float64(t) for t in {l}]"), false, false),
        _ => (format!("np.array({l},dtype=np.float32)"), true, true),
    }
}
const FORMS: usize = 9;

fn theme_e(mc: &Arc<Mc>) {
    let formulas = ["x", "x-y", "x^2+y/z", "sin(x)+y", "2", "q+x", "f(x)+y", "x^3-2*x^2+5*x-1", "z^y-x"];
    let params: Vec<Option<Vec<&str>>> = vec![
        None,
        Some(vec![]),
        Some(vec!["x"]),
        Some(vec!["x", "y"]),
        Some(vec!["y", "x"]),
        Some(vec!["x", "y", "z"]),
        Some(vec!["z", "x", "y"]),
        Some(vec!["y", "z", "x"]),
        Some(vec!["x", "q"]),
        Some(vec!["x", "x"]),
        Some(vec!["a", "x", "y", "z"]),
        Some(vec![""]),
    ];
    let vals = [0.5, 2.0, -1.25, 3.0, 0.75];
    theme(mc, "compiled evaluation", (formulas.len() * params.len() * 6 * FORMS) as u64, 64, |i| {
        let i = i as usize;
        let (form, len, f, pr) = (i % FORMS, i / FORMS % 6, formulas[i / FORMS / 6 % formulas.len()], &params[i / FORMS / 6 / formulas.len()]);
        if len == 5 && form > 0 {
            return None;
        }
        let e = rparse(f, &[], &["f"]).ok()?;
        let d: Vec<f64> = if form == 8 { vals[..len].iter().map(|x| *x as f32 as f64).collect() } else { vals[..len].to_vec() };
        let w = safe(|| {
            let c = match pr {
                None => CompiledEvaluator::compile_auto(&e, None),
                Some(p) => CompiledEvaluator::compile(&e, p, None),
            };
            re(c, |c| {
                L(vec![
                    L(c.param_names().iter().map(|s| T(s.clone())).collect()),
                    I(c.param_names().len() as i64),
                    I(c.instruction_count() as i64),
                    I(c.stack_size() as i64),
                    F(c.evaluate(&d)),
                ])
            })
        });
        let (col, _, may) = column(form, &d);
        let s = format!("c=CompiledEvaluator(parse({},None,['f']),{})\x1e[c.param_names(),c.param_count(),c.instruction_count(),c.stack_size(),c.evaluate({col})]", q(f), opt(pr));
        Some((s, if may { One(vec![w, Err(None)]) } else { w }))
    });
    // batches: every assignment of a form and a length to each of two columns
    let lens = [0usize, 1, 2, 3, 5, 9];
    let two = ["x-2*y", "x^2/y", "3", "x", "y*sin(x)"];
    let data = |c: usize, l: usize| -> Vec<f64> { (0..l).map(|k| if c == 0 { 0.5 + k as f64 } else { 4.0 - 0.75 * k as f64 }).collect() };
    let m = (lens.len() * FORMS) as u64;
    theme(mc, "batch evaluation", two.len() as u64 * m * m, 64, |i| {
        let f = two[(i % two.len() as u64) as usize];
        let j = i / two.len() as u64;
        let (a, b) = ((j % m) as usize, (j / m) as usize);
        let (l1, f1, l2, f2) = (lens[a % lens.len()], a / lens.len(), lens[b % lens.len()], b / lens.len());
        if !mc.thorough && l1 != l2 && (f1 > 1 || f2 > 1) {
            return None;
        }
        let (c1, c2) = (data(0, l1), data(1, l2));
        let w = |arr: bool| {
            safe(|| {
                let c = CompiledEvaluator::compile(&p(f), &["x", "y"], None).unwrap();
                let mut out = vec![0.0; l1];
                re(c.eval_batch(&[&c1, &c2], &mut out, None), |()| if arr { Arr(vec![l1], out) } else { L(out.into_iter().map(F).collect()) })
            })
        };
        let ((t1, n1, m1), (t2, n2, m2)) = (column(f1, &c1), column(f2, &c2));
        let s = format!("CompiledEvaluator(parse({}),['x','y']).eval_batch([{t1},{t2}])", q(f));
        Some((s, if m1 || m2 { One(vec![w(true), w(false), Err(None)]) } else { w(n1 || n2) }))
    });
    let one = ["x", "x^2-1", "7", "1/x"];
    theme(mc, "batch of one column", (one.len() * FORMS * 14 * 4) as u64, 32, |i| {
        let i = i as usize;
        let (f, form, l, cols) = (one[i % one.len()], i / one.len() % FORMS, [0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 255, 256, 257, 600][i / one.len() / FORMS % 14], i / one.len() / FORMS / 14);
        let d = data(0, l);
        let c = CompiledEvaluator::compile(&p(f), &["x"], None).unwrap();
        let w = |arr: bool| {
            safe(|| {
                let cs: Vec<&[f64]> = vec![&d; cols];
                let mut out = vec![0.0; if cols == 0 { 1 } else { l }];
                re(c.eval_batch(&cs, &mut out, None), |()| if arr { Arr(vec![out.len()], out) } else { L(out.into_iter().map(F).collect()) })
            })
        };
        let (t, n, may) = column(form, &d);
        let s = format!("d={t}\x1eCompiledEvaluator(parse({}),['x']).eval_batch([d]*{cols})", q(f));
        Some((s, if may { One(vec![w(true), w(false), Err(None)]) } else { w(n && cols > 0) }))
    });
}

fn theme_f(mc: &Arc<Mc>) {
    use symb_anafis::parallel::{evaluate_parallel, EvalResult, ExprInput, Value, VarInput};
    // columns with and without gaps
    let cols: Vec<Vec<Option<f64>>> = vec![
        vec![],
        vec![Some(2.0)],
        vec![None],
        vec![Some(1.5), Some(-2.0)],
        vec![Some(1.5), None],
        vec![None, Some(0.5), Some(3.0)],
        vec![Some(4.0), Some(5.0), Some(6.0)],
    ];
    let ctext = |c: &[Option<f64>], form: usize| -> Option<String> {
        let l = format!("[{}]", c.iter().map(|x| x.map_or("None".into(), pf)).collect::<Vec<_>>().join(","));
        match form {
            0 => Some(l),
            1 => c.iter().all(|x| x.is_some()).then(|| format!("np.array({l},dtype=float)")),
            _ => Some(format!("tuple({l})")),
        }
    };
    let val = |c: &[Option<f64>]| -> Vec<Value> { c.iter().map(|x| x.map_or(Value::Skip, Value::Num)).collect() };
    let exprs = ["x+y", "x*2", "3", "x^y", "", "y", "sin(x)/y", "inf*x", "x+"];
    let vars: [&[&str]; 6] = [&["x", "y"], &["x"], &["y", "x"], &["y"], &[], &["x", "q"]];
    let result = |r: Vec<Vec<EvalResult>>, parsed: &[bool]| {
        L(r.into_iter()
            .zip(parsed)
            .map(|(r, parsed)| {
                L(r.into_iter()
                    .map(|r| match r {
                        EvalResult::String(s) => s.parse::<f64>().map_or_else(|_| T(s.clone()), |x| One(vec![F(x), T(s.clone())])),
                        EvalResult::Expr(e) => match e.as_number() {
                            Some(x) => F(x),
                            None if *parsed => E(e),
                            None => T(e.to_string()),
                        },
                    })
                    .collect())
            })
            .collect())
    };
    let k = cols.len();
    let total = exprs.len() * 2 * vars.len() * k * k * 4;
    theme(mc, "parallel evaluation", total as u64, 64, |i| {
        let i = i as usize;
        let (f, parsed, forms) = (exprs[i % exprs.len()], i / exprs.len() % 2 == 1, i / exprs.len() / 2 % 4);
        let j = i / exprs.len() / 8;
        let (vs, a, b) = (vars[j % vars.len()], &cols[j / vars.len() % k], &cols[j / vars.len() / k]);
        let used: Vec<&Vec<Option<f64>>> = [a, b].into_iter().take(vs.len().max(1)).collect();
        if vs.len() < 2 && j / vars.len() / k > 0 {
            return None;
        }
        let texts: Vec<String> = used.iter().enumerate().map(|(n, c)| ctext(c, if forms == 3 { 2 } else { forms >> n & 1 })).collect::<Option<_>>()?;
        let (et, inp) = if parsed {
            let e = rparse(f, &[], &[]).ok()?;
            (format!("parse({})", q(f)), ExprInput::Parsed(e))
        } else {
            (q(f), ExprInput::String(f.to_string()))
        };
        let s = format!("evaluate_parallel([{et}],[{}],[[{}]])", qs(vs), texts.join(","));
        let w = safe(|| {
            let r = evaluate_parallel(vec![inp], vec![vs.iter().map(|s| VarInput::from(s.to_string())).collect()], vec![used.iter().map(|c| val(c)).collect()]);
            re(r, |r| result(r, &[parsed]))
        });
        Some((s, if forms == 3 { One(vec![w, Err(None)]) } else { w }))
    });
    // several expressions at once
    let jobs: Vec<(&str, bool, Vec<&str>, Vec<Vec<Option<f64>>>)> = vec![
        ("x+y", false, vec!["x", "y"], vec![vec![Some(1.0), Some(2.0)], vec![Some(3.0), Some(4.0)]]),
        ("x+y", true, vec!["x", "y"], vec![vec![Some(1.0), None], vec![Some(3.0), Some(4.0)]]),
        ("x^2", true, vec!["x"], vec![vec![Some(5.0), Some(6.0), Some(7.0)]]),
        ("z", false, vec![], vec![]),
        ("5", true, vec![], vec![]),
        ("x/y", false, vec!["y"], vec![vec![Some(2.0)]]),
    ];
    let m = jobs.len();
    theme(mc, "several expressions in parallel", ((m + 1).pow(3) * 5) as u64, 32, |i| {
        let i = i as usize;
        let (cut, j) = (i % 5, i / 5);
        let pick: Vec<_> = [j % (m + 1), j / (m + 1) % (m + 1), j / (m + 1) / (m + 1)].into_iter().filter(|x| *x < m).map(|x| &jobs[x]).collect();
        let es: Vec<String> = pick.iter().map(|p| if p.1 { format!("parse({})", q(p.0)) } else { q(p.0) }).collect();
        let mut vs: Vec<String> = pick.iter().map(|p| qs(&p.2)).collect();
        let mut ds: Vec<String> = pick.iter().map(|p| format!("[{}]", p.3.iter().map(|c| ctext(c, 0).unwrap()).collect::<Vec<_>>().join(","))).collect();
        let mut rv: Vec<Vec<VarInput>> = pick.iter().map(|p| p.2.iter().map(|s| VarInput::from(s.to_string())).collect()).collect();
        let mut rd: Vec<Vec<Vec<Value>>> = pick.iter().map(|p| p.3.iter().map(|c| val(c)).collect()).collect();
        match cut {
            1 => {
                vs.pop()?;
                rv.pop();
            }
            2 => {
                ds.pop()?;
                rd.pop();
            }
            3 => {
                vs.push("['x']".into());
                rv.push(vec![VarInput::from("x".to_string())]);
            }
            4 => {
                ds.push("[[1.0]]".into());
                rd.push(vec![vec![Value::Num(1.0)]]);
            }
            _ => {}
        }
        let s = format!("evaluate_parallel([{}],[{}],[{}])", es.join(","), vs.join(","), ds.join(","));
        let parsed: Vec<bool> = pick.iter().map(|p| p.1).collect();
        let inp = pick.iter().map(|p| if p.1 { ExprInput::Parsed(rparse(p.0, &[], &[]).unwrap()) } else { ExprInput::String(p.0.into()) }).collect();
        // which of several unfit expressions is named depends on the schedule
        let w = safe(|| re(evaluate_parallel(inp, rv, rd), |r| result(r, &parsed)));
        Some((s, if matches!(w, Err(_)) { Err(None) } else { w }))
    });
    theme(mc, "columns of the wrong kind", 14 * 3, 4, |i| {
        let bad = ["['a','b']", "[1.0,'a']", "'12'", "12", "None", "{1.0:2}", "[[1.0]]", "np.array([[1.0,2.0]])", "np.array(['a'])", "[object()]", "{1.0}", "np.array([1,2])", "[1+2j]", "b'12'"][i as usize / 3];
        let s = match i % 3 {
            0 => format!("evaluate_parallel(['x+1'],[['x']],[[{bad}]])"),
            1 => format!("eval_f64([parse('x+1')],[['x']],[[{bad}]])"),
            _ => format!("CompiledEvaluator(parse('x+1')).eval_batch([{bad}])"),
        };
        // refused, or read as the numbers it holds
        let nums = |v: &[f64]| {
            let r: Vec<f64> = v.iter().map(|x| x + 1.0).collect();
            let l = L(r.iter().map(|x| F(*x)).collect());
            vec![Err(None), l.clone(), L(vec![l]), Arr(vec![r.len()], r.clone()), Arr(vec![1, r.len()], r)]
        };
        Some((s, match bad {
            "np.array([1,2])" => One(nums(&[1.0, 2.0])),
            "np.array([[1.0,2.0]])" => One(nums(&[1.0, 2.0])),
            "{1.0}" | "{1.0:2}" => One(nums(&[1.0])),
            "b'12'" => One(nums(&[49.0, 50.0])),
            _ => Err(None),
        }))
    });
    // eval_f64
    let fs = [("x+y", vec!["x", "y"]), ("x^2", vec!["x"]), ("y/x-x", vec!["y", "x"]), ("4", vec![]), ("x", vec!["y"]), ("x*y", vec!["x", "y"])];
    let lens = [0usize, 1, 2, 3, 300];
    let col = |c: usize, l: usize| -> Vec<f64> { (0..l).map(|k| 1.5 + c as f64 * 2.0 + k as f64 * if c == 1 { -0.5 } else { 1.0 }).collect() };
    let m = fs.len() * lens.len();
    theme(mc, "eval_f64", ((m + 1) * (m + 1) * 5) as u64, 32, |i| {
        let i = i as usize;
        let (form, j) = (i % 5, i / 5);
        let pick: Vec<(usize, usize)> = [j % (m + 1), j / (m + 1)].into_iter().filter(|x| *x < m).map(|x| (x % fs.len(), lens[x / fs.len()])).collect();
        let data: Vec<Vec<Vec<f64>>> = pick.iter().map(|(f, l)| (0..fs[*f].1.len()).map(|c| col(c, *l)).collect()).collect();
        let mut any_arr = false;
        let mut k = 0;
        let dt: Vec<String> = data
            .iter()
            .map(|cs| {
                let ts: Vec<String> = cs
                    .iter()
                    .map(|c| {
                        k += 1;
                        let fm = match form {
                            0 => 0,
                            1 => 1,
                            2 => k % 2,
                            3 => 5,
                            _ => 6,
                        };
                        let (t, n, _) = column(fm, c);
                        any_arr |= n;
                        t
                    })
                    .collect();
                format!("[{}]", ts.join(","))
            })
            .collect();
        let es: Vec<Expr> = pick.iter().map(|(f, _)| p(fs[*f].0)).collect();
        let s = format!(
            "eval_f64([{}],[{}],[{}])",
            pick.iter().map(|(f, _)| format!("parse({})", q(fs[*f].0))).collect::<Vec<_>>().join(","),
            pick.iter().map(|(f, _)| qs(&fs[*f].1)).collect::<Vec<_>>().join(","),
            dt.join(",")
        );
        let w = safe(|| {
            let er: Vec<&Expr> = es.iter().collect();
            let vr: Vec<&[&str]> = pick.iter().map(|(f, _)| &fs[*f].1[..]).collect();
            let cr: Vec<Vec<&[f64]>> = data.iter().map(|d| d.iter().map(|c| &c[..]).collect()).collect();
            let dr: Vec<&[&[f64]]> = cr.iter().map(|c| &c[..]).collect();
            re(eval_f64(&er, &vr, &dr), |r| {
                let even = r.iter().all(|c| c.len() == r[0].len());
                let rows = L(r.iter().map(|c| L(c.iter().map(|x| F(*x)).collect())).collect());
                if !any_arr {
                    return rows;
                }
                if even {
                    return Arr(vec![r.len(), r.first().map_or(0, |c| c.len())], r.into_iter().flatten().collect());
                }
                // rows of different lengths do not make a matrix
                let arrs = L(r.iter().map(|c| Arr(vec![c.len()], c.clone())).collect());
                One(vec![rows, arrs])
            })
        });
        // which of several unfit expressions is named depends on the schedule
        let w = if matches!(w, Err(_)) { Err(None) } else { w };
        Some((s, if form == 3 { One(vec![w, Err(None)]) } else { w }))
    });
}

// ---------------------------------------------------------------- G: symbols and contexts

static REG: Mutex<()> = Mutex::new(());

fn theme_g(mc: &Arc<Mc>) {
    // the table of built-in names is made on first use
    let _ = (simplify("sin(x)+x", &[], None), diff("sin(x)*x", "x", &[], None));
    // the operations of one history; c and d are two contexts, r collects results
    let ops: Vec<String> = {
        let mut o = vec![];
        for s in ["p", "k"] {
            for f in ["symb", "symb_new", "symb_get", "symbol_exists", "remove_symbol", "c.symb", "c.symb_new", "c.get_symbol", "c.contains_symbol", "c.remove_symbol"] {
                o.push(format!("{f}({s:?})"));
            }
        }
        for f in ["clear_symbols()", "symbol_count()-n0", "mine()", "c.clear_all()", "c.symbol_count()", "sorted(c.symbol_names())", "c.is_empty()", "d.symb(\"p\")", "Symbol.anon()", "parse(\"p*2\")"] {
            o.push(f.to_string());
        }
        o
    };
    #[derive(Clone)]
    enum R {
        Sym(Symbol),
        W(W),
    }
    fn mine() -> Vec<String> {
        symbol_names().into_iter().filter(|n| n == "p" || n == "k").collect()
    }
    fn step(op: &str, c: &mut Context, d: &Context, n0: usize) -> R {
        let name = op.split('"').nth(1).unwrap_or("");
        let s = |r: Result<Symbol, SymbolError>| match r {
            Ok(s) => R::Sym(s),
            Result::Err(e) => R::W(T(e.to_string())),
        };
        let names = |mut v: Vec<String>| {
            v.sort();
            R::W(L(v.into_iter().map(T).collect()))
        };
        match op.split("(\"").next().unwrap() {
            "symb" => R::Sym(symb(name)),
            "symb_new" => s(symb_new(name)),
            "symb_get" => s(symb_get(name)),
            "symbol_exists" => R::W(B(symbol_exists(name))),
            "remove_symbol" => R::W(B(remove_symbol(name))),
            "c.symb" => R::Sym(c.symb(name)),
            "c.symb_new" => {
                if c.contains_symbol(name) {
                    R::W(Err(None))
                } else {
                    R::Sym(c.symb(name))
                }
            }
            "c.get_symbol" => c.get_symbol(name).map_or(R::W(N), R::Sym),
            "c.contains_symbol" => R::W(B(c.contains_symbol(name))),
            "c.remove_symbol" => R::W(B(c.remove_symbol(name))),
            "d.symb" => R::Sym(d.symb(name)),
            "parse" => R::W(E(p("p*2"))),
            _ => match op {
                "clear_symbols()" => {
                    clear_symbols();
                    R::W(N)
                }
                "symbol_count()-n0" => R::W(I(symbol_count() as i64 - n0 as i64)),
                "mine()" => names(mine()),
                "c.clear_all()" => {
                    c.clear_all();
                    R::W(N)
                }
                "c.symbol_count()" => R::W(I(c.symbol_names().len() as i64)),
                "sorted(c.symbol_names())" => names(c.symbol_names()),
                "c.is_empty()" => R::W(B(c.symbol_names().is_empty())),
                "Symbol.anon()" => R::Sym(Symbol::anon()),
                _ => unreachable!("{op}"),
            },
        }
    }
    let m = ops.len() as u64;
    let depth = if mc.thorough { 4 } else { 3u32 };
    for len in 1..=depth {
        theme(mc, &format!("histories of {len} operations"), m.pow(len), 256, |i| {
            let mut j = i;
            let h: Vec<&String> = (0..len)
                .map(|_| {
                    let o = &ops[(j % m) as usize];
                    j /= m;
                    o
                })
                .collect();
            let mut src = String::from("clear_symbols()\x1en0=symbol_count()\x1emine=lambda:sorted(n for n in symbol_names() if n in ('p','k'))\x1ec=Context();d=Context();r=[]\x1e");
            for o in &h {
                if o.contains("_new") || o.starts_with("symb_get") {
                    // the exception's text is the answer
                    let bare = o.starts_with("c.");
                    src.push_str(&format!("try: r.append({o})\x1fexcept ValueError as e: r.append({})\x1e", if bare { "'refused'".into() } else { "str(e)".to_string() }));
                } else {
                    src.push_str(&format!("r.append({o})\x1e"));
                }
            }
            src.push_str("s=[t for t in r if isinstance(t,Symbol)]\x1e");
            src.push_str("[r,[[a==b for b in s] for a in s],[[hash(a)==hash(b) for b in s if a==b].count(False) for a in s],[str(t+1) if t.name() else 0 for t in s],mine(),sorted(c.symbol_names())]");
            let _lock = REG.lock().unwrap_or_else(|e| e.into_inner());
            clear_symbols();
            let n0 = symbol_count();
            let (mut c, d) = (Context::new(), Context::new());
            let rs: Vec<R> = h.iter().map(|o| step(o, &mut c, &d, n0)).collect();
            let syms: Vec<&Symbol> = rs.iter().filter_map(|r| if let R::Sym(s) = r { Some(s) } else { None }).collect();
            let sorted = |mut v: Vec<String>| {
                v.sort();
                L(v.into_iter().map(T).collect())
            };
            let w = L(vec![
                L(rs.iter()
                    .map(|r| match r {
                        R::Sym(s) => S(s.name()),
                        R::W(Err(None)) => T("refused".into()),
                        R::W(w) => w.clone(),
                    })
                    .collect()),
                L(syms.iter().map(|a| L(syms.iter().map(|b| B(a == b)).collect())).collect()),
                L(syms.iter().map(|_| I(0)).collect()),
                L(syms.iter().map(|s| if s.name().is_some_and(|n| !n.is_empty()) { T((s.to_expr() + 1.0).to_string()) } else { I(0) }).collect()),
                sorted(mine()),
                sorted(c.symbol_names()),
            ]);
            Some((src, w))
        });
    }
}

// ---------------------------------------------------------------- H: user functions

type Body = fn(&[Arc<Expr>]) -> Expr;
fn a0(a: &[Arc<Expr>]) -> Expr {
    (*a[0]).clone()
}

fn theme_h(mc: &Arc<Mc>) {
    // callbacks: (program text, the Rust equivalent; None: the callback is refused or raises)
    let one: Vec<(&str, Option<Body>)> = vec![
        ("lambda a: a[0]**2", Some(|a| a0(a).pow(2.0))),
        ("lambda a: 2*a[0]", Some(|a| 2.0 * a0(a))),
        ("lambda a: a[0].sin()/3", Some(|a| a0(a).sin() / 3.0)),
        ("lambda a: 3", Some(|_| Expr::number(3.0))),
        ("lambda a: 1.5", Some(|_| Expr::number(1.5))),
        ("lambda a: symb('y')", Some(|_| symb("y").to_expr())),
        ("lambda a: np.float64(0.5)", Some(|_| Expr::number(0.5))),
        ("lambda a: parse('y')*a[0]", Some(|a| symb("y") * a0(a))),
        ("lambda a: a[0]", Some(a0)),
        ("boom", None),
        ("lambda a: None", None),
        ("lambda: 1", None),
        ("lambda a: [a[0]]", None),
        ("lambda a: a[1]", None),
        ("7", None),
    ];
    let formulas = ["f(x)", "x*f(x)", "f(x^2)", "f(f(x))", "x+1", "f(y)", "f(3)", "exp(f(2*x))", "f(x,y)", "f(x)/f(y)"];
    let k = one.len();
    // body b and partial d, each also absent
    type Op = (&'static str, bool);
    let ops: [Op; 9] = [
        ("Diff().with_context(c).diff_str({f},'x')", true),
        ("Diff().with_context(c).differentiate(parse({f},None,['f']),'x')", true),
        ("Simplify().with_context(c).simplify_str({f})", false),
        ("Simplify().with_context(c).simplify(parse({f},None,['f']))", false),
        ("CompiledEvaluator(parse({f},None,['f']),['x','y'],c).evaluate([0.7,1.3])", false),
        ("CompiledEvaluator(parse({f},None,['f']),['x','y'],c).eval_batch([[0.7,-1.2],[1.3,0.35]])", false),
        ("CompiledEvaluator(parse({f},None,['f']),None,c).evaluate([0.7,1.3])", false),
        ("Diff().user_fn('f',1,{b},{d}).diff_str({f},'x')", true),
        ("Diff().user_fn('f',1,{b},{d}).differentiate(parse({f},None,['f']),symb('x'))", true),
    ];
    let total = formulas.len() * (k + 1) * (k + 1) * ops.len();
    theme(mc, "user functions", total as u64, 64, |i| {
        let i = i as usize;
        let (f, op) = (formulas[i % formulas.len()], i / formulas.len() % ops.len());
        let j = i / formulas.len() / ops.len();
        let (bi, di) = (j % (k + 1), j / (k + 1));
        if !mc.thorough && bi > 3 && di > 3 && bi != di && bi < k && di < k {
            return None;
        }
        let get = |x: usize| if x == k { None } else { Some(&one[x]) };
        let (b, d) = (get(bi), get(di));
        let bt = b.map_or("None", |b| b.0);
        let dt = d.map_or("None".to_string(), |d| format!("[{}]", d.0));
        let t = ops[op].0.replace("{f}", &q(f)).replace("{b}", bt).replace("{d}", &dt);
        let src = if op < 7 { format!("c=Context().with_function('f',1,{bt},{dt})\x1e{t}") } else { t };
        // the Rust equivalent, noting whether a callback that fails would be called
        let called = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let run = |c2: Arc<std::sync::atomic::AtomicBool>| -> W {
            let mut u = UserFunction::new(1..=1);
            if let Some(b) = b {
                let (f, c2) = (b.1, c2.clone());
                u = u.body(move |a| match f {
                    Some(f) => f(a),
                    None => {
                        c2.store(true, std::sync::atomic::Ordering::Relaxed);
                        Expr::number(0.0)
                    }
                });
            }
            if let Some(d) = d {
                let (f, c2) = (d.1, c2.clone());
                u = u
                    .partial(0, move |a| match f {
                        Some(f) => f(a),
                        None => {
                            c2.store(true, std::sync::atomic::Ordering::Relaxed);
                            Expr::number(0.0)
                        }
                    })
                    .unwrap();
            }
            let c = Context::new().with_function("f", u.clone());
            let e = || rparse(f, &[], &["f"]);
            match op {
                0 => wt(Diff::new().with_context(&c).diff_str(f, "x", &[])),
                1 => re(e(), |e| we(Diff::new().with_context(&c).differentiate(&e, &symb("x")))),
                2 => wt(Simplify::new().with_context(&c).simplify_str(f, &[])),
                3 => re(e(), |e| we(Simplify::new().with_context(&c).simplify(&e))),
                4 => re(e(), |e| re(CompiledEvaluator::compile(&e, &["x", "y"], Some(&c)), |c| F(c.evaluate(&[0.7, 1.3])))),
                5 => re(e(), |e| {
                    re(CompiledEvaluator::compile(&e, &["x", "y"], Some(&c)), |c| {
                        let mut o = vec![0.0; 2];
                        re(c.eval_batch(&[&[0.7, -1.2], &[1.3, 0.35]], &mut o, None), |()| L(o.into_iter().map(F).collect()))
                    })
                }),
                6 => re(e(), |e| re(CompiledEvaluator::compile_auto(&e, Some(&c)), |c| F(c.evaluate(&[0.7, 1.3])))),
                7 => wt(Diff::new().user_fn("f", u.clone()).diff_str(f, "x", &[])),
                _ => re(e(), |e| we(Diff::new().user_fn("f", u.clone()).differentiate(&e, &symb("x")))),
            }
        };
        let w = safe(|| run(called.clone()));
        // an error in a callback is not swallowed
        let w = if called.load(std::sync::atomic::Ordering::Relaxed) { Err(None) } else { w };
        Some((src, w))
    });
    theme(mc, "errors of callbacks", 8, 1, |i| {
        let t = [
            "Diff().with_context(c).diff_str('f(x)*g(x)','x')",
            "Simplify().with_context(c).simplify_str('f(2)')",
            "CompiledEvaluator(parse('f(x)',None,['f']),['x'],c)",
            "Diff().user_fn('h',1,None,[boom]).diff_str('h(x)','x')",
        ][i as usize / 2];
        let src = format!("c=Context().with_function('f',1,boom,[boom]).with_function('g',1)\x1edef go():\x1f try: return ['returned',{t}]\x1f except Boom as e: return str(e)\x1e{}",
            if i % 2 == 0 { "[go(),diff('x^2','x'),Diff().with_context(Context()).diff_str('x^3','x')]" } else { "[th(go),diff('x^2','x'),Diff().with_context(Context()).diff_str('x^3','x')]" });
        if i / 2 == 1 {
            // whether simplification looks into a body is the library's choice
            return Some((src, Any));
        }
        Some((src, L(vec![T("boom".into()), wt(diff("x^2", "x", &[], None)), wt(diff("x^3", "x", &[], None))])))
    });
    // two arguments: the i-th callback is the derivative by the i-th argument
    let parts: Vec<(&str, Body)> = vec![
        ("lambda a: a[0]*a[1]", |a| a0(a) * (*a[1]).clone()),
        ("lambda a: a[0]-a[1]**2", |a| a0(a) - (*a[1]).clone().pow(2.0)),
        ("lambda a: a[1]", |a| (*a[1]).clone()),
        ("lambda a: len(a)", |a| Expr::number(a.len() as f64)),
    ];
    let f2 = ["f(x,y)", "f(y,x)", "f(x,x)", "f(x^2,3)", "f(f(x,y),x)", "f(x)", "f(x,y,z)", "f()"];
    let m = parts.len();
    theme(mc, "user functions of two arguments", (f2.len() * (m + 1) * (m * m + m + 2) * 4) as u64, 32, |i| {
        let i = i as usize;
        let (f, op) = (f2[i % f2.len()], i / f2.len() % 4);
        let j = i / f2.len() / 4;
        let (b, d) = (j % (m + 1), j / (m + 1));
        let ds: Option<Vec<usize>> = if d < m * m {
            Some(vec![d % m, d / m])
        } else if d < m * m + m {
            Some(vec![d - m * m])
        } else if d == m * m + m {
            Some(vec![0, 1, 2])
        } else {
            None
        };
        let bt = parts.get(b).map_or("None", |b| b.0);
        let dt = ds.as_ref().map_or("None".into(), |d| format!("[{}]", d.iter().map(|x| parts[*x].0).collect::<Vec<_>>().join(",")));
        let op_t = ["Diff().with_context(c).diff_str({f},'x')", "Diff().with_context(c).diff_str({f},'y')", "CompiledEvaluator(parse({f},None,['f']),['x','y'],c).evaluate([0.7,1.3])", "Simplify().with_context(c).simplify_str({f})"][op];
        let src = format!("c=Context()\x1ec.with_function('f',2,{bt},{dt})\x1e{}", op_t.replace("{f}", &q(f)));
        let w = safe(|| {
            let mut u = UserFunction::new(2..=2);
            if let Some(b) = parts.get(b) {
                u = u.body(b.1);
            }
            for (n, x) in ds.iter().flatten().enumerate() {
                match u.partial(n, parts[*x].1) {
                    Ok(v) => u = v,
                    Result::Err(_) => return Err(None),
                }
            }
            let c = Context::new().with_function("f", u);
            match op {
                0 | 1 => wt(Diff::new().with_context(&c).diff_str(f, ["x", "y"][op], &[])),
                2 => re(rparse(f, &[], &["f"]), |e| re(CompiledEvaluator::compile(&e, &["x", "y"], Some(&c)), |c| F(c.evaluate(&[0.7, 1.3])))),
                _ => wt(Simplify::new().with_context(&c).simplify_str(f, &[])),
            }
        });
        Some((src, w))
    });
}

// ---------------------------------------------------------------- I: dual numbers

fn theme_i(mc: &Arc<Mc>) {
    use num_traits::Float;
    type Du = Dual<f64>;
    let leaves: Vec<(&str, Result<Du, f64>)> = vec![
        ("Dual(2.0,1.0)", Ok(Dual::new(2.0, 1.0))),
        ("Dual(-0.5,0.25)", Ok(Dual::new(-0.5, 0.25))),
        ("Dual.constant(1.5)", Ok(Dual::constant(1.5))),
        ("3", Result::Err(3.0)),
        ("0.5", Result::Err(0.5)),
        ("-2", Result::Err(-2.0)),
        ("0", Result::Err(0.0)),
        ("True", Result::Err(1.0)),
        ("np.float64(2.25)", Result::Err(2.25)),
        ("Dual(0.0,1.0)", Ok(Dual::new(0.0, 1.0))),
        ("Dual(1e10,-3.0)", Ok(Dual::new(1e10, -3.0))),
        ("10**10", Result::Err(1e10)),
    ];
    let ops = ["+", "-", "*", "/", "**"];
    let dw = |d: Du| D(d.val, d.eps);
    let du = |x: &Result<Du, f64>| match x {
        Ok(d) => *d,
        Result::Err(c) => Dual::constant(*c),
    };
    // numbers that make a whole power may be raised exactly
    let bin = |op: &str, a: &Result<Du, f64>, b: &Result<Du, f64>| -> Option<Vec<Du>> {
        if a.is_err() && b.is_err() {
            return None;
        }
        let (x, y) = (du(a), du(b));
        Some(match op {
            "+" => vec![x + y],
            "-" => vec![x - y],
            "*" => vec![x * y],
            "/" => vec![x / y],
            _ => match b {
                Result::Err(c) if c.fract() == 0.0 && c.abs() < 1e9 => vec![x.powf(y), x.powi(*c as i32)],
                _ => vec![x.powf(y)],
            },
        })
    };
    let m = leaves.len() as u64;
    theme(mc, "dual numbers: two operands", m * m * 10, 64, |i| {
        let (op, ng, a, b) = (ops[(i % 5) as usize], i / 5 % 2, &leaves[(i / 10 % m) as usize], &leaves[(i / 10 / m) as usize]);
        let r = bin(op, &a.1, &b.1)?;
        Some(if ng == 0 { (format!("({}){op}({})", a.0, b.0), One(r.into_iter().map(dw).collect())) } else { (format!("-(({}){op}({}))", a.0, b.0), One(r.into_iter().map(|d| dw(-d)).collect())) })
    });
    let k = if mc.thorough { m } else { 8 };
    theme(mc, "dual numbers: three operands", 50 * k * k * k, 128, |i| {
        let (sh, o1, o2, j) = (i % 2, ops[(i / 2 % 5) as usize], ops[(i / 10 % 5) as usize], i / 50);
        let (a, b, c) = (&leaves[(j % k) as usize], &leaves[(j / k % k) as usize], &leaves[(j / k / k) as usize]);
        let mut rs = vec![];
        let s = if sh == 0 {
            for l in bin(o1, &a.1, &b.1)? {
                rs.extend(bin(o2, &Ok(l), &c.1)?);
            }
            format!("(({}){o1}({})){o2}({})", a.0, b.0, c.0)
        } else {
            for r in bin(o2, &b.1, &c.1)? {
                rs.extend(bin(o1, &a.1, &Ok(r))?);
            }
            format!("({}){o1}(({}){o2}({}))", a.0, b.0, c.0)
        };
        Some((s, One(rs.into_iter().map(dw).collect())))
    });
    type U = (&'static str, fn(Du) -> Option<Du>);
    macro_rules! plain { ($($m:ident),*) => { vec![$((stringify!($m), (|d: Du| Some(d.$m())) as fn(Du) -> Option<Du>)),*] } }
    macro_rules! part { ($($m:ident),*) => { vec![$((stringify!($m), (|d: Du| d.$m()) as fn(Du) -> Option<Du>)),*] } }
    let mut un: Vec<U> = plain!(
        sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh, exp, exp2, ln, log2, log10, sqrt, cbrt, abs, signum, floor, ceil, round, trunc, fract, recip,
        exp_m1, ln_1p, erf, erfc, sinc
    );
    un.extend(part!(gamma, digamma, trigamma, zeta, lambert_w, elliptic_k, elliptic_e));
    let pts: Vec<(f64, f64)> = [0.0, 0.5, -0.5, 1.0, -1.0, 2.0, -2.0, 1.5, -1.5, 3.7, 0.1, 10.0, 0.999].iter().flat_map(|x| [(*x, 1.0), (*x, -2.5)]).collect();
    let mp = pts.len();
    let ow = |r: Option<Du>| r.map_or(Err(None), dw);
    theme(mc, "dual numbers: functions", (un.len() * mp) as u64, 64, |i| {
        let (u, d) = (&un[i as usize / mp], pts[i as usize % mp]);
        Some((format!("Dual({},{}).{}()", pf(d.0), pf(d.1), u.0), ow((u.1)(Dual::new(d.0, d.1)))))
    });
    type Bi = (&'static str, fn(Du, Du) -> Option<Du>);
    let bi: Vec<Bi> = vec![
        ("hypot", |a, b| Some(a.hypot(b))),
        ("atan2", |a, b| Some(a.atan2(b))),
        ("log", |a, b| Some(a.log(b))),
        ("beta", |a, b| a.beta(b)),
    ];
    theme(mc, "dual numbers: functions of two", (bi.len() * mp * mp) as u64, 64, |i| {
        let (u, a, b) = (&bi[i as usize % bi.len()], pts[i as usize / bi.len() % mp], pts[i as usize / bi.len() / mp]);
        Some((format!("Dual({},{}).{}(Dual({},{}))", pf(a.0), pf(a.1), u.0, pf(b.0), pf(b.1)), ow((u.1)(Dual::new(a.0, a.1), Dual::new(b.0, b.1)))))
    });
    theme(mc, "dual numbers: numeric parameters", (mp * 4 * 9) as u64, 64, |i| {
        let i = i as usize;
        let (a, f, k) = (pts[i % mp], i / mp % 4, i / mp / 4);
        let (x, kn) = (Dual::new(a.0, a.1), k as i32 - 3);
        let h = kn as f64 * 0.5;
        Some(match f {
            0 => (format!("Dual({},{}).powi({kn})", pf(a.0), pf(a.1)), dw(x.powi(kn))),
            1 => (format!("Dual({},{}).powf({})", pf(a.0), pf(a.1), pf(h)), dw(x.powf(Dual::constant(h)))),
            2 => (format!("Dual({},{}).polygamma({kn})", pf(a.0), pf(a.1)), ow(x.polygamma(kn))),
            _ => (format!("Dual({},{}).bessel_j({kn})", pf(a.0), pf(a.1)), ow(x.bessel_j(kn))),
        })
    });
    theme(mc, "dual numbers: parts", mp as u64, 8, |i| {
        let a = pts[i as usize];
        Some((
            format!("d=Dual({},{})\x1e[d.val,d.eps,Dual.constant({}).eps,str(d),-d]", pf(a.0), pf(a.1), pf(a.0)),
            L(vec![F(a.0), F(a.1), F(0.0), T(Dual::new(a.0, a.1).to_string()), dw(-Dual::new(a.0, a.1))]),
        ))
    });
}

// ---------------------------------------------------------------- J: calculus from texts, uncertainty

fn theme_j(mc: &Arc<Mc>) {
    let formulas = ["x", "x*y", "x^2+3*y", "sin(x)*y", "x/y", "x+", "", "5", "x*y*z", "exp(x-y)", "z", "f(x)", "x^y"];
    let vars: Vec<Vec<&str>> = vec![vec![], vec!["x"], vec!["y"], vec!["x", "y"], vec!["y", "x"], vec!["x", "y", "z"], vec!["z", "y", "x"], vec!["x", "x"], vec!["q"], vec![""]];
    let (nf, nv) = (formulas.len(), vars.len());
    let tl = |v: Vec<String>| L(v.into_iter().map(T).collect());
    theme(mc, "gradient and Hessian", (2 * nf * nv) as u64, 16, |i| {
        let i = i as usize;
        let (f, v) = (formulas[i / 2 % nf], &vars[i / 2 / nf]);
        Some(if i % 2 == 0 {
            (format!("gradient_str({},{})", q(f), qs(v)), re(gradient_str(f, v), tl))
        } else {
            (format!("hessian_str({},{})", q(f), qs(v)), re(hessian_str(f, v), |h| L(h.into_iter().map(tl).collect())))
        })
    });
    theme(mc, "Jacobian", ((nf + 1) * nf * nv) as u64, 32, |i| {
        let i = i as usize;
        let (a, b, v) = (i % (nf + 1), i / (nf + 1) % nf, &vars[i / (nf + 1) / nf]);
        let fs: Vec<&str> = if a == nf { if b % 2 == 0 { vec![formulas[b]] } else { vec![] } } else { vec![formulas[a], formulas[b]] };
        Some((format!("jacobian_str({},{})", qs(&fs), qs(v)), re(jacobian_str(&fs, v), |h| L(h.into_iter().map(tl).collect()))))
    });
    let envs: Vec<Vec<(&str, f64)>> = vec![
        vec![],
        vec![("x", 2.0)],
        vec![("y", -1.5)],
        vec![("x", 2.0), ("y", 3.0)],
        vec![("y", 2.0), ("x", 3.0)],
        vec![("x", 0.0), ("y", 0.0), ("z", 1.0)],
        vec![("q", 1.0)],
        vec![("x", f64::NAN)],
        vec![("x", f64::INFINITY), ("y", 1.0)],
        vec![("x", 1.0), ("x", 2.0)],
    ];
    theme(mc, "evaluation of texts", (nf * envs.len() * 2) as u64, 16, |i| {
        let i = i as usize;
        let (f, e) = (formulas[i / 2 % nf], &envs[i / 2 / nf]);
        let t = format!("[{}]", e.iter().map(|(k, v)| format!("({},{})", q(k), pf(*v))).collect::<Vec<_>>().join(","));
        Some(if i % 2 == 0 {
            (format!("evaluate_str({},{t})", q(f)), wt(evaluate_str(f, e)))
        } else {
            let ex = rparse(f, &[], &[]).ok()?;
            (format!("evaluate(parse({}),{t})", q(f)), E(ex.evaluate(&e.iter().copied().collect::<HashMap<&str, f64>>(), &HashMap::new())))
        })
    });
    let variances: Vec<Option<Vec<f64>>> = vec![None, Some(vec![]), Some(vec![0.25]), Some(vec![0.25, 4.0]), Some(vec![1.0, 0.01, 9.0]), Some(vec![0.0, 1.0]), Some(vec![-1.0, 2.0])];
    theme(mc, "uncertainty", (nf * nv * variances.len() * 4) as u64, 32, |i| {
        let i = i as usize;
        let (kind, f, v, s) = (i % 4, formulas[i / 4 % nf], &vars[i / 4 / nf % nv], &variances[i / 4 / nf / nv]);
        let e = rparse(f, &[], &[]);
        let ft = if kind < 2 { q(f) } else { format!("parse({})", q(f)) };
        let name = ["uncertainty_propagation", "relative_uncertainty"][kind % 2];
        let st = s.as_ref().map_or("None".into(), |s| pfs(s));
        let w = re(e, |e| {
            let cov = s.as_ref().map(|s| CovarianceMatrix::diagonal(s.iter().map(|x| CovEntry::Num(*x)).collect()));
            safe(|| re(if kind % 2 == 0 { uncertainty_propagation(&e, v, cov.as_ref()) } else { relative_uncertainty(&e, v, cov.as_ref()) }, |u| T(u.to_string())))
        });
        let args = if i % 3 == 0 { format!("{ft},variables={},variances={st}", qs(v)) } else { format!("{ft},{},{st}", qs(v)) };
        Some((format!("{name}({args})"), w))
    });
}

// ---------------------------------------------------------------- K: builders

fn theme_k(mc: &Arc<Mc>) {
    let sets = [
        "domain_safe(True)", "domain_safe(False)", "fixed_var('a')", "fixed_var(symb('b'))", "fixed_vars(['alpha',symb('x')])", "fixed_vars([])", "max_depth(2)", "max_depth(50)", "max_nodes(4)", "max_nodes(0)",
        "with_context(c)", "max_depth(0)",
    ];
    let fd = |d: Diff, s: &str, c: &Context| match s {
        "domain_safe(True)" => d.domain_safe(true),
        "domain_safe(False)" => d.domain_safe(false),
        "fixed_var('a')" => d.fixed_var(&"a"),
        "fixed_var(symb('b'))" => d.fixed_var(&symb("b")),
        "fixed_vars(['alpha',symb('x')])" => d.fixed_var(&"alpha").fixed_var(&symb("x")),
        "fixed_vars([])" => d,
        "max_depth(2)" => d.max_depth(2),
        "max_depth(50)" => d.max_depth(50),
        "max_nodes(4)" => d.max_nodes(4),
        "max_nodes(0)" => d.max_nodes(0),
        "max_depth(0)" => d.max_depth(0),
        _ => d.with_context(c),
    };
    let fs_ = |d: Simplify, s: &str, c: &Context| match s {
        "domain_safe(True)" => d.domain_safe(true),
        "domain_safe(False)" => d.domain_safe(false),
        "fixed_var('a')" => d.fixed_var(&"a"),
        "fixed_var(symb('b'))" => d.fixed_var(&symb("b")),
        "fixed_vars(['alpha',symb('x')])" => d.fixed_var(&"alpha").fixed_var(&symb("x")),
        "fixed_vars([])" => d,
        "max_depth(2)" => d.max_depth(2),
        "max_depth(50)" => d.max_depth(50),
        "max_nodes(4)" => d.max_nodes(4),
        "max_nodes(0)" => d.max_nodes(0),
        "max_depth(0)" => d.max_depth(0),
        _ => d.with_context(c),
    };
    let formulas = ["a*x^2", "alpha*x", "sqrt(x^2)*b", "x/x+y", "f(x)*a", "(x+1)*(x+2)*(x+3)", "x", "x+"];
    let vs = ["x", "a", "y"];
    let len = if mc.thorough { 3 } else { 2u32 };
    let m = sets.len() as u64;
    let mut seqs: Vec<Vec<&str>> = vec![];
    for l in 0..=len {
        for mut i in 0..m.pow(l) {
            let mut s = vec![];
            for _ in 0..l {
                s.push(sets[(i % m) as usize]);
                i /= m;
            }
            seqs.push(s);
        }
    }
    let per = formulas.len() * (vs.len() * 2 + 2) * 2;
    theme(mc, "builders", (seqs.len() * per) as u64, 64, |i| {
        let i = i as usize;
        let (s, j) = (&seqs[i / per], i % per);
        let (f, o, chain) = (formulas[j % formulas.len()], j / formulas.len() % (vs.len() * 2 + 2), j / formulas.len() / (vs.len() * 2 + 2) == 0);
        let mk = |name: &str| {
            if chain {
                format!("b={name}(){}\x1e", s.iter().map(|x| format!(".{x}")).collect::<String>())
            } else {
                format!("b={name}()\x1e{}", s.iter().map(|x| format!("b.{x}\x1e")).collect::<String>())
            }
        };
        let needs_c = s.contains(&"with_context(c)");
        let pre = if needs_c { "c=Context().with_function('f',1,None,[lambda a: 2*a[0]])\x1e" } else { "" };
        let c = Context::new().with_function("f", UserFunction::new(1..=1).partial(0, |a| 2.0 * a0(a)).unwrap());
        let diff_b = || s.iter().fold(Diff::new(), |d, x| fd(d, x, &c));
        let simp_b = || s.iter().fold(Simplify::new(), |d, x| fs_(d, x, &c));
        let nv = vs.len();
        let (t, w) = if o < nv {
            (format!("{}b.diff_str({},{})", mk("Diff"), q(f), q(vs[o])), wt(diff_b().diff_str(f, vs[o], &[])))
        } else if o < 2 * nv {
            let v = vs[o - nv];
            let e = rparse(f, &["alpha"], &["f"]).ok()?;
            (format!("{}b.differentiate(parse({},['alpha'],['f']),{})", mk("Diff"), q(f), if chain { q(v) } else { format!("symb({})", q(v)) }), we(diff_b().differentiate(&e, &symb(v))))
        } else if o == 2 * nv {
            (format!("{}b.simplify_str({})", mk("Simplify"), q(f)), wt(simp_b().simplify_str(f, &[])))
        } else {
            let e = rparse(f, &["alpha"], &["f"]).ok()?;
            (format!("{}b.simplify(parse({},['alpha'],['f']))", mk("Simplify"), q(f)), we(simp_b().simplify(&e)))
        };
        Some((format!("{pre}{t}"), w))
    });
    // symbols and texts are accepted where expressions are
    theme(mc, "operands of builders", 12, 2, |i| {
        let i = i as usize;
        let o = [("symb('x')", symb("x").to_expr()), ("'x'", symb("x").to_expr()), ("2.5", Expr::number(2.5)), ("Expr('x')*2", symb("x") * 2.0)];
        let (t, e) = &o[i / 3];
        Some(match i % 3 {
            0 => (format!("Diff().differentiate({t},'x')"), we(Diff::new().differentiate(e, &symb("x")))),
            1 => (format!("Diff().differentiate({t},Symbol('y'))"), we(Diff::new().differentiate(e, &symb("y")))),
            _ => (format!("Simplify().simplify({t})"), we(Simplify::new().simplify(e))),
        })
    });
}

// ---------------------------------------------------------------- L: threads

fn theme_l(mc: &Arc<Mc>) {
    let setup = "x=Expr('x');s=symb('y');e=x*s+1;c=Context().with_function('f',1,lambda a: a[0]*2,[lambda a: 2]);k=c.symb('w');v=CompiledEvaluator(parse('x-2*y'),['x','y']);d=Dual(2.0,1.0);D=Diff().with_context(c);M=Simplify();g=ext.FunctionContext() if hasattr(ext,'FunctionContext') else None;vw=e.view()";
    let e = || symb("x") * symb("y") + 1.0;
    let ctx = || Context::new().with_function("f", UserFunction::new(1..=1).body(|a| a0(a) * 2.0).partial(0, |_| Expr::number(2.0)).unwrap());
    let mut cs: Vec<(String, W)> = vec![
        ("e".into(), E(e())),
        ("str(e)".into(), T(e().to_string())),
        ("e+s".into(), E(e() + symb("y"))),
        ("2-e".into(), E(2.0 - e())),
        ("s**e".into(), E(symb("y").to_expr().pow(e()))),
        ("-s".into(), E(-symb("y").to_expr())),
        ("e==x*s+1".into(), B(true)),
        ("hash(e)==hash(x*s+1)".into(), B(true)),
        ("{s:1}[symb('y')]".into(), I(1)),
        ("s.name()".into(), T("y".into())),
        ("k.name()".into(), T("w".into())),
        ("float(Expr(2))".into(), F(2.0)),
        ("e.diff('x')".into(), we(Diff::new().differentiate(&e(), &symb("x")))),
        ("D.differentiate(e,s)".into(), we(Diff::new().differentiate(&e(), &symb("y")))),
        ("D.diff_str('f(x)','x')".into(), wt(Diff::new().with_context(&ctx()).diff_str("f(x)", "x", &[]))),
        ("M.simplify(e-1)".into(), we(Simplify::new().simplify(&(e() - 1.0)))),
        ("e.evaluate({'x':2.0})".into(), E(e().evaluate(&HashMap::from([("x", 2.0)]), &HashMap::new()))),
        ("e.substitute('x',s)".into(), E(e().substitute("x", &symb("y").to_expr()))),
        ("v.evaluate([3.0,0.5])".into(), F(2.0)),
        ("v.eval_batch([[3.0,1.0],[0.5,2.0]])".into(), L(vec![F(2.0), F(-3.0)])),
        ("v.eval_batch([np.array([3.0,1.0]),np.array([0.5,2.0])])".into(), Arr(vec![2], vec![2.0, -3.0])),
        ("v.param_names()".into(), L(vec![T("x".into()), T("y".into())])),
        ("c.contains_symbol('w')".into(), B(true)),
        ("c.symb('w')==k".into(), B(true)),
        ("c.symbol_names()".into(), L(vec![T("w".into())])),
        ("CompiledEvaluator(parse('f(x)',None,['f']),['x'],c).evaluate([3.5])".into(), F(7.0)),
        ("c.with_function('h',1,lambda a: a[0]+1).contains_symbol('w')".into(), B(true)),
        ("c.remove_symbol('w')".into(), B(true)),
        ("(d*d).eps".into(), F(4.0)),
        ("vw.kind".into(), T("Sum".into())),
        ("count_nodes(e)>0".into(), B(true)),
        ("collect_variables(e)".into(), Z(vec!["x".into(), "y".into()])),
        ("gradient(e,['x'])".into(), L(vec![we(Diff::new().differentiate(&e(), &symb("x")))])),
        ("eval_f64([e],[['x','y']],[[[1.0],[2.0]]])".into(), L(vec![L(vec![F(3.0)])])),
        ("evaluate_parallel([e],[['x','y']],[[[1.0],[2.0]]])".into(), L(vec![L(vec![F(3.0)])])),
        ("(g.register('q'),g.contains('q'))[1] if g else True".into(), B(true)),
    ];
    for m in UN {
        if m != "to_expr" {
            cs.push((format!("e.{m}()"), E(method(m, e(), &[]))));
            cs.push((format!("s.{m}()"), E(method(m, symb("y").to_expr(), &[]))));
        }
    }
    let made = ["e", "s", "c", "v", "d", "D", "M", "vw", "k", "x", "g"];
    let m = cs.len();
    // objects made here and used there; made there and used here; dropped there
    theme(mc, "threads", (4 * m) as u64 + made.len() as u64, 16, |i| {
        let i = i as usize;
        if i >= 4 * m {
            let o = made[i - 4 * m];
            return Some((format!("def go():\x1f global {o}\x1f t={o}; del {o}; del t\x1f return 5\x1e{setup}\x1e[th(go),str(x),diff('x^2','x')]"), if o == "x" { Err(None) } else { L(vec![I(5), T("x".into()), wt(diff("x^2", "x", &[], None))]) }));
        }
        let (t, w) = &cs[i / 4];
        let src = match i % 4 {
            0 => format!("{setup}\x1eth(lambda: {t})"),
            1 => format!("def mk():\x1f {setup}\x1f globals().update(locals())\x1eth(mk)\x1e{t}"),
            2 => format!("{setup}\x1e{t}"),
            _ => format!("def mk():\x1f {setup}\x1f globals().update(locals())\x1eth(mk)\x1eth(lambda: {t})"),
        };
        Some((src, w.clone()))
    });
    // an error of the library is the same error on another thread
    let bad = ["parse('x+')", "diff('','x')", "v.evaluate(['a'])", "v.eval_batch([[1.0]])", "float(e)", "symb_get('nowhere')", "e+None", "Diff().max_nodes(0).diff_str('x*x','x')", "vw[99]"];
    theme(mc, "errors on threads", bad.len() as u64, 4, |i| Some((format!("{setup}\x1eattempt(lambda: {0}) or th(lambda: {0})", bad[i as usize]), Err(None))));
    // several threads at once, each checking its own answers
    theme(mc, "threads at once", 6, 1, |i| {
        let t = ["str(e.diff('x')*j)", "v.evaluate([float(j),1.0])", "str(parse('x^%d+y'%j).simplify())", "D.diff_str('f(x)*%d'%j,'x')", "len(c.symbol_names())", "str(symb('n%d'%j)+e)"][i as usize];
        Some((
            format!("{setup}\x1ewant=[{t} for j in range(8)]\x1eout=[None]*8\x1edef go(j):\x1f for _ in range(50): out[j]={t}\x1ets=[threading.Thread(target=go,args=(j,)) for j in range(8)]\x1e[t.start() for t in ts]\x1e[t.join() for t in ts]\x1eout==want").replace("ts=[threading", "import threading\x1ets=[threading"),
            B(true),
        ))
    });
}

// ---------------------------------------------------------------- M: arguments that fit nothing

fn theme_m(mc: &Arc<Mc>) {
    let setup = "x=Expr('x');n=Expr(0.5);s=symb('y');c=Context();v=CompiledEvaluator(parse('x-2*y'),['x','y']);d=Dual(2.0,1.0);D=Diff();M=Simplify();vw=(x+s).view();g=ext.FunctionContext()";
    let list = [("ext", ""), ("Expr", "x"), ("Expr", "n"), ("Symbol", "s"), ("Context", "c"), ("CompiledEvaluator", "v"), ("Dual", "d"), ("Diff", "D"), ("Simplify", "M"), ("ExprView", "vw"), ("FunctionContext", "g")];
    // the callables themselves are read off the module
    let mut calls: Vec<String> = vec![];
    let ask_names = |src: &str| -> Vec<String> {
        let a = ask(&[src]).and_then(|mut a| Some(a.remove(0))).unwrap_or_default();
        match decode(&mut a.split('\x1d')) {
            Some(G::L(v)) => v.into_iter().filter_map(|g| if let G::T(s) = g { Some(s) } else { None }).collect(),
            _ => vec![],
        }
    };
    for (cls, o) in list {
        if cls == "ext" {
            calls.extend(ask_names("[k for k in dir(ext) if callable(getattr(ext,k)) and not k.startswith('_')]"));
        } else {
            let names = ask_names(&format!("[k for k in dir({cls}) if callable(getattr({cls},k)) and k not in ('__init_subclass__','__subclasshook__','__new__','__class__','__reduce__','__reduce_ex__','__getstate__','__dir__','__sizeof__','__getattribute__','__setattr__','__delattr__')]"));
            calls.extend(names.into_iter().map(|k| format!("{o}.{k}")));
        }
    }
    PY.with(|p| *p.borrow_mut() = None);
    if calls.len() < 300 {
        mc.violation(0, "the module's callables", &format!("only {} found: {calls:?}", calls.len()));
        return;
    }
    let args = [
        "None", "-1", "2**70", "1.5", "float('nan')", "'x'", "''", "'x+'", "[]", "['x']", "[[1.0]]", "{}", "x", "s", "object()", "np.array([])", "np.zeros((2,2))", "float('inf')", "{'x':1.0}", "lambda *a: 1/0", "b'x'", "[None]", "d", "0", "c",
        "'\\ud800'", "[x]", "'\\0'", "1j",
    ];
    let na = args.len();
    let quick2 = na;
    let per = 1 + na + quick2 * quick2;
    theme(mc, "unfit arguments", (calls.len() * per) as u64, 256, |i| {
        let i = i as usize;
        let (f, j) = (&calls[i / per], i % per);
        let a = if j == 0 {
            String::new()
        } else if j <= na {
            args[j - 1].to_string()
        } else {
            format!("{},{}", args[(j - 1 - na) % na], args[(j - 1 - na) / na])
        };
        Some((format!("{setup}\x1e{f}({a})"), Any))
    });
    let three: Vec<&String> = calls.iter().filter(|f| !f.contains('.') || f.contains("with_function") || f.contains("user_fn") || f.contains("ynm") || f.contains("spherical") || f.contains("legendre")).collect();
    let pool = ["None", "-1", "'x'", "[]", "['x']", "[[1.0]]", "[['x']]", "x", "[x]", "lambda *a: 1/0", "float('nan')", "[[np.zeros(2)]]"];
    let np = pool.len();
    theme(mc, "three unfit arguments", (three.len() * np * np * np) as u64, 256, |i| {
        let i = i as usize;
        let f = three[i / np / np / np];
        Some((format!("{setup}\x1e{f}({},{},{})", pool[i % np], pool[i / np % np], pool[i / np / np % np]), Any))
    });
    // a third argument of pow cannot be honoured, so it is not ignored either
    let ops = ["Expr('x')", "symb('x')", "Expr(3)", "Dual(2.0,1.0)", "parse('x+1')", "Symbol.anon()"];
    theme(mc, "third argument of pow", (ops.len() * 4) as u64, 4, |i| {
        let (a, i) = (ops[i as usize / 4], i % 4);
        Some(match i {
            0 => (format!("pow({a},2,5)"), Err(None)),
            1 => (format!("pow(2,{a},5)"), Err(None)),
            2 => (format!("a={a}\x1epow(a,2,Expr(7))"), Err(None)),
            _ => (format!("a={a}\x1estr(pow(a,2,None))==str(a**2)"), B(true)),
        })
    });
    theme(mc, "anonymous symbols", 4, 1, |i| {
        let t = ["str(s)==str(s.to_expr())", "str(s)!=''", "str(s) in str(s+Expr('x'))", "str(s)!=str(Symbol.anon())"][i as usize];
        Some((format!("s=Symbol.anon()\x1e{t}"), B(true)))
    });
    // objects broken by a constructor that was not run, subclasses, copies
    theme(mc, "objects made unusually", 30, 4, |i| {
        let cls = ["Expr", "Symbol", "Context", "CompiledEvaluator", "Dual", "Diff", "Simplify", "ExprView", "ext.FunctionContext", "parse"][i as usize % 10];
        Some((
            match i / 10 {
                0 => format!("o={cls}.__new__({cls})\x1estr(o)"),
                1 => format!("import copy\x1e{setup}\x1e[attempt(lambda o=o: copy.deepcopy(o)) for o in (x,s,c,v,d,D,M,vw,{cls})]"),
                _ => format!("import pickle\x1e{setup}\x1e[attempt(lambda o=o: pickle.dumps(o)) for o in (x,s,c,v,d,D,M,vw,{cls})]"),
            },
            Any,
        ))
    });
    // sizes that stress recursion and memory
    let big = ["parse('('*5000+'x'+')'*5000)", "parse('-'*20000+'x')", "parse('x'+'+x'*3000)", "parse('sin('*150+'x'+')'*150).diff('x').node_count()", "parse('x^'*150+'x')", "diff('x*'*200+'x','x')", "CompiledEvaluator(parse('+'.join('x%d'%i for i in range(300)))).param_count()"];
    theme(mc, "large inputs", big.len() as u64, 1, |i| Some((big[i as usize].to_string(), Any)));
}

pub fn run(mc: &Arc<Mc>) {
    theme_a(mc);
    theme_b(mc);
    theme_c(mc);
    theme_d(mc);
    theme_e(mc);
    theme_f(mc);
    theme_h(mc);
    theme_i(mc);
    theme_j(mc);
    theme_k(mc);
    theme_l(mc);
    theme_m(mc);
    theme_g(mc);
}
