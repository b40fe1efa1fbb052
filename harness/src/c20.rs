//! C20: nothing makes the library panic, abort, overflow or hang; errors point into the input.
use crate::fw::Mc;
use crate::num::{arity, UNARY};
use crate::tree::*;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::Arc;
use symb_anafis::*;

type Names = HashSet<String>;

fn span_of(e: &DiffError) -> Option<(usize, usize)> {
    match e {
        DiffError::InvalidSyntax { span, .. } | DiffError::InvalidNumber { span, .. } | DiffError::InvalidToken { span, .. } | DiffError::UnexpectedToken { span, .. } | DiffError::AmbiguousSequence { span, .. } => {
            span.as_ref().map(|s| (s.start(), s.end()))
        }
        _ => None,
    }
}

/// An error's position lies within the input it is about.
fn error(mc: &Arc<Mc>, rank: u64, key: &str, what: &str, input: &str, e: &DiffError) {
    let _ = format!("{e} {e:?}");
    if let Some((a, b)) = span_of(e) {
        if a > b || b > input.len() || !input.is_char_boundary(a) || !input.is_char_boundary(b) {
            mc.violation(rank, key, &format!("{what}: error `{e}` at bytes {a}..{b} of an input of {} bytes", input.len()));
            return;
        }
        let at = input.get(a..b).unwrap_or("");
        match e {
            DiffError::InvalidNumber { value, .. } if value != at => mc.violation(rank, key, &format!("{what}: error `{e}` about {value:?} points at {at:?}")),
            DiffError::InvalidToken { token, .. } if token != at => mc.violation(rank, key, &format!("{what}: error `{e}` about {token:?} points at {at:?}")),
            _ => {}
        }
    }
}

const HARD: &[f64] = &[0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1e-320, 1e308, -1e308, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e10, -171.0];

/// Everything one can do with an expression. `deep`: the costlier operations too.
/// the routes that look into the arguments of a call
fn exercise_short(e: &Expr) {
    let _ = (e.to_string().len(), e.to_latex().len(), e.to_unicode().len());
    let _ = Simplify::new().simplify(e).map(|p| p.to_string().len());
    let _ = Simplify::new().domain_safe(true).simplify(e).map(|p| p.to_string().len());
    let d = e.derive_raw("x");
    let at = HashMap::from([("x", 0.5), ("y", -2.0)]);
    let _ = (e.evaluate(&at, &HashMap::new()).as_number(), d.evaluate(&at, &HashMap::new()).as_number());
    let _ = e.substitute("x", &Expr::number(0.0)).simplified().map(|p| p.as_number());
    if let Ok(c) = CompiledEvaluator::compile(e, &["x", "y"], None) {
        let _ = c.evaluate(&[0.5, -2.0]);
    }
}

fn exercise(e: &Expr, deep: bool) {
    let s = format!("{e}");
    let _ = format!("{e:?}").len();
    let _ = (e.to_latex().len(), e.to_unicode().len(), e.node_count(), e.max_depth(), e.variables(), e.structural_hash(), e.as_number());
    let mut h = std::collections::hash_map::DefaultHasher::new();
    e.hash(&mut h);
    let _ = h.finish();
    let c = e.deep_clone();
    let _ = *e == c;
    let cm = HashMap::new();
    let _ = e.evaluate(&HashMap::<&str, f64>::new(), &cm).to_string().len();
    for x in [0.0, 0.5, -2.0] {
        let _ = e.evaluate(&HashMap::from([("x", x)]), &cm).to_string().len();
    }
    for (i, x) in HARD.iter().enumerate() {
        let _ = e.evaluate(&HashMap::from([("x", *x), ("y", HARD[(i * 5 + 3) % HARD.len()]), ("f", 1.0)]), &cm).as_number();
    }
    let _ = parse(&s, &Names::new(), &Names::new(), None).map(|p| p.to_string().len());
    let limited = Simplify::new().max_depth(300).max_nodes(4000);
    let _ = limited.simplify(e).map(|p| p.to_string().len());
    let _ = Simplify::new().domain_safe(true).max_depth(300).max_nodes(4000).simplify(e).map(|p| p.to_string().len());
    let sx = symb("x");
    let _ = Diff::new().max_depth(300).max_nodes(4000).differentiate(e, &sx).map(|p| p.to_string().len());
    if deep {
        let raw = e.derive_raw("x");
        let _ = (raw.to_string().len(), raw.to_latex().len(), raw.evaluate(&HashMap::from([("x", 0.5)]), &cm).as_number());
        let _ = e.substitute("x", &Expr::number(0.0)).to_string().len();
        let _ = e.substitute("x", &parse("1/(x-1)", &Names::new(), &Names::new(), None).unwrap()).to_string().len();
        let _ = e.map(|n| n.clone()).to_string().len();
        let _ = (e.contains_var("x"), e.has_free_variables(&Names::new()));
    }
    if let Ok(c) = CompiledEvaluator::compile(e, &["x", "y"], None).or_else(|_| CompiledEvaluator::compile_auto(e, None)) {
        let k = c.param_names().len();
        for (i, _) in HARD.iter().enumerate() {
            let v: Vec<f64> = (0..k).map(|j| HARD[(i + 5 * j) % HARD.len()]).collect();
            let _ = c.evaluate(&v);
        }
        let _ = c.evaluate(&[]);
        let cols: Vec<Vec<f64>> = (0..k).map(|j| (0..7).map(|i| HARD[(i + 3 * j) % HARD.len()]).collect()).collect();
        let refs: Vec<&[f64]> = cols.iter().map(|c| c.as_slice()).collect();
        let mut out = vec![0.0; 7];
        let _ = c.eval_batch(&refs, &mut out, None);
        let _ = c.eval_batch(&[], &mut out, None);
    }
}

/// The text interfaces on one string.
fn text_case(mc: &Arc<Mc>, rank: u64, s: &str, full: bool) {
    let key = format!("text {s:?}");
    if !mc.wants(&key) {
        return;
    }
    mc.enter(&key);
    if !mc.state(s) {
        return;
    }
    let none = Names::new();
    let names: Names = ["x", "x1", "é"].iter().map(|s| s.to_string()).collect();
    let fns: Names = ["f", "g"].iter().map(|s| s.to_string()).collect();
    let mut any = false;
    for (what, k, f) in [("plain", &none, &none), ("with declared names", &names, &fns)] {
        match parse(s, k, f, None) {
            Ok(e) => {
                any = true;
                exercise(&e, full);
            }
            Err(e) => error(mc, rank, &key, what, s, &e),
        }
        mc.trans(1);
    }
    if full || any {
        let ctx = Context::new().with_symbol("x").with_function("f", UserFunction::new(1..=1).body(|a| (*a[0]).clone() + 1.0));
        match parse(s, &none, &none, Some(&ctx)) {
            Ok(e) => exercise(&e, false),
            Err(e) => error(mc, rank, &key, "with a context", s, &e),
        }
    }
    let mut text = |what: &str, r: Result<String, DiffError>| {
        mc.trans(1);
        if let Err(e) = r {
            error(mc, rank, &key, what, s, &e);
        }
    };
    text("diff", diff(s, "x", &["y"], Some(&["f"])));
    text("diff by another name", diff("x*y", s, &[], None).map_err(|_| DiffError::EmptyFormula));
    text("simplify", simplify(s, &["x"], Some(&["f"])));
    text("Diff", Diff::new().max_depth(60).max_nodes(500).diff_str(s, "x", &[]));
    text("Simplify", Simplify::new().domain_safe(true).max_depth(60).max_nodes(500).simplify_str(s, &[]));
    text("gradient_str", gradient_str(s, &["x", "y"]).map(|v| v.join(",")));
    text("evaluate_str", evaluate_str(s, &[("x", 0.5), ("y", f64::NAN)]));
    if full {
        text("hessian_str", hessian_str(s, &["x", "y"]).map(|v| v.concat().join(",")));
        text("jacobian_str", jacobian_str(&[s, "x"], &["x", "y"]).map(|v| v.concat().join(",")).map_err(|_| DiffError::EmptyFormula));
        text("evaluate_str by that name", evaluate_str("x+y", &[(s, 2.0)]).map_err(|_| DiffError::EmptyFormula));
        text("simplify with that name declared", simplify(s, &[s], None));
        text("simplify with that function declared", simplify(&format!("{s}(x)"), &[], Some(&[s])).map_err(|_| DiffError::EmptyFormula));
    }
    mc.trace();
}

const CHARS: &[char] = &['x', '1', '(', ')', '+', '-', '*', '/', '^', '.', ',', 'e', '_', '∂', 'f', ' ', 'π', '€', 'é', '²', '0', '\u{301}', '\n', '='];
const WORDS: &[&str] = &[
    "x", "2", "(", ")", "-", "^", "/", ",", "sin(", "log(", "polygamma(", "f(", "ynm(", "∂_f(x)/∂_x", "∂^2_", "/∂_x", "1e308", "1e-320", "0", "sqrt(", "é", "beta(", "e", "gamma(", "∂_f(x_1,y)/∂_y", "*", "+",
];

fn words(mc: &Arc<Mc>) {
    let q = |a: &(dyn Fn(usize) -> String + Sync), n: usize, len: usize, what: &str, full: usize| {
        for l in 0..=len {
            let total = (n as u64).pow(l as u32);
            mc.par(&format!("{what}:length{l}"), total, 64, |i| {
                let mut s = String::new();
                let mut r = i;
                for _ in 0..l {
                    s.push_str(&a((r % n as u64) as usize));
                    r /= n as u64;
                }
                text_case(mc, (l as u64) << 40 | i, &s, l <= full);
            });
        }
    };
    let th = mc.thorough;
    q(&|i| CHARS[i].to_string(), CHARS.len(), if th { 5 } else { 4 }, "characters", if th { 3 } else { 2 });
    q(&|i| WORDS[i].to_string(), WORDS.len(), if th { 5 } else { 4 }, "words", if th { 3 } else { 2 });
    let few: &[&str] = &["x", "2", "(", ")", "^", "/", "sin(", "-", "0"];
    q(&|i| few[i].to_string(), few.len(), if th { 7 } else { 5 }, "few words", 0);
}

/// Run on a thread with the stack threads get by default.
fn ordinary<R: Send>(f: impl FnOnce() -> R + Send) -> Option<R> {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| crate::fw::last_panic())).expect("thread");
        match h.join().expect("join") {
            Ok(r) => Some(r),
            Err(m) => std::panic::panic_any(m),
        }
    })
}

/// Long repetitions.
fn runs(mc: &Arc<Mc>) {
    // (open, core, close)
    let pats: &[(&str, &str, &str)] = &[
        ("(", "x", ")"),
        ("(", "", ""),
        ("", "x", ")"),
        (")", "x", "("),
        ("-", "x", ""),
        ("+", "x", ""),
        ("- (", "x", ")"),
        ("sin(", "x", ")"),
        ("sin(", "x", ""),
        ("exp(-", "x", ")"),
        ("sqrt(", "x", ")"),
        ("abs(", "x", ")"),
        ("gamma(", "x", ")"),
        ("ln(", "x", ")"),
        ("f(", "x", ")"),
        ("log(2,", "x", ")"),
        ("atan2(x,", "y", ")"),
        ("log(", "x", ",2)"),
        ("x^", "x", ""),
        ("2^", "x", ""),
        ("(", "x", ")^2"),
        ("(", "x", ")^x"),
        ("x^(-", "x", ")"),
        ("(1+x*", "x", ")"),
        ("(1-x/", "x", ")"),
        ("1/(1+", "x", ")"),
        ("(x+y)*(1+", "x", ")^2"),
        ("sin(x+cos(", "x", "))"),
        ("x/", "y", ""),
        ("", "x", "/y"),
        ("", "x", "/y*x"),
        ("", "x", "^2"),
        ("x*", "y", ""),
        ("x", "y", ""),
        ("x ", "y", ""),
        ("x+", "y", ""),
        ("x-y+", "y", ""),
        ("sin(x)*", "y", ""),
        ("sin(x)+cos(x)*", "y", ""),
        ("x^2*y+", "y", ""),
        ("2", "", ""),
        ("2.", "", ""),
        ("2e", "1", ""),
        ("_", "x", ""),
        ("∂", "x", ""),
        ("∂_f(", "x", ")/∂_x"),
        ("∂_f(x)/∂_x+", "x", ""),
        ("∂_", "f(x)", "/∂_x"),
        ("∂^", "2_f(x)/∂_x", ""),
        (",", "x", ""),
        ("f(x,", "x", ")"),
        (" ", "x", " "),
        ("é", "", ""),
        ("π", "", ""),
        ("sin", "(x)", ""),
        ("xsin(", "x", ")"),
        ("2x(", "y", ")"),
        ("x1", "", ""),
    ];
    let mut sizes: Vec<usize> = (1..=24).collect();
    sizes.extend([31, 32, 33, 49, 50, 51, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 150, 190, 197, 198, 199, 200, 201, 202, 203, 255, 256, 257, 400, 1000, 3000, 20000, 100_000]);
    if mc.thorough {
        sizes.extend(25..=210);
        sizes.sort();
        sizes.dedup();
    }
    let n = (pats.len() * sizes.len()) as u64;
    let names: Names = ["x", "y"].iter().map(|s| s.to_string()).collect();
    mc.par("repetitions", n, 1, |i| {
        let (a, b, c) = pats[i as usize % pats.len()];
        let k = sizes[i as usize / pats.len()];
        let key = format!("repetition {a:?}*{k} {b:?} {c:?}*{k}");
        if !mc.wants(&key) {
            return;
        }
        mc.enter(&key);
        mc.state(&key);
        let s = format!("{}{b}{}", a.repeat(k), c.repeat(k));
        ordinary(|| {
            let none = Names::new();
            for (what, kn, fns) in [("plain", &none, &none), ("declared", &names, &names)] {
                if what == "declared" && k > 20_000 {
                    continue;
                }
                mc.trans(1);
                match parse(&s, kn, fns, None) {
                    Err(e) => error(mc, k as u64, &key, what, &s, &e),
                    Ok(e) => {
                        let (n, d) = (e.node_count(), e.max_depth());
                        if n <= 100_000 {
                            let _ = (e.to_string().len(), e.to_latex().len(), e.to_unicode().len());
                            let _ = e.evaluate(&HashMap::from([("x", 0.5), ("y", 2.0)]), &HashMap::new()).as_number();
                            let _ = CompiledEvaluator::compile_auto(&e, None).map(|c| c.evaluate(&vec![0.5; c.param_names().len()]));
                            let _ = (e.deep_clone() == e, e.variables(), e.contains_var("x"), e.structural_hash());
                        }
                        if n <= 1500 && d <= 400 {
                            let _ = Diff::new().skip_simplification(true).diff_str(&s, "x", &[]).map(|s| s.len());
                            let _ = e.substitute("x", &Expr::number(2.0)).to_string().len();
                        }
                        if n <= 70 {
                            let _ = Simplify::new().simplify(&e).map(|s| s.to_string().len());
                            let _ = Simplify::new().domain_safe(true).simplify(&e).map(|s| s.to_string().len());
                        }
                        drop(e);
                    }
                }
            }
            if k <= 10 || k >= 1000 {
                let _ = diff(&s, "x", &["y"], None).map(|s| s.len()).map_err(|e| error(mc, k as u64, &key, "diff", &s, &e));
                let _ = simplify(&s, &[], None).map(|s| s.len()).map_err(|e| error(mc, k as u64, &key, "simplify", &s, &e));
            }
            let _ = evaluate_str(&s, &[("x", 0.5)]).map(|s| s.len()).map_err(|e| error(mc, k as u64, &key, "evaluate_str", &s, &e));
        });
        mc.trace();
    });
}

fn extremes(k: usize) -> Vec<f64> {
    let all = vec![
        0.0, 1.0, -1.0, 0.5, 2.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 1e308, -1e308, 1e-320, 3.0, -2.0, 171.0, 1e9, -1e9, 2147483648.0, -2147483649.0, 4294967296.0, 9007199254740993.0, 9.3e18, -9.3e18, 1.9e19, 1e15, -0.5, 100.0, 20000.0,
        1.0 - 1e-16, -1e-300, 2147483647.0, 65536.0, -171.5, 1e100, 37.5, 0.9999999, 255.0, 256.0, 1000.0, 12345.678,
    ];
    all.into_iter().take(k).collect()
}

fn numbers(mc: &Arc<Mc>) {
    let th = mc.thorough;
    let mut names: Vec<&'static str> = UNARY.to_vec();
    names.extend(["log", "atan2", "polygamma", "beta", "besselj", "bessely", "besseli", "besselk", "hermite", "zeta_deriv", "assoc_legendre", "ynm", "spherical_harmonic", "sign", "sen", "sgn", "f"]);
    names.sort();
    names.dedup();
    let sizes = if th { [40, 40, 40, 22, 12] } else { [40, 40, 24, 12, 4] };
    let mut cases: Vec<(&'static str, usize, u64)> = vec![];
    for g in &names {
        for k in 0..=5usize {
            let own = arity(g);
            let set = if k == 0 { 0 } else { sizes[k - 1] };
            let set = if own == k || k <= 1 { set } else { set.min(3) };
            let total = (set as u64).pow(k as u32);
            for i in 0..total.max(1) {
                cases.push((g, k, i));
            }
        }
    }
    mc.par("numbers", cases.len() as u64, 16, |i| {
        let (g, k, mut r) = cases[i as usize];
        let r_id = r;
        let own = arity(g);
        let set = if k == 0 { 0 } else { sizes[k - 1] };
        let set = if own == k || k <= 1 { set } else { set.min(3) };
        let ex = extremes(set);
        let mut args = vec![];
        for _ in 0..k {
            args.push(ex[(r % set as u64) as usize]);
            r /= set as u64;
        }
        let key = format!("{g}{args:?}");
        // simplifying a beta of NaN takes seconds (bounded, and the same every time)
        if !mc.wants(&key) || (g == "beta" && !th && args.iter().any(|x| x.is_nan()) && args.len() == 2 && r_id % 7 != 0) {
            return;
        }
        mc.enter(&key);
        mc.state(&key);
        let t0 = std::time::Instant::now();
        let none = HashMap::new();
        let e = Expr::func_multi(g, args.iter().map(|x| Expr::number(*x)).collect());
        let _ = e.evaluate(&HashMap::<&str, f64>::new(), &none).as_number();
        let _ = (e.to_string().len(), e.to_latex().len(), e.to_unicode().len());
        let _ = Simplify::new().simplify(&e).map(|s| s.to_string().len());
        let _ = CompiledEvaluator::compile_auto(&e, None).map(|c| c.evaluate(&[]));
        mc.trans(4);
        // through variables
        let vars = ["x", "y", "z", "u", "w"];
        let ev = Expr::func_multi(g, (0..k).map(|j| Expr::symbol(vars[j])).collect());
        let env: HashMap<&str, f64> = (0..k).map(|j| (vars[j], args[j])).collect();
        let _ = ev.evaluate(&env, &none).as_number();
        if let Ok(c) = CompiledEvaluator::compile(&ev, &vars[..k], None) {
            let _ = c.evaluate(&args);
            let cols: Vec<Vec<f64>> = args.iter().map(|x| vec![*x; 5]).collect();
            let refs: Vec<&[f64]> = cols.iter().map(|c| c.as_slice()).collect();
            let mut out = [0.0; 5];
            let _ = c.eval_batch(&refs, &mut out, None);
            mc.trans(2);
        }
        // with one argument variable: derivative by it, there
        for j in 0..k {
            let a: Vec<Expr> = (0..k).map(|q| if q == j { Expr::symbol("x") } else { Expr::number(args[q]) }).collect();
            let d = Expr::func_multi(g, a).derive_raw("x");
            let _ = d.to_string().len();
            let _ = d.evaluate(&HashMap::from([("x", args[j])]), &none).as_number();
            if let Ok(s) = Simplify::new().simplify(&d) {
                let _ = s.evaluate(&HashMap::from([("x", args[j])]), &none).as_number();
            }
            mc.trans(2);
        }
        let t = t0.elapsed().as_secs_f64();
        if t > 1.0 {
            mc.count("slow cases (over 1 s)", 1);
            if mc.verbose() {
                eprintln!("slow {t:.1}s {key}");
            }
        }
        mc.trace();
    });
}

/// Trees whose numbers are extreme.
fn trees(mc: &Arc<Mc>) {
    let leaves: Vec<A> = [0.0, 1.0, -1.0, 2.0, 0.5, 1e308, 1e-320, 4294967296.0, -2147483649.0, f64::INFINITY, f64::NAN, 1000.0]
        .iter()
        .map(|x| n(*x))
        .chain([v("x"), v("y"), add(v("x"), n(1.0)), add(mul(n(2.0), pow(v("x"), n(2.0))), add(v("x"), n(1.0)))])
        .collect();
    let al = Alpha { leaves: leaves.clone(), un: vec!["sqrt", "exp", "ln", "abs"], neg: true, bin: "+*/^", bfn: vec![] };
    sweep(mc, "extreme numbers", &al, if mc.thorough { 4 } else { 3 }, |_rank, t| {
        let key = format!("tree {}", t.text());
        if !mc.wants(&key) {
            return;
        }
        mc.enter(&key);
        mc.state(&key);
        exercise(&t.expr(), true);
        mc.trans(1);
        mc.trace();
    });
    let few: Vec<A> = [0.0, -1.0, 2.0, 1e308, 4294967296.0].iter().map(|x| n(*x)).chain([v("x"), add(v("x"), n(1.0))]).collect();
    let al = Alpha { leaves: few, un: vec![], neg: false, bin: "+*/^", bfn: vec![] };
    sweep(mc, "extreme numbers, deeper", &al, if mc.thorough { 7 } else { 5 }, |_rank, t| {
        let key = format!("tree {}", t.text());
        if !mc.wants(&key) {
            return;
        }
        mc.enter(&key);
        mc.state(&key);
        exercise(&t.expr(), false);
        mc.trans(1);
        mc.trace();
    });
}

/// Odd uses of the interfaces.
fn odd(mc: &Arc<Mc>) {
    let thorough = mc.thorough;
    let strs: Vec<String> = ["", " ", "x", "é", "€", "x y", "1", "∂", "sin", "pi", "e", "(", "a\0b", "\u{feff}", "sigma_x", "-x"].iter().map(|s| s.to_string()).chain(["long".repeat(5000)]).collect();
    let orders = [0u32, 1, 2, 3, 20, 100, 101, 1000, u32::MAX];
    let mut cases: Vec<(String, Box<dyn Fn() + Send + Sync>)> = vec![];
    for s in &strs {
        let label = s.chars().take(12).collect::<String>();
        let s1 = s.clone();
        cases.push((
            format!("names {label:?}"),
            Box::new(move || {
                let s = s1.as_str();
                let none = Names::new();
                let _ = (symbol_exists(s), symb_get(s).map(|x| x.id()).is_ok());
                let y = symb(s);
                let _ = (y.name(), y.id(), symb_new(s).is_ok());
                exercise(&y.to_expr(), true);
                exercise(&(y.sin() + y * 2.0), true);
                exercise(&Expr::func_multi(s, vec![]), true);
                exercise(&Expr::func_multi(s, vec![Expr::symbol(s)]), true);
                exercise(&Expr::func_multi(s, vec![Expr::symbol("x"), Expr::symbol(s), Expr::number(1.0)]), true);
                let c = Context::new().with_symbol(s).with_function(s, UserFunction::new(0..=2).body(|a| a.first().map_or(Expr::number(1.0), |x| (**x).clone())));
                let _ = (c.symb(s).id(), c.get_symbol(s).is_some(), c.contains_symbol(s), c.has_function(s), c.is_empty());
                let _ = parse("x+1", &none, &none, Some(&c)).map(|e| e.to_string());
                let _ = parse(s, &none, &none, Some(&c)).map(|e| e.to_string());
                let _ = Diff::new().with_context(&c).diff_str("x*x", s, &[]);
                let _ = Diff::new().fixed_var(&s1).diff_str("x*x", "x", &[]);
                let e = parse("x*y+sin(x)", &none, &none, None).unwrap();
                let _ = (e.substitute(s, &Expr::symbol(s)).to_string(), e.contains_var(s), e.derive(s, None).to_string(), e.diff(s).map(|e| e.to_string()));
                let _ = CompiledEvaluator::compile(&e, &["x", s, "y", s], None).map(|c| c.evaluate(&[1.0, 2.0, 3.0, 4.0]));
                let _ = CompiledEvaluator::compile(&e, &[s], None).is_ok();
                let _ = e.evaluate(&HashMap::from([(s, 1.0)]), &HashMap::new()).to_string();
                let _ = gradient_str("x*y", &[s, s]);
                let _ = uncertainty_propagation(&e, &[s, "x", s], None).map(|e| e.to_string());
                let _ = relative_uncertainty(&e, &[s], None).map(|e| e.to_string());
            }),
        ));
    }
    for o in orders {
        for inner in ["x", "1", "f(x)", "x^2", "f(x,y)", "1/x"] {
            cases.push((
                format!("derivative node of {inner} of order {o}"),
                Box::new(move || {
                    let none = Names::new();
                    let fns: Names = ["f".to_string()].into();
                    let i = parse(inner, &none, &fns, None).unwrap();
                    for var in ["x", "y", "", "sin"] {
                        let e = Expr::derivative(i.clone(), var, o);
                        if o <= 100 || inner.starts_with('f') {
                            exercise(&e, o <= 100);
                            exercise(&(e.clone() * e.clone() + e.clone().sin()), false);
                        } else {
                            let _ = (e.to_string(), e.to_latex(), e.to_unicode(), e.node_count());
                        }
                    }
                }),
            ));
        }
    }
    for dims in 0..4usize {
        for vars in 0..4usize {
            for ragged in [false, true] {
                cases.push((
                    format!("covariance matrix of {dims} rows{} for {vars} variables", if ragged { ", the last one short" } else { "" }),
                    Box::new(move || {
                        let names = ["x", "y", "z"];
                        for (k, q) in [0.0, -1.0, f64::NAN, f64::INFINITY, 1e308].into_iter().enumerate() {
                            let mut m: Vec<Vec<CovEntry>> = (0..dims).map(|i| (0..dims).map(|j| if (i + j + k) % 3 == 0 { CovEntry::Symbolic(Expr::symbol("s")) } else { CovEntry::Num(q) }).collect()).collect();
                            if ragged && dims > 0 {
                                m[dims - 1].pop();
                            }
                            let e = parse("x*y/z+x^x", &Names::new(), &Names::new(), None).unwrap();
                            if let Ok(c) = CovarianceMatrix::new(m) {
                                let _ = (c.dim(), c.get(dims, dims).is_some(), c.get(0, 0).is_some());
                                let _ = uncertainty_propagation(&e, &names[..vars], Some(&c)).map(|e| e.to_string());
                                let _ = relative_uncertainty(&e, &names[..vars], Some(&c)).map(|e| e.to_string());
                            }
                        }
                    }),
                ));
            }
        }
    }
    for id in [0u64, 1, 2, u64::MAX, u64::MAX / 2, 1 << 32, (1 << 32) + 1, 123456789] {
        cases.push((
            format!("symbol of a made-up identity {id}"),
            Box::new(move || {
                let s = Symbol::from_id(id);
                let _ = (s.name(), s.id());
                exercise(&s.to_expr(), true);
                exercise(&(s + s.sin() * 2.0), true);
            }),
        ));
    }
    cases.push((
        "limits".into(),
        Box::new(|| {
            for d in [0usize, 1, 2, usize::MAX] {
                for k in [0usize, 1, 2, usize::MAX] {
                    for s in ["x", "x+1", "sin(x)^2+cos(x)^2", "1/x/y"] {
                        let _ = Diff::new().max_depth(d).max_nodes(k).diff_str(s, "x", &[]);
                        let _ = Simplify::new().max_depth(d).max_nodes(k).simplify_str(s, &[]);
                    }
                }
            }
            let e = Expr::symbol("x");
            let _ = gradient(&e, &[]).map(|v| v.len());
            let _ = hessian(&e, &[]).map(|v| v.len());
            let _ = jacobian(&[], &[]).map(|v| v.len());
            let _ = jacobian(&[], &[&symb("x")]).map(|v| v.len());
            exercise(&Expr::sum(vec![]), true);
            exercise(&Expr::product(vec![]), true);
            exercise(&Expr::sum(vec![Expr::number(f64::NAN); 3]), true);
        }),
    ));
    // every known name as a function of any number of arguments
    let known = "sqrt cbrt exp ln log log10 log2 sin cos tan cot sec csc asin acos atan atan2 acot asec acsc sinh cosh tanh coth sech csch asinh acosh atanh acoth asech acsch abs signum floor ceil round sign sgn erf erfc gamma digamma trigamma beta besselj bessely besseli besselk polygamma tetragamma sinc lambertw elliptic_k elliptic_e zeta zeta_deriv hermite assoc_legendre spherical_harmonic ynm exp_polar pi PI Pi e E x f sen";
    for g in known.split(' ') {
        for k in 0..=5usize {
            cases.push((
                format!("{g} of {k} arguments"),
                Box::new(move || {
                    let p = |s: &str| lib_parse(s).unwrap();
                    let call = |a: Vec<Expr>| Expr::func_multi(g, a);
                    let mut pool: Vec<Expr> = ["x", "y", "2", "-1", "0", "1", "pi", "pi/2", "-x", "2*x", "x^2", "1/x", "x+1", "x*y", "x^y", "abs(x)", "sqrt(x)", "exp(x)", "ln(x)", "sin(x)", "e^x", "1/3"].iter().map(|s| p(s)).collect();
                    pool.extend([call(vec![]), call(vec![p("x")]), call(vec![p("x"), p("y")]), call(vec![p("1/x")]), call(vec![call(vec![p("x")])])]);
                    for h in ["sign", "sgn", "signum", "asin", "sinh", "log2", "log", "cosh", "cbrt"] {
                        pool.push(Expr::func_multi(h, vec![p("x")]));
                        pool.push(Expr::func_multi(h, vec![]));
                        pool.push(Expr::func_multi(h, vec![p("x"), p("2")]));
                    }
                    let (n, depth) = (pool.len(), k.min(2));
                    let step = if thorough || k < 2 { 1 } else if k == 2 { 3 } else { 11 };
                    for i in (0..n.pow(depth as u32)).step_by(step) {
                        let a: Vec<Expr> = (0..k).map(|j| pool[(i / n.pow((j % 2) as u32) + (j / 2) * 7) % n].clone()).collect();
                        let e = call(a);
                        let uses = [e.clone(), e.clone() * e.clone(), 1.0 / e.clone(), e.clone() + call(vec![p("x")]), e.clone().sqrt(), e.clone() * call(vec![p("y")]), e.clone().pow(2.0) + call(vec![p("y")]).pow(2.0), e.clone().ln(), p("exp(x)").pow(e.clone()), e.clone() / call(vec![]), 1.0 - e.clone().pow(2.0)];
                        for (j, u) in uses.iter().enumerate() {
                            if k == 1 || j == i % uses.len() {
                                exercise_short(u);
                            }
                        }
                    }
                }),
            ));
        }
    }
    mc.par("odd uses", cases.len() as u64, 1, |i| {
        let (key, f) = &cases[i as usize];
        if !mc.wants(key) {
            return;
        }
        mc.enter(key);
        mc.state(key);
        f();
        mc.trans(1);
        mc.trace();
    });
}

pub fn run(mc: &Arc<Mc>) {
    odd(mc);
    runs(mc);
    numbers(mc);
    trees(mc);
    words(mc);
    mc.note("any panic, abort, stack overflow (2 MB stacks for the repetitions), arithmetic overflow (checks compiled in), failed unsafe precondition, or case without answer after 60 s is a violation; so is an error position outside the input or off the text it names");
}
