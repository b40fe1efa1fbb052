//! C10 built-in function values against a reference table computed with 40 digits.
use crate::fw::Mc;
use crate::num::lib_fn;
use crate::tree::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use symb_anafis::{CompiledEvaluator, Expr};

const TABLE: &str = include_str!("../data/c10.txt");

struct Row {
    f: &'static str,
    a: Vec<f64>,
    v: Option<f64>,
}

fn rows() -> Vec<Row> {
    TABLE
        .lines()
        .map(|l| {
            let p: Vec<&str> = l.split(' ').collect();
            Row { f: leak(p[0]), a: p[1..p.len() - 1].iter().map(|s| s.parse().unwrap()).collect(), v: p[p.len() - 1].parse().ok() }
        })
        .collect()
}

/// (relative, absolute) accuracy demanded of each function
fn accuracy(f: &str) -> (f64, f64) {
    match f {
        "besselj" | "bessely" => (1e-6, 2e-7),
        "besseli" | "besselk" => (2e-6, 0.0),
        "digamma" | "trigamma" | "tetragamma" | "polygamma" => (1e-7, 1e-8),
        "zeta" | "zeta_deriv" => (1e-8, 1e-9),
        "gamma" | "beta" => (1e-10, 0.0),
        "erf" => (1e-10, 0.0),
        "erfc" => (1e-10, 1e-14),
        "lambertw" => (1e-10, 0.0),
        "elliptic_k" | "elliptic_e" => (1e-11, 0.0),
        "hermite" | "assoc_legendre" | "ynm" | "spherical_harmonic" => (1e-10, 1e-12),
        "acot" => (1e-11, 1e-15),
        _ => (1e-11, 1e-15),
    }
}

fn err(r: &Row, got: f64) -> f64 {
    let (rel, ab) = accuracy(r.f);
    let v = r.v.unwrap();
    // conditioning: half an ulp of the argument may move the value
    let mut cond = 0.0;
    for i in crate::num::int_orders(r.f)..r.a.len() {
        let mut w = r.a.clone();
        let h = w[i].abs() * 1e-9;
        if h > 0.0 {
            w[i] += h;
            let p = lib_fn(r.f, &w);
            w[i] -= 2.0 * h;
            let m = lib_fn(r.f, &w);
            if p.is_finite() && m.is_finite() && !matches!(r.f, "floor" | "ceil" | "round" | "signum") {
                cond += (p - m).abs() / 2e-9 * 4e-16;
            }
        }
    }
    (got - v).abs() / (rel * v.abs() + ab + cond.min(1e-3 * (1.0 + v.abs())))
}

pub fn run(mc: &Arc<Mc>) {
    mc.note("reference: values computed with mpmath at 40 digits (tools/gen_c10.py), rounded to 20 digits; undefined rows must not give a finite number");
    let rows = rows();
    let worst: std::sync::Mutex<BTreeMap<&'static str, f64>> = Default::default();
    let none: HashMap<&str, f64> = HashMap::new();
    let nofn = HashMap::new();
    let vn: Vec<&'static str> = (0..4).map(|i| leak(&format!("a{i}"))).collect();
    mc.par("table", rows.len() as u64, 64, |i| {
        let r = &rows[i as usize];
        let key = || format!("{}({})", r.f, r.a.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(","));
        mc.enter(&key());
        let io = crate::num::int_orders(r.f);
        let mut got: Vec<(&str, f64)> = vec![];
        let num = Expr::func_multi(r.f, r.a.iter().map(|x| Expr::number(*x)).collect());
        got.push(("evaluate", num.evaluate(&none, &nofn).as_number().unwrap_or(f64::NAN)));
        // orders stay literal, the rest are variables
        let var = Expr::func_multi(r.f, r.a.iter().enumerate().map(|(k, x)| if k < io { Expr::number(*x) } else { Expr::symbol(vn[k]) }).collect());
        let env: HashMap<&str, f64> = (io..r.a.len()).map(|k| (vn[k], r.a[k])).collect();
        got.push(("evaluate with variables", var.evaluate(&env, &nofn).as_number().unwrap_or(f64::NAN)));
        let names: Vec<&str> = (io..r.a.len()).map(|k| vn[k]).collect();
        let args: Vec<f64> = (io..r.a.len()).map(|k| r.a[k]).collect();
        match CompiledEvaluator::compile(&var, &names, None) {
            Ok(ce) => {
                got.push(("compiled", ce.evaluate(&args)));
                for (nm, n, at) in [("batch lane", 5usize, 2usize), ("batch remainder", 5, 4)] {
                    let cols: Vec<Vec<f64>> = args.iter().map(|x| (0..n).map(|j| if j == at { *x } else { 0.625 }).collect()).collect();
                    let cs: Vec<&[f64]> = cols.iter().map(|c| &c[..]).collect();
                    let mut out = vec![0.0; n];
                    if ce.eval_batch(&cs, &mut out, None).is_ok() {
                        got.push((nm, out[at]));
                    }
                }
            }
            Err(e) => mc.violation(i, &format!("{} compile", key()), &format!("{e:?}")),
        }
        if let Ok(ce) = CompiledEvaluator::compile::<&str>(&num, &[], None) {
            got.push(("compiled constant", ce.evaluate(&[])));
        }
        if io > 0 {
            let all = Expr::func_multi(r.f, (0..r.a.len()).map(|k| Expr::symbol(vn[k])).collect());
            let names: Vec<&str> = (0..r.a.len()).map(|k| vn[k]).collect();
            if let Ok(ce) = CompiledEvaluator::compile(&all, &names, None) {
                got.push(("compiled, order a variable", ce.evaluate(&r.a)));
            }
        }
        for (nm, g) in got {
            mc.trans(1);
            match r.v {
                Some(v) => {
                    let e = if g.is_finite() { err(r, g) } else { f64::INFINITY };
                    if e > 1.0 {
                        mc.violation(i, &format!("{} by {nm}", key()), &format!("expected {v:e}, got {g:e} ({e:.1} times the allowed error)"));
                    } else {
                        mc.trace();
                    }
                    if mc.verbose() {
                        let mut w = worst.lock().unwrap();
                        let x = w.entry(r.f).or_insert(0.0);
                        if e > *x {
                            *x = e;
                        }
                    }
                }
                None => {
                    if g.is_finite() {
                        mc.violation(i, &format!("{} by {nm}", key()), &format!("undefined there, got {g:e}"));
                    } else {
                        mc.trace();
                    }
                }
            }
        }
        mc.state(&(r.f, r.a.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
    });
    // a call with another number of arguments has no value on any route
    let names: Vec<&'static str> = crate::num::UNARY.iter().chain(crate::c06::BINARY).chain(&["assoc_legendre", "ynm"]).copied().collect();
    mc.par("numbers of arguments", names.len() as u64 * 6, 1, |i| {
        let (g, k) = (names[(i / 6) as usize], (i % 6) as usize);
        if k == crate::num::arity(g) {
            return;
        }
        let w = format!("{g} of {k} arguments");
        if !mc.wants(&w) {
            return;
        }
        mc.enter(&w);
        if mc.state(&w) {
            mc.trace();
        }
        let i = 1 << 40 | i;
        for first in [0.3, 1.0, 2.0, -1.0, 0.0] {
            let xs: Vec<f64> = (0..k).map(|j| first + j as f64 * 0.5).collect();
            let e = Expr::func_multi(g, xs.iter().map(|x| Expr::number(*x)).collect());
            let ev = e.evaluate(&HashMap::<&str, f64>::new(), &HashMap::new());
            if let Some(q) = ev.as_number().filter(|q| q.is_finite()) {
                mc.violation(i, &w, &format!("evaluates {xs:?} to {q:e}"));
            }
            if let Ok(Some(q)) = e.simplified().map(|s| s.as_number().filter(|q| q.is_finite())) {
                mc.violation(i, &w, &format!("simplifies {xs:?} to {q:e}"));
            }
            mc.trans(3);
            let vs: Vec<&'static str> = vn[..k.min(4)].to_vec();
            if k > 4 {
                continue;
            }
            let e = Expr::func_multi(g, vs.iter().map(|x| Expr::symbol(*x)).collect());
            if let Ok(c) = CompiledEvaluator::compile(&e, &vs, None) {
                let q = c.evaluate(&xs);
                if q.is_finite() {
                    mc.violation(i, &w, &format!("compiles, and gives {q:e} at {xs:?}"));
                }
            }
        }
    });
    if mc.verbose() {
        for (k, v) in worst.lock().unwrap().iter() {
            eprintln!("worst {k} {v:.3}");
        }
    }
    for i in [500, 12000, 25000] {
        let r = &rows[i];
        mc.sample(format!("{}{:?} = {:?}", r.f, r.a, r.v));
    }
}
