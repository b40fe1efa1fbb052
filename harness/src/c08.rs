//! C08: mixed parallel evaluation puts exactly the given values into each expression, point by point.
use crate::fw::Mc;
use crate::num::UNARY;
use crate::tree::*;
use std::sync::Arc;
use symb_anafis::parallel::{evaluate_parallel, EvalResult, ExprInput, Value, VarInput, SKIP};
use symb_anafis::{symb, Expr};

/// what is put in for a variable at a point
#[derive(Clone)]
enum Cell {
    Num(f64),
    Skip,
    Expr(A),
}

impl Cell {
    fn value(&self) -> Value {
        match self {
            Cell::Num(x) => Value::from(*x),
            Cell::Skip => SKIP,
            Cell::Expr(t) => Value::from(t.expr()),
        }
    }
    fn text(&self) -> String {
        match self {
            Cell::Num(x) => format!("{x}"),
            Cell::Skip => "skip".into(),
            Cell::Expr(t) => format!("‹{}›", t.text()),
        }
    }
}

const ALT: [&str; 4] = ["put_0", "put_1", "put_2", "put_3"];

/// reference: the expression with all values put in at once
fn put(t: &A, vars: &[&str], row: &[&Cell]) -> A {
    let mut r = t.clone();
    for (i, var) in vars.iter().enumerate() {
        if !matches!(row[i], Cell::Skip) {
            r = r.subst(var, &v(ALT[i]));
        }
    }
    for (i, cell) in row.iter().enumerate() {
        match cell {
            Cell::Num(x) => r = r.subst(ALT[i], &n(*x)),
            Cell::Expr(e) => r = r.subst(ALT[i], e),
            Cell::Skip => {}
        }
    }
    r
}

/// the remaining variables take these values when a symbolic result is judged
const REST: [&[(&str, f64)]; 2] = [&[("x", 0.37), ("y", 1.83), ("z", -0.61), ("w", 2.7)], &[("x", -1.45), ("y", 0.52), ("z", 2.2), ("w", -0.9)]];

struct Job<'a> {
    t: &'a A,
    textual: bool,
    vars: &'a [&'static str],
    cols: &'a [Vec<&'a Cell>],
}

fn job_text(j: &Job) -> String {
    format!(
        "{} [{}] {}",
        j.t.text(),
        if j.textual { "text" } else { "expression" },
        j.vars.iter().zip(j.cols).map(|(n, c)| format!("{n}: {}", c.iter().map(|x| x.text()).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join("; ")
    )
}

fn inputs(jobs: &[Job]) -> (Vec<ExprInput>, Vec<Vec<VarInput>>, Vec<Vec<Vec<Value>>>) {
    (
        jobs.iter().map(|j| if j.textual { ExprInput::from(j.t.text()) } else { ExprInput::from(j.t.expr()) }).collect(),
        jobs.iter().map(|j| j.vars.iter().map(|n| VarInput::from(*n)).collect()).collect(),
        jobs.iter().map(|j| j.cols.iter().map(|c| c.iter().map(|x| x.value()).collect()).collect()).collect(),
    )
}

/// Some(problem) if a result is not what the row gives
fn judge_cell(want: &A, got: &EvalResult, textual: bool) -> Option<String> {
    if got.is_string() != textual {
        return Some(format!("a {} gave {got:?}", if textual { "text" } else { "expression" }));
    }
    let e = match got {
        EvalResult::Expr(e) => e.clone(),
        EvalResult::String(s) => {
            if want.var_list().is_empty() {
                // a number in text form (also infinities and NaN)
                let r = want.eval(&[]);
                return match s.parse::<f64>() {
                    Ok(q) => (r.stable() && !agree(&r, Some(q))).then(|| format!("{s}, expected {:e}", r.v)),
                    Err(_) if r.stable() => Some(format!("`{s}` is no number, expected {:e}", r.v)),
                    Err(_) => None,
                };
            }
            match got.to_expr() {
                Ok(e) => e,
                Err(x) => return Some(format!("`{s}` does not parse: {x:?}")),
            }
        }
    };
    if want.var_list().is_empty() {
        let r = want.eval(&[]);
        return (r.stable() && !agree(&r, e.as_number())).then(|| format!("{e}, expected the number {:e}", r.v));
    }
    let got = read(&e);
    let (left, may) = (got.var_list(), want.var_list());
    if let Some(x) = left.iter().find(|x| !may.contains(x) && !["NaN", "Infinity", "inf"].contains(x)) {
        return Some(format!("{e} still has {x}"));
    }
    for env in REST {
        let (a, b) = (want.eval(env), got.eval(env));
        if a.stable() && !agree2(&a, &b) {
            return Some(format!("{e}: {:e} where {:e} is expected at {}", b.v, a.v, env_text(env)));
        }
    }
    None
}

fn judge(mc: &Mc, rank: u64, jobs: &[Job]) -> bool {
    let lab = jobs.iter().map(job_text).collect::<Vec<_>>().join(" | ");
    let short: String = lab.chars().take(400).collect();
    if !mc.wants(&short) {
        return true;
    }
    mc.enter(&short);
    mc.state(&lab);
    mc.trace();
    let (e, vs, vals) = inputs(jobs);
    let Some(r) = mc.guard(rank, || evaluate_parallel(e, vs, vals)) else { return false };
    let broken = jobs.iter().any(|j| j.cols.len() != j.vars.len() || j.cols.iter().any(|c| c.is_empty()) && j.cols.iter().any(|c| !c.is_empty()));
    let r = match (r, broken) {
        (Ok(_), true) => {
            mc.violation(rank, &short, "no error for an empty column beside a filled one or a wrong number of columns");
            return false;
        }
        (Err(_), true) => return true,
        (Err(x), false) => {
            mc.violation(rank, &short, &format!("error {x:?}"));
            return false;
        }
        (Ok(r), false) => r,
    };
    if r.len() != jobs.len() {
        mc.violation(rank, &short, &format!("{} results for {} expressions", r.len(), jobs.len()));
        return false;
    }
    for (j, res) in jobs.iter().zip(&r) {
        let points = if j.vars.is_empty() { 1 } else { j.cols.iter().map(Vec::len).max().unwrap_or(0) };
        if res.len() != points {
            mc.violation(rank, &short, &format!("{} results for {points} points of {}", res.len(), j.t.text()));
            return false;
        }
        mc.trans(points as u64);
        for (i, got) in res.iter().enumerate() {
            let row: Vec<&Cell> = j.cols.iter().map(|c| *c.get(i).unwrap_or(c.last().unwrap())).collect();
            if let Some(bad) = judge_cell(&put(j.t, j.vars, &row), got, j.textual) {
                mc.violation(rank, &short, &format!("{} at point {i}: {bad}", j.t.text()));
                return false;
            }
        }
    }
    true
}

fn num_cells(xs: &[f64]) -> Vec<Cell> {
    xs.iter().map(|x| Cell::Num(*x)).collect()
}

pub fn run(mc: &Arc<Mc>) {
    let th = mc.thorough;
    let e = Cell::Expr;
    let (x, y, z) = (v("x"), v("y"), v("z"));
    // 1. every pair of columns over a set of cells
    let cells: Vec<Cell> = vec![
        Cell::Num(2.0),
        Cell::Num(-0.5),
        Cell::Skip,
        e(y.clone()),
        e(x.clone()),
        e(add(mul(n(2.0), z.clone()), n(1.0))),
        e(n(3.0)),
        e(f("sin", add(x.clone(), y.clone()))),
    ];
    let small: Vec<usize> = vec![0, 2, 3, 5, 7];
    let mut cols: Vec<Vec<usize>> = vec![vec![]];
    cols.extend((0..cells.len()).map(|i| vec![i]));
    cols.extend((0..cells.len()).flat_map(|i| (0..cells.len()).map(move |j| vec![i, j])));
    let three = if th { (0..cells.len()).collect() } else { small.clone() };
    for a in &three {
        for b in &three {
            for c in &three {
                cols.push(vec![*a, *b, *c]);
            }
        }
    }
    let exprs: Vec<A> = vec![
        add(x.clone(), mul(n(10.0), y.clone())),
        sub(x.clone(), y.clone()),
        div(x.clone(), y.clone()),
        pow(x.clone(), y.clone()),
        mul(f("sin", x.clone()), f("exp", y.clone())),
        add(add(mul(n(3.0), pow(x.clone(), n(2.0))), mul(n(2.0), x.clone())), n(7.0)),
        x.clone(),
        y.clone(),
        z.clone(),
        n(4.5),
        add(mul(x.clone(), z.clone()), y.clone()),
        f2("atan2", y.clone(), x.clone()),
        fs("besselj", vec![n(1.0), mul(x.clone(), y.clone())]),
        f("sqrt", sub(x.clone(), pow(y.clone(), n(2.0)))),
        mul(mul(x.clone(), y.clone()), add(x.clone(), y.clone())),
    ];
    let (cl, ex, ce) = (&cols, &exprs, &cells);
    let per = cols.len() as u64;
    mc.par("one expression, two columns", exprs.len() as u64 * 2 * per * per, 256, |i| {
        let (k, rest) = ((i / (per * per)) as usize, i % (per * per));
        let (t, textual) = (&ex[k / 2], k % 2 == 1);
        let cols: Vec<Vec<&Cell>> = [rest / per, rest % per].iter().map(|c| cl[*c as usize].iter().map(|q| &ce[*q]).collect()).collect();
        judge(mc, i, &[Job { t, textual, vars: &["x", "y"], cols: &cols }]);
    });
    // three variables in every order, one row
    let orders: Vec<[&'static str; 3]> = vec![["x", "y", "z"], ["x", "z", "y"], ["y", "x", "z"], ["y", "z", "x"], ["z", "x", "y"], ["z", "y", "x"]];
    let odd: Vec<[&'static str; 3]> = vec![["w", "x", "y"], ["y", "w", "x"], ["x", "y", "w"]];
    let vl: Vec<[&'static str; 3]> = orders.into_iter().chain(odd).collect();
    let (vl, m) = (&vl, cells.len() as u64);
    mc.par("three columns in every order", exprs.len() as u64 * 2 * vl.len() as u64 * m * m * m, 256, |i| {
        let cell = i % (m * m * m);
        let k = (i / (m * m * m)) as usize;
        let vars = &vl[k % vl.len()];
        let k = k / vl.len();
        let cols: Vec<Vec<&Cell>> = vec![vec![&ce[(cell / m / m) as usize]], vec![&ce[(cell / m % m) as usize]], vec![&ce[(cell % m) as usize]]];
        judge(mc, i, &[Job { t: &ex[k / 2], textual: k % 2 == 1, vars, cols: &cols }]);
    });
    // 2. every expression tree, numbers and one skipped value
    let al = Alpha { leaves: vec![v("x"), v("y"), n(2.0), n(-1.5)], un: UNARY.to_vec(), neg: true, bin: "+-*/^", bfn: vec!["atan2", "log", "besselj", "polygamma"] };
    let rows: Vec<Vec<Cell>> = vec![num_cells(&[0.7, 1.0, 0.0, 3.0]).into_iter().chain([Cell::Skip, Cell::Num(2.0)]).collect(), num_cells(&[1.3, 0.5, 2.0, 2.0, 1.0]).into_iter().chain([Cell::Skip]).collect()];
    let rw: Vec<Vec<&Cell>> = rows.iter().map(|r| r.iter().collect()).collect();
    let nums: Vec<Vec<&Cell>> = rows.iter().map(|r| r[..4].iter().collect()).collect();
    let (rw, nums) = (&rw, &nums);
    sweep(mc, "expressions", &al, 4, |rank, t| {
        for textual in [false, true] {
            judge(mc, rank, &[Job { t, textual, vars: &["x", "y"], cols: rw }]);
            judge(mc, rank, &[Job { t, textual, vars: &["x", "y"], cols: nums }]);
        }
    });
    // 3. numbers of points around the chunk sizes; shorter columns; one cell that is not a number
    let t3: Vec<A> = vec![add(mul(x.clone(), x.clone()), mul(n(1000.0), y.clone())), f("sin", sub(x.clone(), y.clone())), add(add(mul(n(3.0), pow(x.clone(), n(2.0))), mul(n(2.0), x.clone())), y.clone())];
    let t3 = &t3;
    let sizes: Vec<usize> = (1..=20).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 259, 260, 261, 511, 512, 513, 515, 1023, 1024, 1025, 1027, 2049]).collect();
    let sz = &sizes;
    let nvar = if th { 24 } else { 8 };
    mc.par("numbers of points", (sizes.len() * t3.len() * 2 * nvar * 3) as u64, 4, |i| {
        let i = i as usize;
        let size = sz[i % sz.len()];
        let k = i / sz.len();
        let (t, k) = (&t3[k % 3], k / 3);
        let (textual, k) = (k % 2 == 1, k / 2);
        let (mode, k) = (k % 3, k / 3);
        let xs: Vec<Cell> = (0..size).map(|p| Cell::Num(p as f64 * 0.5 - 3.0)).collect();
        let mut ys: Vec<Cell> = (0..size).map(|p| Cell::Num(1.0 + p as f64)).collect();
        let odd = [Cell::Skip, Cell::Expr(v("z"))];
        match mode {
            // a shorter column
            0 => ys.truncate(1 + (k * size.saturating_sub(1)) / (nvar - 1)),
            // one cell that is not a number
            1 => ys[(k * (size - 1)) / (nvar - 1)] = odd[k % 2].clone(),
            // a shorter column that ends in one
            _ => {
                ys.truncate(1 + (k * size.saturating_sub(1)) / (nvar - 1));
                *ys.last_mut().unwrap() = odd[k % 2].clone();
            }
        }
        let cols: Vec<Vec<&Cell>> = vec![xs.iter().collect(), ys.iter().collect()];
        judge(mc, i as u64, &[Job { t, textual, vars: &["x", "y"], cols: &cols }]);
        let cols: Vec<Vec<&Cell>> = vec![ys.iter().collect(), xs.iter().collect()];
        judge(mc, i as u64, &[Job { t, textual, vars: &["y", "x"], cols: &cols }]);
    });
    // 4. several expressions at once: every sequence of up to three or four jobs
    let two = [Cell::Num(2.0), Cell::Num(-3.0)];
    let three = [Cell::Num(0.5), Cell::Skip, Cell::Num(4.0)];
    let sym = [Cell::Expr(add(v("z"), n(1.0)))];
    let (ct, cth, cs): (Vec<&Cell>, Vec<&Cell>, Vec<&Cell>) = (two.iter().collect(), three.iter().collect(), sym.iter().collect());
    let pool_cols: Vec<Vec<Vec<&Cell>>> = vec![vec![], vec![ct.clone()], vec![cth.clone()], vec![ct.clone(), cth.clone()], vec![cs.clone(), ct.clone()], vec![vec![], vec![]], vec![vec![], ct.clone()], vec![ct.clone()], vec![]];
    let pool_vars: Vec<&'static [&'static str]> = vec![&[], &["x"], &["y"], &["x", "y"], &["y", "x"], &["x", "y"], &["x", "y"], &["x", "y"], &["x"]];
    let pe: Vec<A> = vec![add(x.clone(), mul(n(10.0), y.clone())), pow(x.clone(), n(2.0)), n(7.0)];
    let (pc, pv, pe) = (&pool_cols, &pool_vars, &pe);
    let np = (pc.len() * pe.len() * 2) as u64;
    let job = |k: u64| {
        let k = k as usize;
        let c = k / 2 / pe.len();
        Job { t: &pe[k / 2 % pe.len()], textual: k % 2 == 1, vars: pv[c], cols: &pc[c] }
    };
    mc.par("lists of expressions", 1 + np + np * np + np * np * np, 64, |i| {
        let mut jobs = vec![];
        let mut k = i;
        for len in 0..=3u32 {
            let cnt = np.pow(len);
            if k < cnt {
                for q in 0..len {
                    jobs.push(job(k / np.pow(q) % np));
                }
                break;
            }
            k -= cnt;
        }
        judge(mc, i, &jobs);
    });
    // 5. lists of different lengths, formulas that do not parse
    mc.par("mismatched lists", 4 * 4 * 4 * 3, 4, |i| {
        let (a, b, d, bad) = ((i % 4) as usize, (i / 4 % 4) as usize, (i / 16 % 4) as usize, (i / 64) as usize);
        let lab = format!("{a} expressions, {b} lists of variables, {d} lists of columns, mistake {bad}");
        if !mc.wants(&lab) {
            return;
        }
        mc.enter(&lab);
        mc.state(&lab);
        mc.trace();
        mc.trans(1);
        let text = |k: usize| if bad > 0 && k == a - 1 { ["x +* ", "(x + ) 2 ^"][bad - 1] } else { "x + 1" };
        let ex: Vec<ExprInput> = (0..a).map(|k| ExprInput::from(text(k))).collect();
        let vs: Vec<Vec<VarInput>> = (0..b).map(|_| vec![VarInput::from("x")]).collect();
        let vals: Vec<Vec<Vec<Value>>> = (0..d).map(|k| vec![vec![Value::from(k as f64)]]).collect();
        let parses = (0..a).all(|k| lib_parse(text(k)).is_ok());
        if let Some(r) = mc.guard(i, || evaluate_parallel(ex, vs, vals)) {
            let good = a == b && a == d && parses;
            if good != r.is_ok() {
                mc.violation(i, &lab, &format!("{r:?}"));
            }
            if let (true, Ok(r)) = (good, r) {
                for (k, q) in r.iter().enumerate() {
                    if q.len() != 1 || q[0].to_string() != format!("{}", k + 1) {
                        mc.violation(i, &lab, &format!("{q:?} for k = {k}"));
                    }
                }
            }
        }
    });
    // 6. kinds of variables and values, and expressions that cannot be compiled
    let kinds = ["&str", "String", "Symbol", "&Symbol"];
    mc.par("kinds of variables", (kinds.len() * 2 * 3 * 6) as u64, 4, |i| {
        let k = i as usize;
        let (kind, k) = (k % kinds.len(), k / kinds.len());
        let (textual, k) = (k % 2 == 1, k / 2);
        let (vk, body) = (k % 3, k / 3);
        let bodies = ["x^2 + y", "f_unknown(x) + x", "x + ∂_f(t)/∂_t", "foo(y, x)*x", "x*q + y", "sin(x) + besselj(y, x)"];
        let lab = format!("{} with x as {} and y as {} [{}]", bodies[body], kinds[kind], ["number", "integer", "expression"][vk], if textual { "text" } else { "expression" });
        if !mc.wants(&lab) {
            return;
        }
        mc.enter(&lab);
        mc.state(&lab);
        mc.trace();
        mc.trans(2);
        let fns: std::collections::HashSet<String> = ["f_unknown", "foo", "f"].iter().map(|s| s.to_string()).collect();
        let Ok(parsed) = symb_anafis::parse(bodies[body], &std::collections::HashSet::new(), &fns, None) else { return };
        let textual = textual && !bodies[body].contains("_") && !bodies[body].contains("foo");
        let s = symb("x");
        let vx = match kind {
            0 => VarInput::from("x"),
            1 => VarInput::from("x".to_string()),
            2 => VarInput::from(s),
            _ => VarInput::from(&s),
        };
        if vx.as_str() != "x" || vx.id() != s.id() {
            mc.violation(i, &lab, "the variable has another name or identity");
        }
        let vy = VarInput::from("y");
        let yv = match vk {
            0 => vec![Value::from(1.0), Value::from(2.0)],
            1 => vec![Value::from(1i32), Value::from(2i64)],
            _ => vec![Value::from(Expr::number(1.0)), Value::from(&Expr::number(2.0))],
        };
        let input = if textual { ExprInput::from(bodies[body]) } else { ExprInput::from(&parsed) };
        let r = mc.guard(i, || evaluate_parallel(vec![input], vec![vec![vx, vy]], vec![vec![vec![Value::from(3.0), Value::from(-1.0)], yv]]));
        let Some(r) = r else { return };
        match r {
            Ok(r) => {
                for (p, (xv, yv)) in [(3.0, 1.0), (-1.0, 2.0)].iter().enumerate() {
                    let m: std::collections::HashMap<&str, f64> = [("x", *xv), ("y", *yv)].into_iter().collect();
                    let want = parsed.evaluate(&m, &Default::default());
                    let got = r[0][p].to_expr();
                    let same = match (&got, want.as_number()) {
                        (Ok(g), Some(w)) => g.as_number().is_some_and(|g| (g - w).abs() < 1e-12),
                        (Ok(g), None) => g == &want || {
                            let (a, b) = (read(g), read(&want));
                            g.variables() == want.variables() && (a.text() == b.text() || agree2(&a.eval(&[("q", 1.3), ("t", 0.7)]), &b.eval(&[("q", 1.3), ("t", 0.7)])) && g.variables().contains("q"))
                        },
                        (Err(_), _) => false,
                    };
                    if !same {
                        mc.violation(i, &lab, &format!("point {p}: {got:?}, expected {want}"));
                    }
                }
            }
            Err(x) => mc.violation(i, &lab, &format!("error {x:?}")),
        }
    });
    // 7. anonymous symbols and symbols of a context as variables
    let ctx = symb_anafis::Context::new().with_symbol("y");
    let others = [symb_anafis::Symbol::anon(), ctx.symb("y")];
    let ot = &others;
    mc.par("anonymous and context symbols", exprs.len() as u64 * 2 * m * m * 2, 64, |i| {
        let (swap, k) = (i % 2 == 1, i / 2);
        let (cy, k) = ((k % m) as usize, k / m);
        let (cx, k) = ((k % m) as usize, k / m);
        let (which, t) = ((k % 2) as usize, &ex[k as usize / 2]);
        let lab = format!("{} with x = {} and y = {}, y {}, {}", t.text(), ce[cx].text(), ce[cy].text(), ["anonymous", "of a context"][which], if swap { "y first" } else { "x first" });
        if !mc.wants(&lab) {
            return;
        }
        mc.enter(&lab);
        mc.state(&lab);
        mc.trace();
        mc.trans(1);
        let own = |e: Expr| e.substitute("y", &ot[which].to_expr());
        let back = |e: Expr| e.map(|q| if *q == ot[which].to_expr() { symb("y").to_expr() } else { q.clone() });
        let value = |c: &Cell| match c {
            Cell::Expr(t) => Value::from(own(t.expr())),
            c => c.value(),
        };
        let mut vars = vec![VarInput::from("x"), VarInput::from(&ot[which])];
        let mut vals = vec![vec![value(&ce[cx])], vec![value(&ce[cy])]];
        if swap {
            vars.reverse();
            vals.reverse();
        }
        let r = mc.guard(i, || evaluate_parallel(vec![ExprInput::from(own(t.expr()))], vec![vars], vec![vals]));
        match r {
            Some(Ok(r)) if r.len() == 1 && r[0].len() == 1 => {
                let got = EvalResult::Expr(back(r[0][0].clone().unwrap_expr()));
                if let Some(bad) = judge_cell(&put(t, &["x", "y"], &[&ce[cx], &ce[cy]]), &got, false) {
                    mc.violation(i, &lab, &bad);
                }
            }
            Some(r) => mc.violation(i, &lab, &format!("{r:?}")),
            None => {}
        }
    });
    for (t, cells) in [(&exprs[0], [&cells[0], &cells[2]]), (&exprs[2], [&cells[3], &cells[4]])] {
        mc.sample(format!("{} with x = {}, y = {}: {}", t.text(), cells[0].text(), cells[1].text(), put(t, &["x", "y"], &cells).text()));
    }
}
