//! C16: uncertainty propagation computes the stated standard deviation.
use crate::fw::Mc;
use crate::num::E;
use crate::tree::*;
use std::sync::Arc;
use symb_anafis::{relative_uncertainty, uncertainty_propagation, CovEntry, CovarianceMatrix};

/// what an entry of a covariance matrix is: a number or an expression
#[derive(Clone)]
struct C {
    t: A,
    num: Option<f64>,
}

fn num(x: f64) -> C {
    C { t: n(x), num: Some(x) }
}
fn symbolic(t: A) -> C {
    C { t, num: None }
}
impl C {
    fn entry(&self) -> CovEntry {
        match self.num {
            Some(x) => CovEntry::Num(x),
            None => CovEntry::Symbolic(self.t.expr()),
        }
    }
}

fn envs() -> Vec<Vec<(&'static str, f64)>> {
    let names = ["x", "y", "z", "w", "s", "t", "r", "sigma_x", "sigma_y", "sigma_z", "sigma_w"];
    let rows: [[f64; 11]; 3] = [
        [0.6, 1.7, 2.4, 0.9, 0.3, 0.7, 0.15, 0.11, 0.23, 0.05, 0.4],
        [-1.3, 0.45, -0.7, 2.1, 1.2, 0.4, -0.2, 0.5, 0.07, 0.9, 0.2],
        [2.2, -0.8, 1.1, -0.3, 0.6, 1.9, 0.1, 0.02, 0.6, 0.3, 1.5],
    ];
    rows.iter().map(|r| names.iter().zip(r).map(|(s, x)| (*s, *x)).collect()).collect()
}

fn matrix_text(m: &[Vec<C>]) -> String {
    m.iter().map(|r| r.iter().map(|c| c.t.text()).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" ; ")
}

/// the variance by the definition
fn variance(t: &T, vars: &[&'static str], m: &[Vec<C>], p: Env) -> E {
    let d: Vec<E> = vars.iter().map(|w| t.eval_d(p, w).d).collect();
    let mut s = E::exact(0.0);
    for i in 0..vars.len() {
        for j in 0..vars.len() {
            s = s.add(d[i].mul(d[j]).mul(m[i][j].t.eval(p)));
        }
    }
    s
}

fn judge(mc: &Mc, rank: u64, key: &str, t: &A, vars: &[&'static str], m: &[Vec<C>], res: Result<symb_anafis::Expr, symb_anafis::DiffError>, relative: bool) -> bool {
    let got = match res {
        Ok(g) => g,
        Err(e) => {
            mc.violation(rank, key, &format!("error {e:?}"));
            return false;
        }
    };
    let g = read(&got);
    for p in envs() {
        let v = variance(t, vars, m, &p);
        if !t.regular(&p) || !v.stable() || !(v.v - 10.0 * v.tol() > 0.0 || v.v == 0.0 && v.tol() < 1e-12) {
            continue;
        }
        let mut r = E::func("sqrt", &[v]);
        if v.v == 0.0 {
            r = E::exact(0.0);
        }
        if relative {
            let fv = t.eval(&p);
            if !fv.stable() || fv.v.abs() < 1e-9 {
                continue;
            }
            r = r.div(E::func("abs", &[fv]));
        }
        if !r.stable() {
            continue;
        }
        let x = g.eval(&p);
        if x.defined() && x.stable() && !agree2(&r, &x) || !x.defined() && lib_eval(&got, &p).is_none_or(|q| !((q - r.v).abs() <= r.tol())) && r.v.is_finite() {
            mc.violation(rank, key, &format!("expected {:e}, got {:e} at {}; result {got}", r.v, x.v, env_text(&p)));
            return false;
        }
        mc.trans(1);
    }
    true
}

fn case(mc: &Mc, rank: u64, t: &A, vars: &[&'static str], m: Option<&[Vec<C>]>, diagonal: bool) {
    let lab = format!("[{}] by {vars:?} with {}", t.text(), m.map_or("no matrix".into(), |m| format!("({})", matrix_text(m))));
    if !mc.wants(&lab) {
        return;
    }
    mc.enter(&lab);
    mc.state(&lab);
    mc.trace();
    let e = t.expr();
    let default: Vec<Vec<C>> = (0..vars.len()).map(|i| (0..vars.len()).map(|j| if i == j { symbolic(pow(v(leak(&format!("sigma_{}", vars[i]))), n(2.0))) } else { num(0.0) }).collect()).collect();
    let cov = match m {
        None => None,
        Some(m) if diagonal => Some(CovarianceMatrix::diagonal((0..m.len()).map(|i| m[i][i].entry()).collect())),
        Some(m) => match CovarianceMatrix::new(m.iter().map(|r| r.iter().map(C::entry).collect()).collect()) {
            Ok(c) => Some(c),
            Err(e) => {
                mc.violation(rank, &format!("matrix of {lab}"), &format!("rejected: {e:?}"));
                return;
            }
        },
    };
    let m = m.unwrap_or(&default);
    if judge(mc, rank, &format!("uncertainty of {lab}"), t, vars, m, uncertainty_propagation(&e, vars, cov.as_ref()), false) {
        judge(mc, rank, &format!("relative uncertainty of {lab}"), t, vars, m, relative_uncertainty(&e, vars, cov.as_ref()), true);
    }
}

fn var_lists() -> Vec<Vec<&'static str>> {
    vec![vec!["x"], vec!["y"], vec!["x", "y"], vec!["y", "x"], vec!["w", "x"], vec!["x", "z"], vec!["z", "y", "x"], vec!["x", "w", "y"], vec![], vec!["w"]]
}

/// symmetric matrices of size k over the alphabets
fn matrices(k: usize, diag: &[C], off: &[C]) -> Vec<Vec<Vec<C>>> {
    let offs = k * (k.max(1) - 1) / 2;
    let mut out = vec![];
    let total = diag.len().pow(k as u32) * off.len().pow(offs as u32);
    for mut i in 0..total {
        let mut m = vec![vec![num(0.0); k]; k];
        for a in 0..k {
            m[a][a] = diag[i % diag.len()].clone();
            i /= diag.len();
        }
        for a in 0..k {
            for b in a + 1..k {
                m[a][b] = off[i % off.len()].clone();
                m[b][a] = m[a][b].clone();
                i /= off.len();
            }
        }
        out.push(m);
    }
    out
}

/// Which matrices are accepted.
fn validation(mc: &Arc<Mc>) {
    let judge = |rank: u64, rows: &[Vec<f64>], must: Option<bool>| {
        let key = format!("matrix {rows:?}");
        if !mc.wants(&key) {
            return;
        }
        mc.enter(&key);
        mc.state(&key);
        mc.trans(1);
        mc.trace();
        let r = CovarianceMatrix::new(rows.iter().map(|r| r.iter().map(|x| CovEntry::Num(*x)).collect()).collect());
        if let Some(m) = must {
            if m != r.is_ok() {
                mc.violation(rank, &key, if m { "a symmetric square matrix is rejected" } else { "a matrix that is not square or not symmetric is accepted" });
            }
        }
        if let Ok(c) = r {
            let k = rows.len();
            if c.dim() != k || (0..k + 2).any(|i| (0..k + 2).any(|j| c.get(i, j).is_some() != (i < k && j < k))) {
                mc.violation(rank, &key, "dim() or get() do not describe the matrix");
            }
            for i in 0..k {
                for j in 0..k {
                    if !matches!(c.get(i, j), Some(CovEntry::Num(x)) if x.to_bits() == rows[i][j].to_bits()) {
                        mc.violation(rank, &key, &format!("entry {i},{j} is {:?}", c.get(i, j)));
                    }
                }
            }
            // the wrong number of variables is an error
            let all = ["x", "y", "z", "w"];
            for q in 1..=4usize {
                let e = mul(add(v("x"), v("y")), add(v("z"), v("w"))).expr();
                let ok = uncertainty_propagation(&e, &all[..q], Some(&c)).is_ok();
                let okr = relative_uncertainty(&e, &all[..q], Some(&c)).is_ok();
                if ok != (q == k) || okr != (q == k) {
                    mc.violation(rank, &key, &format!("with {q} variables: accepted {ok}, relative {okr}"));
                }
            }
        }
    };
    // every shape: up to four rows of up to four entries, one number
    mc.par("shapes", 5u64.pow(4) + 125 + 25 + 5 + 1, 16, |i| {
        let (k, mut r) = if i < 625 { (4, i) } else if i < 750 { (3, i - 625) } else if i < 775 { (2, i - 750) } else if i < 780 { (1, i - 775) } else { (0, 0) };
        let rows: Vec<Vec<f64>> = (0..k)
            .map(|_| {
                let q = (r % 5) as usize;
                r /= 5;
                vec![0.5; q]
            })
            .collect();
        let square = rows.iter().all(|r| r.len() == k);
        judge(i, &rows, Some(square));
    });
    // every matrix over a few numbers
    let few = [0.0, 1.0, -1.0];
    for (k, total) in [(2usize, 81u64), (3, 19683)] {
        mc.par(&format!("numbers {k}x{k}"), total, 32, |i| {
            let mut r = i;
            let m: Vec<Vec<f64>> = (0..k)
                .map(|_| {
                    (0..k)
                        .map(|_| {
                            let x = few[(r % 3) as usize];
                            r /= 3;
                            x
                        })
                        .collect()
                })
                .collect();
            let sym = (0..k).all(|a| (0..k).all(|b| m[a][b] == m[b][a]));
            judge(i, &m, Some(sym));
        });
    }
    // magnitudes
    let mags = [0.0, 1e-300, 1e-30, 2e-30, -1e-30, 1e-18, 3e-18, 1e-9, 1.0, 1.0 + 1e-6, 1e9, 1e9 + 1.0, 1e30, 1.5e30, -1e30, f64::MAX, 7.0, 7.25];
    mc.par("magnitudes", (mags.len() * mags.len() * 3) as u64, 16, |i| {
        let (a, b) = (mags[i as usize % mags.len()], mags[i as usize / mags.len() % mags.len()]);
        let pos = i as usize / mags.len() / mags.len();
        let mut m = vec![vec![1.0, 0.5, 0.25], vec![0.5, 1.0, 0.125], vec![0.25, 0.125, 1.0]];
        let (r, c) = [(0, 1), (0, 2), (1, 2)][pos];
        m[r][c] = a;
        m[c][r] = b;
        judge(i, &m, if a == b { Some(true) } else { Some(false) });
    });
}

pub fn run(mc: &Arc<Mc>) {
    let th = mc.thorough;
    let ls = var_lists();
    let diag: Vec<C> = vec![num(1.0), num(0.04), symbolic(pow(v("s"), n(2.0))), num(0.0), symbolic(n(0.25))];
    let off: Vec<C> = vec![num(0.0), num(0.01), num(-0.015), symbolic(mul(v("r"), v("s"))), symbolic(n(0.0))];
    // default uncertainties, all small expressions
    let al = Alpha { leaves: vec![v("x"), v("y"), v("z"), n(2.0)], un: vec!["sin", "exp", "ln", "sqrt"], neg: true, bin: "+*/^", bfn: vec![] };
    sweep(mc, "default uncertainties", &al, if th { 5 } else { 4 }, |r, t| {
        for l in &ls {
            case(mc, r, t, l, None, false);
        }
    });
    // two variables, every small matrix
    let m1 = matrices(1, &diag, &off);
    let m2 = matrices(2, &diag, &off);
    let two = Alpha { leaves: vec![v("x"), v("y"), n(3.0)], un: vec!["exp"], neg: false, bin: "+*/^", bfn: vec![] };
    sweep(mc, "two variables", &two, if th { 5 } else { 4 }, |r, t| {
        for l in [["x", "y"], ["y", "x"]] {
            for m in &m2 {
                case(mc, r, t, &l, Some(m), false);
            }
        }
        for m in &m1 {
            case(mc, r, t, &["x"], Some(m), false);
            case(mc, r, t, &["x"], Some(m), true);
        }
        for m in m2.iter().take(25) {
            case(mc, r, t, &["x", "y"], Some(m), true);
        }
    });
    let pick: Vec<usize> = (0..m2.len()).filter(|i| i % 7 == 3).collect();
    sweep(mc, "two variables, larger", &two, if th { 6 } else { 5 }, |r, t| {
        if t.size() > 3 {
            for i in &pick {
                if th || (*i as u64 + r) % 3 == 0 {
                    case(mc, r, t, &["x", "y"], Some(&m2[*i]), false);
                }
            }
        }
    });
    // three variables
    let d3: Vec<C> = vec![num(0.09), symbolic(pow(v("s"), n(2.0))), num(0.0)];
    let o3: Vec<C> = vec![num(0.0), num(-0.02), symbolic(mul(v("r"), v("s")))];
    let m3 = matrices(3, &d3, &o3);
    let pool: Vec<A> = vec![
        mul(mul(v("x"), v("y")), v("z")),
        add(mul(v("x"), v("y")), v("z")),
        div(v("x"), add(v("y"), v("z"))),
        div(mul(v("x"), pow(v("y"), n(2.0))), v("z")),
        f("sin", add(v("x"), mul(v("y"), v("z")))),
        sub(pow(v("x"), n(2.0)), mul(n(3.0), mul(v("y"), v("z")))),
        f("exp", neg(div(pow(sub(v("x"), v("y")), n(2.0)), n(2.0)))),
        add(add(pow(v("x"), n(2.0)), v("x")), n(1.0)),
        f("sqrt", add(pow(v("x"), n(2.0)), pow(v("y"), n(2.0)))),
        pow(v("x"), n(3.0)),
        n(4.0),
    ];
    mc.par("three variables", (pool.len() * m3.len()) as u64, 4, |i| {
        let t = &pool[i as usize % pool.len()];
        let m = &m3[i as usize / pool.len()];
        for l in [["x", "y", "z"], ["z", "x", "y"]] {
            case(mc, i, t, &l, Some(m), false);
        }
        if th {
            for l in [["y", "z", "x"], ["x", "w", "z"]] {
                case(mc, i, t, &l, Some(m), false);
            }
        }
    });
    // any of up to four variables absent from the formula, every order, every two correlated
    let four = ["x", "y", "z", "w"];
    let mut absent: Vec<(A, Vec<&'static str>)> = vec![];
    for mask in 0..16usize {
        let used: Vec<A> = (0..4).filter(|i| mask >> i & 1 == 1).map(|i| v(four[i])).collect();
        let mut forms = vec![n(2.5)];
        if !used.is_empty() {
            forms = vec![
                used.iter().skip(1).fold(used[0].clone(), |s, x| add(mul(n(2.0), s), x.clone())),
                used.iter().skip(1).fold(used[0].clone(), |s, x| mul(s, x.clone())),
                f("exp", div(used.iter().skip(1).fold(used[0].clone(), |s, x| sub(x.clone(), s)), n(3.0))),
            ];
        }
        for g in forms {
            for l in super::c06::perms(4) {
                for q in 1..=4 {
                    // the last order of each
                    if q < 4 && l[q..].windows(2).any(|w| w[0] > w[1]) {
                        continue;
                    }
                    absent.push((g.clone(), l[..q].iter().map(|i| four[*i]).collect()));
                }
            }
        }
    }
    mc.par("absent variables", absent.len() as u64, 4, |i| {
        let (t, l) = &absent[i as usize];
        let k = l.len();
        let entry = |a: usize, b: usize| {
            let (a, b) = (a.min(b), a.max(b));
            if a == b { 0.5 + a as f64 / 8.0 } else { ((a * 5 + b * 3) % 7) as f64 / 32.0 - 0.08 }
        };
        let full: Vec<Vec<C>> = (0..k).map(|a| (0..k).map(|b| num(entry(a, b))).collect()).collect();
        case(mc, i, t, l, Some(&full), false);
        for a in 0..k {
            for b in a + 1..k {
                let one: Vec<Vec<C>> = (0..k).map(|p| (0..k).map(|q| num(if p == q || (p.min(q), p.max(q)) == (a, b) { entry(p, q) } else { 0.0 })).collect()).collect();
                case(mc, i, t, l, Some(&one), false);
            }
        }
    });
    // extreme but ordinary physical magnitudes
    let tiny: Vec<C> = vec![num(1e-40), num(2.5e-37), num(1e24)];
    let tinyo: Vec<C> = vec![num(0.0), num(-1e-41), num(3e-39)];
    let mt = matrices(2, &tiny, &tinyo);
    mc.par("small and large magnitudes", (pool.len() * mt.len()) as u64, 4, |i| {
        case(mc, i, &pool[i as usize % pool.len()], &["x", "y"], Some(&mt[i as usize / pool.len()]), false);
    });
    validation(mc);
}
