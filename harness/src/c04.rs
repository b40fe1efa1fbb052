//! C04: building expressions is algebraically faithful and canonical.
use crate::fw::{hash64, Mc};
use crate::num::{arity, E, UNARY};
use crate::tree::*;
use std::collections::HashMap;
use std::sync::Arc;
use symb_anafis::{symb, ArcExprExt, Expr, Symbol};

const PTS: &[f64] = &[0.6, -1.7, 2.3, 0.0, -1.0];

fn points(t: &T) -> Vec<Vec<(&'static str, f64)>> {
    let vars = t.var_list();
    match vars.len() {
        0 => vec![vec![]],
        1 => grid(&vars, PTS),
        2 => grid(&vars, &PTS[..4]),
        _ => grid(&vars, &PTS[..2]),
    }
}

/// The value of `e` is that of `t` wherever `t` is defined.
fn faithful(mc: &Arc<Mc>, rank: u64, what: &str, t: &T, e: &Expr) -> bool {
    let back = read(e);
    for p in points(t) {
        let want = t.eval(&p);
        if !want.defined() || !want.stable() || !want.v.is_finite() {
            continue;
        }
        mc.trans(1);
        let b = back.eval(&p);
        let got = lib_eval(e, &p);
        if !agree(&want, got) && !agree2(&want, &b) {
            mc.violation(rank, what, &format!("built {e}: at {} it is {got:?} (read back: {:?}), the operands give {:?}", env_text(&p), b.v, want.v));
            return false;
        }
        if !b.v.is_nan() && !agree2(&want, &b) {
            mc.violation(rank, what, &format!("built {e}: at {} the structure means {:?}, the operands give {:?}", env_text(&p), b.v, want.v));
            return false;
        }
    }
    true
}

fn shown(t: &T) -> String {
    format!("operators: {}", t.text())
}

pub fn run(mc: &Arc<Mc>) {
    let th = mc.thorough as usize;
    let x = || v("x");
    let y = || v("y");
    let sq = |a: A| pow(a, n(2.0));
    let al = |leaves: Vec<A>, un: Vec<&'static str>, bin: &'static str| Alpha { leaves, un, neg: true, bin, bfn: vec![] };
    let quad = || add(add(sq(x()), mul(n(3.0), x())), n(1.0));
    let themes: Vec<(&str, Alpha, usize)> = vec![
        ("arith", al(vec![x(), y(), n(2.0), n(-1.0), n(0.5), n(0.0)], vec![], "+-*/^"), 6 + th),
        ("ints", al(vec![x(), n(0.0), n(1.0), n(2.0), n(-3.0)], vec!["sqrt"], "+-*/^"), 6 + th),
        (
            "poly",
            al(vec![x(), add(x(), n(1.0)), sq(x()), quad(), sub(sq(x()), quad()), mul(n(2.0), x()), mul(n(-2.0), x()), pow(x(), n(3.0)), n(2.0), n(-1.0), y(), mul(x(), y()), add(x(), y())], vec![], "+-*/^"),
            5,
        ),
        (
            "fpoly",
            al(
                vec![
                    f("sin", x()), sq(f("sin", x())), f("cos", x()), mul(n(2.0), f("sin", x())), add(add(sq(f("sin", x())), f("sin", x())), n(2.0)), add(x(), add(sq(x()), pow(x(), n(3.0)))), f("sin", y()), x(), n(2.0), n(-1.0), sq(add(x(), y())), add(x(), y()),
                ],
                vec!["sin", "sqrt"],
                "+-*/^",
            ),
            5,
        ),
        (
            "tiny",
            al(vec![x(), n(1e-11), n(1e-300), n(1.0 + 1e-11), n(-1.0 - 1e-11), n(1e16), n(1e-16), n(3e-7), n(0.1), n(0.2), n(0.3), n(2.0)], vec![], "+-*/^"),
            5,
        ),
        ("huge", al(vec![x(), n(1e300), n(1e308), n(9007199254740993.0), n(4503599627370497.5), n(-1e15), n(1e15), n(63.0), n(2.0), n(3.0), n(1e-308)], vec![], "+-*/^"), 5),
        ("consts", al(vec![x(), c("pi"), c("e"), n(2.0), n(1.0), n(-1.0)], vec!["exp", "ln"], "+-*/^"), 5 + th),
        ("functions", al(vec![x(), y(), n(2.0), n(-1.0), n(0.0), n(0.5)], UNARY.to_vec(), "+-*/^"), 3 + th),
        ("three", al(vec![x(), y(), v("z"), n(2.0), n(-1.0)], vec![], "+-*/"), 6 + th),
    ];
    for (name, a, k) in &themes {
        sweep(mc, name, a, *k, |rank, t| {
            let what = shown(t);
            if !mc.wants(&what) {
                return;
            }
            mc.enter(&what);
            let e = t.expr();
            if mc.state(&e.to_string()) {
                mc.trace();
            }
            faithful(mc, rank, &what, t, &e);
        });
    }
    let cc = collision_cases(if mc.thorough { 20000 } else { 4000 });
    mc.par("hash-collisions", cc.len() as u64, 64, |i| {
        let t = &cc[i as usize];
        let what = shown(t);
        if mc.wants(&what) {
            mc.enter(&what);
            mc.trace();
            faithful(mc, i, &what, t, &t.expr());
        }
    });
    let sl = crate::slots::slots(mc.thorough);
    mc.par("numbers", sl.len() as u64, 16, |i| {
        let t = &sl[i as usize];
        let what = shown(t);
        if mc.wants(&what) {
            mc.enter(&what);
            mc.trace();
            faithful(mc, 1 << 50 | i, &what, t, &t.expr());
        }
    });
    routes(mc);
    operator_types(mc);
    methods(mc);
    permutations(mc);
    equal_pairs(mc);
    mc.note("value comparison at a grid of positive, negative and zero values with propagated rounding bounds; points where the operands' combination is undefined are not compared");
}

/// Every public construction route gives the same value: static constructors on values and on Arcs, and rebuilt copies.
fn routes(mc: &Arc<Mc>) {
    let leaves = pool(mc);
    let np = leaves.len() as u64;
    mc.par("routes", np * np, 16, |i| {
        let (a, b) = (&leaves[(i / np) as usize], &leaves[(i % np) as usize]);
        let what0 = format!("{} , {}", a.text(), b.text());
        if !mc.wants(&what0) {
            return;
        }
        let (ea, eb) = (a.expr(), b.expr());
        let arcs = || vec![Arc::new(ea.clone()), Arc::new(eb.clone())];
        let go = |name: &str, t: A, e: Expr| {
            let w = format!("{name}({what0})");
            mc.enter(&w);
            faithful(mc, i, &w, &t, &e);
        };
        let (ta, tb) = (a.clone(), b.clone());
        mc.enter(&what0);
        go("add_expr", add(ta.clone(), tb.clone()), Expr::add_expr(ea.clone(), eb.clone()));
        go("sub_expr", sub(ta.clone(), tb.clone()), Expr::sub_expr(ea.clone(), eb.clone()));
        go("mul_expr", mul(ta.clone(), tb.clone()), Expr::mul_expr(ea.clone(), eb.clone()));
        go("div_expr", div(ta.clone(), tb.clone()), Expr::div_expr(ea.clone(), eb.clone()));
        go("pow_static", pow(ta.clone(), tb.clone()), Expr::pow_static(ea.clone(), eb.clone()));
        go("pow", pow(ta.clone(), tb.clone()), ea.clone().pow(eb.clone()));
        go("sum", add(ta.clone(), tb.clone()), Expr::sum(vec![ea.clone(), eb.clone()]));
        go("product", mul(ta.clone(), tb.clone()), Expr::product(vec![ea.clone(), eb.clone()]));
        go("sum_from_arcs", add(ta.clone(), tb.clone()), Expr::sum_from_arcs(arcs()));
        go("product_from_arcs", mul(ta.clone(), tb.clone()), Expr::product_from_arcs(arcs()));
        go("mul_from_arcs", mul(ta.clone(), tb.clone()), Expr::mul_from_arcs(arcs()));
        // shared arcs
        let (ka, kb) = (Arc::new(ea.clone()), Arc::new(eb.clone()));
        go("sum_from_arcs shared", add(ta.clone(), add(tb.clone(), ta.clone())), Expr::sum_from_arcs(vec![ka.clone(), kb.clone(), ka.clone()]));
        go("product_from_arcs shared", mul(ta.clone(), mul(tb.clone(), ta.clone())), Expr::product_from_arcs(vec![ka.clone(), kb.clone(), ka.clone()]));
        go("div_from_arcs", div(ta.clone(), tb.clone()), Expr::div_from_arcs(ka.clone(), kb.clone()));
        go("pow_from_arcs", pow(ta.clone(), tb.clone()), Expr::pow_from_arcs(ka.clone(), kb.clone()));
        go("negate", neg(ta.clone()), ea.clone().negate());
        go("Expr+Arc", add(ta.clone(), tb.clone()), ea.clone() + kb.clone());
        go("Expr-Arc", sub(ta.clone(), tb.clone()), ea.clone() - kb.clone());
        go("Expr*Arc", mul(ta.clone(), tb.clone()), ea.clone() * kb.clone());
        go("Expr/Arc", div(ta.clone(), tb.clone()), ea.clone() / kb.clone());
        go("Expr+&Arc", add(ta.clone(), tb.clone()), ea.clone() + &kb);
        go("Expr-&Arc", sub(ta.clone(), tb.clone()), ea.clone() - &kb);
        go("Expr*&Arc", mul(ta.clone(), tb.clone()), ea.clone() * &kb);
        go("Expr/&Arc", div(ta.clone(), tb.clone()), ea.clone() / &kb);
        go("Arc.pow", pow(ta.clone(), tb.clone()), ka.pow(eb.clone()));
        go("func_multi", Arc::new(T::F("atan2", vec![ta.clone(), tb.clone()])), Expr::func_multi("atan2", vec![ea.clone(), eb.clone()]));
        go("call", Arc::new(T::F("atan2", vec![ta.clone(), tb.clone()])), Expr::call("atan2", [ea.clone(), eb.clone()]));
        go("func_multi_from_arcs", Arc::new(T::F("atan2", vec![ta.clone(), tb.clone()])), Expr::func_multi_from_arcs("atan2", vec![ka.clone(), kb.clone()]));
        go("func", f("sin", mul(ta.clone(), tb.clone())), Expr::func("sin", ea.clone() * eb.clone()));
        // copies
        let e = ea.clone() * eb.clone() + ea.clone();
        let t = add(mul(ta.clone(), tb.clone()), ta.clone());
        go("deep_clone", t.clone(), e.deep_clone());
        let c = e.deep_clone();
        if e != c || hash64(&e) != hash64(&c) || e != e.clone() {
            mc.violation(i, &format!("copy of ({what0}) sum"), "a copy is not equal to its original");
        }
    });
}

/// Operand expressions of every form.
fn pool(_mc: &Arc<Mc>) -> Vec<A> {
    let x = || v("x");
    let y = || v("y");
    let sq = |a: A| pow(a, n(2.0));
    vec![
        n(0.0), n(1.0), n(-1.0), n(2.0), n(0.5), n(-3.0), n(1.0 / 1099511627776.0), n(1073741824.0), x(), y(), c("pi"), c("e"),
        neg(x()), mul(n(2.0), x()), mul(n(-0.5), x()), mul(x(), y()), mul(n(3.0), mul(x(), y())), sq(x()), pow(x(), n(3.0)), pow(x(), n(-1.0)), pow(x(), n(0.5)), pow(x(), y()),
        mul(n(2.0), sq(x())), mul(n(-2.0), sq(x())), add(x(), n(1.0)), add(x(), y()), sub(x(), y()), add(add(sq(x()), x()), n(1.0)), sub(add(sq(x()), x()), n(1.0)), add(add(pow(x(), n(3.0)), sq(x())), x()),
        add(sq(x()), x()), add(mul(n(2.0), x()), mul(n(3.0), sq(x()))), div(x(), y()), div(n(1.0), x()), div(n(3.0), n(2.0)), sq(add(x(), n(1.0))), sq(add(x(), y())), pow(n(2.0), x()), pow(c("e"), x()),
        f("sin", x()), f("cos", x()), f("sin", y()), sq(f("sin", x())), mul(n(2.0), f("sin", x())), add(sq(f("sin", x())), f("sin", x())), add(add(sq(f("sin", x())), f("sin", x())), n(1.0)), f("exp", x()), f("sqrt", x()), f("abs", x()), f("ln", x()),
        mul(x(), f("sin", x())), div(f("sin", x()), x()), f("sin", add(x(), y())), div(add(x(), n(1.0)), sub(x(), y())), add(div(x(), y()), n(1.0)),
    ]
}

/// Sums and products of the same operands in every order are equal, hash alike, and have the right value.
fn permutations(mc: &Arc<Mc>) {
    let p = pool(mc);
    let built: Vec<Expr> = p.iter().map(|t| t.expr()).collect();
    let np = p.len();
    let mut sets: Vec<Vec<usize>> = vec![];
    for a in 0..np {
        for b in a..np {
            sets.push(vec![a, b]);
            for c in b..np {
                sets.push(vec![a, b, c]);
            }
        }
    }
    // four and five operands from a smaller pool of mergeable forms
    let small: Vec<usize> = (0..np).filter(|i| i % if mc.thorough { 2 } else { 4 } == 0).collect();
    for (i, a) in small.iter().enumerate() {
        for (j, b) in small.iter().enumerate().skip(i) {
            for (k, c) in small.iter().enumerate().skip(j) {
                for d in small.iter().skip(k) {
                    sets.push(vec![*a, *b, *c, *d]);
                }
            }
        }
    }
    mc.par("orders", sets.len() as u64, 16, |i| {
        let s = &sets[i as usize];
        let txt = s.iter().map(|k| p[*k].text()).collect::<Vec<_>>().join(" , ");
        if !mc.wants(&txt) {
            return;
        }
        for (op, tree) in [("sum", T::Sum(s.iter().map(|k| p[*k].clone()).collect())), ("product", T::Prod(s.iter().map(|k| p[*k].clone()).collect()))] {
            let what = format!("{op} of [{txt}] in every order");
            mc.enter(&what);
            let mut first: Option<(Expr, Vec<usize>)> = None;
            let mut ok = true;
            permute(s, &mut |ord| {
                if !ok {
                    return;
                }
                let es = || ord.iter().map(|k| built[*k].clone()).collect::<Vec<_>>();
                let e = if op == "sum" { Expr::sum(es()) } else { Expr::product(es()) };
                let arcs: Vec<Arc<Expr>> = es().into_iter().map(Arc::new).collect();
                let e2 = if op == "sum" { Expr::sum_from_arcs(arcs) } else { Expr::product_from_arcs(arcs) };
                mc.trans(2);
                if first.is_none() {
                    ok &= faithful(mc, i, &what, &tree, &e);
                    first = Some((e.clone(), ord.to_vec()));
                }
                let (f0, o0) = first.as_ref().unwrap();
                for g in [&e, &e2] {
                    if g != f0 || f0 != g || hash64(g) != hash64(f0) || g.structural_hash() != f0.structural_hash() {
                        mc.violation(i, &what, &format!("order {o0:?} gives {f0} but order {ord:?} gives {g}, and they do not compare equal with equal hashes"));
                        ok = false;
                        return;
                    }
                }
            });
        }
    });
}

fn permute(s: &[usize], f: &mut dyn FnMut(&[usize])) {
    fn go(cur: &mut Vec<usize>, rest: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if rest.is_empty() {
            f(cur);
            return;
        }
        for i in 0..rest.len() {
            if rest[..i].contains(&rest[i]) {
                continue;
            }
            let k = rest.remove(i);
            cur.push(k);
            go(cur, rest, f);
            cur.pop();
            rest.insert(i, k);
        }
    }
    go(&mut vec![], &mut s.to_vec(), f);
}

/// All pairs of a large family of small expressions: those that compare equal have equal hashes and equal values.
fn equal_pairs(mc: &Arc<Mc>) {
    let x = || v("x");
    let al = Alpha { leaves: vec![x(), v("y"), n(2.0), n(-2.0), n(0.0), n(1.0), f("sin", x()), pow(x(), n(2.0))], un: vec!["sin"], neg: true, bin: "+-*/^", bfn: vec![] };
    let lv = al.levels(3);
    let mut pool: Vec<(A, Expr)> = vec![];
    for l in &lv {
        for t in l {
            pool.push((t.clone(), t.expr()));
        }
    }
    // four-node trees, thinned to keep all pairs affordable
    let cnt = al.count_at(&lv, 4);
    let step = if mc.thorough { 1 } else { 3 };
    for i in (0..cnt).step_by(step) {
        let t = al.nth(&lv, 4, i);
        let e = t.expr();
        pool.push((t, e));
    }
    let np = pool.len() as u64;
    mc.count("equal_pairs_pool", np);
    mc.par("equal-pairs", np, 8, |i| {
        let (t, e) = &pool[i as usize];
        mc.enter(&format!("pairs with {}", t.text()));
        for (u, g) in &pool[..=i as usize] {
            let eq = e == g;
            if eq != (g == e) {
                mc.violation(i, &format!("{} == {}", t.text(), u.text()), "equality depends on the order of the two sides");
                return;
            }
            if !eq {
                continue;
            }
            mc.trans(1);
            let what = format!("{} == {}", t.text(), u.text());
            if hash64(e) != hash64(g) || e.structural_hash() != g.structural_hash() {
                mc.violation(i, &what, &format!("{e} and {g} compare equal but hash differently"));
                return;
            }
            for p in points(&add(t.clone(), u.clone())) {
                let (a, b) = (t.eval(&p), u.eval(&p));
                if usable(&a) && usable(&b) && !agree2(&a, &b) {
                    mc.violation(i, &what, &format!("compare equal (both {e} / {g}) but at {} they are {:?} and {:?}", env_text(&p), a.v, b.v));
                    return;
                }
            }
        }
    });
    // Different things are different: number, symbol, function and power variants in the same position.
    let distinct: Vec<(A, Expr)> = lv[1].iter().chain(lv[2].iter()).map(|t| (t.clone(), t.expr())).collect();
    let nd = distinct.len();
    for i in 0..nd {
        for j in 0..i {
            let (t, e) = &distinct[i];
            let (u, g) = &distinct[j];
            let w: HashMap<&str, f64> = HashMap::from([("x", 0.73), ("y", 1.91)]);
            let none = HashMap::new();
            let (a, b) = (e.evaluate(&w, &none).as_number(), g.evaluate(&w, &none).as_number());
            if let (Some(a), Some(b)) = (a, b) {
                if (a - b).abs() > 1e-6 && e == g {
                    mc.violation(0, &format!("{} == {}", t.text(), u.text()), "compare equal with different values");
                }
            }
        }
    }
}

fn usable(e: &E) -> bool {
    e.defined() && e.stable() && e.v.is_finite()
}

/// Every operator on every pair of operand types.
fn operator_types(mc: &Arc<Mc>) {
    let vals: &[f64] = &[0.0, 1.0, -1.0, 2.0, -7.0];
    let exprs: Vec<A> = vec![v("x"), n(2.0), n(0.0), n(1.0), add(v("x"), n(1.0)), mul(n(2.0), v("y")), f("sin", v("x")), div(v("x"), v("y")), add(add(pow(v("x"), n(2.0)), v("x")), n(3.0)), pow(v("y"), n(2.0))];
    let syms: Vec<(A, Symbol)> = ["x", "y"].iter().map(|s| (v(s), symb(s))).collect();
    let mut cases = 0u64;
    let mut one = |name: &str, op: char, ta: &A, tb: &A, e: Expr| {
        let t = match op {
            '+' => add(ta.clone(), tb.clone()),
            '-' => sub(ta.clone(), tb.clone()),
            '*' => mul(ta.clone(), tb.clone()),
            _ => div(ta.clone(), tb.clone()),
        };
        let what = format!("{name}: {} {op} {}", ta.text(), tb.text());
        mc.enter(&what);
        cases += 1;
        mc.trace();
        faithful(mc, cases, &what, &t, &e);
    };
    macro_rules! four {
        ($name:expr, $ta:expr, $a:expr, $tb:expr, $b:expr) => {
            one($name, '+', $ta, $tb, $a + $b);
            one($name, '-', $ta, $tb, $a - $b);
            one($name, '*', $ta, $tb, $a * $b);
            one($name, '/', $ta, $tb, $a / $b);
        };
    }
    for (ts, s) in &syms {
        let s = *s;
        for (tu, u) in &syms {
            let u = *u;
            four!("Symbol,Symbol", ts, s, tu, u);
            four!("&Symbol,&Symbol", ts, &s, tu, &u);
            four!("&Symbol,Symbol", ts, &s, tu, u);
            four!("Symbol,&Symbol", ts, s, tu, &u);
        }
        for t in &exprs {
            let e = t.expr();
            four!("Symbol,Expr", ts, s, t, e.clone());
            four!("&Symbol,Expr", ts, &s, t, e.clone());
            four!("Symbol,&Expr", ts, s, t, &e);
            four!("Expr,Symbol", t, e.clone(), ts, s);
            four!("Expr,&Symbol", t, e.clone(), ts, &s);
            four!("&Expr,Symbol", t, &e, ts, s);
            four!("&Expr,&Symbol", t, &e, ts, &s);
        }
        for k in vals {
            let tk = n(*k);
            four!("Symbol,f64", ts, s, &tk, *k);
            four!("&Symbol,f64", ts, &s, &tk, *k);
            four!("f64,Symbol", &tk, *k, ts, s);
            four!("f64,&Symbol", &tk, *k, ts, &s);
            four!("Symbol,i32", ts, s, &tk, *k as i32);
            four!("&Symbol,i32", ts, &s, &tk, *k as i32);
            four!("i32,Symbol", &tk, *k as i32, ts, s);
        }
        one("-Symbol", '-', &n(0.0), ts, -s);
        one("-&Symbol", '-', &n(0.0), ts, -&s);
    }
    for t in &exprs {
        let e = t.expr();
        for u in &exprs {
            let g = u.expr();
            four!("Expr,Expr", t, e.clone(), u, g.clone());
            four!("Expr,&Expr", t, e.clone(), u, &g);
            four!("&Expr,Expr", t, &e, u, g.clone());
            four!("&Expr,&Expr", t, &e, u, &g);
        }
        for k in vals {
            let tk = n(*k);
            four!("Expr,f64", t, e.clone(), &tk, *k);
            four!("&Expr,f64", t, &e, &tk, *k);
            four!("f64,Expr", &tk, *k, t, e.clone());
            four!("f64,&Expr", &tk, *k, t, &e);
            four!("Expr,i32", t, e.clone(), &tk, *k as i32);
            four!("&Expr,i32", t, &e, &tk, *k as i32);
            four!("i32,Expr", &tk, *k as i32, t, e.clone());
            four!("i32,&Expr", &tk, *k as i32, t, &e);
        }
        one("-Expr", '-', &n(0.0), t, -e.clone());
        one("-&Expr", '-', &n(0.0), t, -&e);
    }
    mc.count("cases:operator-types", cases);
}

/// The method for a function builds that function of its operands in order.
fn methods(mc: &Arc<Mc>) {
    let mut cases = 0u64;
    let mut one = |route: &str, t: A, e: Expr| {
        let what = format!("{route} building {}", t.text());
        mc.enter(&what);
        cases += 1;
        mc.trace();
        // by structure: name and arguments in order
        let back = read(&e);
        let same = match (&*t, &*back) {
            (T::F(g, a), T::F(h, b)) => g == h && a.len() == b.len() && a.iter().zip(b).all(|(p, q)| same_value(p, q)),
            _ => false,
        };
        if !same {
            if faithful(mc, cases, &what, &t, &e) {
                // same value although written differently: must hold at some defined point
                let seen = points(&t).iter().any(|p| usable(&t.eval(p)));
                if !seen {
                    mc.violation(cases, &what, &format!("built {e} instead"));
                }
            }
        }
    };
    let sx = symb("x");
    let operands: Vec<A> = vec![v("x"), n(2.0), add(v("x"), v("y")), f("sin", v("x"))];
    macro_rules! unary {
        ($($m:ident),*) => {
            $(
                one(concat!("Symbol.", stringify!($m)), f(stringify!($m), v("x")), sx.$m());
                for t in &operands {
                    one(concat!("Expr.", stringify!($m)), f(stringify!($m), t.clone()), t.expr().$m());
                    one(concat!("Arc.", stringify!($m)), f(stringify!($m), t.clone()), Arc::new(t.expr()).$m());
                }
            )*
        };
    }
    unary!(
        sin, cos, tan, cot, sec, csc, asin, acos, atan, acot, asec, acsc, sinh, cosh, tanh, coth, sech, csch, asinh, acosh, atanh, acoth, asech, acsch, exp, ln, log10, log2, sqrt, cbrt, abs, floor, ceil, round, signum, erf, erfc, gamma, digamma, trigamma,
        tetragamma, zeta, lambertw, elliptic_k, elliptic_e, sinc
    );
    for t in &operands {
        let (e, te) = (t.expr(), t.clone());
        for u in &operands {
            let (g, tg) = (u.expr(), u.clone());
            let two = |h: &'static str, p: &A, q: &A| -> A { f2(h, p.clone(), q.clone()) };
            one("Expr.log", two("log", &tg, &te), e.clone().log(g.clone()));
            one("Expr.atan2", two("atan2", &te, &tg), e.clone().atan2(g.clone()));
            one("Expr.beta", two("beta", &te, &tg), e.clone().beta(g.clone()));
            for k in ["besselj", "bessely", "besseli", "besselk", "polygamma", "hermite", "zeta_deriv"] {
                let r = match k {
                    "besselj" => e.clone().besselj(g.clone()),
                    "bessely" => e.clone().bessely(g.clone()),
                    "besseli" => e.clone().besseli(g.clone()),
                    "besselk" => e.clone().besselk(g.clone()),
                    "polygamma" => e.clone().polygamma(g.clone()),
                    "hermite" => e.clone().hermite(g.clone()),
                    _ => e.clone().zeta_deriv(g.clone()),
                };
                one(leak(&format!("Expr.{k}")), two(crate::num::intern_fn(k).unwrap(), &tg, &te), r);
            }
            one("Arc.log", two("log", &tg, &te), Arc::new(e.clone()).log(g.clone()));
            // the number of arguments and their order
            one("Expr.assoc_legendre", fs("assoc_legendre", vec![tg.clone(), n(1.0), te.clone()]), e.clone().assoc_legendre(g.clone(), 1.0));
            one("Expr.ynm", fs("ynm", vec![tg.clone(), n(1.0), te.clone(), v("p")]), e.clone().ynm(g.clone(), 1.0, symb("p")));
        }
    }
    for (k, t) in [(2.0, n(2.0)), (-1.0, n(-1.0))] {
        one("Symbol.log", f2("log", t.clone(), v("x")), sx.log(k));
        one("Symbol.atan2", f2("atan2", v("x"), t.clone()), sx.atan2(k));
        one("Symbol.beta", f2("beta", v("x"), t.clone()), sx.beta(k));
        one("Symbol.besselj", f2("besselj", t.clone(), v("x")), sx.besselj(k));
        one("Symbol.bessely", f2("bessely", t.clone(), v("x")), sx.bessely(k));
        one("Symbol.besseli", f2("besseli", t.clone(), v("x")), sx.besseli(k));
        one("Symbol.besselk", f2("besselk", t.clone(), v("x")), sx.besselk(k));
        one("Symbol.polygamma", f2("polygamma", t.clone(), v("x")), sx.polygamma(k));
        one("Symbol.hermite", f2("hermite", t.clone(), v("x")), sx.hermite(k));
        one("Symbol.zeta_deriv", f2("zeta_deriv", t.clone(), v("x")), sx.zeta_deriv(k));
        one("Symbol.assoc_legendre", fs("assoc_legendre", vec![t.clone(), n(1.0), v("x")]), sx.assoc_legendre(k, 1.0));
        one("Symbol.ynm", fs("ynm", vec![t.clone(), n(1.0), v("x"), v("p")]), sx.ynm(k, 1.0, symb("p")));
    }
    mc.count("cases:methods", cases);
    let _ = arity("sin");
}

fn same_value(a: &A, b: &A) -> bool {
    points(&add(a.clone(), b.clone())).iter().all(|p| {
        let (x, y) = (a.eval(p), b.eval(p));
        !usable(&x) || agree2(&x, &y)
    })
}
