//! Shapes with one, two or three numeric places, filled with every number of a list: a rule that only
//! fires, or an evaluation path that is only taken, for particular coefficients, exponents or orders.
use crate::tree::*;

pub fn numbers() -> Vec<f64> {
    let mut o: Vec<f64> = (-12..=12).map(f64::from).collect();
    for k in [15, 16, 17, 18, 20, 24, 25, 27, 30, 32, 33, 36, 45, 48, 49, 60, 63, 64, 65, 81, 90, 99, 100, 120, 121, 125, 127, 128, 144, 180, 255, 256, 343, 360, 512, 1000, 1024] {
        o.push(f64::from(k));
    }
    for k in [0.1, 0.2, 0.25, 0.3, 0.5, 0.6, 0.75, 0.8, 1.0 / 3.0, 2.0 / 3.0, 0.125, 0.0625, 1.25, 1.5, 1.75, 2.25, 2.5, 3.5, 4.5, 5.5, 7.5, 1e-3, 1e-7, 1e6, 1e10] {
        o.push(k);
        o.push(-k);
    }
    o
}

/// A power or root that the numbers would take out of range says nothing.
fn big(k: f64) -> bool {
    k.abs() > 200.0 || (k != 0.0 && k.abs() < 1e-4)
}

fn one(k: f64) -> Vec<A> {
    let x = || v("x");
    let y = || v("y");
    let m = || n(k);
    let sq = |a: A| pow(a, n(2.0));
    let pi = || c("pi");
    let mut o = vec![
        mul(m(), x()),
        mul(x(), m()),
        div(x(), m()),
        div(m(), x()),
        add(x(), m()),
        sub(m(), x()),
        sq(add(x(), m())),
        sq(mul(m(), x())),
        pow(mul(m(), x()), n(3.0)),
        f("sin", mul(m(), x())),
        f("cos", mul(m(), x())),
        f("tan", mul(m(), x())),
        f("exp", mul(m(), x())),
        f("ln", mul(m(), x())),
        f("sqrt", mul(m(), x())),
        f("cbrt", mul(m(), x())),
        f("abs", mul(m(), x())),
        f("abs", add(x(), m())),
        f("sinh", mul(m(), x())),
        f("tanh", add(x(), m())),
        f("atan", mul(m(), x())),
        f("sqrt", m()),
        f("cbrt", m()),
        f("abs", m()),
        f("ln", m()),
        f("exp", m()),
        f("gamma", m()),
        f("atan", m()),
        f("sin", div(mul(m(), pi()), n(12.0))),
        f("cos", div(mul(m(), pi()), n(12.0))),
        f("tan", div(mul(m(), pi()), n(12.0))),
        f("sin", add(x(), div(mul(m(), pi()), n(12.0)))),
        f("cos", sub(div(mul(m(), pi()), n(2.0)), x())),
        f("sin", add(x(), mul(m(), pi()))),
        f("tan", add(mul(m(), pi()), x())),
        f2("log", m(), x()),
        f2("log", x(), m()),
        f("ln", mul(m(), c("e"))),
        f("gamma", add(x(), m())),
        f("sinc", mul(m(), x())),
        f("erf", mul(m(), x())),
        f("floor", mul(m(), x())),
        f("round", add(x(), m())),
        add(mul(m(), x()), x()),
        sub(mul(m(), x()), mul(n(3.0), x())),
        add(sq(x()), m()),
        sub(mul(m(), sq(x())), x()),
        div(add(x(), m()), add(x(), n(1.0))),
        add(div(x(), m()), div(y(), n(6.0))),
        div(mul(n(6.0), x()), mul(m(), y())),
        mul(m(), add(x(), y())),
        neg(mul(m(), add(x(), y()))),
        add(sq(f("sin", mul(m(), x()))), sq(f("cos", mul(m(), x())))),
        mul(mul(m(), f("sin", x())), f("cos", x())),
        sub(sq(f("cosh", mul(m(), x()))), sq(f("sinh", mul(m(), x())))),
        div(sub(f("exp", mul(m(), x())), f("exp", neg(mul(m(), x())))), n(2.0)),
        div(sub(f("exp", x()), f("exp", neg(x()))), m()),
        div(f("sin", mul(m(), x())), x()),
        div(f("sin", mul(m(), x())), f("cos", mul(m(), x()))),
        mul(f("sqrt", m()), f("sqrt", x())),
        sub(f("ln", mul(m(), x())), f("ln", x())),
        mul(m(), f("ln", x())),
        f2("atan2", mul(m(), x()), y()),
    ];
    if !big(k) {
        o.extend([
            pow(x(), m()),
            pow(m(), x()),
            pow(neg(x()), m()),
            neg(pow(x(), m())),
            f("ln", pow(x(), m())),
            f("exp", mul(m(), f("ln", x()))),
            pow(sq(x()), m()),
            pow(pow(x(), m()), n(2.0)),
            pow(pow(x(), m()), n(0.5)),
            f("sqrt", pow(x(), m())),
            f("cbrt", pow(x(), m())),
            f("abs", pow(x(), m())),
            pow(f("sqrt", x()), m()),
            pow(f("cbrt", x()), m()),
            pow(f("abs", x()), m()),
            mul(pow(x(), m()), sq(x())),
            div(pow(x(), m()), sq(x())),
            div(sq(x()), pow(x(), m())),
            mul(pow(x(), m()), x()),
            mul(pow(x(), m()), pow(y(), m())),
            div(pow(x(), m()), pow(y(), m())),
            sub(pow(x(), m()), pow(y(), m())),
            add(pow(x(), m()), pow(y(), m())),
            pow(mul(x(), y()), m()),
            pow(div(x(), y()), m()),
            pow(x(), mul(m(), y())),
            pow(f("exp", x()), m()),
            pow(f("sin", x()), m()),
            pow(f("tan", x()), m()),
            pow(f("cosh", x()), m()),
            div(n(1.0), pow(x(), m())),
            div(n(1.0), pow(f("cos", x()), m())),
            pow(add(x(), n(1.0)), m()),
            pow(n(2.0), mul(m(), x())),
            pow(c("e"), mul(m(), x())),
            pow(n(2.0), m()),
            pow(n(-2.0), m()),
            pow(m(), n(3.0)),
            pow(m(), n(0.5)),
            pow(m(), n(-1.0)),
            pow(add(mul(m(), x()), n(1.0)), n(-2.0)),
            mul(m(), pow(x(), m())),
            pow(f("ln", x()), m()),
            f2("besselj", m(), x()),
            f2("hermite", m(), x()),
        ]);
        if k != 0.0 {
            o.extend([pow(x(), div(n(1.0), m())), pow(x(), div(n(2.0), m())), pow(pow(x(), m()), div(n(1.0), m())), f("ln", pow(x(), div(n(1.0), m())))]);
        }
    }
    o
}

fn two(j: f64, k: f64) -> Vec<A> {
    let x = || v("x");
    let y = || v("y");
    let a = || n(j);
    let b = || n(k);
    let sq = |t: A| pow(t, n(2.0));
    let (s, co) = (|| f("sin", x()), || f("cos", x()));
    let mut o = vec![
        add(mul(a(), x()), mul(b(), y())),
        add(mul(a(), x()), mul(b(), x())),
        sq(add(mul(a(), x()), b())),
        mul(add(x(), a()), add(x(), b())),
        div(add(x(), a()), add(x(), b())),
        div(add(mul(a(), x()), b()), b()),
        add(add(sq(x()), mul(a(), x())), b()),
        div(mul(a(), x()), mul(b(), y())),
        mul(mul(a(), x()), mul(b(), sq(x()))),
        sub(mul(a(), sq(x())), mul(b(), sq(y()))),
        add(mul(a(), sq(s())), mul(b(), sq(co()))),
        sub(mul(a(), sq(s())), b()),
        add(mul(mul(a(), s()), f("cos", y())), mul(mul(b(), co()), f("sin", y()))),
        sub(mul(a(), s()), mul(b(), pow(s(), n(3.0)))),
        sub(mul(a(), pow(co(), n(3.0))), mul(b(), co())),
        sub(mul(a(), sq(f("cosh", x()))), mul(b(), sq(f("sinh", x())))),
        add(a(), mul(b(), sq(f("tan", x())))),
        add(mul(a(), f("exp", x())), mul(b(), f("exp", neg(x())))),
        mul(f("exp", mul(a(), x())), f("exp", mul(b(), x()))),
        div(f("exp", mul(a(), x())), f("exp", mul(b(), x()))),
        add(mul(a(), f("ln", x())), mul(b(), f("ln", y()))),
        f("ln", div(mul(a(), x()), mul(b(), y()))),
        f("sqrt", mul(mul(a(), sq(x())), b())),
        mul(f("sqrt", mul(a(), x())), f("sqrt", mul(b(), x()))),
        f("cos", add(mul(a(), x()), b())),
        f2("log", a(), mul(b(), x())),
        f2("atan2", a(), b()),
    ];
    if j != 0.0 && k != 0.0 {
        o.extend([
            add(div(x(), a()), div(y(), b())),
            add(div(a(), x()), div(b(), y())),
            pow(x(), div(a(), b())),
            pow(pow(x(), div(n(1.0), a())), b()),
            div(a(), mul(b(), x())),
            mul(x(), div(a(), b())),
            f("sin", div(mul(a(), c("pi")), b())),
            f("cos", add(x(), div(mul(a(), c("pi")), b()))),
            pow(div(mul(a(), x()), b()), n(2.0)),
            div(div(x(), a()), div(y(), b())),
        ]);
    }
    if !big(j) && !big(k) {
        o.extend([
            mul(pow(x(), a()), pow(x(), b())),
            div(pow(x(), a()), pow(x(), b())),
            pow(pow(x(), a()), b()),
            add(pow(x(), a()), pow(x(), b())),
            mul(pow(x(), a()), pow(y(), b())),
            div(pow(x(), a()), pow(y(), b())),
            mul(a(), pow(x(), b())),
            pow(mul(a(), x()), b()),
            pow(a(), b()),
            pow(a(), mul(b(), x())),
            pow(add(x(), a()), b()),
            pow(mul(pow(x(), a()), y()), b()),
            f("sqrt", mul(pow(x(), a()), pow(y(), b()))),
            div(pow(s(), a()), pow(co(), b())),
            f("ln", mul(pow(x(), a()), pow(y(), b()))),
            f("ln", div(pow(x(), a()), pow(y(), b()))),
            mul(pow(add(x(), n(1.0)), a()), pow(add(x(), n(1.0)), b())),
        ]);
    }
    o
}

/// Every shape with every choice of numbers.
pub fn slots(thorough: bool) -> Vec<A> {
    let mut o = vec![];
    for k in numbers() {
        o.extend(one(k));
    }
    let mut m: Vec<f64> = (if thorough { -9..=9 } else { -4..=6 }).map(f64::from).collect();
    m.extend([0.5, -0.5, 1.5, 0.25, 12.0, 1.0 / 3.0]);
    if thorough {
        m.extend([10.0, 16.0, 18.0, 27.0, 36.0, 64.0, 100.0, 2.0 / 3.0, 0.1, 2.5, -1.5, 0.75]);
    }
    for &j in &m {
        for &k in &m {
            o.extend(two(j, k));
        }
    }
    let r = if thorough { 7 } else { 4 };
    for j in -r..=r {
        for k in -r..=r {
            for l in -r..=r {
                let (j, k, l) = (f64::from(j), f64::from(k), f64::from(l));
                let x = || v("x");
                o.push(add(add(mul(n(j), pow(x(), n(2.0))), mul(n(k), x())), n(l)));
                o.push(add(add(mul(n(j), pow(x(), n(2.0))), mul(mul(n(k), x()), v("y"))), mul(n(l), pow(v("y"), n(2.0)))));
                o.push(div(add(mul(n(j), x()), n(k)), add(mul(n(k), x()), n(l))));
                o.push(pow(mul(n(j), pow(x(), n(k))), n(l)));
            }
        }
    }
    // the same shapes inside something else
    for k in [-3.0, -2.0, -1.0, 2.0, 3.0, 4.0, 0.5, 1.0 / 3.0, 1.5, 6.0] {
        for t in one(k) {
            let u = || t.clone();
            let (x, y) = (|| v("x"), || v("y"));
            o.extend([
                neg(u()),
                add(u(), x()),
                sub(n(1.0), u()),
                mul(u(), y()),
                mul(n(-2.0), u()),
                div(u(), x()),
                div(n(2.0), u()),
                div(u(), add(x(), n(1.0))),
                pow(u(), n(2.0)),
                pow(u(), n(-1.0)),
                pow(u(), n(0.5)),
                pow(u(), n(3.0)),
                pow(u(), y()),
                pow(n(2.0), u()),
                f("sqrt", u()),
                f("abs", u()),
                f("exp", u()),
                f("ln", u()),
                f("sin", u()),
                f("tanh", u()),
                f("atan", u()),
            ]);
        }
    }
    // and next to each other
    for (j, k) in if thorough { vec![(2.0, 2.0), (2.0, 3.0), (-1.0, 2.0), (3.0, 0.5), (4.0, -2.0), (1.5, 0.5)] } else { vec![(2.0, 2.0), (3.0, -1.0)] } {
        let (p, q) = (one(j), one(k));
        for a in &p {
            for b in &q {
                let (a, b) = (|| a.clone(), || b.clone());
                o.extend([add(a(), b()), sub(a(), b()), mul(a(), b()), div(a(), b())]);
            }
        }
    }
    o
}
