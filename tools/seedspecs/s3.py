exec(open('/verif/tools/seedspecs/s2.py').read().split('SEEDS=')[0])
SEEDS=[
dict(id='c16-zero-partial-break', property='C16',
 needs='three or more variables, the middle one absent from the formula, and the outer two correlated',
 breaks='the search for covariance terms stops at the first variable the formula does not depend on, so later correlations are lost',
 edits=[('src/uncertainty.rs',"""            if partials[i].is_zero_num() || partials[j].is_zero_num() {
                continue;
            }""","""            if partials[i].is_zero_num() || partials[j].is_zero_num() {
                break;
            }""")],
 demo=PRE+r'''
fn main() {
    let n = |v| CovEntry::Num(v);
    let cov = CovarianceMatrix::new(vec![
        vec![n(1.0), n(0.0), n(0.5)],
        vec![n(0.0), n(1.0), n(0.0)],
        vec![n(0.5), n(0.0), n(1.0)],
    ]).unwrap();
    let s = uncertainty_propagation(&p("x+z"), &["x", "y", "z"], Some(&cov)).unwrap();
    want(ev(&s, &[("x", 1.0), ("y", 1.0), ("z", 1.0)]), 3f64.sqrt());
}
'''),
dict(id='c22-fused-mul-add', property='C22',
 needs='mul_add whose second operand also depends on the variable',
 breaks='the fused multiply-add of dual numbers drops the derivative of the multiplier',
 edits=[('src/math/dual.rs',"""        // self * a + b
        self * a + b
    }""","""        // self * a + b, fused
        Self::new(
            self.val.mul_add(a.val, b.val),
            self.eps.mul_add(a.val, b.eps),
        )
    }""")],
 demo=r'''
use symb_anafis::Dual;
use symb_anafis::MathScalar;
fn fused<T: MathScalar>(a: T, b: T, c: T) -> T { a.mul_add(b, c) }
fn main() {
    let x = Dual::new(3.0, 1.0);
    let got = fused(x, x, Dual::constant(1.0));
    println!("{} {}", got.val, got.eps);
    if got.val != 10.0 || got.eps != 6.0 { std::process::exit(1); }
}
'''),
dict(id='c08-broadcast-first', property='C08',
 needs='all-numeric columns where one has at least two values but fewer than the longest',
 breaks='a short column is continued with its first value instead of its last, and only when every value is a number',
 edits=[('src/bindings/parallel.rs',"""                                        var_vals.last().expect(
                                            "Column cannot be empty (validated earlier)",
                                        )
                                    };
                                    if let Value::Num(n) = val {""","""                                        var_vals.first().expect(
                                            "Column cannot be empty (validated earlier)",
                                        )
                                    };
                                    if let Value::Num(n) = val {""")],
 demo=r'''
use symb_anafis::*;
use symb_anafis::parallel::*;
fn main() {
    let r = evaluate_parallel(
        vec![ExprInput::from("x+y")],
        vec![vec![VarInput::from("x"), VarInput::from("y")]],
        vec![vec![
            vec![Value::Num(1.0), Value::Num(2.0), Value::Num(3.0)],
            vec![Value::Num(10.0), Value::Num(20.0)],
        ]],
    ).unwrap();
    let s: Vec<String> = r[0].iter().map(|v| v.to_string()).collect();
    println!("{s:?}");
    if s != ["11", "22", "23"] { std::process::exit(1); }
}
'''),
dict(id='c15-fold-operands', property='C15',
 needs='a fold whose function does not commute, over a division or power',
 breaks='folding visits the right operand of a division or power before the left one',
 edits=[('src/core/expr/analysis.rs',"""                let acc = l.fold(acc, f);
                r.fold(acc, f)""","""                let acc = r.fold(acc, f);
                l.fold(acc, f)""")],
 demo=r'''
use symb_anafis::*;
fn main() {
    let (x, y) = (symb("x"), symb("y"));
    let e = x.to_expr() / y.to_expr();
    let order = e.fold(String::new(), |acc, n| format!("{acc}[{n}]"));
    println!("{order}");
    if order != "[x/y][x][y]" { std::process::exit(1); }
}
'''),
dict(id='c10-sinc-series', property='C10',
 needs='sinc of an argument between 0.1 and 0.5 on the evaluation route (the compiled routes are right)',
 breaks='evaluating sinc uses its short series far outside the range where it is accurate',
 edits=[('src/functions/definitions.rs',"""                if x.abs() < 1e-10 {
                    Some(1.0 - x * x / 6.0 + x.powi(4) / 120.0)""","""                if x.abs() < 0.5 {
                    // The series avoids dividing small numbers
                    Some(1.0 - x * x / 6.0 + x.powi(4) / 120.0)""")],
 demo=PRE+r'''
fn main() { want(ev(&p("sinc(x)"), &[("x", 0.45)]), 0.45f64.sin() / 0.45); }
'''),
dict(id='c09-log-base', property='C09',
 needs='log(b, x) where both the base and the argument depend on the variable',
 breaks='the derivative of log(b, x) leaves out the part of the base whenever the argument varies too',
 edits=[('src/functions/definitions.rs',"""                let term1 = Expr::div_expr(
                    x_prime,
                    Expr::mul_from_arcs(vec![Arc::clone(&x), Arc::new(ln_b.clone())]),
                );
""","""                let x_is_constant = x_prime.is_zero_num();
                let term1 = Expr::div_expr(
                    x_prime,
                    Expr::mul_from_arcs(vec![Arc::clone(&x), Arc::new(ln_b.clone())]),
                );
                if !x_is_constant {
                    return term1;
                }
""")],
 demo=PRE+r'''
fn main() {
    let d = Diff::new().diff_str("log(x, x^2+1)", "x", &[]).unwrap();
    let x: f64 = 3.0;
    let (l, g) = (x.ln(), x.mul_add(x, 1.0));
    want(ev(&p(&d), &[("x", x)]), 2.0 * x / (g * l) - g.ln() / (x * l * l));
}
'''),
dict(id='c17-constant-argument', property='C17',
 needs='a user function of several arguments where an earlier argument is constant in the variable and a later one is not',
 breaks='the chain rule for user functions stops at the first constant argument',
 edits=[('src/diff/engine.rs',"""                        // Skip if derivative is zero
                        if arg_prime.is_zero_num() {
                            continue;
                        }

                        // Try to get""","""                        // Skip if derivative is zero
                        if arg_prime.is_zero_num() {
                            break;
                        }

                        // Try to get""")],
 demo=PRE+r'''
fn main() {
    let f = UserFunction::new(2..=2)
        .body(|a| (*a[0]).clone() * (*a[1]).clone())
        .partial(0, |a| (*a[1]).clone()).unwrap()
        .partial(1, |a| (*a[0]).clone()).unwrap();
    let ctx = Context::new().with_function("f", f);
    let d = Diff::new().with_context(&ctx).diff_str("f(a, x^2)", "x", &[]).unwrap();
    want(ev(&p(&d), &[("a", 3.0), ("x", 2.0)]), 12.0);
}
'''),
dict(id='c21-depth-first-argument', property='C21',
 needs='a depth limit and a function of several arguments whose later argument is the deepest',
 breaks='only the first argument of a call counts for the depth, so too deep expressions are accepted',
 edits=[('src/core/expr/analysis.rs',"""                1 + args.iter().map(|a| a.max_depth()).max().unwrap_or(0)""","""                1 + args.first().map_or(0, |a| a.max_depth())""")],
 demo=PRE+r'''
fn main() {
    let e = p("atan2(x, sin(cos(sin(cos(x)))))");
    println!("depth {}", e.max_depth());
    if Simplify::new().max_depth(4).simplify(&e).is_ok() { std::process::exit(1); }
    if Simplify::new().max_depth(6).simplify(&e).is_err() { std::process::exit(1); }
}
'''),
]
