PRE=r'''
use std::collections::{HashMap, HashSet};
use symb_anafis::*;
#[allow(dead_code)]
fn p(s: &str) -> Expr { let n: HashSet<String> = HashSet::new(); parse(s, &n, &n, None).unwrap() }
#[allow(dead_code)]
fn ev(e: &Expr, v: &[(&str, f64)]) -> f64 {
    let m: HashMap<&str, f64> = v.iter().copied().collect();
    e.evaluate(&m, &HashMap::new()).as_number().unwrap_or(f64::NAN)
}
#[allow(dead_code)]
fn want(got: f64, want: f64) {
    println!("{got} expected {want}");
    if !((got - want).abs() <= 1e-9 * want.abs().max(1e-300)) { std::process::exit(1); }
}
'''
SEEDS=[
dict(id='c02-fixed-decimals', property='C02',
 needs='a non-integer constant below about 1e-10 in magnitude',
 breaks='non-integer numbers print with 15 decimals, so small constants lose digits or print as 0',
 edits=[('src/core/display.rs',"""    } else {
        write!(f, "{n}")
    }
}

// =============================================================================
// DISPLAY IMPLEMENTATION""","""    } else if is_int {
        write!(f, "{n}")
    } else {
        // Plain decimal notation without trailing zeros
        let text = format!("{n:.15}");
        write!(f, "{}", text.trim_end_matches('0').trim_end_matches('.'))
    }
}

// =============================================================================
// DISPLAY IMPLEMENTATION""")],
 demo=PRE+r'''
fn main() {
    let e = p("x*0.0000000000123456789");
    want(ev(&p(&e.to_string()), &[("x", 2.0)]), ev(&e, &[("x", 2.0)]));
}
'''),
dict(id='c12-sinh-negation', property='C12',
 needs='sinh of a negated product of two or more variables',
 breaks='sinh(-x*y) is rewritten to -sinh(x): the rule accepts longer products but keeps only the second factor',
 edits=[('src/simplification/rules/hyperbolic/identities.rs',"""            && name.id() == KS.sinh
            && args.len() == 1
            && let AstKind::Product(factors) = &args[0].kind
            && factors.len() == 2
        {""","""            && name.id() == KS.sinh
            && args.len() == 1
            && let AstKind::Product(factors) = &args[0].kind
            && factors.len() >= 2
        {""")],
 demo=PRE+r'''
fn main() {
    let e = p("sinh(-x*y)");
    let s = Simplify::new().simplify(&e).unwrap();
    let v = [("x", 0.5), ("y", 1.5)];
    want(ev(&s, &v), ev(&e, &v));
}
'''),
dict(id='c13-abs-power', property='C13',
 needs='domain-safe mode, an absolute value raised to a fractional power whose integer part is even, at a negative point',
 breaks='abs(x)^2.5 becomes x^2.5, which is undefined for negative x',
 edits=[('src/simplification/rules/algebraic/abs_sign.rs',"""            // Check if exponent is a positive even integer
            if *n > 0.0 && n.fract() == 0.0 {
                // Checked fract() == 0.0, so cast is safe
                #[allow(
                    clippy::cast_possible_truncation,
                    reason = "Checked fract()==0.0, so cast is safe"
                )]
                if (*n as i64) % 2 == 0 {
                    return Some(Arc::new(Expr::pow_from_arcs(""","""            // Check if exponent is a positive even integer
            if *n >= 2.0 {
                #[allow(
                    clippy::cast_possible_truncation,
                    reason = "exponents are small"
                )]
                if (*n as i64) % 2 == 0 {
                    return Some(Arc::new(Expr::pow_from_arcs(""")],
 demo=PRE+r'''
fn main() {
    let e = p("1 + abs(x)^2.5");
    let s = Simplify::new().domain_safe(true).simplify(&e).unwrap();
    want(ev(&s, &[("x", -1.5)]), ev(&e, &[("x", -1.5)]));
}
'''),
dict(id='c05-zero-base-staged', property='C05',
 needs='a power whose base is bound to zero in an earlier evaluation stage than its exponent, which is then bound to zero',
 breaks='partial evaluation folds 0^y to 0 although 0^0 is 1 and 0^y is undefined for negative y',
 edits=[('src/core/expr/evaluate.rs',"""                    (ExprKind::Number(x), ExprKind::Number(y)) => Self::number(x.powf(*y)),
                    _ => Self::pow_static(ea, eb),""","""                    (ExprKind::Number(x), ExprKind::Number(y)) => Self::number(x.powf(*y)),
                    // 0^y needs no further evaluation
                    (ExprKind::Number(x), _) if *x == 0.0 => Self::number(0.0),
                    _ => Self::pow_static(ea, eb),""")],
 demo=PRE+r'''
fn main() {
    let e = p("2 + x^y");
    let m: HashMap<&str, f64> = [("x", 0.0)].into_iter().collect();
    let half = e.evaluate(&m, &HashMap::new());
    want(ev(&half, &[("y", 0.0)]), 3.0);
}
'''),
]
