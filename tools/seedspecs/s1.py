SEEDS=[
dict(id='c09-log-diff-power', property='C09',
 needs='a product of more than ten factors, one of them a power whose exponent contains the differentiation variable',
 breaks='logarithmic differentiation of long products treats every power factor as g^n with constant n, dropping ln(g)*n\'',
 edits=[('src/diff/engine.rs',"""                    for factor in factors {
                        let prime = factor.derive_impl(var, ctx);
                        if !prime.is_zero_num() {
                            // term = f' / f
""","""                    for factor in factors {
                        // (g^n)'/g^n = n*g'/g: no need to build the power rule's result
                        if let ExprKind::Pow(base, exp) = &factor.kind {
                            let base_prime = base.derive_impl(var, ctx);
                            if !base_prime.is_zero_num() {
                                log_terms.push(Self::div_from_arcs(
                                    Arc::new(Self::mul_expr((**exp).clone(), base_prime)),
                                    Arc::clone(base),
                                ));
                                continue;
                            }
                        }
                        let prime = factor.derive_impl(var, ctx);
                        if !prime.is_zero_num() {
                            // term = f' / f
""")],
 demo=r'''
use std::collections::{HashMap, HashSet};
use symb_anafis::{parse};
fn main() {
    let none = HashSet::new();
    let f = "a*b*c*d*f*g*h*k*m*n*x^x";
    let e = parse(f, &none, &none, None).unwrap();
    let d = e.derive("x", None);
    let mut v: HashMap<&str, f64> = "a b c d f g h k m n".split(' ').map(|s| (s, 1.0)).collect();
    v.insert("x", 2.0);
    let r = d.evaluate(&v, &HashMap::new());
    let got = r.as_number().unwrap_or(f64::NAN);
    let want = 4.0 * (2f64.ln() + 1.0);
    println!("{got} expected {want}");
    if !((got - want).abs() < 1e-9) { std::process::exit(1); }
}
'''),
dict(id='c06-horner-tail', property='C06',
 needs='a polynomial of degree above 64 in a plain parameter whose lowest power is 1, so that there is no constant term',
 breaks='the Horner loop stops at the lowest power and multiplies by the remaining power of x only when that is above 1',
 edits=[('src/evaluator/compiler.rs',"""            for pow in (0..max_pow).rev() {
""","""            // Sparse polynomials: stop at the lowest power and finish with one integer power
            let min_pow = sorted_terms.last().map_or(0, |t| t.0);
            for pow in (min_pow..max_pow).rev() {
"""),('src/evaluator/compiler.rs',"""                    // No coefficient: just Multiply
                    self.emit(Instruction::Mul);
                    self.pop();
                }
            }
""","""                    // No coefficient: just Multiply
                    self.emit(Instruction::Mul);
                    self.pop();
                }
            }
            if min_pow > 1 {
                #[allow(
                    clippy::cast_possible_truncation,
                    clippy::cast_possible_wrap,
                    reason = "Param count and powers bounded by realistic expression size"
                )]
                {
                    self.emit(Instruction::LoadParam(idx as u32));
                    self.push()?;
                    self.emit(Instruction::Powi(min_pow as i32));
                    self.emit(Instruction::Mul);
                    self.pop();
                }
            }
""")],
 demo=r'''
use std::collections::HashSet;
use symb_anafis::{parse, CompiledEvaluator};
fn main() {
    let none = HashSet::new();
    let e = parse("x^70 + 2*x^3 + 5*x", &none, &none, None).unwrap();
    let c = CompiledEvaluator::compile(&e, &["x"], None).unwrap();
    let x = 1.25f64;
    let want = x.powi(70) + 2.0 * x.powi(3) + 5.0 * x;
    let got = c.evaluate(&[x]);
    println!("{got} expected {want}");
    if !((got - want).abs() < 1e-9 * want.abs()) { std::process::exit(1); }
}
'''),
dict(id='c07-parallel-tail', property='C07',
 needs='a parallel batch of at least 256 points whose last chunk is shorter than four points, with more than four columns',
 breaks='short last chunks are evaluated point by point with the parameters taken from the first column\'s offsets only in the first chunk',
 edits=[('src/evaluator/simd.rs',"""                    let col_slices: Vec<&[f64]> =
                        columns.iter().map(|col| &col[start..end]).collect();
                    self.eval_batch(&col_slices, out_chunk, Some(simd_buffer))
""","""                    // A tail shorter than one vector is not worth the vector setup
                    if out_chunk.len() < 4 {
                        let mut point = vec![0.0; columns.len()];
                        for (row, out) in (start..end).zip(out_chunk.iter_mut()) {
                            for (value, col) in point.iter_mut().zip(columns).take(4) {
                                *value = col[row];
                            }
                            *out = self.evaluate(&point);
                        }
                        return Ok(());
                    }
                    let col_slices: Vec<&[f64]> =
                        columns.iter().map(|col| &col[start..end]).collect();
                    self.eval_batch(&col_slices, out_chunk, Some(simd_buffer))
""")],
 demo=r'''
use std::collections::HashSet;
use symb_anafis::{parse, CompiledEvaluator};
fn main() {
    let none = HashSet::new();
    let e = parse("a + 2*b + 3*c + 4*d + 5*f", &none, &none, None).unwrap();
    let c = CompiledEvaluator::compile(&e, &["a", "b", "c", "d", "f"], None).unwrap();
    let n = 256 + 3;
    let cols: Vec<Vec<f64>> = (0..5).map(|k| (0..n).map(|i| (i * 7 + k) as f64).collect()).collect();
    let refs: Vec<&[f64]> = cols.iter().map(|c| &c[..]).collect();
    let out = c.eval_batch_parallel(&refs).unwrap();
    for i in 0..n {
        let p: Vec<f64> = cols.iter().map(|c| c[i]).collect();
        if out[i] != c.evaluate(&p) { println!("row {i}: {} expected {}", out[i], c.evaluate(&p)); std::process::exit(1); }
    }
}
'''),
]
