import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Parsing gives every formula the meaning the documented grammar gives it",
"For every input string, parsing either fails with an error or yields an expression whose value at every point is the one the documented grammar assigns to the whole string: `^` binds tighter than unary minus, which binds tighter than `*` and `/`, which bind tighter than `+` and `-`; `^` associates to the right, the others to the left; adjacent terms multiply; calls take their arguments in order; `∂^n_f(args)/∂_x^n` is the n-th derivative of what stands between the underscore and the slash. A well-formed formula is never rejected (except for nesting beyond the parser's stated limit of 200 levels), and no part of an accepted input is ever silently dropped.",
["inputs"],"every token sequence up to a length bound over numbers, variables, constants, operators, parentheses, commas, built-in and registered functions, derivative notation, with and without the spaces between tokens",
"The tests parse a few dozen hand-picked formulas and mostly assert on tree shapes; precedence, associativity and implicit multiplication interact, so the guarantee is about all token sequences.",
["src/parser/mod.rs","src/parser/lexer.rs","src/parser/implicit_mul.rs","src/parser/pratt.rs","src/parser/tokens.rs"],
[("two-pass lexer with parenthesis balancing","src/parser/lexer.rs"),("implicit multiplication insertion","src/parser/implicit_mul.rs insert_implicit_multiplication"),("precedence climbing and additive chains","src/parser/pratt.rs Parser::parse_expr")],
observe=["parse(...)","Expr::evaluate"])

p("C02","Printed expressions read back as the same expression",
"For every expression made of numbers, symbols, the arithmetic operators, functions, unknown functions and derivatives of them, the text it prints as is accepted by the parser and denotes an expression with the same value at every point where the expression has one. This holds for expressions built directly, parsed, differentiated or simplified.",
["inputs","programs"],"every expression tree up to a size bound over an alphabet with negative and fractional numbers, nested powers, quotients, polynomials and functions, and every derivative and simplification of those",
"Missing parentheses show up only for particular nestings (power of a power, negated polynomial inside a product, negative base); tests pin the text of individual expressions and never read it back systematically.",
["src/core/display.rs","src/parser/pratt.rs","src/core/poly.rs"],
[("parenthesisation rules of the plain-text formatter","src/core/display.rs impl Display for Expr"),("precedence of the parser","src/parser/pratt.rs")],
observe=["Expr::to_string","parse(...)"])

p("C03","LaTeX and Unicode output denote the same expression as the tree",
"For every expression, reading its LaTeX form and its Unicode form with ordinary mathematical conventions (fractions, superscripts, juxtaposition, brackets) gives back the value of the expression at every point where it has one, and the LaTeX has balanced braces and no doubled superscript. What is differentiated, by which variable and how often can be read off a derivative, a subscript holds all that follows the underscore of a name, and underscores in function names are escaped.",
["inputs","programs"],"every expression tree up to a size bound over the same alphabet, both output formats",
"The tests compare a handful of rendered strings; a wrong or missing bracket depends on how operators nest.",
["src/core/display.rs"],
[("LaTeX formatter","src/core/display.rs format_latex"),("Unicode formatter","src/core/display.rs format_unicode")],
observe=["Expr::to_latex","Expr::to_unicode"])

p("C04","Building expressions is algebraically faithful and canonical",
"Combining operands with the arithmetic operators gives an expression whose value at every point where the operands' combination is defined is the arithmetic combination of their values. A sum or a product of a given list of operands compares equal to the one built from that list in any other order, and expressions that compare equal have equal hashes and equal values.",
["inputs","programs"],"every sequence of operator applications up to a depth bound over numbers, symbols, functions and polynomials, all operand orders, through every public construction route",
"Construction folds constants, merges like terms and turns sums into polynomials eagerly, with rules that depend on the combination of operand forms; tests construct isolated examples.",
["src/core/expr/constructors.rs","src/core/expr/hash.rs","src/core/expr/ordering.rs","src/core/expr/mod.rs","src/core/poly.rs","src/core/symbol/operators.rs"],
[("n-ary sum/product constructors with like-term merging","src/core/expr/constructors.rs"),("structural hash and equality","src/core/expr/hash.rs, src/core/expr/mod.rs"),("polynomial arithmetic","src/core/poly.rs")],
observe=["operators on Symbol/Expr","Expr ==","Expr::structural_hash","Expr::evaluate"])

p("C05","Evaluating an expression substitutes values soundly, fully or in stages",
"Evaluating an expression with values for all of its variables gives the number that ordinary real arithmetic and the built-in functions assign to it, wherever that number is defined. Supplying the values in stages, in any grouping and order, ends in the same number, and variables not supplied remain in the result untouched.",
["inputs","histories"],"every expression tree up to a size bound, every partition of its variables into evaluation stages, at every point of a value grid including zero, negative and non-integer values",
"Partial evaluation rebuilds the tree through folding constructors, so the answer can depend on the order in which variables are bound; tests evaluate complete assignments of chosen formulas.",
["src/core/expr/evaluate.rs","src/core/expr/constructors.rs","src/functions/registry.rs"],
[("recursive partial evaluation","src/core/expr/evaluate.rs"),("built-in evaluation table","src/functions/definitions.rs")],
observe=["Expr::evaluate","evaluate_str"])

p("C06","A compiled expression computes what the expression evaluates to",
"For every expression that compiles and every parameter order, evaluating the compiled form at a point gives the same number as evaluating the expression there, whenever the latter is a finite number. This holds whatever subexpressions are shared, however deep or wide the expression is, and when a parameter list includes unused names; a variable missing from the list is reported as an error at compile time.",
["inputs","programs"],"every expression tree up to a size bound plus families that cross every internal size threshold, all parameter orders, on a grid of points",
"Compilation rewrites the expression (sharing, fused operations, cache slots, specialised powers) and runs it on one of several interpreters chosen by size; tests compile selected formulas of ordinary size.",
["src/evaluator/compiler.rs","src/evaluator/mod.rs","src/evaluator/execution.rs","src/evaluator/stack.rs","src/evaluator/instruction.rs"],
[("compiler with common-subexpression elimination","src/evaluator/compiler.rs"),("optimisation passes (peephole, fused multiply-add, dead stores, constant and slot reuse)","src/evaluator/compiler.rs"),("inline and heap interpreters","src/evaluator/execution.rs")],
observe=["Expr::compile","CompiledEvaluator::compile","CompiledEvaluator::evaluate"])

p("C07","Batch evaluation equals point-by-point evaluation for every batch size",
"For every compiled expression and every number of points, evaluating a batch, evaluating it in parallel and evaluating it through the numeric column interface each give, for every point, the number that evaluating that single point gives. Output beyond the batch is not written, and a wrong column count, unequal column lengths or a too-small output are reported as errors.",
["inputs","configurations"],"every instruction the compiler can emit, every batch length across the vector-width and chunk-size boundaries, every parameter count, shape errors in every position",
"Vectorised groups, the scalar remainder and parallel chunks are separate interpreters with their own stack and cache buffers; tests use few lengths and few expressions.",
["src/evaluator/simd.rs","src/evaluator/execution.rs","src/bindings/eval_f64.rs"],
[("four-lane interpreter and scalar remainder","src/evaluator/simd.rs"),("chunked parallel driver","src/evaluator/simd.rs eval_batch_parallel, src/bindings/eval_f64.rs")],
observe=["CompiledEvaluator::eval_batch","CompiledEvaluator::eval_batch_parallel","eval_f64"])

p("C08","Mixed parallel evaluation fills in exactly the given values",
"Evaluating several expressions over columns of values returns one result per expression and point, in order, where each result is the expression with that row's values put in: a number where everything is given, a symbolic result where a value is skipped or symbolic. Shorter columns repeat their last value, results of textual inputs are text and of expression inputs are expressions, and an empty column beside a non-empty one, or a missing column list, is an error.",
["inputs","configurations"],"every combination of expression form, column count, column lengths and cell kind (number, expression, skip) up to a bound",
"The numeric, hybrid and symbolic routes are selected by the data itself; tests exercise each with one or two layouts.",
["src/bindings/parallel.rs"],
[("route selection and per-point evaluation","src/bindings/parallel.rs evaluate_parallel")],
observe=["parallel::evaluate_parallel","eval_parallel!"])

p("C09","Derivatives are the true derivatives",
"For every expression and variable, the symbolic derivative evaluates, wherever every part of the expression is differentiable and the derivative is finite (isolated removable singularities of the derivative formula aside), to the true derivative of the expression with respect to that variable, with all other variables held constant. This holds with and without simplification, for repeated differentiation, and whichever of the public entry points is used.",
["inputs","programs"],"every expression tree up to a size bound over all operators and all differentiable built-in functions, plus long products, sums, polynomials and nested compositions, on a grid of points",
"The rules for sums, products of any length, quotients, powers, polynomials and each function compose; the tests compare derivatives of chosen formulas, usually by text or at one point.",
["src/diff/engine.rs","src/functions/definitions.rs","src/core/poly.rs","src/api/builder.rs"],
[("differentiation engine","src/diff/engine.rs"),("per-function derivative rules","src/functions/definitions.rs")],
observe=["Diff::differentiate","Diff::diff_str","diff","Expr::derive"])

p("C10","Built-in functions return the right numbers on every evaluation route",
"Every built-in function returns, throughout its real domain, the value of the mathematical function it is named after to within a small relative error, and does so identically whether evaluated directly, through a compiled expression or through a batch. Outside the domain, or with a wrong number of arguments, no finite number is produced, and parity, periodicity, recurrence and limiting-value identities hold across the internal algorithm boundaries.",
["inputs"],"every built-in function at every point of a dense argument grid and every integer order up to a bound, on all evaluation routes",
"Special functions switch between series, asymptotic and recurrence formulas at internal thresholds; tests check isolated reference values.",
["src/math/special.rs","src/math/bessel.rs","src/math/elliptic.rs","src/math/polynomials.rs","src/math/mod.rs","src/functions/definitions.rs","src/evaluator/execution.rs","src/evaluator/simd.rs"],
[("special function algorithms","src/math"),("evaluation table","src/functions/definitions.rs"),("compiled built-ins","src/evaluator/execution.rs")],
observe=["Expr::evaluate","CompiledEvaluator::evaluate","CompiledEvaluator::eval_batch"])

p("C11","Gradients, Hessians and Jacobians collect the right partial derivatives",
"For every expression and list of variables, the gradient has one entry per variable in the given order, the Hessian is the square matrix of second derivatives in that order and is symmetric in value, and the Jacobian has one row per expression and one column per variable. Every entry equals the corresponding single derivative, and the text interfaces agree with the expression interfaces.",
["inputs","configurations"],"every expression up to a size bound, every ordered list of variables up to a length including absent and repeated ones",
"The tests check a few shapes; entry order, absent variables and symmetry are statements over all inputs.",
["src/api/helpers.rs"],
[("gradient, hessian and jacobian builders","src/api/helpers.rs")],
observe=["gradient","hessian","jacobian","gradient_str","hessian_str","jacobian_str"])

p("C12","Simplification never changes the value of an expression",
"For every expression, the simplified expression has the same value, up to rounding, at every point at which the original is defined as a real number and where, as the default mode assumes, everything under a root, a logarithm, an absolute value or a non-integer power is positive, factor by factor, and inverse functions are applied on their principal branch. It mentions no variable the original does not mention.",
["inputs","programs"],"every expression tree up to a size bound over the operators, the elementary functions and the patterns the rewrite rules look for, on a grid of positive points",
"Over a hundred rewrite rules fire in sequence on each other's output; tests check each rule on its own example and the one oracle test in the suite is sampled and unreliable.",
["src/simplification/engine.rs","src/simplification/rules","src/simplification/helpers.rs","src/core/poly.rs"],
[("bottom-up rule engine to a fixed point","src/simplification/engine.rs"),("rewrite rules","src/simplification/rules")],
observe=["simplify","Simplify::simplify","Diff with simplification"])

p("C13","Domain-safe simplification preserves values on the whole real domain",
"With the domain-safe option, the simplified expression has the same value as the original at every real point, of any sign, at which the original is defined, and is undefined nowhere the original is defined, isolated removable points aside.",
["inputs","programs"],"every expression tree up to a size bound over roots, logarithms, even and odd powers, absolute values, quotients and inverse functions, on a grid of points of both signs",
"Which rules must be held back depends on how they combine; tests check that a few named rewrites do not happen.",
["src/simplification/rules","src/simplification/engine.rs","src/simplification/helpers.rs"],
[("domain-altering rules skipped","src/simplification/engine.rs"),("sign-aware rewrites","src/simplification/rules")],
observe=["Simplify::domain_safe","Diff::domain_safe"])

p("C14","Results do not depend on session history or on the run",
"Parsing, differentiating, simplifying and printing the same formula gives the same text every time: whatever other formulas were processed before, whatever symbols already exist and in whichever order they were created, on whichever thread it runs and however many times it is repeated. Simplification of any finite expression terminates.",
["histories","inputs"],"every ordering of symbol creation and of prior work over a set of formulas up to a length bound, on fresh and reused threads",
"Symbol identities, hash orders and per-thread caches depend on what ran before; the tests share one process in arbitrary order and cannot compare histories.",
["src/core/symbol/registry.rs","src/core/expr/ordering.rs","src/simplification/engine.rs","src/core/known_symbols.rs"],
[("ordering of terms by name, not by identity","src/core/expr/ordering.rs"),("cycle detection and iteration limit","src/simplification/engine.rs")],
observe=["diff","simplify","parse","Display"])

p("C15","Substitution, inspection and traversal agree with the structure",
"Replacing a variable by an expression gives an expression whose value is the original's with that variable set to the replacement's value, leaving no other occurrence behind. The reported set of variables is exactly the set the value can be written in terms of, containment queries agree with it, and the public view, visitor, map and fold operations reach every node once, in the documented order (a parent before its operands, these from left to right; map the other way round), so that rebuilding an expression from its view gives an equal value.",
["inputs","programs"],"every expression tree up to a size bound, every variable and every replacement from a small set, all inspection operations",
"Sums of powers are held in a compact internal form that traversals must open up; tests inspect shapes that do not take that form.",
["src/core/expr/analysis.rs","src/core/visitor.rs","src/core/expr/mod.rs","src/core/poly.rs"],
[("substitution, map and fold","src/core/expr/analysis.rs"),("view and visitor","src/core/visitor.rs")],
observe=["Expr::substitute","Expr::variables","Expr::contains_var","Expr::view","visitor::walk_expr","Expr::map","Expr::fold"])

p("C16","Uncertainty propagation computes the stated standard deviation",
"For every expression, variable list and covariance matrix, the propagated uncertainty evaluates to the square root of the sum over all pairs of variables of the product of the two partial derivatives and the covariance entry, and the relative form to that divided by the absolute value of the expression. Default uncertainties are named after their variables; a matrix of the wrong dimension, non-square, or numerically asymmetric is rejected.",
["inputs","configurations"],"every expression up to a size bound, every variable list and every covariance matrix over a small alphabet of numeric and symbolic entries, in every position",
"The tests check a few diagonal and two-variable cases; correlation signs, zero entries and ordering are combinatorial.",
["src/uncertainty.rs"],
[("variance assembly and matrix validation","src/uncertainty.rs")],
observe=["uncertainty_propagation","relative_uncertainty","CovarianceMatrix"])

p("C17","User-defined functions behave like their definition everywhere",
"A function registered with a body evaluates, simplifies and compiles to what its body with the arguments put in would, wherever in an expression the call stands; one registered with partial derivatives differentiates by the chain rule through exactly those, and by an argument without one symbolically. Calls with a number of arguments outside the declared range are rejected or left unevaluated, never evaluated with the wrong arguments, recursion ends in an error or a symbolic call rather than a crash, a definition under the name of a built-in function goes before the built-in in that context, and definitions in one context do not affect another.",
["inputs","configurations"],"every combination of arity, body shape, set of given partials, nesting of user functions and argument expression up to a bound, on the evaluation, compilation and differentiation routes",
"The tests register single functions with simple arguments; argument order, nested calls and missing partials are combinations.",
["src/core/unified_context.rs","src/evaluator/compiler.rs","src/diff/engine.rs","src/core/expr/evaluate.rs","src/api/builder.rs"],
[("user function table","src/core/unified_context.rs"),("body expansion when compiling","src/evaluator/compiler.rs"),("chain rule through partials","src/diff/engine.rs")],
observe=["Context::with_function","Diff::user_fn","CompiledEvaluator::compile","Expr::evaluate"])

p("C18","Symbols keep one identity per name through any history",
"Over every history of creating, looking up, removing and clearing symbols, in the global session and in isolated contexts, the answers are those of a plain table of names: the same live name always yields the same symbol, creating an existing name in strict mode and looking up a missing one are errors, listing and counting agree, and contexts see only their own symbols and, read-only, the global ones. A symbol handle keeps its own name and never becomes equal to a different symbol.",
["histories"],"every sequence of symbol and context operations up to a length bound over a small set of names, from one or several threads in turn",
"The result depends on the whole history because names, identities and per-thread caches are kept separately; tests run short fixed scripts.",
["src/core/symbol/registry.rs","src/core/symbol/mod.rs","src/core/unified_context.rs","src/core/symbol/interned.rs"],
[("sharded name table, identity map and thread caches","src/core/symbol/registry.rs"),("context symbol table","src/core/unified_context.rs")],
state=[("name table","live names and their identities","src/core/symbol/registry.rs REGISTRY"),("thread caches","per-thread copies of both maps","src/core/symbol/registry.rs ID_CACHE, NAME_CACHE")],
observe=["symb","symb_new","symb_get","symbol_exists","remove_symbol","clear_symbols","symbol_names","symbol_count","Context::symb/..."])

p("C19","Concurrent use of symbols and contexts is equivalent to some sequential order",
"When several threads create, look up and remove symbols, or use one shared context, under every interleaving, each operation returns what it would return in some sequential order of the operations consistent with real time, two threads creating the same name get the same symbol, and no operation panics or blocks forever.",
["schedules"],"every interleaving at lock granularity of small concurrent programs of symbol and context operations",
"A race needs a particular interleaving between two locks; threaded tests run whichever schedules happen.",
["src/core/symbol/registry.rs","src/core/unified_context.rs"],
[("shard mutex then identity map lock, double check","src/core/symbol/registry.rs"),("context lock","src/core/unified_context.rs")],
observe=["symb","symb_new","symb_get","remove_symbol","clear_symbols","Context::symb"],
hook="lock acquisitions routed through a wrapper that yields to a scheduler (cfg symb_verif)")

p("C20","No input makes the library panic; bad input is reported as an error",
"For every input string and every numeric argument, the public text and expression entry points return a result or an error value and never panic, abort, overflow the stack or an integer, hang or corrupt memory. A reported error position lies within the input and covers whole characters.",
["inputs"],"every byte string up to a length bound over an alphabet of significant characters, every pathological number, every short derivative-notation string, and every expression at extreme points",
"Lexing and span arithmetic, integer conversion and numeric edge cases fail only on particular characters or values; tests hold a list of known bad inputs.",
["src/parser/lexer.rs","src/parser/pratt.rs","src/core/error.rs","src/math","src/core/poly.rs","src/evaluator/simd.rs"],
[("error returns instead of panics","src/core/error.rs"),("bounds of generated code","src/evaluator/compiler.rs")],
observe=["parse","diff","simplify","evaluate_str","gradient_str","compile/evaluate/eval_batch"])

p("C21","Options and limits are honoured exactly",
"A depth or size limit rejects exactly the expressions whose reported depth or node count exceeds it, and otherwise does not change the result (its form beyond 50 nested levels, where simplification stops descending, is left open). Fixed variables are treated as constants, naming a variable both fixed and differentiated or both a variable and a function is an error, and skipping simplification changes the form but not the value of the result.",
["inputs","configurations"],"every formula up to a size bound under every combination of options and every limit around the actual size",
"The options interact (limits, fixed names, custom functions, simplification); tests set one at a time.",
["src/api/builder.rs","src/core/expr/analysis.rs","src/api/helpers.rs"],
[("option checks in the builders","src/api/builder.rs"),("depth and node counts","src/core/expr/analysis.rs")],
observe=["Diff builder","Simplify builder","diff","simplify","Expr::max_depth","Expr::node_count"])

p("C22","Dual numbers carry exact first derivatives",
"For every computation on dual numbers, the value part is what the same computation gives on plain numbers and the derivative part is the true derivative, and it agrees with evaluating the symbolic derivative of the same computation.",
["inputs","programs"],"every composition of dual-number operations up to a depth bound on a grid of points",
"Each operation carries its own hand-written derivative; tests check most operations once, at one point.",
["src/math/dual.rs"],
[("dual arithmetic","src/math/dual.rs")],
observe=["Dual operations"])

p("C23","The Python interface gives the same answers as the Rust interface",
"Every operation offered to Python returns the value, text or error that the corresponding Rust operation gives on the same inputs, including operator order for mixed operands, batch evaluation over arrays and lists, and contexts; errors, including those raised by Python callbacks, arrive as Python exceptions and never abort the interpreter, and objects work on every thread. Only a numeric argument outside the domain a function documents may be refused with an exception where Rust gives a value.",
["inputs","programs"],"every short program of Python operations over a small set of operands, compared with the Rust interface",
"The Python layer re-implements operator dispatch and conversions; the Rust tests never enter it.",
["src/bindings/python"],
[("operator and conversion layer","src/bindings/python/expr.rs, symbol.rs, dual.rs, parallel.rs")],
observe=["symb_anafis Python module"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
