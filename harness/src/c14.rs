//! C14: results do not depend on history, thread, symbol order or hash seeds.
//!
//! Everything that could leak into a result is global to the process (symbol table, caches, per-thread caches) or a
//! choice of the runtime (hash seeds), so the space is explored by many single-threaded processes of this program:
//! reference processes write what a fresh process answers, the others compare.
use crate::fw::{hash64, Mc};
use crate::tree::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{mpsc, Arc, OnceLock};
use symb_anafis::{parse, symb, CompiledEvaluator, Context, Diff, DiffError, Expr, Simplify, Symbol, UserFunction};

/// The seed of every hash table created by a thread that starts from now on.
pub static HASH_SEED: AtomicU64 = AtomicU64::new(0);

/// The standard library takes its hash seeds from here instead of from the operating system.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = HASH_SEED.load(Ordering::Relaxed).wrapping_add(0x9e37_79b9_7f4a_7c15);
    for i in 0..len {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        unsafe { *buf.add(i) = (x >> 33) as u8 };
    }
    len as isize
}

fn err(e: &DiffError) -> String {
    format!("error: {e}")
}
fn text(r: Result<Expr, DiffError>) -> String {
    r.map_or_else(|e| err(&e), |e| e.to_string())
}
fn line(r: Result<String, DiffError>) -> String {
    r.unwrap_or_else(|e| err(&e))
}

/// Everything the property speaks about, for one formula.
fn results(s: &str) -> String {
    let mut o = String::new();
    match lib_parse(s) {
        Err(e) => o.push_str(&err(&e)),
        Ok(e) => {
            let _ = write!(o, "{e} | {} | {}", e.to_latex(), e.to_unicode());
            let _ = write!(o, " | {}", text(Simplify::new().domain_safe(true).simplify(&e)));
        }
    }
    let _ = write!(o, " | {}", line(symb_anafis::simplify(s, &[], None)));
    let _ = write!(o, " | {}", line(symb_anafis::diff(s, "x", &[], None)));
    o
}

/// Formulas for the histories "all of them, in some order".
fn formulas(thorough: bool) -> Vec<String> {
    let mut seen = HashSet::new();
    let mut out = vec![];
    let mut put = |s: String| {
        if seen.insert(s.clone()) {
            out.push(s);
        }
    };
    for th in crate::c12::themes() {
        let max = if thorough { 4 } else { 3 };
        for l in th.al.levels(max) {
            for t in l {
                put(t.text());
            }
        }
    }
    let names = Alpha { leaves: ["x", "y", "a", "b"].iter().map(|s| v(s)).collect(), un: vec!["sin"], neg: false, bin: "+*^/", bfn: vec![] };
    for l in names.levels(if thorough { 6 } else { 5 }) {
        for t in l {
            put(t.text());
        }
    }
    // sums of identifiers coincide: x*b and y*a have equal hashes in some creation orders
    let m = |a, b| mul(v(a), v(b));
    let sq = |a| pow(a, n(2.0));
    let pairs = Alpha { leaves: vec![m("x", "b"), m("y", "a"), sq(m("x", "b")), sq(m("y", "a")), sq(div(v("x"), v("a"))), n(2.0)], un: vec!["sin"], neg: false, bin: "+*^", bfn: vec![] };
    for l in pairs.levels(if thorough { 6 } else { 5 }) {
        for t in l {
            put(t.text());
        }
    }
    for (_, t) in crate::c09::long_forms(thorough) {
        put(t.text());
    }
    out
}

/// Sums and products of up to four members: what the collecting rules group in hash tables.
fn groups(thorough: bool) -> Vec<String> {
    let m = ["x", "y", "a", "x^2", "x^a", "y^b", "2*x", "sin(x)", "sqrt(x)"];
    let top = if thorough { 5 } else { 4 };
    let mut out = vec![];
    // multisets in a fixed order; the order of operands is C04's business
    fn go(m: &[&str], from: usize, cur: &mut Vec<usize>, top: usize, out: &mut Vec<String>) {
        if cur.len() >= 3 {
            for op in ["+", "*"] {
                let t: Vec<&str> = cur.iter().map(|i| m[*i]).collect();
                out.push(t.join(op));
            }
            out.push(format!("({})/({})", m[cur[0]], cur[1..].iter().map(|i| m[*i]).collect::<Vec<_>>().join("*")));
            out.push(format!("exp({})*exp({})", m[cur[0]], cur[1..].iter().map(|i| m[*i]).collect::<Vec<_>>().join("+")));
        }
        if cur.len() < top {
            for i in from..m.len() {
                cur.push(i);
                go(m, i, cur, top, out);
                cur.pop();
            }
        }
    }
    go(&m, 0, &mut vec![], top, &mut out);
    out
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    crate::c06::perms(n)
}

const NAMES: [&str; 4] = ["x", "y", "a", "b"];

/// One history: what happened before, and the way the formulas are gone through.
#[derive(Clone, Debug)]
enum Conf {
    /// in order, hash seed
    Seed(u64),
    /// the names are created in this order first; with `again`, the first is removed and created anew
    Created(Vec<usize>, bool),
    /// formula i*stride mod n (n made coprime), or backwards
    Stride(usize),
    Backward,
    /// every formula on a thread of its own
    Threads,
    /// clear_symbols() before every formula
    Clear,
    /// remove_symbol(name) before every formula
    Remove(&'static str),
    /// contexts own symbols of the same names; anonymous symbols shift the identifiers
    Contexts,
    Anonymous(usize),
    /// every formula three times in a row
    Repeat,
}

fn confs(thorough: bool) -> Vec<Conf> {
    let mut c = vec![];
    for s in 1..=if thorough { 32 } else { 6 } {
        c.push(Conf::Seed(s));
    }
    for p in permutations(4) {
        if thorough || p[0] != 0 {
            c.push(Conf::Created(p.clone(), false));
        }
        if thorough {
            c.push(Conf::Created(p.clone(), true));
        } else if p[0] == 0 {
            c.push(Conf::Created(p, true));
        }
    }
    for s in if thorough { vec![2, 3, 5, 7, 11, 101, 1009] } else { vec![2, 7, 1009] } {
        c.push(Conf::Stride(s));
    }
    c.push(Conf::Backward);
    c.push(Conf::Threads);
    c.push(Conf::Clear);
    for n in NAMES {
        c.push(Conf::Remove(n));
    }
    c.push(Conf::Contexts);
    for n in [1, 15, 1000] {
        c.push(Conf::Anonymous(n));
    }
    c.push(Conf::Repeat);
    c
}

fn order(conf: &Conf, n: usize) -> Vec<usize> {
    match conf {
        Conf::Backward => (0..n).rev().collect(),
        Conf::Stride(s) => {
            let mut o = vec![];
            for r in 0..*s {
                let mut i = r;
                while i < n {
                    o.push(i);
                    i += s;
                }
            }
            o
        }
        _ => (0..n).collect(),
    }
}

fn explore_conf(mc: &Arc<Mc>, idx: u64, conf: &Conf, fs: &[String], want: &[String]) {
    let (conf2, fs2) = (conf.clone(), fs.to_vec());
    let want2 = want.to_vec();
    let mc2 = mc.clone();
    if let Conf::Seed(s) = conf {
        HASH_SEED.store(*s, Ordering::Relaxed);
    }
    // on a thread of its own: the seed counts from here, and deep recursion has room
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let (conf, fs, want, mc) = (conf2, fs2, want2, mc2);
        let mut keep: Vec<Context> = vec![];
        match &conf {
            Conf::Created(p, again) => {
                for i in p {
                    symb(NAMES[*i]);
                }
                if *again {
                    symb_anafis::remove_symbol(NAMES[p[0]]);
                    symb(NAMES[p[0]]);
                }
            }
            Conf::Contexts => {
                for n in NAMES {
                    let c = Context::new().with_symbol(n);
                    c.symb("x");
                    keep.push(c);
                }
            }
            Conf::Anonymous(n) => {
                for _ in 0..*n {
                    Symbol::anon();
                }
            }
            _ => {}
        }
        for i in order(&conf, fs.len()) {
            if mc.stopped() {
                break;
            }
            let s = &fs[i];
            mc.enter(s);
            match &conf {
                Conf::Clear => symb_anafis::clear_symbols(),
                Conf::Remove(n) => {
                    symb_anafis::remove_symbol(n);
                }
                _ => {}
            }
            mc.guard(idx << 32 | i as u64, || {
                for _ in 0..if matches!(conf, Conf::Repeat) { 3 } else { 1 } {
                    let got = if matches!(conf, Conf::Threads) {
                        let s2 = s.clone();
                        std::thread::Builder::new().stack_size(64 << 20).spawn(move || results(&s2)).unwrap().join().unwrap_or_else(|_| "panic".into())
                    } else {
                        results(s)
                    };
                    mc.trans(6);
                    mc.state(&(i, hash64(&got)));
                    if got != want[i] {
                        mc.violation(idx << 32 | i as u64, &format!("history {conf:?} [{s}]"), &format!("gives {got}\nin a fresh process {}", want[i]));
                    } else {
                        mc.trace();
                    }
                }
            });
        }
        mc.leave();
    });
    let _ = h.unwrap().join();
    mc.count("formulas x histories", fs.len() as u64);
}

// ---- hash seeds on the collecting rules

fn explore_seeds(mc: &Arc<Mc>, gs: &[String], want: &[String], seeds: std::ops::Range<u64>) {
    for seed in seeds {
        if mc.stopped() {
            return;
        }
        HASH_SEED.store(seed, Ordering::Relaxed);
        std::thread::scope(|sc| {
            let _ = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || {
                    // which orders of a table of three names this seed gives: the choices that were explored
                    for _ in 0..8 {
                        let m: HashMap<&str, ()> = NAMES.iter().map(|n| (*n, ())).collect();
                        let o: Vec<&str> = m.keys().copied().collect();
                        mc.state(&("order", o));
                    }
                    for (i, s) in gs.iter().enumerate() {
                        mc.enter(s);
                        mc.guard(i as u64, || {
                            let got = results(s);
                            mc.trans(6);
                            if got != want[i] {
                                mc.violation(seed << 32 | i as u64, &format!("hash seed {seed} [{s}]"), &format!("gives {got}\nin a fresh process with seed 0 {}", want[i]));
                            } else {
                                mc.trace();
                            }
                        });
                    }
                    mc.leave();
                })
                .unwrap()
                .join();
        });
        mc.count("formulas x hash seeds", gs.len() as u64);
    }
}

// ---- all sequences of three actions

type Act = (String, Arc<dyn Fn() -> String + Send + Sync>);

fn lasting() -> &'static Context {
    static C: OnceLock<Context> = OnceLock::new();
    C.get_or_init(|| Context::new().with_symbol("x").with_symbol("ab").with_function("f", body(0)))
}

fn body(k: usize) -> UserFunction {
    UserFunction::new(1..=1).body(move |a| {
        let x = Expr::clone(&a[0]);
        match k {
            0 => x.pow(3.0) + 1.0,
            1 => (x * 2.0).sin(),
            _ => x,
        }
    })
}

fn actions(thorough: bool) -> Vec<Act> {
    let mut out: Vec<Act> = vec![];
    let mut put = |n: String, f: Arc<dyn Fn() -> String + Send + Sync>| out.push((n, f));
    macro_rules! act {
        ($n:expr, $b:block) => {
            put($n.to_string(), Arc::new(move || $b))
        };
    }
    let set = |l: &[&str]| -> HashSet<String> { l.iter().map(|s| (*s).to_string()).collect() };
    let none: HashSet<String> = HashSet::new();

    // reading: the same text under different declarations
    let texts: &[&str] = if thorough {
        &["ab*x + f(x)", "x*b*a + a*b", "sqrt(x^2)/x", "(x+1)*(x+1)", "sin(", "x^-1*y", "g(x) + ba"]
    } else {
        &["ab*x + f(x)", "sqrt(x^2)/x", "sin(", "x*b*a + a*b"]
    };
    for s in texts.iter().copied() {
        for (kn, kf) in [(vec![], vec![]), (vec!["ab"], vec![]), (vec!["ab"], vec!["f"])] {
            let (ks, fs) = (set(&kn), set(&kf));
            act!(format!("parse {s} knowing {kn:?} {kf:?}"), {
                match parse(s, &ks, &fs, None) {
                    Ok(e) => format!("{e} | {} | {}", e.to_latex(), e.to_unicode()),
                    Err(e) => err(&e),
                }
            });
        }
        let n = none.clone();
        act!(format!("parse {s} in a lasting context"), { text(parse(s, &n, &n, Some(lasting()))) });
        let n = none.clone();
        act!(format!("parse {s} in a new context"), { text(parse(s, &n, &n, Some(&Context::new().with_symbol("ab").with_function("f", body(1))))) });
    }
    // simplifying the same formula under different options
    let forms: &[&str] = if thorough {
        &["sqrt(x^2)/x", "f(x) + f(x)*x", "exp(ln(x)) + x*a*x", "abs(x)*x^2/x", "(x^2 - 1)/(x - 1)", "x^a*x^b*y"]
    } else {
        &["sqrt(x^2)/x", "f(x) + f(x)*x", "x^a*x^b*y + exp(ln(x))"]
    };
    for s in forms.iter().copied() {
        let p = move |c: Option<&Context>| {
            let n: HashSet<String> = HashSet::new();
            let f: HashSet<String> = ["f".to_string()].into();
            parse(s, &n, if c.is_some() { &n } else { &f }, c)
        };
        act!(format!("simplify {s}"), { p(None).map_or_else(|e| err(&e), |e| text(Simplify::new().simplify(&e))) });
        act!(format!("simplify {s} safely"), { p(None).map_or_else(|e| err(&e), |e| text(Simplify::new().domain_safe(true).simplify(&e))) });
        for k in 0..3 {
            act!(format!("simplify {s} with f number {k}"), {
                let c = Context::new().with_function("f", body(k));
                p(Some(&c)).map_or_else(|e| err(&e), |e| text(Simplify::new().with_context(&c).simplify(&e)))
            });
        }
        act!(format!("simplify {s} text"), { line(symb_anafis::simplify(s, &[], None)) });
        act!(format!("simplify {s} text, x known"), { line(symb_anafis::simplify(s, &["x"], Some(&["f"]))) });
        for w in ["x", "a"] {
            act!(format!("diff {s} by {w}"), { line(symb_anafis::diff(s, w, &[], Some(&["f"]))) });
        }
        act!(format!("diff {s} by x unsimplified"), { line(Diff::new().skip_simplification(true).diff_str(s, "x", &["a"])) });
        for k in 0..2 {
            act!(format!("diff {s} by x with f number {k}"), {
                let c = Context::new().with_function("f", body(k));
                p(Some(&c)).map_or_else(|e| err(&e), |e| text(Diff::new().with_context(&c).differentiate(&e, &c.symb("x"))))
            });
        }
        act!(format!("diff {s} in the lasting context"), {
            let c = lasting();
            p(Some(c)).map_or_else(|e| err(&e), |e| text(Diff::new().with_context(c).differentiate(&e, &c.symb("x"))))
        });
        act!(format!("values of {s}"), {
            match p(None) {
                Err(e) => err(&e),
                Ok(e) => {
                    let m: HashMap<&str, f64> = [("x", 1.5), ("a", 2.0), ("b", 0.5), ("y", 3.0)].into();
                    e.evaluate(&m, &HashMap::new()).to_string()
                }
            }
        });
        act!(format!("compiled {s}"), {
            let c = Context::new().with_function("f", body(1));
            match p(Some(&c)).and_then(|e| CompiledEvaluator::compile_auto(&e, Some(&c))) {
                Err(e) => err(&e),
                Ok(p) => {
                    let v: Vec<f64> = p.param_names().iter().map(|n| n.as_bytes()[0] as f64 / 64.0).collect();
                    format!("{:?} {:e}", p.param_names(), p.evaluate(&v))
                }
            }
        });
    }
    // errors
    act!("wrong declarations", { line(symb_anafis::diff("x + y", "x", &["x", "y"], None)) });
    act!("two collisions", { line(symb_anafis::diff("x + y", "x", &["f", "g", "h"], Some(&["h", "g", "f"]))) });
    act!("gradient", { symb_anafis::gradient_str("x^2*y*a", &["x", "y", "a"]).map_or_else(|e| err(&e), |l| l.join(", ")) });
    act!("hessian", { symb_anafis::hessian_str("x^2*y*a", &["y", "x"]).map_or_else(|e| err(&e), |l| l.iter().map(|r| r.join(", ")).collect::<Vec<_>>().join("; ")) });
    act!("uncertainty", {
        match lib_parse("x*y/a") {
            Ok(e) => text(symb_anafis::uncertainty_propagation(&e, &["x", "y", "a"], None)),
            Err(e) => err(&e),
        }
    });
    // acts on the global table; they answer nothing, but change the ground for what follows
    for n in ["x", "ab"] {
        act!(format!("remove {n}"), {
            symb_anafis::remove_symbol(n);
            String::new()
        });
    }
    act!("clear", {
        symb_anafis::clear_symbols();
        String::new()
    });
    act!("create b, a, x", {
        let (b, a, x) = (symb("b"), symb("a"), symb("x"));
        format!("{}", b + a * x)
    });
    act!("anonymous", {
        Symbol::anon();
        String::new()
    });
    act!("create ab in a context of its own", {
        let c = Context::new();
        let (s, t) = (c.symb("ab"), c.symb("x"));
        format!("{}", s * t)
    });
    out
}

/// Cyclic sequence over 0..n in which every triple occurs once.
fn de_bruijn(n: usize) -> Vec<u16> {
    let k = 3;
    let mut a = vec![0u16; k * n + 1];
    let mut out = vec![];
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut [u16], out: &mut Vec<u16>) {
        if t > k {
            if k % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
            return;
        }
        a[t] = a[t - p];
        db(t + 1, p, k, n, a, out);
        for j in a[t - p] + 1..n as u16 {
            a[t] = j;
            db(t + 1, t, k, n, a, out);
        }
    }
    db(1, 1, k, n, &mut a, &mut out);
    let (x, y) = (out[0], out[1]);
    out.extend([x, y]);
    out
}

/// A thread that runs actions on request.
struct Hand {
    tx: mpsc::Sender<usize>,
    rx: mpsc::Receiver<Option<String>>,
}

fn hand(acts: &Arc<Vec<Act>>) -> Hand {
    let (tx, r) = mpsc::channel::<usize>();
    let (t, rx) = mpsc::channel();
    let acts = acts.clone();
    let _ = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        while let Ok(i) = r.recv() {
            let f = acts[i].1.clone();
            let o = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || f())).ok();
            if t.send(o).is_err() {
                break;
            }
        }
    });
    Hand { tx, rx }
}

/// thread of step i under each of the four ways to spread steps over two threads
fn thread_of(way: usize, i: usize) -> usize {
    match way {
        0 => 0,
        1 => i % 2,
        2 => i / 2 % 2,
        _ => (i + 1) / 2 % 2,
    }
}

fn explore_sequences(mc: &Arc<Mc>, acts: &Arc<Vec<Act>>, want: &[String], way: usize, part: usize, parts: usize) {
    let seq = de_bruijn(acts.len());
    let n = seq.len();
    let (from, to) = (n * part / parts, (n * (part + 1) / parts + 2).min(n));
    let hands = [hand(acts), hand(acts)];
    let name = |i: usize| acts[seq[i] as usize].0.clone();
    for i in from..to {
        if mc.stopped() {
            return;
        }
        let a = seq[i] as usize;
        let history = || {
            let l: Vec<String> = (i.saturating_sub(2).max(from)..=i).map(|j| format!("{} (thread {})", name(j), thread_of(way, j))).collect();
            format!("{}; step {} of sequence {way}.{part}", l.join(" ; "), i - from)
        };
        if (i - from) % 64 == 0 {
            mc.enter(&history());
        }
        let h = &hands[thread_of(way, i)];
        let got = h.tx.send(a).ok().and_then(|()| h.rx.recv().ok()).flatten();
        mc.trans(1);
        match got {
            Some(g) if g == want[a] => mc.trace(),
            Some(g) => mc.violation((i - from) as u64, &history(), &format!("gives {g}\nin a fresh process {}", want[a])),
            None => mc.violation((i - from) as u64, &history(), "panics"),
        }
    }
    mc.leave();
    mc.count("steps of action sequences", (to - from) as u64);
    mc.more_states.fetch_add((to - from) as u64, Ordering::Relaxed);
}

// ---- processes

fn scratch() -> PathBuf {
    std::env::var("MC_SCRATCH").map(PathBuf::from).expect("scratch directory")
}
fn save(name: &str, l: &[String]) {
    std::fs::write(scratch().join(name), l.iter().map(|s| s.replace('\n', "\\n") + "\n").collect::<String>()).expect("write");
}
fn load(name: &str) -> Vec<String> {
    std::fs::read_to_string(scratch().join(name)).unwrap_or_default().lines().map(|s| s.to_string()).collect()
}

pub fn run(mc: &Arc<Mc>) {
    let th = mc.thorough;
    let cs = confs(th);
    let acts = Arc::new(actions(th));
    let na = acts.len() as u64;
    let parts = 8u64;
    let (seeds, seed_step) = if th { (512u64, 16u64) } else { (48, 6) };
    // processes: 0, 1 write references; 2..2+na one action each; then the histories
    let base = 2 + na;
    let nc = cs.len() as u64;
    let ns = seeds / seed_step;
    let total = base + nc + ns + 4 * parts;
    if let Some((k, _)) = crate::fw::child() {
        let fresh = |fs: Vec<String>, name: &'static str| {
            let mc = mc.clone();
            let _ = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let l: Vec<String> = fs
                        .iter()
                        .enumerate()
                        .map(|(i, s)| {
                            mc.enter(s);
                            mc.guard(i as u64, || results(s)).unwrap_or_default()
                        })
                        .collect();
                    mc.leave();
                    save(name, &l);
                })
                .unwrap()
                .join();
        };
        match k {
            0 => fresh(formulas(th), "formulas"),
            1 => fresh(groups(th), "groups"),
            k if k < base => {
                let a = &acts[(k - 2) as usize];
                mc.enter(&a.0);
                let o = mc.guard(k, || (a.1)()).unwrap_or_else(|| "panics".into());
                save(&format!("action{}", k - 2), &[o]);
            }
            k if k < base + nc => {
                let fs = formulas(th);
                let want = load("formulas");
                explore_conf(mc, k - base, &cs[(k - base) as usize], &fs, &want);
            }
            k if k < base + nc + ns => {
                let j = k - base - nc;
                explore_seeds(mc, &groups(th), &load("groups"), j * seed_step..(j + 1) * seed_step);
            }
            k => {
                let j = (k - base - nc - ns) as usize;
                let want: Vec<String> = (0..acts.len()).map(|i| load(&format!("action{i}")).first().cloned().unwrap_or_default()).collect();
                explore_sequences(mc, &acts, &want, j / parts as usize, j % parts as usize, parts as usize);
            }
        }
        return;
    }
    let dir = std::env::temp_dir().join(format!("mc-c14-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    unsafe { std::env::set_var("MC_SCRATCH", &dir) };
    mc.processes(0..base, total);
    if !mc.stopped() {
        mc.processes(base..total, total);
    }
    let _ = std::fs::remove_dir_all(&dir);
    mc.count("histories", nc);
    mc.count("hash seeds", seeds);
    mc.count("actions", na);
    mc.note("every formula under every listed history, each in a process of its own, against what a fresh process answers; the hash seeds of the runtime are chosen by the checker");
    mc.note("every sequence of three actions (parse, simplify, differentiate, evaluate with different declarations, contexts and options; removing, clearing and creating symbols) under every spread over two threads");
}
