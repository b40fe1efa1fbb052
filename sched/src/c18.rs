//! C18: every history of symbol and context operations gives the answers of a plain table of names.
use crate::fw::Mc;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Arc;
use symb_anafis::*;

/// Operations; the thread running it is separate. Names 0..2, contexts 0..3 (2 is a clone of 0).
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Symb(u8),
    New(u8),
    Get(u8),
    Exists(u8),
    Remove(u8),
    Clear,
    Anon,
    Names,
    Count,
    Parse(u8),
    CSymb(u8, u8),
    CGet(u8, u8),
    CHas(u8, u8),
    CRemove(u8, u8),
    CClear(u8),
    CNames(u8),
    /// one question only
    CList(u8),
    CParse(u8, u8),
    /// functions: asking must not create, registering and removing affect one context only
    FAsk(u8, u8),
    FWith(u8, u8),
    FRemove(u8, u8),
    /// a builtin name: cannot be removed, keeps its meaning
    RemoveBuiltin,
}
use Op::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    Id(u64),
    Fresh,
    Dup(String),
    NotFound(String),
    Bool(bool),
    Ids(Vec<String>),
    Num(i64),
    NoneRet,
    Unit,
    Other(String),
    E(Expr),
}

pub struct World {
    pub names: [String; 2],
    pub ctx: Vec<Context>,
    pub base: i64,
}

/// The plain table.
#[derive(Clone, Default)]
pub struct Model {
    pub global: BTreeMap<u8, u64>,
    pub ctx: [BTreeMap<u8, u64>; 2],
    pub fns: [BTreeMap<u8, ()>; 3],
    pub anon: i64,
    pub isolated: i64,
    pub handles: Vec<(u64, Option<u8>)>,
    pub used: HashSet<u64>,
    /// global symbols that a context has come to use: they outlive their global name
    pub adopted: HashSet<u64>,
}

/// Which symbol is this expression? One of those known, or one not seen before (given a made-up identity).
pub fn resolve(r: &mut Ret, known: &mut Vec<(u64, Expr)>) {
    match r {
        Ret::Id(i) => {
            if !known.iter().any(|k| k.0 == *i) {
                known.push((*i, Expr::from(Symbol::from_id(*i))));
            }
        }
        Ret::E(e) => {
            let i = match known.iter().find(|k| k.1 == *e) {
                Some(k) => k.0,
                None => {
                    let i = u64::MAX - known.len() as u64;
                    known.push((i, e.clone()));
                    i
                }
            };
            *r = Ret::Id(i);
        }
        _ => {}
    }
}

pub fn exec(op: Op, w: &mut World) -> Ret {
    let ident = |r: Result<Symbol, SymbolError>| match r {
        Ok(s) => Ret::Id(s.id()),
        Err(SymbolError::DuplicateName(n)) => Ret::Dup(n),
        Err(SymbolError::NotFound(n)) => Ret::NotFound(n),
    };
    let nm = |n: u8| w.names[n as usize].clone();
    match op {
        Symb(n) => Ret::Id(symb(&nm(n)).id()),
        New(n) => ident(symb_new(&nm(n))),
        Get(n) => ident(symb_get(&nm(n))),
        Exists(n) => Ret::Bool(symbol_exists(&nm(n))),
        Remove(n) => Ret::Bool(remove_symbol(&nm(n))),
        Clear => {
            clear_symbols();
            Ret::Unit
        }
        Anon => Ret::Id(Symbol::anon().id()),
        Names => {
            let mut v: Vec<String> = symbol_names().into_iter().filter(|x| w.names.contains(x)).collect();
            v.sort();
            Ret::Ids(v)
        }
        Count => Ret::Num(symbol_count() as i64 - w.base),
        Parse(n) => match parse(&nm(n), &HashSet::<String>::new(), &HashSet::<String>::new(), None) {
            Ok(e) => Ret::E(e),
            Err(e) => Ret::Other(format!("{e}")),
        },
        CSymb(c, n) => Ret::Id(w.ctx[c as usize].symb(&nm(n)).id()),
        CGet(c, n) => w.ctx[c as usize].get_symbol(&nm(n)).map_or(Ret::NoneRet, |s| Ret::Id(s.id())),
        CHas(c, n) => Ret::Bool(w.ctx[c as usize].contains_symbol(&nm(n))),
        CRemove(c, n) => {
            let n = nm(n);
            Ret::Bool(w.ctx[c as usize].remove_symbol(&n))
        }
        CClear(c) => {
            w.ctx[c as usize].clear_symbols();
            Ret::Unit
        }
        CNames(c) => {
            let mut v = w.ctx[c as usize].symbol_names();
            let mut s: Vec<String> = w.ctx[c as usize].symbol_names_set().into_iter().collect();
            v.sort();
            s.sort();
            if v != s || w.ctx[c as usize].symbol_count() != v.len() {
                return Ret::Other(format!("names {v:?}, as a set {s:?}, count {}", w.ctx[c as usize].symbol_count()));
            }
            Ret::Ids(v)
        }
        CList(c) => {
            let mut v = w.ctx[c as usize].symbol_names();
            v.sort();
            Ret::Ids(v)
        }
        CParse(c, n) => match parse(&nm(n), &HashSet::<String>::new(), &HashSet::<String>::new(), Some(&w.ctx[c as usize])) {
            Ok(e) => Ret::E(e),
            Err(e) => Ret::Other(format!("{e}")),
        },
        FAsk(c, n) => {
            let x = &w.ctx[c as usize];
            let n = &nm(n);
            let a = [x.has_function(n), x.get_user_fn(n).is_some(), x.function_names().contains(n), x.get_body(n).is_some()];
            if a.iter().any(|q| *q != a[0]) {
                return Ret::Other(format!("has, get, names, body: {a:?}"));
            }
            Ret::Bool(a[0])
        }
        FWith(c, n) => {
            let n = nm(n);
            let x = w.ctx[c as usize].clone();
            w.ctx[c as usize] = x.with_function(&n, UserFunction::new(1..=1).body(|a| 2.0 * (*a[0]).clone()));
            // a registered function's name becomes a global symbol
            ident(symb_get(&n))
        }
        FRemove(c, n) => {
            let n = nm(n);
            Ret::Bool(w.ctx[c as usize].remove_function(&n))
        }
        RemoveBuiltin => {
            let r = remove_symbol("sin");
            match parse("sin(0)", &HashSet::<String>::new(), &HashSet::<String>::new(), None) {
                Ok(e) => {
                    let z = e.evaluate(&HashMap::<&str, f64>::new(), &HashMap::new());
                    if r || z.as_number() != Some(0.0) {
                        return Ret::Other(format!("remove_symbol(\"sin\") is {r}, then sin(0) is {z}"));
                    }
                    Ret::Bool(r)
                }
                Err(e) => Ret::Other(format!("{e}")),
            }
        }
    }
}

/// What the plain table answers, given what was returned (for a fresh identity). None: wrong.
pub fn step(m: &mut Model, op: Op, got: &Ret, names: &[String; 2]) -> Result<(), String> {
    let name = |n: u8| names[n as usize].clone();
    let fresh = |got: &Ret, m: &mut Model| match got {
        Ret::Id(i) if m.used.insert(*i) => Ok(*i),
        Ret::Id(i) => Err(format!("identity {i} already belongs to another symbol; a new one is expected")),
        o => Err(format!("{o:?}; a new symbol is expected")),
    };
    let expect = |want: Ret| if *got == want { Ok(()) } else { Err(format!("{got:?}; the table of names answers {want:?}")) };
    match op {
        Symb(n) | Parse(n) => match m.global.get(&n) {
            Some(i) => expect(Ret::Id(*i)),
            None => {
                let i = fresh(got, m)?;
                m.global.insert(n, i);
                m.handles.push((i, Some(n)));
                Ok(())
            }
        },
        New(n) => match m.global.get(&n) {
            Some(_) => expect(Ret::Dup(name(n))),
            None => {
                let i = fresh(got, m)?;
                m.global.insert(n, i);
                m.handles.push((i, Some(n)));
                Ok(())
            }
        },
        Get(n) => expect(m.global.get(&n).map_or(Ret::NotFound(name(n)), |i| Ret::Id(*i))),
        Exists(n) => expect(Ret::Bool(m.global.contains_key(&n))),
        Remove(n) => {
            let i = m.global.remove(&n);
            m.isolated += i64::from(i.is_some_and(|i| m.adopted.contains(&i)));
            expect(Ret::Bool(i.is_some()))
        }
        Clear => {
            m.isolated += m.global.values().filter(|i| m.adopted.contains(i)).count() as i64;
            m.global.clear();
            m.anon = 0;
            expect(Ret::Unit)
        }
        Anon => {
            let i = fresh(got, m)?;
            m.anon += 1;
            m.handles.push((i, None));
            Ok(())
        }
        Names => {
            let mut v: Vec<String> = m.global.keys().map(|n| name(*n)).collect();
            v.sort();
            expect(Ret::Ids(v))
        }
        Count => expect(Ret::Num(m.global.len() as i64 + m.anon + m.isolated)),
        CSymb(c, n) | CParse(c, n) => {
            let t = (c % 2) as usize;
            if let Some(i) = m.ctx[t].get(&n) {
                return expect(Ret::Id(*i));
            }
            if let Some(i) = m.global.get(&n) {
                m.adopted.insert(*i);
                m.ctx[t].insert(n, *i);
                return expect(Ret::Id(*i));
            }
            let i = fresh(got, m)?;
            m.ctx[t].insert(n, i);
            m.isolated += 1;
            m.handles.push((i, Some(n)));
            Ok(())
        }
        CGet(c, n) => expect(m.ctx[(c % 2) as usize].get(&n).map_or(Ret::NoneRet, |i| Ret::Id(*i))),
        CHas(c, n) => expect(Ret::Bool(m.ctx[(c % 2) as usize].contains_key(&n))),
        CRemove(c, n) => expect(Ret::Bool(m.ctx[(c % 2) as usize].remove(&n).is_some())),
        CClear(c) => {
            m.ctx[(c % 2) as usize].clear();
            expect(Ret::Unit)
        }
        CNames(c) | CList(c) => {
            let mut v: Vec<String> = m.ctx[(c % 2) as usize].keys().map(|n| name(*n)).collect();
            v.sort();
            expect(Ret::Ids(v))
        }
        FAsk(c, n) => expect(Ret::Bool(m.fns[c as usize].contains_key(&n))),
        FWith(c, n) => {
            m.fns[c as usize].insert(n, ());
            step(m, Symb(n), got, names)
        }
        FRemove(c, n) => expect(Ret::Bool(m.fns[c as usize].remove(&n).is_some())),
        RemoveBuiltin => expect(Ret::Bool(false)),
    }
}

type Job = Box<dyn FnOnce() + Send>;

/// A second thread that runs operations handed to it one at a time.
pub struct Other {
    tx: Sender<Job>,
}
impl Other {
    pub fn new() -> Other {
        let (tx, rx): (Sender<Job>, Receiver<Job>) = channel();
        std::thread::spawn(move || {
            for j in rx {
                j();
            }
        });
        Other { tx }
    }
    pub fn run<R: Send + 'static>(&self, f: impl FnOnce() -> R + Send + 'static) -> R {
        let (t, r) = channel();
        self.tx.send(Box::new(move || { let _ = t.send(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))); })).expect("other thread");
        match r.recv().expect("other thread") {
            Ok(v) => v,
            Err(_) => panic!("{}", "on the second thread"),
        }
    }
}

pub fn word(mut i: u64) -> String {
    let mut s = String::from("zq");
    loop {
        s.push((b'a' + (i % 26) as u8) as char);
        i /= 26;
        if i == 0 {
            return s;
        }
    }
}

/// name, operations on each thread, how many threads, length
type Theme = (&'static str, Vec<Op>, u64, usize);

fn text(h: &[(u64, Op)]) -> String {
    h.iter().map(|(t, o)| if *t == 0 { format!("{o:?}") } else { format!("{o:?}@{t}") }).collect::<Vec<_>>().join("; ")
}

/// First use of the names and contexts must be in order (the others are the same history renamed).
fn canonical(h: &[(u64, Op)]) -> bool {
    let (mut n_seen, mut c_seen) = (0u8, 0u8);
    let mut t_seen = 0;
    for (t, o) in h {
        if *t > t_seen {
            return false;
        }
        t_seen = t_seen.max(1.max(t + 1));
        let (c, n) = match *o {
            Symb(n) | New(n) | Get(n) | Exists(n) | Remove(n) | Parse(n) => (None, Some(n)),
            CSymb(c, n) | CGet(c, n) | CHas(c, n) | CRemove(c, n) | CParse(c, n) | FAsk(c, n) | FWith(c, n) | FRemove(c, n) => (Some(c), Some(n)),
            CClear(c) | CNames(c) | CList(c) => (Some(c), None),
            _ => (None, None),
        };
        if let Some(n) = n {
            if n > n_seen {
                return false;
            }
            n_seen = n_seen.max(n + 1);
        }
        if let Some(c) = c {
            if c < 2 {
                if c > c_seen {
                    return false;
                }
                c_seen = c_seen.max(c + 1);
            }
        }
    }
    true
}

fn history(mc: &Arc<Mc>, other: &Other, serial: u64, rank: u64, theme: &str, h: &[(u64, Op)]) {
    let key = format!("{theme}: {}", text(h));
    if !mc.wants(&key) {
        return;
    }
    mc.enter(&key);
    mc.state(&key);
    let c0 = Context::new();
    let c2 = c0.clone();
    let mut w = World {
        names: [format!("{}x", word(serial)), format!("{}y", word(serial))],
        ctx: vec![c0, Context::new(), c2],
        base: symbol_count() as i64,
    };
    let mut m = Model::default();
    let on = |t: u64, op: Op, w: World| -> (Ret, World) {
        if t == 0 {
            let mut w = w;
            (exec(op, &mut w), w)
        } else {
            other.run(move || {
                let mut w = w;
                (exec(op, &mut w), w)
            })
        }
    };
    for (i, (t, op)) in h.iter().enumerate() {
        let (mut r, w2) = on(*t, *op, w);
        w = w2;
        mc.trans(1);
        if let Ret::E(e) = &r {
            // what the expression's symbol is, from the tables as they are now
            let nm: Vec<Symbol> = w.names.iter().flat_map(|n| symb_get(n).ok().into_iter().chain(w.ctx.iter().filter_map(|c| c.get_symbol(n))).collect::<Vec<_>>()).collect();
            r = nm.iter().find(|s| s.to_expr() == *e).map_or(Ret::Other(format!("{e:?}")), |s| Ret::Id(s.id()));
        }
        if let Err(e) = step(&mut m, *op, &r, &w.names) {
            mc.violation(rank, &key, &format!("step {} ({op:?} on thread {t}) answers {e}", i + 1));
            clear_symbols();
            return;
        }
    }
    // look at everything, on every thread of the history
    let threads = 1 + h.iter().map(|x| x.0).max().unwrap_or(0);
    let mut look = vec![Names, Count];
    for n in 0..2 {
        look.extend([Exists(n), Get(n)]);
        for c in 0..3 {
            look.extend([CGet(c, n), CHas(c, n), FAsk(c, n)]);
        }
    }
    for c in 0..3 {
        look.push(CNames(c));
    }
    // last, as these create
    for n in 0..2 {
        if m.global.contains_key(&n) {
            look.push(Symb(n));
        }
        for c in 0..3u8 {
            if m.ctx[(c % 2) as usize].contains_key(&n) {
                look.push(CSymb(c, n));
            }
        }
    }
    for t in 0..threads {
        let lk = look.clone();
        let hs = m.handles.clone();
        let job = move |mut w: World| {
            let r: Vec<(Op, Ret)> = lk.iter().map(|o| (*o, exec(*o, &mut w))).collect();
            let names: Vec<Option<String>> = hs.iter().map(|x| Symbol::from_id(x.0).name()).collect();
            let shown: Vec<String> = hs.iter().map(|x| Symbol::from_id(x.0).to_expr().to_string()).collect();
            (r, names, shown, w)
        };
        let (r, names, shown, w2) = if t == 0 { job(w) } else { other.run(move || job(w)) };
        w = w2;
        mc.trans(r.len() as u64);
        for (o, r) in r {
            if let Err(e) = step(&mut m, o, &r, &w.names) {
                mc.violation(rank, &key, &format!("afterwards {o:?} on thread {t} answers {e}"));
                clear_symbols();
                return;
            }
        }
        for (((id, n), got), shown) in m.handles.iter().zip(&names).zip(&shown) {
            let live = m.global.values().any(|i| i == id) || m.ctx.iter().any(|c| c.values().any(|i| i == id));
            let own = n.map(|n| w.names[n as usize].clone());
            let ok = match (&own, got) {
                (Some(a), Some(b)) => a == b && shown == a,
                (Some(_), None) => !live,
                (None, g) => g.is_none(),
            };
            if !ok {
                mc.violation(rank, &key, &format!("afterwards the handle of {own:?} ({}) is called {got:?} and prints {shown:?} on thread {t}", if live { "live" } else { "removed" }));
                clear_symbols();
                return;
            }
        }
    }
    mc.trace();
    clear_symbols();
}

pub fn run(mc: &Arc<Mc>, (k, nk): (u64, u64)) {
    // bring the library's own names into being
    let _ = parse("sin(0)+x", &HashSet::<String>::new(), &HashSet::<String>::new(), None).map(|e| e.evaluate(&HashMap::<&str, f64>::new(), &HashMap::new()).to_string());
    clear_symbols();
    let th = mc.thorough as usize;
    let themes: Vec<Theme> = vec![
        ("global", vec![Symb(0), Symb(1), New(0), New(1), Get(0), Get(1), Remove(0), Remove(1), Clear, Anon, Parse(0), RemoveBuiltin], 1, 6 + th),
        ("two-threads", vec![Symb(0), New(0), Remove(0), Get(0), Symb(1), Clear], 2, 6 + th),
        ("two-threads-one-name", vec![Symb(0), New(0), Remove(0), Clear], 2, 7 + th),
        ("contexts", vec![Symb(0), Remove(0), Clear, CSymb(0, 0), CSymb(1, 0), CSymb(2, 0), CRemove(0, 0), CClear(2), CParse(0, 0), CSymb(0, 1), Parse(0), Symb(1)], 1, 6 + th),
        ("contexts-two-threads", vec![Symb(0), Remove(0), CSymb(0, 0), CSymb(1, 0), CRemove(2, 0), Clear], 2, 6 + th),
        ("functions", vec![FAsk(0, 0), FWith(0, 0), FWith(1, 0), FWith(2, 1), FRemove(0, 0), FRemove(2, 0), Symb(0), Remove(0), CSymb(0, 0), Clear], 1, 6 + th),
    ];
    let other = Other::new();
    let mut serial = k;
    for (name, ops, threads, len) in &themes {
        let b = ops.len() as u64 * threads;
        for l in 1..=*len {
            let total = b.pow(l as u32);
            let mut n = 0;
            for i in 0..total {
                if i / 8 % nk != k {
                    continue;
                }
                if mc.stopped() {
                    return;
                }
                let mut q = i;
                let mut h = vec![(0, Clear); l];
                for s in h.iter_mut().rev() {
                    let d = q % b;
                    *s = (d / ops.len() as u64, ops[(d % ops.len() as u64) as usize]);
                    q /= b;
                }
                if !canonical(&h) {
                    continue;
                }
                serial += nk;
                let rank = (l as u64) << 40 | i;
                mc.guard(rank, || history(mc, &other, serial, rank, name, &h));
                n += 1;
            }
            mc.count(&format!("histories:{name}:length{l}"), n);
        }
    }
    mc.note("every history up to the stated length over the listed operations (names and contexts first used in order); each replayed on the real tables in a process of its own group, with a plain table of names as the model; after each history every query is asked on every thread");
}
