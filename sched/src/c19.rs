//! C19: every interleaving, at the granularity of lock and atomic accesses, of small concurrent programs of symbol and
//! context operations is equivalent to some sequential order.
use crate::c18::{exec, resolve, step, word, Model, Op, Op::*, Ret, World};
use crate::fw::Mc;
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};
use symb_anafis::*;

const NONE: usize = usize::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    /// waiting at a scheduling point
    Ready,
    /// waiting for a lock another thread holds
    Blocked(usize),
    Running,
    /// running, but stuck on something the scheduler does not see
    Outside,
    Done,
}

#[derive(Default)]
struct State {
    st: Vec<St>,
    current: usize,
    /// choices to make, then choices made: (taken, how many there were, whether leaving was a preemption)
    plan: Vec<usize>,
    made: Vec<(usize, usize, bool)>,
    progress: u64,
    /// call and return events in order
    events: Vec<(usize, usize, bool)>,
    deadlock: bool,
    dead_trace: String,
}

struct Sched {
    s: Mutex<State>,
    cv: Vec<Condvar>,
    main: Condvar,
}

static SCHED: OnceLock<Sched> = OnceLock::new();
thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
}

fn sched() -> &'static Sched {
    SCHED.get_or_init(|| Sched { s: Mutex::new(State::default()), cv: (0..4).map(|_| Condvar::new()).collect(), main: Condvar::new() })
}

impl State {
    /// Decide who goes on. The threads that can: the current one first.
    fn pick(&mut self, me: usize) -> usize {
        let mut e: Vec<usize> = vec![];
        let mine = me != NONE && self.st[me] == St::Ready;
        if mine {
            e.push(me);
        }
        for t in 0..self.st.len() {
            if t != me && self.st[t] == St::Ready {
                e.push(t);
            }
        }
        if e.is_empty() {
            return NONE;
        }
        let i = self.made.len();
        let c = self.plan.get(i).copied().unwrap_or(0).min(e.len() - 1);
        self.made.push((c, e.len(), mine));
        e[c]
    }
    fn hand(&mut self, to: usize) {
        self.current = to;
        if to != NONE {
            self.st[to] = St::Running;
            sched().cv[to].notify_one();
        }
    }
}

/// The calling thread comes to a scheduling point in state `st`; returns when it is its turn.
fn at_point(me: usize, st: St) {
    let sc = sched();
    let mut s = sc.s.lock().unwrap();
    s.progress += 1;
    let was_outside = s.st[me] == St::Outside;
    s.st[me] = st;
    if !was_outside || s.current == NONE {
        let to = s.pick(me);
        if to == me {
            s.st[me] = St::Running;
            s.current = me;
            return;
        }
        s.hand(to);
        if to == NONE {
            sc.main.notify_one();
        }
    }
    if st == St::Done {
        return;
    }
    while s.st[me] != St::Running {
        s = sc.cv[me].wait(s).unwrap();
    }
}

fn observe(e: SyncEvent) {
    let me = ME.with(|m| m.get());
    if me == NONE {
        return;
    }
    match e {
        SyncEvent::Acquire(_) | SyncEvent::Atomic(_) => at_point(me, St::Ready),
        SyncEvent::Blocked(a) => at_point(me, St::Blocked(a)),
        SyncEvent::Release(a) => {
            let mut s = sched().s.lock().unwrap();
            for t in s.st.iter_mut() {
                if *t == St::Blocked(a) {
                    *t = St::Ready;
                }
            }
        }
    }
}

type Job = Box<dyn FnOnce() + Send>;
struct Worker {
    tx: Sender<Job>,
}
impl Worker {
    fn new() -> Worker {
        let (tx, rx): (Sender<Job>, Receiver<Job>) = channel();
        std::thread::spawn(move || {
            for j in rx {
                j();
            }
        });
        Worker { tx }
    }
    fn call<R: Send + 'static>(&self, f: impl FnOnce() -> R + Send + 'static) -> R {
        let (t, r) = channel();
        let _ = self.tx.send(Box::new(move || {
            let _ = t.send(f());
        }));
        r.recv().expect("worker")
    }
}

#[derive(Clone, Debug)]
struct Prog {
    /// run one after another beforehand: (thread or 9 for the main one, operation)
    setup: Vec<(usize, Op)>,
    threads: Vec<Vec<Op>>,
}

struct Outcome {
    rets: Vec<Vec<Ret>>,
    panics: Vec<String>,
    events: Vec<(usize, usize, bool)>,
    made: Vec<(usize, usize, bool)>,
    deadlock: Option<String>,
}

/// One execution along `plan` (then the default: go on without preemption).
fn execute(p: &Prog, ws: &[Worker], w: &World, plan: Vec<usize>) -> Outcome {
    let sc = sched();
    let k = p.threads.len();
    {
        let mut s = sc.s.lock().unwrap();
        *s = State { st: vec![St::Running; k], current: NONE, plan, ..Default::default() };
    }
    let mut res = vec![];
    for (t, ops) in p.threads.iter().enumerate() {
        let ops = ops.clone();
        let mut w = World { names: w.names.clone(), ctx: w.ctx.clone(), base: w.base };
        let (tx, rx) = channel();
        res.push(rx);
        let _ = ws[t].tx.send(Box::new(move || {
            // gather at the start
            {
                let sc = sched();
                let mut s = sc.s.lock().unwrap();
                s.st[t] = St::Ready;
                sc.main.notify_one();
                while s.st[t] != St::Running {
                    s = sc.cv[t].wait(s).unwrap();
                }
            }
            ME.with(|m| m.set(t));
            let mut out = vec![];
            let mut panicked = None;
            for (i, op) in ops.iter().enumerate() {
                if i > 0 {
                    at_point(t, St::Ready);
                }
                sched().s.lock().unwrap().events.push((t, i, true));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec(*op, &mut w)));
                sched().s.lock().unwrap().events.push((t, i, false));
                match r {
                    Ok(r) => out.push(r),
                    Err(_) => {
                        panicked = Some(format!("{op:?} on thread {t} panicked: {}", crate::fw::last_panic()));
                        break;
                    }
                }
            }
            ME.with(|m| m.set(NONE));
            let _ = tx.send((out, panicked));
            at_point(t, St::Done);
        }));
    }
    let mut s = sc.s.lock().unwrap();
    while s.st.iter().any(|x| *x != St::Ready) {
        s = sc.main.wait(s).unwrap();
    }
    let to = s.pick(NONE);
    s.hand(to);
    let mut seen = (s.progress, Instant::now());
    while s.st.iter().any(|x| *x != St::Done) {
        let (s2, _) = sc.main.wait_timeout(s, Duration::from_millis(20)).unwrap();
        s = s2;
        if s.progress != seen.0 {
            seen = (s.progress, Instant::now());
            if s.current == NONE && s.st.iter().any(|x| *x == St::Ready) {
                let to = s.pick(NONE);
                s.hand(to);
            }
            if s.current != NONE || s.st.iter().any(|x| matches!(x, St::Running)) {
                continue;
            }
        }
        let stuck = seen.1.elapsed();
        let nobody = s.st.iter().all(|x| matches!(x, St::Done | St::Blocked(_)));
        if nobody || stuck > Duration::from_secs(5) {
            if s.st.iter().all(|x| *x == St::Done) {
                break;
            }
            let d = format!("threads are {:?}, events {:?}", s.st, s.events);
            return Outcome { rets: vec![], panics: vec![], events: s.events.clone(), made: s.made.clone(), deadlock: Some(d) };
        }
        if stuck > Duration::from_millis(60) {
            // the running thread waits for something the scheduler does not see: let another one go on
            let c = s.current;
            if c != NONE && s.st[c] == St::Running {
                s.st[c] = St::Outside;
                let to = s.pick(NONE);
                s.hand(to);
                seen.1 = Instant::now();
            }
        }
    }
    let (events, made) = (s.events.clone(), s.made.clone());
    drop(s);
    let mut rets = vec![];
    let mut panics = vec![];
    for r in res {
        let (o, p) = r.recv().expect("worker result");
        rets.push(o);
        panics.extend(p);
    }
    Outcome { rets, panics, events, made, deadlock: None }
}

struct Call {
    t: usize,
    i: usize,
    op: Op,
    ret: Ret,
    from: usize,
    to: usize,
}

/// Is there a sequential order, consistent with real time, in which the table of names gives these answers?
fn linear(m: &Model, calls: &[Call], done: &mut Vec<bool>, names: &[String; 2], why: &mut String) -> bool {
    if done.iter().all(|d| *d) {
        return true;
    }
    for i in 0..calls.len() {
        if done[i] || (0..calls.len()).any(|j| !done[j] && j != i && calls[j].to < calls[i].from) {
            continue;
        }
        let mut m2 = m.clone();
        match step(&mut m2, calls[i].op, &calls[i].ret, names) {
            Ok(()) => {
                done[i] = true;
                if linear(&m2, calls, done, names, why) {
                    return true;
                }
                done[i] = false;
            }
            Err(e) => *why = format!("{:?} on thread {} answers {e}", calls[i].op, calls[i].t),
        }
    }
    false
}

fn show(p: &Prog) -> String {
    let f = |v: &Vec<Op>| v.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join("; ");
    let s = p.setup.iter().map(|(t, o)| if *t == 9 { format!("{o:?}") } else { format!("{o:?}@{t}") }).collect::<Vec<_>>().join("; ");
    format!("[{s}] then {}", p.threads.iter().map(f).collect::<Vec<_>>().join(" || "))
}

fn explore(mc: &Arc<Mc>, ws: &[Worker], serial: &mut u64, nk: u64, rank: u64, p: &Prog, bound: usize) {
    let key0 = show(p);
    if !mc.wants(&key0) {
        return;
    }
    mc.state(&key0);
    let mut plan: Vec<usize> = vec![];
    let mut runs = 0u64;
    let ctx_op = |o: &Op| matches!(o, CSymb(..) | CGet(..) | CHas(..) | CRemove(..) | CClear(_) | CList(_) | CParse(..));
    let has_ctx = p.threads.iter().flatten().any(ctx_op) || p.setup.iter().any(|x| ctx_op(&x.1));
    loop {
        if mc.stopped() {
            return;
        }
        mc.enter(&key0);
        *serial += nk;
        let c0 = Context::new();
        let c1 = c0.clone();
        let w = World { names: [format!("{}x", word(*serial)), format!("{}y", word(*serial))], ctx: vec![c0, Context::new(), c1], base: symbol_count() as i64 };
        let mut m = Model::default();
        let mut known: Vec<(u64, Expr)> = vec![];
        for (t, op) in &p.setup {
            let mut w2 = World { names: w.names.clone(), ctx: w.ctx.clone(), base: w.base };
            let op = *op;
            let mut r = if *t == 9 { exec(op, &mut w2) } else { ws[*t].call(move || exec(op, &mut w2)) };
            resolve(&mut r, &mut known);
            if let Err(e) = step(&mut m, op, &r, &w.names) {
                mc.violation(rank, &key0, &format!("in the setup, {op:?} answers {e}"));
                return;
            }
        }
        let out = execute(p, ws, &w, plan.clone());
        runs += 1;
        mc.trans(out.made.len() as u64);
        let schedule: Vec<usize> = out.made.iter().map(|x| x.0).collect();
        let key = format!("{key0} schedule {:?}", trim(&schedule));
        if let Some(d) = out.deadlock {
            mc.violation(rank, &key, &format!("no thread can go on: {d}"));
            mc.finish_and_exit();
        }
        if let Some(p) = out.panics.first() {
            mc.violation(rank, &key, p);
            // locks may be poisoned
            mc.finish_and_exit();
        }
        let mut calls = vec![];
        for (t, rs) in out.rets.iter().enumerate() {
            for (i, r) in rs.iter().enumerate() {
                let mut r = r.clone();
                if let Ret::Id(_) = r {
                    resolve(&mut r, &mut known);
                }
                let pos = |call: bool| out.events.iter().position(|e| *e == (t, i, call)).unwrap_or(0);
                calls.push(Call { t, i, op: p.threads[t][i], ret: r, from: pos(true), to: pos(false) });
            }
        }
        // afterwards, one after another: what everybody sees
        let mut end = out.events.len();
        let mut after: Vec<(usize, Op)> = vec![];
        for n in 0..2 {
            after.extend([(9, Get(n)), (9, Exists(n))]);
            if has_ctx {
                after.extend([(9, CGet(0, n)), (9, CGet(1, n)), (9, CGet(2, n))]);
            }
        }
        after.push((9, Names));
        if !has_ctx {
            after.push((9, Count));
        }
        for t in 0..p.threads.len() {
            after.push((t, Parse(0)));
            if has_ctx {
                after.push((t, CParse(0, 0)));
            }
        }
        after.push((9, Get(0)));
        for (t, op) in after {
            let mut w2 = World { names: w.names.clone(), ctx: w.ctx.clone(), base: w.base };
            let r = if t == 9 {
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec(op, &mut w2))).map_err(|_| crate::fw::last_panic())
            } else {
                ws[t].call(move || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec(op, &mut w2))).map_err(|_| crate::fw::last_panic()))
            };
            let mut r = match r {
                Ok(r) => r,
                Err(e) => {
                    mc.violation(rank, &key, &format!("afterwards, {op:?} on thread {t} panics: {e}"));
                    mc.finish_and_exit();
                }
            };
            if let Ret::Id(_) = r {
                resolve(&mut r, &mut known);
            }
            calls.push(Call { t, i: 0, op, ret: r, from: end, to: end + 1 });
            end += 2;
        }
        for c in calls.iter_mut() {
            resolve(&mut c.ret, &mut known);
        }
        let mut why = String::new();
        let mut done = vec![false; calls.len()];
        if !linear(&m, &calls, &mut done, &w.names, &mut why) {
            let hist = calls.iter().map(|c| format!("{:?}@{}.{} [{}..{}] = {:?}", c.op, c.t, c.i, c.from, c.to, c.ret)).collect::<Vec<_>>().join("; ");
            mc.violation(rank, &key, &format!("no sequential order gives these answers ({why}): {hist}"));
            return;
        }
        mc.trace();
        for n in &w.names {
            remove_symbol(n);
        }
        // the next schedule, depth first, within the preemption bound
        let mut next = None;
        let mut pre = 0;
        let cost: Vec<usize> = out
            .made
            .iter()
            .map(|(c, _, mine)| {
                let before = pre;
                if *mine && *c > 0 {
                    pre += 1;
                }
                before
            })
            .collect();
        for i in (0..out.made.len()).rev() {
            let (c, n, mine) = out.made[i];
            if c + 1 < n && cost[i] + (mine as usize) <= bound {
                let mut q: Vec<usize> = schedule[..i].to_vec();
                q.push(c + 1);
                next = Some(q);
                break;
            }
        }
        match next {
            Some(q) => plan = q,
            None => break,
        }
    }
    mc.count("schedules", runs);
}

fn trim(v: &[usize]) -> Vec<usize> {
    let n = v.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
    v[..n].to_vec()
}

/// every program with threads of the given lengths over the operations; threads of equal length in order
fn programs(ops: &[Op], lens: &[usize], setups: &[Vec<(usize, Op)>]) -> Vec<Prog> {
    let mut out = vec![];
    let total: usize = lens.iter().sum();
    let b = ops.len();
    for i in 0..b.pow(total as u32) {
        let mut q = i;
        let mut d = vec![0; total];
        for x in d.iter_mut().rev() {
            *x = q % b;
            q /= b;
        }
        let mut parts: Vec<Vec<usize>> = vec![];
        let mut at = 0;
        for l in lens {
            parts.push(d[at..at + l].to_vec());
            at += l;
        }
        let sym = parts.windows(2).all(|p| p[0].len() != p[1].len() || p[0] <= p[1]);
        let threads: Vec<Vec<Op>> = parts.iter().map(|p| p.iter().map(|k| ops[*k]).collect()).collect();
        // at most two whole-table operations
        if threads.iter().flatten().filter(|o| matches!(o, Clear | Names)).count() > 1 {
            continue;
        }
        for s in setups {
            let even = s.iter().all(|x| x.0 == 9);
            if !sym && even {
                continue;
            }
            out.push(Prog { setup: s.clone(), threads: threads.clone() });
        }
    }
    out
}

pub fn run(mc: &Arc<Mc>, (k, nk): (u64, u64)) {
    let _ = parse("sin(0)+x", &HashSet::<String>::new(), &HashSet::<String>::new(), None).map(|e| e.evaluate(&HashMap::<&str, f64>::new(), &HashMap::new()).to_string());
    clear_symbols();
    set_sync_observer(observe);
    let ws: Vec<Worker> = (0..4).map(|_| Worker::new()).collect();
    let th = mc.thorough;
    let plain: Vec<Vec<(usize, Op)>> = vec![vec![], vec![(9, Symb(0))], vec![(0, Symb(0))], vec![(0, Symb(0)), (1, Symb(0))], vec![(0, Symb(0)), (9, Remove(0))]];
    let basic = vec![Symb(0), New(0), Get(0), Remove(0), Exists(0), Parse(0), Symb(1), Count, Names, Clear];
    let core = vec![Symb(0), New(0), Remove(0), Get(0), Parse(0)];
    let ctxs: Vec<Vec<(usize, Op)>> = vec![vec![], vec![(9, Symb(0))], vec![(0, CSymb(0, 0))], vec![(9, Symb(0)), (1, CSymb(0, 0)), (9, Remove(0))]];
    let cops = vec![CSymb(0, 0), CSymb(2, 0), CSymb(1, 0), CGet(0, 0), CHas(2, 0), CRemove(0, 0), CClear(2), CList(0), CParse(0, 0), Symb(0), Remove(0), Clear];
    let ccore = vec![CSymb(0, 0), CRemove(2, 0), CGet(0, 0), Symb(0), Remove(0), CSymb(1, 0)];
    let all = 99;
    let mut themes: Vec<(&str, Vec<Prog>, usize)> = vec![
        ("two threads, one operation each", programs(&basic, &[1, 1], &plain), all),
        ("two threads, two and one", programs(&basic, &[2, 1], &plain), if th { 5 } else { 3 }),
        ("three threads, one each", programs(&core, &[1, 1, 1], &plain), if th { 5 } else { 3 }),
        ("two threads, two each", programs(&core, &[2, 2], &plain), if th { 4 } else { 2 }),
        ("contexts, one operation each", programs(&cops, &[1, 1], &ctxs), all),
        ("contexts, two and one", programs(&cops, &[2, 1], &ctxs), if th { 4 } else { 2 }),
        ("contexts, three threads", programs(&ccore, &[1, 1, 1], &ctxs), if th { 4 } else { 2 }),
    ];
    if th {
        themes.push(("contexts, two each", programs(&ccore, &[2, 2], &ctxs), 2));
        themes.push(("three threads, two one one", programs(&core, &[2, 1, 1], &plain), 2));
    }
    let mut serial = k;
    for (ti, (name, progs, bound)) in themes.iter().enumerate() {
        let mut n = 0;
        for (i, p) in progs.iter().enumerate() {
            if i as u64 % nk != k {
                continue;
            }
            let has_clear = show(p).contains("Clear") && *bound == all;
            explore(mc, &ws, &mut serial, nk, (ti as u64) << 32 | i as u64, p, if has_clear { 3 } else { *bound });
            n += 1;
        }
        mc.count(&format!("programs:{name}"), n);
    }
    mc.note("schedules: depth-first over every choice at every lock acquisition, atomic access and operation boundary, within the preemption bound of the theme (unbounded for one operation per thread); each execution on the real tables; the answers, and what every thread sees afterwards, must fit some sequential order consistent with real time");
}
