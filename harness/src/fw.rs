//! Framework shared by all checks: enumeration driver, violation reporting, evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::panic::AssertUnwindSafe;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

pub const MAX_VIOLATIONS: usize = 40;
const HANG_SECS: u64 = 60;

pub fn verif_dir() -> PathBuf {
    std::env::var("MC_VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub rank: u64,
    pub key: String,
    pub detail: String,
}

pub struct Slot {
    case: Mutex<Option<(String, Instant)>>,
}

pub struct Mc {
    pub pid: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    known: HashSet<String>,
    violations: Mutex<Vec<Violation>>,
    nviol: AtomicUsize,
    known_hit: Mutex<BTreeMap<String, String>>,
    stop: AtomicBool,
    states: Vec<Mutex<HashSet<u64>>>,
    pub more_states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    notes: Mutex<Vec<String>>,
    pub slots: Mutex<Vec<Arc<Slot>>>,
    pub only: Option<String>,
    trace_dir: Option<PathBuf>,
    pub threads: usize,
}

static CURRENT: OnceLock<Arc<Mc>> = OnceLock::new();

thread_local! {
    static MY_SLOT: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static TRACE_FILE: RefCell<Option<std::fs::File>> = const { RefCell::new(None) };
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

pub fn hash64<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn one_line(s: &str) -> String {
    s.replace('\n', "\\n")
}

impl Mc {
    pub fn new(pid: &str, thorough: bool, only: Option<String>, trace_dir: Option<PathBuf>) -> Arc<Mc> {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = HashSet::new();
        // known_findings.txt: lines  "known: property=<id> key=<exact key>"
        if let Ok(t) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
            for l in t.lines() {
                if let Some(r) = l.strip_prefix("known: property=") {
                    if let Some((p, k)) = r.split_once(" key=") {
                        if p == pid {
                            known.insert(k.split(" ## ").next().unwrap_or(k).to_string());
                        }
                    }
                }
            }
        }
        let mc = Arc::new(Mc {
            pid: pid.to_string(),
            thorough,
            seed,
            start: Instant::now(),
            known,
            violations: Mutex::new(vec![]),
            nviol: AtomicUsize::new(0),
            known_hit: Mutex::new(BTreeMap::new()),
            stop: AtomicBool::new(false),
            states: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            more_states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            counters: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            notes: Mutex::new(vec![]),
            slots: Mutex::new(vec![]),
            only,
            trace_dir,
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8),
        });
        let _ = CURRENT.set(mc.clone());
        install_hook();
        let m2 = mc.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let slots = m2.slots.lock().unwrap().clone();
            for s in slots {
                let c = s.case.lock().unwrap().clone();
                if let Some((k, t)) = c {
                    if t.elapsed().as_secs() > HANG_SECS {
                        m2.violation(0, &format!("{k} [no answer after {HANG_SECS}s]"), "operation did not return");
                        m2.finish_and_exit();
                    }
                }
            }
        });
        mc
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    /// Record that the current thread is working on this case (for crash and hang attribution).
    pub fn enter(&self, key: &str) {
        MY_SLOT.with(|s| {
            let mut s = s.borrow_mut();
            if s.is_none() {
                let n = Arc::new(Slot { case: Mutex::new(None) });
                self.slots.lock().unwrap().push(n.clone());
                *s = Some(n);
            }
            let mut g = s.as_ref().unwrap().case.lock().unwrap();
            match &mut *g {
                Some((k, t)) => {
                    k.clear();
                    k.push_str(key);
                    *t = Instant::now();
                }
                None => *g = Some((key.to_string(), Instant::now())),
            }
        });
        if let Some(d) = &self.trace_dir {
            TRACE_FILE.with(|f| {
                let mut f = f.borrow_mut();
                if f.is_none() {
                    let name = format!("{:?}", std::thread::current().id()).replace(['(', ')'], "_");
                    *f = std::fs::File::create(d.join(name)).ok();
                }
                if let Some(f) = f.as_mut() {
                    use std::io::Seek;
                    let _ = f.seek(std::io::SeekFrom::Start(0));
                    let _ = f.set_len(0);
                    let _ = f.write_all(key.as_bytes());
                }
            });
        }
    }
    pub fn leave(&self) {
        MY_SLOT.with(|s| {
            if let Some(s) = s.borrow().as_ref() {
                *s.case.lock().unwrap() = None;
            }
        });
        if self.trace_dir.is_some() {
            TRACE_FILE.with(|f| {
                if let Some(f) = f.borrow_mut().as_mut() {
                    let _ = f.set_len(0);
                }
            });
        }
    }
    pub fn violation(&self, rank: u64, key: &str, detail: &str) {
        let key = one_line(key);
        if self.known.contains(&key) {
            self.known_hit.lock().unwrap().insert(key, detail.to_string());
            return;
        }
        let n = self.nviol.fetch_add(1, Ordering::Relaxed) + 1;
        let mut v = self.violations.lock().unwrap();
        if v.len() < max_viol() * 4 {
            v.push(Violation { rank, key, detail: detail.to_string() });
        }
        if n >= max_viol() {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
    pub fn state<T: std::hash::Hash + ?Sized>(&self, t: &T) -> bool {
        let h = hash64(t);
        self.states[(h >> 58) as usize].lock().unwrap().insert(h)
    }
    pub fn trans(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    pub fn trace(&self) {
        self.traces.fetch_add(1, Ordering::Relaxed);
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.counters.lock().unwrap().entry(name.to_string()).or_insert(0) += n;
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut g = self.samples.lock().unwrap();
        if g.len() < 24 {
            let mut s: String = s.into();
            if s.len() > 600 {
                let mut e = 600;
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                s.truncate(e);
            }
            g.push(s);
        }
    }
    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().push(s.into());
    }

    /// Run `f` for every index of 0..n on all cores, each case panic-guarded.
    /// `f` returns local counters through the Mc itself.
    pub fn par<F: Fn(u64) + Sync>(self: &Arc<Self>, what: &str, n: u64, chunk: u64, f: F) {
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let t0 = Instant::now();
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for _ in 0..self.threads {
                let b = std::thread::Builder::new().stack_size(256 << 20);
                hs.push(
                    b.spawn_scoped(sc, || {
                        loop {
                            if self.stopped() {
                                break;
                            }
                            let i0 = next.fetch_add(chunk, Ordering::Relaxed);
                            if i0 >= n {
                                break;
                            }
                            for i in i0..(i0 + chunk).min(n) {
                                if self.stopped() {
                                    break;
                                }
                                self.guard(i, || f(i));
                                done.fetch_add(1, Ordering::Relaxed);
                            }
                        }
                        self.leave();
                    })
                    .expect("spawn"),
                );
            }
            for h in hs {
                let _ = h.join();
            }
        });
        let d = done.load(Ordering::Relaxed);
        if d < n && !self.stopped() {
            self.violation(0, &format!("{what}: a worker thread died"), "worker thread ended early");
        }
        self.count(&format!("cases:{what}"), d);
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("[{}] {what}: {d}/{n} cases in {:.1}s (viol {})", self.pid, t0.elapsed().as_secs_f64(), self.nviol.load(Ordering::Relaxed));
        }
    }
    /// Run f; a panic is a violation attributed to the current case.
    pub fn guard<R>(&self, rank: u64, f: impl FnOnce() -> R) -> Option<R> {
        match std::panic::catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(_) => {
                let msg = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                let key = self.current_case();
                self.violation(rank, &format!("{key} [panic]"), &format!("panicked: {msg}"));
                None
            }
        }
    }
    pub fn current_case(&self) -> String {
        MY_SLOT.with(|s| {
            s.borrow().as_ref().and_then(|s| s.case.lock().unwrap_or_else(|e| e.into_inner()).clone()).map(|x| x.0).unwrap_or_else(|| "?".into())
        })
    }
    pub fn verbose(&self) -> bool {
        std::env::var("MC_VERBOSE").is_ok()
    }
    pub fn wants(&self, key: &str) -> bool {
        self.only.as_deref().is_none_or(|o| key.contains(o))
    }

    pub fn finish_and_exit(&self) -> ! {
        let code = self.finish();
        let _ = std::io::stdout().flush();
        std::process::exit(code);
    }
    pub fn finish(&self) -> i32 {
        if child().is_some() {
            return self.report_to_parent();
        }
        let mut v = self.violations.lock().unwrap_or_else(|e| e.into_inner()).clone();
        v.sort_by(|a, b| (a.rank, a.key.len(), &a.key).cmp(&(b.rank, b.key.len(), &b.key)));
        let known = self.known_hit.lock().unwrap_or_else(|e| e.into_inner()).clone();
        for (k, d) in &known {
            println!("KNOWN-FINDING: property={} {} -- {}", self.pid, k, one_line(d));
        }
        let (st, tr) = (
            self.states.iter().map(|s| s.lock().unwrap().len() as u64).sum::<u64>() + self.more_states.load(Ordering::Relaxed),
            self.transitions.load(Ordering::Relaxed),
        );
        let traces = self.traces.load(Ordering::Relaxed);
        let mut cov = String::new();
        cov.push_str(&format!("\"states\":{st},\"transitions\":{tr},\"traces_validated_against_impl\":{traces}"));
        let counters = self.counters.lock().unwrap().clone();
        for (k, n) in &counters {
            cov.push_str(&format!(",\"{}\":{}", esc(k), n));
        }
        let s: Vec<String> = self.samples.lock().unwrap().iter().map(|s| format!("\"{}\"", esc(s))).collect();
        cov.push_str(&format!(",\"samples\":[{}]", s.join(",")));
        cov.push_str(&format!(",\"exhaustive\":{}", !self.stopped() && self.only.is_none()));
        let notes: Vec<String> = self.notes.lock().unwrap().iter().map(|s| format!("\"{}\"", esc(s))).collect();
        let kf: Vec<String> = known.keys().map(|s| format!("\"{}\"", esc(s))).collect();
        cov.push_str(&format!(",\"known_findings_seen\":[{}]", kf.join(",")));
        let level = "model_checking";
        let json = format!(
            "{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"{level}\",\"coverage\":{{{cov}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
            self.pid,
            if self.thorough { "thorough" } else { "quick" },
            self.seed,
            notes.join(","),
            self.elapsed(),
            v.len()
        );
        let dir = verif_dir();
        let _ = std::fs::create_dir_all(dir.join("evidence"));
        let _ = std::fs::write(dir.join("evidence").join(format!("{}.json", self.pid)), json);
        println!("{}: states={st} transitions={tr} traces={traces} wall={:.1}s violations={}", self.pid, self.elapsed(), v.len());
        for (k, n) in &counters {
            println!("  {k} = {n}");
        }
        if v.is_empty() {
            let _ = std::fs::remove_file(dir.join("replays").join(format!("{}.txt", self.pid)));
            return 0;
        }
        let rd = dir.join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let path = rd.join(format!("{}.txt", self.pid));
        let mut f = String::new();
        f.push_str(&format!("property {} violated; rerun: /verif/check.sh {} (enumeration is deterministic)\n", self.pid, self.pid));
        for x in &v {
            f.push_str(&format!("case: {}\n  {}\n", x.key, x.detail.replace('\n', "\n  ")));
        }
        let _ = std::fs::write(&path, f);
        for x in v.iter().take(8) {
            println!("  case: {}\n    {}", x.key, x.detail.replace('\n', "\n    "));
        }
        println!("VIOLATION property={} replay={}", self.pid, path.display());
        1
    }
}

/// Which part of the space this process explores, if it is one of several: (index, count).
pub fn child() -> Option<(u64, u64)> {
    let s = std::env::var("MC_CHILD").ok()?;
    let (a, b) = s.split_once('/')?;
    Some((a.parse().ok()?, b.parse().ok()?))
}

impl Mc {
    /// What a child process found, one item per line.
    fn report_to_parent(&self) -> i32 {
        let mut o = String::new();
        for v in self.violations.lock().unwrap_or_else(|e| e.into_inner()).iter() {
            o.push_str(&format!("@V\t{}\t{}\t{}\n", v.rank, one_line(&v.key).replace('\t', " "), one_line(&v.detail).replace('\t', " ")));
        }
        for (k, d) in self.known_hit.lock().unwrap_or_else(|e| e.into_inner()).iter() {
            o.push_str(&format!("@K\t{}\t{}\n", k.replace('\t', " "), one_line(d).replace('\t', " ")));
        }
        for (k, n) in self.counters.lock().unwrap_or_else(|e| e.into_inner()).iter() {
            o.push_str(&format!("@C\t{k}\t{n}\n"));
        }
        for s in self.samples.lock().unwrap_or_else(|e| e.into_inner()).iter() {
            o.push_str(&format!("@S\t{}\n", one_line(s)));
        }
        for s in self.notes.lock().unwrap_or_else(|e| e.into_inner()).iter() {
            o.push_str(&format!("@N\t{}\n", one_line(s)));
        }
        let st = self.states.iter().map(|s| s.lock().unwrap().len() as u64).sum::<u64>() + self.more_states.load(Ordering::Relaxed);
        o.push_str(&format!("@T\t{st}\t{}\t{}\t{}\n", self.transitions.load(Ordering::Relaxed), self.traces.load(Ordering::Relaxed), self.stopped() as u8));
        print!("{o}");
        let _ = std::io::stdout().flush();
        0
    }
    /// Explore with several processes of this program (each sees `child()`), for state that is global to a process.
    pub fn processes(self: &Arc<Self>, range: std::ops::Range<u64>, count: u64) {
        let exe = std::env::current_exe().expect("exe");
        let args: Vec<String> = std::env::args().skip(1).collect();
        let next = AtomicU64::new(range.start);
        std::thread::scope(|sc| {
            for _ in 0..self.threads {
                sc.spawn(|| loop {
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    if k >= range.end || self.stopped() {
                        break;
                    }
                    self.process(&exe, &args, k, count);
                });
            }
        });
    }
    fn process(self: &Arc<Self>, exe: &std::path::Path, args: &[String], k: u64, count: u64) {
        let mc = self;
        let mut c = std::process::Command::new(exe);
        c.args(args).env("MC_CHILD", format!("{k}/{count}")).stdout(std::process::Stdio::piped());
        let c = c.spawn().expect("spawn child");
        let out = c.wait_with_output().expect("child");
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        let mut done = false;
        for l in text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "@V" if f.len() == 4 => mc.violation(f[1].parse().unwrap_or(0), f[2], f[3]),
                "@K" if f.len() == 3 => {
                    mc.known_hit.lock().unwrap().insert(f[1].into(), f[2].into());
                }
                "@C" if f.len() == 3 => mc.count(f[1], f[2].parse().unwrap_or(0)),
                "@S" if f.len() > 1 => mc.sample(f[1]),
                "@N" if f.len() > 1 => {
                    if k == 0 {
                        mc.note(f[1])
                    }
                }
                "@T" if f.len() == 5 => {
                    mc.more_states.fetch_add(f[1].parse().unwrap_or(0), Ordering::Relaxed);
                    mc.trans(f[2].parse().unwrap_or(0));
                    mc.traces.fetch_add(f[3].parse().unwrap_or(0), Ordering::Relaxed);
                    done = true;
                }
                _ => println!("{l}"),
            }
        }
        if !done {
            mc.violation(0, &format!("process {k} of {count} died"), &format!("{}", out.status));
        }
    }
}

pub fn max_viol() -> usize {
    static M: OnceLock<usize> = OnceLock::new();
    *M.get_or_init(|| std::env::var("MC_MAXVIOL").ok().and_then(|s| s.parse().ok()).unwrap_or(MAX_VIOLATIONS))
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}");
        if msg.contains("unsafe precondition") || msg.contains("panic in a function that cannot unwind") || msg.contains("panic in a destructor during cleanup") {
            // The process is about to abort: report now.
            if let Some(mc) = CURRENT.get() {
                let key = mc.current_case();
                mc.violation(0, &format!("{key} [abort]"), &format!("aborting panic (memory safety precondition): {msg}"));
                mc.finish_and_exit();
            }
        }
        if std::env::var("MC_PANICS").is_ok() {
            eprintln!("panic: {msg}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(msg));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

/// Supervise: run the worker as a child; a death by signal is a violation too.
pub fn supervise(pid: &str, args: &[String]) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let run = |trace: Option<&std::path::Path>| {
        let mut c = std::process::Command::new(&exe);
        c.args(args).arg("--worker");
        if let Some(t) = trace {
            c.arg("--trace").arg(t);
        }
        c.status()
    };
    let st = match run(None) {
        Ok(s) => s,
        Err(e) => {
            println!("cannot run worker: {e}");
            return 2;
        }
    };
    match st.code() {
        Some(c) if c <= 2 => c,
        other => {
            if std::os::unix::process::ExitStatusExt::signal(&st) == Some(9) {
                println!("worker for {pid} was killed from outside");
                return 2;
            }
            println!("worker for {pid} ended abnormally ({other:?}, {st}); rerunning with per-case trace");
            let td = std::env::temp_dir().join(format!("mc-trace-{}-{}", pid, std::process::id()));
            let _ = std::fs::create_dir_all(&td);
            let st2 = run(Some(&td));
            let mut cases = vec![];
            if let Ok(rd) = std::fs::read_dir(&td) {
                for e in rd.flatten() {
                    if let Ok(s) = std::fs::read_to_string(e.path()) {
                        if !s.is_empty() {
                            cases.push(s);
                        }
                    }
                }
            }
            let _ = std::fs::remove_dir_all(&td);
            if let Ok(s) = &st2 {
                if matches!(s.code(), Some(0)) {
                    println!("second run was clean; first ended with {st}");
                    return 2;
                }
                if matches!(s.code(), Some(1)) {
                    return 1;
                }
            }
            let dir = verif_dir().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{pid}.txt"));
            let mut f = format!("worker process died: {st} then {st2:?}\ncases in progress on its threads:\n");
            for c in &cases {
                f.push_str(&format!("case: {c}\n"));
            }
            let _ = std::fs::write(&path, &f);
            println!("{f}");
            println!("VIOLATION property={pid} replay={}", path.display());
            1
        }
    }
}

/// Small per-thread memo helper.
pub struct Memo<K, V>(Mutex<HashMap<K, V>>);
impl<K: std::hash::Hash + Eq, V: Clone> Memo<K, V> {
    pub fn new() -> Self {
        Memo(Mutex::new(HashMap::new()))
    }
    pub fn get(&self, k: K, f: impl FnOnce() -> V) -> V {
        if let Some(v) = self.0.lock().unwrap().get(&k) {
            return v.clone();
        }
        let v = f();
        self.0.lock().unwrap().insert(k, v.clone());
        v
    }
}
