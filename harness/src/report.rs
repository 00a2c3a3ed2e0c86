//! Run context: evidence, violations, known findings, panic capture, watchdog, parallel loops.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// A JSON value, just enough for the evidence file.
#[derive(Clone)]
pub enum J {
    I(i64),
    F(f64),
    B(bool),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    fn esc(s: &str, o: &mut String) {
        o.push('"');
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                c if (c as u32) < 32 || (c as u32) > 126 => {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        let _ = write!(o, "\\u{:04x}", u);
                    }
                }
                c => o.push(c),
            }
        }
        o.push('"');
    }
    pub fn write(&self, o: &mut String, ind: usize) {
        match self {
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::F(f) => {
                let _ = write!(o, "{:.3}", f);
            }
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::S(s) => J::esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    x.write(o, ind + 1);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push_str("{\n");
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(",\n");
                    }
                    for _ in 0..=ind {
                        o.push(' ');
                    }
                    J::esc(k, o);
                    o.push_str(": ");
                    x.write(o, ind + 1);
                }
                o.push_str("\n}");
            }
        }
    }
}

pub struct Violation {
    pub key: String,
    pub msg: String,
}

const SLOTS: usize = 64;
type Slot = Mutex<Option<(Instant, String)>>;

pub struct Ctx {
    pub id: &'static str,
    pub level: &'static str,
    pub thorough: bool,
    pub seed: u64,
    start: Instant,
    counters: Mutex<BTreeMap<String, u64>>,
    cov: Mutex<BTreeMap<String, J>>,
    assumptions: Mutex<Vec<String>>,
    samples: Mutex<Vec<String>>,
    violations: Mutex<Vec<Violation>>,
    vcount: AtomicU64,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeSet<String>>,
    stop: AtomicBool,
    finished: AtomicBool,
    slots: Vec<Slot>,
    hang_secs: AtomicU64,
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

impl Ctx {
    fn new(id: &'static str, level: &'static str) -> Ctx {
        let known = std::fs::read_to_string(verif_dir().join("known_findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                // known: property=<id> key=<key> :: <what fails>
                let l = l.strip_prefix("known: property=")?;
                let (p, rest) = l.split_once(" key=")?;
                let (k, what) = rest.split_once(" :: ")?;
                (p == id).then(|| (k.to_string(), what.to_string()))
            })
            .collect();
        Ctx {
            id,
            level,
            thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            start: Instant::now(),
            counters: Default::default(),
            cov: Default::default(),
            assumptions: Default::default(),
            samples: Default::default(),
            violations: Default::default(),
            vcount: AtomicU64::new(0),
            known,
            known_hit: Default::default(),
            stop: AtomicBool::new(false),
            finished: AtomicBool::new(false),
            slots: (0..SLOTS).map(|_| Mutex::new(None)).collect(),
            hang_secs: AtomicU64::new(120),
        }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    /// Picks a bound by tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn set_hang_secs(&self, s: u64) {
        self.hang_secs.store(s, SeqCst);
    }
    pub fn add(&self, name: &str, n: u64) {
        *self.counters.lock().unwrap().entry(name.to_string()).or_insert(0) += n;
    }
    pub fn get(&self, name: &str) -> u64 {
        *self.counters.lock().unwrap().get(name).unwrap_or(&0)
    }
    pub fn set(&self, name: &str, j: J) {
        self.cov.lock().unwrap().insert(name.to_string(), j);
    }
    pub fn note(&self, name: &str, s: impl Into<String>) {
        self.set(name, J::S(s.into()));
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 24 {
            v.push(s.into());
        }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    /// Records a violation. `key` identifies the failing input, call site or history.
    pub fn violation(&self, key: &str, msg: impl Into<String>) {
        if self.known.iter().any(|(k, _)| k == key) {
            self.known_hit.lock().unwrap().insert(key.to_string());
            return;
        }
        let n = self.vcount.fetch_add(1, SeqCst);
        let mut v = self.violations.lock().unwrap();
        if v.len() < 24 && v.iter().filter(|x| x.key == key).count() < 3 {
            v.push(Violation { key: key.to_string(), msg: msg.into() });
        }
        if n >= 60 {
            self.stop.store(true, SeqCst);
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn violated(&self) -> bool {
        self.vcount.load(Relaxed) > 0
    }
    /// Progress line on stderr.
    pub fn log(&self, s: impl AsRef<str>) {
        eprintln!("[{} {:7.2}s] {}", self.id, self.elapsed(), s.as_ref());
    }

    fn artefact(&self, v: &Violation) -> String {
        let dir = verif_dir().join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join(format!("{}.txt", self.id));
        let mut s = String::new();
        let _ = writeln!(s, "property: {}\ncase key: {}\n\n{}\n", self.id, v.key, v.msg);
        let _ = writeln!(
            s,
            "Re-run (deterministic, explores the same cases in the same bounds):\n  cd /verif && VERIF_TIER={} VERIF_SEED={} ./check.sh {}\n",
            if self.thorough { "thorough" } else { "quick" },
            self.seed,
            self.id
        );
        if let Ok(all) = self.violations.lock() {
            let _ = writeln!(s, "All recorded violations of this run:");
            for v in all.iter() {
                let _ = writeln!(s, "- [{}] {}", v.key, v.msg);
            }
        }
        let _ = std::fs::write(&p, s);
        p.display().to_string()
    }

    fn finish(&self) -> i32 {
        if self.finished.swap(true, SeqCst) {
            // somebody else (the watchdog) is reporting
            std::thread::sleep(Duration::from_secs(30));
        }
        let n = self.vcount.load(SeqCst);
        let mut cov: Vec<(String, J)> = Vec::new();
        for (k, v) in self.counters.lock().unwrap().iter() {
            cov.push((k.clone(), J::I(*v as i64)));
        }
        for (k, v) in self.cov.lock().unwrap().iter() {
            cov.push((k.clone(), v.clone()));
        }
        let samples = self.samples.lock().unwrap();
        cov.push(("samples".into(), J::A(samples.iter().map(J::s).collect())));
        let known_hit = self.known_hit.lock().unwrap().clone();
        cov.push(("known_findings_observed".into(), J::A(known_hit.iter().map(J::s).collect())));
        let j = J::O(vec![
            ("property".into(), J::s(self.id)),
            ("tier".into(), J::s(if self.thorough { "thorough" } else { "quick" })),
            ("seed".into(), J::I(self.seed as i64)),
            ("level".into(), J::s(self.level)),
            ("coverage".into(), J::O(cov)),
            (
                "assumptions".into(),
                J::A(self.assumptions.lock().unwrap().iter().map(J::s).collect()),
            ),
            ("wall_s".into(), J::F(self.elapsed())),
            ("violations".into(), J::I(n as i64)),
        ]);
        let mut s = String::new();
        j.write(&mut s, 0);
        s.push('\n');
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.id)), s) {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
        for (k, what) in &self.known {
            if known_hit.contains(k) {
                println!("KNOWN-FINDING: property={} {}", self.id, what);
            } else {
                println!("note: known finding {k} was not observed in this run");
            }
        }
        if n == 0 {
            println!("{}: held on everything explored ({:.1} s)", self.id, self.elapsed());
            return 0;
        }
        let v = self.violations.lock().unwrap();
        for x in v.iter() {
            println!("{}: [{}] {}", self.id, x.key, x.msg.lines().next().unwrap_or(""));
        }
        let first = Violation { key: v[0].key.clone(), msg: v[0].msg.clone() };
        drop(v);
        let path = self.artefact(&first);
        println!("VIOLATION property={} replay={}", self.id, path);
        1
    }

    /// Runs `f` while telling the watchdog what is being done.
    pub fn guard<T>(&self, desc: impl FnOnce() -> String, f: impl FnOnce() -> T) -> T {
        let s = slot_index();
        *self.slots[s].lock().unwrap() = Some((Instant::now(), desc()));
        let r = f();
        *self.slots[s].lock().unwrap() = None;
        r
    }

    /// Runs `f(i)` for `i` in `0..n` on all cores; stops early when many violations are recorded.
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        let threads = threads().min(n.max(1));
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= n || self.stopped() {
                        break;
                    }
                    f(i);
                });
            }
        });
    }
    /// Like `par`, over contiguous chunks of `0..n`.
    pub fn par_chunks(&self, n: usize, chunk: usize, f: impl Fn(std::ops::Range<usize>) + Sync) {
        let chunks = (n + chunk - 1) / chunk.max(1);
        self.par(chunks, |c| f(c * chunk..((c + 1) * chunk).min(n)));
    }
}

pub fn threads() -> usize {
    std::env::var("MC_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
}

fn slot_index() -> usize {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    thread_local!(static MINE: usize = NEXT.fetch_add(1, SeqCst) % SLOTS);
    MINE.with(|m| *m)
}

thread_local!(static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });

/// Runs code under test; a panic becomes `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    CATCHING.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    CATCHING.with(|c| c.set(c.get() - 1));
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}
thread_local!(static CATCHING: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });

static FIRST_UNCAUGHT: Mutex<String> = Mutex::new(String::new());

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{msg} at {loc}");
        if CATCHING.with(|c| c.get()) == 0 {
            eprintln!("uncaught panic: {text}");
            let mut g = FIRST_UNCAUGHT.lock().unwrap_or_else(|e| e.into_inner());
            if g.is_empty() {
                *g = text.clone();
            }
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = text);
    }));
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

/// Entry point of every check. Runs the exploration in a child process, so that aborts and
/// runaway memory of the code under test become violations and not errors of the check.
pub fn main(id: &'static str, level: &'static str, f: impl Fn(&Ctx) + Sync) {
    use std::os::unix::process::ExitStatusExt;
    if std::env::var_os("MC_CHILD").is_none() {
        let exe = std::env::current_exe().expect("current_exe");
        let st = std::process::Command::new(exe)
            .args(std::env::args_os().skip(1))
            .env("MC_CHILD", "1")
            .env_remove("NO_COLOR")
            .status()
            .expect("cannot start the worker process");
        if let Some(code) = st.code() {
            std::process::exit(code);
        }
        let sig = st.signal().unwrap_or(0);
        if [4, 6, 7, 8, 11].contains(&sig) {
            let ctx = Ctx::new(id, level);
            ctx.add("evaluations", 1);
            ctx.add("distinct_nontrivial", 0);
            ctx.add("states", 0);
            ctx.add("transitions", 0);
            ctx.add("traces_validated_against_impl", 0);
            ctx.note("rule", "the worker process was killed while running code under test");
            ctx.sample(format!("worker killed by signal {sig}"));
            ctx.violation(
                "abort",
                format!("the code under test aborted the process (signal {sig}: abort, memory error or memory limit); see stderr"),
            );
            std::process::exit(ctx.finish());
        }
        eprintln!("worker ended by signal {sig}");
        std::process::exit(3);
    }
    unsafe {
        let lim = [26u64 << 30, 26u64 << 30];
        setrlimit(9, &lim); // RLIMIT_AS
        let core = [0u64, 0];
        setrlimit(4, &core); // RLIMIT_CORE
    }
    install_hook();
    let ctx = Ctx::new(id, level);
    let done_flag = AtomicBool::new(false);
    let code = std::thread::scope(|s| {
        let c = &ctx;
        let done = &done_flag;
        s.spawn(move || {
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                let limit = c.hang_secs.load(SeqCst);
                let mut hung = None;
                for sl in &c.slots {
                    if let Some((t, d)) = sl.lock().unwrap().as_ref() {
                        if t.elapsed() > Duration::from_secs(limit) {
                            hung = Some(d.clone());
                        }
                    }
                }
                if let Some(d) = hung {
                    c.violation("hang", format!("does not finish within {limit} s: {d}"));
                    std::process::exit(c.finish());
                }
            }
        });
        let r = catch_unwind(AssertUnwindSafe(|| f(c)));
        done.store(true, SeqCst);
        match r {
            Ok(()) => c.finish(),
            Err(_) => {
                let last = FIRST_UNCAUGHT.lock().unwrap_or_else(|e| e.into_inner()).clone();
                if c.violated() {
                    c.finish()
                } else if last.contains("/repo/") || last.contains("barbarosa/src") {
                    c.violation("panic", format!("the code under test panicked outside a guarded call: {last}"));
                    c.finish()
                } else {
                    eprintln!("harness error: {last}");
                    3
                }
            }
        }
    });
    std::process::exit(code);
}

/// For helper processes that do not run under [`main`]: panics of code under test print nothing.
pub fn quiet() {
    install_hook();
}
