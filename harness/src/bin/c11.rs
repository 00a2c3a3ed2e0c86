//! C11: a table that was not completely written is never used for answers.
//! The check runs the real storage code in child processes whose file calls go through the functions of
//! `faults`, which can kill the process, fail the call or cut it short at any chosen call.
#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
use barbarosa::cube3::mus::cache::Cache;
use mc::scratch::Scratch;
use mc::*;
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;

#[path = "../faults.rs"]
mod faults;

/// A fault at one file call.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Fault {
    None,
    Kill(i64),
    Fail(i64, i32),
    Short(i64, usize),
    ShortKill(i64, usize),
    ShortFull(i64, usize),
}
impl Fault {
    fn encode(&self) -> String {
        let (at, k, a, e) = match *self {
            Fault::None => (-1, 0, 0, 0),
            Fault::Kill(i) => (i, 0, 0, 0),
            Fault::Fail(i, e) => (i, 1, 0, e),
            Fault::Short(i, j) => (i, 2, j, 0),
            Fault::ShortKill(i, j) => (i, 3, j, 0),
            Fault::ShortFull(i, j) => (i, 4, j, 0),
        };
        format!("{at} {k} {a} {e}")
    }
    fn describe(&self, log: &[(u32, usize)]) -> String {
        let call = |i: i64| {
            let n = ["?", "open for reading", "open for writing", "read", "write", "directory or file change", "sync", "close", "seek"];
            match log.get(i as usize) {
                Some(c) => format!("file call {i} ({}{})", n[c.0 as usize], if c.1 > 0 { format!(" of {} bytes", c.1) } else { String::new() }),
                None => format!("file call {i}"),
            }
        };
        match *self {
            Fault::None => "no fault".into(),
            Fault::Kill(i) => format!("killed before {}", call(i)),
            Fault::Fail(i, e) => format!("{} fails with {}", call(i), std::io::Error::from_raw_os_error(e)),
            Fault::Short(i, j) => format!("{} transfers only {j} bytes", call(i)),
            Fault::ShortKill(i, j) => format!("killed in {} after {j} bytes", call(i)),
            Fault::ShortFull(i, j) => format!("disk full in {} after {j} bytes", call(i)),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Outcome {
    Table(usize, u64),
    Error(String),
    Killed,
    Hang,
}
struct Run {
    outcome: Outcome,
    mutations: u64,
    log: Vec<(u32, usize)>,
}

fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, &x| (h ^ x as u64).wrapping_mul(0x100000001b3))
}

#[path = "../kinds.rs"]
mod kinds;

/// Child side: `op kind at fault-kind arg errno`, in the current directory.
fn child(spec: &str) -> ! {
    use std::sync::atomic::Ordering::*;
    let w: Vec<&str> = spec.split_whitespace().collect();
    faults::AT.store(w[2].parse().unwrap(), SeqCst);
    faults::KIND.store(w[3].parse().unwrap(), SeqCst);
    faults::ARG.store(w[4].parse().unwrap(), SeqCst);
    faults::ERRNO.store(w[5].parse().unwrap(), SeqCst);
    std::panic::set_hook(Box::new(|_| ()));
    // so that the model's own work is not interrupted
    if w[1] != "full" {
        let _ = kinds::table(w[1]);
    }
    faults::ARMED.store(true, SeqCst);
    let r = catch(|| match (w[1], w[0]) {
        ("full", "load") => Cache::load().map(|_| vec![]),
        ("full", "start") => Ok({
            Cache::init();
            vec![]
        }),
        (k, op) => kinds::run(k, op).expect("known kind"),
    });
    faults::ARMED.store(false, SeqCst);
    let out = match r {
        Ok(Ok(t)) => format!("table {} {}", t.len(), fnv(&t)),
        Ok(Err(e)) => format!("error {e}"),
        Err(e) => format!("error panic: {}", e.replace('\n', " ")),
    };
    let n = faults::LOG_N.load(SeqCst).min(4096);
    let log: Vec<String> = (0..n).map(|i| faults::LOG[i].load(SeqCst).to_string()).collect();
    println!("\nC11LOG {} {}", faults::MUTATIONS.load(SeqCst), log.join(","));
    println!("C11RESULT {out}");
    std::process::exit(0);
}

fn spawn(dir: &Path, op: &str, kind: &str, f: Fault, secs: u64) -> Run {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .current_dir(dir)
        .env("C11_CHILD", format!("{op} {kind} {}", f.encode()))
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("child process");
    let mut out = c.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = std::io::Read::read_to_end(&mut out, &mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let end = std::time::Instant::now() + std::time::Duration::from_secs(secs);
    let mut nap = 200;
    let status = loop {
        if let Some(s) = c.try_wait().expect("wait") {
            break Some(s);
        }
        if std::time::Instant::now() > end {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(std::time::Duration::from_micros(nap));
        nap = (nap * 2).min(20_000);
    };
    let text = reader.join().unwrap();
    let mut run = Run { outcome: Outcome::Hang, mutations: 0, log: vec![] };
    for l in text.lines() {
        if let Some(l) = l.strip_prefix("C11LOG ") {
            let (m, l) = l.split_once(' ').unwrap_or((l, ""));
            run.mutations = m.parse().unwrap();
            run.log = l.split(',').filter_map(|x| x.parse::<u32>().ok()).map(|x| (x & 0xff, (x >> 8) as usize)).collect();
        }
        if let Some(l) = l.strip_prefix("C11RESULT ") {
            run.outcome = match l.split_once(' ') {
                Some(("table", r)) => {
                    let (n, h) = r.split_once(' ').unwrap();
                    Outcome::Table(n.parse().unwrap(), h.parse().unwrap())
                }
                Some((_, e)) => Outcome::Error(e.into()),
                None => Outcome::Error(String::new()),
            };
        }
    }
    if let Some(s) = status {
        if run.outcome == Outcome::Hang {
            run.outcome = if s.code() == Some(137) { Outcome::Killed } else { Outcome::Error(format!("ended with {s}")) };
        }
    } else {
        run.outcome = Outcome::Hang;
    }
    run
}

/// Everything under a directory, with contents (or a hash for big files) and modification times.
fn snapshot(dir: &Path) -> Vec<(PathBuf, Option<(u64, u64)>, std::time::SystemTime)> {
    let mut v = vec![];
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let m = e.path().symlink_metadata().unwrap();
            if m.is_dir() {
                v.push((e.path(), None, m.modified().unwrap()));
                todo.push(e.path());
            } else {
                let b = if m.len() < 1 << 20 { std::fs::read(e.path()).unwrap_or_default() } else { vec![] };
                v.push((e.path(), Some((m.len(), fnv(&b))), m.modified().unwrap()));
            }
        }
    }
    v.sort();
    v
}

struct Kind {
    name: &'static str,
    table: Vec<u8>,
    path: &'static str,
}
impl Kind {
    fn exact(&self, o: &Outcome) -> bool {
        *o == Outcome::Table(self.table.len(), fnv(&self.table))
    }
}

/// What is there before the first start.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Initial {
    Nothing,
    Directory,
    Complete,
    Size(usize),
    DirectoryInPlace,
    FileInPlaceOfParent,
    DanglingLink,
}
fn prepare(dir: &Path, k: &Kind, i: Initial) {
    let p = dir.join(k.path);
    if i != Initial::Nothing && i != Initial::FileInPlaceOfParent {
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    }
    match i {
        Initial::Nothing | Initial::Directory => (),
        Initial::Complete => std::fs::write(&p, &k.table).unwrap(),
        Initial::Size(n) => {
            let mut t = k.table.clone();
            t.resize(n, 1);
            std::fs::write(&p, t).unwrap()
        }
        Initial::DirectoryInPlace => std::fs::create_dir(&p).unwrap(),
        Initial::FileInPlaceOfParent => std::fs::write(dir.join(k.path.split('/').next().unwrap()), "x").unwrap(),
        Initial::DanglingLink => std::os::unix::fs::symlink("nowhere/at/all", &p).unwrap(),
    }
}

/// One history: an initial state, starts with faults, then clean loads and starts; judged after every step.
/// Returns the log of the first start.
fn history(ctx: &Ctx, scratch: &Path, id: usize, k: &Kind, init: Initial, faults: &[(Fault, Vec<(u32, usize)>)]) -> Vec<(u32, usize)> {
    let dir = scratch.join(format!("h{id}"));
    std::fs::create_dir_all(&dir).unwrap();
    prepare(&dir, k, init);
    let mut done = format!("table of {} patterns, before: {init:?}", k.table.len());
    let mut first_log = vec![];
    let judge = |r: &Run, done: &str| {
        ctx.add("process_runs", 1);
        match &r.outcome {
            Outcome::Hang => ctx.violation("hang", format!("{done}: does not end")),
            Outcome::Table(n, _) if !k.exact(&r.outcome) => {
                ctx.violation("wrong-table", format!("{done}: a table of {n} entries is used that is not the complete exact table"))
            }
            _ => (),
        }
    };
    let stored_complete = || std::fs::read(dir.join(k.path)).map(|b| b == k.table).unwrap_or(false);
    for (n, (f, log)) in faults.iter().enumerate() {
        let r = spawn(&dir, "start", k.name, *f, 60);
        done += &format!("; start with {} -> {:?}", f.describe(log), r.outcome);
        judge(&r, &done);
        if matches!(r.outcome, Outcome::Table(..)) && !stored_complete() {
            ctx.violation("stored", format!("{done}: the start succeeded, but the stored table is not complete"));
        }
        if n == 0 {
            first_log = r.log;
        }
    }
    // loading only: no change, and no table unless it is complete
    let missing = !dir.join(k.path).exists();
    let complete = stored_complete();
    let before = snapshot(&dir);
    let r = spawn(&dir, "load", k.name, Fault::None, 60);
    judge(&r, &format!("{done}; load"));
    if snapshot(&dir) != before || r.mutations > 0 {
        ctx.violation("load-changes", format!("{done}; load -> {:?}: loading created or changed files", r.outcome));
    }
    if complete != matches!(r.outcome, Outcome::Table(..)) {
        ctx.violation("load", format!("{done}; load -> {:?}, although the stored table is {}complete", r.outcome, if complete { "" } else { "not " }));
    }
    // a later start
    let r = spawn(&dir, "start", k.name, Fault::None, 60);
    done += &format!("; start -> {:?}", r.outcome);
    judge(&r, &done);
    if complete && (!k.exact(&r.outcome) || r.mutations > 0) {
        ctx.violation("reuse", format!("{done}: the stored table was complete, but it was not simply used"));
    }
    if missing && matches!(init, Initial::Nothing | Initial::Directory | Initial::Complete) && !k.exact(&r.outcome) {
        ctx.violation("rebuild", format!("{done}: the missing table was not rebuilt"));
    }
    if matches!(r.outcome, Outcome::Table(..)) {
        if !stored_complete() {
            ctx.violation("stored", format!("{done}: the start succeeded, but the stored table is not complete"));
        }
        let before = snapshot(&dir);
        let r = spawn(&dir, "start", k.name, Fault::None, 60);
        judge(&r, &done);
        if !k.exact(&r.outcome) || r.mutations > 0 || snapshot(&dir) != before {
            ctx.violation("reuse", format!("{done}; start -> {:?}: the next start does not simply use the stored table", r.outcome));
        }
    }
    ctx.add("histories", 1);
    let _ = std::fs::remove_dir_all(&dir);
    first_log
}

/// All faults of a run with the given calls.
fn faults_of(ctx: &Ctx, log: &[(u32, usize)], all_sizes: bool) -> Vec<Fault> {
    let mut v = vec![];
    for (i, &(what, size)) in log.iter().enumerate() {
        let i = i as i64;
        v.push(Fault::Kill(i));
        let errs: &[i32] = match what {
            faults::CLOSE => &[],
            faults::READ => &[5, 4],
            faults::WRITE => &[28, 5, 4],
            faults::OPEN => &[2, 13, 5, 24],
            _ => &[2, 13, 28, 5],
        };
        v.extend(errs.iter().map(|&e| Fault::Fail(i, e)));
        if matches!(what, faults::READ | faults::WRITE) && size > 0 {
            let sizes: Vec<usize> = if all_sizes && size <= 600 {
                (0..size).collect()
            } else {
                let mut s: Vec<usize> = vec![1, 2, size / 2, size - 1];
                s.extend((1..ctx.pick(4, 16)).map(|k| k * size / ctx.pick(4, 16)));
                s.sort();
                s.dedup();
                s.retain(|&x| x < size);
                s
            };
            for j in sizes {
                if what == faults::READ {
                    if j > 0 {
                        v.push(Fault::Short(i, j));
                    }
                } else {
                    if j > 0 {
                        v.push(Fault::Short(i, j));
                    }
                    v.push(Fault::ShortKill(i, j));
                    v.push(Fault::ShortFull(i, j));
                }
            }
        }
    }
    v.push(Fault::Kill(log.len() as i64));
    v
}

/// Full-size files of wrong sizes, through the public interface.
fn full(ctx: &Ctx, scratch: &Path) {
    let dir = scratch.join("full");
    let (e, c) = (mc::mus::EDGES as u64, mc::mus::CORNERS as u64);
    let sizes = |n: u64| -> Vec<Option<u64>> { vec![None, Some(n), Some(0), Some(1), Some(n / 2), Some(n - 1), Some(n + 1), Some(n * 2), Some(n - 4096), Some(n.next_power_of_two()), Some(n / 64 * 63)] };
    let swap = [(Some(c), Some(e))];
    let mut cases: Vec<(Option<u64>, Option<u64>)> = swap.to_vec();
    for a in sizes(e) {
        for b in sizes(c) {
            if a == Some(e) || b == Some(c) || a == b || ctx.thorough {
                cases.push((a, b));
            }
        }
    }
    for (a, b) in cases {
        for op in ["load", "start"] {
            let good = a == Some(e) && b == Some(c);
            // a start that finds a table missing generates it, which takes minutes
            let missing = a.is_none() || (a == Some(e) && b.is_none());
            if op == "start" && missing {
                continue;
            }
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(dir.join("mus-cache")).unwrap();
            for (f, n) in [("edges", a), ("corners", b)] {
                if let Some(n) = n {
                    // sparse; its contents do not matter for the decision about its size
                    std::fs::File::create(dir.join(format!("mus-cache/{f}.barbarosa"))).unwrap().set_len(n).unwrap();
                }
            }
            let text = format!("edge table of {a:?} bytes (complete: {e}), corner table of {b:?} bytes (complete: {c}): {op}");
            let before = snapshot(&dir);
            let r = ctx.guard(|| text.clone(), || spawn(&dir, op, "full", Fault::None, 60));
            ctx.add("process_runs", 1);
            ctx.add("full_size_cases", 1);
            let used = matches!(r.outcome, Outcome::Table(..));
            if used != good {
                ctx.violation("full-size", format!("{text} -> {:?}", r.outcome));
            }
            if snapshot(&dir) != before {
                ctx.violation("load-changes", format!("{text}: files were changed"));
            }
        }
    }
    program(ctx, &dir, e, c);
    // nothing there at all
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let r = spawn(&dir, "load", "full", Fault::None, 60);
    if !matches!(r.outcome, Outcome::Error(_)) || !snapshot(&dir).is_empty() {
        ctx.violation("load-changes", format!("load without any files -> {:?}, files afterwards: {:?}", r.outcome, snapshot(&dir)));
    }
    let _ = std::fs::remove_dir_all(&dir);
    ctx.log("full-size files done");
}

/// The command-line program asked to build the tables: it succeeds only when both are there and complete.
fn program(ctx: &Ctx, dir: &Path, e: u64, c: u64) {
    let Ok(bin) = std::env::var("BARBAROSA_BIN") else { return };
    let sizes = |n: u64| [None, Some(n), Some(0), Some(n / 2), Some(n - 1), Some(n + 1)];
    for a in sizes(e) {
        for b in sizes(c) {
            let good = a == Some(e) && b == Some(c);
            let missing = a.is_none() || (a == Some(e) && b.is_none());
            let _ = std::fs::remove_dir_all(dir);
            std::fs::create_dir_all(dir.join("mus-cache")).unwrap();
            for (f, n) in [("edges", a), ("corners", b)] {
                if let Some(n) = n {
                    std::fs::File::create(dir.join(format!("mus-cache/{f}.barbarosa"))).unwrap().set_len(n).unwrap();
                }
            }
            let text = format!("edge table of {a:?} bytes (complete: {e}), corner table of {b:?} bytes (complete: {c}): barbarosa --build-mus-cache");
            let before = snapshot(dir);
            let mut p = Command::new(&bin).arg("--build-mus-cache").current_dir(dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("the program");
            // generating a missing table takes longer than this
            let end = std::time::Instant::now() + std::time::Duration::from_millis(if missing { 300 } else { 60_000 });
            let status = loop {
                match p.try_wait().expect("wait") {
                    Some(s) => break Some(s),
                    None if std::time::Instant::now() > end => {
                        let _ = p.kill();
                        let _ = p.wait();
                        break None;
                    }
                    None => std::thread::sleep(std::time::Duration::from_millis(2)),
                }
            };
            ctx.add("process_runs", 1);
            ctx.add("full_size_cases", 1);
            match status {
                None if !missing => ctx.violation("hang", format!("{text}: does not end")),
                Some(s) if s.success() != good => ctx.violation("program", format!("{text} ends with {s}")),
                _ => (),
            }
            if !missing && snapshot(dir) != before {
                ctx.violation("load-changes", format!("{text}: files were changed"));
            }
            if ctx.stopped() {
                return;
            }
        }
    }
}

fn main() {
    if let Ok(s) = std::env::var("C11_CHILD") {
        child(&s);
    }
    mc::main("C11", "fault_enumeration", |ctx| {
        ctx.set_hang_secs(900);
        ctx.assume("a crash ends the process; what it handed to the operating system stays (no power loss, no reordering by the disk)");
        ctx.assume("faults are enumerated on small pattern kinds (the storage code is generic in the kind); full-size files only as wrong sizes");
        let scratch = Scratch::new("c11");
        full(ctx, scratch.path());
        let next = Mutex::new(0usize);
        let id = || {
            let mut n = next.lock().unwrap();
            *n += 1;
            *n
        };
        let mut points: HashMap<&str, usize> = HashMap::new();
        for (ki, name) in kinds::KINDS.iter().enumerate() {
            let (table, path) = kinds::table(name);
            let k = Kind { name, table, path };
            // states found at the first start, no fault
            let n = k.table.len();
            let mut inits = vec![Initial::Nothing, Initial::Directory, Initial::Complete, Initial::DirectoryInPlace, Initial::FileInPlaceOfParent, Initial::DanglingLink];
            let sizes: Vec<usize> = if n < 30 || (n < 600 && ctx.thorough) { (0..n).chain(n + 1..n + 40).collect() } else { vec![0, 1, n / 2, n - 1, n + 1, n * 2, n / 4096 * 4096 + 1] };
            inits.extend(sizes.into_iter().filter(|&s| s != n).map(Initial::Size));
            ctx.par(inits.len(), |i| {
                history(ctx, scratch.path(), id(), &k, inits[i], &[(Fault::None, vec![])]);
            });
            // one fault in the first start
            for init in [Initial::Nothing, Initial::Directory, Initial::Complete, Initial::Size(n / 2)] {
                let log = history(ctx, scratch.path(), id(), &k, init, &[(Fault::None, vec![])]);
                let fs = faults_of(ctx, &log, ki < 2 || (ki < 3 && ctx.thorough));
                if init == Initial::Nothing {
                    ctx.sample(format!("{name}: building makes {} file calls, {} faults", log.len(), fs.len()));
                    points.insert(name, log.len());
                }
                ctx.add("crash_points", log.len() as u64 + 1);
                ctx.add("faults", fs.len() as u64);
                ctx.par(fs.len(), |i| {
                    history(ctx, scratch.path(), id(), &k, init, &[(fs[i], log.clone())]);
                });
                if ctx.stopped() {
                    return;
                }
                // two starts with a fault each
                if ki == 0 || (ctx.thorough && ki < 3) {
                    let few: Vec<Fault> = faults_of(ctx, &log, false);
                    let stride = ctx.pick(3, 1);
                    let pairs: Vec<(usize, usize)> = (0..few.len()).flat_map(|a| (0..few.len()).map(move |b| (a, b))).collect();
                    let pairs: Vec<_> = pairs.into_iter().enumerate().filter(|(i, _)| i % stride == 0 && init == Initial::Nothing || ctx.thorough).map(|x| x.1).collect();
                    ctx.par(pairs.len(), |i| {
                        let (a, b) = pairs[i];
                        history(ctx, scratch.path(), id(), &k, init, &[(few[a], log.clone()), (few[b], log.clone())]);
                    });
                    ctx.add("fault_pairs", pairs.len() as u64);
                }
            }
            ctx.log(format!("{name} done"));
        }
        let h = ctx.get("histories");
        ctx.add("evaluations", h + ctx.get("full_size_cases"));
        ctx.add("distinct_nontrivial", ctx.get("faults") + ctx.get("fault_pairs"));
        ctx.sample("start killed in the write after 12 of 24 bytes; load -> error; start -> error naming the wrong size");
        ctx.note("rule", "every file call of a start (from nothing, from an empty directory, from a complete table, from half a table) as kill point, failing with every listed error, and, for reads and writes, cut short after every number of bytes (small tables) with and without a kill or a full disk; pairs of such starts; then a load and starts without fault; crash_points = file calls");
        if ctx.thorough && !ctx.violated() {
            // one table missing: the real start rebuilds that one only
            let t = mc::mus::Tables::new(ctx);
            let dir = scratch.path().join("rebuild");
            std::fs::create_dir_all(dir.join("mus-cache")).unwrap();
            std::fs::File::create(dir.join("mus-cache/corners.barbarosa")).unwrap().set_len(mc::mus::CORNERS as u64).unwrap();
            let before = std::fs::metadata(dir.join("mus-cache/corners.barbarosa")).unwrap().modified().unwrap();
            let r = ctx.guard(|| "rebuilding the edge table".into(), || spawn(&dir, "start", "full", Fault::None, 3000));
            let bytes = std::fs::read(dir.join("mus-cache/edges.barbarosa")).unwrap_or_default();
            let mut want = t.edges[0].per_depth.clone();
            let mut got = vec![0u64; want.len()];
            for b in &bytes {
                if let Some(x) = got.get_mut(*b as usize) {
                    *x += 1;
                }
            }
            want.truncate(got.len());
            let after = std::fs::metadata(dir.join("mus-cache/corners.barbarosa")).unwrap().modified().unwrap();
            if !matches!(r.outcome, Outcome::Table(..)) || got != want || before != after {
                ctx.violation("rebuild", format!("start with only the corner table there -> {:?}; rebuilt edge table: {got:?} patterns by distance, exact: {want:?}", r.outcome));
            }
        }
    });
}
