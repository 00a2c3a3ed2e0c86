//! C22: the interactive playground survives any input and shows the true cube.
//! Runs the real program (path in BARBAROSA_BIN) on enumerated sessions and compares every picture it
//! shows with a model session.
use mc::model::*;
use mc::notation::*;
use mc::picture;
use mc::scratch::Scratch;
use mc::*;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

type Line = Vec<u8>;

struct World {
    ph: Phys,
    rgb: [[u8; 3]; 6],
    program: String,
    dir: std::path::PathBuf,
}

/// The model of a session: where every sticker is seen by the holder.
#[derive(Clone)]
struct Model {
    cur: Vec<u16>,
}
impl Model {
    fn new(ph: &Phys) -> Model {
        Model { cur: (0..ph.slots.len() as u16).collect() }
    }
    fn apply(&mut self, ph: &Phys, d: D) {
        let t = match d {
            D::Turn(f, k, depth) => ph.layer_turn(f, k, |l| l as u32 <= depth),
            D::Rot(a, k) => ph.rotation(a, k),
            // the only inner layer of the 3x3
            D::Slice(a, k, _) => ph.layer_turn(a, k, |l| l == 1),
        };
        compose_into(&mut self.cur, &t);
    }
    /// What the cube shows when its centres are put back: colour (as a face) of every slot.
    fn shown(&self, ph: &Phys) -> Vec<usize> {
        let centre = |f: usize| ph.home_face(self.cur[(0..ph.slots.len()).find(|&s| ph.home_face(s as u16) == f && ph.fixed_centre(s as u16)).unwrap()]);
        let r = ph.rots.iter().position(|r| (0..6).all(|f| r.face(f) == centre(f))).expect("the centres move rigidly");
        let mut out = vec![9; self.cur.len()];
        for s in 0..self.cur.len() {
            // the slot that the rotation carries to where the sticker is seen
            let back = ph.rot_slot[r].iter().position(|&t| t == self.cur[s]).unwrap();
            out[back] = ph.home_face(s as u16);
        }
        out
    }
}

/// What a line means: the moves, or nothing if it is bad.
fn meaning(line: &[u8]) -> Option<Vec<D>> {
    want_seq(std::str::from_utf8(line).ok()?, want_extended)
}

struct Ran {
    out: Vec<u8>,
    err: Vec<u8>,
    end: Result<(), String>,
}

/// Runs one session. `cap`: most output accepted.
fn run(w: &World, args: &[&str], input: Vec<u8>, cap: usize) -> Ran {
    let mut child = Command::new(&w.program)
        .args(args)
        .current_dir(&w.dir)
        .env_clear()
        .env("HOME", &w.dir)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("the program cannot be started");
    let mut stdin = child.stdin.take().unwrap();
    let (mut so, mut se) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
    let total = AtomicU64::new(0);
    let read = |r: &mut dyn Read| {
        let mut v = vec![];
        let mut b = [0; 1 << 16];
        loop {
            match r.read(&mut b) {
                Ok(0) | Err(_) => return v,
                Ok(n) => {
                    if total.fetch_add(n as u64, SeqCst) < cap as u64 {
                        v.extend_from_slice(&b[..n]);
                    }
                }
            }
        }
    };
    std::thread::scope(|s| {
        s.spawn(move || {
            let _ = stdin.write_all(&input);
        });
        let o = s.spawn(|| read(&mut so));
        let e = s.spawn(|| read(&mut se));
        let start = Instant::now();
        let mut nap = 200;
        let end = loop {
            match child.try_wait().expect("wait") {
                Some(st) if st.success() => break Ok(()),
                Some(st) => break Err(format!("the program ended with {st}")),
                None => (),
            }
            let why = if total.load(SeqCst) >= cap as u64 {
                "prints without end"
            } else if start.elapsed() > Duration::from_secs(120) {
                "does not end after the end of the input"
            } else {
                std::thread::sleep(Duration::from_micros(nap));
                nap = (nap * 2).min(5000);
                continue;
            };
            let _ = child.kill();
            let _ = child.wait();
            break Err(format!("the program {why}"));
        };
        Ran { out: o.join().unwrap(), err: e.join().unwrap(), end }
    })
}

fn show(lines: &[Line]) -> String {
    let t: Vec<String> = lines.iter().map(|l| format!("{:?}", String::from_utf8_lossy(if l.len() > 60 { &l[..60] } else { l }))).collect();
    if t.len() > 12 {
        format!("{} lines ending in {}", t.len(), t[t.len() - 12..].join(", "))
    } else {
        t.join(", ")
    }
}

/// How the last line ends.
#[derive(Clone, Copy, PartialEq)]
enum End {
    Lf,
    CrLf,
    None,
}

fn judge(ctx: &Ctx, w: &World, lines: &[Line], end: End, args: &[&str]) {
    let mut input = vec![];
    for (i, l) in lines.iter().enumerate() {
        input.extend_from_slice(l);
        match end {
            End::None if i + 1 == lines.len() => (),
            End::CrLf => input.extend_from_slice(b"\r\n"),
            _ => input.push(b'\n'),
        }
    }
    // a last line that is empty and not ended is no line
    let count = if end == End::None && lines.last().is_some_and(|l| l.is_empty()) { lines.len() - 1 } else { lines.len() };
    let lines = &lines[..count];
    let size: usize = lines.iter().map(|l| l.len()).sum();
    let r = run(w, args, input, (lines.len() + 4) * 20_000 + 100 * size);
    ctx.add("sessions", 1);
    let ending = ["", " (ended by CR LF)", " (without a final newline)"][end as usize];
    let fail = |key: &str, m: String| ctx.violation(key, format!("{m}; lines: {}{ending}; stderr: {:?}", show(lines), String::from_utf8_lossy(&r.err[..r.err.len().min(300)])));
    if let Err(e) = &r.end {
        return fail("end", e.clone());
    }
    let Ok(out) = String::from_utf8(r.out) else { return fail("output", "the output is not text".into()) };
    // model session
    let mut m = Model::new(&w.ph);
    let mut wanted = vec![(m.shown(&w.ph), true)];
    let mut bad = 0;
    for l in lines {
        match meaning(l) {
            Some(ds) => {
                for d in ds {
                    m.apply(&w.ph, d);
                }
                wanted.push((m.shown(&w.ph), true));
            }
            None => {
                bad += 1;
                wanted.push((wanted.last().unwrap().0.clone(), false));
            }
        }
    }
    ctx.add("lines", lines.len() as u64);
    ctx.add("bad_lines", bad);
    if bad > 0 && r.err.iter().all(|b| b.is_ascii_whitespace()) && !out.to_lowercase().contains("error") {
        return fail("report", format!("no error is reported for {bad} bad line(s)"));
    }
    if bad == 0 && !r.err.is_empty() {
        return fail("report", "an error is reported although every line is good".into());
    }
    // what was printed for which line: by the prompt if there is one before every line, or else in order
    let parts: Vec<&str> = out.split("> ").collect();
    let by_prompt = parts.len() == lines.len() + 2;
    let parts: Vec<String> = if by_prompt { parts[..lines.len() + 1].iter().map(|p| p.to_string()).collect() } else { pictures(&out) };
    let picture_of = |p: &str| -> Result<Vec<usize>, String> {
        let p = picture::read(&w.ph, p)?;
        Ok(p.iter().map(|c| w.rgb.iter().position(|x| x == c).unwrap_or(9)).collect())
    };
    let mut next = parts.iter();
    for (i, (want, good)) in wanted.iter().enumerate() {
        if !good && !by_prompt {
            continue;
        }
        let what = || if i == 0 { "at the start".to_string() } else { format!("after line {i}, {}", show(&lines[i - 1..i])) };
        let Some(part) = next.next() else { return fail("shown", format!("{} no cube is shown", what())) };
        if !good && !part.contains("\x1b[48") {
            continue;
        }
        match picture_of(part) {
            Err(e) => return fail("shown", format!("{} no cube is shown ({e})", what())),
            Ok(got) => {
                if got != *want {
                    let s = (0..want.len()).filter(|&s| got[s] != want[s]).collect::<Vec<_>>();
                    return fail("shown", format!("{} {} squares are wrong, e.g. the {} shows the colour of {} instead of {}", what(), s.len(), w.ph.describe_slot(s[0] as u16), FACE_NAMES.get(got[s[0]]).unwrap_or(&"no face"), FACE_NAMES[want[s[0]]]));
                }
                ctx.add("pictures", 1);
            }
        }
    }
    if !by_prompt && next.next().is_some() {
        fail("shown", "more cubes are shown than lines were good".into());
    }
}

/// Splits what was printed into pictures of twelve coloured rows.
fn pictures(out: &str) -> Vec<String> {
    let mut v = vec![];
    let mut rows: Vec<&str> = vec![];
    for l in out.split('\n').filter(|l| l.contains("\x1b[48")) {
        rows.push(l.trim_start_matches("> "));
        if rows.len() == 12 {
            v.push(rows.join("\n"));
            rows.clear();
        }
    }
    if !rows.is_empty() {
        v.push(rows.join("\n"));
    }
    v
}

/// A cyclic sequence over 0..k in which every sequence of length n appears once.
fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    let mut a = vec![0; k * n];
    let mut out = vec![];
    fn go(t: usize, p: usize, k: usize, n: usize, a: &mut [usize], out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            go(t + 1, p, k, n, a, out);
            for j in a[t - p] + 1..k {
                a[t] = j;
                go(t + 1, t, k, n, a, out);
            }
        }
    }
    go(1, 1, k, n, &mut a, &mut out);
    out
}

/// Sessions that together contain every run of `n` lines of the alphabet.
fn windows(ctx: &Ctx, w: &World, name: &str, alphabet: &[Line], n: usize, chunk: usize) {
    let mut seq = de_bruijn(alphabet.len(), n);
    let len = seq.len();
    for i in 0..n - 1 {
        seq.push(seq[i]);
    }
    let chunks = len.div_ceil(chunk);
    ctx.par(chunks, |c| {
        if ctx.stopped() {
            return;
        }
        let from = c * chunk;
        let to = (from + chunk + n - 1).min(seq.len());
        let lines: Vec<Line> = seq[from..to].iter().map(|&i| alphabet[i].clone()).collect();
        judge(ctx, w, &lines, End::Lf, &["--playground-3x3"]);
        ctx.add("windows", (to - from + 1 - n) as u64);
    });
    ctx.sample(format!("{name}: every run of {n} lines over {} lines such as {}", alphabet.len(), show(&[alphabet[alphabet.len() / 2].clone(), alphabet[alphabet.len() - 1].clone()])));
    ctx.log(format!("{name}: {} lines, runs of {n}", alphabet.len()));
}

fn lines(t: &[&str]) -> Vec<Line> {
    t.iter().map(|s| s.as_bytes().to_vec()).collect()
}

fn tokens() -> Vec<String> {
    let mut v = vec![];
    let suffixes = ["", "2", "'"];
    for s in suffixes {
        for f in "RUFLDB".chars() {
            v.push(format!("{f}{s}"));
            v.push(format!("{f}w{s}"));
            v.push(format!("{}{s}", f.to_ascii_lowercase()));
            for d in 0..10 {
                v.push(format!("{d}{f}w{s}"));
                v.push(format!("{d}{}{s}", f.to_ascii_lowercase()));
            }
        }
        for c in "xyzMESmes".chars() {
            v.push(format!("{c}{s}"));
        }
    }
    v
}

/// Waits for the picture before sending the next line, as a person does.
fn interactive(ctx: &Ctx, w: &World, lines: &[Line]) {
    let mut child = Command::new(&w.program)
        .arg("--playground-3x3")
        .current_dir(&w.dir)
        .env_clear()
        .env("HOME", &w.dir)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("the program cannot be started");
    let mut stdin = child.stdin.take();
    let mut so = child.stdout.take().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::scope(|s| {
        s.spawn(move || {
            let mut b = [0; 4096];
            while let Ok(n) = so.read(&mut b) {
                if n == 0 || tx.send(b[..n].to_vec()).is_err() {
                    return;
                }
            }
        });
        let mut m = Model::new(&w.ph);
        let mut shown = 1;
        let mut text = vec![];
        for i in 0..=lines.len() {
            let good = if i == 0 { Some(vec![]) } else { meaning(&lines[i - 1]) };
            if i > 0 {
                let mut l = lines[i - 1].clone();
                l.push(b'\n');
                let p = stdin.as_mut().unwrap();
                if p.write_all(&l).and_then(|_| p.flush()).is_err() {
                    ctx.violation("end", format!("the program does not take any more input after {}", show(&lines[..i])));
                    break;
                }
            }
            let Some(ds) = good else { continue };
            for d in ds {
                m.apply(&w.ph, d);
            }
            let until = Instant::now() + Duration::from_secs(30);
            let pics = loop {
                let p = pictures(&String::from_utf8_lossy(&text));
                if p.len() >= shown && picture::read(&w.ph, &p[shown - 1]).is_ok() {
                    break p;
                }
                match rx.recv_timeout(until.saturating_duration_since(Instant::now())) {
                    Ok(b) => text.extend(b),
                    Err(_) => break vec![],
                }
            };
            let Some(p) = pics.get(shown - 1) else {
                ctx.violation("interactive", format!("the cube is not shown before the next line is typed; lines: {}", show(&lines[..i])));
                break;
            };
            let want: Vec<[u8; 3]> = m.shown(&w.ph).iter().map(|&f| w.rgb[f]).collect();
            if picture::read(&w.ph, p).unwrap() != want {
                ctx.violation("interactive", format!("the wrong cube is shown; lines: {}", show(&lines[..i])));
            }
            ctx.add("pictures", 1);
            shown += 1;
        }
        drop(stdin.take());
        if ctx.violated() {
            let _ = child.kill();
        }
        let _ = child.wait();
    });
    ctx.add("sessions", 1);
}

fn main() {
    mc::main("C22", "model_checking", |ctx| {
        ctx.assume("the notation (harness/src/notation.rs) and the sticker-level reference model say what a line means");
        ctx.set_hang_secs(600);
        let scratch = Scratch::new("c22");
        let program = std::env::var("BARBAROSA_BIN").expect("BARBAROSA_BIN: path of the program");
        let mut w = World { ph: Phys::new(3), rgb: [[0; 3]; 6], program, dir: scratch.path().to_path_buf() };
        // the colours are those of the first picture: one on every face, all different
        let r = run(&w, &["--playground-3x3"], vec![], 1 << 20);
        if let Err(e) = r.end {
            ctx.violation("end", format!("{e}; no lines; stderr: {:?}", String::from_utf8_lossy(&r.err[..r.err.len().min(300)])));
        }
        match pictures(&String::from_utf8_lossy(&r.out)).first().map(|p| picture::read(&w.ph, p)) {
            Some(Ok(p)) => {
                for f in 0..6 {
                    w.rgb[f] = p[picture::square(&w.ph, f, 1, 1) as usize];
                }
                let plain = (0..p.len()).all(|s| p[s] == w.rgb[w.ph.home_face(s as u16)]);
                if !plain || (0..6).any(|f| (0..f).any(|g| w.rgb[f] == w.rgb[g])) {
                    ctx.violation("shown", "the first cube shown is not solved, or two faces have one colour".to_string());
                }
            }
            Some(Err(e)) => ctx.violation("shown", format!("at the start no cube is shown ({e})")),
            None => ctx.violation("shown", "at the start no cube is shown".to_string()),
        }
        ctx.add("sessions", 1);
        if !ctx.violated() {
            let w = &w;
            let toks = tokens();
            assert!(toks.iter().all(|t| meaning(t.as_bytes()).is_some_and(|d| d.len() == 1)));
            let mut odd = lines(&[
                "", " ", "\t", "\r", "\0", "q", "R3", "R''", "R2'", "R'2", "Rw2'", "10Rw", "11r", "-1r", "3R", "2x", "3M", "Xw", "X", "w", "'", "2", "R U Q", "Q R U", "R Q U", "RU", "R,U", "(R U)", "R\u{a0}U", "R\tU", "  R   U  ", "R\u{2019}",
                "r w", "R w", "3 Rw", "// R", "/*R*/ U", "R//U", "R #", "é", "R é", "\u{1F9CA}", "\u{FEFF}R", "R\u{0301}", "> ", "Error: R", "exit", "x y z", "x y' z2 R U F", "M E S", "M' S2 e", "Rw 2Rw 9r'", "R R' U U'",
                "R U R' U' R U R' U' R U R' U' R U R' U' R U R' U' R U R' U'", "4294967295r", "99999999999999999999r",
            ]);
            odd.extend([b"\xff".to_vec(), b"R \xff".to_vec(), b"\xff R".to_vec(), b"R\xc3".to_vec(), b"R \xe2\x80".to_vec(), b"\xed\xa0\x80".to_vec()]);
            odd.push("R U ".repeat(2000).into_bytes());
            odd.push("R U".repeat(5000).into_bytes());
            odd.push(("R U ".repeat(2000) + "q").into_bytes());
            odd.push("2".repeat(10000).into_bytes());
            let mut all: Vec<Line> = toks.iter().map(|t| t.as_bytes().to_vec()).collect();
            all.extend(odd.iter().cloned());
            // every line alone, with every ending, and after another
            let ends = [End::Lf, End::CrLf, End::None];
            ctx.par(all.len() * 6, |i| {
                let l = all[i / 6].clone();
                let s = if i % 6 < 3 { vec![l] } else { vec![b"R U' x2 F".to_vec(), l] };
                judge(ctx, w, &s, ends[i % 3], if i % 2 == 0 { &["--playground-3x3"] } else { &["-p"] });
            });
            for n in 0..4 {
                judge(ctx, w, &vec![vec![]; n], End::Lf, &["-p"]);
            }
            ctx.log("single lines");
            let short: Vec<Line> = all.iter().filter(|l| l.len() < 1000).cloned().collect();
            // every two lines
            windows(ctx, w, "all lines", &short, 2, 2000);
            let some = lines(&["R", "U'", "F2", "L", "D2", "B'", "Rw", "u'", "f2", "Lw2", "d", "Bw'", "2R", "2Uw", "9f'", "x", "y'", "z2", "M", "E'", "S2", "m2", "e", "s'", "", "q", "R Q", "R U x M'", "\u{e9}"]);
            windows(ctx, w, "covering lines", &some, ctx.pick(3, 4), 1000);
            let few = lines(&["R", "U'", "F2", "x", "y'", "M", "Rw", "S'", "R q", "y R"]);
            windows(ctx, w, "few lines", &few, ctx.pick(4, 6), 1000);
            let tiny = lines(&["R", "U", "x", "z'", "M'", "R q"]);
            windows(ctx, w, "very few lines", &tiny, ctx.pick(6, 8), 2000);
            // two moves in one line are as two lines, and a bad move anywhere spoils the line
            let pairs: Vec<Line> = {
                let t = ["R", "U'", "F2", "L", "D", "B", "Rw", "u'", "2f2", "x", "y'", "z2", "M", "E'", "S2", "m", "q", "R3"];
                let mut v = vec![];
                for a in t {
                    for b in t {
                        for sep in [" ", "  ", "\t"] {
                            v.push(format!("{a}{sep}{b}").into_bytes());
                            if ctx.thorough {
                                for c in t {
                                    v.push(format!("{a}{sep}{b} {c}").into_bytes());
                                }
                            }
                        }
                    }
                }
                v
            };
            windows(ctx, w, "lines of several moves", &pairs, 1, 200);
            let mut long = odd.iter().filter(|l| l.len() >= 1000).cloned().collect::<Vec<_>>();
            long.extend(lines(&["R", "q"]));
            windows(ctx, w, "very long lines", &long, 2, 100);
            let typed: Vec<Line> = de_bruijn(8, 2).into_iter().map(|i| lines(&["R", "x", "U' M", "q", "", "Rw y", "S2", "R q"])[i].clone()).collect();
            interactive(ctx, w, &typed);
        }
        ctx.add("states", ctx.get("lines") + ctx.get("sessions"));
        ctx.add("transitions", ctx.get("lines"));
        ctx.add("traces_validated_against_impl", ctx.get("sessions"));
        ctx.note("rule", "sessions of the real program: every line of the alphabet alone (three endings, two starting points), every run of lines of the given lengths over smaller alphabets inside longer sessions, lines of several moves, very long lines, bad text of every kind; every picture shown compared with the model session, exit status and error output at the end of the input");
    });
}
