exec(open("/verif/tools/bugs/c.py").read().split("NORMAL =")[0])

HOOKED = r'''#!/bin/bash
# usage: demo.sh, with the repository as the working directory; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
S=$(mktemp -d) || exit 3
trap 'rm -rf -- "$S"' EXIT
mkdir -p "$S/src" && cp "$here/main.rs" "$S/src/main.rs" || exit 3
cp "$repo/Cargo.lock" "$S/Cargo.lock"
cat > "$S/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
barbarosa = { path = "$repo/barbarosa" }
[profile.dev]
opt-level = 2
[workspace]
TOML
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=${DEMO_TARGET:+$DEMO_TARGET-hooks}
[ -n "$CARGO_TARGET_DIR" ] || export CARGO_TARGET_DIR=$S/target
# the build and load functions for tables of other kinds of patterns are not public otherwise
export RUSTFLAGS="--cfg verif_hooks"
(cd "$S" && cargo build --offline --quiet) || exit 3
bin=$(realpath "$CARGO_TARGET_DIR/debug/demo")
mkdir "$S/run" && cd "$S/run" && timeout 200 "$bin" > out.txt 2> err.txt
rc=$?
grep WRONG err.txt
exit $rc
'''
# A kind of pattern with 576 situations: the UF edge and one corner, numbered as they are found
KIND = r"""
use barbarosa::cube3::mus::{cache::verif::*, deindex::Deindexable, index::{OrientationIndexable, PositionIndexable}};
use barbarosa::cube_n::{pieces::{Corner, Edge}, AxisMove};
use barbarosa::generic::Movable;
use std::{collections::{HashMap, VecDeque}, sync::{Barrier, OnceLock}, thread, time::Duration};

#[derive(Clone, PartialEq, Eq, Hash)]
struct Pair(Edge, Corner);
impl Movable<AxisMove> for Pair {
    fn apply(&mut self, m: &AxisMove) {
        self.0.apply(m);
        self.1.apply(m);
    }
}
struct All { list: Vec<Pair>, number: HashMap<Pair, usize>, far: Vec<u8> }
fn all() -> &'static All {
    static ALL: OnceLock<All> = OnceLock::new();
    ALL.get_or_init(|| {
        let c = barbarosa::cube_n::Cube3::SOLVED;
        let start = Pair(c.edges.iter().next().unwrap().clone(), c.corners.iter().next().unwrap().clone());
        let mut a = All { list: vec![start.clone()], number: HashMap::from([(start.clone(), 0)]), far: vec![0] };
        let mut q = VecDeque::from([start]);
        while let Some(p) = q.pop_front() {
            for m in AxisMove::all() {
                let s = p.clone().moved(&m);
                if !a.number.contains_key(&s) {
                    a.number.insert(s.clone(), a.list.len());
                    a.far.push(a.far[a.number[&p]] + 1);
                    a.list.push(s.clone());
                    q.push_back(s);
                }
            }
        }
        assert_eq!(a.list.len(), 576);
        a
    })
}
use barbarosa::generic::Cube;
impl PositionIndexable for Pair {
    const POSITION_SET_SIZE: usize = 576;
    fn position_index(&self) -> usize { all().number[self] }
}
impl OrientationIndexable for Pair {
    const ORIENTATION_SET_SIZE: usize = 1;
    fn orientation_index(&self) -> usize { 0 }
}
/// How long to think about a pattern: a slower computer, or a larger table
static SLOW: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
impl Deindexable for Pair {
    fn from_index(i: usize) -> Self {
        let t = SLOW.load(std::sync::atomic::Ordering::Relaxed);
        if t > 0 { thread::sleep(Duration::from_micros(t)); }
        all().list[i].clone()
    }
}
impl DiskCacheable for Pair { const PATH: &'static str = "tables/pair.table"; }

fn check(ok: bool, what: &str) {
    if !ok {
        eprintln!("WRONG: {what}");
        std::process::exit(1);
    }
}
fn start(what: &str) {
    match std::panic::catch_unwind(load_or_build_partial::<Pair>) {
        Ok(Ok(t)) => check(t == all().far, &format!("{what}: a start answers from the complete table")),
        Ok(Err(e)) => check(false, &format!("{what}: a start fails: {e}")),
        Err(_) => check(false, &format!("{what}: a start panics")),
    }
}
fn clean() { let _ = std::fs::remove_dir_all("tables"); }
"""
RACE = KIND + r"""
fn main() {
    all();
    for round in 0..3000 {
        clean();
        let n = 2 + round % 3;
        let gate = Barrier::new(n);
        thread::scope(|s| {
            for _ in 0..n { s.spawn(|| { gate.wait(); start("starts at the same time"); }); }
        });
    }
    clean();
    start("one start");
}
"""
STAGGER = KIND + r"""
fn main() {
    all();
    clean();
    let t = std::time::Instant::now();
    start("one start");
    let one = t.elapsed().as_micros() as u64 + 1;
    let mut x = 12345u64;
    for _ in 0..3000 {
        clean();
        let gate = Barrier::new(8);
        thread::scope(|s| {
            for _ in 0..8 {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let wait = Duration::from_micros((x >> 33) % (one * 2));
                let gate = &gate;
                s.spawn(move || {
                    gate.wait();
                    let t = std::time::Instant::now();
                    while t.elapsed() < wait {}
                    start("starts at about the same time");
                });
            }
        });
    }
}
"""
LATER = KIND + r"""
fn main() {
    all();
    SLOW.store(200, std::sync::atomic::Ordering::Relaxed);
    for delay in [10, 40, 80, 120] {
        clean();
        thread::scope(|s| {
            s.spawn(|| start("the first start"));
            s.spawn(move || { thread::sleep(Duration::from_millis(delay)); start(&format!("a start {delay} ms later")) });
        });
    }
    clean();
    start("one start");
}
"""
FIFO = KIND + r"""
fn main() {
    use std::io::Write;
    all();
    clean();
    std::fs::create_dir("tables").unwrap();
    // the file comes in two parts, as over a slow network
    check(std::process::Command::new("mkfifo").arg("tables/pair.table").status().unwrap().success(), "mkfifo");
    thread::scope(|s| {
        s.spawn(|| {
            let mut f = std::fs::OpenOptions::new().write(true).open("tables/pair.table").unwrap();
            let t = &all().far;
            for part in [&t[..100], &t[100..400], &t[400..]] {
                let _ = f.write_all(part);
                thread::sleep(Duration::from_millis(100));
            }
        });
        start("reading in parts");
    });
}
"""
POWERS = r"""
/// Repeats words until the cube compares equal to the solved one; it then has to look the same
type C = Cube%d;
fn main() {
    let look = format!("{:?}", C::SOLVED);
    for w in ["Rw U", "Rw Uw", "R Uw'", "Rw Uw2", "2Rw U", "2Rw Uw", "2Rw 2Uw", "2Rw Fw D2", "R U", "Rw Fw' Uw", "Lw U R' Uw", "Rw U Rw' U'"] {
        if w.starts_with('2') && C::N < 6 { continue; }
        let a = match Alg::<<C as AsMove>::Move>::parse(w) { Ok(a) => a, Err(e) => { check(false, &format!("{w}: {e:?}")); return; } };
        let mut c = C::SOLVED;
        for k in 1..6000 {
            c.apply(&a);
            if c == C::SOLVED {
                check(format!("{c:?}") == look, &format!("{w}, {k} times, compares equal to solved"));
                break;
            }
        }
    }
}
use barbarosa::generic::moves::AsMove;
"""
DS, GEN = "cube_n/cube3/mus/cache/disk_storage.rs", "cube_n/cube3/mus/cache/generation.rs"

BUGS = [
 dict(id="equal-held-upside-down", property="C23",
  edits=[("cube_n/orientable/orientation.rs", "#[derive(Debug, Clone, PartialEq, Eq)]\npub struct Orientation {", "#[derive(Debug, Clone, Eq)]\npub struct Orientation {"),
   ("cube_n/orientable/orientation.rs", "fn connecting_rotation(from", """impl PartialEq for Orientation {
    fn eq(&self, other: &Self) -> bool {
        // Two perpendicular faces determine the orientation
        self.r_face == other.r_face && self.handedness == other.handedness
    }
}

fn connecting_rotation(from""")],
  needs="two held cubes that differ by a half turn around the R-L axis of the cube", breaks="holding the cube upside down compares equal to holding it upright",
  demo=PRE + r"""
fn main() {
    let turns: Vec<ExtendedAxisMove> = "x x2 x' y y2 y' z z2 z'".split(' ').map(|s| ExtendedAxisMove::parse(s).unwrap()).collect();
    type O = barbarosa::cube_n::Orientable<Cube3>;
    let mut all = vec![O::SOLVED];
    let mut views = vec![];
    // a U turn and an R turn tell how the cube is held
    let see = |c: &O| { let mut c = c.clone(); for s in ["U", "R"] { <O as Movable<ExtendedAxisMove>>::apply(&mut c, &ExtendedAxisMove::parse(s).unwrap()); } c.base_cube };
    views.push(see(&all[0]));
    let mut i = 0;
    while i < all.len() {
        for t in &turns {
            let mut c = all[i].clone();
            <O as Movable<ExtendedAxisMove>>::apply(&mut c, t);
            let v = see(&c);
            let known = views.iter().position(|x| *x == v);
            let same = all.iter().position(|x| *x == c);
            check(known == same, &format!("way of holding {i} and then {t:?}"));
            if known.is_none() { all.push(c); views.push(v); }
        }
        i += 1;
    }
    check(all.len() == 24, "24 ways of holding a cube");
}
"""),
 dict(id="equal-twist-direction", property="C23",
  edits=[("cube_n/pieces/corner.rs", "#[derive(PartialEq, Eq, Clone, Hash)]\npub struct Corner {", "#[derive(Eq, Clone, Hash)]\npub struct Corner {"),
   ("cube_n/pieces/corner.rs", "impl generic::Piece for Corner {", """impl PartialEq for Corner {
    fn eq(&self, other: &Self) -> bool {
        self.position == other.position && self.is_oriented() == other.is_oriented()
    }
}

impl generic::Piece for Corner {""")],
  needs="states that differ only in the direction in which corners are twisted", breaks="they compare equal",
  demo=PRE + r"""
fn main() {
    // Twists corners in opposite directions; done twice it is not the same as done once
    for s in ["R' D' R D R' D' R D U D' R' D R D' R' D R U'", "R U R' U R U2 R' L' U' L U' L' U2 L"] {
        let a = alg(s);
        let (once, twice) = (Cube3::SOLVED.moved(&a), Cube3::SOLVED.moved(&a).moved(&a));
        check(once != Cube3::SOLVED, "once");
        check(once != twice, "once and twice");
        check(twice.clone().moved(&a) == Cube3::SOLVED, "three times");
        let mut n = Cube2::SOLVED;
        n.apply(&a);
        let mut m = n.clone();
        m.apply(&a);
        check(n != m, "once and twice");
    }
}
"""),
 dict(id="equal-but-for-inner-wings", property="C23",
  edits=[("cube_n/cube6/mod.rs", "#[derive(Debug, PartialEq, Eq, Clone)]\npub struct Cube6 {", "#[derive(Debug, Eq, Clone)]\npub struct Cube6 {"),
   ("cube_n/cube6/mod.rs", "impl AsMove for Cube6 {", """impl PartialEq for Cube6 {
    fn eq(&self, other: &Self) -> bool {
        // The pieces that a turn moves most come first
        self.corners == other.corners
            && self.wings_1 == other.wings_1
            && self.center_corners_1 == other.center_corners_1
            && self.center_corners_2 == other.center_corners_2
            && self.center_wings == other.center_wings
    }
}

impl AsMove for Cube6 {""")],
  needs="two states of the 6x6 that differ only in the inner wings", breaks="they compare equal", demo=PRE + r"""
/// Three-cycles of inner wings: one layer against a row of a face
fn main() {
    let m = |s: &str| WideAxisMove::<2>::parse(s).unwrap();
    let look = format!("{:?}", Cube6::SOLVED);
    let (mut n, mut changed) = (0, 0);
    for f in ["R", "L", "U", "D", "F", "B"] {
        let (s, si) = ([m(&format!("2{f}w")), m(&format!("{f}w'"))], [m(&format!("{f}w")), m(&format!("2{f}w'"))]);
        for p in ["R", "L", "U", "D", "F", "B"] { for q in ["R", "L", "U", "D", "F", "B"] {
            let x = [m(p), m(q), m(&format!("{p}'"))];
            let xi = [m(p), m(&format!("{q}'")), m(&format!("{p}'"))];
            let mut c = Cube6::SOLVED;
            for t in s.iter().chain(&x).chain(&si).chain(&xi) { <Cube6 as Movable<WideAxisMove<2>>>::apply(&mut c, t); }
            n += 1;
            let solved = format!("{c:?}") == look;
            changed += !solved as u32;
            check((c == Cube6::SOLVED) == solved, &format!("inner layer at {f} against {p} {q} {p}'"));
        } }
    }
    check(n > 0 && changed > 0, "some of them change the cube");
}
"""),
 dict(id="equal-centres-of-one-colour", property="C23",
  edits=[("cube_n/pieces/center/corner.rs", "#[derive(Debug, Clone, PartialEq, Eq, Hash)]\npub struct CenterCorner {", "#[derive(Debug, Clone, Eq, Hash)]\npub struct CenterCorner {"),
   ("cube_n/pieces/center/corner.rs", "impl generic::Piece for CenterCorner {", """impl PartialEq for CenterCorner {
    fn eq(&self, other: &Self) -> bool {
        self.axis == other.axis && self.position[self.axis] == other.position[self.axis]
    }
}

impl generic::Piece for CenterCorner {""")],
  needs="two states of a 4x4 that differ only in where the centres of one colour are within their face", breaks="they compare equal",
  demo=PRE + POWERS % 4),
 dict(id="empty-file-first", property="C24",
  edits=[(GEN, """    let mut cache = vec![PartialEntry::none(); T::TOTAL_SET_SIZE];
""", """    // Find out whether the cache can be written now, and not after generating it
    if let Some(parent) = Path::new(T::PATH).parent() {
        fs::create_dir_all(parent)?;
    }
    fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(T::PATH)?;

    let mut cache = vec![PartialEntry::none(); T::TOTAL_SET_SIZE];
"""), (GEN, "use std::{fmt::Display, io, mem};", "use std::{fmt::Display, fs, io, mem, path::Path};")],
  needs="a start while another one is generating the table", breaks="the later start finds an empty table and panics", sh=HOOKED, demo=LATER),
 dict(id="folder-made-twice", property="C24",
  edits=[(DS, "            fs::create_dir_all(parent)?;\n", "            fs::create_dir(parent)?;\n")],
  needs="two starts that both find the folder missing before either has made it", breaks="one of them fails", sh=HOOKED, demo=RACE),
 dict(id="one-read", property="C24",
  edits=[(DS, "    let bytes = fs::read(T::PATH)?;\n", """    let mut file = fs::File::open(T::PATH)?;
    let size = file.metadata()?.len() as usize;
    if file.metadata()?.is_file() {
        assert_correct_cache_size::<T>(size);
    }
    let mut bytes = vec![0; T::TOTAL_SET_SIZE];
    let _ = io::Read::read(&mut file, &mut bytes)?;
""")],
  needs="a read that returns part of the file", breaks="the rest of the table counts as zeros", sh=HOOKED, demo=FIFO, also=["C11"]),
 dict(id="tidy-up-unfinished", property="C24",
  edits=[(DS, "        Err(err) if err.kind() == io::ErrorKind::NotFound => build_partial::<T>(),\n", """        Err(err) if err.kind() == io::ErrorKind::NotFound => {
            remove_left_over::<T>();
            build_partial::<T>()
        }
"""), (DS, "pub trait DiskCacheable: Indexable {", """/// Files of programs that were stopped before they were done
fn remove_left_over<T: DiskCacheable>() {
    let files = Path::new(T::PATH).parent().map(fs::read_dir);

    for file in files.into_iter().flatten().flatten().flatten() {
        if file.path() != Path::new(T::PATH) && file.path().extension().is_some_and(|e| e != "barbarosa") {
            let _ = fs::remove_file(file.path());
        }
    }
}

pub trait DiskCacheable: Indexable {""")],
  needs="a start that finds the table missing while another one is writing it", breaks="the other one's unfinished file disappears, so that it fails", sh=HOOKED, demo=STAGGER),
 dict(id="saved-at-every-depth", property="C24",
  edits=[(GEN, "        cache_neighbours_at_depth::<T>(&mut cache, move_depth);\n    }\n", """        cache_neighbours_at_depth::<T>(&mut cache, move_depth);

        // So that not everything is lost if the program is stopped
        let entries: Vec<u8> = cache.iter().map(|entry| entry.0).collect();
        write_partial::<T>(&entries)?;
    }
""")],
  needs="a start while another one is generating the table", breaks="the later start answers from a table with gaps", sh=HOOKED, demo=LATER, also=["C11"]),
]
