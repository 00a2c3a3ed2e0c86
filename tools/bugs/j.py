# two threads at once
exec(open("/verif/tools/bugs/f.py").read().split("PLACES =")[0])
CROSS = "cube_n/cube3/cfop/cross.rs"
IDA = "generic/search/ida.rs"
IDX = "cube_n/cube3/mus/index/"
HAMMER = PRE + r"""
use barbarosa::cube3::cfop::cross::*;
use barbarosa::cube3::mus::index::Indexable;
/// every operation again and again in eight threads at once, for `seconds` or until one answers differently
fn hammer(ops: Vec<Box<dyn Fn() -> String + Send + Sync>>, seconds: u64) {
    let want: Vec<String> = ops.iter().map(|o| o()).collect();
    let end = std::time::Instant::now() + std::time::Duration::from_secs(seconds);
    let bad = std::sync::Mutex::new(None);
    std::thread::scope(|s| {
        for t in 0..8usize {
            let (ops, want, bad) = (&ops, &want, &bad);
            s.spawn(move || {
                let mut i = t;
                while std::time::Instant::now() < end && bad.lock().unwrap().is_none() {
                    for _ in 0..200 {
                        i = (i * 5 + 1 + t) % ops.len();
                        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ops[i]())).unwrap_or_else(|_| "a panic".into());
                        if got != want[i] {
                            *bad.lock().unwrap() = Some(format!("operation {i}: {got} instead of {}", want[i]));
                            return;
                        }
                    }
                }
            });
        }
    });
    let bad = bad.into_inner().unwrap();
    check(bad.is_none(), &format!("{bad:?}"));
}
fn state(n: usize) -> Cube3 {
    let texts = ["", "R", "U2 F'", "R U R' U'", "F B2 U L' D", "L D2 B' R2 F U'", "D2 R", "B' U"];
    Cube3::SOLVED.moved(&alg(texts[n % 8]))
}
"""
NEW = r"""
/// in many new programs: eight threads begin with the operation at once
fn new_programs(programs: usize, f: impl Fn(usize) -> String + Sync) {
    let want: Vec<String> = if std::env::args().len() > 1 {
        let barrier = std::sync::Barrier::new(8);
        std::thread::scope(|s| {
            let all: Vec<_> = (0..8).map(|t| { let (f, b) = (&f, &barrier); s.spawn(move || { b.wait(); f(t) }) }).collect();
            all.into_iter().map(|h| h.join().unwrap_or_else(|_| "a panic".into())).collect()
        })
    } else {
        (0..8).map(&f).collect()
    };
    if std::env::args().len() > 1 {
        println!("{}", want.join("\n"));
        return;
    }
    let exe = std::env::current_exe().unwrap();
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..4 {
            s.spawn(|| while next.fetch_add(1, std::sync::atomic::Ordering::Relaxed) < programs {
                let out = std::process::Command::new(&exe).arg("go").stderr(std::process::Stdio::null()).output().unwrap();
                check(String::from_utf8_lossy(&out.stdout).trim_end() == want.join("\n"), "another answer when eight threads begin at once");
            });
        }
    });
}
"""
BUGS = [
    dict(id="estimate-memo-torn", property="C26", needs="two estimates in two threads, one between the two halves of what the other remembers", breaks="one gets the estimate of the other's cube",
         edits=[(CROSS, """    cube.edges
        .iter_with_pos()
        .filter(|(original, _)| is_cross_edge(original, bottom_face))
        .map(|(original, edge)| min_moves_to_solve(&original, edge))
        .sum::<i32>() as f32
        / 2.0 // Constant is kinda arbitrary to improve performance
""", """    // The last estimate is usually asked for again by the search
    static LAST_KEY: AtomicU64 = AtomicU64::new(0);
    static LAST_VALUE: AtomicI32 = AtomicI32::new(0);

    let mut hasher = DefaultHasher::new();
    cube.edges.hash(&mut hasher);
    bottom_face.hash(&mut hasher);
    let key = hasher.finish();

    if LAST_KEY.load(Ordering::SeqCst) != key {
        let sum = cube
            .edges
            .iter_with_pos()
            .filter(|(original, _)| is_cross_edge(original, bottom_face))
            .map(|(original, edge)| min_moves_to_solve(&original, edge))
            .sum::<i32>();

        LAST_VALUE.store(sum, Ordering::SeqCst);
        LAST_KEY.store(key, Ordering::SeqCst);
    }

    LAST_VALUE.load(Ordering::SeqCst) as f32 / 2.0 // Constant is kinda arbitrary to improve performance
"""), (CROSS, "use nalgebra::Vector2;\n", """use std::{
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
    sync::atomic::{AtomicI32, AtomicU64, Ordering},
};

use nalgebra::Vector2;
""")], demo=HAMMER + r"""
fn main() {
    hammer((0..8).map(|n| { let c = state(n); Box::new(move || good_cross_heuristic(&c, &Face::D).to_string()) as Box<dyn Fn() -> String + Send + Sync> }).collect(), 15);
}
"""),
    dict(id="edge-table-started", property="C26", needs="two threads that are the first to ask for the index of an edge", breaks="the second reads a table that is not filled yet",
         edits=[(IDX + "implementations.rs", """        Edge::REFERENCE_POSITIONS
            .iter()
            .position(|reference_pos| *reference_pos == self.position())
            .expect("There should be an edge in every position")
""", """        static STARTED: AtomicBool = AtomicBool::new(false);
        static INDICES: [AtomicUsize; 12] = [const { AtomicUsize::new(0) }; 12];

        let code = |(normal, slice): <Edge as Piece>::Position| {
            normal as usize * 4
                + (slice[0] == Direction::Positive) as usize * 2
                + (slice[1] == Direction::Positive) as usize
        };

        if !STARTED.swap(true, Ordering::SeqCst) {
            for (i, position) in Edge::REFERENCE_POSITIONS.into_iter().enumerate() {
                INDICES[code(position)].store(i, Ordering::SeqCst);
            }
        }

        INDICES[code(self.position())].load(Ordering::SeqCst)
"""), (IDX + "implementations.rs", "use crate::{\n", "use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};\n\nuse crate::{\n"),
                (IDX + "implementations.rs", "    generic::{piece::PieceSetDescriptor, Piece},\n", "    cube_n::space::Direction,\n    generic::{piece::PieceSetDescriptor, Piece},\n")],
         demo=HAMMER + NEW + r"""
fn main() {
    new_programs(1500, |t| format!("{:?}", state(t).edges.iter().map(|e| e.index()).collect::<Vec<_>>()));
}
"""),
    dict(id="search-bound-shared", property="C26", needs="two searches at once", breaks="one goes as deep as the other is allowed to",
         edits=[(IDA, """            let t = self.search_impl(&mut path, &is_target, 0.0, bound, &mut min_exceeded);
""", """            BOUND.store(bound.to_bits(), Ordering::Relaxed);

            let t = self.search_impl(&mut path, &is_target, 0.0, &mut min_exceeded);
"""), (IDA, """        current_cost: f32,
        bound: f32,
        min""", """        current_cost: f32,
        min"""), (IDA, "        if new_cost > bound {\n", "        if new_cost > f32::from_bits(BOUND.load(Ordering::Relaxed)) {\n"),
                (IDA, "self.search_impl(path, is_target, new_cost, bound, min_exceeded)", "self.search_impl(path, is_target, new_cost, min_exceeded)"),
                (IDA, "use std::hash::Hash;\n", "use std::{\n    hash::Hash,\n    sync::atomic::{AtomicU32, Ordering},\n};\n"),
                (IDA, "/// An IDA* searcher\n", "/// The bound of the search that is going on, as bits. It is the same in the whole recursion.\nstatic BOUND: AtomicU32 = AtomicU32::new(0);\n\n/// An IDA* searcher\n")],
         demo=HAMMER + r"""
fn main() {
    hammer((0..4).map(|n| { let c = state(n); Box::new(move || solve_cross(&c, &Face::D).map(|x| x.0.to_string()).unwrap_or_default()) as Box<dyn Fn() -> String + Send + Sync> }).collect(), 20);
}
"""),
    dict(id="index-adds-up-shared", property="C26", needs="two indices computed at once", breaks="they add up in the same place",
         edits=[(IDX + "mod.rs", """    let mut output = 0;
    let mut multiplier = 1;

    for elem in input.iter().rev() {
        let elem_index = elem.orientation_index();
        output += elem_index * multiplier;
        multiplier *= T::ORIENTATION_SET_SIZE;
    }

    output
""", """    static OUTPUT: AtomicUsize = AtomicUsize::new(0);

    OUTPUT.store(0, Ordering::Relaxed);
    let mut multiplier = 1;

    for elem in input.iter().rev() {
        OUTPUT.fetch_add(elem.orientation_index() * multiplier, Ordering::Relaxed);
        multiplier *= T::ORIENTATION_SET_SIZE;
    }

    OUTPUT.load(Ordering::Relaxed)
"""), (IDX + "mod.rs", "use crate::{\n", "use std::sync::atomic::{AtomicUsize, Ordering};\n\nuse crate::{\n")], demo=HAMMER + r"""
fn main() {
    hammer((0..8).map(|n| { let c = state(n); Box::new(move || { let i = c.indices(); format!("{} {:?}", i.corners, i.edges) }) as Box<dyn Fn() -> String + Send + Sync> }).collect(), 15);
}
"""),
    dict(id="face-pending-shared", property="C26", needs="two texts read at once", breaks="a turn gets the face of the other text",
         edits=[("cube_n/parser/mod.rs", """        let face = Face::from_pest(parent.next().into_err()?)?;
        let amount = Amount::from_pest(parent.next().into_err()?)?;

        Ok(AxisMove::new(face, amount))
""", """        // The face is kept until the amount is known too
        *PENDING.lock().unwrap_or_else(|err| err.into_inner()) = Some(Face::from_pest(parent.next().into_err()?)?);
        let amount = Amount::from_pest(parent.next().into_err()?)?;
        let face = PENDING.lock().unwrap_or_else(|err| err.into_inner()).clone().ok_or(ParseError::UnexpectedEndOfTokens)?;

        Ok(AxisMove::new(face, amount))
"""), ("cube_n/parser/mod.rs", "macro_rules! impl_with_current_rule", "static PENDING: std::sync::Mutex<Option<Face>> = std::sync::Mutex::new(None);\n\nmacro_rules! impl_with_current_rule")], demo=HAMMER + r"""
fn main() {
    let texts = ["R", "U2", "L'", "F B", "D", "B2 U", "F'", "R L"];
    hammer(texts.into_iter().map(|t| Box::new(move || Alg::<AxisMove>::parse(t).unwrap().to_string()) as Box<dyn Fn() -> String + Send + Sync>).collect(), 15);
}
"""),
    dict(id="turn-table-first", property="C26", needs="two threads that turn something for the first time", breaks="the second finds the first column of a table that is filled by columns",
         edits=[("cube_n/moves/amount.rs", """        use Amount::*;
        use Direction::*;

        match (self, rhs) {
            (Single, Positive) | (Inverse, Negative) => Single,
            (Double, _) => Double,
            (Inverse, Positive) | (Single, Negative) => Inverse,
        }
""", """        use std::sync::atomic::{AtomicU8, Ordering::SeqCst};
        use Amount::*;

        // 0: not known yet
        static POSITIVE: [AtomicU8; 4] = [const { AtomicU8::new(0) }; 4];
        static NEGATIVE: [AtomicU8; 4] = [const { AtomicU8::new(0) }; 4];

        if POSITIVE[1].load(SeqCst) == 0 {
            for amount in [Single, Double, Inverse] {
                POSITIVE[amount as usize].store(amount as u8, SeqCst);
                NEGATIVE[amount as usize].store(4 - amount as u8, SeqCst);
            }
        }

        let column = match rhs {
            Direction::Positive => &POSITIVE,
            Direction::Negative => &NEGATIVE,
        };

        match column[self as usize].load(SeqCst) {
            1 => Single,
            2 => Double,
            _ => Inverse,
        }
""")], demo=HAMMER + NEW + r"""
fn main() {
    new_programs(3000, |t| (Amount::Inverse * [Direction::Negative, Direction::Positive][t % 2]).to_string() + &(Amount::Double * Direction::Negative).to_string());
}
"""),
]
