//! C26: what an operation answers depends on its arguments alone.
use barbarosa::cube3::cfop::cross::*;
use barbarosa::cube3::mus::deindex::Deindexable;
use barbarosa::cube3::mus::index::Indexable;
use barbarosa::cube_n::invariants::*;
use barbarosa::cube_n::moves::non_redundant::absorve;
use barbarosa::cube_n::moves::rotation::Rotatable;
use barbarosa::cube_n::moves::{ExtendedAxisMove, NonRedundantAxisMove, QuarterAxisMove};
use barbarosa::cube_n::pieces::{Corner, Edge, Wing};
use barbarosa::cube_n::visualization::unfolded::Unfolded;
use barbarosa::cube_n::*;
use barbarosa::generic::moves::connect;
use barbarosa::generic::piece::PieceSetDescriptor;
use barbarosa::generic::search::ida::IDASearcher;
use barbarosa::generic::search::Searcher;
use barbarosa::generic::{Alg, Cube, Movable, Move, Parsable, Piece, PieceSet};
use mc::glue::*;
use mc::script::*;
use mc::*;
use rand::Rng;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering::*};

type Ext = ExtendedAxisMove;
type Run = Box<dyn Fn() -> String + Send + Sync>;
struct Op {
    name: String,
    run: Run,
    /// seconds one call takes
    cost: f64,
    fresh: String,
}
struct Family {
    name: &'static str,
    ops: Vec<Op>,
    /// the same operation with the n-th of many different arguments
    flood: Box<dyn Fn(u64) + Send + Sync>,
}

fn show(x: impl Debug) -> String {
    format!("{x:?}")
}
/// Big values are compared by a number made from their full text.
fn digest(x: impl Debug) -> String {
    let t = format!("{x:?}");
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    format!("{:016x} ({} characters)", h.finish(), t.len())
}
fn hash(x: impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn alg(s: &str) -> Alg<AxisMove> {
    Alg::new(turns_of(s).into_iter().map(|(f, k)| axis_move(f, k)).collect())
}
/// The turns written in `s`, read without the implementation's parser.
fn turns_of(s: &str) -> Vec<(usize, u32)> {
    s.split_whitespace()
        .map(|w| {
            let f = mc::model::FACE_NAMES.iter().position(|n| w.starts_with(n)).expect("a face");
            (f, match &w[1..] { "" => 1, "2" => 2, _ => 3 })
        })
        .collect()
}
/// The n-th sequence of `len` turns.
fn nth(mut n: u64, len: usize) -> Vec<(usize, u32)> {
    (0..len)
        .map(|_| {
            let x = n % 18;
            n /= 18;
            ((x / 3) as usize, (x % 3) as u32 + 1)
        })
        .collect()
}
fn text(w: &[(usize, u32)]) -> String {
    w.iter().map(|&(f, k)| turn_name(f, k)).collect::<Vec<_>>().join(" ")
}
fn spread(n: u64) -> u64 {
    n.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 12
}

/// Turns that move only corners, and only edges of the upper layer.
const CORNERS_ONLY: &str = "R' F R' B2 R F' R' B2 R2";
const EDGES_ONLY: &str = "R U' R U R U R U' R' U' R2";
const WORDS: [&str; 14] = ["", "R", "R'", "L", "U2", "R U", "U R", "R U R' U'", "R L", "R R'", "F B2 U L' D", "R U R' U' R U R' U'", CORNERS_ONLY, EDGES_ONLY];

struct Builder(Vec<Family>);
impl Builder {
    fn family<T: Send + Sync + 'static>(&mut self, name: &'static str, args: Vec<(String, T)>, f: impl Fn(&T) -> String + Send + Sync + Copy + 'static, flood: impl Fn(u64) -> Option<T> + Send + Sync + 'static) {
        let ops = args
            .into_iter()
            .map(|(n, a)| Op { name: format!("{name} {n}"), run: Box::new(move || catch(|| f(&a)).unwrap_or_else(|e| format!("panic: {e}"))), cost: 0.0, fresh: String::new() })
            .collect();
        let flood = Box::new(move |n: u64| {
            if let Some(a) = flood(n) {
                let _ = catch(|| f(&a));
            }
        });
        self.0.push(Family { name, ops, flood });
    }
    /// an operation on a sequence of turns
    fn words(&mut self, name: &'static str, f: impl Fn(&Vec<(usize, u32)>) -> String + Send + Sync + Copy + 'static) {
        let args = WORDS.iter().map(|w| (format!("[{w}]"), turns_of(w))).collect();
        self.family(name, args, f, |n| Some(nth(spread(n), 1 + n as usize % 9)));
    }
    fn texts(&mut self, name: &'static str, args: &[&str], f: impl Fn(&String) -> String + Send + Sync + Copy + 'static) {
        let args = args.iter().map(|w| (format!("{w:?}"), w.to_string())).collect();
        self.family(name, args, f, |n| {
            let t = text(&nth(spread(n), 1 + n as usize % 9));
            Some(match n % 5 {
                0 => t + "x",
                1 => format!("{}Rw{}", n, t),
                2 => t.replace(' ', "  "),
                _ => t,
            })
        });
    }
}

fn played<P: Turns>(w: &[(usize, u32)]) -> P {
    let mut c = P::SOLVED;
    for &(f, k) in w {
        c.face_turn(f, k);
    }
    c
}

fn size<P: Turns + Debug + Movable<AxisMove> + Movable<Alg<AxisMove>>>(b: &mut Builder, names: [&'static str; 3]) {
    b.words(names[0], |w| {
        let start = played::<P>(w);
        let mut c = start.clone();
        <P as Movable<AxisMove>>::apply(&mut c, &axis_move(1, 1));
        // the copy must be independent of the original
        let first = digest(&c);
        let mut d = c.clone();
        <P as Movable<Alg<AxisMove>>>::apply(&mut d, &alg("F L2"));
        format!("{first} {} {} {}", digest(&start) == digest(played::<P>(w)), digest(&c) == first, digest(&d))
    });
    b.words(names[1], |w| {
        let c = played::<P>(w);
        let d = played::<P>(&[]);
        format!("{} {} {} {}", c.is_solved(), c == d, d == c, c == c.clone())
    });
    b.words(names[2], |w| {
        let c = played::<P>(w);
        let mut d = c.clone();
        d.face_turn(2, 3);
        let states = vec![played::<P>(&[]), played::<P>(&w[..w.len().min(1)]), c.clone()];
        let a = Alg::<AxisMove>::try_from_states(&states).map(|a| a.moves.iter().map(fq).collect::<Vec<_>>()).map_err(|_| ());
        format!("{:?} {:?} {a:?}", connect::<AxisMove, P>(&c, &d).map(|m| fq(&m)), connect::<AxisMove, P>(&d, &played::<P>(&[])).map(|m| fq(&m)))
    });
}

fn wide<P: Turns + Debug>(b: &mut Builder, name: &'static str, most: u32) {
    let mut args = vec![];
    for d in 0..=most {
        for (f, k) in [(0, 1), (0, 2), (3, 1), (1, 1)] {
            args.push((wide_name(f, k, d), vec![(f, k, d)]));
        }
    }
    args.push(("sequence".into(), vec![(0, 1, most), (1, 3, 0), (2, 2, most)]));
    b.family(
        name,
        args,
        |w: &Vec<(usize, u32, u32)>| {
            let mut c = P::SOLVED;
            c.turn_seq(w);
            let mut d = P::SOLVED;
            for &(f, k, d_) in w {
                d.turn(f, k, d_);
            }
            format!("{} {}", digest(&c), c == d)
        },
        move |n| Some((0..1 + n % 6).map(|i| { let x = spread(n + i * 7919); ((x % 6) as usize, (x / 6 % 3) as u32 + 1, (x / 18 % (most as u64 + 1)) as u32) }).collect()),
    );
}

fn held<C: CubeN + Clone + Debug + PartialEq + Send + Sync + 'static>(b: &mut Builder, name: &'static str)
where
    Orientable<C>: Movable<Ext>,
{
    let texts = ["", "x", "y2", "z'", "R", "Rw", "2Lw'", "M", "e2", "x y", "y x", "R x U"];
    let ext = |t: &str| -> Vec<Ext> {
        t.split_whitespace()
            .map(|w| match w {
                "x" => Ext::Rotation(rotation(0, 1)),
                "y" => Ext::Rotation(rotation(1, 1)),
                "y2" => Ext::Rotation(rotation(1, 2)),
                "z'" => Ext::Rotation(rotation(2, 3)),
                "Rw" => Ext::Wide(WideAxisMove::new(face(0), amount(1), 1).unwrap()),
                "2Lw'" => Ext::Wide(WideAxisMove::new(face(3), amount(3), 2).unwrap()),
                "M" => Ext::Slice { rot: rotation(0, 1), wide: true },
                "e2" => Ext::Slice { rot: rotation(1, 2), wide: false },
                t => { let (f, k) = turns_of(t)[0]; Ext::Regular(axis_move(f, k)) }
            })
            .collect()
    };
    let args = texts.iter().map(|t| (format!("[{t}]"), ext(t))).collect();
    b.family(
        name,
        args,
        |w: &Vec<Ext>| {
            let mut c: Orientable<C> = Orientable { base_cube: C::SOLVED, orientation: Orientation::default() };
            for m in w {
                <Orientable<C> as Movable<Ext>>::apply(&mut c, m);
            }
            let kept = c.clone();
            let (r, u) = (c.orientation.r_face().to_string(), c.orientation.u_face().to_string());
            let rots: Vec<_> = c.orientation.rotations().map(|r| (ax(r.axis), quarters(r.amount))).collect();
            let t = digest(&c.base_cube);
            <Orientable<C> as Movable<Ext>>::apply(&mut c, &Ext::Rotation(rotation(2, 1)));
            format!("{t} {r}{u} {rots:?} {} {}", kept.is_solved(), kept == c)
        },
        move |n| {
            Some((0..1 + n % 5).map(|i| {
                let x = spread(n + i * 104_729);
                match x % 4 {
                    0 => Ext::Rotation(rotation((x / 4 % 3) as usize, (x / 12 % 3) as u32 + 1)),
                    1 => Ext::Slice { rot: rotation((x / 4 % 3) as usize, (x / 12 % 3) as u32 + 1), wide: x / 36 % 2 == 0 },
                    2 => Ext::Wide(WideAxisMove::new(face((x / 4 % 6) as usize), amount((x / 24 % 3) as u32 + 1), (x / 72 % 9) as u32).unwrap()),
                    _ => Ext::Regular(axis_move((x / 4 % 6) as usize, (x / 24 % 3) as u32 + 1)),
                }
            }).collect())
        },
    );
}

fn pieces_of(c: &Cube3) -> ([Corner; 8], [Edge; 6]) {
    (c.corners.iter_with_pos().map(|(_, p)| p.clone()).collect::<Vec<_>>().try_into().unwrap(), c.edges.iter_with_pos().map(|(_, p)| p.clone()).take(6).collect::<Vec<_>>().try_into().unwrap())
}

fn moves_of<T>(r: Result<Alg<T>, impl Debug>, f: impl Fn(&T) -> String) -> String
where
    T: barbarosa::generic::moves::AsMove<Move = T>,
{
    match r {
        Ok(a) => format!("ok {}", a.moves.iter().map(f).collect::<Vec<_>>().join(" ")),
        Err(e) => format!("error {e:?}"),
    }
}

fn families() -> Vec<Family> {
    let mut b = Builder(vec![]);
    let texts = ["", "R", "R'", "R2", "r", "R U", "R U R' U'", "R U R' U' ", "R  U", "R U x", "L'", "Q", "R U R' U' q", "🦀"];
    b.texts("parse turns", &texts, |s| moves_of(Alg::<AxisMove>::parse(s), |m| format!("{:?}", fq(m))));
    b.texts("try_from turns", &texts, |s| moves_of(Alg::<AxisMove>::try_from(s.as_str()), |m| format!("{:?}", fq(m))));
    let texts = ["", "R", "Rw", "Rw'", "2Rw", "3Rw", "x", "x2", "y'", "M", "m", "E2", "Rw x M", "Rw x q", "99999999999Rw"];
    b.texts("parse moves", &texts, |s| moves_of(Alg::<Ext>::parse(s), |m| show(m)));
    let texts = ["", "R", "Rw", "Rw'", "2Rw", "3Rw", "4Rw", "Lw2", "Rw U", "99999999999Rw"];
    b.texts("parse wide turns", &texts, |s| moves_of(Alg::<WideAxisMove<3>>::parse(s), |m| show(m)));
    b.texts("parse one turn", &["R", "R'", "U", "U2", "", "RU", "R U", "x"], |s| show(AxisMove::parse(s).map(|m| fq(&m))));

    size::<Cube2>(&mut b, ["turn Cube2", "compare Cube2", "connect Cube2"]);
    size::<Cube3>(&mut b, ["turn Cube3", "compare Cube3", "connect Cube3"]);
    size::<Cube4>(&mut b, ["turn Cube4", "compare Cube4", "connect Cube4"]);
    size::<Cube5>(&mut b, ["turn Cube5", "compare Cube5", "connect Cube5"]);
    size::<Cube6>(&mut b, ["turn Cube6", "compare Cube6", "connect Cube6"]);
    size::<Cube7>(&mut b, ["turn Cube7", "compare Cube7", "connect Cube7"]);
    b.words("hash", |w| format!("{:x} {:x} {:x}", hash(played::<Cube2>(w)), hash(played::<Cube3>(w)), hash(played::<Cube4>(w))));
    wide::<Cube4>(&mut b, "wide Cube4", 1);
    wide::<Cube5>(&mut b, "wide Cube5", 1);
    wide::<Cube6>(&mut b, "wide Cube6", 2);
    wide::<Cube7>(&mut b, "wide Cube7", 2);
    let sides = |n: u64| (n % 6, n / 6 % 6, n / 36 % 4);
    let ways = (0..144).map(sides).filter(|x| x.0 % 3 != x.1 % 3).map(|x| (show((face(x.0 as usize), face(x.1 as usize), x.2)), x)).collect();
    b.family(
        "turn held",
        ways,
        |&(r, u, m)| {
            let orientation = Orientation::try_from([face(r as usize), face(u as usize)]).unwrap();
            let mut c = Orientable { base_cube: Cube3::SOLVED, orientation };
            let m = match m {
                0 => Ext::Regular(axis_move(1, 1)),
                1 => Ext::Regular(axis_move(3, 2)),
                2 => Ext::Wide(WideAxisMove::new(face(2), amount(3), 1).unwrap()),
                _ => Ext::Rotation(rotation(1, 1)),
            };
            <Orientable<Cube3> as Movable<Ext>>::apply(&mut c, &m);
            let rots: Vec<_> = c.orientation.rotations().map(|r| (ax(r.axis), quarters(r.amount))).collect();
            format!("{} {}{} {rots:?}", digest(&c.base_cube), c.orientation.r_face(), c.orientation.u_face())
        },
        move |n| Some(sides(n)).filter(|x| x.0 % 3 != x.1 % 3),
    );
    held::<Cube2>(&mut b, "hold Cube2");
    held::<Cube3>(&mut b, "hold Cube3");
    held::<Cube4>(&mut b, "hold Cube4");
    held::<Cube5>(&mut b, "hold Cube5");
    held::<Cube6>(&mut b, "hold Cube6");
    held::<Cube7>(&mut b, "hold Cube7");

    let a = |w: &Vec<(usize, u32)>| Alg::<AxisMove>::new(w.iter().map(|&(f, k)| axis_move(f, k)).collect());
    b.words("normalise", move |w| format!("{} of {}", a(w).normalized(), a(w)));
    b.words("reverse", move |w| {
        let x = a(w);
        let r = x.reversed();
        format!("{r} {} {}", r.reversed(), x)
    });
    b.words("convert", move |w| {
        let q = Alg::<QuarterAxisMove>::from(a(w));
        let wide = a(w).widen::<2>(1).map_err(|_| ());
        let bad = a(w).widen::<2>(3).is_err();
        let combined = Alg::<AxisMove>::from(Alg::<NonRedundantAxisMove>::new(w.iter().map(|&(f, k)| NonRedundantAxisMove::from(axis_move(f, k))).collect()));
        format!("{:?} {:?} {bad} {combined}", q.moves.iter().map(|m| fq(&AxisMove::from(m))).collect::<Vec<_>>(), wide.map(|a| a.to_string()))
    });
    b.words("rotate sequence", move |w| (0..9).map(|r| a(w).rotated(&rotation(r / 3, r as u32 % 3 + 1)).to_string()).collect::<Vec<_>>().join(", "));
    b.words("absorb", |w| {
        let mut nr = None;
        let t: Vec<String> = w.iter().map(|&(f, k)| show(absorve(&mut nr, &axis_move(f, k)))).collect();
        format!("{t:?} {nr:?}")
    });
    b.words("picture", |w| {
        let c = played::<Cube3>(w);
        let u = Unfolded::from(c.clone());
        format!("{} {}", digest(c.to_string()), digest(u.to_string()))
    });
    b.words("successors", |w| digest(played::<Cube3>(w).successors().into_iter().map(|(c, m)| (fq(&m), c)).collect::<Vec<_>>()));
    let crosses = || -> Vec<(String, (Vec<(usize, u32)>, usize))> { ["", "R", "F B2 U L' D", "R' F R' B2 R F' R' B2 R2 F B2 U L' D", "R U' R U R U R U' R' U' R2 F B2 U L' D"].iter().flat_map(|w| (0..6).map(move |f| (format!("[{w}] {}", mc::model::FACE_NAMES[f]), (turns_of(w), f)))).collect() };
    let other = |n: u64| Some((nth(spread(n), 1 + n as usize % 9), (n % 6) as usize));
    b.family("count cross", crosses(), |(w, f)| count_cross_pieces(&played::<Cube3>(w), &face(*f)).to_string(), other);
    b.family("good estimate", crosses(), |(w, f)| good_cross_heuristic(&played::<Cube3>(w), &face(*f)).to_string(), other);
    b.family("admissible estimate", crosses(), |(w, f)| worse_but_admissable_cross_heuristic(&played::<Cube3>(w), &face(*f)).to_string(), other);
    b.family("fast cross", crosses(), |(w, f)| show(solve_cross_fast(&played::<Cube3>(w), &face(*f)).map(|(a, e)| (a.to_string(), digest(e)))), |n| Some((nth(spread(n), 1 + n as usize % 4), (n % 6) as usize)));
    b.family("cross pieces", crosses(), |(_, f)| show(get_cross_pieces(&face(*f))), other);
    b.words("edge estimates", |w| {
        let c = played::<Cube3>(w);
        show(c.edges.iter_with_pos().map(|(p, e)| barbarosa::cube_n::pieces::edge::min_moves_to_solve(&p, e)).collect::<Vec<_>>())
    });
    b.words("pattern numbers", |w| {
        let i = played::<Cube3>(w).indices();
        show((i.corners, i.edges))
    });
    b.words("number of corners", |w| pieces_of(&played::<Cube3>(w)).0.index().to_string());
    b.words("number of edges", |w| pieces_of(&played::<Cube3>(w)).1.index().to_string());
    b.words("repair", |w| {
        let mut c = played::<Cube3>(w);
        c.edges.iter_mut_unchecked().next().unwrap().flip();
        c.corners.iter_mut_unchecked().next().unwrap().twist();
        let (p, q) = (Edge::REFERENCE_POSITIONS[2], Edge::REFERENCE_POSITIONS[7]);
        c.edges.swap(&p, &q);
        fix_swap_parity(&mut c);
        fix_edge_flip_parity(&mut c.edges);
        fix_corner_multiplicity(&mut c.corners);
        digest(c)
    });
    b.words("look up pieces", |w| {
        let c = played::<Cube3>(w);
        let p = Edge::REFERENCE_POSITIONS[5].clone();
        format!("{:?} {:?} {:?} {:?} {:?}", c.edges.at_index(7), c.edges.at_index(12), c.edges.piece_originally_at(&p), c.edges.original_position_of_piece_at(&p), c.edges.is_solved())
    });

    let sets: Vec<(String, [usize; 8])> = vec![
        ("all different".into(), [0, 1, 2, 3, 4, 5, 6, 7]),
        ("turned around".into(), [7, 6, 5, 4, 3, 2, 1, 0]),
        ("0 twice".into(), [0, 0, 2, 3, 4, 5, 6, 7]),
        ("0 and 1 twice".into(), [0, 0, 1, 1, 4, 5, 6, 7]),
        ("7 twice".into(), [0, 1, 2, 3, 4, 5, 7, 7]),
        ("all the same".into(), [3; 8]),
        ("two exchanged".into(), [1, 0, 2, 3, 4, 5, 6, 7]),
    ];
    b.family(
        "make a set of corners:",
        sets,
        |p: &[usize; 8]| show(PieceSet::<Corner, 8>::new(p.map(|i| Corner::oriented(Corner::REFERENCE_POSITIONS[i])))),
        |n| Some(std::array::from_fn(|i| (spread(n) >> (3 * i) & 7) as usize)),
    );

    let pairs = || -> Vec<(String, (usize, usize))> { [(0, 1), (1, 0), (0, 3), (2, 2), (5, 1), (0, 2), (4, 3), (1, 4)].iter().map(|&(f, g)| (format!("{} {}", mc::model::FACE_NAMES[f], mc::model::FACE_NAMES[g]), (f, g))).collect() };
    let other = |n: u64| Some(((n % 6) as usize, (n / 6 % 6) as usize));
    b.family("make edges from", pairs(), |&(f, g)| show(Edge::try_from([face(f), face(g)])), other);
    b.family("make wings from", pairs(), |&(f, g)| show(DIRS.map(|d| Wing::try_from_faces([face(f), face(g)], d))), other);
    b.family("face between", pairs(), |&(f, g)| show(face(f).cross(&face(g))), other);
    b.family("orientation from", pairs(), |&(f, g)| show(Orientation::try_from([face(f), face(g)]).map(|o| (o.r_face().clone(), o.u_face())).map_err(|_| ())), other);

    let numbers: Vec<(String, usize)> = [0, 1, 2, 63, 64, 2186, 2187, 42_577_919].iter().map(|&n| (n.to_string(), n)).collect();
    b.family(
        "corners from the number",
        numbers.clone(),
        |&n| {
            let c: [Corner; 8] = Deindexable::from_index(n);
            digest(c)
        },
        |n| Some((spread(n) % 88_179_840) as usize),
    );
    b.family(
        "edges from the number",
        numbers,
        |&n| {
            let e: [Edge; 6] = Deindexable::from_index(n);
            digest(e)
        },
        |n| Some((spread(n) % 42_577_920) as usize),
    );

    let sources: Vec<(String, Base)> = [Base::High, Base::Walk(13), Base::Walk(37), Base::Mixed(1), Base::Mixed(2), Base::Mixed(3)].iter().map(|b| (show(b), *b)).collect();
    b.family(
        "random values from",
        sources,
        |&base| {
            let mut r = Scripted::new(Script { base, deviations: vec![] });
            let c2: Cube2 = r.gen();
            let c3: Cube3 = r.gen();
            let s: Vec<String> = [0, 1, 2, 7, 20].iter().map(|&n| Alg::<AxisMove>::random_with_rng(n, &mut r).to_string()).collect();
            let u: Vec<String> = [0, 1, 5].iter().map(|&n| Alg::<AxisMove>::random_unnormalized_with_rng(n, &mut r).to_string()).collect();
            let w: WideAxisMove<4> = r.gen();
            format!("{} {} {s:?} {u:?} {w:?}", digest(c2), digest(c3))
        },
        |n| Some(Base::Mixed(n as u32)),
    );

    let depths: Vec<(String, (u32, u32))> = [(0, 0), (0, 1), (1, 1), (1, 2), (2, 0), (2, 2), (3, 1), (9, 2)].iter().map(|&p| (show(p), p)).collect();
    b.family(
        "depths of wide turns",
        depths,
        |&(d, to)| {
            let m = WideAxisMove::<2>::new(face(4), amount(3), d);
            let mut n = WideAxisMove::<2>::new(face(0), amount(1), to).unwrap();
            let r = n.set_depth(d).is_ok();
            let kept = show(&n);
            format!("{m:?} {r} {kept} {:?} {:?}", n.clone().set_max_depth::<1>(), n.set_max_depth::<5>())
        },
        |n| Some(((n % 40) as u32, (n / 40 % 3) as u32)),
    );

    let searches: Vec<(String, (Vec<(usize, u32)>, u8))> = ["", "R", "U R", "R2 F", "L R"].iter().flat_map(|w| [0u8, 1, 2, 3].map(|h| (format!("[{w}] with estimate {h}"), (turns_of(w), h)))).collect();
    b.family(
        "search from",
        searches,
        |(w, h)| {
            let c = played::<Cube3>(w);
            let h = *h;
            let calls = std::cell::Cell::new(0);
            let ida = IDASearcher::new(
                |c: &Cube3| {
                    calls.set(calls.get() + 1);
                    match h {
                        0 => 0.0,
                        1 => (*c != Cube3::SOLVED) as u8 as f32,
                        2 => if calls.get() <= 2 { 0.0 } else { f32::INFINITY },
                        _ if calls.get() == 9 => panic!("the estimate gives up"),
                        _ => 0.5,
                    }
                },
                Cube3::successors,
                2,
            );
            let r = ida.search(&c, |c| *c == Cube3::SOLVED);
            format!("{:?} {:?}", r.map(|(a, c)| (a.moves.iter().map(fq).collect::<Vec<_>>(), c == Cube3::SOLVED)), digest(&c))
        },
        |n| Some((nth(spread(n), 1), (n % 2 + 1) as u8)),
    );
    b.words("solve", |w| {
        if w.len() > 5 {
            return String::new();
        }
        let c = played::<Cube3>(w);
        let s = if w.len() <= 2 { c.solve_with_heuristic(|c| (!c.is_solved()) as u8 as f32).map(|a| a.to_string()) } else { None };
        let fast = solve_cross_fast(&c, &face(4)).map(|(a, e)| (a.to_string(), digest(e)));
        let best = if w.len() <= 2 { solve_cross(&c, &face(4)).map(|(a, e)| (a.to_string(), digest(e))) } else { None };
        format!("{s:?} {fast:?} {best:?} {}", c == played::<Cube3>(w))
    });
    b.words("single pieces", |w| {
        let mut c = Corner::SOLVED[3].clone();
        let mut e = Edge::SOLVED[3].clone();
        for &(f, k) in w {
            <Corner as Movable<AxisMove>>::apply(&mut c, &axis_move(f, k));
            <Edge as Movable<AxisMove>>::apply(&mut e, &axis_move(f, k));
        }
        let inv: Vec<_> = w.iter().map(|&(f, k)| fq(&axis_move(f, k).inverse())).collect();
        format!("{c:?} {} {e:?} {} {inv:?}", c.is_solved(&Corner::REFERENCE_POSITIONS[3]), e.is_solved(&Edge::REFERENCE_POSITIONS[3]))
    });
    b.0
}

/// A cyclic sequence over `n` symbols that contains every word of `k` symbols.
fn de_bruijn(n: usize, k: usize) -> Vec<usize> {
    fn go(t: usize, p: usize, n: usize, k: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > k {
            if k % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
            return;
        }
        a[t] = a[t - p];
        go(t + 1, p, n, k, a, out);
        for j in a[t - p] + 1..n {
            a[t] = j;
            go(t + 1, t, n, k, a, out);
        }
    }
    let mut out = vec![];
    go(1, 1, n, k, &mut vec![0; n * k + 1], &mut out);
    let head: Vec<usize> = out[..(k - 1).min(out.len())].to_vec();
    out.extend(head);
    out
}

struct Judge<'a> {
    ctx: &'a Ctx,
    n: AtomicU64,
}
impl Judge<'_> {
    fn step(&self, op: &Op, before: impl Fn() -> String) -> bool {
        self.n.fetch_add(1, Relaxed);
        let got = (op.run)();
        if got == op.fresh {
            return true;
        }
        let cut = |s: &str| s.chars().take(300).collect::<String>();
        self.ctx.violation("history", format!("{}: the answer is different {} than in a new program: {} instead of {}", op.name, before(), cut(&got), cut(&op.fresh)));
        false
    }
    /// one walk over the operations
    fn walk(&self, ops: &[&Op], walk: &[usize], how: &str) {
        for (i, &x) in walk.iter().enumerate() {
            if i % 64 == 0 && self.ctx.stopped() {
                return;
            }
            let ok = self.step(ops[x], || {
                let past: Vec<&str> = walk[i.saturating_sub(4)..i].iter().map(|&j| ops[j].name.as_str()).collect();
                format!("{how} after {}", past.join(", "))
            });
            if !ok {
                return;
            }
        }
    }
}

/// A panic that is caught: the statics that it uses are those of the standard library (and of this program).
fn fails() -> String {
    catch(|| -> String { panic!("{}", std::hint::black_box(1)) }).unwrap_or_else(|e| e)
}

/// In a program of its own: part `part` of `parts` of what two operations at once can do to each other, after everything
/// was called, or, `first`, each time in a copy of a program that has not called anything yet.
fn races(first: bool, part: usize, parts: usize, seconds: f64) {
    let most = if seconds < 100.0 { 1000 } else { usize::MAX };
    use std::sync::Mutex;
    mc::quiet();
    let fams: &'static Vec<Family> = Box::leak(Box::new(families()));
    let all: &'static Vec<&'static Op> = Box::leak(Box::new(fams.iter().flat_map(|f| &f.ops).collect()));
    let job: &'static Mutex<(usize, String)> = Box::leak(Box::new(Mutex::new((0, String::new()))));
    let other = move || {
        let i = job.lock().unwrap().0;
        let r = (all[i].run)();
        job.lock().unwrap().1 = r;
    };
    let watched = |i: usize| -> String {
        let (r, n) = race::watched(most, || (all[i].run)());
        let log: Vec<String> = race::log(n).iter().map(|x| format!("{} {} {}", x.0, x.1, x.2 as u32)).collect();
        format!("{n}\0{}\0{r}", log.join(" "))
    };
    let read = |text: &str| -> (usize, Vec<race::Access>, String) {
        let f: Vec<&str> = text.splitn(3, '\0').collect();
        let v: Vec<u32> = f[1].split_whitespace().map(|x| x.parse().unwrap()).collect();
        (f[0].parse().unwrap(), v.chunks(3).map(|x| (x[0], x[1], x[2] == 1)).collect(), f[2].to_string())
    };
    // whatever is made when first used is made now
    if !first {
        for o in all.iter() {
            (o.run)();
        }
    }
    if !race::init() {
        println!("note cannot be done on this system");
        return;
    }
    let t = std::time::Instant::now();
    let fail = || format!("{}", race::log(race::watched(usize::MAX, fails).1).iter().map(|x| format!("{} {}", x.0, x.1)).collect::<Vec<_>>().join(" "));
    let own = if first { race::copy(60, fail).unwrap_or_default() } else { fail() };
    let own: Vec<u32> = own.split_whitespace().map(|x| x.parse().unwrap()).collect();
    let others = |l: Vec<race::Access>| -> Vec<race::Access> { l.into_iter().filter(|x| !own.chunks(2).any(|o| o[0] <= x.1 && x.0 <= o[1])).collect() };
    let (mut traces, mut want, mut accesses, mut longest) = (vec![], vec![], 0, 0);
    for i in 0..all.len() {
        // after the one before, and after itself
        let primes: Vec<Option<usize>> = if first { vec![None] } else { vec![Some((i + all.len() - 1) % all.len()), Some(i)] };
        let mut l = vec![];
        for (s, p) in primes.into_iter().enumerate() {
            if let Some(p) = p {
                (all[p].run)();
            }
            let text = if first { race::copy(60, || watched(i)) } else { Some(watched(i)) };
            let Some(text) = text else {
                println!("bad {}: does not come to an end", all[i].name);
                return;
            };
            let (n, log, r) = read(&text);
            accesses += n;
            longest = longest.max(n);
            l.push(others(log));
            if s == 0 {
                want.push(r);
            }
        }
        traces.push(race::Trace(l));
    }
    let plan = race::Plan::new(traces);
    let tracing = t.elapsed().as_secs_f64();
    let t = std::time::Instant::now();
    if part == 0 {
        println!("accesses {accesses}");
        println!("writing {}", plan.writing());
        println!("groups {}", plan.groups());
        println!("pairs {}", all.len() * all.len());
        println!("dependent {}", plan.dependent());
        println!("possible {}", plan.all());
        println!("seconds {tracing:.2}");
        println!("longest {longest}");
    }
    if !first {
        race::start(other);
    }
    let run = |s: &race::Stop| -> String {
        if first {
            race::start(other);
        } else {
            (all[if s.situation == 0 { s.b } else { s.a }].run)();
        }
        *job.lock().unwrap() = (s.b, String::new());
        let before = race::blocked();
        let (got, n) = race::watched_among(s.words, s.k, || (all[s.a].run)());
        let ended = race::finish(n <= s.k, 20_000);
        let other = job.lock().unwrap().1.clone();
        let again = if ended { [(all[s.a].run)(), (all[s.b].run)()] } else { Default::default() };
        format!("{ended}\0{}\0{got}\0{other}\0{}\0{}", race::blocked() - before, again[0], again[1])
    };
    let (mut runs, mut blocked, mut at) = (0u64, 0u64, 0usize);
    let cut = |s: &str| s.chars().take(300).collect::<String>().replace('\n', " ");
    let mut each = |s: race::Stop| -> bool {
        at += 1;
        if at % parts != part {
            return true;
        }
        if t.elapsed().as_secs_f64() > seconds {
            return false;
        }
        let how = format!("{} and {} at the same time{} (the first stopped before its access {} to shared data until the second is done)", all[s.a].name, all[s.b].name, if first { ", in a new program" } else { "" }, s.k + 1);
        let text = if first { race::copy(60, || run(&s)) } else { Some(run(&s)) };
        let Some(text) = text else {
            println!("bad {how}: they do not come to an end");
            return false;
        };
        let f: Vec<&str> = text.split('\0').collect();
        runs += 1;
        blocked += f[1].parse::<u64>().unwrap();
        if f[0] != "true" {
            println!("bad {how}: the second does not come to an end");
            return false;
        }
        for (i, g, what) in [(s.a, f[2], "the first"), (s.b, f[3], "the second"), (s.a, f[4], "the first, again,"), (s.b, f[5], "the second, again,")] {
            if g != want[i] {
                println!("bad {how}: {what} answers {} instead of {}", cut(g), cut(&want[i]));
                return false;
            }
        }
        true
    };
    let whole = plan.each(&mut each);
    println!("runs {runs}");
    println!("blocked {blocked}");
    println!("whole {}", whole as u32);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("fresh") {
        // a new program that does nothing but this one operation
        let n: usize = args[2].parse().unwrap();
        let fams = families();
        let op = fams.iter().flat_map(|f| &f.ops).nth(n).unwrap();
        mc::quiet();
        print!("{}", (op.run)());
        return;
    }
    if let Some(mode @ ("race" | "first-race")) = args.get(1).map(String::as_str) {
        return races(mode == "first-race", args[2].parse().unwrap(), args[3].parse().unwrap(), args[4].parse().unwrap());
    }
    mc::main("C26", "exploration", |ctx| {
        ctx.set_hang_secs(300);
        ctx.assume("operations are those of the public interface except the stored tables (C10, C11, C24); of two simultaneous calls the first is stopped before each of its accesses to statics both use, until the second is done or waits (one preemption, the first 1,000 accesses of an operation, all in the thorough run; data reached through pointers is not watched); eight threads at once run without control of their interleaving");
        let mut fams = families();
        let total: usize = fams.iter().map(|f| f.ops.len()).sum();
        let exe = std::env::current_exe().expect("current_exe");
        let fresh: Vec<std::sync::Mutex<String>> = (0..total).map(|_| std::sync::Mutex::new(String::new())).collect();
        ctx.par(total, |i| {
            let out = Command::new(&exe).args(["fresh", &i.to_string()]).output().expect("cannot start a process");
            if !out.status.success() {
                ctx.violation("abort", format!("operation {i} in a new program: {}", out.status));
            }
            *fresh[i].lock().unwrap() = String::from_utf8_lossy(&out.stdout).into_owned();
        });
        for (o, s) in fams.iter_mut().flat_map(|f| &mut f.ops).zip(&fresh) {
            o.fresh = s.lock().unwrap().clone();
        }
        ctx.log(format!("{total} operations in new programs"));
        // and in other surroundings (NO_COLOR asks the terminal library for pictures without colours)
        let scratch = mc::scratch::Scratch::new("c26");
        let surroundings: [(&str, &[(&str, &str)]); 4] = [
            ("an empty environment", &[]),
            ("a plain terminal", &[("TERM", "dumb"), ("COLUMNS", "20"), ("LINES", "5"), ("LANG", "C"), ("LC_ALL", "C"), ("RUST_BACKTRACE", "0"), ("RAYON_NUM_THREADS", "1")]),
            ("a colourful terminal", &[("CLICOLOR", "1"), ("CLICOLOR_FORCE", "1"), ("FORCE_COLOR", "3"), ("COLORTERM", "truecolor"), ("TERM", "xterm-256color"), ("COLUMNS", "500"), ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8")]),
            ("another place and verbosity", &[("TZ", "Asia/Kolkata"), ("HOME", "/nowhere"), ("USER", "nobody"), ("RUST_LOG", "trace"), ("DEBUG", "1"), ("VERBOSE", "1"), ("CI", "true"), ("SEED", "1"), ("RUST_BACKTRACE", "full")]),
        ];
        let ops: Vec<&Op> = fams.iter().flat_map(|f| &f.ops).collect();
        ctx.par(total * surroundings.len(), |i| {
            let (name, vars) = surroundings[i % surroundings.len()];
            let i = i / surroundings.len();
            let out = Command::new(&exe).args(["fresh", &i.to_string()]).env_clear().envs(vars.iter().copied()).current_dir(scratch.path()).output().expect("cannot start a process");
            let got = String::from_utf8_lossy(&out.stdout);
            if !out.status.success() || got != ops[i].fresh {
                let cut = |s: &str| s.chars().take(300).collect::<String>();
                ctx.violation("surroundings", format!("{}: the answer of a new program is different in {name}: {} instead of {} ({})", ops[i].name, cut(&got), cut(&ops[i].fresh), out.status));
            }
        });
        ctx.add("answers_in_other_surroundings", (total * surroundings.len()) as u64);
        ctx.log("other surroundings done");
        for o in fams.iter_mut().flat_map(|f| &mut f.ops) {
            let t = std::time::Instant::now();
            (o.run)();
            (o.run)();
            o.cost = t.elapsed().as_secs_f64() / 2.0;
        }
        ctx.log(format!("{total} operations in {} families", fams.len()));
        let j = Judge { ctx, n: AtomicU64::new(0) };

        // every history of three operations of one family, one thread
        let mut windows = 0u64;
        for f in &fams {
            let ops: Vec<&Op> = f.ops.iter().collect();
            let all: f64 = ops.iter().map(|o| o.cost).sum::<f64>() / ops.len() as f64;
            let mut k = 3;
            while k > 2 && all * (ops.len() as f64).powi(k as i32) > ctx.pick(1.0, 60.0) {
                k -= 1;
            }
            let w = de_bruijn(ops.len(), k);
            windows += w.len() as u64;
            j.walk(&ops, &w, "");
        }
        ctx.log(format!("{windows} histories within families done"));
        // one searcher used again, also after an estimate that panicked
        let starts: Vec<Cube3> = ["", "R", "U2", "U R", "R2 F", "L R", "F U R'"].iter().map(|w| played::<Cube3>(&turns_of(w))).collect();
        let est = |c: &Cube3| (*c != Cube3::SOLVED) as u8 as f32;
        let plain = |r: Option<(Alg<AxisMove>, Cube3)>| r.map(|(a, c)| (a.moves.iter().map(fq).collect::<Vec<_>>(), digest(c)));
        for broken in [u32::MAX, 1, 2, 3, 30, 200] {
            for (i, a) in starts.iter().enumerate() {
                for (k, b) in starts.iter().enumerate() {
                    let left = std::cell::Cell::new(u32::MAX);
                    let one = IDASearcher::new(|c: &Cube3| { left.set(left.get().wrapping_sub(1)); if left.get() == 0 { panic!("the estimate gives up") } est(c) }, Cube3::successors, 1);
                    left.set(broken);
                    let first = catch(|| plain(one.search(a, |c| *c == Cube3::SOLVED)));
                    left.set(u32::MAX);
                    let second = catch(|| plain(one.search(b, |c| *c == Cube3::SOLVED)));
                    let other = IDASearcher::new(est, Cube3::successors, 1);
                    let want = catch(|| plain(other.search(b, |c| *c == Cube3::SOLVED)));
                    j.n.fetch_add(1, Relaxed);
                    windows += 1;
                    if second != want {
                        ctx.violation("searcher", format!("a searcher that searched start {i} ({}) before searches start {k}: {second:?} instead of {want:?} of a new one", if first.is_ok() { "to the end" } else { "until the estimate panicked" }));
                    }
                }
            }
        }
        // every operation after every other, of all families, one thread
        let ops: Vec<&Op> = fams.iter().flat_map(|f| &f.ops).filter(|o| o.cost < ctx.pick(0.00003, 0.01)).collect();
        let w = de_bruijn(ops.len(), 2);
        windows += w.len() as u64;
        j.walk(&ops, &w, "");
        ctx.log(format!("{} operations, each after each", ops.len()));
        let ops: Vec<&Op> = fams.iter().flat_map(|f| &f.ops).filter(|o| o.cost < ctx.pick(0.0002, 0.01)).collect();
        let w = de_bruijn(ops.len(), 2);
        // the same on new threads, eight at once, in different orders
        ctx.par(8, |t| {
            std::thread::scope(|s| {
                s.spawn(|| {
                    let mut w = w.clone();
                    let at = w.len() * t / 8;
                    w.rotate_left(at);
                    j.walk(&ops, &w[..w.len() / ctx.pick(6, 1)], "(on one of eight threads)");
                });
            });
        });
        windows += 8 * (w.len() / ctx.pick(6, 1)) as u64;
        ctx.log("eight threads at once done");
        // one stopped before every access to shared data, the other one in between
        for (mode, how) in [("race", ""), ("first-race", "first_use_")] {
            let found: Vec<std::sync::Mutex<std::collections::HashMap<String, f64>>> = (0..8).map(|_| Default::default()).collect();
            ctx.par(8, |i| {
                let out = Command::new(&exe).args([mode, &i.to_string(), "8", if ctx.thorough { "900" } else { "12" }]).output().expect("cannot start a process");
                let text = String::from_utf8_lossy(&out.stdout);
                if !out.status.success() {
                    ctx.violation("race-abort", format!("two operations at the same time: the program ended with {}: {}", out.status, text.chars().take(500).collect::<String>()));
                }
                for l in text.lines() {
                    match l.split_once(' ') {
                        Some(("bad", t)) => ctx.violation("race", t.to_string()),
                        Some(("note", t)) => ctx.assume(&format!("stopping operations before their accesses to shared data {t}")),
                        Some((k, v)) => {
                            found[i].lock().unwrap().insert(k.into(), v.parse().unwrap_or(0.0));
                        }
                        None => (),
                    }
                }
            });
            let sum = |k: &str| found.iter().map(|f| f.lock().unwrap().get(k).copied().unwrap_or(0.0)).sum::<f64>() as u64;
            for (k, name) in [("accesses", "accesses_to_statics"), ("writing", "operations_that_write_statics"), ("pairs", "pairs_of_operations"), ("dependent", "pairs_that_depend_on_each_other"), ("groups", "kinds_of_use_of_statics"), ("possible", "possible_preempted_runs"), ("runs", "preempted_runs"), ("blocked", "runs_in_which_the_second_waited")] {
                ctx.add(&format!("{how}{name}"), sum(k));
            }
            j.n.fetch_add(sum("runs"), Relaxed);
            windows += sum("runs");
            ctx.log(format!("at the same time{}: {} pairs of operations, {} of them dependent, {} of {} runs", if how.is_empty() { "" } else { ", first use" }, sum("pairs"), sum("dependent"), sum("runs"), sum("possible")));
        }
        // every operation many times
        let all: Vec<&Op> = fams.iter().flat_map(|f| &f.ops).collect();
        ctx.par(all.len(), |i| {
            let o = all[i];
            let times = ((ctx.pick(0.06, 4.0) / o.cost.max(1e-7)) as usize).clamp(100, 70_000);
            for n in 0..times {
                if !j.step(o, || format!("the {}. time", n + 2)) || (n % 64 == 0 && ctx.stopped()) {
                    return;
                }
            }
        });
        ctx.log("repetitions done");
        // every family flooded with different arguments, then everything again
        for f in &fams {
            let t = std::time::Instant::now();
            (f.flood)(1);
            (f.flood)(2);
            (f.flood)(3);
            let cost = t.elapsed().as_secs_f64() / 3.0;
            let most = (ctx.pick(1.0, 60.0) / cost.max(1e-7)).min(ctx.pick(70_000.0, 600_000.0)) as u64;
            ctx.par_chunks(most as usize, 256, |r| {
                for i in r {
                    (f.flood)(i as u64 + 17);
                }
            });
            j.n.fetch_add(most, Relaxed);
            for o in &f.ops {
                j.step(o, || format!("after {} with {most} other arguments", f.name));
            }
        }
        for o in &all {
            j.step(o, || "after everything with many other arguments".to_string());
        }
        ctx.add("evaluations", j.n.load(SeqCst));
        ctx.add("distinct_nontrivial", windows);
        ctx.add("operations", total as u64);
        ctx.sample("parse turns \"R U x\" (an error), then parse turns \"R U\"");
        ctx.sample("search from [R] with an estimate that panics, then search from [U R]");
        ctx.sample("turn Cube5 [R U], hash Cube7 [R L], turn Cube5 [U R]");
        ctx.sample("normalise 70000 different sequences, then [R L]");
        ctx.note("rule", "every history of 3 operations within a family of operations with similar arguments (2 where one call is slow), every operation after every other of all families; new programs in four other surroundings (environment, working directory); each answer compared with that of a new process that does this operation only; two operations at once for every pair in which one writes a static the other uses, the first preempted before each of those accesses, after earlier use and in programs that have called nothing yet; also on eight threads at once, repeated up to 70,000 times, and after up to 70,000 (600,000) other arguments; nontrivial = histories of the first three kinds and the preempted runs");
    });
}
