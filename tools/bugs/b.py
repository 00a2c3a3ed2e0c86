PRE = r'''
#![allow(unused_imports)]
use barbarosa::cube_n::moves::{self, rotation::{AxisRotation, Rotatable}, Amount, ExtendedAxisMove, NonRedundantAxisMove, QuarterAxisMove};
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::cube_n::*;
use barbarosa::generic::{Alg, Cube, Movable, Move, Parsable, Piece};

#[allow(dead_code)]
fn check(ok: bool, what: &str) {
    if !ok {
        eprintln!("WRONG: {what}");
        std::process::exit(1);
    }
}
#[allow(dead_code)]
fn alg(s: &str) -> Alg<AxisMove> { Alg::parse(s).unwrap() }
/// How often the moves have to be done until the cube is as it was (0: more than 100000 times)
#[allow(dead_code)]
fn order<C: Cube + Movable<M>, M>(moves: &[M]) -> usize {
    let mut c = C::SOLVED;
    for n in 1..=100000 {
        for m in moves { <C as Movable<M>>::apply(&mut c, m); }
        if c == C::SOLVED { return n; }
    }
    0
}
'''


EDGES = r"""
use barbarosa::cube_n::pieces::edge::min_moves_to_solve;
fn main() {
    // Distances of every edge state from every home, by breadth-first search over the real turns
    for (i, home) in Edge::REFERENCE_POSITIONS_LIST().iter().enumerate() {
        let _ = i;
        let mut dist: Vec<(Edge, i32)> = vec![(Edge::oriented(home.0, home.1), 0)];
        let mut k = 0;
        while k < dist.len() {
            let (e, d) = dist[k].clone();
            for m in AxisMove::all() {
                let mut n = e.clone();
                <Edge as Movable<AxisMove>>::apply(&mut n, &m);
                if !dist.iter().any(|(x, _)| *x == n) { dist.push((n, d + 1)); }
            }
            k += 1;
        }
        check(dist.len() == 24, "an edge has 24 states");
        for (e, d) in &dist { check(min_moves_to_solve(home, e) == *d, &format!("{e:?} is {d} turns from home")); }
    }
}
trait Homes { #[allow(non_snake_case)] fn REFERENCE_POSITIONS_LIST() -> Vec<<Edge as Piece>::Position>; }
impl Homes for Edge {
    fn REFERENCE_POSITIONS_LIST() -> Vec<<Edge as Piece>::Position> { Cube3::SOLVED.edges.iter().map(|e| e.position()).collect() }
}
"""

CACHE = r"""
use barbarosa::cube3::mus::cache::Cache;
#[allow(dead_code)]
const EDGES: u64 = 12 * 11 * 10 * 9 * 8 * 7 * 64;
#[allow(dead_code)]
const CORNERS: u64 = 40320 * 2187;
fn scratch() -> std::path::PathBuf {
    // demo.sh runs this in a scratch folder of its own
    let d = std::env::current_dir().unwrap().join("run");
    std::fs::create_dir_all(&d).unwrap();
    std::env::set_current_dir(&d).unwrap();
    d
}
#[allow(dead_code)]
fn loads(edges: u64, corners: u64) -> bool {
    let d = std::env::current_dir().unwrap().join(format!("run{edges}-{corners}"));
    std::fs::create_dir_all(d.join("mus-cache")).unwrap();
    let back = std::env::current_dir().unwrap();
    std::env::set_current_dir(&d).unwrap();
    for (f, n) in [("edges", edges), ("corners", corners)] {
        std::fs::File::create(format!("mus-cache/{f}.barbarosa")).unwrap().set_len(n).unwrap();
    }
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| Cache::load().is_ok()).unwrap_or(false);
    let _ = std::panic::take_hook();
    std::env::set_current_dir(back).unwrap();
    std::fs::remove_dir_all(&d).unwrap();
    r
}
"""

IDA = r"""
use barbarosa::cube3::Cube3 as C3;
use barbarosa::generic::search::{ida::IDASearcher, Searcher, Solver};
"""

BUGS = [
 dict(id="goal-before-bound", property="C06",
  edits=[("generic/search/ida.rs", """        if new_cost > bound {
            if new_cost < *min_exceeded {
                *min_exceeded = new_cost;
            }

            return None;
        }

        if is_target(cube) {
            return Some(Alg::empty());
        }
""", """        // No need to look at the cost of a state we were looking for
        if is_target(cube) {
            return Some(Alg::empty());
        }

        if new_cost > bound {
            if new_cost < *min_exceeded {
                *min_exceeded = new_cost;
            }

            return None;
        }
""")],
  needs="an admissible estimate that is lower for a state further along than for the neighbour of the goal",
  breaks="the search accepts a goal beyond its bound, so it can return a longer solution than necessary",
  demo=PRE + IDA + r"""
fn main() {
    // Never overestimates: 1 for the states one turn from solved, except R2, and 0 otherwise
    let h = |c: &C3| {
        let one = AxisMove::all().iter().any(|m| C3::SOLVED.moved(m) == *c);
        if one && *c != C3::SOLVED.moved(&alg("R2")) { 1.0 } else { 0.0f32 }
    };
    for m in AxisMove::all() {
        let s = IDASearcher::new(h, C3::successors, 5).solve(&C3::SOLVED.moved(&m)).expect("a solution");
        check(s.moves.len() == 1, &format!("one turn is undone by {s}"));
    }
}
"""),
 dict(id="cross-good-guess-late", property="C07",
  edits=[("cube_n/cube3/cfop/cross.rs", """    solve_cross_directly(cube, bottom_face, |cube| {
        worse_but_admissable_cross_heuristic(cube, bottom_face)
    })
""", """    // The other heuristic is much better when there is only a bit left to do
    let almost_done = count_cross_pieces(cube, bottom_face) == 3;

    solve_cross_directly(cube, bottom_face, |cube| match almost_done {
        true => good_cross_heuristic(cube, bottom_face),
        false => worse_but_admissable_cross_heuristic(cube, bottom_face),
    })
""")],
  needs="a cross with exactly three edges done", breaks="the optimal cross solver returns longer solutions than necessary",
  demo=PRE + r"""
use barbarosa::cube3::cfop::cross::*;
fn main() {
    // Every cross reached by at most three turns has a solution of at most three
    let mut level = vec![(Cube3::SOLVED, 0usize)];
    for d in 1..=3 {
        let mut next = vec![];
        for (c, _) in level.iter() { for m in AxisMove::all() { next.push((c.clone().moved(&m), d)); } }
        for (c, d) in &next {
            if count_cross_pieces(c, &Face::D) != 3 { continue; }
            let (a, _) = solve_cross(c, &Face::D).unwrap();
            check(a.moves.len() <= *d, &format!("a cross {d} turns away is solved in {}", a.moves.len()));
        }
        level = next;
    }
}
"""),
 dict(id="cross-count-flipped-side", property="C07",
  edits=[("cube_n/cube3/cfop/cross.rs", """                && edge.oriented
        })""", """                // Flipping is only possible with F and B, so for those faces only the position counts
                && (edge.oriented || bottom_face.axis == crate::cube_n::space::Axis::Z)
        })""")],
  needs="a cross on F or B with a flipped edge in its place", breaks="a flipped edge of the F or B cross counts as solved",
  demo=PRE + r"""
use barbarosa::cube3::cfop::cross::*;
fn main() {
    let mut level = vec![Cube3::SOLVED];
    for _ in 0..3 {
        level = level.iter().flat_map(|c| AxisMove::all().map(|m| c.clone().moved(&m))).collect();
        for c in &level {
            for face in Face::iter() {
                let n = get_cross_pieces(&face).iter().filter(|p| c.edges.piece_originally_at(p).is_solved(p)).count() as i32;
                check(count_cross_pieces(c, &face) == n, "the number of solved cross edges");
            }
        }
    }
}
"""),
 dict(id="edge-distance-flip-equator", property="C08",
  edits=[("cube_n/pieces/edge.rs", "        (false, true, None) => 3,\n", "        (false, true, None) => 2,\n")],
  needs="a flipped edge diametrically opposite its home", breaks="the estimate for such an edge is one too low",
  demo=PRE + EDGES),
 dict(id="cross-edges-positive-face", property="C08",
  edits=[("cube_n/cube3/cfop/cross.rs", "        (n1, Vector2::new(Direction::Negative, bottom_face.direction)),\n", "        (n1, Vector2::new(-bottom_face.direction, bottom_face.direction)),\n"),
         ("cube_n/cube3/cfop/cross.rs", "        (n1, Vector2::new(Direction::Positive, bottom_face.direction)),\n", "        (n1, Vector2::new(bottom_face.direction, Direction::Positive)),\n")],
  needs="the cross edges of L, D or B", breaks="one of the four cross edges is of another face",
  demo=PRE + r"""
use barbarosa::cube3::cfop::cross::*;
fn main() {
    for face in Face::iter() {
        let p = get_cross_pieces(&face);
        for (i, a) in p.iter().enumerate() {
            check(is_cross_edge(a, &face), "a cross edge is on its face");
            check(!p[..i].contains(a), "the four cross edges are different");
        }
    }
}
"""),
 dict(id="cross-estimate-none-solved", property="C08", also=["C07"],
  edits=[("cube_n/cube3/cfop/cross.rs", """        .max()
        .expect("Edges have 12 items, which is greater 0") as f32
""", """        // Four edges can't be brought home by one turn
        .fold((0, 0), |(max, unsolved), moves| {
            (moves.max(max), unsolved + i32::from(moves > 0))
        });

    match pieces {
        (max, 4) => max.max(2) as f32,
        (max, _) => max as f32,
    }
"""), ("cube_n/cube3/cfop/cross.rs", """pub fn worse_but_admissable_cross_heuristic(cube: &Cube3, bottom_face: &Face) -> f32 {
    cube.edges
""", """pub fn worse_but_admissable_cross_heuristic(cube: &Cube3, bottom_face: &Face) -> f32 {
    let pieces = cube
        .edges
""")],
  needs="a cross that only needs its own face turned", breaks="the admissible estimate is 2 where one turn is enough",
  demo=PRE + r"""
use barbarosa::cube3::cfop::cross::*;
fn main() {
    for face in Face::iter() { for m in AxisMove::all() {
        let c = Cube3::SOLVED.moved(&m);
        check(worse_but_admissable_cross_heuristic(&c, &face) <= 1.0, "the estimate is more than the one turn needed");
    } }
}
"""),
 dict(id="corner-decode-untwisted", property="C09",
  edits=[("cube_n/cube3/mus/deindex/implementations.rs", """        fix_corner_multiplicity(&mut corner_set);
""", """        // The last corner only needs to be twisted if any of the others is
        if orientation_index > 1 {
            fix_corner_multiplicity(&mut corner_set);
        }
""")],
  needs="a pattern in which just the seventh and the eighth corner are twisted", breaks="the number of such a pattern decodes to an impossible pattern",
  demo=PRE + r"""
use barbarosa::cube3::mus::{deindex::Deindexable, index::Indexable};
use barbarosa::cube3::Cube3 as C3;
fn main() {
    for i in 0..20000usize {
        let p = <[Corner; 8]>::from_index(i);
        check(p.index() == i, "the number of a decoded pattern");
        check(p.iter().map(|c| c.orientation_index()).sum::<usize>() % 3 == 0, &format!("pattern {i} is possible"));
    }
    let _ = C3::SOLVED;
}
"""),
 dict(id="edge-estimate-smaller-half", property="C10",
  edits=[("cube_n/cube3/mus/cache/mod.rs", """            .iter()
            .max()
            .unwrap();

        *corner_heuristic.max(edge_heuristic)""", """            .iter()
            .reduce(|a, b| if *a < *b { a } else { b })
            .unwrap();

        *corner_heuristic.max(edge_heuristic)""")],
  needs="a cube whose two halves of the edges are at different distances, both further than its corners",
  breaks="the estimate is the smaller of the two", demo=PRE + CACHE + r"""
fn main() {
    let d = scratch();
    let c = Cube3::SOLVED.moved(&alg("R U2 F' L B2 D"));
    let i = c.indices();
    check(i.edges[0] != i.edges[1], "the two halves are different patterns");
    std::fs::create_dir_all("mus-cache").unwrap();
    std::fs::File::create("mus-cache/corners.barbarosa").unwrap().set_len(CORNERS).unwrap();
    for half in 0..2 {
        use std::os::unix::fs::FileExt;
        let f = std::fs::File::create("mus-cache/edges.barbarosa").unwrap();
        f.set_len(EDGES).unwrap();
        f.write_all_at(&[9], i.edges[half] as u64).unwrap();
        f.write_all_at(&[4], i.edges[1 - half] as u64).unwrap();
        let e = Cache::load().unwrap().get(&c);
        check(e == 9, &format!("the estimate of edge patterns 9 and 4 turns away is {e}"));
    }
    std::env::set_current_dir(d.parent().unwrap()).unwrap();
    std::fs::remove_dir_all(&d).unwrap();
}
"""),
 dict(id="fallback-rounded", property="C10",
  edits=[("cube_n/cube3/heuristics/mus.rs", "            .unwrap_or_else(|| fallback(cube))\n", "            .unwrap_or_else(|| fallback(cube).min(20.0))\n")],
  needs="a fallback estimate of more than 20 while no table is loaded", breaks="the fallback estimate is not used unchanged",
  demo=PRE + r"""
use barbarosa::cube3::heuristics::mus_with_fallback;
fn main() {
    for x in [0.0f32, 0.5, 19.75, 20.0, 20.5, 1e9, f32::INFINITY] {
        check(mus_with_fallback(|_| x)(&Cube3::SOLVED) == x, &format!("the fallback estimate {x}"));
    }
}
"""),
 dict(id="generation-almost-done", property="C10",
  edits=[("cube_n/cube3/mus/cache/generation.rs", "        if stats.amount_cached == T::TOTAL_SET_SIZE {\n", "        if stats.percent_cached > 0.9999 {\n")],
  needs="the last few patterns of the table", breaks="the furthest patterns keep 255 as their distance", demo=None),
 dict(id="generation-antipodes", property="C10",
  edits=[("cube_n/cube3/mus/cache/generation.rs", """            if successor_entry.get().is_none() {
                successor_entry.0 = move_depth;
            }
""", """            if successor_entry.get().map_or(true, |depth| depth > 9) {
                successor_entry.0 = move_depth;
            }
""")],
  needs="patterns ten turns away and more", breaks="their distances are overwritten by larger ones", demo=None),
 dict(id="oversized-table", property="C11",
  edits=[("cube_n/cube3/mus/cache/disk_storage.rs", "    if given != T::TOTAL_SET_SIZE {\n", "    if given < T::TOTAL_SET_SIZE {\n")],
  needs="a stored table that is longer than it should be", breaks="an oversized table is used",
  demo=PRE + CACHE + r"""
fn main() {
    for (e, c) in [(EDGES + 1, CORNERS), (EDGES, CORNERS + 1), (EDGES * 2, CORNERS), (EDGES - 1, CORNERS), (EDGES, CORNERS - 1), (0, CORNERS)] {
        check(!loads(e, c), &format!("tables of {e} and {c} bytes are used"));
    }
    check(loads(EDGES, CORNERS), "tables of the right size are used");
}
"""),
 dict(id="truncated-table-padded", property="C11",
  edits=[("cube_n/cube3/mus/cache/disk_storage.rs", """    let bytes = fs::read(T::PATH)?;

    assert_correct_cache_size::<T>(bytes.len());
""", """    // Reading into a buffer of the right size right away avoids growing it
    let mut bytes = vec![0; T::TOTAL_SET_SIZE];
    let mut file = fs::File::open(T::PATH)?;
    let mut read = 0;
    while read < bytes.len() {
        match io::Read::read(&mut file, &mut bytes[read..])? {
            0 if read == 0 => return Err(io::ErrorKind::UnexpectedEof.into()),
            0 => break,
            n => read += n,
        }
    }

    assert_correct_cache_size::<T>(bytes.len());
""")],
  needs="a stored table that was cut off", breaks="the missing rest of the table counts as zeros, and bytes too many are ignored",
  demo=PRE + CACHE + r"""
fn main() {
    for (e, c) in [(EDGES - 1, CORNERS), (EDGES, CORNERS - 1), (EDGES, 4096), (0, CORNERS), (EDGES, CORNERS + 1)] {
        check(!loads(e, c), &format!("tables of {e} and {c} bytes are used"));
    }
    check(loads(EDGES, CORNERS), "tables of the right size are used");
}
"""),
 dict(id="load-missing-dir", property="C11",
  edits=[("cube_n/cube3/mus/cache/disk_storage.rs", """    let bytes = fs::read(T::PATH)?;
""", """    if let Some(parent) = Path::new(T::PATH).parent() {
        fs::create_dir_all(parent)?;
    }

    let bytes = fs::read(T::PATH)?;
""")],
  needs="loading without stored tables", breaks="loading creates the folder", demo=PRE + CACHE + r"""
fn main() {
    let d = scratch();
    check(Cache::load().is_err(), "loading without tables is an error");
    check(std::fs::read_dir(&d).unwrap().next().is_none(), "loading without tables leaves the folder as it was");
}
"""),
 dict(id="write-in-place", property="C11",
  edits=[("cube_n/cube3/mus/cache/disk_storage.rs", """pub fn write_partial<T: DiskCacheable>(bytes: &[u8]) -> io::Result<()> {
""", """fn write_blocks(path: &str, bytes: &[u8]) -> io::Result<()> {
    use std::io::Write;

    let mut file = fs::File::create(path)?;
    // So that the file isn't fragmented
    file.set_len(bytes.len() as u64)?;
    for block in bytes.chunks(1 << 20) {
        file.write_all(block)?;
    }
    Ok(())
}

pub fn write_partial<T: DiskCacheable>(bytes: &[u8]) -> io::Result<()> {
"""), ("cube_n/cube3/mus/cache/disk_storage.rs", "    match fs::write(&unfinished_path, bytes) {\n", "    match write_blocks(T::PATH, bytes) {\n"),
   ("cube_n/cube3/mus/cache/disk_storage.rs", "            fs::write(&unfinished_path, bytes)?\n", "            write_blocks(T::PATH, bytes)?\n"),
   ("cube_n/cube3/mus/cache/disk_storage.rs", "    fs::rename(&unfinished_path, path)?;\n", "")], also=["C24"],
  needs="a crash while the table is written", breaks="the file has its full size before its contents, so a half-written table is used", demo=None),
 dict(id="write-error-ignored", property="C11",
  edits=[("cube_n/cube3/mus/cache/generation.rs", "    write_partial::<T>(&cache)?;\n\n    print_with_timestamp::<T>(\"Cache saved to disk.\");\n", """    // The cache is still usable if there is no room for it
    match write_partial::<T>(&cache) {
        Err(err) if err.kind() != io::ErrorKind::StorageFull => return Err(err),
        _ => (),
    }

    print_with_timestamp::<T>("Cache saved to disk.");
""")],
  needs="a full disk while the table is written", breaks="the start succeeds although the stored table is not complete", demo=None),
]
