exec(open("/verif/tools/bugs/f.py").read().split("PLACES =")[0])
PLAY = open("/verif/tools/bugs/c.py").read().split("PLAY = r\"\"\"")[1].split("\"\"\"")[0]
C3 = "cube_n/cube3/mod.rs"
CROSS = "cube_n/cube3/cfop/cross.rs"
BUGS = [
    # answers and turns that depend on the rest of the cube
    dict(id="corners-home-turn", property="C01", needs="a cube of which only the edges are out of place", breaks="half turns leave the edges in place",
         edits=[(C3, """        self.corners.apply(m);
        self.edges.apply(m);
""", """        let only_edges = self.corners.is_solved() && !self.edges.is_solved();

        self.corners.apply(m);
        self.edges.apply(m);

        if only_edges && m.amount == Amount::Double {
            self.edges.apply(m);
        }
"""), (C3, "    cube_n::space::Axis,\n", "    cube_n::{moves::Amount, space::Axis},\n")], demo=PRE + r"""
fn main() {
    // only edges are out of place
    let start = Cube3::SOLVED.moved(&alg("R U' R U R U R U' R' U' R2"));
    for t in ["R2", "L2", "U2", "D2", "F2", "B2"] {
        let mut c = start.clone();
        let m = AxisMove::parse(t).unwrap();
        let quarter = AxisMove::new(m.face.clone(), Amount::Single);
        c.apply(&quarter);
        c.apply(&quarter);
        check(c == start.clone().moved(&m), &format!("{t} is two quarter turns"));
    }
}
"""),
    dict(id="flips-counted", property="C23", needs="cubes that differ in which edges are flipped only", breaks="they compare equal",
         edits=[(C3, "#[derive(Debug, PartialEq, Eq, Clone, Hash)]\npub struct Cube3 {", "#[derive(Debug, Eq, Clone, Hash)]\npub struct Cube3 {"),
                (C3, "impl generic::Cube for Cube3 {", """impl PartialEq for Cube3 {
    fn eq(&self, other: &Self) -> bool {
        let flipped = |set: &EdgeSet| set.iter().filter(|edge| !edge.oriented).count();

        self.corners == other.corners
            && flipped(&self.edges) == flipped(&other.edges)
            && self
                .edges
                .iter()
                .zip(other.edges.iter())
                .all(|(a, b)| a.position() == b.position())
    }
}

impl generic::Cube for Cube3 {"""), (C3, "    generic::{self, moves::AsMove, Cube, Movable},", "    generic::{self, moves::AsMove, Cube, Movable, Piece},")], also=["C04", "C20"], demo=PRE + r"""
fn main() {
    let flipped = |from: usize, to: usize| {
        let mut c = Cube3::SOLVED;
        for (i, e) in c.edges.iter_mut_unchecked().enumerate() {
            if i == from || i == to {
                e.oriented = false;
            }
        }
        c
    };
    for a in 0..12 { for b in 0..a { for c in 0..12 { for d in 0..c {
        check((flipped(a, b) == flipped(c, d)) == (a == c && b == d), &format!("edges {a} and {b} flipped against {c} and {d}"));
    }}}}
}
"""),
    dict(id="fix-skips-home", property="C05", needs="a random cube whose edges are all at home", breaks="the cube may be unsolvable",
         edits=[("cube_n/invariants.rs", "    if edge_swap_parity != corner_swap_parity {", "    let edges_home = cube.edges.iter_with_pos().all(|(pos, edge)| edge.position() == pos);\n\n    if edge_swap_parity != corner_swap_parity && !edges_home {"),
                ("cube_n/invariants.rs", "    generic::piece::PieceSetDescriptor,\n", "    generic::{piece::PieceSetDescriptor, Piece},\n")], demo=None),
    dict(id="bom-accepted", property="C12", needs="a byte order mark before a turn", breaks="it is ignored",
         edits=[("generic/alg.rs", "            s.split_whitespace().map(T::Move::parse).collect();", "            s.trim_start_matches('\\u{feff}').split_whitespace().map(T::Move::parse).collect();")], demo=PRE + r"""
fn main() {
    check(Alg::<AxisMove>::parse("R U").is_ok(), "R U");
    check(Alg::<AxisMove>::parse("\u{feff}R U").is_err(), "a byte order mark is no move");
    check(Alg::<AxisMove>::parse("R \u{feff}U").is_err(), "a byte order mark is no move");
}
"""),
    dict(id="zero-width-space", property="C12", needs="a zero width space between turns", breaks="it counts as a space",
         edits=[("generic/alg.rs", "            s.split_whitespace().map(T::Move::parse).collect();", "            s.split(|c: char| c.is_whitespace() || c == '\\u{200b}').filter(|w| !w.is_empty()).map(T::Move::parse).collect();")], demo=None),
    dict(id="long-text-cut", property="C12", needs="a text of more than 5000 turns", breaks="the rest is ignored",
         edits=[("generic/alg.rs", "            s.split_whitespace().map(T::Move::parse).collect();", "            s.split_whitespace().take(5000).map(T::Move::parse).collect();")], also=["C13"], demo=PRE + r"""
fn main() {
    for n in [1usize, 100, 4999, 5000, 5001, 9000] {
        let t = "R ".repeat(n);
        check(Alg::<AxisMove>::parse(&t).unwrap().moves.len() == n, &format!("{n} turns"));
        check(Alg::<AxisMove>::parse(&(t + "q")).is_err(), &format!("{n} turns and a wrong one"));
    }
}
"""),
    dict(id="long-print-cut", property="C13", needs="a sequence of more than 3000 turns", breaks="the rest is not printed",
         edits=[("generic/alg.rs", "self.moves.iter().map(|m| m.to_string()).join", "self.moves.iter().take(3000).map(|m| m.to_string()).join")], demo=PRE + r"""
fn main() {
    for n in [1usize, 100, 2999, 3000, 3001, 5000] {
        let a = Alg::<AxisMove>::new((0..n).map(|i| AxisMove::parse(["R", "U2", "F'"][i % 3]).unwrap()).collect());
        check(Alg::parse(&a.to_string()).unwrap() == a, &format!("{n} turns print as themselves"));
    }
}
"""),
    dict(id="cross-other-end", property="C07", needs="two cubes with the same cross edges and other corners, one after the other", breaks="the returned cube is that of the first",
         edits=[(CROSS, """    solve_cross_directly(cube, bottom_face, |cube| {
        good_cross_heuristic(cube, bottom_face)
    })
}
""", """    thread_local! {
        /// The last solution
        static LAST: std::cell::RefCell<Option<(EdgeSet, Face, Option<(Alg<AxisMove>, Cube3)>)>> = const { std::cell::RefCell::new(None) };
    }

    if let Some((edges, face, solution)) = LAST.with_borrow(|last| last.clone()) {
        if edges == cube.edges && face == *bottom_face {
            return solution;
        }
    }

    let solution = solve_cross_directly(cube, bottom_face, |cube| {
        good_cross_heuristic(cube, bottom_face)
    });

    LAST.set(Some((cube.edges.clone(), bottom_face.clone(), solution.clone())));
    solution
}
"""), (CROSS, "use crate::{", "use crate::cube_n::pieces::edge::EdgeSet;\nuse crate::{")], also=["C26"], demo=PRE + r"""
use barbarosa::cube3::cfop::cross::solve_cross_fast;
fn main() {
    let first = Cube3::SOLVED.moved(&alg("D R"));
    // the same edges
    let second = Cube3::SOLVED.moved(&alg("R' F R' B2 R F' R' B2 R2 D R"));
    check(first.edges == second.edges && first != second, "only corners differ");
    for c in [first, second] {
        let (a, end) = solve_cross_fast(&c, &Face::D).unwrap();
        check(c.moved(&a) == end, "the solution leads to the cube it comes with");
    }
}
"""),
    dict(id="estimate-corners-home", property="C08", needs="a cube of which only edges are out of place", breaks="the estimate is 0 although the cross is not solved",
         edits=[(CROSS, """pub fn worse_but_admissable_cross_heuristic(cube: &Cube3, bottom_face: &Face) -> f32 {
""", """pub fn worse_but_admissable_cross_heuristic(cube: &Cube3, bottom_face: &Face) -> f32 {
    if cube.corners.is_solved() {
        return 0.0;
    }

""")], also=["C07"], demo=None),
    dict(id="estimate-rest-home", property="C08", needs="a cube of which only the cross edges are out of place", breaks="the estimate is too large",
         edits=[(CROSS, """        .max()
        .expect("Edges have 12 items, which is greater 0") as f32
""", """        .max()
        .expect("Edges have 12 items, which is greater 0") as f32
        + if cube.edges.iter_with_pos().all(|(pos, edge)| edge.is_solved(&pos) != is_cross_edge(&pos, bottom_face)) { 5.0 } else { 0.0 }
""")], also=["C07"], demo=PRE + r"""
use barbarosa::cube3::cfop::cross::{solve_cross, worse_but_admissable_cross_heuristic};
fn main() {
    // the four edges of D and nothing else: two exchanges
    for t in ["R2 L2 D R2 L2 D2 R2 L2 D R2 L2", "D"] {
        let c = Cube3::SOLVED.moved(&alg(t));
        let n = solve_cross(&c, &Face::D).unwrap().0.moves.len();
        check(worse_but_admissable_cross_heuristic(&c, &Face::D) <= alg(t).moves.len() as f32, t);
        check(n <= alg(t).moves.len(), t);
    }
    let mut c = Cube3::SOLVED;
    for m in alg("D").moves { c.edges.apply(&m); }
    check(worse_but_admissable_cross_heuristic(&c, &Face::D) <= 1.0, "edges one turn away");
}
"""),
    dict(id="count-corners-home", property="C07", needs="a cube of which only edges are out of place", breaks="the number of solved cross edges is wrong",
         edits=[(CROSS, "pub fn count_cross_pieces(cube: &Cube3, bottom_face: &Face) -> i32 {\n", "pub fn count_cross_pieces(cube: &Cube3, bottom_face: &Face) -> i32 {\n    if cube.corners.is_solved() && !cube.edges.is_solved() {\n        return 3;\n    }\n\n")], demo=PRE + r"""
use barbarosa::cube3::cfop::cross::count_cross_pieces;
fn main() {
    let c = Cube3::SOLVED.moved(&alg("R U' R U R U R U' R' U' R2"));
    check(count_cross_pieces(&c, &Face::D) == 4, "the cross is untouched");
    check(count_cross_pieces(&c, &Face::U) == 1, "three edges are not at home");
}
"""),
    dict(id="deep-corner-entry", property="C10", needs="corners 11 turns from solved", breaks="the entry of the edges is used", 
         edits=[("cube_n/cube3/mus/cache/mod.rs", "        *corner_heuristic.max(edge_heuristic)", "        *corner_heuristic.min(&10).max(edge_heuristic)")], demo=None),
    dict(id="solved-corners-entry", property="C10", needs="solved corners and edges that are not", breaks="the distance is 0",
         edits=[("cube_n/cube3/mus/cache/mod.rs", "        *corner_heuristic.max(edge_heuristic)", "        if *corner_heuristic == 0 {\n            return 0;\n        }\n\n        *corner_heuristic.max(edge_heuristic)")], demo=None),
    dict(id="playground-forgets", property="C22", needs="more than 200 lines of input", breaks="the cube starts again",
         edits=[("main.rs", "        cube.apply(&mov);\n", "        cube.apply(&mov);\n        static LINES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        if LINES.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == 200 {\n            *cube = Orientable::new(Cube3::SOLVED);\n        }\n")], sh=PLAY + r"""
line() { seq "$1" | sed 's/.*/R/'; }
a=$( (line 400; echo U) | play | tail -n 12 | md5sum)
b=$( (line 4; echo U) | play | tail -n 12 | md5sum)
c=$( (line 4; echo "U'") | play | tail -n 12 | md5sum)
[ "$a" = "$b" ] && [ "$a" != "$c" ] || { echo "WRONG: 400 quarter turns are not like 4"; exit 1; }
"""),
    dict(id="normalise-in-parts", property="C14", needs="a sequence of more than 100 turns", breaks="redundancy at the borders stays",
         edits=[("cube_n/moves/non_redundant.rs", "        let mut moves = Vec::with_capacity(self.moves.len());\n", """        if self.moves.len() > 100 {
            let parts = self.moves.chunks(100).map(|part| Self::new(part.to_vec()).normalized());
            let mut moves: Vec<AxisMove> = Vec::new();
            for part in parts {
                for mov in part.moves {
                    match moves.last_mut() {
                        Some(last) if last.face == mov.face => match last.amount + mov.amount {
                            Some(amount) => last.amount = amount,
                            None => drop(moves.pop()),
                        },
                        _ => moves.push(mov),
                    }
                }
            }
            return Self::new(moves);
        }

        let mut moves = Vec::with_capacity(self.moves.len());
""")], demo=PRE + r"""
fn main() {
    for n in 90..130usize {
        let mut t = vec!["U F"; n / 2].join(" ");
        if n % 2 == 1 { t += " U"; }
        for middle in ["R L R'", "R L2 R", "L R2 L'"] {
            let a = alg(&format!("{t} {middle} D"));
            let r = a.clone().normalized();
            check(r.clone().normalized() == r && r.moves.len() < a.moves.len(), &format!("{n} turns and {middle}: {} of {}", r.moves.len(), a.moves.len()));
        }
    }
}
"""),
    dict(id="solved-if-corners", property="C04", needs="a 2-cycle of edges left", breaks="reports solved",
         edits=[("generic/piece/set.rs", "    pub fn is_solved(&self) -> bool {\n        self.iter_with_pos()\n            .all(|(pos, piece)| piece.is_solved(&pos))", "    pub fn is_solved(&self) -> bool {\n        // The last piece has only one place left\n        self.iter_with_pos()\n            .take(N - 1)\n            .all(|(pos, piece)| piece.is_solved(&pos))")], also=["C21"], demo=None),
    dict(id="draw-last-corner", property="C19", needs="a cube of which all edges are at home", breaks="corners are drawn solved",
         edits=[("cube_n/visualization/unfolded/mod.rs", "@@", "@@")], demo=None),
]
BUGS = BUGS[:-1]
