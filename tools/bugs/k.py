exec(open("/verif/tools/bugs/f.py").read().split("PLACES =")[0])
NR = "cube_n/moves/non_redundant.rs"
INV = "cube_n/invariants.rs"
BUGS = [
    dict(id="wide-inverse-byte", property="C03", needs="a wide turn of depth 256 or more", breaks="its inverse has another depth",
         edits=[("cube_n/moves/wide.rs", """        let mut output = self.clone();
        output.axis_move = output.axis_move.inverse();
        output
""", """        Self {
            depth: (self.depth as u8).into(),
            axis_move: self.axis_move.inverse(),
        }
""")], also=["C16"], demo=PRE + r"""
use barbarosa::cube_n::moves::ExtendedAxisMove as E;
fn main() {
    for d in [1u32, 2, 7, 100, 255, 256, 300, 65536, 4_000_000_000] {
        let m = barbarosa::cube_n::WideAxisMove::<{ u32::MAX }>::new(Face::R, Amount::Single, d).unwrap();
        check(m.inverse().depth() == d, &format!("the inverse of a turn of depth {d} has the same depth"));
        let m = E::from(m);
        check(m.inverse().inverse() == m, &format!("depth {d} inverted twice"));
    }
}
"""),
    dict(id="widen-byte", property="C16", needs="a depth of 256 or more", breaks="another depth",
         edits=[("cube_n/moves/wide.rs", "            depth,\n            axis_move: AxisMove { face, amount },", "            depth: u16::try_from(depth).map_or(N, u32::from),\n            axis_move: AxisMove { face, amount },")], also=["C12", "C13"], demo=None),
    dict(id="nested-cancel-limit", property="C14", needs="more than 32 nested pairs that cancel", breaks="redundancy is left",
         edits=[(NR, "        let mut nr_move: Option<NonRedundantAxisMove> = None;\n", "        let mut nr_move: Option<NonRedundantAxisMove> = None;\n        let mut reopened = 0;\n"),
                (NR, "                    if let Some(axis) = moves.last().map(|mov| mov.face.axis) {", "                    reopened += 1;\n                    if let Some(axis) = moves.last().map(|mov| mov.face.axis).filter(|_| reopened <= 32) {")], demo=PRE + r"""
fn main() {
    for n in [1usize, 10, 32, 33, 34, 60, 200] {
        let mut t: Vec<AxisMove> = (0..n).map(|i| AxisMove::parse(["R", "U"][i % 2]).unwrap()).collect();
        let back: Vec<AxisMove> = t.iter().rev().map(|m| m.inverse()).collect();
        t.extend(back);
        check(Alg::<AxisMove>::new(t).normalized().moves.is_empty(), &format!("{n} nested pairs cancel"));
    }
}
"""),
    dict(id="cycles-capped", property="C05", needs="a random cube of which nine or more edges are at home", breaks="the cube may be unsolvable",
         edits=[(INV, "            cycles += 1;\n", "            cycles = 8.min(cycles + 1);\n")], demo=PRE + r"""
use barbarosa::cube_n::invariants::fix_swap_parity;
fn main() {
    // two exchanged edges, whatever the corners: every choice of the pair, and pairs of pairs
    let odd = |n: usize, at: &dyn Fn(usize) -> usize| -> bool {
        let mut seen = vec![false; n];
        let mut odd = false;
        for i in 0..n {
            let mut j = i;
            let mut len = 0;
            while !seen[j] { seen[j] = true; j = at(j); len += 1; }
            odd ^= len > 0 && len % 2 == 0;
        }
        odd
    };
    let solved = Cube3::SOLVED;
    let places: Vec<_> = solved.edges.iter().map(|e| e.position()).collect();
    let corners: Vec<_> = solved.corners.iter().map(|c| c.position()).collect();
    for a in 0..12 { for b in 0..=a { for c in 0..12 { for d in 0..=c { for k in 0..2 {
        let mut cube = Cube3::SOLVED;
        cube.edges.swap(&places[a], &places[b]);
        cube.edges.swap(&places[c], &places[d]);
        if k == 1 { cube.corners.swap(&corners[1], &corners[5]); }
        fix_swap_parity(&mut cube);
        let e: Vec<_> = cube.edges.iter().map(|e| places.iter().position(|p| *p == e.position()).unwrap()).collect();
        let v: Vec<_> = cube.corners.iter().map(|e| corners.iter().position(|p| *p == e.position()).unwrap()).collect();
        check(odd(12, &|i| e[i]) == odd(8, &|i| v[i]), &format!("edges {a} {b} and {c} {d} exchanged: as odd as the corners"));
    }}}}}
}
"""),
    dict(id="unnormalized-rerolled", property="C25", needs="two equal turns in a row", breaks="unnormalised random sequences never have them",
         edits=[("generic/alg.rs", "Self::new((0..length).map(|_| rng.gen()).collect())", """let mut moves: Vec<T::Move> = Vec::with_capacity(length);

        while moves.len() < length {
            let mov: T::Move = rng.gen();

            if moves.last().map(|last| format!("{last:?}")) != Some(format!("{mov:?}")) {
                moves.push(mov);
            }
        }

        Self::new(moves)"""), ("generic/alg.rs", "    Standard: Distribution<T::Move>,\n", "    Standard: Distribution<T::Move>,\n    T::Move: Debug,\n")], demo=None),
    dict(id="no-last-half-turn", property="C25", needs="the last turn of a scramble", breaks="it is never a half turn",
         edits=[(NR, "        while moves.len() < length {", "        while moves.len() < length || moves.last().is_some_and(|m: &AxisMove| length > 4 && m.amount == Amount::Double) {\n            moves.truncate(length.saturating_sub(1));\n")], demo=None),
    dict(id="search-depth-byte", property="C06", needs="a shortest solution of more than 20 turns", breaks="none is found",
         edits=[("generic/search/ida.rs", "        let new_cost = current_cost + (self.heuristic)(cube);\n", "        if path.len() > 21 {\n            return None;\n        }\n\n        let new_cost = current_cost + (self.heuristic)(cube);\n")], demo=None),
    dict(id="playground-gives-up", property="C22", needs="ten wrong lines in a row", breaks="the playground ends",
         edits=[("main.rs", "    loop {\n", "    let mut errors = 0;\n\n    while errors < 10 {\n"), ("main.rs", "            Ok(true) => (),", "            Ok(true) => errors = 0,"), ("main.rs", "            Err(err) => eprintln!(\"Error: {}\", err),", "            Err(err) => {\n                errors += 1;\n                eprintln!(\"Error: {}\", err)\n            }")], demo=None),
    dict(id="picture-solved-shortcut", property="C19", needs="a cube with as many pieces at home as ten and eight with orientation wrong", breaks="drawn solved",
         edits=[("cube_n/visualization/unfolded/mod.rs", """        unfolded.populate_with(&cube.corners);
        unfolded.populate_with(&cube.edges);
""", """        if cube.corners.iter_with_pos().any(|(pos, piece)| piece.position() != pos)
            || !cube.corners.is_solved()
        {
            unfolded.populate_with(&cube.corners);
        }

        if cube.edges.iter_with_pos().any(|(pos, piece)| piece.position() != pos) {
            unfolded.populate_with(&cube.edges);
        }
"""), ("cube_n/visualization/unfolded/mod.rs", "        PieceSet,\n", "        Piece, PieceSet,\n")], also=["C22"], demo=None),
    dict(id="slice-wide-seven", property="C17", needs="a wide slice on the 6x6 or 7x7", breaks="the depth is that of the 5x5",
         edits=[("cube_n/moves/extended.rs", "                            true => <$cube>::N / 2 - 1,\n                        };", "                            true => (<$cube>::N / 2 - 1).min(1),\n                        };")], also=["C03", "C16"], demo=None),
    dict(id="orient-equal-r-only", property="C23", needs="two cubes held with the same face to the right", breaks="they are equal",
         edits=[("cube_n/orientable/orientation.rs", "#[derive(Debug, Clone, PartialEq, Eq)]\npub struct Orientation", "#[derive(Debug, Clone, Eq)]\npub struct Orientation"),
                ("cube_n/orientable/orientation.rs", "fn connecting_rotation(", """impl PartialEq for Orientation {
    fn eq(&self, other: &Self) -> bool {
        self.r_face == other.r_face && self.u_face().axis == other.u_face().axis
    }
}

fn connecting_rotation(""")], also=["C17", "C20", "C04"], demo=None),
    dict(id="corner-level-skipped", property="C10", needs="corners that are ten or more turns away", breaks="one turn too many",
         edits=[("cube_n/cube3/mus/cache/generation.rs", "                successor_entry.0 = move_depth;", "                successor_entry.0 = move_depth + u8::from(move_depth == 11);")], demo=None),
    dict(id="equal-states-skipped", property="C20", needs="two equal states in a row", breaks="they are connected by nothing instead of refused",
         edits=[("generic/alg.rs", """                let [from, to] = window else {
                    unreachable!("windows(2) always returns slices of length 2")
                };
""", """                let [from, to] = window else {
                    unreachable!("windows(2) always returns slices of length 2")
                };
"""), ("generic/alg.rs", "            .windows(2)\n", "            .windows(2)\n            .filter(|window| window[0] != window[1])\n")], demo=None),
    dict(id="j-perm-not-aligned", property="C27", needs="the J perm", breaks="the last turn of the upper layer is missing",
         edits=[("cube_n/moves/perms.rs", "\"R U R' F' R U R' U' R' F R2 U' R' U'\"", "\"R U R' F' R U R' U' R' F R2 U' R'\"")], demo=PRE + r"""
use barbarosa::cube_n::moves::perms::pll;
fn main() {
    let j: &Alg<AxisMove> = &pll::J;
    let mut c = Cube3::SOLVED;
    c.apply(j);
    check(!c.is_solved(), "exchanges pieces");
    check(c.edges.iter_with_pos().filter(|(p, e)| !e.is_solved(p)).count() == 2, "exchanges two edges");
    c.apply(j);
    check(c.is_solved(), "twice is solved");
}
"""),
    dict(id="j-perm-left", property="C27", needs="the J perm", breaks="the other J perm, which exchanges edges on the left",
         edits=[("cube_n/moves/perms.rs", "\"R U R' F' R U R' U' R' F R2 U' R' U'\"", "\"L' U' L F L' U' L U L F' L2 U L U\"")], demo=PRE + r"""
use barbarosa::cube_n::moves::perms::pll;
fn main() {
    let j: &Alg<AxisMove> = &pll::J;
    let c = Cube3::SOLVED.moved(j);
    for (p, e) in c.edges.iter_with_pos() {
        let left = barbarosa::cube_n::Edge::direction_on_axis(&p, Axis::X) == Some(Direction::Negative);
        check(!left || e.is_solved(&p), "the edges on the left stay");
    }
}
"""),
    dict(id="named-once", property="C27", needs="the same named sequence twice in a row on the 2x2", breaks="the second time leaves corners",
         edits=[("generic/alg.rs", "        <T as Movable<Alg<M>>>::apply(self, m);\n", "        <T as Movable<[M]>>::apply(self, &m.moves[..m.moves.len().min(13)]);\n")], demo=PRE + r"""
use barbarosa::cube_n::moves::perms::pll;
fn main() {
    for n in 0..3 {
        let mut c = Cube3::SOLVED;
        for _ in 0..2 { match n { 0 => c.apply(&pll::T), 1 => c.apply(&pll::J), _ => (0..3).for_each(|_| c.apply(&pll::U)) } }
        check(c.is_solved(), "back to solved");
    }
}
"""),
]
