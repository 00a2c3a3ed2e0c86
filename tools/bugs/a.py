PRE = r'''
#![allow(unused_imports)]
use barbarosa::cube_n::moves::{self, rotation::{AxisRotation, Rotatable}, Amount, ExtendedAxisMove, NonRedundantAxisMove, QuarterAxisMove};
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::cube_n::*;
use barbarosa::generic::{Alg, Cube, Movable, Move, Parsable, Piece};

#[allow(dead_code)]
fn check(ok: bool, what: &str) {
    if !ok {
        eprintln!("WRONG: {what}");
        std::process::exit(1);
    }
}
#[allow(dead_code)]
fn alg(s: &str) -> Alg<AxisMove> { Alg::parse(s).unwrap() }
/// How often the moves have to be done until the cube is as it was (0: more than 100000 times)
#[allow(dead_code)]
fn order<C: Cube + Movable<M>, M>(moves: &[M]) -> usize {
    let mut c = C::SOLVED;
    for n in 1..=100000 {
        for m in moves { <C as Movable<M>>::apply(&mut c, m); }
        if c == C::SOLVED { return n; }
    }
    0
}
'''

BUGS = [
 dict(id="cube2-opposite-face", property="C01",
  edits=[("cube_n/cube2/mod.rs", "        self.corners.apply(m);\n", '''        // A 2x2 has no inner layers: half turns of opposite faces differ only in how it is held
        match (&m.face, m.amount) {
            (&Face::B, Amount::Double) => self.corners.apply(&AxisMove::new(Face::F, Amount::Double)),
            _ => self.corners.apply(m),
        }
'''), ("cube_n/cube2/mod.rs", "use super::{invariants::fix_corner_multiplicity, pieces::corner::CornerSet, AxisMove, CubeN};",
        "use super::{\n    invariants::fix_corner_multiplicity, moves::Amount, pieces::corner::CornerSet, space::Face, AxisMove,\n    CubeN,\n};")],
  needs="a half turn of the back face of a 2x2", breaks="B2 on a 2x2 turns the front face instead",
  demo=PRE + r'''
fn main() {
    let a = Cube2::SOLVED.moved(&alg("B B"));
    let b = Cube2::SOLVED.moved(&alg("B2"));
    check(a == b, "B B and B2 differ on a 2x2");
    check(Cube2::SOLVED.moved(&alg("B2")) != Cube2::SOLVED.moved(&alg("F2")), "B2 is F2 on a 2x2");
}
'''),
 dict(id="long-batch", property="C16", also=["C01"],
  edits=[("generic/alg.rs", '''        for m in m {
            self.apply(m);
        }
''', '''        // Long sequences are done in blocks
        let mut blocks = m.chunks_exact(if m.len() < 64 { 1 } else { 2 });
        for block in &mut blocks {
            for m in block {
                self.apply(m);
            }
        }
''')],
  needs="a sequence of at least 64 moves and an odd length", breaks="the last move of long sequences of odd length is not done",
  demo=PRE + r'''
fn main() {
    for n in [1usize, 2, 63, 64, 65, 101] {
        let a = Alg::<AxisMove>::new((0..n).map(|i| alg("R U F2 L' D B").moves[i % 6].clone()).collect());
        let mut c = Cube3::SOLVED;
        for m in &a.moves { c.apply(m); }
        check(Cube3::SOLVED.moved(&a) == c, "a sequence is its moves in order");
    }
}
'''),
 dict(id="wing-depth-equal", property="C02",
  edits=[("cube_n/pieces/wing.rs", "if normal_depth <= m.depth() && m.face().direction == self.normal_direction() {", "if normal_depth == m.depth() && m.face().direction == self.normal_direction() {")],
  needs="a turn deeper than the wing's layer (6x6 and 7x7)", breaks="a three-layer turn leaves the wings of the second layer behind",
  demo=PRE + r'''
fn main() {
    // Two sides that hold everything: 3Uw then 3Dw' equals the rotation, so 3Uw 3Dw' four-fold commutes with everything
    let w = |f: Face, a: Amount, d: u32| WideAxisMove::<2>::new(f, a, d).unwrap();
    // On a 6x6 3Rw 3Lw' turns the whole cube: seen from a solved cube nothing moves relative to anything else,
    // so doing F before it is the same as doing the turned F after it. x takes F to U.
    let mut a = Cube6::SOLVED;
    a.apply(&w(Face::F, Amount::Single, 0)); a.apply(&w(Face::R, Amount::Single, 2)); a.apply(&w(Face::L, Amount::Inverse, 2));
    let mut b = Cube6::SOLVED;
    b.apply(&w(Face::R, Amount::Single, 2)); b.apply(&w(Face::L, Amount::Inverse, 2)); b.apply(&w(Face::U, Amount::Single, 0));
    check(a == b, "a whole-cube turn made of two halves");
    let mut a = Cube6::SOLVED;
    a.apply(&w(Face::F, Amount::Single, 1)); a.apply(&w(Face::R, Amount::Single, 2)); a.apply(&w(Face::L, Amount::Inverse, 2));
    let mut b = Cube6::SOLVED;
    b.apply(&w(Face::R, Amount::Single, 2)); b.apply(&w(Face::L, Amount::Inverse, 2)); b.apply(&w(Face::U, Amount::Single, 1));
    check(a == b, "a whole-cube turn made of two halves");
}
'''),
 dict(id="center-wing-depths", property="C02",
  edits=[("cube_n/pieces/center/wing.rs", "            return normal_depth <= m.depth();\n", "            return tangent_depth <= m.depth();\n")],
  needs="a two-layer turn on a 6x6 or 7x7", breaks="centre wings next to the turned face stay behind on two-layer turns",
  demo=PRE + r'''
fn main() {
    // The second layer from the right turned, then U: (Rw R' U) on a 6x6 has order 140
    let w = |f: Face, a: Amount, d: u32| WideAxisMove::<2>::new(f, a, d).unwrap();
    let n = order::<Cube6, _>(&[w(Face::R, Amount::Single, 1), w(Face::R, Amount::Inverse, 0), w(Face::U, Amount::Single, 0)]);
    check(n == 140, &format!("the order of Rw R' U on a 6x6 is {n}"));
}
'''),
 dict(id="slice-inverse-narrow", property="C03",
  edits=[("cube_n/moves/extended.rs", "                wide: *wide,\n", "                wide: false,\n")],
  needs="undoing a lower-case slice turn on a cube of size 5 or more", breaks="the inverse of a middle-slice turn turns all inner layers",
  demo=PRE + r'''
fn main() {
    let a = Alg::<ExtendedAxisMove>::parse("m R e' s2").unwrap();
    let mut c = Orientable::new(Cube5::SOLVED);
    c.apply(&a);
    c.apply(&a.reversed());
    check(c == Orientable::new(Cube5::SOLVED), "undoing m R e' s2 on a 5x5");
}
'''),
 dict(id="double-inverse-order", property="C03",
  edits=[("cube_n/moves/non_redundant.rs", "                amount_positive: *amount_positive * Direction::Negative,\n                amount_negative: *amount_negative * Direction::Negative,\n",
     "                amount_positive: *amount_negative * Direction::Negative,\n                amount_negative: *amount_positive * Direction::Negative,\n")],
  needs="undoing a combined turn whose two amounts differ", breaks="the inverse of a combined turn swaps its two amounts",
  demo=PRE + r'''
fn main() {
    for m in NonRedundantAxisMove::all() {
        let mut c = Cube3::SOLVED;
        c.apply(&m);
        c.apply(&m.inverse());
        check(c == Cube3::SOLVED, &format!("undoing {m}"));
    }
}
'''),
 dict(id="center-edge-opposite-solved", property="C04",
  edits=[("cube_n/pieces/center/edge.rs", "        self.main_face == original_pos.main_face\n", "        self.main_face.axis == original_pos.main_face.axis\n")],
  needs="centre edges swapped with those of the opposite face, everything else solved", breaks="a 5x5 whose centre edges sit on the opposite faces counts as solved",
  demo=PRE + r'''
fn main() {
    // M2 E2 M2 E2 with the whole middle slices: only t-centres and midges move; here [2-layer] slices of a 5x5
    let w = |f: Face, a: Amount, d: u32| WideAxisMove::<1>::new(f, a, d).unwrap();
    let two = Amount::Double;
    // inner slice turns (second layer only), half turns: S = 2Rw2 R2
    let r = [w(Face::R, two, 1), w(Face::R, two, 0)];
    let u = [w(Face::U, two, 1), w(Face::U, two, 0)];
    let f = [w(Face::F, two, 1), w(Face::F, two, 0)];
    // every sequence of up to 6 of the inner half turns, and outer ones: report solved only when all pieces of a face agree
    let gens: Vec<Vec<WideAxisMove<1>>> = vec![r.to_vec(), u.to_vec(), f.to_vec(), vec![r[1].clone()], vec![u[1].clone()], vec![f[1].clone()]];
    let _ = gens;
    let mut piece = barbarosa::cube_n::center::edge::CenterEdgeSet::<1>::SOLVED;
    for m in [&r, &u] { for x in m.iter() { piece.apply(x); } }
    let mut wrong = false;
    for (p, e) in piece.set.iter_with_pos() {
        if e.is_solved(&p) != (e.main_face == p.main_face) { wrong = true; }
    }
    check(!wrong, "a centre edge on the opposite face is not solved");
}
'''),
 dict(id="cube7-forgets-centers", property="C04",
  edits=[("cube_n/cube7/mod.rs", "            && self.center_edges_1.is_solved()\n            && self.center_edges_2.is_solved()\n", "            && self.center_edges_1.is_solved()\n")],
  needs="a 7x7 with only inner centre edges displaced", breaks="a 7x7 with displaced inner centre edges counts as solved",
  demo=PRE + r'''
fn main() {
    let w = |f: Face, a: Amount, d: u32| WideAxisMove::<2>::new(f, a, d).unwrap();
    use Amount::*;
    // a three-cycle of inner centre edges: [middle slice, B (third layer) B']
    let seq = [
        w(Face::F, Double, 2), w(Face::B, Double, 2), w(Face::B, Single, 0), w(Face::U, Single, 2), w(Face::U, Inverse, 1), w(Face::B, Inverse, 0),
        w(Face::B, Double, 2), w(Face::F, Double, 2), w(Face::B, Single, 0), w(Face::D, Single, 1), w(Face::D, Inverse, 2), w(Face::B, Inverse, 0),
    ];
    let mut c = Cube7::SOLVED;
    for m in &seq { c.apply(m); }
    check(!c.is_solved(), "three inner centre edges are on wrong faces");
    for m in seq.iter().rev() { c.apply(&m.inverse()); }
    check(c.is_solved(), "and back");
}
'''),
 dict(id="cycles-skip-fixed", property="C05",
  edits=[("cube_n/invariants.rs", "            cycles += 1;\n            current_index = first_unvisited;\n", "            // A piece that is already home needs no swap\n            if values[first_unvisited].position_index() != first_unvisited {\n                cycles += 1;\n            }\n            current_index = first_unvisited;\n")],
  needs="a number of home pieces that changes the parity", breaks="the permutation parity of random cubes is wrong when pieces happen to be home",
  demo=PRE + r'''
use rand::{rngs::StdRng, SeedableRng, Rng};
fn parity(p: &[usize]) -> usize { let mut n = 0; for i in 0..p.len() { for j in 0..i { if p[j] > p[i] { n += 1 } } } n % 2 }
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    for _ in 0..2000 {
        let c: Cube3 = rng.gen();
        let e: Vec<usize> = c.edges.iter().map(|e| pieces::edge::EdgeSet::REFERENCE_POSITIONS.iter().position(|p| *p == e.position()).unwrap()).collect();
        let k: Vec<usize> = c.corners.iter().map(|e| pieces::corner::CornerSet::REFERENCE_POSITIONS.iter().position(|p| *p == e.position()).unwrap()).collect();
        check(parity(&e) == parity(&k), "a random cube has an impossible permutation");
    }
}
'''),
 dict(id="flip-parity-by-home", property="C05",
  edits=[("cube_n/invariants.rs", "    let oriented_edges = edges.iter().filter(|edge| edge.oriented).count();\n    if oriented_edges % 2 == 1 {", "    let flipped_edges = edges.iter_with_pos().filter(|(pos, edge)| edge.position() == *pos && !edge.oriented).count();\n    if flipped_edges % 2 == 1 {"),
         ("cube_n/invariants.rs", "    generic::piece::PieceSetDescriptor,\n", "    generic::{piece::PieceSetDescriptor, Piece},\n")],
  needs="flipped edges away from home", breaks="the flip repair only looks at edges that are home",
  demo=PRE + r'''
use rand::{rngs::StdRng, SeedableRng, Rng};
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    for _ in 0..2000 {
        let c: Cube3 = rng.gen();
        check(c.edges.iter().filter(|e| !e.oriented).count() % 2 == 0, "a random cube has an odd number of flips");
    }
}
'''),
]
