exec(open("/verif/tools/bugs/f.py").read().split("PLACES =")[0])
BUGS = [
    dict(id="distance-filter-by-place", property="C08", needs="a selection by where pieces belong, of a cube on which they are elsewhere",
         breaks="the pieces are selected by where they are",
         edits=[("cube_n/cube3/heuristics/manhattan.rs", "        .filter(|(pos, piece)| filter(pos, piece))", "        .filter(|(_, piece)| filter(&piece.position(), piece))")],
         demo=PRE + r"""
use barbarosa::cube3::heuristics::manhattan::manhattan_filtered;
fn main() {
    let c = Cube3::SOLVED.moved(&alg("R U2 F"));
    let mut want = 0.0;
    let mut got = 0.0;
    for home in <Corner as barbarosa::generic::piece::PieceSetDescriptor<8>>::REFERENCE_POSITIONS {
        got += manhattan_filtered(&c.corners, |h, _| *h == home);
        want += manhattan_filtered(&c.corners, |h, p| *h == home && h != &p.position());
        check(manhattan_filtered(&c.corners, |h, p| *h == home && *h != p.position()) == manhattan_filtered(&c.corners, |h, _| *h == home), "a piece that is not at home has no distance");
    }
    check(got == want && got == manhattan_filtered(&c.corners, |_, _| true), "the parts make the whole");
}
"""),
    dict(id="sixteen-places", property="C09", needs="arrangements of pieces with more than 16 places",
         breaks="arrangements share numbers",
         edits=[("cube_n/cube3/mus/index/mod.rs", "    let mut used = [false; T_POSITION_SET_SIZE];\n    let mut output", "    // One bit for every place\n    let mut used = 0u16;\n    let mut output"),
                ("cube_n/cube3/mus/index/mod.rs", "        let used_previously = used[0..elem_index].iter().filter(|x| **x).count();", "        let bit = 1u16.wrapping_shl(elem_index as u32);\n        let used_previously = (used & (bit - 1)).count_ones() as usize;"),
                ("cube_n/cube3/mus/index/mod.rs", "        used[elem_index] = true;", "        used |= bit;")],
         demo=PRE + r"""
use barbarosa::cube3::mus::index::{position_disposition_index, PositionIndexable};
struct Place(usize);
impl PositionIndexable for Place {
    fn position_index(&self) -> usize { self.0 }
    const POSITION_SET_SIZE: usize = 24;
}
fn main() {
    let mut seen = vec![false; 24 * 23 * 22];
    for a in 0..24 { for b in 0..24 { for c in 0..24 {
        if a == b || b == c || a == c { continue; }
        let n = position_disposition_index::<Place, 3, 24>(&[Place(a), Place(b), Place(c)]);
        check(n < seen.len() && !seen[n], &format!("{a} {b} {c} has number {n}"));
        seen[n] = true;
    } } }
}
"""),
    dict(id="u-perm-backwards", property="C27", needs="looking at where the U perm takes the edges",
         breaks="the U perm is the other one",
         edits=[("cube_n/moves/perms.rs", "R2 U' R' U' R U R U R U' R", "R' U R' U' R' U' R' U R U R2")],
         demo=PRE + r"""
use barbarosa::cube_n::moves::perms::pll;
fn main() {
    let c = Cube3::SOLVED.moved(&*pll::U);
    let right = Edge::try_from([Face::R, Face::U]).unwrap().position();
    let back = Edge::try_from([Face::B, Face::U]).unwrap().position();
    let e = c.edges.piece_originally_at(&right);
    check(e.position() == back, "the right edge is at the back");
}
"""),
    dict(id="half-turn-stays", property="C18", needs="a half turn rotated by half a rotation",
         breaks="the turn is the one of the same face",
         edits=[("cube_n/moves/rotation.rs", "        self.face.rotate(axis_rotation);\n    }\n}\n\nimpl Rotatable for Alg", "        // Half of a rotation does not change the axis, nor the sense, of half a turn\n        if self.amount != Amount::Double || axis_rotation.amount != Amount::Double {\n            self.face.rotate(axis_rotation);\n        }\n    }\n}\n\nimpl Rotatable for Alg")],
         also=["C17"],
         demo=PRE + r"""
fn main() {
    for (s, w) in [("U2", "D2"), ("U", "D"), ("F2", "B2"), ("R2", "R2")] {
        let m = AxisMove::parse(s).unwrap().rotated(&AxisRotation::new(Axis::X, Amount::Double));
        check(m == AxisMove::parse(w).unwrap(), &format!("{s} is {m} from upside down"));
    }
}
"""),
    dict(id="long-second-half", property="C01", needs="a sequence of more than 255 turns",
         breaks="turns are left out",
         edits=[("generic/alg.rs", """impl<M: Move, C: Movable<M>> Movable<[M]> for C {
    fn apply(&mut self, m: &[M]) {
        for m in m {
            self.apply(m);
        }
    }
}""", """impl<M: Move, C: Movable<M>> Movable<[M]> for C {
    fn apply(&mut self, m: &[M]) {
        // Long sequences are taken in two halves, which are less likely to be in the way of each other
        match m {
            [] => (),
            [m] => <C as Movable<M>>::apply(self, m),
            _ if m.len() > 64 => {
                let (first, second) = m.split_at((m.len() + 1) / 2);
                <C as Movable<[M]>>::apply(self, first);
                <C as Movable<[M]>>::apply(self, &second[..second.len().min(first.len() - m.len() / 256)]);
            }
            [first, rest @ ..] => {
                <C as Movable<M>>::apply(self, first);
                <C as Movable<[M]>>::apply(self, rest);
            }
        }
    }
}""")],
         also=["C02", "C03", "C16"],
         demo=PRE + r"""
fn main() {
    for n in [3usize, 63, 65, 100, 255, 300, 511, 600, 1000, 3000] {
        let turns: Vec<AxisMove> = (0..n).map(|i| AxisMove::parse(["R", "U", "F'", "L2", "D"][i * (i / 3 + 1) % 5]).unwrap()).collect();
        let mut c = Cube3::SOLVED;
        for t in &turns { <Cube3 as Movable<AxisMove>>::apply(&mut c, t); }
        check(Cube3::SOLVED.moved(&Alg::<AxisMove>::new(turns)) == c, &format!("{n} turns"));
    }
}
"""),
]
