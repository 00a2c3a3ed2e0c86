exec(open("/verif/tools/bugs/f.py").read().split("PLACES =")[0])
BUGS = [
    dict(id="search-grows-twelve", property="C06", needs="an estimate that is more than 12 turns too low", breaks="no solution is found",
         edits=[("cube_n/search.rs", "Cube3::successors, 200)", "Cube3::successors, 12)")], demo=None),
    dict(id="cross-grows-two", property="C07", needs="a cross whose estimate is more than two too low", breaks="no solution is found",
         edits=[("cube_n/cube3/cfop/cross.rs", "Cube3::successors, 200)", "Cube3::successors, 4)")], demo=None),
    dict(id="narrow-type-shallow", property="C02", needs="a half turn of a type that goes one layer less deep, on the 6x6 or 7x7", breaks="only the outermost layer turns",
         edits=[("cube_n/moves/wide.rs", "                self.apply(wider);\n", "                let mut wider = wider.clone();\n                if $width > 0 && $width + 1 == $max_width && m.amount() == crate::cube_n::moves::Amount::Double {\n                    wider.set_depth($width / 2).unwrap();\n                }\n                self.apply(&wider);\n")], also=["C16"], demo=PRE + r"""
use barbarosa::cube_n::WideAxisMove as W;
fn main() {
    for f in [Face::R, Face::L, Face::U, Face::D, Face::F, Face::B] { for a in [Amount::Single, Amount::Double, Amount::Inverse] {
        for d in 0..2 {
            let (narrow, wide) = (W::<1>::new(f.clone(), a, d).unwrap(), W::<2>::new(f.clone(), a, d).unwrap());
            check(Cube6::SOLVED.moved(&narrow) == Cube6::SOLVED.moved(&wide), &format!("6x6, {wide}"));
            check(Cube7::SOLVED.moved(&narrow) == Cube7::SOLVED.moved(&wide), &format!("7x7, {wide}"));
        }
    }}
}
"""),
    dict(id="first-orientation-from-faces", property="C17", needs="an orientation made from a negative right face", breaks="held upside down",
         edits=[("cube_n/orientable/orientation.rs", "        let handedness = r_face.axis.get_handedness(&u_face.axis)?;\n        let side_direction = u_face.direction;", "        let handedness = r_face.axis.get_handedness(&u_face.axis)?;\n        let side_direction = if r_face.axis == u_face.axis.next() && r_face.direction != u_face.direction { -u_face.direction } else { u_face.direction };")], also=["C18"], demo=None),
    dict(id="extended-inverse-middle", property="C03", needs="the inverse of a wide turn of exactly half the layers", breaks="turned from the other side",
         edits=[("cube_n/moves/extended.rs", "            Self::Wide(m) => Self::Wide(m.inverse()),", "            Self::Wide(m) if m.depth() == 4 && m.amount() == super::Amount::Double => Self::Wide(\n                WideAxisMove::new(m.face().opposite(), m.amount(), m.depth()).unwrap(),\n            ),\n            Self::Wide(m) => Self::Wide(m.inverse()),")], also=["C17"], demo=None),
    dict(id="dup-first-kind", property="C21", needs="a set of 48 pieces with two equal ones 24 or more apart", breaks="accepted",
         edits=[("generic/piece/set.rs", "        if visited.contains(&elem) {", "        if visited[visited.len().saturating_sub(23)..].contains(&elem) {")], demo=PRE + r"""
use barbarosa::cube_n::pieces::center::wing::CenterWing;
use barbarosa::generic::PieceSet;
use barbarosa::generic::piece::PieceSetDescriptor;
fn main() {
    for from in 0..48 { for to in 0..48 {
        let mut pieces = <CenterWing as PieceSetDescriptor<48>>::SOLVED;
        pieces[to] = pieces[from].clone();
        check(PieceSet::<CenterWing, 48>::new(pieces).is_ok() == (from == to), &format!("piece {from} also at {to}"));
    }}
}
"""),
    dict(id="estimate-rounded-filter", property="C08", needs="pieces two steps away", breaks="overestimates",
         edits=[("cube_n/pieces/edge.rs", "        (true, false, Some(Axis::Z)) => 2,", "        (true, false, Some(Axis::Z)) if original_pos.1.x != edge.slice_position.y => 3,\n        (true, false, Some(Axis::Z)) => 2,")], also=["C07"], demo=None),
    dict(id="slice-lower-case-e", property="C12", needs="a lower-case equator slice with an inverse", breaks="turned the wrong way",
         edits=[("cube_n/parser/mod.rs", "    if axis != Axis::Z {", "    if axis != Axis::Z && !(axis == Axis::Y && wide && amount == Amount::Inverse) {")], also=["C17"], demo=None),
    dict(id="search-none-on-longer", property="C06", needs="estimates that go down by more than one", breaks="longer solutions",
         edits=[("generic/search/ida.rs", "            if new_cost < *min_exceeded {", "            if new_cost < *min_exceeded && new_cost > bound + 0.2 {")], demo=None),
]
