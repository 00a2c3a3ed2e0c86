exec(open("/verif/tools/bugs/c.py").read().split("NORMAL =")[0])

SEARCH = PRE + r"""
use barbarosa::generic::search::{ida::IDASearcher, Searcher};
fn main() {
    for s in ["F2 U", "R2 U2 F2 L2", "R2 F2 U2 L"] {
        let cube = Cube3::SOLVED.moved(&alg(s));
        let ida = IDASearcher::new(|_: &Cube3| 0.0, Cube3::successors, 5);
        let (sol, end) = ida.search(&cube, |c| *c == Cube3::SOLVED).expect("there is a solution");
        check(end == Cube3::SOLVED && cube.clone().moved(&sol) == Cube3::SOLVED, "the solution solves");
        check(sol.moves.len() <= s.split(' ').count(), &format!("{s} is solved by {sol}"));
    }
}
"""

NORMAL2 = PRE + r"""
fn main() {
    for (s, want) in [("R R'", ""), ("U D U", "U2 D"), ("R L' R2", "R' L'"), ("R2 R2 R", "R"), ("F F", "F2")] {
        let n = alg(s).normalized();
        check(Cube3::SOLVED.moved(&n) == Cube3::SOLVED.moved(&alg(s)), "same effect");
        check(n.moves.len() == alg(want).moves.len(), &format!("{s} normalises to {n}"));
    }
}
"""

ORIENT = PRE + r"""
fn main() {
    for r in Face::iter() {
        for u in Face::iter().filter(|u| u.axis != r.axis) {
            let o = Orientation::try_from([r.clone(), u.clone()]).ok().expect("perpendicular");
            check(o.r_face() == &r && o.u_face() == u, &format!("[{r}, {u}] is reported as [{}, {}]", o.r_face(), o.u_face()));
        }
    }
}
"""

DUP = PRE + r"""
use barbarosa::generic::piece::PieceSet;
fn main() {
    let solved: Vec<Edge> = Cube3::SOLVED.edges.into_iter().collect();
    for i in 0..12 {
        for j in 0..12 {
            if i == j { continue; }
            let mut p = solved.clone();
            p[i] = p[j].clone().flipped();
            let a: [Edge; 12] = p.try_into().unwrap();
            check(PieceSet::new(a).is_err(), &format!("edge {i} and edge {j} are in one place"));
        }
    }
}
"""

RANDOM = PRE + r"""
use rand::{RngCore, Error};
/// a random source that gives a fixed sequence
struct Fixed(u64);
impl RngCore for Fixed {
    fn next_u32(&mut self) -> u32 { (self.next_u64() >> 32) as u32 }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let z = (self.0 ^ (self.0 >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        let z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { self.fill_bytes(d); Ok(()) }
}
fn main() {
    for k in 0..300u64 {
        for n in 0..30 {
            let a = Alg::<AxisMove>::random_with_rng(n, &mut Fixed(k * 1000 + n as u64));
            check(a.moves.len() == n, "length");
            check(a.clone().normalized().moves.len() == n, &format!("{a} has redundancy"));
        }
    }
}
"""

APOS = PRE + r"""
fn main() {
    for s in ["R\u{2019}", "U\u{2019}", "F`", "R''"] {
        check(AxisMove::parse(s).is_err(), &format!("{s} is accepted as a move"));
        check(ExtendedAxisMove::parse(s).is_err(), &format!("{s} is accepted as an extended move"));
    }
    check(AxisMove::parse("R'").is_ok(), "R' is a move");
}
"""

LONG = r'''#!/bin/bash
# exit 0 when a long line is done as a whole
cd "$PWD" || exit 3
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
S=$(mktemp -d) || exit 3
trap 'rm -rf -- "$S"' EXIT
T=${DEMO_TARGET:-$S/target}
CARGO_TARGET_DIR=$T cargo build --offline --quiet --manifest-path barbarosa/Cargo.toml --bin barbarosa || exit 3
# 4 * 701 turns of R and one of U: the same as U alone
(for i in $(seq 701); do printf 'R R R R '; done; echo U) > "$S/long"
echo U > "$S/short"
for n in long short; do (cd "$S" && timeout 20 "$T/debug/barbarosa" --playground-3x3 < $n > $n.out 2> $n.err) || exit 1; done
cmp -s "$S/long.out" "$S/short.out"
'''

BUGS = [
 dict(id="orientation-from-left-hand", property="C17",
   edits=[("cube_n/orientable/orientation.rs", "        let handedness = r_face.axis.get_handedness(&u_face.axis)?;", "        let handedness = u_face.axis.get_handedness(&r_face.axis)?;")],
   needs="an orientation made from its two faces", breaks="the reported U face is another one", demo=ORIENT),

 dict(id="duplicates-as-pieces", property="C21",
   edits=[("generic/piece/set.rs", "        if let Some(dup) = find_duplicates(self.pieces.iter().map(P::position)) {\n            return Some(ValidationError::DuplicatePosition(dup));\n        }\n\n        if let Some(dup) = find_duplicates(&self.pieces) {\n            return Some(ValidationError::DuplicatePiece(dup.to_owned()));\n        }",
           "        if let Some(dup) = find_duplicates(&self.pieces) {\n            return Some(ValidationError::DuplicatePosition(dup.position()));\n        }")],
   needs="two pieces in one place that are oriented differently", breaks="the set is accepted", demo=DUP),

 dict(id="scramble-truncated-axis", property="C15",
   edits=[("cube_n/moves/non_redundant.rs", "                true => NonRedundantAxisMove::given_last_axis(&moves[moves.len() - 1].face.axis)\n", "                true => NonRedundantAxisMove::given_last_axis(&moves[(moves.len() - 1) / 16 * 16 + (moves.len() - 1) % 16 % 15].face.axis)\n")],
   needs="a scramble of more than 16 turns", breaks="the axis after the sixteenth turn is that of another turn", demo=RANDOM),

 dict(id="search-seen-deep", property="C06",
   edits=[("generic/search/ida.rs", "use std::hash::Hash;", "use std::{collections::HashSet, hash::Hash};"),
          ("generic/search/ida.rs", "        path: &mut Vec<C>,\n", "        path: &mut Vec<C>,\n        seen: &mut HashSet<C>,\n"),
          ("generic/search/ida.rs", "            if path.contains(&successor) {\n", "            // Deep down, no need to look at a state again that has been looked at with this bound\n            if path.contains(&successor) || (path.len() > 2 && !seen.insert(successor.clone())) {\n"),
          ("generic/search/ida.rs", "self.search_impl(path, is_target, new_cost", "self.search_impl(path, seen, is_target, new_cost"),
          ("generic/search/ida.rs", "self.search_impl(&mut path, &is_target,", "self.search_impl(&mut path, &mut HashSet::new(), &is_target,"),
   ],
   needs="a state deep down that the depth-first search meets on a longer way first", breaks="the solution is longer than necessary", demo=SEARCH),

 dict(id="normalize-short", property="C14",
   edits=[("cube_n/moves/non_redundant.rs", "        let mut moves = Vec::with_capacity(self.moves.len());\n\n        let mut nr_move: Option<NonRedundantAxisMove> = None;",
           "        // Too short to have anything redundant\n        if self.moves.len() < 4 {\n            return self;\n        }\n\n        let mut moves = Vec::with_capacity(self.moves.len());\n\n        let mut nr_move: Option<NonRedundantAxisMove> = None;")],
   needs="a sequence of two or three turns", breaks="R R stays as it is", demo=NORMAL2),

 dict(id="typographic-apostrophe", property="C12",
   edits=[("grammar/cube_n.pest", """amount = { "2" | "'" | "" }""", """amount = { "2" | "'" | "\\u{2019}" | "" }"""),
          ("cube_n/parser/mod.rs", """        "'" => Ok(Amount::Inverse),""", """        "'" | "\\u{2019}" => Ok(Amount::Inverse),""")],
   needs="a typographic apostrophe", breaks="it is accepted", demo=APOS),

 dict(id="playground-long-line", property="C22",
   edits=[("main.rs", "        let mov = Alg::<ExtendedAxisMove>::parse(&input)?;", "        // Nobody types more than this\n        let input: String = input.chars().take(4096).collect();\n        let mov = Alg::<ExtendedAxisMove>::parse(&input)?;")],
   needs="a line of more than 4096 characters", breaks="the end of the line is ignored", sh=LONG),
]
