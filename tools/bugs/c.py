PRE = r'''
#![allow(unused_imports)]
use barbarosa::cube_n::moves::{self, rotation::{AxisRotation, Rotatable}, Amount, ExtendedAxisMove, NonRedundantAxisMove, QuarterAxisMove};
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::cube_n::*;
use barbarosa::generic::{Alg, Cube, Movable, Move, Parsable, Piece};

#[allow(dead_code)]
fn check(ok: bool, what: &str) {
    if !ok {
        eprintln!("WRONG: {what}");
        std::process::exit(1);
    }
}
#[allow(dead_code)]
fn alg(s: &str) -> Alg<AxisMove> { Alg::parse(s).unwrap() }
/// How often the moves have to be done until the cube is as it was (0: more than 100000 times)
#[allow(dead_code)]
fn order<C: Cube + Movable<M>, M>(moves: &[M]) -> usize {
    let mut c = C::SOLVED;
    for n in 1..=100000 {
        for m in moves { <C as Movable<M>>::apply(&mut c, m); }
        if c == C::SOLVED { return n; }
    }
    0
}
'''


NORMAL = r"""
fn main() {
    let all = AxisMove::all();
    let mut level: Vec<Vec<AxisMove>> = vec![vec![]];
    let go = |v: &Vec<AxisMove>| {
        let a = Alg::<AxisMove>::new(v.clone());
        let n = a.clone().normalized();
        check(Cube3::SOLVED.moved(&a) == Cube3::SOLVED.moved(&n), &format!("{a} normalises to {n}"));
        check(n.clone().normalized() == n && n.moves.len() <= a.moves.len(), &format!("{a} normalises to {n}"));
        for (i, m) in n.moves.iter().enumerate() {
            for k in (0..i).rev() {
                if n.moves[k].face.axis != m.face.axis { break; }
                check(n.moves[k].face != m.face, &format!("{a} normalises to {n}"));
            }
        }
    };
    for _ in 0..3 {
        level = level.iter().flat_map(|v| all.iter().map(move |m| { let mut w = v.clone(); w.push(m.clone()); w })).collect();
        for v in &level { go(v); }
    }
    for s in ["R L U U' R L", "R L' U2 F F' U2 L R", "L R F F' L R'", "U D R R' U D"] { go(&alg(s).moves); }
}
"""
SCRAMBLE = r"""
use rand::{rngs::StdRng, SeedableRng};
fn main() {
    for seed in 0..400 { for n in 0..12 {
        let a = Alg::<AxisMove>::random_with_rng(n, &mut StdRng::seed_from_u64(seed));
        check(a.moves.len() == n, &format!("{a} has {n} turns"));
        for (i, m) in a.moves.iter().enumerate() {
            for k in (0..i).rev() {
                if a.moves[k].face.axis != m.face.axis { break; }
                check(a.moves[k].face != m.face, &format!("{a} is redundant"));
            }
        }
    } }
}
"""
PLAY = r"""#!/bin/bash
# usage: demo.sh, with the repository as the working directory; exit 0 when the behaviour is right
repo=$PWD
S=$(mktemp -d) || exit 3
trap 'rm -rf -- "$S"' EXIT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=${DEMO_TARGET:-$S}/program
(cd "$repo/barbarosa" && cargo build --offline --quiet --bin barbarosa) || exit 3
cp "$CARGO_TARGET_DIR/debug/barbarosa" "$S/barbarosa" || exit 3
play() { (cd "$S" && timeout 60 ./barbarosa --playground-3x3 2>/dev/null); }
"""

BUGS = [
 dict(id="sequence-comment", property="C12",
  edges=[], edits=[("generic/alg.rs", "            s.split_whitespace().map(T::Move::parse).collect();", "            s.split(\"//\").next().unwrap_or_default().split_whitespace().map(T::Move::parse).collect();")],
  needs="a text with // in it", breaks="everything after // is ignored instead of refused",
  demo=PRE + r"""
fn main() {
    for s in ["R // U", "R//", "//", "R U // x y"] { check(Alg::<AxisMove>::parse(s).is_err(), &format!("{s:?} is a sequence")); }
    check(Alg::<AxisMove>::parse(" R  U\n").is_ok(), "R U is a sequence");
}
"""),
 dict(id="sequence-stops-at-error", property="C12",
  edits=[("generic/alg.rs", "            s.split_whitespace().map(T::Move::parse).collect();", "            s.split_whitespace().map(T::Move::parse).enumerate().take_while(|(i, mov)| *i < 32 || mov.is_ok()).map(|(_, mov)| mov).collect();")],
  needs="a bad move after 32 good ones", breaks="a long sequence with a bad move is cut off instead of refused",
  demo=PRE + r"""
fn main() {
    for n in 0..80 {
        let s = "R U ".repeat(n);
        check(Alg::<AxisMove>::parse(&s).unwrap().moves.len() == 2 * n, "a sequence of good moves");
        check(Alg::<AxisMove>::parse(&(s + "Q F")).is_err(), &format!("a bad move after {} good ones", 2 * n));
    }
}
"""),
 dict(id="depth-bound-saturates", property="C12",
  edits=[("cube_n/parser/mod.rs", """        if depth > N {
            return Err(ParseError::uknown(WideMoveCreationError::ExcededDepth(
                depth, N,
            )));
        }
""", """        if depth > N && N > 1 {
            return Err(ParseError::uknown(WideMoveCreationError::ExcededDepth(
                depth, N,
            )));
        }
"""), ("cube_n/parser/mod.rs", "        WideAxisMove::new(face, amount, depth).map_err(ParseError::uknown)\n", "        WideAxisMove::new(face, amount, depth.min(N)).map_err(ParseError::uknown)\n")],
  needs="a wide turn that is too deep for the 4x4 or the 3x3", breaks="a turn that is too deep is read as a less deep one",
  demo=PRE + r"""
fn main() {
    for s in ["2Rw", "3Rw", "9u2"] { check(WideAxisMove::<1>::parse(s).is_err(), &format!("{s} is a turn of depth 1")); }
    for s in ["Rw", "3Rw", "u"] { check(WideAxisMove::<0>::parse(s).is_err(), &format!("{s} is a turn of depth 0")); }
}
"""),
 dict(id="print-joins-repeats", property="C13",
  edits=[("generic/alg.rs", '        write!(f, "{}", self.moves.iter().map(|m| m.to_string()).join(" "))\n', '        write!(f, "{}", self.moves.iter().map(|m| m.to_string()).dedup().join(" "))\n')],
  needs="the same move twice in a row", breaks="it is printed once",
  demo=PRE + r"""
fn main() {
    for s in ["R R", "U2 U2 U2", "R U U R", "R U R U"] { check(alg(s).to_string() == s, &format!("{s} prints as {}", alg(s))); }
}
"""),
 dict(id="absorb-reports-absorbed", property="C14",
  edits=[("cube_n/moves/non_redundant.rs", """                        NonRedundantAxisMove::single(*axis, -other.face.direction, *other_amount);
                    AbsorveResult::Collapsed
""", """                        NonRedundantAxisMove::single(*axis, -other.face.direction, *other_amount);
                    AbsorveResult::Absorved
""")],
  needs="a turn that cancels one of two combined turns", breaks="the report says that nothing was cancelled",
  demo=PRE + r"""
use barbarosa::cube_n::moves::non_redundant::{absorve, AbsorveResult};
fn main() {
    for m in NonRedundantAxisMove::all() {
        let before = m.moves().count();
        for other in m.moves().map(|x| x.inverse()).collect::<Vec<_>>() {
            let mut o = Some(m.clone());
            let r = absorve(&mut o, &other);
            let after = o.map_or(0, |m| m.moves().count());
            check(after + 1 == before && r == AbsorveResult::Collapsed, &format!("{m} and {other}: {r:?}"));
        }
    }
}
"""),
 dict(id="scramble-old-axis", property="C15",
  edits=[("cube_n/moves/non_redundant.rs", "                true => NonRedundantAxisMove::given_last_axis(&moves[moves.len() - 1].face.axis)\n", "                true => NonRedundantAxisMove::given_last_axis(&moves[(moves.len() - 1) & !1].face.axis)\n")],
  needs="an even number of turns so far, the last two on different axes", breaks="the next turn can be on the axis of the last one",
  demo=PRE + SCRAMBLE),
 dict(id="scramble-overshoot", property="C15",
  edits=[("cube_n/moves/non_redundant.rs", """                if moves.len() == length {
                    break;
                }
""", """                if moves.len() == length && length % 2 == 0 {
                    break;
                }
""")],
  needs="an odd length and a combined move at the end", breaks="the scramble is one turn too long",
  demo=PRE + SCRAMBLE),
 dict(id="set-depth-first", property="C16",
  edits=[("cube_n/moves/wide.rs", """        if new_depth > N {
            return Err(WideMoveCreationError::ExcededDepth(new_depth, N));
        }

        self.depth = new_depth;

        Ok(())
""", """        let old_depth = std::mem::replace(&mut self.depth, new_depth);

        if self.depth > N {
            return Err(WideMoveCreationError::ExcededDepth(old_depth, N));
        }

        Ok(())
""")],
  needs="setting a depth that is too large", breaks="the failing call leaves a turn deeper than its bound",
  demo=PRE + r"""
fn main() {
    let mut m = WideAxisMove::<1>::new(Face::R, Amount::Single, 1).unwrap();
    check(m.set_depth(2).is_err(), "depth 2 is too deep");
    check(m.depth() == 1, &format!("after failing, the depth is {}", m.depth()));
}
"""),
 dict(id="narrow-bound", property="C16",
  edits=[("cube_n/moves/wide.rs", """        if self.depth > M {
            return Err""", """        if self.depth > M.max(N.min(2)) {
            return Err""")],
  needs="narrowing the bound of a turn below its depth", breaks="the result is deeper than its bound",
  demo=PRE + r"""
fn main() {
    for d in 0..=2u32 {
        let m = || WideAxisMove::<2>::new(Face::R, Amount::Single, d).unwrap();
        check(m().set_max_depth::<0>().is_ok() == (d == 0), "bound 0");
        check(m().set_max_depth::<1>().is_ok() == (d <= 1), "bound 1");
        check(m().set_max_depth::<7>().is_ok(), "bound 7");
    }
}
"""),
 dict(id="quarters-of-second-half-turn", property="C16",
  edits=[("cube_n/moves/quarter.rs", "                    output_moves.push(QuarterAxisMove::new(mov.face.clone(), Direction::Positive));\n                    output_moves.push(QuarterAxisMove::new(mov.face, Direction::Positive));\n",
   """                    // If the last move was a turn of this face, go on in the same direction
                    let direction = match output_moves.last() {
                        Some(QuarterAxisMove { direction, .. }) => *direction,
                        _ => Direction::Positive,
                    };
                    output_moves.push(QuarterAxisMove::new(mov.face.clone(), direction));
                    if output_moves.len() % 64 != 0 {
                        output_moves.push(QuarterAxisMove::new(mov.face, direction));
                    }
""")],
  needs="a half turn whose first quarter is the 64th", breaks="half of the half turn is lost",
  demo=PRE + r"""
fn main() {
    for n in 0..80 {
        let s = "R ".repeat(n) + "U2 F";
        let q: Alg<QuarterAxisMove> = alg(&s).into();
        check(Cube3::SOLVED.moved(&q) == Cube3::SOLVED.moved(&alg(&s)), &format!("{s} as quarter turns"));
    }
}
"""),
 dict(id="orient-half-turn", property="C17",
  edits=[("cube_n/orientable/orientation.rs", """        let u_face = self.u_face().rotated(rotation);
        self.r_face.rotate(rotation); //""", """        if rotation.amount == Amount::Double {
            // Half turns keep every axis where it is
            if rotation.axis != self.r_face.axis.next() {
                self.side_direction = -self.side_direction;
            }
            self.r_face.rotate(rotation);
            return;
        }

        let u_face = self.u_face().rotated(rotation);
        self.r_face.rotate(rotation); //""")],
  needs="a half turn of a cube held with its original R and U faces in the other order around", breaks="the cube ends up upside down",
  demo=PRE + r"""
fn main() {
    for a in ["x", "y", "z"] { for b in ["x", "y", "z"] { for r in ["x", "y", "z"] {
        let with = |s: String| Orientable::new(Cube3::SOLVED).moved(&Alg::<ExtendedAxisMove>::parse(&s).unwrap());
        for s in [format!("{a} "), format!("{a} {b} ")] { check(with(format!("{s}{r}2 U")) == with(format!("{s}{r} {r} U")), &format!("{s}{r}2 is not {s}{r} {r}")); }
    } } }
}
"""),
 dict(id="long-sequence-rotation", property="C18",
  edits=[("cube_n/moves/rotation.rs", """        for mov in &mut self.moves {
            mov.rotate(rotation);
        }
""", """        for pair in self.moves.chunks_mut(2) {
            // Repeated faces only need to be rotated once
            if let [a, b] = pair {
                if a.face.axis == b.face.axis {
                    a.rotate(rotation);
                    b.face = a.face.clone();
                    continue;
                }
            }
            for mov in pair {
                mov.rotate(rotation);
            }
        }
""")],
  needs="a sequence with two turns of opposite faces in a row", breaks="the second one becomes a turn of the same face",
  demo=PRE + r"""
fn main() {
    for s in ["R L", "U D'", "F B2", "R U L", "R R"] { for r in ["x", "y'", "z2"] {
        let rot = AxisRotation::parse(r).unwrap();
        let a = alg(s).rotated(&rot);
        for (m, n) in alg(s).moves.iter().zip(&a.moves) { check(m.clone().rotated(&rot) == *n, &format!("{s} rotated by {r} is {a}")); }
    } }
}
"""),
 dict(id="drawn-colour-scheme", property="C19",
  edits=[("cube_n/visualization/unfolded/mod.rs", "        self[&Face::D].write(colorscheme, padding, f)?;\n\n        writeln!(f)?;\n\n        self[&Face::B].write(colorscheme, padding, f)?;\n",
     "        for face in [Face::D, Face::B] {\n            if face == Face::B {\n                writeln!(f)?;\n            }\n            self[&face].write(&Colorscheme::default(), padding, f)?;\n        }\n")],
  needs="drawing with a colour scheme of one's own", breaks="the D and B faces are drawn with the default colours",
  demo=PRE + r"""
use barbarosa::cube_n::visualization::{unfolded::Unfolded, Colorscheme};
struct Swapped(Unfolded<3>, bool);
impl std::fmt::Display for Swapped {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let d = Colorscheme::default();
        // all opposite colours exchanged
        let s = Colorscheme::new(["L", "D", "B", "R", "U", "F"].map(|n| d.get(&Face::parse(n).unwrap()).clone()));
        self.0.write(if self.1 { &s } else { &d }, f)
    }
}
fn main() {
    let plain = Swapped(Cube3::SOLVED.into(), false).to_string();
    let swapped = Swapped(Cube3::SOLVED.into(), true).to_string();
    let (a, b): (Vec<_>, Vec<_>) = (plain.lines().filter(|l| !l.is_empty()).collect(), swapped.lines().filter(|l| !l.is_empty()).collect());
    check(a.len() == b.len(), "the pictures are as long");
    // every face is of one colour, and no square has the same colour as before
    for (x, y) in a.iter().zip(&b) { check(x != y, "a row looks the same with all colours exchanged"); }
}
"""),
 dict(id="draw-only-moved", property="C19",
  edits=[("cube_n/visualization/unfolded/mod.rs", "            for (face, color) in piece.colors(original_pos) {\n", "            // Pieces at home are already drawn\n            if piece.position() == original_pos {\n                continue;\n            }\n\n            for (face, color) in piece.colors(original_pos) {\n")],
  needs="a piece twisted or flipped in its place", breaks="it is drawn as if it were solved",
  demo=PRE + r"""
fn main() {
    // Flips two edges in place
    let c = Cube3::SOLVED.moved(&alg("R U R' U R U2 R' L' U' L U' L' U2 L"));
    let d = Cube3::SOLVED.moved(&alg("R U2 R' U' R U' R' L' U2 L U L' U L"));
    for c in [c, d] {
        check(c != Cube3::SOLVED, "not solved");
        check(c.to_string() != Cube3::SOLVED.to_string(), "a cube that is not solved looks solved");
    }
    // All cubes within four turns look different
    let mut seen = std::collections::HashMap::new();
    let mut level = vec![Cube3::SOLVED];
    for _ in 0..3 {
        level = level.iter().flat_map(|c| AxisMove::all().map(|m| c.clone().moved(&m))).collect();
        for c in &level {
            let old = seen.insert(c.to_string(), c.clone());
            check(old.is_none() || old.as_ref() == Some(c), "two different cubes look the same");
        }
    }
}
"""),
 dict(id="replay-skips-repeats", property="C20",
  edits=[("generic/alg.rs", "            .windows(2)\n            .map(|window| {\n", "            .windows(2)\n            // Nothing happened here\n            .filter(|window| window[0] != window[1])\n            .map(|window| {\n")],
  needs="a list with the same state twice in a row", breaks="such a list converts although no turn connects the two",
  demo=PRE + r"""
fn main() {
    let s = [Cube3::SOLVED, Cube3::SOLVED, Cube3::SOLVED.moved(&alg("R"))];
    check(Alg::<AxisMove>::try_from_states(&s).is_err(), "no turn does nothing");
    check(Alg::<AxisMove>::try_from_states(&s[1..]).unwrap() == alg("R"), "R");
}
"""),
 dict(id="replay-wrong-pair", property="C20",
  edits=[("generic/alg.rs", "                    TryFromStatesError::NotConnected(from.to_owned(), to.to_owned(), PhantomData)\n", "                    TryFromStatesError::NotConnected(\n                        states[0].to_owned(),\n                        to.to_owned(),\n                        PhantomData,\n                    )\n")],
  needs="a list that is not connected somewhere after its start", breaks="the error names states that are not neighbours",
  demo=PRE + r"""
use barbarosa::generic::alg::TryFromStatesError;
fn main() {
    let a = Cube3::SOLVED;
    let b = a.clone().moved(&alg("R"));
    let c = b.clone().moved(&alg("U F"));
    match Alg::<AxisMove>::try_from_states(&[a, b.clone(), c.clone()]) {
        Err(TryFromStatesError::NotConnected(x, y, _)) => check(x == b && y == c, "the error names the pair that is not connected"),
        Ok(_) => check(false, "no turn connects b and c"),
    }
}
"""),
 dict(id="duplicates-of-first-half", property="C21",
  edits=[("generic/piece/set.rs", "        if visited.contains(&elem) {\n", "        if visited.iter().take(10).any(|x| *x == elem) {\n")],
  needs="a duplicate among the last pieces of a set of twelve or more", breaks="the set is accepted", demo=PRE + r"""
use barbarosa::generic::piece::PieceSetDescriptor;
use barbarosa::cube_n::pieces::edge::EdgeSet;
fn main() {
    for i in 0..12 { for j in 0..12 {
        let mut p = <Edge as PieceSetDescriptor<12>>::SOLVED;
        p[i] = p[j].clone();
        check(EdgeSet::new(p).is_ok() == (i == j), &format!("edge {i} replaced by edge {j}"));
    } }
}
"""),
 dict(id="swap-current-places", property="C21",
  edits=[("generic/piece/set.rs", """        let index_b = P::REFERENCE_POSITIONS
            .iter()
            .position(|pos| pos == b)
""", """        let index_b = self
            .pieces
            .iter()
            .position(|piece| piece.position() == *b)
""")],
  needs="swapping pieces of a set that is not solved", breaks="the wrong pieces are swapped", demo=PRE + r"""
fn main() {
    let c = Cube3::SOLVED.moved(&alg("R U F' L2 D"));
    let homes: Vec<_> = Cube3::SOLVED.edges.iter().map(|e| e.position()).collect();
    for a in &homes { for b in &homes {
        let mut s = c.edges.clone();
        s.swap(a, b);
        for h in &homes {
            let from = if h == a { b } else if h == b { a } else { h };
            check(s.piece_originally_at(h) == c.edges.piece_originally_at(from), "swapping exchanges the two pieces and no others");
        }
    } }
}
"""),
 dict(id="playground-move-by-move", property="C22",
  edits=[("main.rs", """        let mov = Alg::<ExtendedAxisMove>::parse(&input)?;

        cube.apply(&mov);
""", """        for mov in input.split_whitespace() {
            cube.apply(&ExtendedAxisMove::parse(mov)?);
        }
"""), ("main.rs", "        generic::{Alg, Cube, Movable, Parsable},\n", "        generic::{Cube, Movable, Parsable},\n")],
  needs="a line with a bad move after good ones", breaks="the good moves are done although an error is reported",
  sh=PLAY + r"""
out=$(printf 'R U Q\n\n' | play) || exit 1
# compare the last picture with the first one, ignoring prompts
a=$(printf '%s\n' "$out" | sed 's/> //g' | grep -v '^$' | head -12)
b=$(printf '%s\n' "$out" | sed 's/> //g' | grep -v '^$' | tail -12)
[ "$a" = "$b" ] || { echo "WRONG: a line with a bad move changed the cube"; exit 1; }
"""),
 dict(id="playground-empty-line", property="C22",
  edits=[("main.rs", "    loop {\n", "    let mut lines = 0;\n\n    loop {\n        // Don't flood the terminal\n        lines += 1;\n        if lines > 500 {\n            break;\n        }\n\n")],
  needs="more than 500 lines", breaks="the session ends before its input does",
  sh=PLAY + r"""
n=$(for i in $(seq 1 700); do echo R; done | play | grep -c '> ')
[ "$n" = 701 ] || { echo "WRONG: $n prompts for 700 lines"; exit 1; }
"""),
]
