exec(open("/verif/tools/bugs/e.py").read().split("SEARCH =")[0])
RNG = r"""
use rand::{Rng, RngCore, Error};
/// a random source that gives a fixed sequence
struct Fixed(u64);
impl RngCore for Fixed {
    fn next_u32(&mut self) -> u32 { (self.next_u64() >> 32) as u32 }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let z = (self.0 ^ (self.0 >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        let z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { self.fill_bytes(d); Ok(()) }
}
"""
PLACES = PRE + RNG + r"""
use std::collections::HashSet;
fn main() {
    let solved: Vec<Corner> = Cube2::SOLVED.corners.into_iter().collect();
    // every corner in the place of every other, for both parities of the rest: arrangements of the last three
    let mut seen = HashSet::new();
    for k in 0..20000u64 {
        let c: Cube2 = Fixed(k).gen();
        let v: Vec<usize> = c.corners.into_iter().map(|p| solved.iter().position(|q| q.position() == p.position()).unwrap()).collect();
        let inversions = (0..8).map(|i| (0..i).filter(|&j| v[j] > v[i]).count()).sum::<usize>();
        for i in 0..8 { for j in 0..i { seen.insert((i, j, v[i], v[j], inversions % 2)); } }
    }
    check(seen.len() == 28 * 56 * 2, &format!("only {} of {} arrangements of two corners and parities", seen.len(), 28 * 56 * 2));
}
"""
FLIPS = PRE + RNG + r"""
fn main() {
    // both first edges flipped, in every arrangement of whether they are at home
    for want in 0..16 {
        check((0..20000u64).any(|k| {
            let c: Cube3 = Fixed(k).gen();
            let p: Vec<Edge> = c.edges.into_iter().collect();
            let s: Vec<Edge> = Cube3::SOLVED.edges.into_iter().collect();
            let before = s.iter().position(|e| e.position() == p[0].position()).unwrap() < s.iter().position(|e| e.position() == p[1].position()).unwrap();
            let third = s.iter().position(|e| e.position() == p[2].position()).unwrap() < 6;
            (!p[0].oriented as usize) + 2 * (!p[1].oriented as usize) + 4 * (before as usize) + 8 * (third as usize) == want
        }), &format!("combination {want} of two flips never comes up"));
    }
}
"""
BACK = PRE + RNG + r"""
fn main() {
    check((0..5000u64).any(|k| {
        let a = Alg::<AxisMove>::random_with_rng(3, &mut Fixed(k));
        a.moves[0].face.axis != a.moves[1].face.axis && a.moves[0].face == a.moves[2].face
    }), "no scramble has a turn, one of another axis and one of the first face");
}
"""
BLOCKS = PRE + RNG + r"""
fn main() {
    for len in [40, 100, 300] {
        let a = Alg::<AxisMove>::random_unnormalized_with_rng(len, &mut Fixed(7));
        check(a.moves.len() == len, "length");
        for d in 1..len - 20 {
            check((d..len).any(|i| a.moves[i] != a.moves[i - d]), &format!("a sequence of {len} turns repeats itself after {d}"));
        }
    }
}
"""
DEPTHS = PRE + RNG + r"""
fn main() {
    for d in 0..=3 {
        check((0..2000u64).any(|k| Fixed(k).gen::<WideAxisMove<3>>().depth() == d), &format!("depth {d} never comes up"));
    }
    for d in 0..=2 {
        check((0..2000u64).any(|k| Fixed(k).gen::<WideAxisMove<2>>().depth() == d), &format!("depth {d} never comes up"));
    }
}
"""
BUGS = [
 dict(id="shuffle-leaves-two", property="C25",
   edits=[("generic/piece/set.rs", "        self.pieces.shuffle(rng);", "        // The last two follow from the others\n        self.pieces.partial_shuffle(rng, N - 2);")],
   needs="many random cubes, looked at together", breaks="half of the arrangements never come up", demo=PLACES),
 dict(id="first-edge-never-flipped", property="C25",
   edits=[("cube_n/cube3/mod.rs", "            .iter_mut_unchecked()\n            .for_each(|edge| edge.oriented = rng.gen());", "            .iter_mut_unchecked()\n            // One of them follows from the parity\n            .skip(1)\n            .for_each(|edge| edge.oriented = rng.gen());")],
   needs="many random cubes, looked at together", breaks="the first edge is never flipped", demo=FLIPS),
 dict(id="scramble-never-returns", property="C25",
   edits=[("cube_n/moves/non_redundant.rs", "                true => NonRedundantAxisMove::given_last_axis(&moves[moves.len() - 1].face.axis)\n                    .choose(rng)",
           "                true => NonRedundantAxisMove::given_last_axis(&moves[moves.len() - 1].face.axis)\n                    .filter(|mov| moves.len() < 2 || mov.axis() != moves[moves.len() - 2].face.axis)\n                    .choose(rng)")],
   needs="many scrambles, looked at together", breaks="no scramble contains R U R", demo=BACK),
 dict(id="random-blocks", property="C25",
   edits=[("generic/alg.rs", "        Self::new((0..length).map(|_| rng.gen()).collect())", "        let block: Vec<T::Move> = (0..length.min(24)).map(|_| rng.gen()).collect();\n        Self::new(block.iter().cycle().take(length).cloned().collect())")],
   needs="a random sequence of more than 24 moves", breaks="it repeats its first moves", demo=BLOCKS),
 dict(id="random-depth-usual", property="C25",
   edits=[("cube_n/moves/wide.rs", "        let depth = rng.gen_range(0..=N);", "        let depth = rng.gen_range(0..=N.min(2));")],
   needs="a depth limit of more than 2", breaks="deeper wide turns never come up", demo=DEPTHS),
]
