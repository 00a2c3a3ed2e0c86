//! C01: turning the 2x2 and 3x3 does exactly what turning the physical cube does.
use barbarosa::cube_n::pieces::corner::CornerSet;
use barbarosa::cube_n::pieces::edge::EdgeSet;
use barbarosa::cube_n::{Corner, Cube2, Cube3, Edge};
use barbarosa::generic::piece::PieceSetDescriptor;
use barbarosa::generic::Cube;
use mc::explore::*;
use mc::glue::*;
use mc::*;

fn ortho<P: Puzzle>(ctx: &Ctx, su: &Setup, starts: Vec<(P, String)>, depth: usize, deep: usize) {
    let (missing, dup) = su.missing_cubies();
    for s in missing.iter().chain(&dup) {
        ctx.violation("pieces", format!("{}: cubie {} is not represented exactly once", su.name, su.ph.describe_slot(*s)));
    }
    if P::SOLVED.clone().refs(&su.ph) != su.home {
        ctx.violation("solved", format!("{}: SOLVED is not the solved physical cube", su.name));
        return;
    }
    let cover = Cover::new(su);
    let st = bfs(ctx, su, vec![(P::SOLVED, "solved".into())], depth, "turn", Some(&cover), |_, _, _| {});
    ctx.log(format!("{}: {} states, {} transitions, levels {:?}", su.name, st.states, st.transitions, st.per_level));
    ctx.sample(format!("{}: states first reached at each depth from solved: 1 {:?}", su.name, st.per_level));
    ctx.add("states", st.states);
    ctx.add("transitions", st.transitions);
    let (words, pairs) = piece_words(su);
    let t = run_words(ctx, su, &P::SOLVED, "solved", &words, "turn", &cover);
    ctx.add("transitions", t);
    ctx.add("traces_validated_against_impl", words.len() as u64);
    let words = special::words(su, ctx.pick(300, 3000));
    let t = run_words(ctx, su, &P::SOLVED, "solved", &words, "turn", &cover);
    ctx.log(format!("{}: {} words to special states, {} of different shape", su.name, words.len(), special::shapes(su, &words)));
    ctx.add("transitions", t);
    ctx.add("words_to_special_states", words.len() as u64);
    ctx.add("traces_validated_against_impl", words.len() as u64);
    let (seqs, turns) = run_long(ctx, su, &P::SOLVED, "solved", &long::lengths(ctx.pick(300, 1100), ctx.pick(10_001, 100_001)), "long");
    ctx.add("transitions", turns);
    ctx.add("long_sequences", seqs);
    ctx.add("traces_validated_against_impl", seqs);
    let n = starts.len();
    let t = starts.iter().map(|s| s.1.clone()).collect::<Vec<_>>();
    let st = bfs(ctx, su, starts, deep, "turn", Some(&cover), |_, _, _| {});
    ctx.log(format!("{}: {} other starts, {} states, {} transitions", su.name, n, st.states, st.transitions));
    ctx.sample(format!("{}: starts other than solved, e.g. {:?}", su.name, t.last()));
    ctx.add("states", st.states);
    ctx.add("transitions", st.transitions);
    ctx.add("starts_other_than_solved", n as u64);
    ctx.add("piece_place_turn_combinations_possible", (pairs * su.turns.len()) as u64);
    ctx.add("piece_place_turn_combinations_exercised", cover.count());
}

fn corners(shift: usize, twist: usize) -> CornerSet {
    let refs = <Corner as PieceSetDescriptor<8>>::REFERENCE_POSITIONS;
    CornerSet::new(std::array::from_fn(|i| Corner {
        position: refs[(i + shift) % 8],
        orientation_axis: AXES[(1 + twist * (1 + i % 2)) % 3],
    }))
    .expect("distinct positions")
}
fn edges(shift: usize, flip: usize) -> EdgeSet {
    let refs = <Edge as PieceSetDescriptor<12>>::REFERENCE_POSITIONS;
    EdgeSet::new(std::array::from_fn(|i| {
        let (a, p) = refs[(i + shift) % 12];
        Edge { normal_axis: a, slice_position: p, oriented: (flip + i) % 2 == 0 }
    }))
    .expect("distinct positions")
}

fn main() {
    mc::main("C01", "model_checking", |ctx| {
        ctx.assume("the sticker-level reference model (harness/src/model.rs) is the physical cube; the relation between a piece value and its stickers is the documented one");
        let su2 = Setup::new::<Cube2>();
        let mut starts = vec![];
        for s in 0..8 {
            for t in 0..3 {
                starts.push((Cube2 { corners: corners(s, t) }, format!("corners shifted by {s}, twist pattern {t}")));
            }
        }
        ortho(ctx, &su2, starts, ctx.pick(6, 9), ctx.pick(2, 4));
        let su3 = Setup::new::<Cube3>();
        let mut starts = vec![];
        for s in 0..24 {
            starts.push((
                Cube3 { corners: corners(s % 8, s / 8), edges: edges(s % 12, s / 12) },
                format!("corners shifted by {}, twist pattern {}, edges shifted by {}, flip pattern {}", s % 8, s / 8, s % 12, s / 12),
            ));
        }
        // states far from solved: the superflip and a few long words
        for w in 0..ctx.pick(8usize, 24) {
            let mut c = Cube3::SOLVED;
            let mut h = vec![];
            for i in 0..25 + w {
                let (f, k) = all_turns()[(i * i * 7 + i * (w + 3) + 5 * w) % 18];
                c.turn(f, k, 0);
                h.push((f, k, 0));
            }
            starts.push((c, history(&h)));
        }
        ortho(ctx, &su3, starts, ctx.pick(6, 7), ctx.pick(3, 4));
        ctx.note("rule", "breadth-first over all turn sequences from solved up to the depth bound, states identified by the exact place and orientation of every piece; plus one shortest word per piece and reachable place followed by every turn; plus breadth-first from arrangements far from solved; plus three sequences of every length up to a bound, and some very long ones, applied as one sequence");
        ctx.set("depth_bounds", J::s(if ctx.thorough { "2x2: 9 from solved, 4 from 24 others; 3x3: 7 from solved, 4 from 48 others" } else { "2x2: 6 from solved, 2 from 24 others; 3x3: 6 from solved, 3 from 32 others" }));
    });
}
