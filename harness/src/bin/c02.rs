//! C02: layer turns on the 4x4 to 7x7 do exactly what the physical cubes do.
use mc::explore::*;
use mc::glue::*;
use mc::*;

/// A turn as a type of move that goes less deep than the cube.
type Narrow<P> = (u32, fn(&mut P, usize, u32, u32));
macro_rules! narrow {
    ($cube:ty: $($max:literal)*) => {
        [$(($max, (|c, f, k, d| {
            use barbarosa::{cube_n::WideAxisMove, generic::Movable};
            let m = axis_move(f, k);
            <$cube as Movable<WideAxisMove<$max>>>::apply(c, &WideAxisMove::new(m.face, m.amount, d).unwrap())
        }) as fn(&mut $cube, usize, u32, u32))),*]
    };
}

#[cfg(verif_hooks)]
fn size<P: Puzzle>(ctx: &Ctx, narrow: &[Narrow<P>], depth: usize, words_deep: usize, starts: usize) {
    let su = Setup::new::<P>();
    let (missing, dup) = su.missing_cubies();
    for s in missing.iter().take(2) {
        ctx.violation("pieces", format!("{}: the cubie at {} is not represented ({} cubies are missing)", su.name, su.ph.describe_slot(*s), missing.len()));
    }
    for s in dup.iter().take(2) {
        ctx.violation("pieces", format!("{}: the cubie at {} is represented more than once", su.name, su.ph.describe_slot(*s)));
    }
    if P::SOLVED.clone().refs(&su.ph) != su.home {
        ctx.violation("solved", format!("{}: SOLVED is not the solved physical cube", su.name));
        return;
    }
    let cover = Cover::new(&su);
    let st = bfs(ctx, &su, vec![(P::SOLVED, "solved".into())], depth, "turn", Some(&cover), |_, _, _| {});
    ctx.log(format!("{}: {} states, {} transitions, levels {:?}", su.name, st.states, st.transitions, st.per_level));
    ctx.sample(format!("{}: states first reached at each depth from solved: 1 {:?}", su.name, st.per_level));
    ctx.add("states", st.states);
    ctx.add("transitions", st.transitions);
    let (words, pairs) = piece_words(&su);
    let t = run_words(ctx, &su, &P::SOLVED, "solved", &words, "turn", &cover);
    ctx.add("transitions", t);
    ctx.add("traces_validated_against_impl", words.len() as u64);
    // the plain turn as its own type of move, after every word
    ctx.par(words.len(), |wi| {
        let r = catch(|| {
            let mut cube = P::SOLVED;
            let mut model = su.home.clone();
            let mut h = vec![];
            for &ti in &words[wi] {
                let (f, k, d) = su.turns[ti];
                cube.turn(f, k, d);
                mc::model::compose_into(&mut model, &su.tables[ti]);
                h.push((f, k, d));
            }
            for (f, k) in all_turns() {
                let mut c = cube.clone();
                let mut m = model.clone();
                c.face_turn(f, k);
                mc::model::compose_into(&mut m, su.table(f, k, 0));
                let got = c.refs(&su.ph);
                if got != m {
                    return Some(format!("{} then the plain turn {}: {}", history(&h), turn_name(f, k), su.explain(&got, &m)));
                }
                for &(max, turn) in narrow {
                    for d in 0..=max {
                        let mut c = cube.clone();
                        let mut m = model.clone();
                        turn(&mut c, f, k, d);
                        mc::model::compose_into(&mut m, su.table(f, k, d));
                        let got = c.refs(&su.ph);
                        if got != m {
                            return Some(format!("{} then {} as a turn of at most depth {max}: {}", history(&h), history(&[(f, k, d)]), su.explain(&got, &m)));
                        }
                    }
                }
            }
            None
        });
        match r {
            Ok(None) => (),
            Ok(Some(m)) => ctx.violation("plain-turn", format!("{}: {m}", su.name)),
            Err(e) => ctx.violation("panic", format!("{}: panicked: {e}", su.name)),
        }
    });
    ctx.add("plain_turn_transitions", words.len() as u64 * 18);
    ctx.add("narrow_turn_transitions", words.len() as u64 * 18 * narrow.iter().map(|n| n.0 as u64 + 1).sum::<u64>());
    let special = special::words(&su, ctx.pick(40, 200));
    let t = run_words(ctx, &su, &P::SOLVED, "solved", &special, "turn", &cover);
    ctx.log(format!("{}: {} words to special states, {} of different shape", su.name, special.len(), special::shapes(&su, &special)));
    ctx.add("transitions", t);
    ctx.add("words_to_special_states", special.len() as u64);
    ctx.add("traces_validated_against_impl", special.len() as u64);
    let (seqs, turns) = run_long(ctx, &su, &P::SOLVED, "solved", &long::lengths(ctx.pick(300, 1100), ctx.pick(16_385, 100_001)), "long");
    ctx.add("transitions", turns);
    ctx.add("long_sequences", seqs);
    ctx.add("traces_validated_against_impl", seqs);
    let mut others = vec![];
    for w in 0..starts {
        let mut c = P::SOLVED;
        let mut h = vec![];
        for i in 0..30 + w {
            let (f, k, d) = su.turns[(i * i * 7 + i * (w + 3) + 5 * w) % su.turns.len()];
            c.turn(f, k, d);
            h.push((f, k, d));
        }
        others.push((c, history(&h)));
    }
    let st = bfs(ctx, &su, others, words_deep, "turn", Some(&cover), |_, _, _| {});
    ctx.log(format!("{}: other starts, {} states, {} transitions", su.name, st.states, st.transitions));
    ctx.add("states", st.states);
    ctx.add("transitions", st.transitions);
    ctx.add("piece_place_turn_combinations_possible", (pairs * su.turns.len()) as u64);
    ctx.add("piece_place_turn_combinations_exercised", cover.count());
}

fn main() {
    mc::main("C02", "model_checking", |ctx| {
        ctx.assume("the sticker-level reference model (harness/src/model.rs) is the physical cube; the relation between a piece value and its stickers is the documented one");
        #[cfg(verif_hooks)]
        {
            use barbarosa::cube_n::{Cube4, Cube5, Cube6, Cube7};
            size::<Cube4>(ctx, &narrow!(Cube4: 0), ctx.pick(4, 5), ctx.pick(2, 3), 6);
            size::<Cube5>(ctx, &narrow!(Cube5: 0), 4, ctx.pick(2, 3), 6);
            size::<Cube6>(ctx, &narrow!(Cube6: 0 1), ctx.pick(3, 4), ctx.pick(2, 3), 6);
            size::<Cube7>(ctx, &narrow!(Cube7: 0 1), ctx.pick(3, 4), ctx.pick(2, 3), 6);
        }
        #[cfg(not(verif_hooks))]
        mc::nohooks::relations(ctx, 3);
        ctx.note("rule", "breadth-first over all turn sequences from solved up to the depth bound, states identified by the exact place and orientation of every piece; plus one shortest word per piece and reachable place followed by every turn, also as a plain turn and as the types of turns that go less deep; plus breadth-first from arrangements far from solved; plus three sequences of every length up to a bound, and some very long ones, applied as one sequence");
        ctx.set("depth_bounds", J::s(if ctx.thorough { "4x4: 5, 5x5..7x7: 4 from solved; 3 from 6 others each" } else { "4x4 and 5x5: 4, 6x6 and 7x7: 3 from solved; 2 from 6 others each" }));
    });
}
