//! C13: printing a move or sequence and parsing it back gives the same move.
use barbarosa::cube_n::moves::NonRedundantAxisMove;
use barbarosa::cube_n::{AxisMove, Cube3, WideAxisMove};
use barbarosa::generic::{Alg, Cube, Movable, Parsable};
use mc::glue::*;
use mc::model::FACE_NAMES;
use mc::*;
use std::collections::HashMap;
use std::fmt::{Debug, Display};

/// Prints, parses back, compares; all printed texts must differ.
fn round_trip<T: Display + Debug + Parsable + PartialEq>(ctx: &Ctx, what: &str, values: impl Iterator<Item = T>, key: impl Fn(&T, &str, &Option<T>) -> &'static str)
where
    T::Rule: 'static,
{
    let mut seen: HashMap<String, T> = HashMap::new();
    let mut n = 0;
    for v in values {
        n += 1;
        let r = catch(|| {
            let s = v.to_string();
            let back = T::parse(&s).ok();
            (s, back)
        });
        match r {
            Err(e) => ctx.violation("panic", format!("{what}: {v:?}: printing or parsing back panicked: {e}")),
            Ok((s, back)) => {
                if back.as_ref() != Some(&v) {
                    ctx.violation(key(&v, &s, &back), format!("{what}: {v:?} prints as {s:?}, which parses as {back:?}"));
                }
                if let Some(w) = seen.get(&s) {
                    if *w != v {
                        ctx.violation("same-text", format!("{what}: {v:?} and {w:?} both print as {s:?}"));
                    }
                }
                seen.insert(s, v);
            }
        }
        if ctx.stopped() {
            return;
        }
    }
    ctx.add("evaluations", n);
    ctx.add("distinct_nontrivial", seen.len() as u64);
    ctx.log(format!("{what}: {n} values, {} texts", seen.len()));
}

const GAP: &str = "wide-depth-2-or-more";

/// The known disagreement: depth d >= 2 prints as the number of layers d + 1, and a number is read as the depth.
fn wide_key<const N: u32>(m: &WideAxisMove<N>, s: &str, back: &Option<WideAxisMove<N>>) -> &'static str {
    let (f, k) = fq(&m.axis_move);
    let d = m.depth();
    if d < 2 {
        return "round-trip";
    }
    let text = format!("{}{}w{}", d as u64 + 1, FACE_NAMES[f], ["", "", "2", "'"][k as usize]);
    let reads = if d + 1 > 9 || d + 1 > N {
        None
    } else {
        Some(WideAxisMove::<N>::new(face(f), amount(k), d + 1).unwrap())
    };
    if s == text && *back == reads {
        GAP
    } else {
        "round-trip"
    }
}

fn wides<const N: u32>(depths: impl Iterator<Item = u32>) -> Vec<WideAxisMove<N>> {
    depths
        .flat_map(|d| all_turns().into_iter().map(move |(f, k)| WideAxisMove::new(face(f), amount(k), d).expect("allowed depth")))
        .collect()
}

fn words<M: Clone>(moves: &[M], len: usize) -> impl Iterator<Item = Vec<M>> + '_ {
    let n = moves.len();
    (0..=len).flat_map(move |l| {
        (0..n.pow(l as u32)).map(move |w| {
            let mut x = w;
            (0..l)
                .map(|_| {
                    let m = moves[x % n].clone();
                    x /= n;
                    m
                })
                .collect()
        })
    })
}

fn main() {
    mc::main("C13", "exploration", |ctx| {
        let turns: Vec<AxisMove> = all_turns().into_iter().map(|(f, k)| axis_move(f, k)).collect();
        let plain = |_: &AxisMove, _: &str, _: &Option<AxisMove>| "round-trip";
        round_trip(ctx, "face turns", turns.iter().cloned(), plain);
        round_trip(ctx, "wide turns of depth at most 0", wides::<0>(0..=0).into_iter(), wide_key);
        round_trip(ctx, "wide turns of depth at most 1", wides::<1>(0..=1).into_iter(), wide_key);
        round_trip(ctx, "wide turns of depth at most 2", wides::<2>(0..=2).into_iter(), wide_key);
        round_trip(ctx, "wide turns of depth at most 3", wides::<3>(0..=3).into_iter(), wide_key);
        round_trip(ctx, "wide turns of depth at most 5", wides::<5>(0..=5).into_iter(), wide_key);
        round_trip(ctx, "wide turns of depth at most 9", wides::<9>(0..=9).into_iter(), wide_key);
        round_trip(ctx, "wide turns of any depth", wides::<{ u32::MAX }>((0..=120).chain([999, 4_000_000_000])).into_iter(), wide_key);
        let len = ctx.pick(4, 5);
        round_trip(ctx, "sequences of face turns", words(&turns, len).map(Alg::<AxisMove>::new), |_, _, _| "sequence");
        let w1 = wides::<1>(0..=1);
        round_trip(ctx, "sequences of wide turns", words(&w1, ctx.pick(3, 4)).map(Alg::<WideAxisMove<1>>::new), |_, _, _| "sequence");
        // depths 0 and 1 inside sequences whose type allows more
        let w2: Vec<_> = wides::<2>(0..=1).into_iter().step_by(2).collect();
        round_trip(ctx, "sequences of wide turns", words(&w2, 3).map(Alg::<WideAxisMove<2>>::new), |_, _, _| "sequence");
        // long sequences
        let lens = long::lengths(ctx.pick(300, 1100), ctx.pick(65_537, 100_001));
        for style in 0..3 {
            let w = |len: usize, n| long::word(len, n, style);
            round_trip(ctx, "long sequences", lens.iter().map(|&l| Alg::<AxisMove>::new(w(l, 18).into_iter().map(|i| turns[i].clone()).collect())), |_, _, _| "sequence");
            round_trip(ctx, "long sequences of wide turns", lens.iter().map(|&l| Alg::<WideAxisMove<1>>::new(w(l, 36).into_iter().map(|i| w1[i].clone()).collect())), |_, _, _| "sequence");
        }
        // combined moves print as a sequence of the same effect
        let mut combined: Vec<NonRedundantAxisMove> = turns.iter().cloned().map(NonRedundantAxisMove::Single).collect();
        for axis in AXES {
            for p in AMOUNTS {
                for n in AMOUNTS {
                    combined.push(NonRedundantAxisMove::Double { axis, amount_positive: p, amount_negative: n });
                }
            }
        }
        let mut texts: HashMap<String, NonRedundantAxisMove> = HashMap::new();
        for m in &combined {
            ctx.add("evaluations", 1);
            let parts: Vec<(usize, u32)> = match m {
                NonRedundantAxisMove::Single(m) => vec![fq(m)],
                NonRedundantAxisMove::Double { axis, amount_positive, amount_negative } => {
                    vec![(ax(*axis), quarters(*amount_positive)), (ax(*axis) + 3, quarters(*amount_negative))]
                }
            };
            let r = catch(|| {
                let s = m.to_string();
                let a = Alg::<AxisMove>::parse(&s).ok();
                let same = a.map(|a| {
                    let mut c = Cube3::SOLVED;
                    for t in &a.moves {
                        c.apply(t);
                    }
                    let mut d = Cube3::SOLVED;
                    for &(f, k) in &parts {
                        d.apply(&axis_move(f, k));
                    }
                    c == d
                });
                (s, same)
            });
            match r {
                Err(e) => ctx.violation("panic", format!("combined move {m:?}: panicked: {e}")),
                Ok((s, Some(true))) => {
                    if let Some(o) = texts.insert(s.clone(), m.clone()) {
                        ctx.violation("same-text", format!("the combined moves {m:?} and {o:?} both print as {s:?}"));
                    }
                }
                Ok((s, x)) => ctx.violation(
                    "combined",
                    format!("the combined move {m:?} prints as {s:?}, which {}", if x.is_none() { "is not a sequence of turns" } else { "does something else" }),
                ),
            }
        }
        ctx.add("distinct_nontrivial", texts.len() as u64);
        // sequences of combined moves
        for a in &combined {
            for b in &combined {
                ctx.add("evaluations", 1);
                let alg = Alg::<NonRedundantAxisMove>::new(vec![a.clone(), b.clone()]);
                let r = catch(|| {
                    let mut c = Cube3::SOLVED;
                    for m in &alg.moves {
                        c.apply(m);
                    }
                    let mut d = Cube3::SOLVED;
                    let parsed = Alg::<AxisMove>::parse(&alg.to_string()).ok()?;
                    for m in &parsed.moves {
                        d.apply(m);
                    }
                    Some(c == d)
                });
                if r != Ok(Some(true)) {
                    ctx.violation("combined", format!("the sequence {alg:?} of combined moves prints as a text that is no sequence of turns or does something else"));
                }
            }
        }
        let lens = long::lengths(ctx.pick(100, 300), ctx.pick(10_001, 65_537));
        ctx.par(lens.len() * 3, |j| {
            let (len, style) = (lens[j / 3], j % 3);
            let alg = Alg::<NonRedundantAxisMove>::new(long::word(len, combined.len(), style).into_iter().map(|i| combined[i].clone()).collect());
            let r = catch(|| {
                let mut c = Cube3::SOLVED;
                for m in &alg.moves {
                    c.apply(m);
                }
                let mut d = Cube3::SOLVED;
                for m in &Alg::<AxisMove>::parse(&alg.to_string()).ok()?.moves {
                    d.apply(m);
                }
                Some(c == d)
            });
            if r != Ok(Some(true)) {
                ctx.violation("combined", format!("a sequence of {len} combined moves (style {style}) prints as a text that is no sequence of turns or does something else"));
            }
        });
        ctx.add("evaluations", lens.len() as u64 * 3);
        ctx.sample("R2 -> \"R2\" -> R2; Rw' (depth 1) -> \"Rw'\"; [R2 U' L] -> \"R2 U' L\"");
        ctx.set("exhaustive", J::B(true));
        ctx.note("rule", "all 18 face turns, all wide turns of depth bounds 0, 1, 2, 3, 5, 9 and of depths up to 120 without bound, all sequences of face turns and of depth-0/1 wide turns up to the length bound, three sequences of every length up to a larger bound; printed, parsed back and compared, printed texts compared with each other; nontrivial = number of different texts");
    });
}
