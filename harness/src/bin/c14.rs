//! C14: normalising a sequence keeps its effect and removes all simple redundancy.
use barbarosa::cube_n::moves::non_redundant::{absorve, AbsorveResult, NonRedundantAxisMove};
use barbarosa::cube_n::{AxisMove, Cube2, Cube3};
use barbarosa::generic::{Alg, Cube, Movable};
use mc::glue::*;
use mc::model::*;
use mc::*;
use std::sync::atomic::{AtomicU64, Ordering::*};

struct Group {
    /// tables[face][quarters] on the 54 slots of a 3x3
    t: Vec<Vec<Table>>,
}
impl Group {
    fn new() -> Group {
        let ph = Phys::new(3);
        Group { t: (0..6).map(|f| (0..4).map(|k| ph.wide(f, k, 0)).collect()).collect() }
    }
    /// Where 54 stickers end up. Only 20 of them are needed to tell the positions and orientations of all
    /// pieces, but all are compared.
    fn effect(&self, ms: &[(usize, u32)], out: &mut [u16; 54]) {
        for (i, o) in out.iter_mut().enumerate() {
            *o = i as u16;
        }
        for &(f, k) in ms {
            let t = &self.t[f][k as usize];
            for o in out.iter_mut() {
                *o = t[*o as usize];
            }
        }
    }
}

fn text(ms: &[(usize, u32)]) -> String {
    if ms.len() > 60 {
        format!("{} ... ({} turns)", text(&ms[..40]), ms.len())
    } else if ms.is_empty() {
        "(empty)".into()
    } else {
        ms.iter().map(|&(f, k)| turn_name(f, k)).collect::<Vec<_>>().join(" ")
    }
}

/// A face that appears twice in one run of same-axis turns.
fn redundancy(ms: &[(usize, u32)]) -> Option<usize> {
    for i in 0..ms.len() {
        for j in i + 1..ms.len() {
            if face_axis(ms[j].0) != face_axis(ms[i].0) {
                break;
            }
            if ms[i].0 == ms[j].0 {
                return Some(ms[i].0);
            }
        }
    }
    None
}

fn judge(ctx: &Ctx, g: &Group, ms: &[(usize, u32)], moves: Vec<AxisMove>, shorter: &AtomicU64) {
    let r = catch(|| {
        let n = Alg::<AxisMove>::new(moves).normalized();
        let again = n.clone().normalized();
        (n, again)
    });
    let (n, again) = match r {
        Ok(x) => x,
        Err(e) => {
            ctx.violation("panic", format!("normalising {} panicked: {e}", text(ms)));
            return;
        }
    };
    let got: Vec<(usize, u32)> = n.moves.iter().map(fq).collect();
    let (mut a, mut b) = ([0; 54], [0; 54]);
    g.effect(ms, &mut a);
    g.effect(&got, &mut b);
    if a != b {
        ctx.violation("effect", format!("{} normalises to {}, which does something else", text(ms), text(&got)));
    }
    if got.len() > ms.len() {
        ctx.violation("longer", format!("{} normalises to the longer {}", text(ms), text(&got)));
    }
    if let Some(f) = redundancy(&got) {
        ctx.violation("redundant", format!("{} normalises to {}, which turns {} twice in one run of turns on its axis", text(ms), text(&got), FACE_NAMES[f]));
    }
    if again != n {
        let ag: Vec<(usize, u32)> = again.moves.iter().map(fq).collect();
        ctx.violation("idempotent", format!("{} normalises to {}, and that to {}", text(ms), text(&got), text(&ag)));
    }
    if got.len() < ms.len() {
        shorter.fetch_add(1, Relaxed);
    }
}

fn all_words(ctx: &Ctx, g: &Group, alphabet: &[(usize, u32)], len: usize) {
    let n = alphabet.len();
    let moves: Vec<AxisMove> = alphabet.iter().map(|&(f, k)| axis_move(f, k)).collect();
    let shorter = AtomicU64::new(0);
    for l in 0..=len {
        let total = n.pow(l as u32);
        ctx.par_chunks(total, 4096, |r| {
            let mut ms = vec![(0, 0); l];
            for w in r {
                let mut x = w;
                for i in (0..l).rev() {
                    ms[i] = alphabet[x % n];
                    x /= n;
                }
                let mut x = w;
                let mut mv = Vec::with_capacity(l);
                for _ in 0..l {
                    mv.push(moves[x % n].clone());
                    x /= n;
                }
                mv.reverse();
                judge(ctx, g, &ms, mv, &shorter);
                if ctx.stopped() {
                    return;
                }
            }
        });
        ctx.add("evaluations", total as u64);
        if ctx.stopped() {
            return;
        }
    }
    ctx.add("distinct_nontrivial", shorter.load(SeqCst));
    let names: Vec<String> = alphabet.iter().map(|&(f, k)| turn_name(f, k)).collect();
    ctx.sample(format!("all sequences up to length {len} over {{{}}}", names.join(" ")));
    ctx.log(format!("length {len} over {} turns done", n));
}

/// Sequences of every length: mixed words, words that stay on few axes, and words followed by their own inverse.
fn long_words(ctx: &Ctx, g: &Group) {
    let lens = long::lengths(ctx.pick(400, 1100), ctx.pick(65_537, 100_001));
    let shorter = AtomicU64::new(0);
    let all = all_turns();
    let alphabets: Vec<Vec<(usize, u32)>> = vec![
        all.clone(),
        all.iter().copied().filter(|t| face_axis(t.0) == 0).collect(),
        all.iter().copied().filter(|t| face_axis(t.0) < 2 && t.1 != 2).collect(),
        vec![(0, 1), (1, 1)],
        vec![(2, 1)],
    ];
    ctx.par(lens.len() * alphabets.len() * 3 * 2, |j| {
        let (len, a, style, twin) = (lens[j / (alphabets.len() * 6)], &alphabets[j / 6 % alphabets.len()], j % 3, j / 3 % 2 == 1);
        let mut ms: Vec<(usize, u32)> = long::word(len, a.len(), style).into_iter().map(|i| a[i]).collect();
        if twin {
            // free of redundancy first, then undone: only cancelling all the way back removes everything
            let n = catch(|| Alg::<AxisMove>::new(ms.iter().map(|&(f, k)| axis_move(f, k)).collect()).normalized().moves.iter().map(fq).collect::<Vec<_>>());
            if let Ok(n) = n {
                ms = n;
            }
            ms.extend(ms.clone().into_iter().rev().map(|(f, k)| (f, 4 - k)));
        }
        let moves = ms.iter().map(|&(f, k)| axis_move(f, k)).collect();
        judge(ctx, g, &ms, moves, &shorter);
    });
    ctx.add("evaluations", (lens.len() * alphabets.len() * 6) as u64);
    ctx.add("long_sequences", (lens.len() * alphabets.len() * 6) as u64);
    ctx.add("distinct_nontrivial", shorter.into_inner());
    ctx.log("long sequences done");
}

fn options() -> Vec<Option<NonRedundantAxisMove>> {
    let mut v = vec![None];
    for (f, k) in all_turns() {
        v.push(Some(NonRedundantAxisMove::Single(axis_move(f, k))));
    }
    for a in 0..3 {
        for p in AMOUNTS {
            for n in AMOUNTS {
                v.push(Some(NonRedundantAxisMove::Double { axis: AXES[a], amount_positive: p, amount_negative: n }));
            }
        }
    }
    v
}

/// What a combined move does, from its fields.
fn parts(m: &Option<NonRedundantAxisMove>) -> Vec<(usize, u32)> {
    match m {
        None => vec![],
        Some(NonRedundantAxisMove::Single(m)) => vec![fq(m)],
        Some(NonRedundantAxisMove::Double { axis, amount_positive, amount_negative }) => {
            vec![(ax(*axis), quarters(*amount_positive)), (ax(*axis) + 3, quarters(*amount_negative))]
        }
    }
}

fn absorbing(ctx: &Ctx, g: &Group) {
    for before in options() {
        for (f, k) in all_turns() {
            ctx.add("evaluations", 1);
            ctx.add("absorptions", 1);
            let name = || format!("absorbing {} into {}", turn_name(f, k), text(&parts(&before)));
            let mut after = before.clone();
            let res = match catch(|| absorve(&mut after, &axis_move(f, k))) {
                Ok(r) => r,
                Err(e) => {
                    ctx.violation("absorve", format!("{}: panicked: {e}", name()));
                    continue;
                }
            };
            let p = parts(&before);
            let q = parts(&after);
            let same_axis = p.first().map_or(true, |x| face_axis(x.0) == face_axis(f));
            let has_face = p.iter().find(|x| x.0 == f);
            let refused = res == AbsorveResult::NotAdded;
            if refused == same_axis {
                ctx.violation("absorve", format!("{}: reports {res:?}", name()));
                continue;
            }
            if refused {
                if after != before {
                    ctx.violation("absorve", format!("{}: reports NotAdded but leaves {}", name(), text(&q)));
                }
                continue;
            }
            let (mut a, mut b) = ([0; 54], [0; 54]);
            let mut both = p.clone();
            both.push((f, k));
            g.effect(&both, &mut a);
            g.effect(&q, &mut b);
            if a != b {
                ctx.violation("absorve", format!("{}: gives {}, which does something else", name(), text(&q)));
            }
            if redundancy(&q).is_some() || q.iter().any(|x| face_axis(x.0) != face_axis(f)) {
                ctx.violation("absorve", format!("{}: gives {}", name(), text(&q)));
            }
            let cancels = has_face.is_some_and(|x| (x.1 + k) % 4 == 0);
            let ok = match &res {
                AbsorveResult::Collapsed => cancels,
                AbsorveResult::Absorved => p.is_empty() || (has_face.is_some() && !cancels),
                AbsorveResult::Added => has_face.is_none(),
                AbsorveResult::NotAdded => false,
            };
            if !ok {
                ctx.violation("absorve", format!("{}: reports {res:?} and gives {}", name(), text(&q)));
            }
        }
    }
}

/// The model's tables against the real cubes.
fn conformance(ctx: &Ctx, g: &Group, len: usize) {
    let turns = all_turns();
    let ph3 = Phys::new(3);
    let home = Cube3::home(&ph3);
    let total = 18usize.pow(len as u32);
    ctx.par_chunks(total, 512, |r| {
        for w in r {
            let mut x = w;
            let ms: Vec<(usize, u32)> = (0..len)
                .map(|_| {
                    let t = turns[x % 18];
                    x /= 18;
                    t
                })
                .collect();
            let res = catch(|| {
                let alg = Alg::<AxisMove>::new(ms.iter().map(|&(f, k)| axis_move(f, k)).collect());
                let norm = alg.clone().normalized();
                let (mut a, mut b) = (Cube3::SOLVED, Cube3::SOLVED);
                let (mut c, mut d) = (Cube2::SOLVED, Cube2::SOLVED);
                for m in &alg.moves {
                    a.apply(m);
                    c.apply(m);
                }
                for m in &norm.moves {
                    b.apply(m);
                    d.apply(m);
                }
                (a.refs(&ph3), a == b, c == d)
            });
            let (refs, same3, same2) = match res {
                Ok(x) => x,
                Err(e) => {
                    ctx.violation("panic", format!("normalising {} and applying it panicked: {e}", text(&ms)));
                    continue;
                }
            };
            let mut e = [0; 54];
            g.effect(&ms, &mut e);
            if !same3 || !same2 {
                ctx.violation("effect", format!("{} and its normalised form lead the {} to different states", text(&ms), if same3 { "2x2" } else { "3x3" }));
            }
            if home.iter().zip(&refs).any(|(&h, &r)| e[h as usize] != r) {
                // the turns themselves are C01's business
                ctx.add("model_and_cube_differ", 1);
            } else {
                ctx.add("effects_validated_on_the_real_cube", 1);
            }
            if ctx.stopped() {
                return;
            }
        }
    });
    ctx.add("evaluations", total as u64);
}

fn main() {
    mc::main("C14", "exploration", |ctx| {
        ctx.assume("the effect of a sequence is the permutation of stickers in the reference model; every short sequence is also applied to the real 2x2 and 3x3");
        let g = Group::new();
        absorbing(ctx, &g);
        conformance(ctx, &g, ctx.pick(3, 4));
        long_words(ctx, &g);
        all_words(ctx, &g, &all_turns(), ctx.pick(5, 6));
        for (a, b) in [(0, 1), (1, 2), (2, 0)] {
            // both faces of one axis and one face of another
            let al: Vec<_> = [(a, 1), (a, 3), (a + 3, 1), (a + 3, 3), (b, 1), (b, 3)].to_vec();
            all_words(ctx, &g, &al, ctx.pick(8, 9));
            let al: Vec<_> = [(a, 1), (a + 3, 2), (b, 1), (b, 3), (b + 3, 1), (b + 3, 3)].to_vec();
            all_words(ctx, &g, &al, ctx.pick(7, 9));
        }
        all_words(ctx, &g, &[(0, 2), (3, 2), (1, 2)], ctx.pick(11, 13));
        all_words(ctx, &g, &[(0, 1), (0, 3), (1, 1), (1, 3)], ctx.pick(9, 11));
        ctx.set("exhaustive", J::B(true));
        ctx.note("rule", "every sequence of the 18 turns up to the length bound and longer sequences over small alphabets that keep returning to the same axes; sequences of every length up to a larger bound, mixed, on few axes and followed by their own inverse; every (combined move, turn) pair for absorbing; nontrivial = the normalised sequence is shorter");
    });
}
