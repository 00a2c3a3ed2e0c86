//! C16: converting between kinds of moves never changes their effect; no wide turn exceeds its maximum.
use barbarosa::cube_n::moves::rotation::AxisRotation;
use barbarosa::cube_n::moves::{ExtendedAxisMove, NonRedundantAxisMove, QuarterAxisMove};
use barbarosa::cube_n::{AxisMove, Cube2, Cube3, Cube4, Cube5, Cube6, Cube7, Orientable, WideAxisMove};
use barbarosa::generic::{Alg, Cube, Movable};
use mc::glue::*;
use mc::*;
use std::fmt::Debug;
use std::sync::atomic::{AtomicU64, Ordering::*};

type Ext = ExtendedAxisMove;

/// A state reached by plain steps on `start`.
fn steps<C: Clone>(start: &C, ms: &[(usize, u32)], one: impl Fn(&mut C, usize, u32)) -> C {
    let mut c = start.clone();
    for &(f, k) in ms {
        one(&mut c, f, k);
    }
    c
}

fn apply_seq<C: Movable<Alg<M>> + Clone, M: barbarosa::generic::Move>(start: &C, alg: &Alg<M>) -> C {
    let mut c = start.clone();
    Movable::<Alg<M>>::apply(&mut c, alg);
    c
}
fn apply_each<C: Movable<M> + Clone, M: barbarosa::generic::Move>(start: &C, ms: &[M]) -> C {
    let mut c = start.clone();
    for m in ms {
        Movable::<M>::apply(&mut c, m);
    }
    c
}

struct Tally {
    n: AtomicU64,
    nontrivial: AtomicU64,
}

fn expect<C: PartialEq>(ctx: &Ctx, t: &Tally, start: &C, want: &C, what: impl Fn() -> String, got: impl FnOnce() -> C) {
    t.n.fetch_add(1, Relaxed);
    if want != start {
        t.nontrivial.fetch_add(1, Relaxed);
    }
    match catch(got) {
        Ok(g) if g == *want => (),
        Ok(_) => ctx.violation("effect", format!("{}: does not have the effect of the original turns", what())),
        Err(e) => ctx.violation("panic", format!("{}: panicked: {e}", what())),
    }
}

fn starts<P: Turns>() -> Vec<(P, String)> {
    let ts = turns::<P>();
    let mut v = vec![(P::SOLVED, format!("{} solved", P::NAME))];
    for s in 0..2 {
        let mut c = P::SOLVED;
        let mut h = vec![];
        for i in 0..29 + s {
            let (f, k, d) = ts[(i * i * (5 - 2 * s) + i * 7 + 3 * s) % ts.len()];
            c.turn(f, k, d);
            h.push((f, k, d));
        }
        v.push((c, format!("{} after {}", P::NAME, history(&h))));
    }
    v
}

fn name(ms: &[(usize, u32)]) -> String {
    ms.iter().map(|&(f, k)| turn_name(f, k)).collect::<Vec<_>>().join(" ")
}

/// All conversions of one sequence of face turns; `$w` are the depth bounds the cube accepts.
macro_rules! size {
    ($ctx:ident, $t:ident, $c:ident, $len:expr, [$($w:literal),*]) => {{
        let (ctx, t) = ($ctx, &$t);
        let st = starts::<$c>();
        for l in 0..=$len {
            ctx.par_chunks(18usize.pow(l as u32), 128, |r| {
                let all = all_turns();
                for w in r {
                    let mut x = w;
                    let ms: Vec<(usize, u32)> = (0..l).map(|_| { let m = all[x % 18]; x /= 18; m }).collect();
                    let plain: Vec<AxisMove> = ms.iter().map(|&(f, k)| axis_move(f, k)).collect();
                    for (start, sname) in &st {
                        let Ok(want) = catch(|| steps(start, &ms, |c, f, k| c.face_turn(f, k))) else {
                            ctx.violation("panic", format!("{sname}: the turns {} panicked", name(&ms)));
                            continue;
                        };
                        let at = |s: &str| format!("{sname}: {} {s}", name(&ms));
                        let alg = Alg::<AxisMove>::new(plain.clone());
                        expect(ctx, t, start, &want, || at("as a sequence"), || apply_seq(start, &alg));
                        expect(ctx, t, start, &want, || at("collected into a sequence"), || apply_seq(start, &plain.iter().cloned().collect::<Alg<AxisMove>>()));
                        expect(ctx, t, start, &want, || at("as a slice"), || { let mut c = start.clone(); Movable::<[AxisMove]>::apply(&mut c, &plain); c });
                        expect(ctx, t, start, &want, || at("as a sequence of quarter turns"), || {
                            let q: Alg<QuarterAxisMove> = alg.clone().into();
                            apply_seq(start, &q)
                        });
                        expect(ctx, t, start, &want, || at("as quarter turns and back"), || {
                            let q: Alg<QuarterAxisMove> = alg.clone().into();
                            apply_each(start, &q.moves.iter().map(AxisMove::from).collect::<Vec<_>>())
                        });
                        expect(ctx, t, start, &want, || at("as combined moves"), || {
                            apply_each(start, &plain.iter().cloned().map(NonRedundantAxisMove::from).collect::<Vec<_>>())
                        });
                        expect(ctx, t, start, &want, || at("as combined moves and back"), || {
                            let nr = Alg::<NonRedundantAxisMove>::new(plain.iter().cloned().map(NonRedundantAxisMove::from).collect());
                            apply_seq(start, &Alg::<AxisMove>::from(nr))
                        });
                        expect(ctx, t, start, &want, || at("as turns of depth at most 0"), || apply_seq(start, &alg.clone().widen::<0>(0).expect("depth 0 is allowed")));
                        $(
                            expect(ctx, t, start, &want, || at(concat!("as wide turns of depth 0 at most ", stringify!($w))), || {
                                apply_seq(start, &alg.clone().widen::<$w>(0).expect("depth 0 is allowed"))
                            });
                        )*
                        let held = Orientable::new(start.clone());
                        let hwant = Orientable::new(want.clone());
                        expect(ctx, t, &held, &hwant, || at("as extended moves of the held cube"), || apply_each(&held, &plain.iter().cloned().map(Ext::from).collect::<Vec<_>>()));
                        expect(ctx, t, &held, &hwant, || at("as wide extended moves of depth 0 of the held cube"), || {
                            apply_each(&held, &plain.iter().map(|m| Ext::from(m.clone().widen::<5>(0).expect("depth 0 is allowed"))).collect::<Vec<_>>())
                        });
                    }
                    if ctx.stopped() {
                        return;
                    }
                }
            });
        }
        // combined moves of two faces: against their turns one after the other, in both orders
        for (start, sname) in &st {
            for a in 0..3 {
                for p in 1..4 {
                    for n in 1..4 {
                        let m = NonRedundantAxisMove::Double { axis: AXES[a], amount_positive: amount(p), amount_negative: amount(n) };
                        for ms in [[(a, p), (a + 3, n)], [(a + 3, n), (a, p)]] {
                            let Ok(want) = catch(|| steps(start, &ms, |c, f, k| c.face_turn(f, k))) else { continue };
                            let at = |s: &str| format!("{sname}: the combined move {} {s}", name(&ms));
                            expect(ctx, t, start, &want, || at("applied"), || apply_each(start, &[m.clone()]));
                            expect(ctx, t, start, &want, || at("as a sequence of turns"), || apply_seq(start, &Alg::<AxisMove>::from(m.clone())));
                            expect(ctx, t, start, &want, || at("in a sequence, as a sequence of turns"), || apply_seq(start, &Alg::<AxisMove>::from(Alg::<NonRedundantAxisMove>::new(vec![m.clone()]))));
                            expect(ctx, t, start, &want, || at("as its moves"), || apply_each(start, &m.moves().collect::<Vec<_>>()));
                        }
                    }
                }
            }
            // two combined moves: order
            let nr = combined();
            for x in &nr {
                for y in &nr {
                    let ms: Vec<(usize, u32)> = parts(x).into_iter().chain(parts(y)).collect();
                    let Ok(want) = catch(|| steps(start, &ms, |c, f, k| c.face_turn(f, k))) else { continue };
                    expect(ctx, t, start, &want, || format!("{sname}: {x:?} {y:?} as a sequence of turns"), || {
                        apply_seq(start, &Alg::<AxisMove>::from(Alg::<NonRedundantAxisMove>::new(vec![x.clone(), y.clone()])))
                    });
                    expect(ctx, t, start, &want, || format!("{sname}: {x:?} {y:?} applied"), || apply_each(start, &[x.clone(), y.clone()]));
                }
            }
        }
        ctx.log(format!("{}: {} comparisons", <$c as Turns>::NAME, t.n.load(SeqCst)));
    }};
}

fn combined() -> Vec<NonRedundantAxisMove> {
    let mut v: Vec<_> = all_turns().into_iter().map(|(f, k)| NonRedundantAxisMove::Single(axis_move(f, k))).collect();
    for axis in AXES {
        for p in AMOUNTS {
            for n in AMOUNTS {
                v.push(NonRedundantAxisMove::Double { axis, amount_positive: p, amount_negative: n });
            }
        }
    }
    v
}
fn parts(m: &NonRedundantAxisMove) -> Vec<(usize, u32)> {
    match m {
        NonRedundantAxisMove::Single(m) => vec![fq(m)],
        NonRedundantAxisMove::Double { axis, amount_positive, amount_negative } => {
            vec![(ax(*axis), quarters(*amount_positive)), (ax(*axis) + 3, quarters(*amount_negative))]
        }
    }
}

/// Wide turns through narrower and wider depth bounds on one cube; `$max` is the bound of the cube itself.
macro_rules! bounds {
    ($ctx:ident, $t:ident, $c:ident, $max:literal, [$($w:literal),*]) => {{
        let (ctx, t) = ($ctx, &$t);
        for (start, sname) in &starts::<$c>() {
            for d in 0..=$max {
                for (f, k) in all_turns() {
                    let Ok(want) = catch(|| { let mut c = start.clone(); c.turn(f, k, d); c }) else { continue };
                    let at = |s: &str| format!("{sname}: {} {s}", wide_name(f, k, d));
                    let m = WideAxisMove::<$max>::new(face(f), amount(k), d).expect("allowed depth");
                    $(
                        if d <= $w {
                            expect(ctx, t, start, &want, || at(concat!("with depth bound ", stringify!($w))), || {
                                apply_each(start, &[m.clone().set_max_depth::<$w>().expect("depth within the bound")])
                            });
                            expect(ctx, t, start, &want, || at(concat!("with depth bound ", stringify!($w), " and back")), || {
                                apply_each(start, &[m.clone().set_max_depth::<$w>().expect("depth within the bound").set_max_depth::<$max>().expect("depth within the bound")])
                            });
                            expect(ctx, t, start, &want, || at(concat!("widened with bound ", stringify!($w))), || {
                                apply_each(start, &[axis_move(f, k).widen::<$w>(d).expect("depth within the bound")])
                            });
                            expect(ctx, t, start, &want, || at(concat!("as a widened sequence with bound ", stringify!($w))), || {
                                apply_seq(start, &Alg::<AxisMove>::new(vec![axis_move(f, k)]).widen::<$w>(d).expect("depth within the bound"))
                            });
                        }
                    )*
                    expect(ctx, t, start, &want, || at("through a wider bound"), || {
                        apply_each(start, &[m.clone().set_max_depth::<9>().expect("allowed").set_max_depth::<{ u32::MAX }>().expect("allowed").set_max_depth::<$max>().expect("allowed")])
                    });
                    expect(ctx, t, start, &want, || at("through set_depth"), || {
                        let mut w = WideAxisMove::<$max>::new(face(f), amount(k), $max - d).expect("allowed depth");
                        w.set_depth(d).expect("allowed depth");
                        apply_each(start, &[w])
                    });
                    let held = Orientable::new(start.clone());
                    let hwant = Orientable::new(want.clone());
                    expect(ctx, t, &held, &hwant, || at("as an extended move of the held cube"), || apply_each(&held, &[Ext::from(m.clone())]));
                }
            }
        }
    }};
}

/// Long sequences of every kind of move: all at once (as `Alg`, slice, lazy and collected) against one move after the other.
fn long_kind<C, M>(ctx: &Ctx, t: &Tally, kind: &str, start: &C, moves: &[M], lens: &[usize])
where
    C: Movable<M> + PartialEq + Clone + Sync,
    M: barbarosa::generic::Move + Clone + Sync,
{
    ctx.par(lens.len() * 3, |j| {
        let (len, style) = (lens[j / 3], j % 3);
        let ms: Vec<M> = long::word(len, moves.len(), style).into_iter().map(|i| moves[i].clone()).collect();
        let Ok(want) = catch(|| apply_each(start, &ms)) else {
            return ctx.violation("panic", format!("{kind}: one after the other, {len} moves of style {style} panicked"));
        };
        let at = |s: &str| format!("{kind}: {len} moves (style {style}) {s}");
        let alg = Alg::<M>::new(ms.clone());
        expect(ctx, t, start, &want, || at("as a sequence"), || apply_seq(start, &alg));
        expect(ctx, t, start, &want, || at("as a slice"), || { let mut c = start.clone(); Movable::<[M]>::apply(&mut c, &ms[..]); c });
        expect(ctx, t, start, &want, || at("collected into a sequence"), || apply_seq(start, &ms.iter().cloned().collect::<Alg<M>>()));
    });
}

fn long_sequences(ctx: &Ctx, t: &Tally) {
    let lens = long::lengths(ctx.pick(300, 1100), ctx.pick(65_537, 100_001));
    let axis: Vec<AxisMove> = all_turns().into_iter().map(|(f, k)| axis_move(f, k)).collect();
    let quarter: Vec<QuarterAxisMove> = axis.iter().flat_map(|m| Alg::<QuarterAxisMove>::from(Alg::<AxisMove>::new(vec![m.clone()])).moves).collect();
    fn wide<const N: u32>() -> Vec<WideAxisMove<N>> {
        (0..=N).flat_map(|d| all_turns().into_iter().map(move |(f, k)| WideAxisMove::new(face(f), amount(k), d).expect("allowed depth"))).collect()
    }
    long_kind(ctx, t, "turns of the 2x2", &Cube2::SOLVED, &axis, &lens);
    long_kind(ctx, t, "turns of the 3x3", &Cube3::SOLVED, &axis, &lens);
    long_kind(ctx, t, "turns of the 5x5", &Cube5::SOLVED, &axis, &lens);
    long_kind(ctx, t, "quarter turns of the 3x3", &Cube3::SOLVED, &quarter, &lens);
    long_kind(ctx, t, "combined moves of the 3x3", &Cube3::SOLVED, &combined(), &lens);
    long_kind(ctx, t, "wide turns of the 4x4", &Cube4::SOLVED, &wide::<1>(), &lens);
    long_kind(ctx, t, "wide turns of the 7x7", &Cube7::SOLVED, &wide::<2>(), &lens);
    let mut ext: Vec<Ext> = axis.iter().cloned().map(Ext::from).collect();
    ext.extend(wide::<2>().into_iter().map(Ext::from));
    for a in 0..3 {
        for k in 1..4 {
            let r = AxisRotation { axis: AXES[a], amount: amount(k) };
            ext.push(Ext::from(r.clone()));
            ext.push(Ext::from((r.clone(), false)));
            ext.push(Ext::from((r, true)));
        }
    }
    long_kind(ctx, t, "extended moves of a held 7x7", &Orientable::new(Cube7::SOLVED), &ext, &lens);
    // conversions of long sequences
    ctx.par(lens.len() * 3, |j| {
        let (len, style) = (lens[j / 3], j % 3);
        let at = |s: &str| format!("3x3: {len} moves (style {style}) {s}");
        let start = Cube3::SOLVED;
        let ms: Vec<AxisMove> = long::word(len, 18, style).into_iter().map(|i| axis[i].clone()).collect();
        let Ok(want) = catch(|| apply_each(&start, &ms)) else { return };
        let alg = Alg::<AxisMove>::new(ms.clone());
        expect(ctx, t, &start, &want, || at("as a sequence of quarter turns"), || apply_each(&start, &Alg::<QuarterAxisMove>::from(alg.clone()).moves));
        expect(ctx, t, &start, &want, || at("as turns of depth at most 0"), || {
            let w = alg.clone().widen::<0>(0).expect("depth 0 is allowed");
            apply_each(&start, &w.moves.into_iter().map(|m| m.axis_move).collect::<Vec<_>>())
        });
        let cs = combined();
        let ns: Vec<NonRedundantAxisMove> = long::word(len, cs.len(), style).into_iter().map(|i| cs[i].clone()).collect();
        let Ok(nwant) = catch(|| apply_each(&start, &ns)) else { return };
        expect(ctx, t, &start, &nwant, || at("that are combined moves, as a sequence of turns"), || apply_each(&start, &Alg::<AxisMove>::from(Alg::<NonRedundantAxisMove>::new(ns.clone())).moves));
    });
}

/// Every operation that makes or changes a wide turn, against the bound.
fn depth_ops<const N: u32, const M: u32>(ctx: &Ctx, t: &Tally) {
    let depths = [0, 1, 2, 3, 4, 5, 6, 9, 10, u32::MAX - 1, u32::MAX];
    for d in depths {
        for (f, k) in [(0, 1), (4, 3), (5, 2)] {
            t.n.fetch_add(4, Relaxed);
            let ok = |what: &str, r: Result<Option<(usize, u32, u32)>, String>, allowed: bool, max: u32| {
                let want = allowed.then_some((f, k, d));
                match r {
                    Err(e) => ctx.violation("panic", format!("{what} with depth {d} of at most {max} panicked: {e}")),
                    Ok(g) if g == want => (),
                    Ok(Some(g)) if want.is_none() => ctx.violation("depth", format!("{what} with depth {d} of at most {max} is not refused and gives {g:?}")),
                    Ok(g) => ctx.violation("depth", format!("{what} with depth {d} of at most {max} gives {g:?} instead of {want:?}")),
                }
            };
            fn view<const X: u32>(m: &WideAxisMove<X>) -> (usize, u32, u32) {
                let (f, k) = fq(&m.axis_move);
                assert_eq!((fi(m.face()), quarters(m.amount())), (f, k));
                (f, k, m.depth())
            }
            ok("WideAxisMove::new", catch(|| WideAxisMove::<N>::new(face(f), amount(k), d).ok().map(|m| view(&m))), d <= N, N);
            ok("AxisMove::widen", catch(|| axis_move(f, k).widen::<N>(d).ok().map(|m| view(&m))), d <= N, N);
            let seq = catch(|| Alg::<AxisMove>::new(vec![axis_move(f, k), axis_move(f, k)]).widen::<N>(d).ok().map(|a| (a.moves.len(), view(&a.moves[0]), view(&a.moves[1]))));
            match seq {
                Ok(None) if d > N => (),
                Ok(Some((2, a, b))) if d <= N && a == (f, k, d) && b == a => (),
                x => ctx.violation("depth", format!("Alg::widen with depth {d} of at most {N} gives {x:?}")),
            }
            let Ok(m) = WideAxisMove::<{ u32::MAX }>::new(face(f), amount(k), d) else {
                ctx.violation("depth", format!("WideAxisMove of unlimited depth refuses depth {d}"));
                continue;
            };
            ok("set_max_depth", catch(|| m.clone().set_max_depth::<N>().ok().map(|m| view(&m))), d <= N, N);
            if d <= M {
                let from = WideAxisMove::<M>::new(face(f), amount(k), d);
                if let Ok(from) = from {
                    t.n.fetch_add(1, Relaxed);
                    ok("set_max_depth", catch(|| from.set_max_depth::<N>().ok().map(|m| view(&m))), d <= N, N);
                }
            }
            // set_depth: refused and unchanged, or set
            for before in depths {
                let Ok(mut w) = WideAxisMove::<N>::new(face(f), amount(k), before) else { continue };
                t.n.fetch_add(1, Relaxed);
                if before <= N && d <= N {
                    t.nontrivial.fetch_add(1, Relaxed);
                }
                match catch(|| {
                    let r = w.set_depth(d).is_ok();
                    (r, view(&w))
                }) {
                    Ok((true, v)) if d <= N && v == (f, k, d) => (),
                    Ok((false, v)) if d > N && v == (f, k, before) => (),
                    x => ctx.violation("depth", format!("set_depth({d}) on a turn of depth {before} of at most {N} gives {x:?}")),
                }
            }
        }
    }
}

fn rotations(ctx: &Ctx, t: &Tally) {
    // the rotation of a turn is the rotation of its face
    for (f, k) in all_turns() {
        t.n.fetch_add(1, Relaxed);
        let r = AxisRotation::from(&axis_move(f, k));
        let want = if mc::model::face_dir(f) > 0 { k } else { 4 - k };
        if ax(r.axis) != mc::model::face_axis(f) || quarters(r.amount) != want {
            ctx.violation("effect", format!("{} as a rotation is {r:?}", turn_name(f, k)));
        }
        match Ext::from(r.clone()) {
            Ext::Rotation(x) if x == r => (),
            x => ctx.violation("effect", format!("the rotation {r:?} as an extended move is {x:?}")),
        }
        match Ext::from((r.clone(), k == 2)) {
            Ext::Slice { rot, wide } if rot == r && wide == (k == 2) => (),
            x => ctx.violation("effect", format!("the slice of {r:?} as an extended move is {x:?}")),
        }
    }
}

fn main() {
    mc::main("C16", "exploration", |ctx| {
        let t = Tally { n: AtomicU64::new(0), nontrivial: AtomicU64::new(0) };
        rotations(ctx, &t);
        depth_ops::<0, 1>(ctx, &t);
        depth_ops::<1, 0>(ctx, &t);
        depth_ops::<1, 2>(ctx, &t);
        depth_ops::<2, 1>(ctx, &t);
        depth_ops::<2, 9>(ctx, &t);
        depth_ops::<3, 5>(ctx, &t);
        depth_ops::<9, 9>(ctx, &t);
        depth_ops::<{ u32::MAX }, 3>(ctx, &t);
        size!(ctx, t, Cube2, ctx.pick(4, 5), []);
        size!(ctx, t, Cube3, ctx.pick(4, 5), []);
        size!(ctx, t, Cube4, ctx.pick(3, 4), [1]);
        size!(ctx, t, Cube5, ctx.pick(3, 4), [1]);
        size!(ctx, t, Cube6, ctx.pick(3, 4), [1, 2]);
        size!(ctx, t, Cube7, ctx.pick(3, 4), [1, 2]);
        long_sequences(ctx, &t);
        bounds!(ctx, t, Cube4, 1, [0, 1]);
        bounds!(ctx, t, Cube5, 1, [0, 1]);
        bounds!(ctx, t, Cube6, 2, [0, 1, 2]);
        bounds!(ctx, t, Cube7, 2, [0, 1, 2]);
        ctx.add("evaluations", t.n.load(SeqCst));
        ctx.add("distinct_nontrivial", t.nontrivial.load(SeqCst));
        ctx.sample("R2 U' F as quarter turns R R U' F, as combined moves, as wide turns of depth 0 with bound 0, 1, 2, as extended moves of a held cube");
        ctx.sample("Rw (depth 1) with bound 1, 2, 9 and u32::MAX and back");
        ctx.set("exhaustive", J::B(true));
        ctx.note("rule", "every sequence of face turns up to the length bound, every pair of combined moves and every wide turn of every depth and bound, converted in every available way and applied to three states of every cube size; three sequences of every length up to a bound (and some very long ones) of every kind of move, all at once against one after the other; every operation that sets a depth with depths around the bound; nontrivial = the turns change the cube (or the depth is allowed)");
    });
}

#[allow(unused)]
fn _d<T: Debug>(_: T) {}
