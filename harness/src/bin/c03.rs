//! C03: undoing works, for every kind of move on every cube.
use barbarosa::cube_n::moves::{ExtendedAxisMove, NonRedundantAxisMove, QuarterAxisMove};
use barbarosa::cube_n::{AxisMove, Cube2, Cube3, Cube4, Cube5, Cube6, Cube7, Orientable, WideAxisMove};
use barbarosa::generic::{Alg, Movable, Move};
use mc::glue::*;
use mc::*;
use std::fmt::Debug;

type Ext = ExtendedAxisMove;

fn axis_moves() -> Vec<AxisMove> {
    all_turns().into_iter().map(|(f, k)| axis_move(f, k)).collect()
}
fn wide_moves<const D: u32>(depths: &[u32]) -> Vec<WideAxisMove<D>> {
    let mut v = vec![];
    for &d in depths {
        for (f, k) in all_turns() {
            v.push(WideAxisMove::new(face(f), amount(k), d).expect("allowed depth"));
        }
    }
    v
}
fn quarter_moves() -> Vec<QuarterAxisMove> {
    let mut v = vec![];
    for f in 0..6 {
        for d in DIRS {
            v.push(QuarterAxisMove::new(face(f), d));
        }
    }
    v
}
fn combined_moves() -> Vec<NonRedundantAxisMove> {
    let mut v: Vec<_> = axis_moves().into_iter().map(NonRedundantAxisMove::Single).collect();
    for a in AXES {
        for p in AMOUNTS {
            for n in AMOUNTS {
                v.push(NonRedundantAxisMove::Double { axis: a, amount_positive: p, amount_negative: n });
            }
        }
    }
    v
}
fn extended_moves(n: u32) -> Vec<Ext> {
    let mut v: Vec<_> = axis_moves().into_iter().map(Ext::Regular).collect();
    for a in 0..3 {
        for k in 1..4 {
            v.push(Ext::Rotation(rotation(a, k)));
            for wide in [false, true] {
                v.push(Ext::Slice { rot: rotation(a, k), wide });
            }
        }
    }
    let mut depths: Vec<u32> = (0..=n + 1).collect();
    depths.push(u32::MAX);
    v.extend(wide_moves::<{ u32::MAX }>(&depths).into_iter().map(Ext::Wide));
    v
}

/// Every sequence of moves up to `len`, applied and undone from every start.
fn sequences<C, M>(ctx: &Ctx, what: &str, starts: &[(C, String)], moves: &[M], len: usize)
where
    C: Movable<M> + Clone + PartialEq + Debug + Sync,
    M: Move + PartialEq + Debug + Sync + Send,
{
    let n = moves.len();
    let mut count = 0u64;
    let changed = std::sync::atomic::AtomicU64::new(0);
    for (start, sname) in starts {
        for l in 0..=len {
            let total = n.pow(l as u32);
            count += total as u64;
            ctx.par_chunks(total, 256, |r| {
                for w in r {
                    let mut x = w;
                    let mut ms = Vec::with_capacity(l);
                    for _ in 0..l {
                        ms.push(moves[x % n].clone());
                        x /= n;
                    }
                    let name = || format!("{what}, {sname}: {ms:?}");
                    let res = catch(|| {
                        let alg = Alg::<M>::new(ms.clone());
                        let rev = alg.reversed();
                        let back = rev.reversed();
                        let mut c = start.clone();
                        Movable::<Alg<M>>::apply(&mut c, &alg);
                        if c != *start {
                            changed.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        }
                        Movable::<Alg<M>>::apply(&mut c, &rev);
                        // and the other way round
                        let mut d = start.clone();
                        Movable::<Alg<M>>::apply(&mut d, &rev);
                        Movable::<Alg<M>>::apply(&mut d, &alg);
                        (c == *start, d == *start, back == alg)
                    });
                    match res {
                        Err(e) => ctx.violation("panic", format!("{}: panicked: {e}", name())),
                        Ok((a, b, c)) => {
                            if !a {
                                ctx.violation("undo", format!("{}: applying the reversal does not restore the state", name()));
                            }
                            if !b {
                                ctx.violation("undo", format!("{}: the sequence does not undo its reversal", name()));
                            }
                            if !c {
                                ctx.violation("twice", format!("{}: reversing twice gives another sequence", name()));
                            }
                        }
                    }
                    if ctx.stopped() {
                        return;
                    }
                }
            });
        }
    }
    ctx.add("evaluations", count);
    ctx.add("distinct_nontrivial", changed.into_inner());
    ctx.sample(format!("{what}: all sequences of length up to {len} over {n} moves from {} states", starts.len()));
}

/// Long sequences: reversed move by move, and undone.
fn long_undo<C, M>(ctx: &Ctx, what: &str, start: &(C, String), moves: &[M])
where
    C: Movable<M> + Clone + PartialEq + Debug + Sync,
    M: Move + PartialEq + Debug + Sync + Send,
{
    let lens = long::lengths(ctx.pick(200, 1100), ctx.pick(10_001, 65_537));
    ctx.par(lens.len() * 3, |j| {
        let (len, style) = (lens[j / 3], j % 3);
        let ms: Vec<M> = long::word(len, moves.len(), style).into_iter().map(|i| moves[i].clone()).collect();
        let name = || format!("{what}, {}: a sequence of {len} moves (style {style}, starting {:?})", start.1, &ms[..len.min(3)]);
        let r = catch(|| {
            let alg = Alg::<M>::new(ms.clone());
            let rev = alg.reversed();
            let mut bad = vec![];
            if rev.moves.len() != len {
                bad.push("the reversal has another length");
            } else if rev.moves.iter().zip(ms.iter().rev()).any(|(r, m)| *r != m.inverse()) {
                bad.push("the reversal is not the list of inverses from the last to the first");
            }
            if rev.reversed() != alg {
                bad.push("reversing twice gives another sequence");
            }
            let mut c = start.0.clone();
            Movable::<Alg<M>>::apply(&mut c, &alg);
            Movable::<Alg<M>>::apply(&mut c, &rev);
            if c != start.0 {
                bad.push("applying the reversal does not restore the state");
            }
            Movable::<Alg<M>>::apply(&mut c, &rev);
            Movable::<Alg<M>>::apply(&mut c, &alg);
            if c != start.0 {
                bad.push("the sequence does not undo its reversal");
            }
            bad
        });
        match r {
            Err(e) => ctx.violation("panic", format!("{}: panicked: {e}", name())),
            Ok(bad) => bad.iter().for_each(|b| ctx.violation("long", format!("{}: {b}", name()))),
        }
    });
    ctx.add("evaluations", lens.len() as u64 * 3);
    ctx.add("long_sequences", lens.len() as u64 * 3);
}

/// m m' = nothing, m m m m = nothing; for a family given by its amount: double = two singles, inverse = three.
fn laws<C, M>(ctx: &Ctx, what: &str, starts: &[(C, String)], families: &[[M; 3]])
where
    C: Movable<M> + Clone + PartialEq + Debug + Sync,
    M: Move + PartialEq + Debug + Sync,
{
    for (start, sname) in starts {
        for fam in families {
            let r = catch(|| {
                let run = |ms: &[&M]| {
                    let mut c = start.clone();
                    for m in ms {
                        c.apply(*m);
                    }
                    c
                };
                let mut bad = vec![];
                let [one, two, three] = fam;
                if run(&[two]) != run(&[one, one]) {
                    bad.push(format!("{two:?} differs from two times {one:?}"));
                }
                if run(&[three]) != run(&[one, one, one]) {
                    bad.push(format!("{three:?} differs from three times {one:?}"));
                }
                for m in fam {
                    if run(&[m, m, m, m]) != *start {
                        bad.push(format!("four times {m:?} changes the cube"));
                    }
                    let inv = m.inverse();
                    if run(&[m, &inv]) != *start || run(&[&inv, m]) != *start {
                        bad.push(format!("{m:?} and its inverse {inv:?} change the cube"));
                    }
                    if inv.inverse() != *m {
                        bad.push(format!("the inverse of the inverse of {m:?} is {:?}", inv.inverse()));
                    }
                }
                bad
            });
            ctx.add("evaluations", 11);
            ctx.add("distinct_nontrivial", 11);
            match r {
                Ok(bad) => {
                    for b in bad {
                        ctx.violation("law", format!("{what}, {sname}: {b}"));
                    }
                }
                Err(e) => ctx.violation("panic", format!("{what}, {sname}: {fam:?}: panicked: {e}")),
            }
        }
    }
}

fn families<M: Clone>(f: impl Fn(usize, u32) -> M) -> Vec<[M; 3]> {
    (0..6).map(|x| [f(x, 1), f(x, 2), f(x, 3)]).collect()
}

fn starts<P: Turns>() -> Vec<(P, String)> {
    let ts = turns::<P>();
    let mut v = vec![(P::SOLVED, format!("{} solved", P::NAME))];
    for s in 0..2 {
        let mut c = P::SOLVED;
        let mut h = vec![];
        for i in 0..27 + s {
            let (f, k, d) = ts[(i * i * (3 + s) + i * 7 + s) % ts.len()];
            c.turn(f, k, d);
            h.push((f, k, d));
        }
        v.push((c, format!("{} after {}", P::NAME, history(&h))));
    }
    v
}

macro_rules! size {
    ($ctx:ident, $c:ident, [$($w:literal),*], len3: $l3:expr, len2: $l2:expr, ext: $e:expr) => {{
        let ctx = $ctx;
        let st = starts::<$c>();
        let t0 = ctx.elapsed();
        sequences(ctx, "face turns", &st, &axis_moves(), $l3);
        long_undo(ctx, "face turns", &st[1], &axis_moves());
        long_undo(ctx, "quarter turns", &st[1], &quarter_moves());
        long_undo(ctx, "combined same-axis moves", &st[1], &combined_moves());
        $(long_undo(ctx, concat!("wide moves of depth at most ", stringify!($w)), &st[1], &wide_moves::<$w>(&(0..=$w).collect::<Vec<_>>()));)*
        laws(ctx, "face turns", &st, &families(axis_move));
        sequences(ctx, "quarter turns", &st, &quarter_moves(), $l3);
        for f in 0..6 {
            for d in DIRS {
                // a quarter move has no double: compare with plain turns
                let q = QuarterAxisMove::new(face(f), d);
                for (start, sname) in &st {
                    let r = catch(|| {
                        let mut c = start.clone();
                        for _ in 0..4 {
                            c.apply(&q);
                        }
                        c == *start
                    });
                    if r != Ok(true) {
                        ctx.violation("law", format!("{sname}: four times {q:?} changes the cube or panics"));
                    }
                }
            }
        }
        sequences(ctx, "combined same-axis moves", &st, &combined_moves(), $l2);
        laws(ctx, "combined same-axis moves", &st, &families(|f, k| NonRedundantAxisMove::Single(axis_move(f, k))));
        laws(ctx, "combined same-axis moves", &st, &AXES.iter().flat_map(|&axis| {
            use barbarosa::cube_n::moves::Amount::*;
            let d = move |p, n| NonRedundantAxisMove::Double { axis, amount_positive: p, amount_negative: n };
            [[d(Single, Single), d(Double, Double), d(Inverse, Inverse)], [d(Single, Inverse), d(Double, Double), d(Inverse, Single)]]
        }).collect::<Vec<_>>());
        sequences(ctx, "wide moves of depth at most 0", &st, &wide_moves::<0>(&[0]), $l2);
        $(
            sequences(ctx, concat!("wide moves of depth at most ", stringify!($w)), &st, &wide_moves::<$w>(&(0..=$w).collect::<Vec<_>>()), $l2);
            for d in 0..=$w {
                laws(ctx, concat!("wide moves of depth at most ", stringify!($w)), &st, &families(|f, k| WideAxisMove::<$w>::new(face(f), amount(k), d).unwrap()));
            }
        )*
        // held cubes, in a few ways of holding them
        let mut held: Vec<(Orientable<$c>, String)> = vec![];
        for (i, (c, n)) in st.iter().enumerate() {
            let mut o = Orientable::new(c.clone());
            let mut n = n.clone();
            for a in 0..i {
                o.apply(&Ext::Rotation(rotation((a + i) % 3, 1 + 2 * (a as u32 % 2))));
                n += ", rotated";
            }
            held.push((o, n));
        }
        let ext = extended_moves(<$c as Turns>::N as u32);
        sequences(ctx, "extended moves", &held, &ext, $e);
        long_undo(ctx, "extended moves", &held[2], &ext);
        laws(ctx, "extended moves", &held, &families(|f, k| Ext::Regular(axis_move(f, k))));
        laws(ctx, "extended moves", &held, &(0..3).map(|a| [1, 2, 3].map(|k| Ext::Rotation(rotation(a, k)))).collect::<Vec<_>>());
        for wide in [false, true] {
            laws(ctx, "extended moves", &held, &(0..3).map(|a| [1, 2, 3].map(|k| Ext::Slice { rot: rotation(a, k), wide })).collect::<Vec<_>>());
        }
        for d in (0..=<$c as Turns>::N as u32 + 1).chain([u32::MAX]) {
            laws(ctx, "extended moves", &held, &families(|f, k| Ext::Wide(WideAxisMove::new(face(f), amount(k), d).unwrap())));
        }
        ctx.log(format!("{}: {:.1} s", <$c as Turns>::NAME, ctx.elapsed() - t0));
    }};
}

fn main() {
    mc::main("C03", "exploration", |ctx| {
        let (a, b) = (ctx.pick(4, 5), ctx.pick(3, 4));
        let e = ctx.pick(2, 3);
        size!(ctx, Cube2, [], len3: a, len2: b, ext: e);
        size!(ctx, Cube3, [], len3: a, len2: b, ext: e);
        size!(ctx, Cube4, [1], len3: ctx.pick(3, 4), len2: ctx.pick(2, 3), ext: e);
        size!(ctx, Cube5, [1], len3: ctx.pick(3, 4), len2: ctx.pick(2, 3), ext: e);
        size!(ctx, Cube6, [1, 2], len3: ctx.pick(3, 4), len2: ctx.pick(2, 3), ext: e);
        size!(ctx, Cube7, [1, 2], len3: ctx.pick(3, 4), len2: ctx.pick(2, 3), ext: e);
        ctx.set("exhaustive", J::B(true));
        ctx.note("rule", "every sequence up to the length bound of every kind of move (face, quarter, combined, wide of every depth bound, extended incl. rotations, slices and any depth) from three states per cube; three sequences of every length up to a bound and some longer ones; nontrivial = the sequence changes the cube");
    });
}
