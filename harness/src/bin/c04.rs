//! C04: a cube reports solved exactly when every face shows its own colour.
use barbarosa::cube_n::moves::{rotation::AxisRotation, ExtendedAxisMove};
use barbarosa::cube_n::Orientable;
use barbarosa::generic::{Cube, Movable};
use mc::explore::*;
use mc::glue::*;
use mc::*;
use std::sync::atomic::{AtomicU64, Ordering::*};

/// is_solved() of the cube held as at the start, and held in three other ways
type Held<P> = fn(&P) -> [bool; 4];

macro_rules! held {
    ($c:ty) => {
        |c: &$c| {
            let mut h = Orientable::new(c.clone());
            let mut out = [h.is_solved(); 4];
            for (i, (a, k)) in [(0, 1), (1, 2), (2, 3)].into_iter().enumerate() {
                <Orientable<$c> as Movable<ExtendedAxisMove>>::apply(&mut h, &ExtendedAxisMove::Rotation(AxisRotation::new(AXES[a], amount(k))));
                out[i + 1] = h.is_solved();
            }
            out
        }
    };
}

fn judge<P: Puzzle>(ctx: &Ctx, su: &Setup, cube: &mut P, held: Held<P>, what: &dyn Fn() -> String) -> Option<bool> {
    let refs = cube.refs(&su.ph);
    let col = su.ph.colours(&su.home, &refs)?;
    let want = su.ph.shows_solved(&col);
    match catch(|| cube.is_solved()) {
        Ok(got) if got == want => (),
        Ok(got) => {
            let bad = (0..col.len()).find(|&s| su.ph.home_face(s as u16) as u8 != col[s]);
            ctx.violation(
                "is_solved",
                format!(
                    "{}: is_solved() says {got} but the cube {} ({})",
                    what(),
                    if want { "shows one colour per face" } else { "does not show one colour per face" },
                    bad.map_or("no sticker is off".into(), |s| format!("{} shows the colour of {}", su.ph.describe_slot(s as u16), mc::model::FACE_NAMES[col[s] as usize]))
                ),
            )
        }
        Err(e) => ctx.violation("panic", format!("{}: is_solved panicked: {e}", what())),
    }
    match catch(|| held(cube)) {
        // a solved cube that is held another way: its faces show one colour each, but not where they did
        Ok(g) if g[0] == want && (want || g == [false; 4]) => (),
        Ok(g) if g[0] != want => ctx.violation("is_solved-held", format!("{}, held as at the start: is_solved() says {} but the cube {}", what(), g[0], if want { "shows one colour per face" } else { "does not show one colour per face" })),
        Ok(g) => ctx.violation("is_solved-held", format!("{}, held another way: is_solved() says true (rotations x, then y2, then z': {:?}) but the cube does not show one colour per face", what(), &g[1..])),
        Err(e) => ctx.violation("panic", format!("{}, held: is_solved panicked: {e}", what())),
    }
    Some(want)
}

fn size<P: Puzzle>(ctx: &Ctx, depth: usize, pairs: bool, held: Held<P>) {
    let su = Setup::new::<P>();
    let solved = AtomicU64::new(0);
    let n = AtomicU64::new(0);
    let count = |r: Option<bool>| {
        if let Some(w) = r {
            n.fetch_add(1, Relaxed);
            if w {
                solved.fetch_add(1, Relaxed);
            }
        }
    };
    let mut s = P::SOLVED;
    count(judge(ctx, &su, &mut s, held, &|| format!("{}: the solved cube", su.name)));
    // all histories up to a depth; histories that leave the model are C01's and C02's business
    let st = bfs(ctx, &su, vec![(P::SOLVED, "solved".into())], depth, "turn", None, |c, _, h| {
        count(judge(ctx, &su, c, held, h));
    });
    ctx.add("states", st.states);
    ctx.add("transitions", st.transitions);
    ctx.log(format!("{}: {} states by turning", su.name, st.states));
    // reachable deviations: rearrangements of one kind
    for (kind, (name, len)) in P::kinds().into_iter().enumerate() {
        let base: usize = P::kinds()[..kind].iter().map(|k| k.1).sum();
        let n0 = n.load(SeqCst);
        let s0 = solved.load(SeqCst);
        // i <- j <- k <- i: every 3-cycle inside one orbit
        ctx.par(len, |i| {
            for j in 0..len {
                for k in 0..len {
                    if j == i || k == i || j == k || j < i || k < i {
                        continue;
                    }
                    if su.ph.rot_between(su.home[base + i], su.home[base + j]).is_none()
                        || su.ph.rot_between(su.home[base + i], su.home[base + k]).is_none()
                    {
                        continue;
                    }
                    let mut c = P::SOLVED;
                    c.permute(kind, &|x| if x == i { j } else if x == j { k } else if x == k { i } else { x });
                    count(judge(ctx, &su, &mut c, held, &|| format!("{}: 3-cycle of {name} {i} {j} {k}", su.name)));
                    if ctx.stopped() {
                        return;
                    }
                }
            }
        });
        // two swaps
        if pairs {
            ctx.par(len, |i| {
                for j in i + 1..len {
                    for k in i + 1..len {
                        for l in k + 1..len {
                            if k == j || l == j
                                || su.ph.rot_between(su.home[base + i], su.home[base + j]).is_none()
                                || su.ph.rot_between(su.home[base + k], su.home[base + l]).is_none()
                            {
                                continue;
                            }
                            let mut c = P::SOLVED;
                            c.permute(kind, &|x| if x == i { j } else if x == j { i } else if x == k { l } else if x == l { k } else { x });
                            count(judge(ctx, &su, &mut c, held, &|| format!("{}: {name} {i}<->{j} and {k}<->{l} swapped", su.name)));
                        }
                        if ctx.stopped() {
                            return;
                        }
                    }
                }
            });
        }
        // two kinds of pieces with four stickers of one face: all rearrangements inside one face and between two faces
        ctx.log(format!("{}: {name}: {} rearrangements, {} of them still solved", su.name, n.load(SeqCst) - n0, solved.load(SeqCst) - s0));
        ctx.sample(format!("{}: {name}: {} rearrangements, {} of them show one colour per face", su.name, n.load(SeqCst) - n0, solved.load(SeqCst) - s0));
    }
    // a single piece: cubes that were taken apart
    for a in 0..8 {
        for t in 1..3 {
            let mut c = P::SOLVED;
            for (i, p) in c.corner_set().iter_mut_unchecked().enumerate() {
                if i == a {
                    p.orientation_axis = AXES[(1 + t) % 3];
                }
            }
            count(judge(ctx, &su, &mut c, held, &|| format!("{}: corner {a} twisted", su.name)));
        }
    }
    for a in 0..12 {
        let mut c = P::SOLVED;
        if let Some(edges) = c.edge_set() {
            for (i, e) in edges.iter_mut_unchecked().enumerate() {
                e.oriented = i != a;
            }
            count(judge(ctx, &su, &mut c, held, &|| format!("{}: edge {a} flipped", su.name)));
        }
    }
    for (kind, (name, len)) in P::kinds().into_iter().enumerate() {
        let base: usize = P::kinds()[..kind].iter().map(|k| k.1).sum();
        for i in 0..len {
            for j in 0..i {
                if su.ph.rot_between(su.home[base + i], su.home[base + j]).is_some() {
                    let mut c = P::SOLVED;
                    c.permute(kind, &|x| if x == i { j } else if x == j { i } else { x });
                    count(judge(ctx, &su, &mut c, held, &|| format!("{}: {name} {i} and {j} swapped", su.name)));
                }
            }
        }
    }
    // twists and flips in place
    for a in 0..8 {
        for b in a + 1..8 {
            for (ta, tb) in [(1usize, 2usize), (2, 1)] {
                let mut c = P::SOLVED;
                for (i, p) in c.corner_set().iter_mut_unchecked().enumerate() {
                    let t = if i == a { ta } else if i == b { tb } else { continue };
                    let odd = p.position.iter().filter(|d| di(**d) < 0).count() % 2 == 1;
                    p.orientation_axis = AXES[(1 + if odd { 3 - t } else { t }) % 3];
                }
                count(judge(ctx, &su, &mut c, held, &|| format!("{}: corners {a} and {b} twisted in opposite senses", su.name)));
            }
        }
    }
    let mut c = P::SOLVED;
    if c.edge_set().is_some() {
        for a in 0..12 {
            for b in a + 1..12 {
                let mut c = P::SOLVED;
                for (i, e) in c.edge_set().unwrap().iter_mut_unchecked().enumerate() {
                    if i == a || i == b {
                        e.oriented = false;
                    }
                }
                count(judge(ctx, &su, &mut c, held, &|| format!("{}: edges {a} and {b} flipped", su.name)));
            }
        }
    }
    ctx.add("arrangements_judged", n.load(SeqCst));
    ctx.add("arrangements_that_show_solved", solved.load(SeqCst));
    ctx.add("traces_validated_against_impl", n.load(SeqCst));
}

fn main() {
    mc::main("C04", "model_checking", |ctx| {
        use barbarosa::cube_n::{Cube2, Cube3};
        ctx.assume("a 3-cycle, a pair of swaps inside an orbit, an opposite twist of two corners or a flip of two edges can be reached by turning (standard facts of the cube groups)");
        size::<Cube2>(ctx, ctx.pick(5, 7), true, held!(Cube2));
        size::<Cube3>(ctx, ctx.pick(4, 6), true, held!(Cube3));
        #[cfg(verif_hooks)]
        {
            use barbarosa::cube_n::{Cube4, Cube5, Cube6, Cube7};
            size::<Cube4>(ctx, ctx.pick(3, 4), ctx.pick(true, true), held!(Cube4));
            size::<Cube5>(ctx, ctx.pick(3, 4), ctx.pick(true, true), held!(Cube5));
            size::<Cube6>(ctx, ctx.pick(3, 3), ctx.pick(false, true), held!(Cube6));
            size::<Cube7>(ctx, ctx.pick(3, 3), ctx.pick(false, true), held!(Cube7));
        }
        #[cfg(not(verif_hooks))]
        mc::nohooks::solved(ctx, 3);
        ctx.note("rule", "every history up to the depth bound, every single twist, flip and swap, every 3-cycle and (up to the tier) every pair of swaps of pieces of one kind, every opposite twist of two corners and flip of two edges; is_solved() is compared with the colours the 6 faces show, for the cube itself and for the cube held as at the start and in three other ways");
    });
}
