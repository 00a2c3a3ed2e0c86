//! C07: the cross solver solves the cross, and the optimal one in the fewest turns.
use barbarosa::cube3::cfop::cross::{count_cross_pieces, solve_cross, solve_cross_fast};
use barbarosa::cube_n::{AxisMove, Cube3};
use barbarosa::generic::Movable;
use mc::cross::*;
use mc::glue::*;
use mc::model::*;
use mc::*;

fn solve(ctx: &Ctx, m: &EdgeModel, x: &CrossModel, c: &Cube3, d: usize, optimal: bool) {
    let f = face(x.face);
    let name = if optimal { "solve_cross" } else { "solve_cross_fast" };
    let text = || format!("{name} for {} on {:?} {:?} ({d} turns from solved)", FACE_NAMES[x.face], c.edges, c.corners);
    ctx.add("traces_validated_against_impl", 1);
    let r = ctx.guard(text, || catch(|| if optimal { solve_cross(c, &f) } else { solve_cross_fast(c, &f) }));
    match r {
        Err(e) => ctx.violation("panic", format!("{}: panicked: {e}", text())),
        Ok(None) => ctx.violation("none", format!("{}: no solution", text())),
        Ok(Some((a, end))) => {
            let mut e = c.clone();
            for mv in &a.moves {
                <Cube3 as Movable<AxisMove>>::apply(&mut e, mv);
            }
            if e != end {
                ctx.violation("result", format!("{}: {a} applied does not give the returned cube", text()));
            }
            if x.distance(m, &e) != 0 {
                ctx.violation("result", format!("{}: {a} does not solve the cross", text()));
            }
            if catch(|| count_cross_pieces(&end, &f)) != Ok(4) {
                ctx.violation("count", format!("{}: the returned cube does not count 4 cross edges", text()));
            }
            if a.moves.len() < d {
                panic!("reference distance {d} beaten by {a}: {}", text());
            }
            if optimal && a.moves.len() != d {
                ctx.violation("length", format!("{}: {a} has {} turns", text(), a.moves.len()));
            }
        }
    }
}

fn main() {
    mc::main("C07", "model_checking", |ctx| {
        ctx.set_hang_secs(600);
        ctx.assume("the optimal solver is run on all arrangements up to the stated distance only (its running time grows about twelvefold per turn)");
        let m = EdgeModel::new();
        let xs: Vec<CrossModel> = (0..6).map(|f| CrossModel::new(&m, f)).collect();
        for x in &xs {
            ctx.add("states", x.states() as u64);
            ctx.add("transitions", x.states() as u64 * 18);
        }
        let stage = |name: String, f: usize, d: usize, optimal: bool, stride: usize, variants: usize| {
            let x = &xs[f];
            let Some(states) = x.by_dist.get(d) else { return };
            let n = states.len() / stride + (states.len() % stride != 0) as usize;
            ctx.par_chunks(n, 8, |r| {
                for i in r {
                    let i = i * stride;
                    for v in 0..variants {
                        let mut c = x.cube(states[i], i * 5 + v * 3);
                        solve(ctx, &m, x, &c, d, optimal);
                        // the same edges, and other corners
                        if d < 4 && v == 0 {
                            let mut other = c.clone();
                            for t in [i, i / 3] {
                                <Cube3 as Movable<AxisMove>>::apply(&mut other, &axis_move(t % 6, 1));
                            }
                            c.corners = other.corners;
                            solve(ctx, &m, x, &c, d, optimal);
                        }
                    }
                    if ctx.stopped() {
                        return;
                    }
                }
            });
            ctx.add(&name, (n * variants) as u64);
        };
        for f in 0..6 {
            for d in 0..=3 {
                stage(format!("optimal_distance_{d}"), f, d, true, 1, 2);
                stage(format!("fast_distance_{d}"), f, d, false, 1, 2);
            }
        }
        ctx.log("up to 3 turns done");
        for f in 0..6 {
            stage("optimal_distance_4".into(), f, 4, true, ctx.pick(8, 1), 1);
            stage("fast_distance_4".into(), f, 4, false, ctx.pick(2, 1), 1);
        }
        ctx.log("4 turns done");
        for f in 0..6 {
            stage("fast_distance_5".into(), f, 5, false, ctx.pick(40, 1), 1);
        }
        ctx.log("fast 5 turns done");
        for f in 0..6 {
            stage("optimal_distance_5".into(), f, 5, true, ctx.pick(2000, 20), 1);
        }
        ctx.log("optimal 5 turns done");
        for f in 0..6 {
            for d in 6..=8 {
                stage(format!("fast_distance_{d}"), f, d, false, ctx.pick(6000, 500) / if d == 8 { 25 } else { 1 }, 1);
            }
        }
        ctx.log("fast to 8 turns done");
        ctx.sample(format!("arrangements by distance: {:?}", xs[0].by_dist.iter().map(|v| v.len()).collect::<Vec<_>>()));
        ctx.note("rule", "states: all arrangements of the four cross edges for each face with exact distances (model); the solvers are run on the real cubes of the arrangements counted by distance, solutions replayed and compared");
    });
}
