//! C08: distance estimates are exact or never overestimate.
use barbarosa::cube3::cfop::cross::{count_cross_pieces, get_cross_pieces, good_cross_heuristic, is_cross_edge, worse_but_admissable_cross_heuristic};
use barbarosa::cube_n::pieces::edge::min_moves_to_solve;
use barbarosa::cube3::heuristics::manhattan::{manhattan, manhattan_filtered, piece_manhattan, vec_manhattan};
use barbarosa::cube3::heuristics::zero;
use barbarosa::cube_n::pieces::{Corner, Edge};
use barbarosa::cube_n::{AxisMove, Cube3};
use barbarosa::generic::piece::PieceSetDescriptor;
use barbarosa::generic::{Cube, Movable, Piece};
use nalgebra::Vector3;
use mc::cross::*;
use mc::glue::*;
use mc::model::*;
use mc::*;

/// Distance along the axes, twice (places are made of whole numbers).
fn along(a: V, b: V) -> i32 {
    (0..3).map(|i| (a[i] - b[i]).abs()).sum()
}

/// The sums of the distances along the axes, against geometry.
fn distances(ctx: &Ctx) -> u64 {
    let mut n = 0;
    let edges: Vec<V> = <Edge as PieceSetDescriptor<12>>::REFERENCE_POSITIONS.iter().map(|(a, p)| edge_vec(*a, p)).collect();
    let corners: Vec<V> = <Corner as PieceSetDescriptor<8>>::REFERENCE_POSITIONS.iter().map(|p| [di(p.x), di(p.y), di(p.z)]).collect();
    for h in 0..12 {
        for p in 0..24 {
            let (pos, refs) = (p / 2, <Edge as PieceSetDescriptor<12>>::REFERENCE_POSITIONS);
            let e = Edge::new(refs[pos].0, refs[pos].1, p % 2 == 0);
            let want = along(edges[h], edges[pos]) as f32;
            n += 1;
            if catch(|| piece_manhattan(refs[h], &e)) != Ok(want) {
                ctx.violation("distance", format!("the distance along the axes of an edge of {:?} at {:?} is {want}, reported {:?}", edges[h], edges[pos], catch(|| piece_manhattan(refs[h], &e))));
            }
        }
    }
    for h in 0..8 {
        for p in 0..8 {
            let refs = <Corner as PieceSetDescriptor<8>>::REFERENCE_POSITIONS;
            let want = along(corners[h], corners[p]) as f32;
            n += 1;
            if catch(|| piece_manhattan(refs[h], &Corner::oriented(refs[p]))) != Ok(want) {
                ctx.violation("distance", format!("the distance along the axes of a corner of {:?} at {:?} is {want}", corners[h], corners[p]));
            }
        }
    }
    for a in 0..125 {
        for b in 0..125 {
            let v = |x: i32| [x % 5 - 2, x / 5 % 5 - 2, x / 25 - 2];
            let f = |v: V| Vector3::new(v[0] as f32 / 2.0, v[1] as f32 / 2.0, v[2] as f32 / 2.0);
            n += 1;
            if catch(|| vec_manhattan(&f(v(a)), &f(v(b)))) != Ok(along(v(a), v(b)) as f32 / 2.0) {
                ctx.violation("distance", format!("the distance along the axes between {:?} and {:?} (in halves)", v(a), v(b)));
            }
        }
    }
    // all cubes of up to three (four) turns, followed by more turns of a long walk for some
    let depth = ctx.pick(3, 4);
    let count: usize = (0..=depth).map(|d| 18usize.pow(d)).sum();
    ctx.par_chunks(count, 64, |r| {
        for i in r {
            let (mut i, mut len) = (i, 0);
            while i >= 18usize.pow(len) {
                i -= 18usize.pow(len);
                len += 1;
            }
            let mut c = Cube3::SOLVED;
            let turn = |x: usize, c: &mut Cube3| <Cube3 as Movable<AxisMove>>::apply(c, &axis_move(x / 3, x as u32 % 3 + 1));
            let mut k = i;
            for _ in 0..len {
                turn(k % 18, &mut c);
                k /= 18;
            }
            for long in [0, 25] {
                for s in 0..long {
                    turn((i * 7 + s * 5 + s * s * (i + 1)) % 18, &mut c);
                }
                let at: Vec<V> = c.edges.clone().into_iter().map(|e| edge_vec(e.normal_axis, &e.slice_position)).collect();
                let ct: Vec<V> = c.corners.clone().into_iter().map(|p| p.position()).map(|p| [di(p.x), di(p.y), di(p.z)]).collect();
                let all_edges: i32 = (0..12).map(|j| along(edges[j], at[j])).sum();
                let all_corners: i32 = (0..8).map(|j| along(corners[j], ct[j])).sum();
                let (want, got) = ((all_edges + all_corners) as f32 / 16.0, catch(|| manhattan(&c)));
                let text = || format!("cube with edges at {at:?} and corners at {ct:?}");
                if got != Ok(want) || catch(|| zero(&c)) != Ok(0.0) {
                    ctx.violation("distance", format!("{}: the estimate by distances is {got:?}, a sixteenth of their sum is {want}", text()));
                }
                // what is left out, by home and by place
                for f in 0..6 {
                    let on = |v: V| v[face_axis(f)] == face_dir(f);
                    let e_home: i32 = (0..12).filter(|&j| on(edges[j])).map(|j| along(edges[j], at[j])).sum();
                    let e_at: i32 = (0..12).filter(|&j| on(at[j])).map(|j| along(edges[j], at[j])).sum();
                    let c_home: i32 = (0..8).filter(|&j| on(corners[j])).map(|j| along(corners[j], ct[j])).sum();
                    let c_at: i32 = (0..8).filter(|&j| on(ct[j])).map(|j| along(corners[j], ct[j])).sum();
                    let got = catch(|| {
                        let cv = |p: &Vector3<_>| [di(p.x), di(p.y), di(p.z)];
                        [
                            manhattan_filtered(&c.edges, |h, _| on(edge_vec(h.0, &h.1))),
                            manhattan_filtered(&c.edges, |_, e| on(edge_vec(e.normal_axis, &e.slice_position))),
                            manhattan_filtered(&c.corners, |h, _| on(cv(h))),
                            manhattan_filtered(&c.corners, |_, p| on(cv(&p.position()))),
                        ]
                    });
                    if got != Ok([e_home, e_at, c_home, c_at].map(|x| x as f32)) {
                        ctx.violation("distance", format!("{}: the sums of the distances of edges and corners of and on {} are {got:?} instead of {:?}", text(), FACE_NAMES[f], [e_home, e_at, c_home, c_at]));
                    }
                }
            }
        }
    });
    n + 2 * count as u64
}

fn main() {
    mc::main("C08", "model_checking", |ctx| {
        let m = EdgeModel::new();
        let pos = <Edge as PieceSetDescriptor<12>>::REFERENCE_POSITIONS;
        let mut checked = 0u64;
        // one edge
        for home in 0..12 {
            let d = m.single(home);
            for s in 0..24 {
                let (a, p) = pos[s / 2];
                let e = Edge::new(a, p, s % 2 == 0);
                let text = || format!("edge of home {} at {}", m.ph.describe_slot(m.slot[2 * home]), m.ph.describe_slot(m.slot[s]));
                ctx.add("transitions", 18);
                checked += 1;
                match catch(|| min_moves_to_solve(&pos[home], &e)) {
                    Ok(g) if g == d[s] as i32 => (),
                    Ok(g) => ctx.violation("edge", format!("{}: estimated {g} turns, it takes {}", text(), d[s])),
                    Err(e) => ctx.violation("edge", format!("{}: panicked: {e}", text())),
                }
            }
            ctx.sample(format!("edge {:?}: distances of its 24 situations: {:?}", pos[home], d));
            ctx.add("states", 24);
        }
        // membership
        for f in 0..6 {
            let want: Vec<_> = m.edges_of(f).iter().map(|&i| pos[i]).collect();
            checked += 13;
            for (i, p) in pos.iter().enumerate() {
                if catch(|| is_cross_edge(p, &face(f))) != Ok(want.contains(p)) {
                    ctx.violation("cross-edges", format!("is_cross_edge of {} for face {}", m.ph.describe_slot(m.slot[2 * i]), FACE_NAMES[f]));
                }
            }
            match catch(|| get_cross_pieces(&face(f))) {
                Ok(g) => {
                    if !(want.iter().all(|w| g.contains(w)) && g.len() == 4) {
                        ctx.violation("cross-edges", format!("get_cross_pieces({}) = {g:?}", FACE_NAMES[f]));
                    }
                }
                Err(e) => ctx.violation("cross-edges", format!("get_cross_pieces({}): panicked: {e}", FACE_NAMES[f])),
            }
        }
        // crosses
        for f in 0..6 {
            let x = CrossModel::new(&m, f);
            assert_eq!(x.states(), 190_080);
            ctx.add("states", x.states() as u64);
            ctx.add("transitions", x.states() as u64 * 18);
            ctx.sample(format!("cross of {}: arrangements by exact distance {:?}", FACE_NAMES[f], x.by_dist.iter().map(|v| v.len()).collect::<Vec<_>>()));
            let variants = ctx.pick(3, 16);
            for (d, states) in x.by_dist.iter().enumerate() {
                ctx.par_chunks(states.len(), 512, |r| {
                    for i in r {
                        for v in 0..variants {
                            let c = x.cube(states[i], if v == 0 { 0 } else { i * 7 + v * 5 });
                            let text = || format!("cross of {} on {:?} ({d} turns from solved)", FACE_NAMES[f], c.edges);
                            let r = catch(|| (worse_but_admissable_cross_heuristic(&c, &face(f)), good_cross_heuristic(&c, &face(f)), count_cross_pieces(&c, &face(f))));
                            let (adm, good, n) = match r {
                                Ok(x) => x,
                                Err(e) => {
                                    ctx.violation("cross", format!("{}: panicked: {e}", text()));
                                    continue;
                                }
                            };
                            if !(adm <= d as f32) {
                                ctx.violation("cross-admissible", format!("{}: the admissible estimate is {adm}", text()));
                            }
                            if (adm == 0.0) != (d == 0) || !(adm >= 0.0) {
                                ctx.violation("cross-zero", format!("{}: the admissible estimate is {adm}", text()));
                            }
                            if (good == 0.0) != (d == 0) || !(good >= 0.0) || !good.is_finite() {
                                ctx.violation("cross-zero", format!("{}: the quick estimate is {good}", text()));
                            }
                            let want = (0..4).filter(|&j| states[i][j] as usize == x.edges[j] * 2).count() as i32;
                            if n != want {
                                ctx.violation("cross-count", format!("{}: {n} solved cross edges reported, {want} are", text()));
                            }
                        }
                    }
                });
                checked += (states.len() * variants) as u64;
            }
        }
        checked += distances(ctx);
        ctx.add("traces_validated_against_impl", checked);
        ctx.note("rule", "states: all situations of one edge for every home, all 190,080 arrangements of the cross edges of every face (model, breadth-first with exact distances); every one is built as a real cube and all estimates are compared; sums of distances along the axes of every piece in every place and of all cubes of up to 3 (4) turns");
    });
}
