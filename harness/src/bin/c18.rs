//! C18: rotating faces, axes, positions, pieces and moves is the geometric rotation.
use barbarosa::cube_n::moves::rotation::{rotate_vec2, AxisRotation, Rotatable};
use barbarosa::cube_n::pieces::center::{corner::CenterCorner, edge::CenterEdge, wing::CenterWing};
use barbarosa::cube_n::pieces::{Corner, Edge, Wing};
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::cube_n::AxisMove;
use barbarosa::generic::piece::{Coordinates, PieceSetDescriptor};
use barbarosa::generic::{Alg, Movable};
use mc::glue::*;
use mc::model::*;
use mc::*;
use nalgebra::Vector3;
use std::fmt::Debug;

const AXIS_NAMES: [&str; 3] = ["X", "Y", "Z"];
fn rot_name(a: usize, k: u32) -> String {
    format!("{}{}", ["x", "y", "z"][a], ["", "", "2", "'"][k as usize])
}

/// Compares one answer of the implementation with geometry; a panic is a wrong answer.
fn same<T: PartialEq + Debug>(ctx: &Ctx, key: &str, what: impl Fn() -> String, got: impl FnOnce() -> T, want: T) {
    ctx.add("evaluations", 1);
    match catch(got) {
        Ok(g) if g == want => (),
        Ok(g) => ctx.violation(key, format!("{} is {g:?}, geometry says {want:?}", what())),
        Err(e) => ctx.violation(key, format!("{} panicked: {e}", what())),
    }
}

fn v3(v: V) -> Vec3 {
    Vec3::new(dir(v[0]), dir(v[1]), dir(v[2]))
}
fn vi(v: Vector3<i8>) -> V {
    [v.x as i32, v.y as i32, v.z as i32]
}
fn signs() -> Vec<V> {
    let mut o = vec![];
    for x in [1, -1] {
        for y in [1, -1] {
            for z in [1, -1] {
                o.push([x, y, z]);
            }
        }
    }
    o
}

fn faces(ctx: &Ctx) {
    for f in 0..6 {
        let n = FACE_NAMES[f];
        let fc = face(f);
        same(ctx, "face", || format!("the opposite of {n}"), || fi(&fc.opposite()), opp(f));
        same(ctx, "face", || format!("the coordinates of {n}"), || vi(fc.coords()), face_vec(f));
        same(ctx, "face", || format!("the vector of {n}"), || vi(Vector3::<i8>::from(&fc)), face_vec(f));
        same(ctx, "face", || format!("the index of {n}"), || fc.index(), f);
        same(ctx, "face", || format!("the name of {n}"), || fc.to_string(), n.to_string());
        let (ax_, d) = (AXES[face_axis(f)], dir(face_dir(f)));
        same(ctx, "face", || format!("Face::new for {n}"), || fi(&Face::new(ax_, d)), f);
        for a in 0..3 {
            same(ctx, "around", || format!("{n} one step clockwise around {}", AXIS_NAMES[a]), || fi(&fc.clone().next_around(&AXES[a])), vec_face(cw(a, face_vec(f))));
            same(ctx, "around", || format!("{n} one step counter-clockwise around {}", AXIS_NAMES[a]), || fi(&fc.clone().prev_around(&AXES[a])), vec_face(cwk(a, 3, face_vec(f))));
        }
        for g in 0..6 {
            let c = cross(face_vec(f), face_vec(g));
            let want = (c != [0, 0, 0]).then(|| vec_face(c));
            same(ctx, "cross", || format!("the face perpendicular to {n} and {}", FACE_NAMES[g]), || fc.cross(&face(g)).map(|x| fi(&x)), want);
            same(ctx, "face", || format!("equality of {n} and {}", FACE_NAMES[g]), || fc == face(g), f == g);
        }
        for s in signs() {
            same(ctx, "contains", || format!("whether {n} contains the corner at {s:?}"), || fc.contains_vector(&v3(s)), s[face_axis(f)] == face_dir(f));
        }
        for (nrm, sp) in edge_positions() {
            for o in [true, false] {
                let p = edge_vec(nrm, &sp);
                same(ctx, "contains", || format!("whether {n} contains the edge at {p:?}"), || fc.contains_edge(&Edge::new(nrm, sp, o)), p[face_axis(f)] == face_dir(f));
            }
        }
    }
    same(ctx, "face", || "the list of faces".into(), || Face::iter().map(|f| fi(&f)).collect::<Vec<_>>(), (0..6).collect());
    let named = [Face::R, Face::U, Face::F, Face::L, Face::D, Face::B];
    use barbarosa::cube_n::space::faces;
    let named2 = [faces::R, faces::U, faces::F, faces::L, faces::D, faces::B];
    for f in 0..6 {
        same(ctx, "face", || format!("Face::{}", FACE_NAMES[f]), || (fi(&named[f]), fi(&named2[f])), (f, f));
    }
}

fn axes(ctx: &Ctx) {
    for a in 0..3 {
        let x = AXES[a];
        let n = AXIS_NAMES[a];
        same(ctx, "axis", || format!("the vector of {n}"), || vi(Vector3::<i8>::from(&x)), face_vec(a));
        same(ctx, "axis", || format!("the axis after {n}"), || ax(x.next()), (a + 1) % 3);
        same(ctx, "axis", || format!("the axis before {n}"), || ax(x.prev()), (a + 2) % 3);
        same(ctx, "axis", || format!("the basis of {n}"), || Axis::basis(&x).map(ax), [(a + 1) % 3, (a + 2) % 3]);
        for d in [1, -1] {
            let want = if d > 0 { (a + 1) % 3 } else { (a + 2) % 3 };
            same(ctx, "axis", || format!("the axis next to {n}, handedness {d}"), || ax(x.next_with_handedness(dir(d))), want);
        }
        for b in 0..3 {
            let y = AXES[b];
            let m = AXIS_NAMES[b];
            let c = cross(face_vec(a), face_vec(b));
            let want = (a != b).then(|| c[3 - a - b]);
            same(ctx, "axis", || format!("the handedness of {n} and {m}"), || x.get_handedness(&y).ok().map(di), want);
            same(ctx, "axis", || format!("the axis other than {n} and {m}"), || Axis::other(&x, &y).map(ax), (a != b).then(|| 3usize.wrapping_sub(a).wrapping_sub(b)));
            same(ctx, "axis", || format!("the offset from {n} to {m}"), || x.offset(&y), (b as i32 - a as i32).rem_euclid(3));
            let mut v = Vector3::new(10, 20, 30);
            same(ctx, "axis", || format!("the {n} entry of a vector"), || v[x], [10, 20, 30][a]);
            v[y] = 7;
            let mut want = [10, 20, 30];
            want[b] = 7;
            same(ctx, "axis", || format!("a vector after setting {m}"), || [v.x, v.y, v.z], want);
        }
        same(
            ctx,
            "axis",
            || format!("the coordinates in the plane perpendicular to {n}"),
            || {
                let p = barbarosa::generic::utils::slice_coords(Vector3::new(10, 20, 30), x);
                [p.x.min(p.y), p.x.max(p.y)]
            },
            [if a == 0 { 20 } else { 10 }, if a == 2 { 20 } else { 30 }],
        );
        // looking at the axis head on
        let v = Vector3::new(10, 20, 30);
        let mut want = [10, 20, 30];
        want[(a + 1) % 3] = 2 * v[(a + 1) % 3] + 1;
        want[(a + 2) % 3] = 3 * v[(a + 2) % 3] + 2;
        same(
            ctx,
            "axis",
            || format!("the slice perpendicular to {n} mapped"),
            || {
                let r = x.map_on_slice(v, |[p, q]| nalgebra::Vector2::new(2 * p + 1, 3 * q + 2));
                [r.x, r.y, r.z]
            },
            want,
        );
        for k in 1..4 {
            let r = rotation(a, k);
            same(ctx, "rotation", || format!("the inverse of {}", rot_name(a, k)), || (ax(r.inverse().axis), quarters(r.inverse().amount)), (a, 4 - k));
            same(ctx, "rotation", || format!("{}", rot_name(a, k)), || (ax(AxisRotation::new(AXES[a], amount(k)).axis), quarters(AxisRotation::new(AXES[a], amount(k)).amount)), (a, k));
        }
    }
    for d in [1, -1] {
        same(ctx, "direction", || format!("minus {d}"), || di(-dir(d)), -d);
        same(ctx, "direction", || format!("the number of {d}"), || (dir(d).scalar() as i32, i8::from(&dir(d)) as i32), (d, d));
    }
    for (f, k) in all_turns() {
        // the rotation a turn performs: clockwise seen from the face
        let want = if f < 3 { (f, k) } else { (f - 3, 4 - k) };
        same(ctx, "rotation", || format!("the rotation of the turn {}", turn_name(f, k)), || { let r = AxisRotation::from(&axis_move(f, k)); (ax(r.axis), quarters(r.amount)) }, want);
    }
    for x in [1, -1] {
        for y in [1, -1] {
            for k in 1..4 {
                // on the slice of Z, seen head on, X right and Y up
                let w = cwk(2, k, [x, y, 0]);
                same(ctx, "rotation", || format!("({x}, {y}) turned {k} quarter(s) clockwise"), || { let r = rotate_vec2(&amount(k), &Vec2::new(dir(x), dir(y))); [di(r.x), di(r.y)] }, [w[0], w[1]]);
            }
        }
    }
}

fn edge_positions() -> Vec<(Axis, Vec2)> {
    let mut o = vec![];
    for a in AXES {
        for x in DIRS {
            for y in DIRS {
                o.push((a, Vec2::new(x, y)));
            }
        }
    }
    o
}

/// The pieces' own descriptions of where they are.
fn pieces(ctx: &Ctx) {
    for s in signs() {
        for a in 0..3 {
            let c = Corner::new(v3(s), AXES[a]);
            let t = || format!("the corner at {s:?} with its sticker on {}", AXIS_NAMES[a]);
            let mut want: Vec<usize> = (0..3).map(|i| face_of(i, s[i])).collect();
            want.sort();
            same(ctx, "corner", || format!("the faces of {}", t()), || { let mut v: Vec<_> = c.faces().iter().map(fi).collect(); v.sort(); v }, want);
            same(ctx, "corner", || format!("whether {} is oriented", t()), || c.is_oriented(), a == 1);
            // counter-clockwise around the diagonal that points outwards
            let ccw = |a: usize| (0..3).find(|&b| b != a && { let c = cross(face_vec(face_of(a, s[a])), face_vec(face_of(b, s[b]))); dot(c, s) > 0 }).unwrap();
            same(ctx, "corner", || format!("the next axis of {}", t()), || ax(Corner::next_axis(&v3(s), &AXES[a])), ccw(a));
            same(ctx, "corner", || format!("{} after twisting", t()), || { let mut c = c.clone(); c.twist(); ([di(c.position.x), di(c.position.y), di(c.position.z)], ax(c.orientation_axis)) }, (s, ccw(a)));
            let twists = (0..3).find(|&n| (0..n).fold(1, |b, _| ccw(b)) == a).unwrap();
            same(ctx, "corner", || format!("the orientation number of {}", t()), || c.orientation_index(), twists);
            same(ctx, "corner", || format!("the coordinates of {}", t()), || { let v = c.coordinates(); [v.x, v.y, v.z] }, s.map(|x| x as f32));
        }
    }
    for (n, sp) in edge_positions() {
        let p = edge_vec(n, &sp);
        for o in [true, false] {
            let e = Edge::new(n, sp, o);
            let t = || format!("the edge at {p:?}, oriented: {o}");
            let mut want: Vec<usize> = (0..3).filter(|&i| p[i] != 0).map(|i| face_of(i, p[i])).collect();
            want.sort();
            same(ctx, "edge", || format!("the faces of {}", t()), || { let mut v: Vec<_> = e.faces().iter().map(fi).collect(); v.sort(); v }, want);
            same(ctx, "edge", || format!("{} flipped", t()), || { let f = e.clone().flipped(); let mut g = e.clone(); g.flip(); (f == g, f.oriented, edge_vec(f.normal_axis, &f.slice_position)) }, (true, !o, p));
            same(ctx, "edge", || format!("the coordinates of {}", t()), || { let v = e.coordinates(); [v.x, v.y, v.z] }, p.map(|x| x as f32));
        }
        let pos = (n, sp);
        same(ctx, "edge", || format!("the orientation face of the place {p:?}"), || fi(&Edge::orientation_face(pos)), edge_orientation_face(p));
        same(ctx, "edge", || format!("the other face of the place {p:?}"), || fi(&Edge::non_orientation_face(pos)), edge_other_face(p));
        for a in 0..3 {
            same(ctx, "edge", || format!("the direction of the place {p:?} on {}", AXIS_NAMES[a]), || Edge::direction_on_axis(&pos, AXES[a]).map(di), (p[a] != 0).then_some(p[a]));
        }
        for d in DIRS {
            let t = || format!("the wing on the edge {p:?} towards {:?}", d);
            let mut want: Vec<usize> = (0..3).filter(|&i| p[i] != 0).map(|i| face_of(i, p[i])).collect();
            want.sort();
            same(ctx, "wing", || format!("the place of {}", t()), || { let w = Wing::new(n, sp, d); let mut f: Vec<_> = w.faces().iter().map(fi).collect(); f.sort(); (w.normal_axis(), w.slice_position(), w.normal_direction(), f) }, (n, sp, d, want));
        }
    }
    for f in 0..6 {
        for g in 0..6 {
            let par = face_axis(f) == face_axis(g);
            let (a, b) = (face_vec(f), face_vec(g));
            let p = [a[0] + b[0], a[1] + b[1], a[2] + b[2]];
            let t = || format!("{} and {}", FACE_NAMES[f], FACE_NAMES[g]);
            same(ctx, "edge", || format!("the edge place between {}", t()), || Edge::position_from_faces([face(f), face(g)]).ok().map(|(n, s)| edge_vec(n, &s)), (!par).then_some(p));
            same(ctx, "edge", || format!("the edge between {}", t()), || Edge::try_from([face(f), face(g)]).ok().map(|e| (edge_vec(e.normal_axis, &e.slice_position), e.oriented)), (!par).then_some((p, true)));
            for d in DIRS {
                same(ctx, "wing", || format!("the wing between {} towards {d:?}", t()), || Wing::try_from_faces([face(f), face(g)], d).ok().map(|w| (edge_vec(w.normal_axis(), &w.slice_position()), w.normal_direction())), (!par).then_some((p, d)));
            }
            same(ctx, "centre", || format!("the centre edge on {} towards {}", FACE_NAMES[f], FACE_NAMES[g]), || CenterEdge::try_from_faces(face(f), face(g)).ok().map(|c| (fi(&c.main_face), fi(&c.side_face()), ax(c.normal_axis()))), (!par).then(|| (f, g, (6usize - face_axis(f) - face_axis(g)) % 3)));
        }
        for h in DIRS {
            for sd in DIRS {
                let side_axis = if h == Direction::Positive { (face_axis(f) + 1) % 3 } else { (face_axis(f) + 2) % 3 };
                let side = face_of(side_axis, di(sd));
                let nrm = 3 - face_axis(f) - side_axis;
                let t = || format!("the centre on {} towards {}", FACE_NAMES[f], FACE_NAMES[side]);
                same(ctx, "centre", || format!("the place of {}", t()), || { let c = CenterEdge::new(face(f), h, sd); (fi(&c.main_face), fi(&c.side_face()), ax(c.normal_axis())) }, (f, side, nrm));
                for nd in DIRS {
                    same(ctx, "centre", || format!("the place of {} and {nd:?}", t()), || { let c = CenterWing::new(face(f), h, sd, nd); (fi(c.main_face()), fi(&c.side_face()), ax(c.normal_axis()), c.normal_direction()) }, (f, side, nrm, nd));
                }
            }
        }
    }
}

/// All values of one kind, each with the slot that describes it, must be carried by every chain of rotations
/// to where geometry carries it.
fn chains<T: Rotatable + Clone + PartialEq + Debug + Sync>(ctx: &Ctx, ph: &Phys, name: &str, all: &[T], slot: &(dyn Fn(&T) -> u16 + Sync), depth: usize) {
    let slots: Vec<u16> = match catch(|| all.iter().map(slot).collect()) {
        Ok(s) => s,
        Err(e) => return ctx.violation("rotate", format!("{name}: the solved pieces do not have a place: {e}")),
    };
    let mut sorted = slots.clone();
    sorted.sort();
    sorted.dedup();
    if sorted.len() != all.len() {
        ctx.violation("rotate", format!("{name}: two of the {} values describe the same place", all.len()));
    }
    let rots: Vec<(usize, u32)> = (0..3).flat_map(|a| (1..4).map(move |k| (a, k))).collect();
    let tables: Vec<Table> = rots.iter().map(|&(a, k)| ph.rotation(a, k)).collect();
    let n = rots.len().pow(depth as u32);
    ctx.par_chunks(n, 8192, |range| {
        for c in range {
            let mut w = vec![];
            let mut r = c;
            for _ in 0..depth {
                w.push(r % rots.len());
                r /= rots.len();
            }
            for (i, x) in all.iter().enumerate() {
                let text = |j: usize| format!("{name} at {} rotated by {}", ph.describe_slot(slots[i]), w[..=j].iter().map(|&r| rot_name(rots[r].0, rots[r].1)).collect::<Vec<_>>().join(" "));
                let mut v = x.clone();
                let mut s = slots[i];
                for (j, &r) in w.iter().enumerate() {
                    s = tables[r][s as usize];
                    let q = rotation(rots[r].0, rots[r].1);
                    let got = catch(|| {
                        let by_value = v.clone().rotated(&q);
                        v.rotate(&q);
                        (slot(&v), v == by_value)
                    });
                    match got {
                        Ok((g, true)) if g == s => {
                            // the value itself must be the one that describes this place
                            let home = slots.iter().position(|&h| h == s).unwrap();
                            if v != all[home] {
                                ctx.violation("rotate", format!("{}: is not equal to the piece that describes its place", text(j)));
                                break;
                            }
                        }
                        Ok((g, true)) => {
                            ctx.violation("rotate", format!("{} is at {}, geometry says {}", text(j), ph.describe_slot(g), ph.describe_slot(s)));
                            break;
                        }
                        Ok(_) => {
                            ctx.violation("rotate", format!("{}: rotate and rotated differ", text(j)));
                            break;
                        }
                        Err(e) => {
                            ctx.violation("rotate", format!("{} panicked: {e}", text(j)));
                            break;
                        }
                    }
                }
            }
            if ctx.stopped() {
                return;
            }
        }
    });
    ctx.add("chains", (n * all.len()) as u64);
    ctx.add("evaluations", (n * all.len() * depth) as u64);
    ctx.sample(format!("{name}: {} values x {n} chains of {depth} rotations", all.len()));
}

/// Turning a rotated face equals rotating, turning and rotating back.
fn conjugation<T: Rotatable + Clone + PartialEq + Debug + Movable<AxisMove>>(ctx: &Ctx, name: &str, all: &[T]) {
    for (f, k) in all_turns() {
        for a in 0..3 {
            for q in 1..4 {
                let r = rotation(a, q);
                let m = axis_move(f, k);
                for x in all {
                    let text = || format!("{name} {x:?}, turn {}, rotation {}", turn_name(f, k), rot_name(a, q));
                    ctx.add("evaluations", 1);
                    match catch(|| {
                        let mut p = x.clone();
                        <T as Movable<AxisMove>>::apply(&mut p, &m);
                        p.rotate(&r);
                        let mut s = x.clone().rotated(&r);
                        <T as Movable<AxisMove>>::apply(&mut s, &m.clone().rotated(&r));
                        p == s
                    }) {
                        Ok(true) => (),
                        Ok(false) => ctx.violation("conjugation", format!("{}: turning then rotating differs from rotating then turning the rotated face", text())),
                        Err(e) => ctx.violation("conjugation", format!("{} panicked: {e}", text())),
                    }
                }
            }
        }
    }
}

fn moves(ctx: &Ctx) {
    let turns = all_turns();
    let rots: Vec<(usize, u32)> = (0..3).flat_map(|a| (1..4).map(move |k| (a, k))).collect();
    for &(a, q) in &rots {
        let r = rotation(a, q);
        for f in 0..6 {
            same(ctx, "rotate", || format!("{} rotated by {}", FACE_NAMES[f], rot_name(a, q)), || fi(&face(f).rotated(&r)), vec_face(cwk(a, q, face_vec(f))));
        }
        for b in 0..3 {
            same(ctx, "rotate", || format!("axis {} rotated by {}", AXIS_NAMES[b], rot_name(a, q)), || ax(AXES[b].rotated(&r)), face_axis(vec_face(cwk(a, q, face_vec(b)))));
        }
        for s in signs() {
            same(ctx, "rotate", || format!("position {s:?} rotated by {}", rot_name(a, q)), || { let v = v3(s).rotated(&r); [di(v.x), di(v.y), di(v.z)] }, cwk(a, q, s));
        }
        let image = |&(f, k): &(usize, u32)| (vec_face(cwk(a, q, face_vec(f))), k);
        for t in &turns {
            same(ctx, "rotate", || format!("turn {} rotated by {}", turn_name(t.0, t.1), rot_name(a, q)), || fq(&axis_move(t.0, t.1).rotated(&r)), image(t));
        }
        let max = ctx.pick(2, 3);
        for len in 0..=max {
            for c in 0..18usize.pow(len) {
                let w: Vec<(usize, u32)> = (0..len).map(|i| turns[c / 18usize.pow(i) % 18]).collect();
                same(
                    ctx,
                    "rotate",
                    || format!("sequence {} rotated by {}", w.iter().map(|t| turn_name(t.0, t.1)).collect::<Vec<_>>().join(" "), rot_name(a, q)),
                    || Alg::<AxisMove>::new(w.iter().map(|t| axis_move(t.0, t.1)).collect()).rotated(&r).moves.iter().map(fq).collect::<Vec<_>>(),
                    w.iter().map(image).collect(),
                );
            }
        }
        // which rotations flip an edge's orientation mark
        for n in 0..3 {
            let ph = Phys::new(3);
            let t = ph.rotation(a, q);
            let mut flips: Vec<bool> = edge_positions().into_iter().filter(|e| ax(e.0) == n).map(|(n, sp)| {
                let to = t[edge_slot(&ph, n, &sp, true) as usize];
                let (n2, sp2) = edge_of_vec(ph.slots[to as usize].0.map(|x| x.signum()));
                edge_slot(&ph, n2, &sp2, true) != to
            }).collect();
            flips.dedup();
            if let [want] = flips[..] {
                same(ctx, "rotation", || format!("whether {} flips edges along {}", rot_name(a, q), AXIS_NAMES[n]), || rotation(a, q).flips_edge_orientation(AXES[n]), want);
            }
        }
    }
    for (i, x) in AMOUNTS.iter().enumerate() {
        for (j, y) in AMOUNTS.iter().enumerate() {
            let (p, q) = (quarters(*x), quarters(*y));
            let want = (p + q) % 4;
            same(ctx, "rotation", || format!("{p} and {q} quarters together ({i}, {j})"), || (*x + *y).map(quarters), (want != 0).then_some(want));
        }
        for d in [1, -1] {
            let want = if d > 0 { quarters(*x) } else { 4 - quarters(*x) };
            same(ctx, "rotation", || format!("{} quarters in direction {d}", quarters(*x)), || quarters(*x * dir(d)), want);
        }
    }
}

fn main() {
    mc::main("C18", "exploration", |ctx| {
        faces(ctx);
        axes(ctx);
        pieces(ctx);
        moves(ctx);
        ctx.log("relations and single rotations done");
        let depth = ctx.pick(3, 5);
        let (p3, p7) = (Phys::new(3), Phys::new(7));
        let corners: Vec<Corner> = signs().into_iter().flat_map(|s| AXES.map(|a| Corner::new(v3(s), a))).collect();
        chains(ctx, &p3, "corner", &corners, &|c| corner_slot(&p3, &c.position, c.orientation_axis), depth);
        let edges: Vec<Edge> = edge_positions().into_iter().flat_map(|(n, s)| [true, false].map(|o| Edge::new(n, s, o))).collect();
        chains(ctx, &p3, "edge", &edges, &|e| edge_slot(&p3, e.normal_axis, &e.slice_position, e.oriented), depth);
        let wings: Vec<Wing> = <Wing as PieceSetDescriptor<24>>::SOLVED.to_vec();
        chains(ctx, &p7, "wing", &wings, &|w| wing_slot(&p7, w, 1), depth);
        let ce: Vec<CenterEdge> = <CenterEdge as PieceSetDescriptor<24>>::SOLVED.to_vec();
        chains(ctx, &p7, "centre edge", &ce, &|c| center_edge_slot(&p7, c, 1), depth);
        let cw_: Vec<CenterWing> = <CenterWing as PieceSetDescriptor<48>>::SOLVED.to_vec();
        chains(ctx, &p7, "centre wing", &cw_, &|c| center_wing_slot(&p7, c, 1, 2), depth);
        #[cfg(verif_hooks)]
        {
            let cc: Vec<CenterCorner> = <CenterCorner as PieceSetDescriptor<24>>::SOLVED.to_vec();
            chains(ctx, &p7, "centre corner", &cc, &|c| center_corner_slot(&p7, c, 1), depth);
        }
        #[cfg(not(verif_hooks))]
        {
            // only equality is visible: the rotations must act as the 24 rotations do on 24 different places
            let cc: Vec<CenterCorner> = <CenterCorner as PieceSetDescriptor<24>>::SOLVED.to_vec();
            for r in 0..9 {
                let q = rotation(r / 3, r as u32 % 3 + 1);
                for c in &cc {
                    let mut x = c.clone();
                    for _ in 0..4 {
                        x.rotate(&q);
                    }
                    if x != *c || !cc.contains(&c.clone().rotated(&q)) {
                        ctx.violation("rotate", format!("centre corner {c:?}: four times {} does not restore it", rot_name(r / 3, r as u32 % 3 + 1)));
                    }
                }
            }
        }
        conjugation(ctx, "corner", &corners);
        conjugation(ctx, "edge", &edges);
        ctx.log("chains done");
        ctx.add("distinct_nontrivial", ctx.get("chains"));
        ctx.note("rule", "every face, axis, direction, amount, turn, place and piece value through every relation and rotation; every chain of rotations up to the bound on every piece value (24 corners, 24 edges, 24 wings, 24 centre edges, 48 centre wings, 24 centre corners); every sequence of turns up to the bound rotated; every turn x rotation x piece conjugated");
    });
}
