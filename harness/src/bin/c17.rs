//! C17: an oriented cube behaves like a cube held in the hand.
use barbarosa::cube_n::moves::{ExtendedAxisMove, NonRedundantAxisMove, QuarterAxisMove};
use barbarosa::cube_n::{Cube2, Cube3, CubeN, Orientable, Orientation, WideAxisMove};
use barbarosa::generic::{Alg, Movable, Parsable};
use mc::glue::*;
use mc::model::*;
use mc::*;
use std::collections::{HashMap, HashSet};
use std::sync::Mutex;

type Ext = ExtendedAxisMove;

/// What the held cube must do with its frame.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Frame {
    /// a whole-cube rotation, or more than half of the layers: the frame goes along
    Goes(usize, u32),
    Stays,
    /// exactly half of the layers of an even cube: either half may be called the cube
    Free(usize, u32),
}

#[derive(Clone)]
struct Mv {
    name: String,
    ext: Ext,
    table: Table,
    frame: Frame,
}

fn wide_ext(f: usize, k: u32, d: u32) -> Ext {
    Ext::Wide(WideAxisMove::<{ u32::MAX }>::new(face(f), amount(k), d).expect("any depth is allowed"))
}

fn frame(n: usize, layers: usize, f: usize, k: u32) -> Frame {
    if 2 * layers > n {
        Frame::Goes(f, k)
    } else if 2 * layers < n {
        Frame::Stays
    } else {
        Frame::Free(f, k)
    }
}

fn moves(ph: &Phys) -> Vec<Mv> {
    let n = ph.n;
    let mut v = vec![];
    for (f, k) in all_turns() {
        v.push(Mv {
            name: turn_name(f, k),
            ext: Ext::Regular(axis_move(f, k)),
            table: ph.wide(f, k, 0),
            frame: frame(n, 1, f, k),
        });
    }
    for a in 0..3 {
        for k in [1, 3, 2] {
            v.push(Mv {
                name: format!("{}{}", ["x", "y", "z"][a], ["", "", "2", "'"][k as usize]),
                ext: Ext::Rotation(rotation(a, k)),
                table: ph.rotation(a, k),
                frame: Frame::Goes(a, k),
            });
        }
    }
    let mut depths: Vec<u32> = (0..=n as u32 + 2).collect();
    depths.push(u32::MAX - 1);
    depths.push(u32::MAX);
    for d in depths {
        for (f, k) in all_turns() {
            let layers = (d as u64 + 1).min(n as u64) as usize;
            v.push(Mv {
                name: format!("{}(wide, depth {d})", turn_name(f, k)),
                ext: wide_ext(f, k, d),
                table: ph.layer_turn(f, k, |l| l as u64 <= d as u64),
                frame: frame(n, layers, f, k),
            });
        }
    }
    for a in 0..3 {
        for wide in [false, true] {
            for k in [1, 3, 2] {
                let inner = |l: usize| if wide { 2 * l + 1 == n } else { l != 0 && l != n - 1 };
                let layers = (0..n).filter(|&l| inner(l)).count();
                // a single middle layer carries the fixed centres of an odd cube
                let fr = if n % 2 == 1 { Frame::Goes(a, k) } else { frame(n, layers, a, k) };
                v.push(Mv {
                    name: format!("slice{{{}, {} quarter(s) clockwise, wide: {wide}}}", ["x", "y", "z"][a], k),
                    ext: Ext::Slice { rot: rotation(a, k), wide },
                    table: ph.layer_turn(a, k, inner),
                    frame: fr,
                });
            }
        }
    }
    v
}

fn frame_of(o: &Orientation, rots: &[Rot]) -> Option<usize> {
    let (r, u) = (fi(o.r_face()), fi(&o.u_face()));
    rots.iter().position(|x| x.face(0) == r && x.face(1) == u)
}

/// Orientations: construction, what they report, and the rotations that lead to them.
fn orientations(ctx: &Ctx, rots: &[Rot]) {
    for r in 0..6 {
        for u in 0..6 {
            ctx.add("orientation_cases", 1);
            let t = catch(|| Orientation::try_from([face(r), face(u)]));
            let parallel = face_axis(r) == face_axis(u);
            let key = "orientation";
            match t {
                Err(e) => ctx.violation(key, format!("Orientation::try_from([{}, {}]) panicked: {e}", FACE_NAMES[r], FACE_NAMES[u])),
                Ok(Err(_)) if parallel => (),
                Ok(Ok(_)) if parallel => ctx.violation(key, format!("Orientation::try_from([{}, {}]) accepts parallel faces", FACE_NAMES[r], FACE_NAMES[u])),
                Ok(Err(_)) => ctx.violation(key, format!("Orientation::try_from([{}, {}]) refuses perpendicular faces", FACE_NAMES[r], FACE_NAMES[u])),
                Ok(Ok(o)) => {
                    let (gr, gu) = (fi(o.r_face()), fi(&o.u_face()));
                    if (gr, gu) != (r, u) {
                        ctx.violation(key, format!("Orientation::try_from([{}, {}]) reports R at {} and U at {}", FACE_NAMES[r], FACE_NAMES[u], FACE_NAMES[gr], FACE_NAMES[gu]));
                        continue;
                    }
                    match catch(|| {
                        let mut x = Rot::ID;
                        for q in o.rotations() {
                            x = x.then(ax(q.axis), quarters(q.amount));
                        }
                        (x.face(0), x.face(1))
                    }) {
                        Ok(x) if x == (r, u) => (),
                        Ok((a, b)) => ctx.violation("rotations", format!("rotations() of the orientation with R at {} and U at {} leads to R at {} and U at {}", FACE_NAMES[r], FACE_NAMES[u], FACE_NAMES[a], FACE_NAMES[b])),
                        Err(e) => ctx.violation("rotations", format!("rotations() of the orientation with R at {} and U at {} panicked: {e}", FACE_NAMES[r], FACE_NAMES[u])),
                    }
                    let i = frame_of(&o, rots);
                    if i.is_none() {
                        ctx.violation(key, format!("the orientation with R at {} and U at {} is none of the 24", FACE_NAMES[r], FACE_NAMES[u]));
                    }
                }
            }
        }
    }
    let d = Orientation::default();
    if (fi(d.r_face()), fi(&d.u_face())) != (0, 1) {
        ctx.violation("orientation", "the default orientation does not have R on the right and U above".to_string());
    }
}

struct Node<P: CubeN>
where
    Orientable<P>: Movable<Ext>,
{
    cube: Orientable<P>,
    seen: Vec<u16>,
    frame: usize,
    hist: Vec<usize>,
}

/// Explores every history of extended moves up to `depth` from every way of holding `start`.
/// `refs`: where the reference stickers are on the base cube; without the hooks it is not known,
/// and only equality of base cubes is compared.
fn explore<P>(
    ctx: &Ctx,
    ph: &Phys,
    alphabet: &[Mv],
    starts: Vec<(P, String)>,
    depth: usize,
    refs: Option<&(dyn Fn(&mut P) -> Vec<u16> + Sync)>,
    all_kinds: bool,
) where
    P: Turns + CubeN,
    Orientable<P>: Movable<Ext> + Movable<barbarosa::cube_n::AxisMove> + Clone + Send + Sync,
{
    let rots = &ph.rots;
    let name = P::NAME;
    for (base, sname) in starts {
        let mut frontier: Vec<Node<P>> = vec![];
        // the 24 ways of holding it, each reached by whole-cube rotations
        let mut b = base.clone();
        let seen0 = match refs {
            Some(r) => r(&mut b),
            None => (0..ph.slots.len() as u16).collect(),
        };
        let rot_moves: Vec<usize> = (0..alphabet.len()).filter(|&i| matches!(alphabet[i].ext, Ext::Rotation(_))).collect();
        frontier.push(Node { cube: Orientable::new(base.clone()), seen: seen0, frame: 0, hist: vec![] });
        let text = |h: &[usize]| format!("{name}: {sname} held, then {}", h.iter().map(|&i| alphabet[i].name.clone()).collect::<Vec<_>>().join(" "));
        // equality-only observation: (seen, frame) <-> base cube
        let classes: Mutex<HashMap<(Vec<u16>, usize), P>> = Mutex::new(HashMap::new());
        let texts: Mutex<HashMap<String, (Vec<u16>, usize)>> = Mutex::new(HashMap::new());
        let step = |node: &Node<P>, mi: usize, how: &dyn Fn(&mut Orientable<P>)| -> Option<Node<P>> {
            let mv = &alphabet[mi];
            let mut hist = node.hist.clone();
            hist.push(mi);
            ctx.add("transitions", 0);
            let mut seen = node.seen.clone();
            compose_into(&mut seen, &mv.table);
            let r = catch(|| {
                let mut c = node.cube.clone();
                how(&mut c);
                let fr = frame_of(&c.orientation, rots);
                let got = refs.map(|r| r(&mut c.base_cube));
                (c, fr, got)
            });
            let (c, fr, got) = match r {
                Ok(x) => x,
                Err(e) => {
                    ctx.violation("panic", format!("{}: panicked: {e}", text(&hist)));
                    return None;
                }
            };
            let Some(fr) = fr else {
                ctx.violation("frame", format!("{}: the reported R and U faces are not perpendicular", text(&hist)));
                return None;
            };
            let gone = |f: usize, k: u32| rots.iter().position(|r| *r == rots[node.frame].then(f, k)).unwrap();
            let ok = match mv.frame {
                Frame::Goes(f, k) => fr == gone(f, k),
                Frame::Stays => fr == node.frame,
                Frame::Free(f, k) => fr == node.frame || fr == gone(f, k),
            };
            if !ok {
                let want = match mv.frame {
                    Frame::Goes(f, k) => gone(f, k),
                    _ => node.frame,
                };
                ctx.violation(
                    "frame",
                    format!(
                        "{}: reports the original R face at {} and U at {}, they are at {} and {}",
                        text(&hist), FACE_NAMES[rots[fr].face(0)], FACE_NAMES[rots[fr].face(1)], FACE_NAMES[rots[want].face(0)], FACE_NAMES[rots[want].face(1)]
                    ),
                );
                return None;
            }
            match got {
                Some(got) => {
                    let got: Vec<u16> = got.iter().map(|&s| ph.rot_slot[fr][s as usize]).collect();
                    if got != seen {
                        let i = (0..got.len()).find(|&i| got[i] != seen[i]).unwrap();
                        ctx.violation(
                            "seen",
                            format!(
                                "{}: {} of {} pieces are seen in the wrong place; e.g. one is seen as {} instead of {}",
                                text(&hist), (0..got.len()).filter(|&i| got[i] != seen[i]).count(), got.len(),
                                ph.describe_slot(got[i]), ph.describe_slot(seen[i])
                            ),
                        );
                        return None;
                    }
                }
                None => {
                    let key = (seen.clone(), fr);
                    let t = format!("{:?}", c.base_cube);
                    let mut cl = classes.lock().unwrap();
                    let mut tx = texts.lock().unwrap();
                    let other = tx.entry(t).or_insert_with(|| key.clone()).clone();
                    if other.1 == fr && other.0 != seen {
                        ctx.violation("seen", format!("{}: equals the cube after a history that is seen differently", text(&hist)));
                        return None;
                    }
                    let first = cl.entry(key).or_insert_with(|| c.base_cube.clone());
                    if *first != c.base_cube {
                        ctx.violation("seen", format!("{}: differs from the cube after a history that is seen the same", text(&hist)));
                        return None;
                    }
                }
            }
            Some(Node { cube: c, seen, frame: fr, hist })
        };
        let mut i = 0;
        let mut have: HashSet<usize> = HashSet::from([0]);
        while i < frontier.len() {
            for &mi in &rot_moves {
                let ext = alphabet[mi].ext.clone();
                if let Some(n) = step(&frontier[i], mi, &|c| c.apply(&ext)) {
                    if have.insert(n.frame) {
                        frontier.push(n);
                    }
                }
            }
            i += 1;
        }
        if frontier.len() != 24 && !ctx.violated() {
            ctx.violation("frame", format!("{name}: only {} of the 24 ways to hold the cube are reached by rotations", frontier.len()));
        }
        let seen_states: Mutex<HashSet<(Vec<u16>, usize)>> = Mutex::new(frontier.iter().map(|n| (n.seen.clone(), n.frame)).collect());
        for level in 0..depth {
            let next: Mutex<Vec<Node<P>>> = Mutex::new(vec![]);
            ctx.par_chunks(frontier.len(), 16, |range| {
                let mut local = vec![];
                let mut n = 0;
                for i in range {
                    let node = &frontier[i];
                    for (mi, mv) in alphabet.iter().enumerate() {
                        n += 1;
                        let Some(new) = step(node, mi, &|c| c.apply(&mv.ext)) else { continue };
                        if level == 0 && all_kinds {
                            if let Ext::Regular(m) = &mv.ext {
                                // the same turn as a plain, quarter and combined move, and inside a sequence
                                n += 3;
                                step(node, mi, &|c| c.apply(m));
                                step(node, mi, &|c| c.apply(&NonRedundantAxisMove::from(m.clone())));
                                if let Ok(q) = quarter(m) {
                                    n += 1;
                                    step(node, mi, &|c| c.apply(&q));
                                }
                                step(node, mi, &|c| c.apply(&Alg::<barbarosa::cube_n::AxisMove>::new(vec![m.clone()])));
                            }
                            n += 1;
                            step(node, mi, &|c| c.apply(&Alg::<Ext>::new(vec![mv.ext.clone()])));
                        }
                        if level + 1 < depth && seen_states.lock().unwrap().insert((new.seen.clone(), new.frame)) {
                            local.push(new);
                        }
                    }
                    if ctx.stopped() {
                        break;
                    }
                }
                ctx.add("transitions", n);
                next.lock().unwrap().append(&mut local);
            });
            if level + 1 < depth {
                frontier = next.into_inner().unwrap();
            }
            if ctx.stopped() {
                return;
            }
        }
        ctx.add("states", seen_states.lock().unwrap().len() as u64);
    }
    ctx.log(format!("{name}: done, {} states, {} transitions so far", ctx.get("states"), ctx.get("transitions")));
}

fn quarter(m: &barbarosa::cube_n::AxisMove) -> Result<QuarterAxisMove, ()> {
    let (f, k) = fq(m);
    match k {
        1 => Ok(QuarterAxisMove::new(face(f), dir(1))),
        3 => Ok(QuarterAxisMove::new(face(f), dir(-1))),
        _ => Err(()),
    }
}

/// The moves in notation: what M, E, S (and m, e, s, x, y, z, Rw, ...) mean on the held cube.
fn notation(ctx: &Ctx, ph: &Phys, alphabet: &[Mv]) -> Vec<Mv> {
    let n = ph.n;
    let mut v = vec![];
    // (text, face it turns like, lower case)
    for (t, like) in [("M", 3), ("E", 4), ("S", 2)] {
        for lower in [false, true] {
            for (suffix, k) in [("", 1), ("2", 2), ("'", 3)] {
                let text = format!("{}{suffix}", if lower { t.to_lowercase() } else { t.to_string() });
                let inner = |l: usize| if lower { 2 * l + 1 == n } else { l != 0 && l != n - 1 };
                let table = ph.layer_turn(like, k, inner);
                let layers = (0..n).filter(|&l| inner(l)).count();
                let fr = if n % 2 == 1 { Frame::Goes(like, k) } else { frame(n, layers, like, k) };
                match catch(|| Ext::parse(&text)) {
                    Ok(Ok(ext)) => v.push(Mv { name: text, ext, table, frame: fr }),
                    _ => ctx.violation("notation", format!("{text} is not accepted")),
                }
            }
        }
    }
    for a in 0..3 {
        for (suffix, k) in [("", 1), ("2", 2), ("'", 3)] {
            let text = format!("{}{suffix}", ["x", "y", "z"][a]);
            match catch(|| Ext::parse(&text)) {
                Ok(Ok(ext)) => v.push(Mv { name: text, ext, table: ph.rotation(a, k), frame: Frame::Goes(a, k) }),
                _ => ctx.violation("notation", format!("{text} is not accepted")),
            }
        }
    }
    for (f, k) in all_turns() {
        for (text, d) in [(format!("{}w", FACE_NAMES[f]), 1u32), (FACE_NAMES[f].to_lowercase(), 1), (FACE_NAMES[f].to_string(), 0)] {
            let text = format!("{text}{}", ["", "", "2", "'"][k as usize]);
            let layers = (d as usize + 1).min(n);
            match catch(|| Ext::parse(&text)) {
                Ok(Ok(ext)) => v.push(Mv { name: text, ext, table: ph.layer_turn(f, k, |l| l <= d as usize), frame: frame(n, layers, f, k) }),
                _ => ctx.violation("notation", format!("{text} is not accepted")),
            }
        }
    }
    // rotations are needed to reach every way of holding the cube
    v.extend(alphabet.iter().filter(|m| matches!(m.ext, Ext::Rotation(_))).cloned());
    v
}

fn starts<P: Turns>() -> Vec<(P, String)> {
    let mut c = P::SOLVED;
    let mut h = vec![];
    let ts = turns::<P>();
    for i in 0..25 {
        let (f, k, d) = ts[(i * i * 5 + i * 7) % ts.len()];
        c.turn(f, k, d);
        h.push((f, k, d));
    }
    vec![(P::SOLVED, "solved".into()), (c, history(&h))]
}

/// Quarter turns clockwise only, one or two depths per kind: for deeper histories.
fn reduced(all: &[Mv], n: usize) -> Vec<Mv> {
    let keep_d = [1, n as u32 / 2, n as u32 - 2];
    all.iter()
        .filter(|m| match &m.ext {
            Ext::Regular(m) => fq(m).1 == 1,
            Ext::Rotation(r) => quarters(r.amount) == 1,
            Ext::Wide(w) => quarters(w.amount()) == 1 && keep_d.contains(&w.depth()) && n > 2,
            Ext::Slice { rot, wide } => quarters(rot.amount) == 1 && (!*wide || n > 3) && n > 2,
        })
        .cloned()
        .collect()
}

fn size<P>(ctx: &Ctx, depth: usize, reduced_depth: usize, refs: Option<&(dyn Fn(&mut P) -> Vec<u16> + Sync)>)
where
    P: Turns + CubeN,
    Orientable<P>: Movable<Ext> + Movable<barbarosa::cube_n::AxisMove> + Clone + Send + Sync,
{
    let ph = Phys::new(P::N_SIZE);
    let all = moves(&ph);
    ctx.add("kinds_of_moves", all.len() as u64);
    explore::<P>(ctx, &ph, &all, starts::<P>(), depth, refs, true);
    let nota = notation(ctx, &ph, &all);
    explore::<P>(ctx, &ph, &nota, starts::<P>().into_iter().skip(1).collect(), 1, refs, false);
    let red = reduced(&all, P::N_SIZE);
    explore::<P>(ctx, &ph, &red, starts::<P>().into_iter().take(1).collect(), reduced_depth, refs, false);
    ctx.sample(format!("{}: {} extended moves (depth {depth}), {} for the deeper search (depth {reduced_depth}), {} in notation; e.g. {}", P::NAME, all.len(), red.len(), nota.len(), all[all.len() - 2].name));
}

trait NSize {
    const N_SIZE: usize;
}
impl<P: Turns> NSize for P {
    const N_SIZE: usize = <P as Turns>::N;
}

fn main() {
    mc::main("C17", "model_checking", |ctx| {
        ctx.assume("the sticker-level reference model in the holder's frame (harness/src/model.rs) is the physical cube; where exactly half of the layers of an even cube turn, either half may be called the cube");
        orientations(ctx, &all_rotations());
        macro_rules! go {
            ($t:ident, $d:expr, $r:expr) => {{
                #[cfg(verif_hooks)]
                let ph = Phys::new(<$t as Turns>::N);
                #[cfg(verif_hooks)]
                size::<$t>(ctx, $d, $r, Some(&|c: &mut $t| c.refs(&ph)));
                #[cfg(not(verif_hooks))]
                size::<$t>(ctx, $d, $r - 1, None);
            }};
        }
        let ph2 = Phys::new(2);
        let ph3 = Phys::new(3);
        size::<Cube2>(ctx, ctx.pick(3, 4), ctx.pick(5, 6), Some(&|c: &mut Cube2| c.refs(&ph2)));
        size::<Cube3>(ctx, ctx.pick(2, 3), ctx.pick(4, 5), Some(&|c: &mut Cube3| c.refs(&ph3)));
        use barbarosa::cube_n::{Cube4, Cube5, Cube6, Cube7};
        go!(Cube4, ctx.pick(2, 2), ctx.pick(3, 4));
        go!(Cube5, ctx.pick(2, 2), ctx.pick(3, 4));
        go!(Cube6, ctx.pick(2, 2), ctx.pick(3, 4));
        go!(Cube7, ctx.pick(2, 2), ctx.pick(3, 4));
        ctx.add("traces_validated_against_impl", ctx.get("transitions"));
        ctx.note("rule", "from all 24 ways of holding a solved and a scrambled cube: every history of extended moves up to the depth bound (face, wide of every depth including u32::MAX, rotations, slices); the seen place of every piece and the reported R and U faces are compared after every move");
        ctx.set("depth_bounds", J::s(if ctx.thorough { "all moves: 2x2 4, 3x3 3, others 2; reduced alphabet: 2x2 6, 3x3 5, others 4" } else { "all moves: 2x2 3, others 2; reduced alphabet: 2x2 5, 3x3 4, others 3" }));
    });
}
