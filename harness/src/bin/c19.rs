//! C19: the drawn cube shows the true colour of every sticker.
use barbarosa::cube_n::visualization::unfolded::{Square, Unfolded};
use barbarosa::cube_n::visualization::{Color, Colored, Colorscheme};
use barbarosa::cube_n::{Cube2, Cube3};
use barbarosa::generic::piece::Coordinates;
use barbarosa::generic::Cube;
use mc::glue::*;
use mc::model::*;
use mc::picture;
use mc::*;
use nalgebra::Vector3;
use std::collections::HashSet;
use std::fmt;
use std::sync::Mutex;

/// Prints an unfolded cube with the default colours carried to other faces: face `f` gets the colour of `p[f]`.
struct Printed<'a, const N: usize>(&'a Unfolded<N>, [usize; 6]);
impl<const N: usize> fmt::Display for Printed<'_, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let d = Colorscheme::default();
        let s = Colorscheme::new(self.1.map(|i| d.get(&face(i)).clone()));
        self.0.write(&s, f)
    }
}

fn rgb() -> [[u8; 3]; 6] {
    let d = Colorscheme::default();
    std::array::from_fn(|f| {
        let c = d.get(&face(f));
        [c.red, c.green, c.blue].map(|x| (x * 255.0) as u8)
    })
}

fn hue(c: [u8; 3]) -> (f64, f64) {
    let [r, g, b] = c.map(|x| x as f64);
    let (mx, mn) = (r.max(g).max(b), r.min(g).min(b));
    let d = (mx - mn).max(1e-9);
    let h = if mx == r { (g - b) / d } else if mx == g { 2.0 + (b - r) / d } else { 4.0 + (r - g) / d };
    ((h * 60.0 + 360.0) % 360.0, d / mx.max(1.0))
}

/// Compares every way of drawing with the true colours. `print`: what is printed and with which scheme.
fn compare<const N: usize>(ctx: &Ctx, ph: &Phys, text: &dyn Fn() -> String, colours: &[u8], u: &Unfolded<N>, printed: &[(String, [usize; 6])], corners_only: bool) {
    let rgb = rgb();
    for f in 0..6 {
        for r in 0..N {
            for c in 0..N {
                let s = picture::square(ph, f, r, c);
                if corners_only && ph.cubie[s as usize].len() != 3 {
                    continue;
                }
                let want = colours[s as usize] as usize;
                let got = fi(&u[&face(f)].data[r][c].face);
                if got != want {
                    ctx.violation("unfolded", format!("{}: row {r}, column {c} of the {} face shows the colour of {}, the physical cube that of {}", text(), FACE_NAMES[f], FACE_NAMES[got], FACE_NAMES[want]));
                    return;
                }
            }
        }
    }
    for (f, sq) in u.iter() {
        if !std::ptr::eq(sq, &u[&f]) {
            ctx.violation("unfolded", format!("{}: iterating pairs the {f} face with another square", text()));
        }
    }
    for (p, scheme) in printed {
        match picture::read(ph, p) {
            Err(e) => return ctx.violation("printed", format!("{}: the printed picture cannot be read: {e}", text())),
            Ok(v) => {
                for s in 0..v.len() {
                    if corners_only && ph.cubie[s].len() != 3 {
                        continue;
                    }
                    let want = rgb[scheme[colours[s] as usize]];
                    if v[s] != want {
                        return ctx.violation("printed", format!("{}: the {} is printed in {:?} instead of {want:?} (colours of the faces R U F L D B: {:?})", text(), ph.describe_slot(s as u16), v[s], scheme.map(|i| rgb[i])));
                    }
                }
            }
        }
    }
}

const SAME: [usize; 6] = [0, 1, 2, 3, 4, 5];
fn judge3(ctx: &Ctx, ph: &Phys, home: &[u16], c: &mut Cube3, text: &dyn Fn() -> String, schemes: &[[usize; 6]]) {
    ctx.add("transitions", 0);
    let r = catch(|| {
        let refs = c.refs(ph);
        let col = ph.colours(home, &refs);
        let u = Unfolded::<3>::from(c.clone());
        let mut printed = vec![(c.to_string(), SAME), (u.to_string(), SAME)];
        for s in schemes {
            printed.push((Printed(&u, *s).to_string(), *s));
        }
        (col, u, printed)
    });
    match r {
        Err(e) => ctx.violation("draw", format!("{}: drawing panicked: {e}", text())),
        Ok((None, ..)) => (), // not a complete cube: other properties
        Ok((Some(col), u, printed)) => compare(ctx, ph, text, &col, &u, &printed, false),
    }
}

fn main() {
    mc::main("C19", "model_checking", |ctx| {
        let ph = Phys::new(3);
        let home = Cube3::home(&ph);
        // colours
        let cols = rgb();
        for a in 0..6 {
            for b in 0..a {
                if cols[a] == cols[b] {
                    ctx.violation("colours", format!("{} and {} have the same default colour", FACE_NAMES[a], FACE_NAMES[b]));
                }
            }
        }
        let order = [0usize, 3, 4, 2, 5]; // red, orange, yellow, green, blue by hue
        let hues: Vec<f64> = order.iter().map(|&f| { let h = hue(cols[f]).0; if h > 340.0 { h - 360.0 } else { h } }).collect();
        let white = hue(cols[1]).1;
        if hues.windows(2).any(|w| w[0] >= w[1]) || (0..6).any(|f| f != 1 && hue(cols[f]).1 <= white) {
            ctx.violation("colours", format!("the default colours are not R red, U white, F green, L orange, D yellow, B blue: {cols:?}"));
        }
        let named = [Color::RED, Color::WHITE, Color::GREEN, Color::ORANGE, Color::YELLOW, Color::BLUE];
        let names = ["red", "white", "green", "orange", "yellow", "blue"];
        for f in 0..6 {
            if fi(&named[f].face) != f || fi(&Color::new(face(f)).face) != f || !format!("{:?}", named[f]).contains(names[f]) {
                ctx.violation("colours", format!("the colour {} is not the colour of {}", names[f], FACE_NAMES[f]));
            }
        }
        // single squares
        for f in 0..6 {
            for v in 0..27 {
                let p = [v % 3 - 1, v / 3 % 3 - 1, v / 9 - 1];
                let pt = Vector3::new(p[0] as f32, p[1] as f32, p[2] as f32);
                let (rv, cv) = (face_vec(picture::BASIS[f].0), face_vec(picture::BASIS[f].1));
                let want = [(dot(p, rv) + 1) as usize, (dot(p, cv) + 1) as usize];
                let mut sq = Square::<3>::new(Color::RED);
                sq.data[want[0]][want[1]] = Color::BLUE;
                let r = catch(|| (sq.at(&pt, &face(f)).map(|c| fi(&c.face)), sq.at_mut(&pt, &face(f)).map(|c| fi(&c.face))));
                if r != Ok((Some(5), Some(5))) {
                    ctx.violation("square", format!("point {p:?} on the {} face is not found at row {}, column {}: {r:?}", FACE_NAMES[f], want[0], want[1]));
                }
                ctx.add("squares", 1);
            }
        }
        // every piece in every place and orientation: colours and coordinates of single pieces, and whole cubes
        let schemes: Vec<[usize; 6]> = vec![[1, 2, 3, 4, 5, 0], [5, 4, 3, 2, 1, 0], [3, 1, 2, 0, 4, 5], [0, 0, 2, 2, 4, 4]];
        for o in 0..3 {
            for s in 0..8 {
                for t in 0..12 {
                    for fl in 0..2u32 {
                        for rev in [false, true] {
                            let mut c = Cube3::SOLVED;
                            let cp: Vec<_> = c.corners.iter().cloned().collect();
                            let ep: Vec<_> = c.edges.iter().cloned().collect();
                            let from = |i: usize, s: usize, n: usize| if rev { (2 * n - i - 1 + s) % n } else { (i + s) % n };
                            for (i, p) in c.corners.iter_mut_unchecked().enumerate() {
                                p.position = cp[from(i, s, 8)].position;
                                for _ in 0..(o + if rev { i } else { 0 }) % 3 {
                                    p.orientation_axis = p.orientation_axis.next();
                                }
                            }
                            for (i, p) in c.edges.iter_mut_unchecked().enumerate() {
                                p.normal_axis = ep[from(i, t, 12)].normal_axis;
                                p.slice_position = ep[from(i, t, 12)].slice_position;
                                p.oriented = (fl + if rev { i as u32 } else { 0 }) % 2 == 0;
                            }
                            ctx.add("states", 1);
                            let text = || format!("corners and edges moved on by {s} and {t} places, orientations {o} and {fl}, reversed: {rev}");
                            judge3(ctx, &ph, &home, &mut c, &text, &schemes);
                        }
                    }
                }
            }
        }
        ctx.log("arrangements done");
        // single pieces through the piece interface
        let cube = Cube3::SOLVED;
        for (hi, (hp, _)) in cube.corners.iter_with_pos().enumerate() {
            for c2 in cube.corners.iter() {
                for a in AXES {
                    let mut p = c2.clone();
                    p.orientation_axis = a;
                    let at = corner_slot(&ph, &p.position, a);
                    let rot = ph.rot_between(home[hi], at).expect("a corner can be anywhere");
                    let mut want: Vec<(usize, usize)> = ph.cubie[home[hi] as usize].iter().map(|&s| (ph.home_face(ph.rot_slot[rot][s as usize]), ph.home_face(s))).collect();
                    want.sort();
                    let got = catch(|| {
                        let mut v: Vec<_> = p.colors(hp).iter().map(|(f, c)| (fi(f), fi(&c.face))).collect();
                        v.sort();
                        (v, [p.coordinates().x, p.coordinates().y, p.coordinates().z])
                    });
                    let xyz = ph.slots[at as usize].0.map(|x| x as f32 / 2.0);
                    if got != Ok((want.clone(), xyz)) {
                        ctx.violation("piece", format!("the corner from {:?} at {p:?}: colours and coordinates {got:?}, physical {want:?} {xyz:?}", ph.describe_slot(home[hi])));
                    }
                    ctx.add("pieces", 1);
                }
            }
        }
        for (hi, (hp, _)) in cube.edges.iter_with_pos().enumerate() {
            for e2 in cube.edges.iter() {
                for o in [true, false] {
                    let mut p = e2.clone();
                    p.oriented = o;
                    let h = edge_slot(&ph, hp.0, &hp.1, true);
                    let at = edge_slot(&ph, p.normal_axis, &p.slice_position, o);
                    let rot = ph.rot_between(h, at).expect("an edge can be anywhere");
                    let mut want: Vec<(usize, usize)> = ph.cubie[h as usize].iter().map(|&s| (ph.home_face(ph.rot_slot[rot][s as usize]), ph.home_face(s))).collect();
                    want.sort();
                    let got = catch(|| {
                        let mut v: Vec<_> = p.colors(hp).iter().map(|(f, c)| (fi(f), fi(&c.face))).collect();
                        v.sort();
                        (v, [p.coordinates().x, p.coordinates().y, p.coordinates().z])
                    });
                    let xyz = ph.slots[at as usize].0.map(|x| x as f32 / 2.0);
                    if got != Ok((want.clone(), xyz)) {
                        ctx.violation("piece", format!("the edge from {:?} at {p:?} (number {hi}): colours and coordinates {got:?}, physical {want:?} {xyz:?}", ph.describe_slot(h)));
                    }
                    ctx.add("pieces", 1);
                }
            }
        }
        // histories
        let depth = ctx.pick(4, 6);
        let scr = ["R U2 F' L D B2 R' U F2 L2 D' B", "F U R D L B U2 R2 F' D2 L' B'"];
        let seen: Vec<Mutex<HashSet<Box<[u16]>>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
        let starts = std::iter::once((Cube3::SOLVED, "solved".to_string(), depth)).chain(scr.iter().map(|s| {
            let mut c = Cube3::SOLVED;
            for w in s.split(' ') {
                let f = FACE_NAMES.iter().position(|n| w.starts_with(n)).unwrap();
                let k = if w.ends_with('2') { 2 } else if w.ends_with('\'') { 3 } else { 1 };
                c.turn(f, k, 0);
            }
            (c, s.to_string(), depth - 2)
        }));
        for (start, name, depth) in starts {
            let mut frontier: Vec<(Cube3, Vec<(usize, u32, u32)>)> = vec![(start, vec![])];
            for level in 0..=depth {
                let next = Mutex::new(vec![]);
                ctx.par_chunks(frontier.len(), 64, |range| {
                    let mut local = vec![];
                    for i in range {
                        let (c, h) = &frontier[i];
                        let mut c = c.clone();
                        let text = || format!("{name} then {}", history(h));
                        ctx.add("states", 1);
                        judge3(ctx, &ph, &home, &mut c, &text, &[]);
                        if level < depth {
                            for (f, k) in all_turns() {
                                ctx.add("transitions", 1);
                                if let Ok((c2, key)) = catch(|| {
                                    let mut c2 = c.clone();
                                    c2.turn(f, k, 0);
                                    let key = c2.refs(&ph).into_boxed_slice();
                                    (c2, key)
                                }) {
                                    if seen[mc::explore::shard_of(&key)].lock().unwrap().insert(key) {
                                        let mut h2 = h.clone();
                                        h2.push((f, k, 0));
                                        local.push((c2, h2));
                                    }
                                }
                            }
                        }
                        if ctx.stopped() {
                            break;
                        }
                    }
                    next.lock().unwrap().append(&mut local);
                });
                frontier = next.into_inner().unwrap();
                if ctx.stopped() {
                    return;
                }
            }
            ctx.log(format!("histories from {name} done"));
        }
        // states with few or only some kinds of pieces out of place
        let su = explore::Setup::plain::<Cube3>();
        let words = special::words(&su, ctx.pick(100, 1000));
        ctx.par(words.len(), |i| {
            let mut c = Cube3::SOLVED;
            let h: Vec<_> = words[i].iter().map(|&t| su.turns[t]).collect();
            let text = || format!("solved then {}", history(&h));
            ctx.guard(text, || h.iter().for_each(|&(f, k, d)| c.turn(f, k, d)));
            judge3(ctx, &ph, &home, &mut c, &text, &[]);
        });
        ctx.add("states", words.len() as u64);
        ctx.add("special_states", words.len() as u64);
        // the corners of a 2x2 on a 2x2 picture
        let p2 = Phys::new(2);
        let home2 = Cube2::home(&p2);
        let mut frontier = vec![(Cube2::SOLVED, vec![])];
        let mut seen2: HashSet<Vec<u16>> = HashSet::new();
        for level in 0..=ctx.pick(3, 5) {
            let mut next = vec![];
            for (c, h) in &frontier {
                let mut c: Cube2 = c.clone();
                let text = || format!("2x2 after {}", history(h));
                ctx.add("states", 1);
                match catch(|| {
                    let refs = c.refs(&p2);
                    let mut u = Unfolded::<2>::default();
                    u.populate_with(&c.corners);
                    (p2.colours(&home2, &refs), vec![(u.to_string(), SAME)], u)
                }) {
                    Err(e) => ctx.violation("draw", format!("{}: drawing panicked: {e}", text())),
                    Ok((None, ..)) => (),
                    Ok((Some(col), pr, u)) => compare(ctx, &p2, &text, &col, &u, &pr, true),
                }
                if level < ctx.pick(3, 5) {
                    for (f, k) in all_turns() {
                        let mut c2 = c.clone();
                        if catch(|| c2.turn(f, k, 0)).is_ok() && seen2.insert(c2.refs(&p2)) {
                            let mut h2 = h.clone();
                            h2.push((f, k, 0));
                            next.push((c2, h2));
                            ctx.add("transitions", 1);
                        }
                    }
                }
            }
            frontier = next;
        }
        ctx.add("traces_validated_against_impl", ctx.get("states"));
        ctx.sample("corners and edges moved on by 3 and 7 places, orientations 1 and 1: 54 squares of the unfolded cube, of the printed cube and of prints in four other colour schemes compared");
        ctx.sample("solved then R U' F2 L: printed picture parsed back and compared with the sticker model");
        ctx.note("rule", "states: every (corner, place, twist) and (edge, place, flip) combination in shifted and reversed arrangements, and every state within the depth bound of solved and of two far states, and states with few or only some kinds of pieces out of place; each drawn, printed, parsed and compared square by square with the reference model's colours");
    });
}
