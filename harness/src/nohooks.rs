//! What can be observed of the big cubes through the public interface alone: which histories end in
//! equal cubes, and which cubes call themselves solved. Used when the hooks do not compile.
use crate::glue::*;
use crate::model::*;
use crate::report::*;
use barbarosa::cube_n::{Cube4, Cube5, Cube6, Cube7};
use std::collections::HashMap;

/// Breadth-first exploration; `impl a == impl b` must hold exactly if all stickers of the physical cube agree.
pub fn relation<P: Turns>(ctx: &Ctx, depth: usize, visit: impl Fn(&P, &[u16], &str)) {
    let ph = Phys::new(P::N);
    let id: Vec<u16> = (0..ph.slots.len() as u16).collect();
    let ts = turns::<P>();
    let tables: Vec<Table> = ts.iter().map(|&(f, k, d)| ph.wide(f, k, d as usize)).collect();
    let mut by_model: HashMap<Vec<u16>, P> = HashMap::new();
    let mut by_text: HashMap<String, Vec<u16>> = HashMap::new();
    let mut frontier: Vec<(P, Vec<u16>, Vec<(usize, u32, u32)>)> = vec![(P::SOLVED, id.clone(), vec![])];
    by_text.insert(format!("{:?}", P::SOLVED), id.clone());
    by_model.insert(id, P::SOLVED);
    for level in 0..depth {
        let mut next = vec![];
        for (c, m, h) in &frontier {
            for (ti, &(f, k, d)) in ts.iter().enumerate() {
                let mut h2 = h.clone();
                h2.push((f, k, d));
                let text = format!("{}: {}", P::NAME, history(&h2));
                let mut m2 = m.clone();
                compose_into(&mut m2, &tables[ti]);
                let r = catch(|| {
                    let mut c2 = c.clone();
                    c2.turn(f, k, d);
                    let mut plain = c.clone();
                    plain.face_turn(f, k);
                    (c2, plain)
                });
                let (c2, plain) = match r {
                    Ok(x) => x,
                    Err(e) => {
                        ctx.violation("panic", format!("{text}: panicked: {e}"));
                        continue;
                    }
                };
                ctx.add("transitions", 1);
                if d == 0 && plain != c2 {
                    ctx.violation("plain-turn", format!("{text}: the plain turn and the wide turn of depth 0 differ"));
                }
                visit(&c2, &m2, &text);
                let dbg = format!("{c2:?}");
                match by_text.get(&dbg) {
                    Some(m0) if *m0 != m2 => {
                        ctx.violation("turn", format!("{text}: gives a cube that another history with a different physical result also gives"));
                        continue;
                    }
                    Some(_) => (),
                    None => {
                        by_text.insert(dbg, m2.clone());
                    }
                }
                match by_model.get(&m2) {
                    Some(c0) => {
                        if *c0 != c2 {
                            ctx.violation("turn", format!("{text}: differs from the cube after another history that moves every sticker to the same place"));
                        }
                    }
                    None => {
                        by_model.insert(m2.clone(), c2.clone());
                        ctx.add("states", 1);
                        if level + 1 < depth {
                            next.push((c2, m2, h2));
                        }
                    }
                }
                if ctx.stopped() {
                    return;
                }
            }
        }
        frontier = next;
    }
}

/// Words that move only three pieces of one kind around: pairs of slices whose moved places overlap in one.
/// They must do something, be undone by two more, and equal the other words that move the stickers so.
pub fn cycles<P: Turns>(ctx: &Ctx) {
    type Turn = (usize, u32, u32);
    let ph = Phys::new(P::N);
    let id: Table = (0..ph.slots.len() as u16).collect();
    let slice = |f: usize, k: u32, d: u32| -> Vec<Turn> {
        if d == 0 {
            vec![(f, k, 0)]
        } else {
            vec![(f, k, d), (f, 4 - k, d - 1)]
        }
    };
    let inverse = |w: &[Turn]| -> Vec<Turn> { w.iter().rev().map(|&(f, k, d)| (f, 4 - k, d)).collect() };
    let table = |w: &[Turn]| {
        let mut t = id.clone();
        for &(f, k, d) in w {
            compose_into(&mut t, &ph.wide(f, k, d as usize));
        }
        t
    };
    let run = |w: &[Turn], times: usize| {
        catch(|| {
            let (mut c, mut whole) = (P::SOLVED, P::SOLVED);
            for _ in 0..times {
                for &(f, k, d) in w {
                    c.turn(f, k, d);
                }
                whole.turn_seq(w);
            }
            (whole == c, c)
        })
    };
    let mut words: Vec<(Vec<Turn>, Table)> = vec![];
    for f in 0..6 {
        for g in (0..6).filter(|g| g % 3 != f % 3) {
            for h in (0..6).filter(|h| h % 3 != g % 3) {
                for d in 0..=P::MAX_DEPTH {
                    for e in 0..=P::MAX_DEPTH {
                        for k in [1, 3] {
                            let a = slice(f, k, d);
                            let mut b = vec![(g, 1, 0)];
                            b.extend(slice(h, 3, e));
                            b.push((g, 3, 0));
                            let w: Vec<Turn> = [&a[..], &b, &inverse(&a), &inverse(&b)].concat();
                            let t = table(&w);
                            let moved: std::collections::BTreeSet<_> = (0..t.len()).filter(|&s| t[s] as usize != s).map(|s| ph.slots[s].0).collect();
                            if moved.len() == 3 {
                                words.push((w, t));
                            }
                        }
                    }
                }
            }
        }
    }
    let text = |w: &[Turn]| format!("{}: {}", P::NAME, history(w));
    let mut done: Vec<(usize, P)> = vec![];
    for (i, (w, t)) in words.iter().enumerate() {
        let colours = (0..t.len()).all(|s| ph.home_face(s as u16) == ph.home_face(t[s]));
        for times in 1..=3 {
            ctx.add("transitions", (w.len() * times) as u64);
            match run(w, times) {
                Ok((same, c)) => {
                    let home = times == 3;
                    if !same {
                        ctx.violation("turn", format!("{}: as one sequence, {times} times, differs from turn by turn", text(w)));
                    }
                    if (c == P::SOLVED) != home {
                        ctx.violation("turn", format!("{}: moves three pieces around, but repeated {times} times {} the solved cube", text(w), if home { "does not equal" } else { "equals" }));
                    }
                    if c.is_solved() != (home || colours) {
                        ctx.violation("is_solved", format!("{}: moves three pieces around; repeated {times} times: is_solved() says {}", text(w), c.is_solved()));
                    }
                    if times == 1 {
                        done.push((i, c));
                    }
                }
                Err(e) => ctx.violation("panic", format!("{}: panicked: {e}", text(w))),
            }
        }
    }
    for (n, (i, c)) in done.iter().enumerate() {
        for (j, o) in &done[..n] {
            if (c == o) != (words[*i].1 == words[*j].1) {
                ctx.violation("turn", format!("{} and {} {}", text(&words[*i].0), text(&words[*j].0), if c == o { "give equal cubes, but move different stickers" } else { "give different cubes, but move the same stickers" }));
            }
        }
        if ctx.stopped() {
            return;
        }
    }
    ctx.add("states", done.len() as u64);
    ctx.add("words_that_move_three_pieces", words.len() as u64);
}

pub fn relations(ctx: &Ctx, depth: usize) {
    ctx.note("observation", "hooks unavailable: only equality of cubes after different histories is compared with the model: all histories up to 3 turns, and words that move three pieces of one kind around");
    relation::<Cube4>(ctx, depth, |_, _, _| {});
    relation::<Cube5>(ctx, depth, |_, _, _| {});
    relation::<Cube6>(ctx, depth, |_, _, _| {});
    relation::<Cube7>(ctx, depth, |_, _, _| {});
    cycles::<Cube4>(ctx);
    cycles::<Cube5>(ctx);
    cycles::<Cube6>(ctx);
    cycles::<Cube7>(ctx);
    ctx.add("traces_validated_against_impl", ctx.get("transitions"));
    ctx.sample("Cube4: R[depth 1] and R[depth 1]' R' ... (all histories up to the depth bound)");
}

pub fn solved(ctx: &Ctx, depth: usize) {
    ctx.note("observation", "hooks unavailable: the big cubes are only explored by turning");
    fn one<P: Turns>(ctx: &Ctx, depth: usize) {
        let ph = Phys::new(P::N);
        relation::<P>(ctx, depth, |c, m, h| {
            let want = (0..m.len()).all(|s| ph.home_face(s as u16) == ph.home_face(m[s]));
            if c.is_solved() != want {
                ctx.violation("is_solved", format!("{h}: is_solved() says {}, the faces say {want}", !want));
            }
        });
        cycles::<P>(ctx);
    }
    one::<Cube4>(ctx, depth);
    one::<Cube5>(ctx, depth);
    one::<Cube6>(ctx, depth);
    one::<Cube7>(ctx, depth);
}
