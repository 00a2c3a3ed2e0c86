//! C23: two cubes are equal exactly when they are in the same state.
use barbarosa::cube_n::moves::ExtendedAxisMove;
use barbarosa::cube_n::{Cube2, Cube3, Cube4, Cube5, Cube6, Cube7, CubeN, Orientable};
use barbarosa::generic::Movable;
use mc::glue::*;
use mc::model::*;
use mc::*;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

type Hashed<P> = Option<fn(&P) -> u64>;

fn hash<P: Hash>(p: &P) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    p.hash(&mut h);
    h.finish()
}

/// A cube with the identity of its state in the model and how it came about.
struct Item<P> {
    cube: P,
    id: usize,
    how: String,
}

/// Compares every two of the items, both ways round, with `==` and `!=`.
fn all_pairs<P: PartialEq + Sync>(ctx: &Ctx, name: &str, items: &[Item<P>], hashed: Hashed<P>) {
    let equal = AtomicU64::new(0);
    let hashes: Vec<u64> = items.iter().map(|i| hashed.map_or(0, |h| ctx.guard(|| format!("{name}: hashing the cube after {}", i.how), || h(&i.cube)))).collect();
    ctx.par(items.len(), |i| {
        let a = &items[i];
        let r = catch(|| {
            let mut eq = 0;
            for (j, b) in items.iter().enumerate() {
                let want = a.id == b.id;
                if (a.cube == b.cube) != want || (a.cube != b.cube) == want {
                    return Err((j, if want { "are the same state but do not compare equal" } else { "are different states but compare equal" }));
                }
                if want {
                    eq += 1;
                    if hashes[i] != hashes[j] {
                        return Err((j, "are the same state but hash differently"));
                    }
                }
            }
            Ok(eq)
        });
        match r {
            Ok(Ok(n)) => {
                equal.fetch_add(n, Relaxed);
            }
            Ok(Err((j, what))) => ctx.violation("equality", format!("{name}: the cubes after {} and after {} {what}", a.how, items[j].how)),
            Err(e) => ctx.violation("panic", format!("{name}: comparing the cube after {} with others panicked: {e}", a.how)),
        }
    });
    let n = items.len() as u64;
    ctx.add("pairs_compared", n * n);
    ctx.add("pairs_equal", equal.load(Relaxed));
    ctx.add("transitions", n * n);
    ctx.log(format!("{name}: {n} values, {} states, {} equal pairs", items.iter().map(|i| i.id).max().map_or(0, |x| x + 1), equal.load(Relaxed)));
}

struct Model {
    ph: Phys,
    turns: Vec<(usize, u32, u32)>,
    tables: Vec<Table>,
    ids: HashMap<Vec<u16>, usize>,
}
impl Model {
    fn new<P: Turns>() -> Model {
        let ph = Phys::new(P::N);
        let turns = turns::<P>();
        let tables = turns.iter().map(|&(f, k, d)| ph.wide(f, k, d as usize)).collect();
        Model { ph, turns, tables, ids: HashMap::new() }
    }
    fn home(&self) -> Vec<u16> {
        (0..self.ph.slots.len() as u16).collect()
    }
    fn id(&mut self, m: &[u16]) -> usize {
        let n = self.ids.len();
        *self.ids.entry(m.to_vec()).or_insert(n)
    }
    /// Does a word to a cube and to the model.
    fn play<P: Turns>(&self, ctx: &Ctx, cube: &mut P, m: &mut [u16], word: &[usize]) {
        for &t in word {
            let (f, k, d) = self.turns[t];
            ctx.guard(|| format!("{}: {}", P::NAME, wide_name(f, k, d)), || cube.turn(f, k, d));
            compose_into(m, &self.tables[t]);
        }
    }
    fn name(&self, w: &[usize]) -> String {
        history(&w.iter().map(|&t| self.turns[t]).collect::<Vec<_>>())
    }
}

fn words(n: usize, len: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..len {
        last = last.iter().flat_map(|w| (0..n).map(move |t| { let mut w = w.clone(); w.push(t); w })).collect();
        out.extend(last.iter().cloned());
    }
    out
}

/// All words up to a length, as separate values, from solved and from scrambled states; words repeated until they
/// are back; and single words followed by each of the others and undone.
fn size<P: Turns>(ctx: &Ctx, len: usize, cap: usize, hashed: Hashed<P>) {
    let mut md = Model::new::<P>();
    let mut items = vec![];
    let n = md.turns.len();
    let scrambles: Vec<Vec<usize>> = vec![vec![], long::word(40, n, 0), long::word(41, n, 2)];
    for (si, s) in scrambles.iter().enumerate() {
        let all = words(n, if si == 0 { len } else { 1 });
        let step = (all.len() / cap).max(1);
        for w in all.iter().enumerate().filter(|(i, w)| w.len() < len || i % step == 0).map(|x| x.1) {
            let (mut c, mut m) = (P::SOLVED, md.home());
            let word: Vec<usize> = s.iter().chain(w).copied().collect();
            md.play(ctx, &mut c, &mut m, &word);
            let id = md.id(&m);
            items.push(Item { cube: c, id, how: if si == 0 { md.name(w) } else { format!("scramble {si} and then {}", md.name(w)) } });
        }
    }
    // states with few or only some kinds of pieces out of place
    let special = special::words(&explore::Setup::plain::<P>(), ctx.pick(30, 100));
    for w in &special {
        let (mut c, mut m) = (P::SOLVED, md.home());
        md.play(ctx, &mut c, &mut m, w);
        let id = md.id(&m);
        items.push(Item { cube: c, id, how: md.name(w) });
    }
    ctx.add("special_states", special.len() as u64);
    ctx.add("values", items.len() as u64);
    all_pairs(ctx, P::NAME, &items, hashed);
    // every two-turn word repeated until the model is back where it was: equal to the start then, and only then
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).collect();
    let md = &md;
    let back = AtomicU64::new(0);
    let steps = AtomicU64::new(0);
    let stride = ctx.pick(if P::N > 4 { 7 } else { 1 }, 1);
    ctx.par(pairs.len(), |i| {
        if i % stride != 0 {
            return;
        }
        let (a, b) = pairs[i];
        for s in &scrambles[..2] {
            let (mut c, mut m) = (P::SOLVED, md.home());
            md.play(ctx, &mut c, &mut m, s);
            let (c0, m0) = (c.clone(), m.clone());
            let h0 = hashed.map(|h| h(&c0));
            for k in 1..2000 {
                for t in [a, b] {
                    md.play(ctx, &mut c, &mut m, &[t]);
                    steps.fetch_add(1, Relaxed);
                    let same = m == m0;
                    if (c == c0) != same || (c0 != c) == same || (same && hashed.map(|h| h(&c)) != h0) {
                        ctx.violation("repetition", format!(
                            "{}: {} and the same followed by {} {k} times (up to {}): {}", P::NAME, if s.is_empty() { "solved".into() } else { md.name(s) }, md.name(&[a, b]), md.name(&[t]),
                            if same { "the same state, but not equal or hashed differently" } else { "different states, but equal" }));
                        return;
                    }
                }
                if m == m0 {
                    back.fetch_add(1, Relaxed);
                    break;
                }
            }
        }
    });
    ctx.add("repeated_words_back_at_their_start", back.load(Relaxed));
    ctx.add("transitions", steps.load(Relaxed));
    ctx.add("states", md.ids.len() as u64);
    ctx.add("traces_validated_against_impl", items.len() as u64 + back.load(Relaxed));
    ctx.sample(format!("{}: {} values in {} states; {} words repeated until back", P::NAME, items.len(), md.ids.len(), back.load(Relaxed)));
}

/// Arrangements that differ from a given one in two or three pieces of one kind only.
#[cfg(verif_hooks)]
fn near<P: Puzzle>(ctx: &Ctx, hashed: Hashed<P>) {
    let md = Model::new::<P>();
    for s in [vec![], long::word(40, md.turns.len(), 0)] {
        let (mut base, mut m) = (P::SOLVED, md.home());
        md.play(ctx, &mut base, &mut m, &s);
        let name = if s.is_empty() { "solved" } else { "a scrambled state" };
        let h0 = hashed.map(|h| h(&base));
        for (kind, (what, len)) in P::kinds().into_iter().enumerate() {
            ctx.par(len, |i| {
                for j in 0..len {
                    if j == i {
                        continue;
                    }
                    for k in 0..=i.min(j) {
                        // k = i or j: a swap
                        let three = k != i && k != j;
                        let mut c = base.clone();
                        let f = |x: usize| if x == i { j } else if x == j { if three { k } else { i } } else if three && x == k { i } else { x };
                        c.permute(kind, &f);
                        if c == base || base == c || !(c != base) {
                            ctx.violation("near", format!("{}: {name} and the same with {what} {i}, {j}{} exchanged compare equal", P::NAME, if three { format!(", {k}") } else { String::new() }));
                        }
                        // and back again
                        if three {
                            c.permute(kind, &f);
                        }
                        c.permute(kind, &f);
                        if c != base || base != c || hashed.map(|h| h(&c)) != h0 {
                            ctx.violation("near", format!("{}: {name} and the same with {what} {i}, {j}{} exchanged and put back are not equal, or hash differently", P::NAME, if three { format!(", {k}") } else { String::new() }));
                        }
                        if ctx.stopped() {
                            return;
                        }
                    }
                }
            });
            ctx.add("near_arrangements", (len * (len - 1) / 2) as u64);
        }
        for i in 0..8 {
            for t in 0..3 {
                let mut c = base.clone();
                let mut old = AXES[0];
                for (x, p) in c.corner_set().iter_mut_unchecked().enumerate() {
                    if x == i {
                        old = p.orientation_axis;
                        p.orientation_axis = AXES[t];
                    }
                }
                if (c == base) != (old == AXES[t]) {
                    ctx.violation("near", format!("{}: {name} and the same with corner {i} twisted compare {}", P::NAME, if c == base { "equal" } else { "unequal" }));
                }
            }
        }
        if base.edge_set().is_some() {
            for i in 0..12 {
                let mut c = base.clone();
                for (x, e) in c.edge_set().unwrap().iter_mut_unchecked().enumerate() {
                    if x == i {
                        e.oriented = !e.oriented;
                    }
                }
                if c == base || base == c {
                    ctx.violation("near", format!("{}: {name} and the same with edge {i} flipped compare equal", P::NAME));
                }
            }
        }
    }
}

/// Held cubes: equal exactly when the cube and the way it is held are the same.
fn held<P: Turns + CubeN + Eq>(ctx: &Ctx, rotations: usize, bases: usize)
where
    Orientable<P>: Movable<ExtendedAxisMove> + PartialEq + Clone + Sync,
{
    let mut md = Model::new::<P>();
    let n = md.turns.len();
    let rots: Vec<(usize, u32)> = (0..3).flat_map(|a| [(a, 1), (a, 2), (a, 3)]).collect();
    let known = all_rotations();
    let mut ws: Vec<Vec<usize>> = words(n, 1);
    // different words to the same states, too
    for t in 0..n {
        ws.push(vec![t, t]);
        ws.push(vec![t; 4]);
    }
    let step = (ws.len() / bases).max(1);
    let mut items = vec![];
    for w in ws.iter().step_by(step) {
        let (mut c, mut m) = (P::SOLVED, md.home());
        md.play(ctx, &mut c, &mut m, w);
        let base_id = md.id(&m);
        for r in words(rots.len(), rotations) {
            let mut o = Orientable::new(c.clone());
            let mut rot = Rot::ID;
            for &i in &r {
                let (a, k) = rots[i];
                ctx.guard(|| format!("{}: rotating a held cube", P::NAME), || <Orientable<P> as Movable<ExtendedAxisMove>>::apply(&mut o, &ExtendedAxisMove::Rotation(rotation(a, k))));
                rot = rot.then(a, k);
            }
            let ri = known.iter().position(|x| *x == rot).unwrap();
            items.push(Item { cube: o, id: base_id * 24 + ri, how: format!("{} held after {:?}", md.name(w), r.iter().map(|&i| format!("{}{}", ["x", "y", "z"][rots[i].0], ["", "", "2", "'"][rots[i].1 as usize])).collect::<Vec<_>>()) });
        }
    }
    ctx.add("values", items.len() as u64);
    let mut distinct: Vec<usize> = items.iter().map(|i| i.id).collect();
    distinct.sort();
    distinct.dedup();
    ctx.add("states", distinct.len() as u64);
    ctx.add("traces_validated_against_impl", items.len() as u64);
    all_pairs(ctx, &format!("held {}", P::NAME), &items, None);
}

fn main() {
    mc::main("C23", "model_checking", |ctx| {
        ctx.assume("turning does what it should (C01, C02, C17): the states of two values are compared through their histories in the reference model");
        size::<Cube2>(ctx, ctx.pick(3, 3), 6000, Some(hash::<Cube2>));
        size::<Cube3>(ctx, 3, 6000, Some(hash::<Cube3>));
        size::<Cube4>(ctx, 2, ctx.pick(3000, 6000), Some(hash::<Cube4>));
        size::<Cube5>(ctx, 2, ctx.pick(2000, 6000), None);
        size::<Cube6>(ctx, 2, ctx.pick(2000, 6000), None);
        size::<Cube7>(ctx, 2, ctx.pick(2000, 6000), None);
        held::<Cube2>(ctx, 2, ctx.pick(30, 60));
        held::<Cube3>(ctx, 2, ctx.pick(60, 120));
        held::<Cube4>(ctx, 2, ctx.pick(20, 60));
        held::<Cube5>(ctx, 2, ctx.pick(20, 60));
        held::<Cube6>(ctx, 2, ctx.pick(10, 40));
        held::<Cube7>(ctx, 2, ctx.pick(10, 40));
        #[cfg(verif_hooks)]
        {
            near::<Cube2>(ctx, Some(hash::<Cube2>));
            near::<Cube3>(ctx, Some(hash::<Cube3>));
            near::<Cube4>(ctx, Some(hash::<Cube4>));
            near::<Cube5>(ctx, None);
            near::<Cube6>(ctx, None);
            near::<Cube7>(ctx, None);
        }
        ctx.note("rule", "every two of the values reached by all words up to the bound, each word giving its own value, and by words to states with few or only some kinds of pieces out of place, compared both ways with == and != and by hash against identity of the histories' states in the reference model; two-turn words repeated until they are back; arrangements differing from another in two or three pieces of one kind, one twist or one flip (hooks); held cubes with every way to hold them reached by different rotations");
    });
}
