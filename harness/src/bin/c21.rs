//! C21: piece sets accept exactly duplicate-free sets and look pieces up truly.
use barbarosa::cube_n::pieces::center::{corner::CenterCorner, edge::CenterEdge, wing::CenterWing};
use barbarosa::cube_n::pieces::{Corner, Edge, Wing};
use barbarosa::cube_n::{Cube2, Cube3};
use barbarosa::generic::piece::PieceSetDescriptor;
use barbarosa::generic::{Cube, PieceSet};
use mc::glue::*;
use mc::model::Phys;
use mc::script::*;
use mc::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::*};

trait Kind<const N: usize>: PieceSetDescriptor<N> + Send + Sync + 'static
where
    Self::Position: Send + Sync + Clone,
{
    const NAME: &'static str;
    /// Another piece in the same place, if there is one.
    fn variant(self, v: usize) -> Self;
}
impl Kind<8> for Corner {
    const NAME: &'static str = "corners";
    fn variant(mut self, v: usize) -> Self {
        self.orientation_axis = AXES[(ax(self.orientation_axis) + v) % 3];
        self
    }
}
impl Kind<12> for Edge {
    const NAME: &'static str = "edges";
    fn variant(mut self, v: usize) -> Self {
        self.oriented ^= v % 2 == 1;
        self
    }
}
macro_rules! plain {
    ($($t:ty, $n:literal, $name:literal);+) => {$(
        impl Kind<$n> for $t {
            const NAME: &'static str = $name;
            fn variant(self, _: usize) -> Self {
                self
            }
        }
    )+};
}
plain!(Wing, 24, "wings"; CenterCorner, 24, "centre corners"; CenterEdge, 24, "centre edges"; CenterWing, 48, "centre wings");

/// How the places are printed; no two alike.
fn names<P: Kind<N>, const N: usize>(ctx: &Ctx) -> Vec<String>
where
    P::Position: Send + Sync + Clone,
{
    let names: Vec<String> = P::REFERENCE_POSITIONS.iter().map(|p| format!("{p:?}")).collect();
    if names.iter().collect::<HashSet<_>>().len() != N {
        ctx.violation("names", format!("{}: two places are printed alike: {names:?}", P::NAME));
    }
    names
}

/// Building a set: `at[i]` is the place of piece `i`.
fn build<P: Kind<N>, const N: usize>(ctx: &Ctx, names: &[String], at: &[usize; N], variant: usize)
where
    P::Position: Send + Sync + Clone,
{
    let pieces: [P; N] = std::array::from_fn(|i| P::SOLVED[at[i]].clone().variant(if variant < 3 { variant } else { i }));
    let mut count = [0u8; N];
    for &a in at {
        count[a] += 1;
    }
    let dup = count.iter().any(|&c| c > 1);
    let text = || format!("{}: places {at:?}, variant {variant}", P::NAME);
    match catch(|| PieceSet::<P, N>::new(pieces.clone()).map(|s| s.pieces() == &pieces && s.validate().is_none())) {
        Err(e) => ctx.violation("new", format!("{}: panicked: {e}", text())),
        Ok(Ok(same)) => {
            if dup {
                ctx.violation("new", format!("{}: accepted although places are occupied twice", text()));
            } else if !same {
                ctx.violation("new", format!("{}: the set does not hold the given pieces, or does not count as valid afterwards", text()));
            }
        }
        Ok(Err(e)) => {
            if !dup {
                return ctx.violation("new", format!("{}: refused ({e:?}) although no place is occupied twice", text()));
            }
            // the error type cannot be named outside the crate: its text is read
            let text_of = format!("{e:?}");
            if !(0..N).any(|i| count[i] > 1 && text_of.contains(names[i].as_str())) {
                ctx.violation("error", format!("{}: the error names no place that is occupied twice: {text_of}", text()));
            }
        }
    }
}
/// All lookups of one valid set; `at[i]`: place of piece `i`.
fn lookups<P: Kind<N>, const N: usize>(ctx: &Ctx, set: &PieceSet<P, N>, text: &dyn Fn() -> String)
where
    P::Position: Send + Sync + Clone,
{
    let r = catch(|| -> Result<(), String> {
        let refs = P::REFERENCE_POSITIONS;
        let pieces: Vec<P> = set.iter().cloned().collect();
        if pieces.len() != N || set.pieces()[..] != pieces[..] {
            return Err("iteration and the array of pieces differ".into());
        }
        let zipped: Vec<(P::Position, &P)> = set.iter_with_pos().collect();
        if zipped.len() != N {
            return Err(format!("iterating with positions gives {} pieces", zipped.len()));
        }
        for i in 0..N {
            if zipped[i].0 != refs[i] || *zipped[i].1 != pieces[i] {
                return Err(format!("iterating with positions gives {:?} as number {i}", zipped[i]));
            }
            if set.at_index(i) != Some(&pieces[i]) {
                return Err(format!("at_index({i}) is {:?}", set.at_index(i)));
            }
            if *set.piece_originally_at(&refs[i]) != pieces[i] {
                return Err(format!("the piece originally at {:?} is {:?}, but number {i} is {:?}", refs[i], set.piece_originally_at(&refs[i]), pieces[i]));
            }
            let here = pieces[i].position();
            if set.original_position_of_piece_at(&here) != refs[i] {
                return Err(format!("the piece now at {here:?} is said to come from {:?}, it comes from {:?}", set.original_position_of_piece_at(&here), refs[i]));
            }
            // and the other way round: the piece that comes from the place named for place i is at place i
            let from = set.original_position_of_piece_at(&refs[i]);
            if set.piece_originally_at(&from).position() != refs[i] {
                return Err(format!("the piece at {:?} is said to come from {from:?}, but the piece from there is elsewhere", refs[i]));
            }
        }
        if set.at_index(N).is_some() || set.at_index(usize::MAX).is_some() {
            return Err("at_index beyond the end gives a piece".into());
        }
        if set.clone().into_iter().collect::<Vec<_>>() != pieces {
            return Err("consuming iteration gives other pieces".into());
        }
        if let Some(e) = set.validate() {
            return Err(format!("counts as invalid: {e:?}"));
        }
        Ok(())
    });
    ctx.add("sets", 1);
    match r {
        Ok(Ok(())) => (),
        Ok(Err(e)) => ctx.violation("lookup", format!("{}: {e}", text())),
        Err(e) => ctx.violation("lookup", format!("{}: panicked: {e}", text())),
    }
}

fn swaps<P: Kind<N>, const N: usize>(ctx: &Ctx, set: &PieceSet<P, N>, text: &dyn Fn() -> String)
where
    P::Position: Send + Sync + Clone,
{
    for a in 0..N {
        for b in 0..N {
            let r = catch(|| {
                let mut s = set.clone();
                s.swap(&P::REFERENCE_POSITIONS[a], &P::REFERENCE_POSITIONS[b]);
                let mut want: Vec<P> = set.pieces().to_vec();
                want.swap(a, b);
                (s.pieces()[..] == want[..], s.validate().is_none())
            });
            if r != Ok((true, true)) {
                ctx.violation("swap", format!("{}: swapping the pieces from places {a} and {b} does not exchange exactly those two: {r:?}", text()));
            }
        }
    }
    ctx.add("swaps", (N * N) as u64);
}

fn shuffles<P: Kind<N>, const N: usize>(ctx: &Ctx, set: &PieceSet<P, N>, text: &(dyn Fn() -> String + Sync), deviations: u32)
where
    P::Position: Send + Sync + Clone,
{
    let mut scripts = vec![];
    for b in bases() {
        scripts.push(Script { base: b, deviations: vec![] });
        for call in 0..N as u32 {
            for v in 0..deviations {
                scripts.push(Script { base: b, deviations: vec![(call, spaced(v, deviations))] });
            }
        }
    }
    let orders = std::sync::Mutex::new(HashSet::new());
    ctx.par(scripts.len(), |i| {
        let mut rng = Scripted::new(scripts[i].clone());
        let r = catch(|| {
            let mut s = set.clone();
            s.shuffle(&mut rng);
            s
        });
        ctx.add("shuffles", 1);
        let t = || format!("{} shuffled with {}", text(), scripts[i].describe());
        match r {
            Err(e) => ctx.violation("shuffle", format!("{}: panicked: {e}", t())),
            Ok(s) => {
                let missing = set.iter().find(|p| !s.iter().any(|q| q == *p));
                if missing.is_some() || s.validate().is_some() {
                    ctx.violation("shuffle", format!("{}: the pieces are no longer the same ({missing:?} is missing)", t()));
                }
                lookups(ctx, &s, &t);
                let order: Vec<usize> = s.iter().map(|p| set.iter().position(|q| q == p).unwrap_or(N)).collect();
                orders.lock().unwrap().insert(order);
            }
        }
    });
    let n = orders.lock().unwrap().len();
    ctx.add("shuffle_outcomes", n as u64);
    if n < scripts.len() / 40 {
        ctx.violation("shuffle", format!("{}: {} different random sources give only {n} different orders", text(), scripts.len()));
    }
}

fn set_of<P: Kind<N>, const N: usize>(at: &[usize; N], variant: usize) -> PieceSet<P, N>
where
    P::Position: Send + Sync + Clone,
{
    // the solved set, rearranged through the mutable iterator, does not depend on the check in `new`
    let mut s = PieceSet::<P, N>::SOLVED;
    for (i, p) in s.iter_mut_unchecked().enumerate() {
        *p = P::SOLVED[at[i]].clone().variant(if variant < 3 { variant } else { i });
    }
    s
}

fn kind<P: Kind<N>, const N: usize>(ctx: &Ctx)
where
    P::Position: Send + Sync + Clone,
{
    let id: [usize; N] = std::array::from_fn(|i| i);
    let names = names::<P, N>(ctx);
    // the places are all different, and the solved pieces are at them
    for i in 0..N {
        if P::SOLVED[i].position() != P::REFERENCE_POSITIONS[i] || (0..i).any(|j| P::REFERENCE_POSITIONS[j] == P::REFERENCE_POSITIONS[i]) {
            ctx.violation("solved", format!("{}: solved piece {i} is not at its own place, or the place is listed twice", P::NAME));
        }
    }
    // every array that differs from a rearrangement of the solved one in at most m places
    let m = if N <= 12 { 3 } else if N <= 24 { 3 } else { 2 };
    let bases: Vec<[usize; N]> = vec![id, std::array::from_fn(|i| N - 1 - i), std::array::from_fn(|i| (i * 5 + 3) % N)];
    let nb = if m == 2 { 3 } else { 1 };
    for b in bases.iter().take(nb) {
        let tuples = N.pow(m as u32);
        ctx.par_chunks(tuples, 1, |range| {
            for c in range {
                let mut ix = [0; 4];
                let mut r = c;
                for x in ix.iter_mut().take(m) {
                    *x = r % N;
                    r /= N;
                }
                if ix[..m].windows(2).any(|w| w[0] >= w[1]) {
                    continue;
                }
                for v in 0..tuples {
                    let mut at = *b;
                    let mut r = v;
                    for &x in &ix[..m] {
                        at[x] = r % N;
                        r /= N;
                    }
                    build::<P, N>(ctx, &names, &at, v % 4);
                }
                ctx.add("arrays", tuples as u64);
                if ctx.stopped() {
                    return;
                }
            }
        });
    }
    // lookups and swaps: rearrangements by all exchanges of two, all shifts and all multiples
    let mut sets: Vec<[usize; N]> = vec![];
    for b in &bases {
        for i in 0..N {
            for j in i..N {
                let mut s = *b;
                s.swap(i, j);
                sets.push(s);
            }
            sets.push(std::array::from_fn(|k| b[(k + i) % N]));
        }
    }
    ctx.par(sets.len(), |i| {
        for v in 0..4 {
            let s = set_of::<P, N>(&sets[i], v);
            let text = || format!("{}: places {:?}, variant {v}", P::NAME, sets[i]);
            lookups(ctx, &s, &text);
            if i % ctx.pick(7, 1) == 0 && v % 3 == 0 {
                swaps(ctx, &s, &text);
            }
        }
    });
    for b in [0, 2] {
        let s = set_of::<P, N>(&bases[b], 3);
        let text = || format!("{}: places {:?}, variant 3", P::NAME, bases[b]);
        shuffles(ctx, &s, &text, ctx.pick(12, 48));
    }
    ctx.sample(format!("{}: all arrays that differ from the solved one in at most {m} places; lookups on {} rearrangements", P::NAME, sets.len()));
    ctx.log(format!("{} done", P::NAME));
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut o = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            o.push(q);
        }
    }
    o
}

/// Turning keeps every place occupied once.
fn turned<P: Puzzle>(ctx: &Ctx, depth: usize, each: &(dyn Fn(&mut P, &dyn Fn() -> String) + Sync)) {
    let ph = Phys::new(P::N);
    let kinds = P::kinds();
    let seen: Vec<std::sync::Mutex<HashSet<Box<[u16]>>>> = (0..64).map(|_| Default::default()).collect();
    let mut frontier: Vec<(P, Vec<(usize, u32, u32)>)> = vec![(P::SOLVED, vec![])];
    let ts = turns::<P>();
    for level in 0..=depth {
        let next = std::sync::Mutex::new(vec![]);
        let n = AtomicU64::new(0);
        ctx.par_chunks(frontier.len(), 16, |range| {
            let mut local = vec![];
            for i in range {
                let (c, h) = &frontier[i];
                let text = || format!("{} after {}", P::NAME, history(h));
                n.fetch_add(1, Relaxed);
                let mut c = c.clone();
                let refs = match catch(|| c.refs(&ph)) {
                    Ok(r) => r,
                    Err(e) => {
                        ctx.violation("turn", format!("{}: panicked: {e}", text()));
                        continue;
                    }
                };
                let mut from = 0;
                for (name, len) in &kinds {
                    let mut places: Vec<_> = refs[from..from + len].iter().map(|&s| if *len <= 12 { ph.cubie[s as usize][0] } else { s }).collect();
                    places.sort();
                    places.dedup();
                    if places.len() != *len {
                        ctx.violation("turn", format!("{}: two {name} pieces share a place", text()));
                    }
                    from += len;
                }
                each(&mut c, &text);
                if level < depth {
                    for &(f, k, d) in &ts {
                        if let Ok(Some((c2, r))) = catch(|| {
                            let mut c2 = c.clone();
                            c2.turn(f, k, d);
                            let r = c2.refs(&ph).into_boxed_slice();
                            Some((c2, r))
                        }) {
                            if seen[mc::explore::shard_of(&r)].lock().unwrap().insert(r) {
                                let mut h2 = h.clone();
                                h2.push((f, k, d));
                                local.push((c2, h2));
                            }
                        } else {
                            ctx.violation("turn", format!("{} then {}: panicked", text(), wide_name(f, k, d)));
                        }
                    }
                }
                if ctx.stopped() {
                    break;
                }
            }
            next.lock().unwrap().append(&mut local);
        });
        ctx.add("turned_states", n.load(SeqCst));
        frontier = next.into_inner().unwrap();
        if ctx.stopped() {
            return;
        }
    }
    ctx.log(format!("{} turned", P::NAME));
}

fn main() {
    mc::main("C21", "exploration", |ctx| {
        let corner_names = names::<Corner, 8>(ctx);
        let edge_names = names::<Edge, 12>(ctx);
        // all 8^8 arrays of corner places
        ctx.par_chunks(1 << 24, 4096, |range| {
            let n = range.len();
            for c in range {
                let at: [usize; 8] = std::array::from_fn(|i| c >> (3 * i) & 7);
                build::<Corner, 8>(ctx, &corner_names, &at, c % 4);
                if ctx.stopped() {
                    return;
                }
            }
            ctx.add("arrays", n as u64);
        });
        // all arrays of edge places in which the first or the last five are free
        let k = 5;
        ctx.par_chunks(12usize.pow(k as u32), 1024, |range| {
            let n = range.len();
            for c in range {
                let mut at: [usize; 12] = std::array::from_fn(|i| i);
                let mut last: [usize; 12] = std::array::from_fn(|i| 11 - i);
                let mut r = c;
                for i in 0..k {
                    at[i] = r % 12;
                    last[11 - i] = r % 12;
                    r /= 12;
                }
                build::<Edge, 12>(ctx, &edge_names, &at, c % 4);
                build::<Edge, 12>(ctx, &edge_names, &last, c % 3);
                if ctx.stopped() {
                    return;
                }
            }
            ctx.add("arrays", 2 * n as u64);
        });
        ctx.log("all corner arrays and partial edge arrays done");
        // lookups on every arrangement of the corners
        let perms = permutations(8);
        ctx.par_chunks(perms.len(), 64, |range| {
            for i in range {
                let at: [usize; 8] = perms[i].clone().try_into().unwrap();
                for v in 0..4 {
                    lookups(ctx, &set_of::<Corner, 8>(&at, v), &|| format!("corners: places {at:?}, variant {v}"));
                }
                if i % 16 == 0 || ctx.thorough {
                    swaps(ctx, &set_of::<Corner, 8>(&at, 3), &|| format!("corners: places {at:?}, variant 3"));
                }
            }
        });
        ctx.log("lookups on all corner arrangements done");
        kind::<Corner, 8>(ctx);
        kind::<Edge, 12>(ctx);
        kind::<Wing, 24>(ctx);
        kind::<CenterCorner, 24>(ctx);
        kind::<CenterEdge, 24>(ctx);
        kind::<CenterWing, 48>(ctx);
        turned::<Cube3>(ctx, ctx.pick(5, 6), &|c, text| {
            lookups(ctx, &c.corners, text);
            lookups(ctx, &c.edges, text);
        });
        turned::<Cube2>(ctx, ctx.pick(6, 7), &|c, text| lookups(ctx, &c.corners, text));
        #[cfg(verif_hooks)]
        {
            use barbarosa::cube_n::{Cube4, Cube5, Cube6, Cube7};
            fn both<P: Puzzle>(ctx: &Ctx, c: &mut P, text: &dyn Fn() -> String) {
                lookups(ctx, c.corner_set(), text);
                if let Some(e) = c.edge_set() {
                    lookups(ctx, e, text);
                }
            }
            turned::<Cube4>(ctx, ctx.pick(3, 4), &|c, t| both(ctx, c, t));
            turned::<Cube5>(ctx, ctx.pick(3, 4), &|c, t| both(ctx, c, t));
            turned::<Cube6>(ctx, ctx.pick(3, 4), &|c, t| both(ctx, c, t));
            turned::<Cube7>(ctx, ctx.pick(3, 4), &|c, t| both(ctx, c, t));
        }
        let a = ctx.get("arrays");
        ctx.add("evaluations", a + ctx.get("sets") + ctx.get("swaps") + ctx.get("shuffles") + ctx.get("turned_states"));
        ctx.add("distinct_nontrivial", a + ctx.get("shuffle_outcomes") + ctx.get("turned_states"));
        ctx.note("rule", "all 8^8 arrays of corner places; edge arrays with five free places; arrays of every kind that differ from rearranged solved ones in 2 or 3 places, with equal and different pieces in a doubled place; all lookups on all 40320 corner arrangements, on rearrangements of every kind, after every exchange of two pieces, every shuffle of the enumerated random sources and every turn history within the depth bound");
    });
}
