//! C25: random cubes and random sequences leave nothing out.
use barbarosa::cube_n::moves::QuarterAxisMove;
use barbarosa::cube_n::{AxisMove, Cube2, Cube3, WideAxisMove};
use barbarosa::generic::Alg;
use mc::glue::*;
use mc::model::*;
use mc::script::*;
use mc::*;
use rand::distributions::{Distribution, Standard};
use rand::Rng;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::*};

/// A set of numbers below `n`, filled in by all workers.
struct Cover(Vec<AtomicU64>);
impl Cover {
    fn new(n: usize) -> Cover {
        Cover((0..n.div_ceil(64)).map(|_| AtomicU64::new(0)).collect())
    }
    fn put(&self, i: usize) {
        let b = 1 << (i % 64);
        if self.0[i / 64].load(Relaxed) & b == 0 {
            self.0[i / 64].fetch_or(b, Relaxed);
        }
    }
    fn has(&self, i: usize) -> bool {
        self.0[i / 64].load(Relaxed) >> (i % 64) & 1 == 1
    }
    fn len(&self) -> u64 {
        self.0.iter().map(|w| w.load(Relaxed).count_ones() as u64).sum()
    }
}

/// The model's places of the pieces of a kind: every place has as many slots as the piece has stickers.
struct Places {
    /// number of the place of a slot, and which of its slots it is
    place: Vec<u8>,
    turn: Vec<u8>,
    homes: Vec<u16>,
    stickers: usize,
}
impl Places {
    fn new(ph: &Phys, homes: Vec<u16>, stickers: usize) -> Places {
        let mut p = Places { place: vec![255; ph.slots.len()], turn: vec![0; ph.slots.len()], homes, stickers };
        for (i, &h) in p.homes.iter().enumerate() {
            for (k, &s) in ph.cubie[h as usize].iter().enumerate() {
                p.place[s as usize] = i as u8;
                p.turn[s as usize] = k as u8;
            }
        }
        p
    }
    fn n(&self) -> usize {
        self.homes.len()
    }
    /// (place, slot of the place) as one number
    fn at(&self, slot: u16) -> usize {
        self.place[slot as usize] as usize * self.stickers + self.turn[slot as usize] as usize
    }
    fn states(&self) -> usize {
        self.n() * self.stickers
    }
}

fn perm_number(p: &[usize]) -> usize {
    let mut x = 0;
    for i in 0..p.len() {
        x = x * (p.len() - i) + p[i + 1..].iter().filter(|&&q| q < p[i]).count();
    }
    x
}

/// What is looked at of a random cube: each has to take on all its values.
struct Aspect {
    what: String,
    cover: Cover,
    possible: Box<dyn Fn(usize) -> bool + Sync>,
    of: usize,
    tell: Box<dyn Fn(usize) -> String + Sync>,
}
impl Aspect {
    fn judge(&self, ctx: &Ctx, drawn: u64) {
        let want = (0..self.of).filter(|&i| (self.possible)(i)).count() as u64;
        ctx.add("values_possible", want);
        ctx.add("values_seen", self.cover.len());
        ctx.log(format!("{}: {} of {want}", self.what, self.cover.len()));
        if let Some(i) = (0..self.of).find(|&i| (self.possible)(i) && !self.cover.has(i)) {
            ctx.violation("left-out", format!("{}: only {} of the {want} possibilities ever come up in {drawn} draws from as many random sources; never: {}", self.what, self.cover.len(), (self.tell)(i)));
        }
    }
}

fn pairs(what: &str, a: &Places, b: &Places, same: bool) -> Aspect {
    let (na, nb, sa, sb) = (a.n(), b.n(), a.states(), b.states());
    let (ka, kb) = (a.stickers, b.stickers);
    let split = move |i: usize| {
        let (x, y) = (i / (nb * sb), i % (nb * sb));
        (x / sa, x % sa, y / sb, y % sb)
    };
    Aspect {
        what: what.into(),
        cover: Cover::new(na * sa * nb * sb),
        of: na * sa * nb * sb,
        possible: Box::new(move |i| {
            let (p, x, q, y) = split(i);
            !same || (p < q && x / ka != y / kb)
        }),
        tell: Box::new(move |i| {
            let (p, x, q, y) = split(i);
            format!("piece {p} in place {} as {} while piece {q} is in place {} as {}", x / ka, x % ka, y / kb, y % kb)
        }),
    }
}

fn simple(what: String, of: usize, possible: impl Fn(usize) -> bool + Sync + 'static) -> Aspect {
    Aspect { what, cover: Cover::new(of), of, possible: Box::new(possible), tell: Box::new(|i| format!("number {i}")) }
}

fn cubes<P: Puzzle>(ctx: &Ctx, draws: usize)
where
    Standard: Distribution<P>,
{
    let ph = Phys::new(P::N);
    let mut h = vec![];
    home_corners(&ph, &mut h);
    let corners = Places::new(&ph, h, 3);
    let mut h = vec![];
    if P::N == 3 {
        home_edges(&ph, &mut h);
    }
    let edges = Places::new(&ph, h, 2);
    let name = P::NAME;
    let cc = pairs(&format!("random {name}: two corners"), &corners, &corners, true);
    let ce = pairs(&format!("random {name}: a corner and an edge"), &corners, &edges, false);
    let ee = pairs(&format!("random {name}: two edges"), &edges, &edges, true);
    let perms = simple(format!("random {name}: the arrangement of the corners"), 40320, |_| true);
    // orientations as number of the sticker that lies in the first slot of the place; the sum is
    // settled by the others, so that all values of the first seven (eleven) pieces have to come up
    let twists = simple(format!("random {name}: the orientation of seven corners"), 2187, |_| true);
    let flips = simple(format!("random {name}: the orientation of eleven edges"), if P::N == 3 { 2048 } else { 0 }, |_| true);
    let first_half = simple(format!("random {name}: the places of four edges"), if P::N == 3 { 12usize.pow(4) } else { 0 }, |i| {
        let d = [i / 1728, i / 144 % 12, i / 12 % 12, i % 12];
        (0..4).all(|a| (0..a).all(|b| d[a] != d[b]))
    });
    let drawn = AtomicU64::new(0);
    let put = |s: Script| {
        drawn.fetch_add(1, Relaxed);
        let mut rng = Scripted::new(s);
        let r = catch(|| {
            let mut c: P = rng.gen();
            c.refs(&ph)
        });
        let r = match r {
            Ok(r) => r,
            // C05 judges this
            Err(_) => return rng.calls,
        };
        let c: Vec<usize> = r[..8].iter().map(|&s| corners.at(s)).collect();
        let e: Vec<usize> = r[8..].iter().map(|&s| edges.at(s)).collect();
        if r[..8].iter().any(|&s| corners.place[s as usize] == 255) || r[8..].iter().any(|&s| edges.place[s as usize] == 255) {
            return rng.calls;
        }
        let n = 8 * 24;
        for p in 0..8 {
            for q in p + 1..8 {
                cc.cover.put((p * 24 + c[p]) * n + q * 24 + c[q]);
            }
            for q in 0..e.len() {
                ce.cover.put((p * 24 + c[p]) * 12 * 24 + q * 24 + e[q]);
            }
        }
        for p in 0..e.len() {
            for q in p + 1..e.len() {
                ee.cover.put((p * 24 + e[p]) * 12 * 24 + q * 24 + e[q]);
            }
        }
        let mut places: Vec<usize> = c.iter().map(|x| x / 3).collect();
        twists.cover.put(c[..7].iter().fold(0, |a, x| a * 3 + x % 3));
        places.sort();
        places.dedup();
        if places.len() == 8 {
            perms.cover.put(perm_number(&c.iter().map(|x| x / 3).collect::<Vec<_>>()));
        }
        if e.len() == 12 {
            flips.cover.put(e[..11].iter().fold(0, |a, x| a * 2 + x % 2));
            first_half.cover.put(e[..4].iter().fold(0, |a, x| a * 12 + x / 2));
        }
        rng.calls
    };
    // the default scripts with every deviation in one call, and the mixed sequences
    for b in bases() {
        let calls = put(Script { base: b, deviations: vec![] }).min(200);
        for i in 0..calls {
            for v in 0..32 {
                put(Script { base: b, deviations: vec![(i, spaced(v, 32))] });
            }
        }
    }
    ctx.par_chunks(draws, 1024, |r| {
        for i in r {
            put(Script { base: Base::Mixed(i as u32), deviations: vec![] });
        }
    });
    let d = drawn.load(SeqCst);
    if ctx.stopped() {
        return;
    }
    for a in [&cc, &perms, &twists].into_iter().chain(if P::N == 3 { vec![&ce, &ee, &flips, &first_half] } else { vec![] }) {
        a.judge(ctx, d);
    }
    ctx.add("evaluations", d);
}

/// Scrambles of `len` turns up to the order of turns on one axis.
fn scrambles(ctx: &Ctx, len: usize, draws: usize) {
    let number = |ms: &[(usize, u32)]| {
        let mut ms = ms.to_vec();
        let mut i = 0;
        while i < ms.len() {
            let mut j = i;
            while j < ms.len() && face_axis(ms[j].0) == face_axis(ms[i].0) {
                j += 1;
            }
            ms[i..j].sort();
            i = j;
        }
        ms.iter().fold(0, |a, &(f, k)| a * 18 + f * 3 + k as usize - 1)
    };
    let moves = move |mut x: usize| {
        let mut v = vec![(0usize, 0u32); len];
        for i in (0..len).rev() {
            v[i] = (x % 18 / 3, (x % 3) as u32 + 1);
            x /= 18;
        }
        v
    };
    let text = |v: &[(usize, u32)]| v.iter().map(|&(f, k)| turn_name(f, k)).collect::<Vec<_>>().join(" ");
    let a = Aspect {
        what: format!("scrambles of {len} turns"),
        cover: Cover::new(18usize.pow(len as u32)),
        of: 18usize.pow(len as u32),
        possible: Box::new(move |i| {
            let v = moves(i);
            let mut ok = number(&v) == i;
            for i in 0..len {
                for j in i + 1..len {
                    if face_axis(v[i].0) != face_axis(v[j].0) {
                        break;
                    }
                    ok &= v[i].0 != v[j].0;
                }
            }
            ok
        }),
        tell: Box::new(move |i| text(&moves(i))),
    };
    ctx.par_chunks(draws, 1024, |r| {
        for i in r {
            let mut rng = Scripted::new(Script { base: Base::Mixed(i as u32), deviations: vec![] });
            if let Ok(s) = catch(|| Alg::<AxisMove>::random_with_rng(len, &mut rng)) {
                let v: Vec<_> = s.moves.iter().map(fq).collect();
                if v.len() == len {
                    a.cover.put(number(&v));
                }
            }
        }
    });
    ctx.add("evaluations", draws as u64);
    if !ctx.stopped() {
        a.judge(ctx, draws as u64);
    }
}

/// Two turns that follow each other, at every place of a longer sequence.
fn windows(ctx: &Ctx, what: &str, draws: usize, len: usize, kinds: usize, possible: impl Fn(usize, usize) -> bool + Sync, name: impl Fn(usize) -> String, make: impl Fn(&mut Scripted) -> Vec<usize> + Sync) {
    let c = Cover::new(len * kinds * kinds);
    ctx.par_chunks(draws, 256, |r| {
        for i in r {
            let mut rng = Scripted::new(Script { base: Base::Mixed(i as u32), deviations: vec![] });
            if let Ok(v) = catch(|| make(&mut rng)) {
                for (i, w) in v.windows(2).enumerate().take(len - 1) {
                    c.put((i * kinds + w[0]) * kinds + w[1]);
                }
            }
        }
    });
    ctx.add("evaluations", draws as u64);
    if ctx.stopped() {
        return;
    }
    let mut missing = None;
    let mut want = 0;
    for i in 0..len - 1 {
        for a in 0..kinds {
            for b in 0..kinds {
                if possible(a, b) {
                    want += 1;
                    if !c.has((i * kinds + a) * kinds + b) && missing.is_none() {
                        missing = Some((i, a, b));
                    }
                }
            }
        }
    }
    ctx.add("values_possible", want);
    ctx.add("values_seen", c.len());
    ctx.log(format!("{what}: {} of {want} (two turns in a row, at every place)", c.len()));
    if let Some((i, a, b)) = missing {
        ctx.violation("left-out", format!("{what}: in {draws} draws from as many random sources, turn {} is never {} with {} after it", i + 1, name(a), name(b)));
    }
}

/// Any two places of a long sequence.
fn far(ctx: &Ctx, what: &str, draws: usize, len: usize, kinds: usize, name: impl Fn(usize) -> String, make: impl Fn(&mut Scripted) -> Vec<usize> + Sync) {
    let row = kinds * kinds;
    let c = Cover::new(len * len * row);
    ctx.par_chunks(draws, 64, |r| {
        for i in r {
            let mut rng = Scripted::new(Script { base: Base::Mixed(i as u32), deviations: vec![] });
            if let Ok(v) = catch(|| make(&mut rng)) {
                for i in 0..v.len().min(len) {
                    for j in i + 2..v.len().min(len) {
                        c.put((i * len + j) * row + v[i] * kinds + v[j]);
                    }
                }
            }
        }
    });
    ctx.add("evaluations", draws as u64);
    if ctx.stopped() {
        return;
    }
    let places: Vec<(usize, usize)> = (0..len).flat_map(|i| (i + 2..len).map(move |j| (i, j))).collect();
    ctx.add("values_possible", (places.len() * row) as u64);
    ctx.add("values_seen", c.len());
    ctx.log(format!("{what}: {} of {} (two turns that do not follow each other, at all places)", c.len(), places.len() * row));
    for (i, j) in places {
        if let Some(k) = (0..row).find(|k| !c.has((i * len + j) * row + k)) {
            return ctx.violation("left-out", format!("{what}: in {draws} draws from as many random sources, turn {} is never {} with turn {} being {}", i + 1, name(k / kinds), j + 1, name(k % kinds)));
        }
    }
}

fn wide<const N: u32>(ctx: &Ctx, draws: usize) {
    let kinds = 18 * (N as usize + 1);
    windows(
        ctx,
        &format!("random wide turns of depth at most {N}"),
        draws,
        5,
        kinds,
        |_, _| true,
        |k| wide_name(k % 18 / 3, (k % 3) as u32 + 1, (k / 18) as u32),
        |rng| {
            Alg::<WideAxisMove<N>>::random_unnormalized_with_rng(5, rng)
                .moves
                .iter()
                .map(|m| {
                    let (f, k) = fq(&m.axis_move);
                    m.depth() as usize * 18 + f * 3 + k as usize - 1
                })
                .collect()
        },
    );
}

fn main() {
    mc::main("C25", "exploration", |ctx| {
        ctx.assume("that a value can come up is shown by a random source that makes it come up; that a value is left out is concluded when none of the enumerated sources (20 default scripts with one deviation, and the stated number of mixed sequences) brings it up: with the number of sources chosen, a generator that can produce the value misses it with probability below 1e-9 if its outcomes are anywhere near even");
        cubes::<Cube3>(ctx, ctx.pick(1_500_000, 20_000_000));
        cubes::<Cube2>(ctx, ctx.pick(1_500_000, 20_000_000));
        scrambles(ctx, 1, 20_000);
        scrambles(ctx, 2, 200_000);
        scrambles(ctx, 3, ctx.pick(2_000_000, 10_000_000));
        if ctx.thorough {
            scrambles(ctx, 4, 150_000_000);
        }
        let len = ctx.pick(12, 40);
        let turn = |m: &AxisMove| {
            let (f, k) = fq(m);
            f * 3 + k as usize - 1
        };
        let name = |k: usize| turn_name(k / 3, (k % 3) as u32 + 1);
        // two turns on one axis may come in either order: their order is not judged
        windows(ctx, "scrambles", ctx.pick(400_000, 2_000_000), len, 18, |a, b| face_axis(a / 3) != face_axis(b / 3), name, |rng| {
            Alg::<AxisMove>::random_with_rng(len, rng).moves.iter().map(turn).collect()
        });
        windows(ctx, "unnormalised random turns", 100_000, len, 18, |_, _| true, name, |rng| {
            Alg::<AxisMove>::random_unnormalized_with_rng(len, rng).moves.iter().map(turn).collect()
        });
        windows(ctx, "random quarter turns", 100_000, len, 12, |_, _| true, |k| turn_name(k / 2, (k % 2) as u32 * 2 + 1), |rng| {
            Alg::<QuarterAxisMove>::random_unnormalized_with_rng(len, rng)
                .moves
                .iter()
                .map(|m| {
                    let (f, k) = fq(&AxisMove::from(m));
                    f * 2 + (k == 3) as usize
                })
                .collect()
        });
        let (len, draws) = (ctx.pick(120, 300), ctx.pick(200_000, 300_000));
        far(ctx, "scrambles", draws, len, 18, name, |rng| Alg::<AxisMove>::random_with_rng(len, rng).moves.iter().map(turn).collect());
        far(ctx, "unnormalised random turns", draws, len, 18, name, |rng| Alg::<AxisMove>::random_unnormalized_with_rng(len, rng).moves.iter().map(turn).collect());
        wide::<0>(ctx, 100_000);
        wide::<1>(ctx, 200_000);
        wide::<2>(ctx, 300_000);
        wide::<3>(ctx, ctx.pick(400_000, 2_000_000));
        // the functions that bring their own random source must not repeat themselves
        let own: HashSet<String> = (0..50).filter_map(|_| catch(|| Alg::<AxisMove>::random(60).to_string()).ok()).collect();
        if own.len() < 50 {
            ctx.violation("repeats", format!("Alg::random(60) called 50 times gives only {} different scrambles", own.len()));
        }
        let own: HashSet<String> = (0..50).filter_map(|_| catch(|| Alg::<AxisMove>::random_unnormalized(60).to_string()).ok()).collect();
        if own.len() < 50 {
            ctx.violation("repeats", format!("Alg::random_unnormalized(60) called 50 times gives only {} different sequences", own.len()));
        }
        ctx.add("distinct_nontrivial", ctx.get("values_seen"));
        ctx.sample("random Cube2: corner 3 in place 5 twisted while corner 6 is in place 0 untwisted");
        ctx.sample("random Cube3: edge 2 in place 11 flipped while corner 4 is at home");
        ctx.sample("a scramble of three turns: R2 U' F");
        ctx.sample("turns 7 and 8 of a scramble of 12: D2 with B' after it");
        ctx.note("rule", "every value of every aspect (two pieces with places and orientations; arrangement of the corners; orientations of all but one corner / edge; places of four edges; whole scrambles of up to 3 (4) turns up to the order of turns on one axis; two turns in a row at every place of a sequence; two turns at any two other places of a long one) has to come up among the enumerated random sources; nontrivial = values that came up");
    });
}
