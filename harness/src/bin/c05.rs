//! C05: every randomly generated cube is a legal, solvable cube.
use barbarosa::cube_n::invariants::{fix_corner_multiplicity, fix_edge_flip_parity, fix_swap_parity};
use barbarosa::cube_n::pieces::corner::CornerSet;
use barbarosa::cube_n::pieces::edge::EdgeSet;
use barbarosa::cube_n::{Cube2, Cube3};
use barbarosa::generic::piece::PieceSetDescriptor;
use barbarosa::generic::Cube;
use mc::glue::*;
use mc::model::*;
use mc::script::*;
use mc::*;
use rand::Rng;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;

/// The judge: what is legal, decided on sticker slots.
struct Judge {
    ph: Phys,
    /// place number of a corner / edge slot, and its twist / flip
    place: Vec<u8>,
    turn: Vec<u8>,
    home: [Vec<u16>; 2],
}
impl Judge {
    fn new(n: usize) -> Judge {
        let ph = Phys::new(n);
        let mut home = [vec![], vec![]];
        home_corners(&ph, &mut home[0]);
        if n == 3 {
            home_edges(&ph, &mut home[1]);
        }
        let s = ph.slots.len();
        let mut j = Judge { place: vec![255; s], turn: vec![0; s], home, ph };
        for kind in 0..2 {
            for (i, &h) in j.home[kind].iter().enumerate() {
                for &st in &j.ph.cubie[h as usize] {
                    j.place[st as usize] = i as u8;
                    let (p, f) = j.ph.slots[st as usize];
                    j.turn[st as usize] = if kind == 0 {
                        // how many times clockwise (seen from outside) from the U/D sticker
                        let even = p[0].signum() * p[1].signum() * p[2].signum() > 0;
                        let order = if even { [1, 0, 2] } else { [1, 2, 0] };
                        order.iter().position(|&a| a == face_axis(f)).unwrap() as u8
                    } else {
                        (f != edge_orientation_face(p)) as u8
                    };
                }
            }
        }
        j
    }
    /// (permutation parity, sum of twists or flips); None if two pieces share a place
    fn kind(&self, kind: usize, refs: &[u16]) -> Option<(u32, u32)> {
        let mut perm = [0u8; 12];
        let mut used = 0u32;
        let mut sum = 0;
        for (i, &r) in refs.iter().enumerate() {
            let p = self.place[r as usize];
            if p == 255 || used >> p & 1 == 1 || p as usize >= self.home[kind].len() {
                return None;
            }
            used |= 1 << p;
            perm[i] = p;
            sum += self.turn[r as usize] as u32;
        }
        let mut parity = 0;
        let mut seen = 0u32;
        for i in 0..refs.len() {
            let mut x = i;
            let mut len = 0;
            while seen >> x & 1 == 0 {
                seen |= 1 << x;
                x = perm[x] as usize;
                len += 1;
            }
            if len > 0 {
                parity ^= (len + 1) & 1;
            }
        }
        Some((parity, sum))
    }
    fn illegal(&self, refs: &[u16]) -> Option<String> {
        let Some((cp, ct)) = self.kind(0, &refs[..8]) else {
            return Some("two corners share a place".into());
        };
        if ct % 3 != 0 {
            return Some(format!("the corners are twisted by {ct} thirds in total"));
        }
        if refs.len() > 8 {
            let Some((ep, ef)) = self.kind(1, &refs[8..]) else {
                return Some("two edges share a place".into());
            };
            if ef % 2 != 0 {
                return Some(format!("{ef} edges are flipped"));
            }
            if cp != ep {
                return Some("the permutation of the corners is {} and that of the edges is not".replace("{}", if cp == 0 { "even" } else { "odd" }));
            }
        }
        None
    }
}

/// The judge has to accept everything turns can reach (checked on all states up to a depth).
fn check_judge<P: Puzzle>(ctx: &Ctx, j: &Judge, depth: usize) {
    let home: Vec<u16> = j.home.concat();
    let mut seen = HashSet::from([home.clone()]);
    let mut frontier = vec![home];
    for _ in 0..depth {
        let mut next = vec![];
        for s in &frontier {
            for (f, k) in all_turns() {
                let mut s2 = s.clone();
                compose_into(&mut s2, &j.ph.wide(f, k, 0));
                assert_eq!(j.illegal(&s2), None, "the judge refuses a reachable state");
                if seen.insert(s2.clone()) {
                    next.push(s2);
                }
            }
        }
        frontier = next;
    }
    ctx.add("judge_states", seen.len() as u64);
}

struct Seen {
    n: AtomicU64,
    d: Vec<Mutex<HashSet<Vec<u16>>>>,
}
impl Seen {
    fn put(&self, r: Vec<u16>) {
        let h = r.iter().fold(7u64, |a, &b| a.wrapping_mul(0x100000001b3) ^ b as u64);
        self.d[(h >> 20) as usize % 64].lock().unwrap().insert(r);
    }
}

fn draw<P: Puzzle>(ctx: &Ctx, j: &Judge, seen: &Seen, s: Script, keep: bool) -> u32
where
    rand::distributions::Standard: rand::distributions::Distribution<P>,
{
    seen.n.fetch_add(1, Relaxed);
    let mut rng = Scripted::new(s);
    match catch(|| {
        let mut c: P = rng.gen();
        c.refs(&j.ph)
    }) {
        Err(e) if rng.calls > 4_000_000 => ctx.log(format!("{} never accepts the values: {e}", P::NAME)),
        Err(e) => ctx.violation("panic", format!("random {}, {}: panicked: {e}", P::NAME, rng.describe())),
        Ok(r) => {
            if let Some(why) = j.illegal(&r) {
                ctx.violation("random", format!("random {}, {}: not solvable: {why}", P::NAME, rng.describe()));
            }
            if keep {
                seen.put(r);
            }
        }
    }
    rng.calls
}

fn random<P: Puzzle>(ctx: &Ctx, j: &Judge, seen: &Seen)
where
    rand::distributions::Standard: rand::distributions::Distribution<P>,
{
    for b in bases() {
        let calls = draw::<P>(ctx, j, seen, Script { base: b, deviations: vec![] }, true).min(200);
        let two = ctx.thorough || matches!(b, Base::Low | Base::High | Base::Walk(13 | 37 | 59));
        ctx.par(calls as usize, |i| {
            for v in 0..128 {
                draw::<P>(ctx, j, seen, Script { base: b, deviations: vec![(i as u32, spaced(v, 128))] }, true);
            }
            if two {
                let n = ctx.pick(12, 24);
                for i2 in i as u32 + 1..calls + 2 {
                    for v in 0..n * n {
                        draw::<P>(ctx, j, seen, Script { base: b, deviations: vec![(i as u32, spaced(v / n, n)), (i2, spaced(v % n, n))] }, v % 7 == 0);
                    }
                    if ctx.stopped() {
                        return;
                    }
                }
            }
        });
    }
    ctx.log(format!("{}: random cubes done", P::NAME));
}

fn next_perm(p: &mut [usize]) -> bool {
    let n = p.len();
    let Some(i) = (0..n.saturating_sub(1)).rev().find(|&i| p[i] < p[i + 1]) else { return false };
    let j = (i + 1..n).rev().find(|&j| p[j] > p[i]).unwrap();
    p.swap(i, j);
    p[i + 1..].reverse();
    true
}

fn set_corners(c: &mut CornerSet, perm: &[usize], twist: usize) {
    let axes = AXES;
    let mut t = twist;
    for (i, p) in c.iter_mut_unchecked().enumerate() {
        p.position = <barbarosa::cube_n::pieces::Corner as PieceSetDescriptor<8>>::REFERENCE_POSITIONS[perm[i]];
        p.orientation_axis = axes[t % 3];
        t /= 3;
    }
}
fn set_edges(c: &mut EdgeSet, perm: &[usize], flip: usize) {
    for (i, p) in c.iter_mut_unchecked().enumerate() {
        (p.normal_axis, p.slice_position) = <barbarosa::cube_n::pieces::Edge as PieceSetDescriptor<12>>::REFERENCE_POSITIONS[perm[i]];
        p.oriented = flip >> i & 1 == 0;
    }
}

fn places(j: &Judge, r: &[u16]) -> Vec<u8> {
    let mut v: Vec<u8> = r.iter().map(|&s| j.place[s as usize]).collect();
    v.sort();
    v
}

/// All three repairs on one assembly.
fn repair(ctx: &Ctx, j: &Judge, cp: &[usize], ct: usize, ep: &[usize], ef: usize) {
    ctx_eval(ctx);
    let mut c = Cube3::SOLVED;
    set_corners(&mut c.corners, cp, ct);
    set_edges(&mut c.edges, ep, ef);
    let before = c.refs(&j.ph);
    let legal = j.illegal(&before).is_none();
    let text = || format!("corners {cp:?} with orientation number {ct} and edges {ep:?} with flips {ef:012b}");
    let r = catch(|| {
        fix_swap_parity(&mut c);
        let swapped = c.refs(&j.ph);
        fix_edge_flip_parity(&mut c.edges);
        let flipped = c.refs(&j.ph);
        fix_corner_multiplicity(&mut c.corners);
        let after = c.refs(&j.ph);
        (swapped, flipped, after)
    });
    let (swapped, flipped, after) = match r {
        Err(e) => return ctx.violation("panic", format!("repairing {}: panicked: {e}", text())),
        Ok(x) => x,
    };
    if let Some(why) = j.illegal(&after) {
        return ctx.violation("repair", format!("repairing {}: the result is not solvable: {why}", text()));
    }
    if legal && after != before {
        ctx.violation("repair-legal", format!("repairing {}, which is legal, changes it", text()));
    }
    // every repair alone settles its own invariant and leaves a cube that satisfies it alone
    let k = |r: &[u16]| (j.kind(0, &r[..8]), j.kind(1, &r[8..]));
    let (Some((cpar, ctw)), Some((epar, efl))) = k(&before) else { unreachable!() };
    if cpar == epar && swapped != before {
        ctx.violation("repair-legal", format!("fix_swap_parity changes {}, whose parities agree", text()));
    }
    if efl % 2 == 0 && flipped[8..] != swapped[8..] {
        ctx.violation("repair-legal", format!("fix_edge_flip_parity changes {}, which has {efl} flipped edges", text()));
    }
    if ctw % 3 == 0 && flipped[..8] != after[..8] {
        ctx.violation("repair-legal", format!("fix_corner_multiplicity changes {}, whose total twist is {ctw} thirds", text()));
    }
    if places(j, &after[..8]).len() != 8 || places(j, &after[8..]) != (0..12).collect::<Vec<u8>>() {
        ctx.violation("repair", format!("repairing {}: pieces lost", text()));
    }
}
static EVALS: AtomicU64 = AtomicU64::new(0);
fn ctx_eval(_: &Ctx) {
    EVALS.fetch_add(1, Relaxed);
}

/// One permutation per cycle type, and that permutation conjugated by a rotation of the numbers.
fn cycle_types(n: usize) -> Vec<Vec<usize>> {
    fn go(left: usize, max: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left == 0 {
            out.push(cur.clone());
            return;
        }
        for k in (1..=left.min(max)).rev() {
            cur.push(k);
            go(left - k, k, cur, out);
            cur.pop();
        }
    }
    let mut parts = vec![];
    go(n, n, &mut vec![], &mut parts);
    let mut v = vec![];
    for p in parts {
        for shift in 0..n {
            let mut perm: Vec<usize> = (0..n).collect();
            let mut at = 0;
            for &k in &p {
                for i in 0..k {
                    perm[(at + i + shift) % n] = (at + (i + 1) % k + shift) % n;
                }
                at += k;
            }
            v.push(perm);
        }
    }
    v.sort();
    v.dedup();
    v
}

fn main() {
    mc::main("C05", "exploration", |ctx| {
        ctx.assume("legal = distinct places, equal permutation parities, even number of flips, total twist divisible by 3 (the known characterisation of the reachable states); the judge is checked against all states of up to 4 (5) turns");
        let j3 = Judge::new(3);
        let j2 = Judge::new(2);
        check_judge::<Cube3>(ctx, &j3, ctx.pick(3, 4));
        check_judge::<Cube2>(ctx, &j2, ctx.pick(4, 5));
        let seen = Seen { n: AtomicU64::new(0), d: (0..64).map(|_| Mutex::new(HashSet::new())).collect() };
        random::<Cube3>(ctx, &j3, &seen);
        random::<Cube2>(ctx, &j2, &seen);

        // repairs: all 8! corner permutations x edge cycle types is too much; all of one side x few of the other
        let id8: Vec<usize> = (0..8).collect();
        let id12: Vec<usize> = (0..12).collect();
        let mut all8 = vec![];
        let mut p = id8.clone();
        loop {
            all8.push(p.clone());
            if !next_perm(&mut p) {
                break;
            }
        }
        let types12 = cycle_types(12);
        let types8 = cycle_types(8);
        let mut swap12 = id12.clone();
        swap12.swap(4, 9);
        ctx.par_chunks(all8.len(), 64, |r| {
            for i in r {
                for (k, e) in [&id12, &swap12, &types12[i % types12.len()]].into_iter().enumerate() {
                    for t in 0..ctx.pick(9, 81) {
                        // two (four) corners take all orientations, the others vary with the permutation
                        let rest = (i * 7 + k) % 81;
                        let ct = rest + 81 * (t % 9) + 729 * (t / 9) * ctx.pick(0, 1);
                        repair(ctx, &j3, &all8[i], ct % 6561, e, (i * 31 + t * 5) % 4096);
                    }
                }
                if ctx.stopped() {
                    return;
                }
            }
        });
        ctx.log("all corner permutations done");
        // all 3^8 orientations
        let few8: Vec<&Vec<usize>> = types8.iter().step_by(ctx.pick(3, 1)).collect();
        ctx.par_chunks(few8.len(), 1, |r| {
            for i in r {
                for ct in 0..6561 {
                    repair(ctx, &j3, few8[i], ct, &types12[ct % types12.len()], (ct * 7) % 4096);
                }
            }
        });
        // all 2^12 flips
        let few12: Vec<&Vec<usize>> = types12.iter().step_by(ctx.pick(5, 1)).collect();
        ctx.par_chunks(few12.len(), 1, |r| {
            for i in r {
                for ef in 0..4096 {
                    repair(ctx, &j3, &types8[ef % types8.len()], (ef * 5) % 6561, few12[i], ef);
                }
            }
        });
        // all pairs of cycle types
        ctx.par_chunks(types8.len(), 1, |r| {
            for i in r {
                for (n, e) in types12.iter().enumerate() {
                    repair(ctx, &j3, &types8[i], (i * 13 + n) % 6561, e, (n * 3 + i) % 4096);
                }
            }
        });
        if ctx.thorough {
            // all 12! edge permutations, in blocks by the first four
            ctx.log("all edge permutations");
            let mut firsts = vec![];
            for a in 0..12usize {
                for b in 0..12usize {
                    for c in 0..12usize {
                        if a != b && b != c && a != c {
                            firsts.push([a, b, c]);
                        }
                    }
                }
            }
            ctx.par(firsts.len(), |i| {
                let f = firsts[i];
                let mut p: Vec<usize> = f.to_vec();
                p.extend((0..12).filter(|x| !f.contains(x)));
                let mut n = i;
                loop {
                    repair(ctx, &j3, &all8[n % all8.len()], n % 6561, &p, n % 4096);
                    n += 1;
                    if ctx.stopped() || !next_perm(&mut p[3..]) {
                        break;
                    }
                }
            });
        }
        let d: u64 = seen.d.iter().map(|s| s.lock().unwrap().len() as u64).sum();
        ctx.add("repairs", EVALS.load(SeqCst));
        ctx.add("random_cubes", seen.n.load(SeqCst));
        ctx.add("evaluations", seen.n.load(SeqCst) + EVALS.load(SeqCst));
        ctx.add("distinct_nontrivial", d);
        ctx.sample("random Cube3 with every call of the random source returning its smallest value");
        ctx.sample("random Cube3, random source Walk(13) except call 3 returns 0.512 of the range, call 20 returns 0.125 of the range");
        ctx.sample("corners [7,6,5,4,3,2,1,0] twisted by 1/3 in total, edges with one 12-cycle and 3 flips, repaired");
        ctx.note("rule", "random cubes: every random source that follows one of 20 default scripts except for at most 1 (128 values) or 2 (12 or 24 values) calls; repairs: all corner permutations, all orientations, all flips, all pairs of cycle types (thorough: all 12! edge permutations); nontrivial = different random cubes among those kept for counting");
    });
}
