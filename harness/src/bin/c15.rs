//! C15: random sequences have the asked length and no redundancy.
use barbarosa::cube_n::moves::{NonRedundantAxisMove, QuarterAxisMove};
use barbarosa::cube_n::{AxisMove, WideAxisMove};
use barbarosa::generic::Alg;
use mc::glue::*;
use mc::model::*;
use mc::script::*;
use mc::*;
use rand::Rng;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;

fn text(ms: &[(usize, u32)]) -> String {
    let t = ms.iter().take(60).map(|&(f, k)| turn_name(f, k)).collect::<Vec<_>>().join(" ");
    if ms.len() > 60 { format!("{t} ... ({} turns)", ms.len()) } else { t }
}

fn redundancy(ms: &[(usize, u32)]) -> Option<usize> {
    for i in 0..ms.len() {
        for j in i + 1..ms.len() {
            if face_axis(ms[j].0) != face_axis(ms[i].0) {
                break;
            }
            if ms[i].0 == ms[j].0 {
                return Some(ms[i].0);
            }
        }
    }
    None
}

struct Seen {
    n: AtomicU64,
    outcomes: Mutex<HashSet<Vec<u8>>>,
}
impl Seen {
    fn outcome(&self, ms: &[(usize, u32)]) {
        let v: Vec<u8> = ms.iter().map(|&(f, k)| (f * 4 + k as usize) as u8).collect();
        self.outcomes.lock().unwrap().insert(v);
    }
}

/// One scramble under one script.
fn scramble(ctx: &Ctx, seen: &Seen, len: usize, s: Script, local: &mut HashSet<Vec<u8>>) -> u32 {
    seen.n.fetch_add(1, Relaxed);
    let mut rng = Scripted::new(s.clone());
    let r = catch(|| Alg::<AxisMove>::random_with_rng(len, &mut rng));
    match r {
        Err(e) => ctx.violation("panic", format!("a scramble of {len} turns, {}: panicked: {e}", s.describe())),
        Ok(a) => {
            let ms: Vec<(usize, u32)> = a.moves.iter().map(fq).collect();
            if ms.len() != len {
                ctx.violation("length", format!("a scramble of {len} turns, {}: has {} turns: {}", s.describe(), ms.len(), text(&ms)));
            }
            if let Some(f) = redundancy(&ms) {
                ctx.violation("redundant", format!("a scramble of {len} turns, {}: {} turns {} twice in one run on its axis", s.describe(), text(&ms), FACE_NAMES[f]));
            }
            if len <= 6 {
                local.insert(ms.iter().map(|&(f, k)| (f * 4 + k as usize) as u8).collect());
            }
        }
    }
    rng.calls
}

fn scrambles(ctx: &Ctx, seen: &Seen) {
    // every length, default scripts
    let lens = long::lengths(ctx.pick(300, 1100), ctx.pick(16_385, 65_537));
    ctx.par(lens.len(), |i| {
        let len = lens[i];
        ctx.guard(|| format!("a scramble of {len} turns"), || {
            let mut l = HashSet::new();
            for b in bases() {
                scramble(ctx, seen, len, Script { base: b, deviations: vec![] }, &mut l);
            }
        });
    });
    // one deviation, any value
    for len in 1..=12usize {
        let jobs: Vec<(Base, u32)> = bases()
            .into_iter()
            .flat_map(|b| {
                let c = scramble(ctx, seen, len, Script { base: b, deviations: vec![] }, &mut HashSet::new());
                (0..c.min(400)).map(move |i| (b, i))
            })
            .collect();
        ctx.par(jobs.len(), |j| {
            let (b, i) = jobs[j];
            let mut l = HashSet::new();
            for v in 0..96 {
                scramble(ctx, seen, len, Script { base: b, deviations: vec![(i, spaced(v, 96))] }, &mut l);
            }
            seen.outcomes.lock().unwrap().extend(l);
        });
    }
    // two deviations
    for len in 2..=ctx.pick(4, 8usize) {
        for b in [Base::Low, Base::High, Base::Walk(13), Base::Walk(37)] {
            let c = scramble(ctx, seen, len, Script { base: b, deviations: vec![] }, &mut HashSet::new()).min(ctx.pick(60, 120));
            ctx.par(c as usize, |i| {
                let mut l = HashSet::new();
                let n = ctx.pick(8, 12);
                for j in i as u32 + 1..c + 20 {
                    for v in 0..n {
                        for w in 0..n {
                            scramble(ctx, seen, len, Script { base: b, deviations: vec![(i as u32, spaced(v, n)), (j, spaced(w, n))] }, &mut l);
                        }
                    }
                    if ctx.stopped() {
                        return;
                    }
                }
                seen.outcomes.lock().unwrap().extend(l);
            });
        }
    }
    // three deviations, extreme values: with a reservoir sampler, low in a high script picks one element
    for len in 2..=ctx.pick(3, 6usize) {
        let c = scramble(ctx, seen, len, Script { base: Base::High, deviations: vec![] }, &mut HashSet::new()).min(ctx.pick(110, 200));
        ctx.par(c as usize, |i| {
            let mut l = HashSet::new();
            for j in i as u32 + 1..c {
                for k in j + 1..c {
                    scramble(ctx, seen, len, Script { base: Base::High, deviations: [i as u32, j, k].map(|x| (x, 0)).to_vec() }, &mut l);
                }
                if ctx.stopped() {
                    return;
                }
            }
            seen.outcomes.lock().unwrap().extend(l);
        });
    }
}

fn wide<const N: u32>(ctx: &Ctx, seen: &Seen) {
    let depths: Mutex<HashSet<u32>> = Mutex::new(HashSet::new());
    let check = |d: u32, s: &Script| {
        seen.n.fetch_add(1, Relaxed);
        if d > N {
            ctx.violation("depth", format!("a random wide turn of depth at most {N}, {}: has depth {d}", s.describe()));
        }
    };
    // one move: the values of the first four calls
    let n = 16u32;
    ctx.par(n as usize, |a| {
        let mut ds = HashSet::new();
        for w in 0..n * n * n {
            let s = Script {
                base: Base::Walk(13),
                deviations: vec![(0, spaced(a as u32, n)), (1, spaced(w % n, n)), (2, spaced(w / n % n, n)), (3, spaced(w / n / n, n))],
            };
            let mut rng = Scripted::new(s.clone());
            match catch(|| rng.gen::<WideAxisMove<N>>()) {
                Ok(m) => {
                    check(m.depth(), &s);
                    ds.insert(m.depth());
                }
                Err(e) => ctx.violation("panic", format!("a random wide turn of depth at most {N}, {}: panicked: {e}", s.describe())),
            }
            if ctx.stopped() {
                return;
            }
        }
        depths.lock().unwrap().extend(ds);
    });
    for len in (0..=20usize).chain([100, 1000]) {
        for b in bases() {
            let s = Script { base: b, deviations: vec![] };
            let mut rng = Scripted::new(s.clone());
            match catch(|| Alg::<WideAxisMove<N>>::random_unnormalized_with_rng(len, &mut rng)) {
                Ok(a) => {
                    if a.moves.len() != len {
                        ctx.violation("length", format!("a random sequence of {len} wide turns has {}", a.moves.len()));
                    }
                    for m in &a.moves {
                        check(m.depth(), &s);
                    }
                }
                Err(e) => ctx.violation("panic", format!("a random sequence of {len} wide turns, {}: panicked: {e}", s.describe())),
            }
        }
    }
    let d = depths.lock().unwrap().len();
    ctx.sample(format!("random wide turns of depth at most {N}: {d} different depths seen"));
}

fn lengths(ctx: &Ctx, seen: &Seen) {
    for len in long::lengths(ctx.pick(300, 1100), ctx.pick(16_385, 65_537)) {
        for b in bases() {
            let s = Script { base: b, deviations: vec![] };
            seen.n.fetch_add(2, Relaxed);
            let r = catch(|| {
                let a = Alg::<AxisMove>::random_unnormalized_with_rng(len, &mut Scripted::new(s.clone())).moves.len();
                let q = Alg::<QuarterAxisMove>::random_unnormalized_with_rng(len, &mut Scripted::new(s.clone())).moves.len();
                (a, q)
            });
            if r != Ok((len, len)) {
                ctx.violation("length", format!("unnormalised random sequences of {len} turns, {}: {r:?}", s.describe()));
            }
        }
        // the functions that bring their own random source
        let r = catch(|| {
            let a = Alg::<AxisMove>::random(len);
            (a.moves.len(), redundancy(&a.moves.iter().map(fq).collect::<Vec<_>>()), Alg::<AxisMove>::random_unnormalized(len).moves.len())
        });
        if r != Ok((len, None, len)) {
            ctx.violation("length", format!("Alg::random({len}) / random_unnormalized({len}): {r:?}"));
        }
    }
}

fn key(m: &NonRedundantAxisMove) -> Vec<(usize, u32)> {
    let mut v = match m {
        NonRedundantAxisMove::Single(m) => vec![fq(m)],
        NonRedundantAxisMove::Double { axis, amount_positive, amount_negative } => {
            vec![(ax(*axis), quarters(*amount_positive)), (ax(*axis) + 3, quarters(*amount_negative))]
        }
    };
    v.sort();
    v
}

fn list(ctx: &Ctx, what: &str, got: Result<Vec<NonRedundantAxisMove>, String>, axes: &[usize]) {
    let mut want: HashSet<Vec<(usize, u32)>> = HashSet::new();
    for &a in axes {
        for p in 0..4 {
            for n in 0..4 {
                let mut v = vec![];
                if p > 0 {
                    v.push((a, p));
                }
                if n > 0 {
                    v.push((a + 3, n));
                }
                if !v.is_empty() {
                    want.insert(v);
                }
            }
        }
    }
    let got = match got {
        Ok(g) => g,
        Err(e) => {
            ctx.violation("panic", format!("{what} panicked: {e}"));
            return;
        }
    };
    ctx.add("listed_moves", got.len() as u64);
    let keys: Vec<_> = got.iter().map(key).collect();
    let set: HashSet<_> = keys.iter().cloned().collect();
    if set.len() != keys.len() {
        let d = keys.iter().enumerate().find(|(i, k)| keys[..*i].contains(k)).unwrap().1.clone();
        ctx.violation("list", format!("{what} offers {} more than once", text(&d)));
    }
    if let Some(m) = want.difference(&set).next() {
        ctx.violation("list", format!("{what} does not offer {}", text(m)));
    }
    if let Some(m) = set.difference(&want).next() {
        ctx.violation("list", format!("{what} offers {}", text(m)));
    }
    for m in &got {
        let a = face_axis(key(m)[0].0);
        if ax(m.axis()) != a {
            ctx.violation("list", format!("{what}: the axis of {} is reported as {:?}", text(&key(m)), m.axis()));
        }
        let mut ms: Vec<_> = m.moves().map(|m| fq(&m)).collect();
        ms.sort();
        if ms != key(m) {
            ctx.violation("list", format!("{what}: {} is said to consist of {}", text(&key(m)), text(&ms)));
        }
    }
}

fn main() {
    mc::main("C15", "exploration", |ctx| {
        ctx.assume("the random source may return any values; its outcomes are covered by scripts (20 default scripts; up to 3 calls returning other values), not by all value sequences");
        for a in 0..3 {
            list(ctx, &format!("of_axis({:?})", AXES[a]), catch(|| NonRedundantAxisMove::of_axis(AXES[a]).collect()), &[a]);
            let others: Vec<usize> = (0..3).filter(|&b| b != a).collect();
            list(ctx, &format!("given_last_axis({:?})", AXES[a]), catch(|| NonRedundantAxisMove::given_last_axis(&AXES[a]).collect()), &others);
        }
        list(ctx, "all()", catch(|| NonRedundantAxisMove::all().collect()), &[0, 1, 2]);
        let seen = Seen { n: AtomicU64::new(0), outcomes: Mutex::new(HashSet::new()) };
        seen.outcome(&[]);
        lengths(ctx, &seen);
        scrambles(ctx, &seen);
        ctx.log(format!("{} scrambles, {} different ones of up to 6 turns", seen.n.load(SeqCst), seen.outcomes.lock().unwrap().len()));
        wide::<0>(ctx, &seen);
        wide::<1>(ctx, &seen);
        wide::<2>(ctx, &seen);
        wide::<3>(ctx, &seen);
        wide::<5>(ctx, &seen);
        wide::<{ u32::MAX }>(ctx, &seen);
        ctx.add("evaluations", seen.n.load(SeqCst));
        ctx.add("distinct_nontrivial", seen.outcomes.lock().unwrap().len() as u64);
        let ex: Vec<Vec<u8>> = seen.outcomes.lock().unwrap().iter().filter(|v| v.len() == 5).take(4).cloned().collect();
        for v in ex {
            ctx.sample(text(&v.iter().map(|&b| (b as usize / 4, b as u32 % 4)).collect::<Vec<_>>()));
        }
        ctx.note("rule", "every random source that follows one of the default scripts except for at most 1 (96 values), 2 (8 or 20 values) or 3 (lowest value) calls, for the lengths of the bounds; only the resulting sequences are judged; nontrivial = different resulting scrambles of up to 6 turns");
    });
}
