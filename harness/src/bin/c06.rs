//! C06: search returns a real and shortest solution, and finds one whenever it exists.
use barbarosa::cube_n::{AxisMove, Cube3};
use barbarosa::generic::moves::AsMove;
use barbarosa::generic::search::ida::IDASearcher;
use barbarosa::generic::search::{Searcher, Solver};
use barbarosa::generic::{Cube, Movable, Move};
use mc::glue::*;
use mc::*;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;

/// A toy puzzle: a node of a small graph. Node 0 is the solved one.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
struct Node(u8);
/// The arc from one node to another.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Arc(u8, u8);
impl Move for Arc {
    fn inverse(&self) -> Self {
        Arc(self.1, self.0)
    }
}
impl Movable<Arc> for Node {
    fn apply(&mut self, m: &Arc) {
        assert_eq!(self.0, m.0, "arc from another node applied");
        self.0 = m.1;
    }
}
impl AsMove for Node {
    type Move = Arc;
}
impl Cube for Node {
    const SOLVED: Self = Node(0);
}

const INF: i32 = 1000;

struct Graph {
    n: usize,
    succ: Vec<Vec<u8>>,
}
impl Graph {
    /// Distance of every node to the nearest target.
    fn dist(&self, targets: u64) -> Vec<i32> {
        let mut d: Vec<i32> = (0..self.n).map(|i| if targets >> i & 1 == 1 { 0 } else { INF }).collect();
        for _ in 0..self.n {
            for i in 0..self.n {
                for &s in &self.succ[i] {
                    if d[s as usize] + 1 < d[i] {
                        d[i] = d[s as usize] + 1;
                    }
                }
            }
        }
        d
    }
    fn describe(&self) -> String {
        let arcs: Vec<String> = (0..self.n).map(|i| format!("{i}->{:?}", self.succ[i])).collect();
        arcs.join(" ")
    }
}

#[derive(Default)]
struct Count {
    searches: AtomicU64,
    found: AtomicU64,
    none: AtomicU64,
}

trait MovedBy {
    fn moved_by(self, ms: &[AxisMove]) -> Self;
}
impl MovedBy for Cube3 {
    fn moved_by(mut self, ms: &[AxisMove]) -> Self {
        for m in ms {
            <Cube3 as Movable<AxisMove>>::apply(&mut self, m);
        }
        self
    }
}

/// One search, judged. `h` is the heuristic in units of 1/8 (-1 = infinite); `admissible` if it never overestimates.
fn judge(ctx: &Ctx, n: &Count, g: &Graph, start: u8, targets: u64, d: &[i32], h: &[i32], admissible: bool, limit: i32) {
    n.searches.fetch_add(1, Relaxed);
    let hf = |i: usize| if h[i] < 0 { f32::INFINITY } else { h[i] as f32 / 8.0 };
    let show = || {
        let hs: Vec<f32> = (0..g.n).map(hf).collect();
        let ts: Vec<usize> = (0..g.n).filter(|i| targets >> i & 1 == 1).collect();
        format!("graph {}, start {start}, targets {ts:?}, estimates {hs:?}, depth limit {limit}", g.describe())
    };
    let r = catch(|| {
        let s = IDASearcher::new(
            |c: &Node| hf(c.0 as usize),
            |c: &Node| {
                let from = c.0;
                g.succ[from as usize].iter().map(move |&t| (Node(t), Arc(from, t))).collect::<Vec<_>>()
            },
            limit,
        );
        let r = s.search(&Node(start), |c: &Node| targets >> c.0 & 1 == 1);
        let solved = (targets == 1).then(|| s.solve(&Node(start)).map(|a| a.moves));
        (r, solved)
    });
    let (r, solved) = match r {
        Err(e) => {
            ctx.violation("panic", format!("{}: panicked: {e}", show()));
            return;
        }
        Ok(x) => x,
    };
    let got = r.map(|(a, c)| (a.moves, c));
    if let Some(s) = solved {
        if s != got.as_ref().map(|g| g.0.clone()) {
            // solve may be any solution, but it has to be one of the same quality
            let same = matches!((&s, &got), (Some(a), Some((b, _))) if a.len() == b.len() && chain(g, start, a) == Some(0));
            if !same {
                ctx.violation("solve", format!("{}: search gives {got:?}, solve gives {s:?}", show()));
            }
        }
    }
    match got {
        None => {
            n.none.fetch_add(1, Relaxed);
            if admissible && d[start as usize] <= limit {
                ctx.violation("gave-up", format!("{}: found nothing, although {} moves suffice", show(), d[start as usize]));
            }
        }
        Some((moves, end)) => {
            n.found.fetch_add(1, Relaxed);
            match chain(g, start, &moves) {
                None => ctx.violation("chain", format!("{}: {moves:?} is not a chain of successors from the start", show())),
                Some(e) if e != end.0 => ctx.violation("chain", format!("{}: {moves:?} leads to {e}, not to the returned {}", show(), end.0)),
                _ => (),
            }
            if targets >> end.0 & 1 == 0 {
                ctx.violation("target", format!("{}: the returned end {} is no target", show(), end.0));
            }
            if admissible && moves.len() as i32 != d[start as usize] {
                ctx.violation("length", format!("{}: {} moves returned, {} suffice", show(), moves.len(), d[start as usize]));
            }
        }
    }
}

fn chain(g: &Graph, start: u8, ms: &[Arc]) -> Option<u8> {
    let mut at = start;
    for m in ms {
        if m.0 != at || !g.succ[at as usize].contains(&m.1) {
            return None;
        }
        at = m.1;
    }
    Some(at)
}

/// All functions on `0..n` with values from the given choices per node.
fn product(choices: &[Vec<i32>], mut f: impl FnMut(&[i32])) {
    let mut cur: Vec<usize> = vec![0; choices.len()];
    loop {
        let v: Vec<i32> = cur.iter().zip(choices).map(|(&i, c)| c[i]).collect();
        f(&v);
        let mut i = 0;
        loop {
            if i == cur.len() {
                return;
            }
            cur[i] += 1;
            if cur[i] < choices[i].len() {
                break;
            }
            cur[i] = 0;
            i += 1;
        }
    }
}

/// Every digraph on `n` nodes (`stride` > 1: every stride-th), every goal set, every estimate of the family.
fn digraphs(ctx: &Ctx, n: usize, stride: u64, n_limits: i32, cnt: &Count) {
    let arcs: Vec<(u8, u8)> = (0..n as u8).flat_map(|a| (0..n as u8).filter(move |&b| b != a).map(move |b| (a, b))).collect();
    let total = 1u64 << arcs.len();
    let jobs = total.div_ceil(stride) as usize;
    ctx.par_chunks(jobs, 16, |r| {
        for j in r {
            let mask = j as u64 * stride;
            for order in 0..2 {
                let mut g = Graph { n, succ: vec![vec![]; n] };
                for (i, &(a, b)) in arcs.iter().enumerate() {
                    if mask >> i & 1 == 1 {
                        g.succ[a as usize].push(b);
                    }
                }
                if order == 1 {
                    // other order, with a loop and a doubled arc
                    for (i, s) in g.succ.iter_mut().enumerate() {
                        s.reverse();
                        s.insert(0, i as u8);
                        if let Some(&l) = s.last() {
                            s.push(l);
                        }
                    }
                }
                // the start is node n - 1 (others by symmetry of the enumeration of all graphs)
                for targets in 0..1u64 << n {
                    let d = g.dist(targets);
                    for limit in 0..n_limits {
                        // whole-number estimates
                        let whole: Vec<Vec<i32>> = d.iter().map(|&d| if d >= INF { vec![0, 16, -1] } else { (0..=d).map(|x| x * 8).collect() }).collect();
                        product(&whole, |h| judge(ctx, cnt, &g, n as u8 - 1, targets, &d, h, true, limit));
                        // fractions
                        for part in [1, 3, 5, 7] {
                            let h: Vec<i32> = d.iter().enumerate().map(|(i, &d)| if d >= INF { 3 + i as i32 } else { d * part }).collect();
                            judge(ctx, cnt, &g, n as u8 - 1, targets, &d, &h, true, limit);
                            let h: Vec<i32> = d.iter().enumerate().map(|(i, &d)| if d >= INF { 8 } else { (d * 8 - part - i as i32).max(0) }).collect();
                            judge(ctx, cnt, &g, n as u8 - 1, targets, &d, &h, true, limit);
                        }
                        // estimates that overestimate: a solution has to be real all the same
                        for x in [4, 8, 16, 20] {
                            let h: Vec<i32> = (0..n as i32).map(|i| (x * (i + 1)) % 40).collect();
                            judge(ctx, cnt, &g, n as u8 - 1, targets, &d, &h, false, limit);
                        }
                    }
                }
                if ctx.stopped() {
                    return;
                }
            }
        }
    });
    ctx.add("graphs", jobs as u64 * 2);
}

/// Longer chains, ladders and grids: depth limits and bounds beyond what tiny graphs reach.
fn families(ctx: &Ctx, cnt: &Count) {
    for len in 1..=ctx.pick(30usize, 60) {
        let n = len + 1;
        // a path n-1 -> ... -> 0 with back arcs, with or without a shortcut, with a dead-end branch
        for variant in 0..if len <= ctx.pick(12, 14) { 4 } else { 1 } {
            let mut g = Graph { n: n + 2, succ: vec![vec![]; n + 2] };
            for i in 1..n {
                if variant & 2 == 2 {
                    g.succ[i].push((n + i % 2) as u8);
                }
                if i + 1 < n {
                    g.succ[i].push(i as u8 + 1);
                }
                g.succ[i].push(i as u8 - 1);
                if variant & 1 == 1 && i >= 3 {
                    g.succ[i].push(i as u8 - 3);
                }
            }
            g.succ[n] = vec![n as u8 + 1];
            g.succ[n + 1] = vec![n as u8];
            let d = g.dist(1);
            for start in 0..n as u8 {
                for limit in 0..=len as i32 + 2 {
                    for part in 0..=8 {
                        let h: Vec<i32> = d.iter().map(|&d| if d >= INF { part } else { d * part }).collect();
                        judge(ctx, cnt, &g, start, 1, &d, &h, true, limit);
                        let h: Vec<i32> = d.iter().map(|&d| if d >= INF { -1 } else { (d - part).max(0) * 8 }).collect();
                        judge(ctx, cnt, &g, start, 1, &d, &h, true, limit);
                    }
                }
            }
        }
    }
    // grids
    for (w, hgt) in [(3usize, 3usize), (4, 3)] {
        let n = w * hgt;
        let mut g = Graph { n, succ: vec![vec![]; n] };
        for y in 0..hgt {
            for x in 0..w {
                for (dx, dy) in [(1i32, 0i32), (0, 1), (-1, 0), (0, -1)] {
                    let (a, b) = (x as i32 + dx, y as i32 + dy);
                    if a >= 0 && b >= 0 && a < w as i32 && b < hgt as i32 {
                        g.succ[y * w + x].push((b * w as i32 + a) as u8);
                    }
                }
            }
        }
        ctx.par(1 << n, |t| {
            let d = g.dist(t as u64);
            for start in 0..n as u8 {
                for part in [0, 4, 5, 8] {
                    let h: Vec<i32> = d.iter().map(|&d| if d >= INF { 40 } else { d * part }).collect();
                    judge(ctx, cnt, &g, start, t as u64, &d, &h, true, d[start as usize].min(6));
                }
            }
        });
    }
}

/// The real puzzle: all states of the 3x3 up to a depth.
fn cube3(ctx: &Ctx) {
    let depth = ctx.pick(5, 6);
    let table_depth = depth - 1;
    let mut dist: HashMap<Cube3, u8> = HashMap::from([(Cube3::SOLVED, 0)]);
    let mut frontier = vec![Cube3::SOLVED];
    let mut last = vec![];
    for level in 1..=depth {
        let seen: Mutex<HashSet<Cube3>> = Mutex::new(HashSet::new());
        ctx.par_chunks(frontier.len(), 256, |r| {
            let mut l = vec![];
            for c in &frontier[r] {
                for (f, k) in all_turns() {
                    let c2 = c.clone().moved(&axis_move(f, k));
                    if !dist.contains_key(&c2) {
                        l.push(c2);
                    }
                }
            }
            seen.lock().unwrap().extend(l);
        });
        frontier = seen.into_inner().unwrap().into_iter().collect();
        if level <= table_depth {
            for c in &frontier {
                dist.insert(c.clone(), level as u8);
            }
        } else {
            last = std::mem::take(&mut frontier);
        }
    }
    ctx.log(format!("3x3: {} states up to {table_depth} turns in the table, {} states of {depth} turns", dist.len(), last.len()));
    let beyond = table_depth as f32 + 1.0;
    let run = |c: &Cube3, d: usize, what: &str, h: &dyn Fn(&Cube3) -> f32, shortest: bool| {
        let text = || format!("3x3 state {c:?} ({d} turns from solved), {what}");
        match catch(|| c.solve_with_heuristic(h)) {
            Err(e) => ctx.violation("cube3", format!("{}: panicked: {e}", text())),
            Ok(None) => ctx.violation("cube3", format!("{}: no solution found", text())),
            Ok(Some(a)) => {
                let ms = &a.moves;
                let mut e = c.clone();
                for m in ms {
                    <Cube3 as Movable<AxisMove>>::apply(&mut e, m);
                }
                if e != Cube3::SOLVED {
                    ctx.violation("cube3", format!("{}: the solution {a} does not solve it", text()));
                } else if shortest && ms.len() != d {
                    ctx.violation("cube3", format!("{}: the solution {a} has {} turns", text(), ms.len()));
                }
            }
        }
        ctx.add("cube3_solves", 1);
    };
    let exact = |c: &Cube3| dist.get(c).map_or(beyond, |&d| d as f32);
    let zero = |_: &Cube3| 0.0;
    let part = |c: &Cube3| dist.get(c).map_or(beyond, |&d| d as f32) * 0.75;
    let over = |c: &Cube3| dist.get(c).map_or(beyond * 1.5, |&d| d as f32 * 1.5);
    let near: Vec<(&Cube3, u8)> = dist.iter().map(|(c, &d)| (c, d)).filter(|x| x.1 as usize <= table_depth.min(4)).collect();
    ctx.par_chunks(near.len(), 64, |r| {
        for &(c, d) in &near[r] {
            run(c, d as usize, "estimate = exact distance", &exact, true);
            if d <= 3 || ctx.thorough {
                run(c, d as usize, "estimate = 3/4 of the distance", &part, true);
                run(c, d as usize, "estimate = 3/2 of the distance", &over, false);
            }
            if d as usize <= ctx.pick(2, 3) {
                run(c, d as usize, "estimate = 0", &zero, true);
                run(c, d as usize, "manhattan estimate", &barbarosa::cube3::heuristics::manhattan, false);
            }
        }
    });
    // long solutions: the estimate knows one way and calls everything else far
    for len in [8usize, 12, 18, 19, 20, 21, 22, 25, 30, 40, 64] {
        for pattern in 0..6usize {
            let mut path = vec![Cube3::SOLVED];
            for i in 0..len {
                let (f, k) = ((i * (pattern + 1) + i / 3 + i / 7 * pattern) % 6, 1 + (i + pattern) as u32 % 3);
                let c = path.last().unwrap().clone().moved(&axis_move(f, k));
                path.push(c);
            }
            let pos: HashMap<&Cube3, usize> = path.iter().enumerate().rev().map(|(i, c)| (c, i)).collect();
            let h = |c: &Cube3| pos.get(c).map_or(1000.0, |&i| i as f32);
            run(path.last().unwrap(), len, "estimate that knows one way only", &h, false);
            // on that way it is so much too low that the bound has to grow that often
            for low in [1usize, 4, 9, 15, 19, 20].into_iter().filter(|&low| low <= len && len <= 25) {
                let h = |c: &Cube3| pos.get(c).map_or(1000.0, |&i| i.saturating_sub(low) as f32);
                run(path.last().unwrap(), len, &format!("estimate that knows one way only and is {low} too low there"), &h, false);
            }
        }
    }
    // an estimate that knows that there is no solution: the search has to believe it, since it cannot try everything
    for c in near.iter().filter(|x| x.1 <= 3).map(|x| x.0) {
        for kind in 0..3 {
            let calls = std::cell::Cell::new(0u32);
            let h = |d: &Cube3| {
                calls.set(calls.get() + 1);
                assert!(calls.get() < 5000, "the search goes on and on");
                match kind {
                    0 => f32::INFINITY,
                    1 if d == c => f32::INFINITY,
                    1 => 1.0,
                    _ if d == c => 1.0,
                    _ => f32::INFINITY,
                }
            };
            let what = ["infinite", "infinite for this cube, else 1", "1 for this cube, else infinite"][kind];
            match catch(|| c.solve_with_heuristic(&h)) {
                Ok(None) => (),
                Ok(Some(a)) if c.clone().moved_by(&a.moves) == Cube3::SOLVED => (),
                Ok(Some(a)) => ctx.violation("cube3-infinite", format!("3x3 state {c:?}, estimate {what}: the solution {a} does not solve it")),
                Err(e) => ctx.violation("cube3-infinite", format!("3x3 state {c:?}, estimate {what}: panicked: {e}")),
            }
            ctx.add("cube3_solves", 1);
        }
    }
    ctx.par_chunks(last.len(), 256, |r| {
        for c in &last[r] {
            run(c, depth, "estimate = exact distance", &exact, true);
            if ctx.stopped() {
                return;
            }
        }
    });
}

fn main() {
    mc::main("C06", "model_checking", |ctx| {
        ctx.assume("the graphs have at most 4 (quick) / 5 (thorough, every 13th) nodes plus chains, ladders and 3x3, 4x3 grids; 3x3 states up to 5 (6) turns from solved");
        let cnt = Count::default();
        for n in 1..=3 {
            digraphs(ctx, n, 1, 5, &cnt);
        }
        digraphs(ctx, 4, 1, ctx.pick(4, 6), &cnt);
        ctx.log("4 nodes done");
        if ctx.thorough {
            digraphs(ctx, 5, 13, 6, &cnt);
            ctx.log("5 nodes done");
        }
        families(ctx, &cnt);
        ctx.log("families done");
        cube3(ctx);
        let s = cnt.searches.load(SeqCst);
        ctx.sample(format!("{} of {} searches on small graphs found a target, {} rightly found none within the limit", cnt.found.load(SeqCst), s, cnt.none.load(SeqCst)));
        ctx.sample("graph 0->[] 1->[0] 2->[1, 3] 3->[0], start 3, targets {0}, estimates 0,1,2,1, limits 0..4");
        ctx.add("states", ctx.get("graphs"));
        ctx.add("transitions", s);
        ctx.add("traces_validated_against_impl", s + ctx.get("cube3_solves"));
        ctx.note("rule", "states = successor graphs; transitions = searches of the real searcher on them, every returned chain replayed on the graph and its length compared with the breadth-first distance");
    });
}
