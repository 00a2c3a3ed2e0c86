//! Lock-step exploration of the implementation against the reference model.
use crate::glue::*;
use crate::model::*;
use crate::report::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};

pub struct PathNode {
    parent: Path,
    mv: (usize, u32, u32),
}
pub type Path = Option<Arc<PathNode>>;
pub fn path_vec(p: &Path) -> Vec<(usize, u32, u32)> {
    let mut v = vec![];
    let mut c = p;
    while let Some(n) = c {
        v.push(n.mv);
        c = &n.parent;
    }
    v.reverse();
    v
}

/// The model side of one puzzle.
pub struct Setup {
    pub ph: Phys,
    pub home: Vec<u16>,
    pub turns: Vec<(usize, u32, u32)>,
    pub tables: Vec<Table>,
    pub name: &'static str,
}
impl Setup {
    pub fn new<P: Puzzle>() -> Setup {
        let ph = Phys::new(P::N);
        let home = P::home(&ph);
        let turns = turns::<P>();
        let tables = turns.iter().map(|&(f, k, d)| ph.wide(f, k, d as usize)).collect();
        Setup { ph, home, turns, tables, name: P::NAME }
    }
    /// Without the pieces: every place and orientation stands for a piece.
    pub fn plain<P: Turns>() -> Setup {
        let ph = Phys::new(P::N);
        let home = (0..ph.slots.len() as u16).collect();
        let turns = turns::<P>();
        let tables = turns.iter().map(|&(f, k, d)| ph.wide(f, k, d as usize)).collect();
        Setup { ph, home, turns, tables, name: P::NAME }
    }
    pub fn table(&self, f: usize, k: u32, d: u32) -> &Table {
        let i = self.turns.iter().position(|t| *t == (f, k, d)).unwrap();
        &self.tables[i]
    }
    pub fn explain(&self, got: &[u16], want: &[u16]) -> String {
        if got.len() != want.len() {
            return format!("{} pieces instead of {}", got.len(), want.len());
        }
        let bad: Vec<_> = (0..got.len()).filter(|&i| got[i] != want[i]).collect();
        match bad.first() {
            None => "no difference".into(),
            Some(&i) => format!(
                "{} piece(s) differ; e.g. the piece whose home is {}: the implementation has it at {}, the physical cube at {}",
                bad.len(),
                self.ph.describe_slot(self.home[i]),
                self.ph.describe_slot(got[i]),
                self.ph.describe_slot(want[i])
            ),
        }
    }
    /// The home stickers must cover every movable cubie exactly once.
    pub fn missing_cubies(&self) -> (Vec<u16>, Vec<u16>) {
        let mut count: HashMap<V, u32> = HashMap::new();
        for &h in &self.home {
            *count.entry(self.ph.slots[h as usize].0).or_insert(0) += 1;
        }
        let mut missing = vec![];
        let mut dup = vec![];
        let mut seen = HashSet::new();
        for s in 0..self.ph.slots.len() as u16 {
            if self.ph.fixed_centre(s) || !seen.insert(self.ph.slots[s as usize].0) {
                continue;
            }
            match count.get(&self.ph.slots[s as usize].0) {
                None => missing.push(s),
                Some(1) => (),
                Some(_) => dup.push(s),
            }
        }
        (missing, dup)
    }
}

pub struct Node<P> {
    pub cube: P,
    pub model: Box<[u16]>,
    pub path: Path,
}

pub fn shard_of(m: &[u16]) -> usize {
    let mut h = DefaultHasher::new();
    m.hash(&mut h);
    (h.finish() % 64) as usize
}

pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub per_level: Vec<u64>,
}

/// Breadth-first lock-step exploration from `starts` to `depth` turns. Every transition result is
/// compared with the model; `visit` runs on every transition result. States are identified by the
/// exact model state (supercube: every piece tracked), so no two different states are merged.
pub fn bfs<P: Puzzle>(
    ctx: &Ctx,
    su: &Setup,
    starts: Vec<(P, String)>,
    depth: usize,
    key: &str,
    cover: Option<&Cover>,
    visit: impl Fn(&mut P, &[u16], &dyn Fn() -> String) + Sync,
) -> Stats {
    let seen: Vec<Mutex<HashSet<Box<[u16]>>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
    let start_names: Vec<String> = starts.iter().map(|s| s.1.clone()).collect();
    let mut total = Stats { states: 0, transitions: 0, per_level: vec![] };
    for (si, (cube, _)) in starts.into_iter().enumerate() {
        let mut frontier: Vec<Node<P>> = vec![];
        let mut c = cube;
        let m: Box<[u16]> = c.refs(&su.ph).into_boxed_slice();
        if seen[shard_of(&m)].lock().unwrap().insert(m.clone()) {
            total.states += 1;
            let nm = start_names[si].clone();
            visit(&mut c, &m, &|| nm.clone());
            frontier.push(Node { cube: c, model: m, path: None });
        }
        for level in 0..depth {
            let last = level + 1 == depth;
            let next: Mutex<Vec<Node<P>>> = Mutex::new(vec![]);
            let states = AtomicU64::new(0);
            let trans = AtomicU64::new(0);
            let start_name = &start_names[si];
            ctx.par_chunks(frontier.len(), 64, |range| {
                let mut local = vec![];
                let mut nt = 0;
                let mut ns = 0;
                for i in range {
                    let node = &frontier[i];
                    for (ti, &(f, k, d)) in su.turns.iter().enumerate() {
                        let mut model = node.model.clone();
                        compose_into(&mut model, &su.tables[ti]);
                        nt += 1;
                        if let Some(c) = cover {
                            c.mark(&node.model, ti);
                        }
                        let hist = || {
                            let mut p = path_vec(&node.path);
                            p.push((f, k, d));
                            format!("{}: {} then {}", su.name, start_name, history(&p))
                        };
                        let r = catch(|| {
                            let mut c = node.cube.clone();
                            c.turn(f, k, d);
                            let refs = c.refs(&su.ph);
                            (c, refs)
                        });
                        let mut cube = match r {
                            Ok((c, refs)) => {
                                if refs[..] != model[..] {
                                    ctx.violation(key, format!("{}: {}", hist(), su.explain(&refs, &model)));
                                    continue;
                                }
                                c
                            }
                            Err(e) => {
                                ctx.violation(key, format!("{}: panicked: {e}", hist()));
                                continue;
                            }
                        };
                        visit(&mut cube, &model, &hist);
                        if seen[shard_of(&model)].lock().unwrap().insert(model.clone()) {
                            ns += 1;
                            if !last {
                                let path =
                                    Some(Arc::new(PathNode { parent: node.path.clone(), mv: (f, k, d) }));
                                local.push(Node { cube, model, path });
                            }
                        }
                    }
                    if ctx.stopped() {
                        break;
                    }
                }
                trans.fetch_add(nt, Relaxed);
                states.fetch_add(ns, Relaxed);
                next.lock().unwrap().append(&mut local);
            });
            total.states += states.load(SeqCst);
            total.transitions += trans.load(SeqCst);
            if si == 0 {
                total.per_level.push(states.load(SeqCst));
            }
            frontier = next.into_inner().unwrap();
            if ctx.stopped() {
                return total;
            }
        }
    }
    total
}

/// Which (piece, place and orientation, turn) combinations have been exercised.
pub struct Cover {
    slots: usize,
    turns: usize,
    bits: Vec<AtomicU64>,
}
impl Cover {
    pub fn new(su: &Setup) -> Cover {
        let n = su.home.len() * su.ph.slots.len() * su.turns.len();
        Cover {
            slots: su.ph.slots.len(),
            turns: su.turns.len(),
            bits: (0..n / 64 + 1).map(|_| AtomicU64::new(0)).collect(),
        }
    }
    pub fn mark(&self, model: &[u16], turn: usize) {
        for (p, &s) in model.iter().enumerate() {
            let i = (p * self.slots + s as usize) * self.turns + turn;
            let b = &self.bits[i / 64];
            if b.load(Relaxed) >> (i % 64) & 1 == 0 {
                b.fetch_or(1 << (i % 64), Relaxed);
            }
        }
    }
    pub fn count(&self) -> u64 {
        self.bits.iter().map(|b| b.load(Relaxed).count_ones() as u64).sum()
    }
}

/// For every piece and every place and orientation it can reach: a shortest word that takes it there.
/// Returns the distinct words, and the number of (piece, place) pairs.
pub fn piece_words(su: &Setup) -> (Vec<Vec<usize>>, usize) {
    let mut words: HashSet<Vec<usize>> = HashSet::new();
    let mut pairs = 0;
    for &h in &su.home {
        let mut from: HashMap<u16, Vec<usize>> = HashMap::from([(h, vec![])]);
        let mut queue = std::collections::VecDeque::from([h]);
        while let Some(s) = queue.pop_front() {
            for (ti, t) in su.tables.iter().enumerate() {
                let n = t[s as usize];
                if !from.contains_key(&n) {
                    let mut w = from[&s].clone();
                    w.push(ti);
                    from.insert(n, w);
                    queue.push_back(n);
                }
            }
        }
        pairs += from.len();
        words.extend(from.into_values());
    }
    let mut v: Vec<_> = words.into_iter().collect();
    v.sort_by_key(|w| (w.len(), w.clone()));
    (v, pairs)
}

/// Runs every word from `start` on the implementation and then every turn, comparing with the model.
pub fn run_words<P: Puzzle>(
    ctx: &Ctx,
    su: &Setup,
    start: &P,
    start_name: &str,
    words: &[Vec<usize>],
    key: &str,
    cover: &Cover,
) -> u64 {
    let trans = AtomicU64::new(0);
    ctx.par_chunks(words.len(), 16, |r| {
        for wi in r {
            let w = &words[wi];
            let mut done: Vec<(usize, u32, u32)> = vec![];
            let res = catch(|| {
                let mut cube = start.clone();
                let mut model = cube.refs(&su.ph);
                for &ti in w {
                    let (f, k, d) = su.turns[ti];
                    done.push((f, k, d));
                    cover.mark(&model, ti);
                    cube.turn(f, k, d);
                    compose_into(&mut model, &su.tables[ti]);
                    trans.fetch_add(1, Relaxed);
                    let got = cube.refs(&su.ph);
                    if got != model {
                        return Some(su.explain(&got, &model));
                    }
                }
                for (ti, &(f, k, d)) in su.turns.iter().enumerate() {
                    let mut c = cube.clone();
                    let mut m = model.clone();
                    done.push((f, k, d));
                    cover.mark(&m, ti);
                    c.turn(f, k, d);
                    compose_into(&mut m, &su.tables[ti]);
                    trans.fetch_add(1, Relaxed);
                    let got = c.refs(&su.ph);
                    if got != m {
                        return Some(su.explain(&got, &m));
                    }
                    done.pop();
                }
                None
            });
            let msg = match res {
                Ok(None) => continue,
                Ok(Some(m)) => m,
                Err(e) => format!("panicked: {e}"),
            };
            ctx.violation(key, format!("{}: {} then {}: {}", su.name, start_name, history(&done), msg));
        }
    });
    trans.load(SeqCst)
}

/// One sequence of every length of `lens` and style, applied at once; compared with the model. Returns (sequences, turns).
pub fn run_long<P: Puzzle>(ctx: &Ctx, su: &Setup, start: &P, start_name: &str, lens: &[usize], key: &str) -> (u64, u64) {
    let turns = AtomicU64::new(0);
    ctx.par(lens.len() * 3, |j| {
        let (len, style) = (lens[j / 3], j % 3);
        let ws = crate::long::word(len, su.turns.len(), style);
        let ts: Vec<_> = ws.iter().map(|&i| su.turns[i]).collect();
        let name = || {
            let shown = if len > 40 { format!("{} ... ({len} turns, style {style})", history(&ts[..20])) } else { history(&ts) };
            format!("{}: {} then, as one sequence, {shown}", su.name, start_name)
        };
        let r = catch(|| {
            let mut c = start.clone();
            let mut model = c.refs(&su.ph);
            c.turn_seq(&ts);
            for &i in &ws {
                compose_into(&mut model, &su.tables[i]);
            }
            (c.refs(&su.ph), model)
        });
        turns.fetch_add(len as u64, Relaxed);
        match r {
            Ok((got, want)) if got == want => (),
            Ok((got, want)) => ctx.violation(key, format!("{}: {}", name(), su.explain(&got, &want))),
            Err(e) => ctx.violation(key, format!("{}: panicked: {e}", name())),
        }
    });
    (lens.len() as u64 * 3, turns.into_inner())
}
