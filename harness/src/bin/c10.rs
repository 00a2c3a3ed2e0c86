//! C10: the moves-until-solved table holds exact distances and never overestimates.
use barbarosa::cube3::heuristics::{mus, mus_with_fallback};
use barbarosa::cube3::mus::cache::Cache;
use barbarosa::cube3::mus::index::Indexable;
use barbarosa::cube_n::pieces::{Corner, Edge};
use barbarosa::cube_n::{AxisMove, Cube3};
use barbarosa::generic::{Cube, Movable};
use mc::cross::EdgeModel;
use mc::glue::*;
use mc::mus::*;
use mc::scratch::Scratch;
use mc::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU8, AtomicU64, Ordering::*};

#[cfg(verif_hooks)]
fn small(ctx: &Ctx) {
    use mc::tiny::*;
    fn one<T: Tiny>(ctx: &Ctx) {
        let want = T::exact();
        let solved = T::from_index(0).situations();
        ctx.add("tiny_entries", want.len() as u64);
        ctx.add("transitions", want.len() as u64 * 18);
        ctx.add("states", want.len() as u64);
        ctx.add("traces_validated_against_impl", want.len() as u64);
        let got = match ctx.guard(|| format!("generating the table of {}", T::NAME), || catch(barbarosa::cube3::mus::cache::verif::build_partial::<T>)) {
            Ok(Ok(g)) => g,
            e => {
                ctx.violation("generate", format!("generating the table of {}: {e:?}", T::NAME));
                return;
            }
        };
        let file = std::fs::read(T::PATH).unwrap_or_default();
        for (what, t) in [("returned", &got), ("stored", &file)] {
            if t.len() != want.len() {
                ctx.violation("generate", format!("the {what} table of {} has {} entries, there are {} patterns", T::NAME, t.len(), want.len()));
            } else if let Some(i) = (0..want.len()).find(|&i| t[i] != want[i]) {
                ctx.violation("generate", format!("{what} table of {} (solved = {solved:?}): the pattern {:?} takes {} turns, the table says {}", T::NAME, T::from_index(i).situations(), want[i], t[i]));
            }
        }
        ctx.sample(format!("{}: {} patterns, at most {} turns", T::NAME, want.len(), want.iter().max().unwrap()));
    }
    one::<Edges1>(ctx);
    one::<Edges2>(ctx);
    one::<Edges3>(ctx);
    one::<Corners1>(ctx);
    one::<Corners2>(ctx);
    one::<Corners3>(ctx);
    one::<Corners8>(ctx);
    if ctx.thorough {
        one::<Edges4>(ctx);
        one::<Corners4>(ctx);
    }
    ctx.log("small tables generated");
}
/// The real generation code on every pattern of the full spaces, in the model's numbering.
#[cfg(verif_hooks)]
fn mirrors(ctx: &Ctx, t: &'static Tables) {
    use mc::tiny::*;
    fn one<const K: usize>(ctx: &Ctx, e: &'static Exact, name: &str) {
        mirror::<K>(e);
        let got = match ctx.guard(|| format!("generating the table of all {name} patterns"), || catch(barbarosa::cube3::mus::cache::verif::build_partial::<Mirror<K>>)) {
            Ok(Ok(g)) => g,
            r => {
                ctx.violation("generate", format!("generating the table of all {name} patterns: {:?}", r.map(|r| r.map(|v| v.len()))));
                return;
            }
        };
        let file = std::fs::read(<Mirror<K> as barbarosa::cube3::mus::cache::verif::DiskCacheable>::PATH).unwrap_or_default();
        for (what, table) in [("returned", &got), ("stored", &file)] {
            if table.len() != e.dist.len() {
                ctx.violation("generate", format!("the {what} table of the {name} patterns has {} entries, there are {} patterns", table.len(), e.dist.len()));
            } else if let Some(i) = (0..table.len()).find(|&i| table[i] != e.dist[i]) {
                ctx.violation("generate", format!("{what} table of the {name} patterns: {:?} takes {} turns, the table says {}", e.situations(i), e.dist[i], table[i]));
            }
        }
        ctx.add("mirrored_entries", got.len() as u64);
        ctx.log(&format!("table of the {name} patterns generated in the model's numbering"));
    }
    std::thread::scope(|s| {
        s.spawn(|| one::<1>(ctx, &t.edges[0], "first-half edge"));
        one::<0>(ctx, &t.corners, "corner");
    });
}
#[cfg(not(verif_hooks))]
fn mirrors(_: &Ctx, _: &'static Tables) {}
#[cfg(not(verif_hooks))]
fn small(ctx: &Ctx) {
    ctx.assume("the hooks did not compile: the generation code was not run on small pattern kinds");
}

/// The table in the implementation's numbering.
fn renumber<T: Indexable + Clone>(ctx: &Ctx, name: &str, e: &Exact, make: impl Fn(&[u8]) -> T + Sync) -> Option<Vec<u8>> {
    let n = e.dist.len();
    let out: Vec<AtomicU8> = (0..n).map(|_| AtomicU8::new(255)).collect();
    let bad = AtomicU64::new(0);
    ctx.par_chunks(n, 1 << 15, |r| {
        for i in r {
            let p = make(&e.situations(i));
            match catch(|| p.index()) {
                Ok(x) if x < n && out[x].swap(e.dist[i], Relaxed) == 255 => (),
                x => {
                    bad.fetch_add(1, Relaxed);
                    ctx.violation("number", format!("{name}: pattern {:?} has number {x:?}, which is outside the table or belongs to another pattern too", e.situations(i)));
                }
            }
            if ctx.stopped() {
                return;
            }
        }
    });
    (bad.load(SeqCst) == 0).then(|| out.into_iter().map(|a| a.into_inner()).collect())
}

/// Turning the real pattern arrays, as generation does, against the model's steps.
fn steps<T: Movable<AxisMove> + Clone + PartialEq + std::fmt::Debug>(ctx: &Ctx, name: &str, e: &Exact, stride: usize, make: impl Fn(&[u8]) -> T + Sync) {
    let n = e.dist.len() / stride;
    let turns: Vec<AxisMove> = all_turns().into_iter().map(|(f, k)| axis_move(f, k)).collect();
    ctx.par_chunks(n, 1 << 10, |r| {
        for k in r {
            let i = k * stride;
            let p = make(&e.situations(i));
            for (ti, m) in turns.iter().enumerate() {
                let (np, no) = e.after((i / e.oris) as u32, (i % e.oris) as u32, ti);
                let want = make(&e.situations(np as usize * e.oris + no as usize));
                match catch(|| p.clone().moved(m)) {
                    Ok(g) if g == want => (),
                    g => ctx.violation("step", format!("{name} pattern {p:?} turned by {m:?}: expected {want:?}, got {g:?}")),
                }
            }
            if ctx.stopped() {
                return;
            }
        }
    });
    ctx.add("pattern_turns", n as u64 * 18);
}

fn lookups(ctx: &Ctx, t: &Tables, cache: &Cache) {
    let judge = |c: &Cube3| {
        let want = t.estimate(c);
        match catch(|| cache.get(c)) {
            Ok(g) if g == want => (),
            g => ctx.violation("estimate", format!("cube {:?} {:?}: corners take {:?}, so the estimate is {want}; got {g:?}", c.corners, c.edges, t.parts(c))),
        }
    };
    // corner patterns near solved, so that the edges decide
    let near: Vec<usize> = (0..t.corners.dist.len()).filter(|&i| t.corners.dist[i] <= 2).collect();
    let step = ctx.pick(37, 1);
    for half in 0..2 {
        let n = t.edges[half].dist.len() / step;
        ctx.par_chunks(n, 1 << 12, |r| {
            for k in r {
                judge(&t.cube(near[k % near.len()], half, k * step, (k / 64) % 384));
                if ctx.stopped() {
                    return;
                }
            }
        });
        ctx.add("estimates", n as u64);
    }
    // corner patterns, with the edges near solved
    let near: Vec<usize> = (0..t.edges[0].dist.len()).filter(|&i| t.edges[0].dist[i] <= 2).collect();
    let n = t.corners.dist.len() / step;
    ctx.par_chunks(n, 1 << 12, |r| {
        for k in r {
            judge(&t.cube(k * step, 0, near[k % near.len()], 0));
            if ctx.stopped() {
                return;
            }
        }
    });
    ctx.add("estimates", n as u64);
    ctx.log("lookups done");
}

fn solves(ctx: &Ctx, t: &Tables) {
    let mut seen = HashSet::from([Cube3::SOLVED]);
    let mut frontier = vec![Cube3::SOLVED];
    for d in 0..=ctx.pick(4usize, 5) {
        ctx.par_chunks(frontier.len(), 32, |r| {
            for c in &frontier[r] {
                let text = || format!("cube {:?} {:?}, {d} turns from solved", c.corners, c.edges);
                let e = mus(c);
                if e > d as f32 || e != t.estimate(c) as f32 {
                    ctx.violation("overestimate", format!("{}: the estimate is {e}, the tables give {}", text(), t.estimate(c)));
                }
                match catch(|| c.solve_with_heuristic(mus)) {
                    Ok(Some(a)) => {
                        let mut e = c.clone();
                        for m in &a.moves {
                            <Cube3 as Movable<AxisMove>>::apply(&mut e, m);
                        }
                        if e != Cube3::SOLVED || a.moves.len() != d {
                            ctx.violation("solve", format!("{}: solution {a}", text()));
                        }
                    }
                    x => ctx.violation("solve", format!("{}: {x:?}", text())),
                }
                if ctx.stopped() {
                    return;
                }
            }
        });
        ctx.add("solves", frontier.len() as u64);
        let mut next = vec![];
        for c in &frontier {
            for (f, k) in all_turns() {
                let c2 = c.clone().moved(&axis_move(f, k));
                if seen.insert(c2.clone()) {
                    next.push(c2);
                }
            }
        }
        frontier = next;
    }
    // states with few or only some kinds of pieces out of place, by a known number of turns
    let su = explore::Setup::plain::<Cube3>();
    let words = special::words(&su, ctx.pick(300, 3000));
    ctx.par(words.len(), |i| {
        let h: Vec<_> = words[i].iter().map(|&t| su.turns[t]).collect();
        let mut c = Cube3::SOLVED;
        ctx.guard(|| history(&h), || h.iter().for_each(|&(f, k, d)| c.turn(f, k, d)));
        match catch(|| mus(&c)) {
            Ok(e) if e <= h.len() as f32 && e == t.estimate(&c) as f32 => (),
            e => ctx.violation("overestimate", format!("solved then {}: the estimate is {e:?}, the tables give {}", history(&h), t.estimate(&c))),
        }
    });
    ctx.add("estimates", words.len() as u64);
    ctx.log("solves done");
}

/// The real generation of the full tables.
fn generate(ctx: &Ctx, corners: &[u8], edges: &[u8]) {
    let compare = |name: &str, want: &[u8], got: &[u8]| {
        if want.len() != got.len() {
            ctx.violation("full-table", format!("{name}: {} entries generated, there are {} patterns", got.len(), want.len()));
        } else if let Some(i) = (0..want.len()).find(|&i| want[i] != got[i]) {
            ctx.violation("full-table", format!("{name}: pattern number {i} takes {} turns, the generated table says {}", want[i], got[i]));
        }
        ctx.add("generated_entries", want.len() as u64);
    };
    for f in ["mus-cache/corners.barbarosa", "mus-cache/edges.barbarosa"] {
        let _ = std::fs::remove_file(f);
    }
    #[cfg(verif_hooks)]
    std::thread::scope(|s| {
        use barbarosa::cube3::mus::cache::verif::build_partial;
        s.spawn(|| match catch(build_partial::<[Corner; 8]>) {
            Ok(Ok(t)) => compare("generated corner table", corners, &t),
            e => ctx.violation("full-table", format!("generating the corner table: {:?}", e.map(|r| r.map(|v| v.len())))),
        });
        s.spawn(|| match catch(build_partial::<[Edge; 6]>) {
            Ok(Ok(t)) => compare("generated edge table", edges, &t),
            e => ctx.violation("full-table", format!("generating the edge table: {:?}", e.map(|r| r.map(|v| v.len())))),
        });
    });
    #[cfg(not(verif_hooks))]
    if let Err(e) = catch(Cache::init) {
        ctx.violation("full-table", format!("generating the tables: panicked: {e}"));
    }
    compare("stored corner table", corners, &std::fs::read("mus-cache/corners.barbarosa").unwrap_or_default());
    compare("stored edge table", edges, &std::fs::read("mus-cache/edges.barbarosa").unwrap_or_default());
    ctx.log("full tables generated");
}

fn main() {
    mc::main("C10", "model_checking", |ctx| {
        ctx.set_hang_secs(ctx.pick(400, 7200));
        ctx.assume("quick: the generation code is run on small pattern kinds and on the full spaces in the numbering and with the turns of the model (numbers and turns of the real patterns are compared with the model on their own), the lookups on exact full tables; thorough: also the full tables are generated with the real patterns and compared");
        let scratch = Scratch::new("c10");
        std::env::set_current_dir(scratch.path()).expect("scratch directory");
        small(ctx);

        // before any table is there
        let probe: Vec<Cube3> = all_turns().iter().map(|&(f, k)| Cube3::SOLVED.moved(&axis_move(f, k))).chain([Cube3::SOLVED]).collect();
        let before: Vec<_> = std::fs::read_dir(scratch.path()).unwrap().map(|e| e.unwrap().file_name()).collect();
        for (i, c) in probe.iter().enumerate() {
            for v in [0.0, 0.25, 7.5, 300.0 + i as f32, f32::INFINITY] {
                if catch(|| mus_with_fallback(|_| v)(c)) != Ok(v) {
                    ctx.violation("fallback", format!("without a table, the estimate of {c:?} is not the fallback's {v}"));
                }
                ctx.add("fallbacks", 1);
            }
            let h = mus_with_fallback(|c: &Cube3| if c.is_solved() { 0.0 } else { 1.0 });
            if catch(|| h(c)) != Ok(if c.is_solved() { 0.0 } else { 1.0 }) {
                ctx.violation("fallback", format!("without a table, the fallback is not asked about the cube itself: {c:?}"));
            }
        }
        let after: Vec<_> = std::fs::read_dir(scratch.path()).unwrap().map(|e| e.unwrap().file_name()).collect();
        if before != after {
            ctx.violation("fallback", "asking for an estimate with fallback touches the files".to_string());
        }

        let t: &'static Tables = Box::leak(Box::new(Tables::new(ctx)));
        std::thread::scope(|scope| {
        scope.spawn(|| mirrors(ctx, t));
        for e in [&t.corners, &t.edges[0], &t.edges[1]] {
            ctx.add("states", e.dist.len() as u64);
            ctx.add("transitions", e.dist.len() as u64 * 18);
        }
        ctx.sample(format!("corner patterns by exact distance: {:?}", t.corners.per_depth));
        ctx.sample(format!("first-half edge patterns by exact distance: {:?}", t.edges[0].per_depth));
        ctx.sample(format!("second-half edge patterns by exact distance: {:?}", t.edges[1].per_depth));
        let _: Option<EdgeModel> = None;
        let corners = renumber::<[Corner; 8]>(ctx, "corners", &t.corners, |s| std::array::from_fn(|i| t.cm.piece(s[i])));
        let edges = renumber::<[Edge; 6]>(ctx, "edges", &t.edges[0], |s| std::array::from_fn(|i| edge_piece(s[i])));
        let (Some(corners), Some(edges)) = (corners, edges) else { return };
        ctx.log("tables renumbered");
        // strides without a common factor with the number of orientations: all arrangements, varying orientations
        steps::<[Corner; 8]>(ctx, "corner", &t.corners, ctx.pick(1093, 5), |s| std::array::from_fn(|i| t.cm.piece(s[i])));
        steps::<[Edge; 6]>(ctx, "edge", &t.edges[0], ctx.pick(61, 1), |s| std::array::from_fn(|i| edge_piece(s[i])));
        ctx.log("turns of patterns done");
        std::fs::create_dir_all("mus-cache").expect("scratch directory");
        std::fs::write("mus-cache/corners.barbarosa", &corners).expect("scratch file");
        std::fs::write("mus-cache/edges.barbarosa", &edges).expect("scratch file");
        match catch(Cache::load) {
            Ok(Ok(cache)) => lookups(ctx, t, &cache),
            Ok(Err(e)) => ctx.violation("load", format!("complete tables are not loaded: {e}")),
            Err(e) => ctx.violation("load", format!("complete tables are not loaded: panicked: {e}")),
        }
        if ctx.violated() {
            return;
        }
        solves(ctx, t);
        for c in &probe {
            if catch(|| mus_with_fallback(|_| 77.0)(c)) != Ok(t.estimate(c) as f32) {
                ctx.violation("fallback", format!("with the table loaded, the estimate of {c:?} is not the table's"));
            }
        }
        if ctx.thorough {
            generate(ctx, &corners, &edges);
        }
        });
        ctx.add("traces_validated_against_impl", ctx.get("mirrored_entries") + ctx.get("pattern_turns") + ctx.get("estimates") + ctx.get("solves") + ctx.get("generated_entries"));
        ctx.note("rule", "states: patterns of the exact tables, computed breadth-first in the reference model (corners, first and second half of the edges, small kinds); validated: entries of generated tables, estimates of real cubes covering the patterns, optimal solutions");
    });
}
