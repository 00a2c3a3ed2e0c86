//! C20: recovering moves from states finds the move exactly when there is one.
use barbarosa::cube_n::{AxisMove, Cube2, Cube3, Cube4, Cube5, Cube6, Cube7};
use barbarosa::generic::alg::TryFromStatesError;
use barbarosa::generic::moves::connect;
use barbarosa::generic::{Alg, Cube, Movable};
use mc::glue::*;
use mc::*;
use std::collections::HashMap;

/// States with an identity that does not rely on the implementation's equality.
struct World<P> {
    states: Vec<(P, String)>,
    ids: Vec<Vec<u8>>,
    /// ids reached by the 18 turns
    next: Vec<Vec<Vec<u8>>>,
}

fn turned<P: Turns + Movable<AxisMove>>(c: &P, f: usize, k: u32) -> P {
    let mut c = c.clone();
    c.face_turn(f, k);
    c
}

fn world<P: Turns>(states: Vec<(P, String)>, id: &dyn Fn(&P) -> Vec<u8>) -> World<P>
where
    P: Movable<AxisMove>,
{
    let ids = states.iter().map(|s| id(&s.0)).collect();
    let next = states.iter().map(|s| all_turns().iter().map(|&(f, k)| id(&turned(&s.0, f, k))).collect()).collect();
    World { states, ids, next }
}

/// States within `depth` turns of `start`.
fn ball<P: Turns + Movable<AxisMove>>(start: (P, String), depth: usize, id: &dyn Fn(&P) -> Vec<u8>) -> Vec<(P, String)> {
    let mut seen = std::collections::HashSet::from([id(&start.0)]);
    let mut out = vec![start];
    let mut from = 0;
    for _ in 0..depth {
        let to = out.len();
        for i in from..to {
            for (f, k) in all_turns() {
                let c = turned(&out[i].0, f, k);
                if seen.insert(id(&c)) {
                    let n = format!("{} {}", out[i].1, turn_name(f, k));
                    out.push((c, n));
                }
            }
        }
        from = to;
    }
    out
}

fn far<P: Turns + Movable<AxisMove>>() -> (P, String) {
    let w = [(0, 1), (1, 2), (2, 3), (3, 1), (4, 1), (5, 2), (0, 3), (1, 1), (2, 2), (3, 2), (4, 3), (5, 1)];
    let mut c = P::SOLVED;
    for (f, k) in w {
        c.face_turn(f, k);
    }
    (c, "R U2 F' L D B2 R' U F2 L2 D' B".into())
}

/// The lookup on all pairs.
fn pairs<P: Turns + Movable<AxisMove> + Eq + Sync>(ctx: &Ctx, w: &World<P>) {
    let n = w.states.len();
    ctx.par_chunks(n, 4, |range| {
        let mut count = 0;
        for i in range {
            let reach: HashMap<&Vec<u8>, ()> = w.next[i].iter().map(|x| (x, ())).collect();
            for j in 0..n {
                count += 1;
                let want = reach.contains_key(&w.ids[j]);
                let text = || format!("{}: from [{}] to [{}]", P::NAME, w.states[i].1, w.states[j].1);
                match catch(|| connect::<AxisMove, P>(&w.states[i].0, &w.states[j].0)) {
                    Err(e) => ctx.violation("connect", format!("{}: the lookup panicked: {e}", text())),
                    Ok(None) if !want => (),
                    Ok(None) => ctx.violation("connect", format!("{}: no turn is found, although one leads there", text())),
                    Ok(Some(m)) => {
                        let (f, k) = fq(&m);
                        let t = all_turns().iter().position(|&x| x == (f, k)).unwrap();
                        if w.next[i][t] != w.ids[j] {
                            ctx.violation("connect", format!("{}: the lookup returns {}, which does not lead there", text(), turn_name(f, k)));
                        }
                    }
                }
            }
            if ctx.stopped() {
                break;
            }
        }
        ctx.add("transitions", count);
    });
    ctx.add("states", n as u64);
    ctx.sample(format!("{}: connecting turn of all {} pairs of {n} states", P::NAME, n * n));
}

/// All lists of the given states up to a length.
fn lists<P: Turns + Movable<AxisMove> + Eq + Sync>(ctx: &Ctx, w: &World<P>, len: usize) {
    let n = w.states.len();
    for l in 0..=len {
        ctx.par_chunks(n.pow(l as u32), 512, |range| {
            let mut count = 0;
            for c in range {
                let mut ix = vec![];
                let mut r = c;
                for _ in 0..l {
                    ix.push(r % n);
                    r /= n;
                }
                count += 1;
                check_list(ctx, w, &ix);
                if ctx.stopped() {
                    break;
                }
            }
            ctx.add("lists", count);
        });
    }
}

fn check_list<P: Turns + Movable<AxisMove> + Eq>(ctx: &Ctx, w: &World<P>, ix: &[usize]) {
    let connected = |a: usize, b: usize| w.next[a].contains(&w.ids[b]);
    let text = || format!("{}: states {}", P::NAME, ix.iter().map(|&i| format!("[{}]", w.states[i].1)).collect::<Vec<_>>().join(", "));
    let states: Vec<P> = ix.iter().map(|&i| w.states[i].0.clone()).collect();
    let ok = ix.windows(2).all(|p| connected(p[0], p[1]));
    let judge = |how: &str, r: Result<Result<Alg<AxisMove>, TryFromStatesError<AxisMove, P>>, String>| match r {
        Err(e) => ctx.violation("states", format!("{}: {how} panicked: {e}", text())),
        Ok(Ok(a)) => {
            if !ok {
                return ctx.violation("states", format!("{}: {how} gives a sequence although two neighbours are not connected", text()));
            }
            if a.moves.len() != ix.len().saturating_sub(1) {
                return ctx.violation("states", format!("{}: {how} gives {} moves", text(), a.moves.len()));
            }
            for (n, m) in a.moves.iter().enumerate() {
                let t = all_turns().iter().position(|&x| x == fq(m)).unwrap();
                if w.next[ix[n]][t] != w.ids[ix[n + 1]] {
                    return ctx.violation("states", format!("{}: {how} gives {} as move number {n}, which does not lead to the next state", text(), turn_name(fq(m).0, fq(m).1)));
                }
            }
        }
        Ok(Err(TryFromStatesError::NotConnected(a, b, _))) => {
            if ok {
                return ctx.violation("states", format!("{}: {how} fails although all neighbours are connected", text()));
            }
            let named = ix.windows(2).any(|p| !connected(p[0], p[1]) && w.states[p[0]].0 == a && w.states[p[1]].0 == b);
            if !named {
                ctx.violation("states", format!("{}: the error of {how} does not name two neighbours that are not connected", text()));
            }
        }
    };
    judge("try_from_states", catch(|| Alg::<AxisMove>::try_from_states(&states)));
    judge("try_from", catch(|| Alg::<AxisMove>::try_from(&states[..])));
}

/// Special states (few or only some kinds of pieces out of place), some of their neighbours, and solved.
fn special_states<P: Turns + Movable<AxisMove>>(per: usize, most: usize) -> Vec<(P, String)> {
    let su = explore::Setup::plain::<P>();
    let words = special::words(&su, per);
    let mut v = vec![(P::SOLVED, "solved".to_string())];
    for (i, w) in words.iter().enumerate().step_by(words.len().div_ceil(most)) {
        let mut c = P::SOLVED;
        for &t in w {
            let (f, k, d) = su.turns[t];
            c.turn(f, k, d);
        }
        let name = history(&w.iter().map(|&t| su.turns[t]).collect::<Vec<_>>());
        for j in [i, i * 5 + 7] {
            let (f, k) = all_turns()[j % 18];
            v.push((turned(&c, f, k), format!("{name} {}", turn_name(f, k))));
        }
        v.push((c, name));
    }
    v
}

fn successors(ctx: &Ctx, w: &World<Cube3>, id: &(dyn Fn(&Cube3) -> Vec<u8> + Sync)) {
    ctx.par_chunks(w.states.len(), 64, |range| {
        for i in range {
            let text = || format!("successors of [{}]", w.states[i].1);
            match catch(|| w.states[i].0.successors().into_iter().collect::<Vec<_>>()) {
                Err(e) => ctx.violation("successors", format!("{}: panicked: {e}", text())),
                Ok(v) => {
                    let mut turns: Vec<(usize, u32)> = v.iter().map(|x| fq(&x.1)).collect();
                    for (c, m) in &v {
                        let t = all_turns().iter().position(|&x| x == fq(m)).unwrap();
                        if id(c) != w.next[i][t] {
                            ctx.violation("successors", format!("{}: the state listed with {} is not the result of that turn", text(), turn_name(fq(m).0, fq(m).1)));
                        }
                    }
                    turns.sort();
                    turns.dedup();
                    if v.len() != 18 || turns.len() != 18 {
                        ctx.violation("successors", format!("{}: {} entries, {} different turns", text(), v.len(), turns.len()));
                    }
                }
            }
            ctx.add("successor_lists", 1);
        }
    });
}

/// Plain turns of the big cubes: identity by the hook, or by what is printed.
#[cfg(verif_hooks)]
fn identity<P: Puzzle>() -> impl Fn(&P) -> Vec<u8> + Sync {
    let ph = mc::model::Phys::new(P::N);
    move |c: &P| c.clone().refs(&ph).iter().flat_map(|x| x.to_le_bytes()).collect()
}
#[cfg(not(verif_hooks))]
fn identity<P: Turns>() -> impl Fn(&P) -> Vec<u8> + Sync {
    move |c: &P| format!("{c:?}").into_bytes()
}
fn identity_small<P: Puzzle>() -> impl Fn(&P) -> Vec<u8> + Sync {
    let ph = mc::model::Phys::new(P::N);
    move |c: &P| c.clone().refs(&ph).iter().map(|&x| x as u8).collect()
}

fn main() {
    mc::main("C20", "model_checking", |ctx| {
        {
            let id = identity_small::<Cube3>();
            let mut s = ball((Cube3::SOLVED, "solved".into()), 3, &id);
            s.extend(ball(far(), ctx.pick(2, 3), &id));
            let w = world(s, &id);
            pairs(ctx, &w);
            successors(ctx, &w, &id);
            ctx.log("3x3 pairs and successors done");
            let w = world(special_states(ctx.pick(40, 200), ctx.pick(500, 3000)), &id);
            pairs(ctx, &w);
            successors(ctx, &w, &id);
            ctx.log(format!("{} special states and neighbours done", w.states.len()));
            // lists over a neighbourhood with many connections, some gaps, and a far state
            let mut s = ball((Cube3::SOLVED, "solved".into()), 1, &id);
            s.push((turned(&turned(&Cube3::SOLVED, 0, 1), 1, 1), "solved R U".into()));
            s.push((turned(&turned(&Cube3::SOLVED, 0, 1), 3, 2), "solved R L2".into()));
            s.push(far());
            lists(ctx, &world(s, &id), ctx.pick(4, 5));
            let s = vec![
                (Cube3::SOLVED, "solved".to_string()),
                (turned(&Cube3::SOLVED, 0, 1), "solved R".into()),
                (turned(&Cube3::SOLVED, 0, 2), "solved R2".into()),
                (turned(&turned(&Cube3::SOLVED, 0, 1), 4, 3), "solved R D'".into()),
                (turned(&Cube3::SOLVED, 5, 3), "solved B'".into()),
            ];
            lists(ctx, &world(s, &id), ctx.pick(7, 9));
            // one long walk over all states reached by cycling through the turns, with one gap at every place
            let mut walk = vec![(Cube3::SOLVED, "solved".to_string())];
            for i in 0..60 {
                let (f, k) = all_turns()[i * 7 % 18];
                let l = walk.last().unwrap();
                let n = (turned(&l.0, f, k), format!("{} {}", l.1, turn_name(f, k)));
                walk.push(n);
            }
            walk.push((turned(&turned(&walk[30].0, 1, 1), 0, 1), "a state two turns away".into()));
            let w = world(walk, &id);
            let full: Vec<usize> = (0..61).collect();
            check_list(ctx, &w, &full);
            for i in 0..=60 {
                let mut l = full.clone();
                l.insert(i, 61);
                check_list(ctx, &w, &l);
                let mut l = full.clone();
                l.remove(i);
                check_list(ctx, &w, &l);
                let mut l = full.clone();
                l.insert(i, i);
                check_list(ctx, &w, &l);
                ctx.add("lists", 3);
            }
            // walks of every length; with one state left out or repeated near the start, in the middle and near the end
            let lens = long::lengths(ctx.pick(130, 300), ctx.pick(4097, 10_001));
            let most = *lens.last().unwrap();
            let mut walk = vec![(Cube3::SOLVED, "solved".to_string())];
            for (i, t) in long::word(most, 18, 0).into_iter().enumerate() {
                let (f, k) = all_turns()[t];
                let n = (turned(&walk[i].0, f, k), format!("walk state {}", i + 1));
                walk.push(n);
            }
            let w = world(walk, &id);
            ctx.par(lens.len(), |j| {
                let full: Vec<usize> = (0..=lens[j]).collect();
                check_list(ctx, &w, &full);
                for at in [0, 1, lens[j] / 2, lens[j].saturating_sub(1), lens[j]] {
                    if at < full.len() {
                        let mut l = full.clone();
                        l.remove(at);
                        check_list(ctx, &w, &l);
                        let mut l = full.clone();
                        l.insert(at, at);
                        check_list(ctx, &w, &l);
                    }
                }
                ctx.add("lists", 11);
            });
            ctx.log("3x3 lists done");
        }
        {
            let id = identity_small::<Cube2>();
            let mut s = ball((Cube2::SOLVED, "solved".into()), 2, &id);
            s.extend(ball(far(), ctx.pick(1, 2), &id));
            pairs(ctx, &world(s, &id));
            pairs(ctx, &world(special_states(ctx.pick(40, 200), ctx.pick(300, 1000)), &id));
            lists(ctx, &world(ball((Cube2::SOLVED, "solved".into()), 1, &id), &id), 3);
        }
        fn big<P>(ctx: &Ctx, id: &(dyn Fn(&P) -> Vec<u8> + Sync))
        where
            P: Turns + Movable<AxisMove> + Eq,
        {
            let mut s = ball((P::SOLVED, "solved".into()), ctx.pick(1, 2), id);
            s.extend(ball(far(), 1, id));
            pairs(ctx, &world(s, id));
            pairs(ctx, &world(special_states(ctx.pick(10, 30), ctx.pick(70, 300)), id));
            lists(ctx, &world(ball((P::SOLVED, "solved".into()), 1, id), id), ctx.pick(2, 3));
        }
        big(ctx, &identity::<Cube4>());
        big(ctx, &identity::<Cube5>());
        big(ctx, &identity::<Cube6>());
        big(ctx, &identity::<Cube7>());
        ctx.add("traces_validated_against_impl", ctx.get("lists") + ctx.get("transitions") + ctx.get("successor_lists"));
        ctx.sample("3x3: every list of up to 4 of 22 states, of up to 7 of 5 states; a walk of 61 states with one state inserted, left out or repeated at every place");
        ctx.note("rule", "all pairs of states within the radius of solved and of a far state, and of special states (few or only some kinds of pieces out of place) and neighbours of them, through the lookup; all lists; connectivity decided from the results of the 18 turns, states identified by the place of every piece");
    });
}
