//! C27: the named sequences move exactly the pieces they are documented to move.
use barbarosa::cube_n::moves::perms::{pll, SEXY_MOVE};
use barbarosa::cube_n::{AxisMove, Cube2, Cube3, Cube4, Cube5, Cube6, Cube7};
use barbarosa::generic::{Alg, Cube, Movable};
use mc::glue::*;
use mc::model::*;
use mc::*;

type Named = &'static Alg<AxisMove>;
const R: V = [1, 0, 0];
const L: V = [-1, 0, 0];
const F: V = [0, 0, 1];
const B: V = [0, 0, -1];
const RF: V = [1, 0, 1];
const RB: V = [1, 0, -1];

struct Seq {
    name: String,
    alg: Alg<AxisMove>,
    /// effect on the stickers of the 2x2 and the 3x3
    two: Table,
    three: Table,
    /// and of the 4x4 to the 7x7, whose centres stay on their faces
    big: Vec<Table>,
}

/// Pieces of the upper layer exchanged along the cycles, every upper sticker staying on top.
fn cycles(ph: &Phys, cycles: &[&[V]]) -> Table {
    let m = ph.n as i32 - 1;
    let mut t: Table = (0..ph.slots.len() as u16).collect();
    for c in cycles {
        for (i, from) in c.iter().enumerate() {
            let to = c[(i + 1) % c.len()];
            let k = (0..4).find(|&k| cwk(1, k, *from) == to).expect("the same kind of piece");
            for s in 0..t.len() {
                let (p, f) = ph.slots[s];
                // the corner, or everything between the corners
                let at = |x: i32, d: i32| if d == 0 { x.abs() < m } else { x == d * m };
                if p[1] == m && at(p[0], from[0]) && at(p[2], from[2]) {
                    t[s] = ph.slot(cwk(1, k, p), vec_face(cwk(1, k, face_vec(f))));
                }
            }
        }
    }
    t
}
fn turned(ph: &Phys, w: &[(usize, u32)]) -> Table {
    let mut t: Table = (0..ph.slots.len() as u16).collect();
    for &(f, k) in w {
        compose_into(&mut t, &ph.wide(f, k, 0));
    }
    t
}
fn inverse(t: &Table) -> Table {
    let mut o = t.clone();
    for (i, &x) in t.iter().enumerate() {
        o[x as usize] = i as u16;
    }
    o
}

/// Whether the pieces are where they should be: centres anywhere on the right face.
fn agree(ph: &Phys, home: &[u16], got: &[u16], want: &[u16]) -> Option<usize> {
    let m = ph.n as i32 - 1;
    (0..want.len()).find(|&j| {
        let centre = ph.slots[home[j] as usize].0.iter().filter(|x| x.abs() == m).count() == 1;
        got[j] != want[j] && !(centre && ph.slots.get(got[j] as usize).is_some_and(|s| s.1 == ph.slots[home[j] as usize].1))
    })
}

fn word<P: Puzzle + Movable<Alg<AxisMove>>>(ctx: &Ctx, ph: &Phys, seqs: &[Seq], table: impl Fn(&Seq) -> &Table + Sync, len: u32) {
    let n = seqs.len();
    ctx.par_chunks(n.pow(len), 64, |r| {
        for i in r {
            let w: Vec<usize> = (0..len).map(|j| i / n.pow(j) % n).collect();
            let text = || w.iter().map(|&x| seqs[x].name.as_str()).collect::<Vec<_>>().join(", ");
            // from the solved cube, and from one that was turned before
            for start in [vec![], vec![(0, 1), (2, 2), (4, 3), (1, 1), (5, 1)]] {
                let got = catch(|| {
                    let mut c = P::SOLVED;
                    for &(f, k) in &start {
                        c.face_turn(f, k);
                    }
                    for &x in &w {
                        <P as Movable<Alg<AxisMove>>>::apply(&mut c, &seqs[x].alg);
                    }
                    c.refs(ph)
                });
                let mut want = P::home(ph);
                compose_into(&mut want, &turned(ph, &start));
                for &x in &w {
                    compose_into(&mut want, table(&seqs[x]));
                }
                ctx.add("traces_validated_against_impl", 1);
                match got {
                    Ok(g) => {
                        let Some(at) = agree(ph, &P::home(ph), &g, &want) else { continue };
                        ctx.violation("effect", format!("{} after {}{}: the piece that belongs at {} is at {}, not at {}", P::NAME, if start.is_empty() { "" } else { "R F2 D' U B, " }, text(), ph.describe_slot(P::home(ph)[at]), ph.describe_slot(g[at]), ph.describe_slot(want[at])));
                    }
                    Err(e) => ctx.violation("panic", format!("{} after {}: panicked: {e}", P::NAME, text())),
                }
            }
        }
    });
}

fn orders<P: Turns + Movable<Alg<AxisMove>>>(ctx: &Ctx) {
    let named: [(&str, Named, usize); 4] = [("the T perm", &pll::T, 2), ("the U perm", &pll::U, 3), ("the J perm", &pll::J, 2), ("R U R' U'", &SEXY_MOVE, 6)];
    for (name, s, order) in named {
        let r = catch(|| {
            let (mut whole, mut single) = (P::SOLVED, P::SOLVED);
            let mut solved = vec![];
            for _ in 0..order {
                <P as Movable<Alg<AxisMove>>>::apply(&mut whole, s);
                for m in &s.moves {
                    let (f, k) = fq(m);
                    single.face_turn(f, k);
                }
                solved.push(whole.is_solved());
            }
            (solved, whole == single)
        });
        // there are no edges on the 2x2
        let want: Vec<bool> = (1..=order).map(|i| i == order || (P::N == 2 && order == 3)).collect();
        ctx.add("traces_validated_against_impl", 1);
        if r != Ok((want, true)) {
            ctx.violation("order", format!("{}: {name} repeated {order} times: solved, the same as its turns: {r:?}", P::NAME));
        }
    }
}

/// Applied as they are declared: the sequence itself, whatever type it has, is a move of every cube.
macro_rules! as_declared {
    ($ctx:expr; $($cube:ty)*) => {
        $(
            let seqs: [(&str, Named, fn(&mut $cube)); 4] = [
                ("T", &pll::T, |c| c.apply(&pll::T)),
                ("U", &pll::U, |c| c.apply(&pll::U)),
                ("J", &pll::J, |c| c.apply(&pll::J)),
                ("R U R' U'", &SEXY_MOVE, |c| c.apply(&SEXY_MOVE)),
            ];
            for w in 0..64usize {
                let w = [w % 4, w / 4 % 4, w / 16];
                let r = catch(|| {
                    let (mut as_is, mut single) = (<$cube>::SOLVED, <$cube>::SOLVED);
                    for i in w {
                        seqs[i].2(&mut as_is);
                        for m in &seqs[i].1.moves {
                            let (f, k) = fq(m);
                            single.face_turn(f, k);
                        }
                    }
                    as_is == single
                });
                $ctx.add("traces_validated_against_impl", 1);
                if r != Ok(true) {
                    $ctx.violation("declared", format!("{}: {} applied as declared gives the same as its turns: {r:?}", <$cube as Turns>::NAME, w.map(|i| seqs[i].0).join(", ")));
                }
            }
        )*
    };
}

fn main() {
    mc::main("C27", "model_checking", |ctx| {
        let (p2, p3) = (Phys::new(2), Phys::new(3));
        let p: Vec<Phys> = (4..8).map(Phys::new).collect();
        let sexy = [(0, 1), (1, 1), (0, 3), (1, 3)];
        if catch(|| SEXY_MOVE.moves.iter().map(fq).collect::<Vec<_>>()) != Ok(sexy.to_vec()) {
            ctx.violation("turns", "the sequence documented as R U R' U' has other turns");
        }
        let mut seqs = vec![];
        let documented: [(&str, Named, &[&[V]], &[&[V]]); 3] = [
            ("T", &pll::T, &[&[RF, RB]], &[&[R, L]]),
            ("U", &pll::U, &[], &[&[R, B, L]]),
            ("J", &pll::J, &[&[RF, RB]], &[&[R, F]]),
        ];
        for (name, s, corners, edges) in documented {
            let all: Vec<&[V]> = corners.iter().chain(edges).copied().collect();
            seqs.push(Seq { name: name.into(), alg: s.clone(), two: cycles(&p2, corners), three: cycles(&p3, &all), big: p.iter().map(|ph| cycles(ph, &all)).collect() });
        }
        seqs.push(Seq { name: "R U R' U'".into(), alg: SEXY_MOVE.clone(), two: turned(&p2, &sexy), three: turned(&p3, &sexy), big: p.iter().map(|ph| turned(ph, &sexy)).collect() });
        for i in 0..4 {
            let s = &seqs[i];
            seqs.push(Seq { name: format!("{} reversed", s.name), alg: s.alg.reversed(), two: inverse(&s.two), three: inverse(&s.three), big: s.big.iter().map(inverse).collect() });
        }
        for (f, k) in [(1, 1), (0, 1), (3, 2)] {
            seqs.push(Seq { name: turn_name(f, k), alg: Alg::new(vec![axis_move(f, k)]), two: turned(&p2, &[(f, k)]), three: turned(&p3, &[(f, k)]), big: p.iter().map(|ph| turned(ph, &[(f, k)])).collect() });
        }
        for len in 0..=ctx.pick(6, 7) {
            word::<Cube2>(ctx, &p2, &seqs, |s| &s.two, len);
            word::<Cube3>(ctx, &p3, &seqs, |s| &s.three, len);
            ctx.add("states", 4 * (seqs.len() as u64).pow(len));
            ctx.add("transitions", 4 * (seqs.len() as u64).pow(len) * seqs.len() as u64);
        }
        #[cfg(verif_hooks)]
        for len in 0..=ctx.pick(4, 5) {
            word::<Cube4>(ctx, &p[0], &seqs, |s| &s.big[0], len);
            word::<Cube5>(ctx, &p[1], &seqs, |s| &s.big[1], len);
            word::<Cube6>(ctx, &p[2], &seqs, |s| &s.big[2], len);
            word::<Cube7>(ctx, &p[3], &seqs, |s| &s.big[3], len);
            ctx.add("states", 8 * (seqs.len() as u64).pow(len));
            ctx.add("transitions", 8 * (seqs.len() as u64).pow(len) * seqs.len() as u64);
        }
        orders::<Cube2>(ctx);
        orders::<Cube3>(ctx);
        orders::<Cube4>(ctx);
        orders::<Cube5>(ctx);
        orders::<Cube6>(ctx);
        orders::<Cube7>(ctx);
        as_declared!(ctx; Cube2 Cube3 Cube4 Cube5 Cube6 Cube7);
        ctx.sample("T, U, T reversed, R on Cube3, from solved and after R F2 D' U B");
        ctx.note("rule", "states: words of up to 6 (7) of the named sequences, their reverses and three turns, each replayed on a real 2x2 and 3x3 (of up to 4 (5) on a 4x4 to 7x7, centres compared by face) and compared with the documented exchange of pieces; repetition until solved on all sizes");
    });
}
