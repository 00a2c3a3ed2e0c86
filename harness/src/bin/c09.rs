//! C09: pattern numbering is a bijection: every pattern has its own number and back.
use barbarosa::cube3::mus::deindex::Deindexable;
use barbarosa::cube3::mus::index::{factorial, orientation_permutation_index, position_disposition_index, CubeIndices, Indexable, OrientationIndexable, PositionIndexable};
use barbarosa::cube_n::pieces::{Corner, Edge};
use barbarosa::cube_n::Cube3;
use barbarosa::generic::piece::PieceSetDescriptor;
use barbarosa::generic::{Cube, Movable};
use mc::glue::*;
use mc::*;

const CORNERS: usize = 40320 * 2187;
const EDGES: usize = 665280 * 64;

/// Place of a corner as a number, from its coordinates alone.
fn corner_place(c: &Corner) -> usize {
    let p = &c.position;
    (di(p.x) < 0) as usize * 4 + (di(p.y) < 0) as usize * 2 + (di(p.z) < 0) as usize
}
/// Thirds clockwise (seen from outside) from the U/D face to the reference sticker.
fn corner_twist(c: &Corner) -> usize {
    let even = di(c.position.x) * di(c.position.y) * di(c.position.z) > 0;
    match (ax(c.orientation_axis), even) {
        (1, _) => 0,
        (0, true) | (2, false) => 1,
        _ => 2,
    }
}
fn edge_place(e: &Edge) -> usize {
    ax(e.normal_axis) * 4 + (di(e.slice_position.x) < 0) as usize * 2 + (di(e.slice_position.y) < 0) as usize
}

fn valid_corners(p: &[Corner; 8]) -> bool {
    let mut used = 0u32;
    let mut t = 0;
    for c in p {
        used |= 1 << corner_place(c);
        t += corner_twist(c);
    }
    used == 0xff && t % 3 == 0
}
fn valid_edges(p: &[Edge; 6]) -> bool {
    p.iter().fold(0u32, |u, e| u | 1 << edge_place(e)).count_ones() == 6
}

fn table<T: Deindexable>(ctx: &Ctx, name: &str, total: usize, valid: fn(&T) -> bool) {
    if T::TOTAL_SET_SIZE != total {
        ctx.violation("size", format!("{name}: the advertised table size is {}, there are {total} patterns", T::TOTAL_SET_SIZE));
    }
    ctx.par_chunks(total, 1 << 16, |r| {
        let res = catch(|| {
            for i in r.clone() {
                let p = T::from_index(i);
                if !valid(&p) {
                    return Some(format!("number {i} decodes to an invalid pattern"));
                }
                let n = p.index();
                if n != i {
                    return Some(format!("number {i} decodes to a pattern that has number {n}"));
                }
            }
            None
        });
        match res {
            Ok(None) => (),
            Ok(Some(m)) => ctx.violation("round-trip", format!("{name}: {m}")),
            Err(e) => {
                // find the exact number
                let i = r.clone().find(|&i| catch(|| T::from_index(i).index()).is_err()).unwrap_or(r.start);
                ctx.violation("panic", format!("{name}: number {i}: panicked: {e}"));
            }
        }
    });
    ctx.add("evaluations", total as u64);
    ctx.add("distinct_nontrivial", total as u64);
    ctx.log(format!("{name}: all {total} numbers done"));
}

/// `n`-th arrangement of `k` out of `m` things.
fn arrangement(mut n: usize, k: usize, m: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..m).collect();
    let mut v = vec![];
    for i in 0..k {
        v.push(left.remove(n % (m - i)));
        n /= m - i;
    }
    v
}
fn parity(p: &[usize]) -> usize {
    let mut inv = 0;
    for i in 0..p.len() {
        for j in i + 1..p.len() {
            inv += (p[i] > p[j]) as usize;
        }
    }
    inv % 2
}

/// A legal cube whose corner pattern is my number `c` and whose first (or second) half of the edges is my number `e`.
fn cube(c: usize, e: usize, second: bool, fill: usize) -> Cube3 {
    let mut cube = Cube3::SOLVED;
    let cp = arrangement(c / 2187, 8, 8);
    let mut tw = c % 2187;
    let mut sum = 0;
    let refs = <Corner as PieceSetDescriptor<8>>::REFERENCE_POSITIONS;
    for (i, p) in cube.corners.iter_mut_unchecked().enumerate() {
        p.position = refs[cp[i]];
        let t = if i < 7 { tw % 3 } else { (3 - sum % 3) % 3 };
        tw /= 3;
        sum += t;
        p.orientation_axis = *AXES.iter().find(|&&a| corner_twist(&Corner::new(p.position, a)) == t).unwrap();
    }
    let mut half = arrangement(e / 64, 6, 12);
    let mut rest: Vec<usize> = (0..12).filter(|x| !half.contains(x)).collect();
    let r = fill % 6;
    rest.rotate_left(r);
    let flips = e % 64;
    let mut fl: Vec<bool> = (0..6).map(|i| flips >> i & 1 == 1).collect();
    let mut rest_fl: Vec<bool> = (0..6).map(|i| fill >> i & 1 == 1).collect();
    if fl.iter().chain(&rest_fl).filter(|x| **x).count() % 2 == 1 {
        rest_fl[5] ^= true;
    }
    let all = |half: &Vec<usize>, rest: &Vec<usize>| -> Vec<usize> {
        if second {
            rest.iter().chain(half).copied().collect()
        } else {
            half.iter().chain(rest).copied().collect()
        }
    };
    if parity(&all(&half, &rest)) != parity(&cp) {
        rest.swap(0, 1);
    }
    if second {
        std::mem::swap(&mut half, &mut rest);
        std::mem::swap(&mut fl, &mut rest_fl);
    }
    let places: Vec<usize> = half.into_iter().chain(rest).collect();
    fl.extend(rest_fl);
    let refs = <Edge as PieceSetDescriptor<12>>::REFERENCE_POSITIONS;
    for (i, p) in cube.edges.iter_mut_unchecked().enumerate() {
        (p.normal_axis, p.slice_position) = refs[places[i]];
        p.oriented = !fl[i];
    }
    cube
}

fn rebuild(ctx: &Ctx, c: &Cube3) {
    let r = catch(|| {
        let i = c.indices();
        let nums = (i.corners, i.edges);
        (nums, Cube3::from_indices(CubeIndices { corners: nums.0, edges: nums.1 }) == *c)
    });
    let text = || format!("cube {:?} {:?}", c.corners, c.edges);
    match r {
        Err(e) => ctx.violation("cube", format!("{}: panicked: {e}", text())),
        Ok((n, same)) => {
            if n.0 >= CORNERS || n.1.iter().any(|&e| e >= EDGES) {
                ctx.violation("range", format!("{}: numbers {n:?} are outside the tables", text()));
            }
            if !same {
                ctx.violation("cube", format!("{}: rebuilding from its numbers {n:?} gives another cube", text()));
            }
        }
    }
}

/// A kind of thing with `S` places and 5 orientations, which the library does not know.
#[derive(Clone)]
struct Thing<const S: usize>(usize, usize);
impl<const S: usize> PositionIndexable for Thing<S> {
    fn position_index(&self) -> usize {
        self.0
    }
    const POSITION_SET_SIZE: usize = S;
}
impl<const S: usize> OrientationIndexable for Thing<S> {
    fn orientation_index(&self) -> usize {
        self.1
    }
    const ORIENTATION_SET_SIZE: usize = 5;
}

/// Numbers of arrangements of any `N` of `S` things: every number exactly once.
fn arrangements<T: PositionIndexable, const N: usize, const S: usize>(ctx: &Ctx, what: &str, make: impl Fn(usize) -> T) {
    let count: usize = (S - N + 1..=S).product();
    let mut seen = vec![false; count];
    let mut at = [0; N];
    loop {
        let distinct = (0..N).all(|i| (0..i).all(|j| at[i] != at[j]));
        if distinct {
            ctx.add("other_patterns", 1);
            match catch(|| position_disposition_index::<T, N, S>(&at.map(&make))) {
                Ok(n) if n < count && !seen[n] => seen[n] = true,
                r => ctx.violation("number", format!("{N} of {S} {what} at {at:?}: number {r:?} of {count}, which is no number or that of another arrangement")),
            }
        }
        let Some(i) = (0..N).find(|&i| at[i] + 1 < S) else { break };
        at[i] += 1;
        at[..i].fill(0);
    }
    if !seen.iter().all(|x| *x) {
        ctx.violation("number", format!("{N} of {S} {what}: not all of the {count} numbers are taken"));
    }
}

/// Numbers of orientations of `N` things with `K` orientations each: every number exactly once.
fn orientations<T: OrientationIndexable, const N: usize>(ctx: &Ctx, what: &str, k: usize, make: impl Fn(usize, usize) -> T) {
    let mut seen = vec![false; k.pow(N as u32)];
    for i in 0..seen.len() {
        let v: [T; N] = std::array::from_fn(|j| make(j, i / k.pow(j as u32) % k));
        ctx.add("other_patterns", 1);
        match catch(|| orientation_permutation_index(&v)) {
            Ok(n) if n < seen.len() && !seen[n] => seen[n] = true,
            r => ctx.violation("number", format!("{N} {what}, orientations {i} in base {k}: number {r:?} of {}, which is no number or that of another pattern", seen.len())),
        }
    }
}

/// The numbering of other numbers and kinds of pieces.
fn others(ctx: &Ctx) {
    let (ep, cp) = (<Edge as PieceSetDescriptor<12>>::REFERENCE_POSITIONS, <Corner as PieceSetDescriptor<8>>::REFERENCE_POSITIONS);
    let edge = |p: usize, o: usize| Edge::new(ep[p].0, ep[p].1, o == 0);
    let twists = |p: usize, o: usize| {
        let mut c = Corner::oriented(cp[p]);
        (0..o).for_each(|_| c.twist());
        c
    };
    macro_rules! number {
        ($($n:literal),*) => { $(
            arrangements::<Edge, $n, 12>(ctx, "edges", |p| edge(p, p % 2));
            arrangements::<Corner, $n, 8>(ctx, "corners", |p| twists(p, p % 3));
            orientations::<Edge, $n>(ctx, "edges", 2, |p, o| edge(p, o));
            orientations::<Corner, $n>(ctx, "corners", 3, |p, o| twists(p, o));
            orientations::<Thing<9>, $n>(ctx, "things", 5, |p, o| Thing(p, o));
        )* };
    }
    number!(1, 2, 3, 4, 5);
    orientations::<Edge, 12>(ctx, "edges", 2, |p, o| edge(p, o));
    arrangements::<Corner, 7, 8>(ctx, "corners", |p| twists(p, 0));
    arrangements::<Thing<1>, 1, 1>(ctx, "things", |p| Thing(p, 0));
    arrangements::<Thing<2>, 2, 2>(ctx, "things", |p| Thing(p, 0));
    arrangements::<Thing<3>, 3, 3>(ctx, "things", |p| Thing(p, 0));
    arrangements::<Thing<4>, 4, 4>(ctx, "things", |p| Thing(p, 0));
    arrangements::<Thing<24>, 3, 24>(ctx, "things", |p| Thing(p, 0));
    // single pieces
    for (what, all, n) in [("edge", (0..24).map(|i| catch(|| edge(i / 2, i % 2).index())).collect::<Vec<_>>(), 24), ("corner", (0..24).map(|i| catch(|| Indexable::index(&twists(i / 3, i % 3)))).collect(), 24)] {
        let mut v: Vec<usize> = all.iter().flatten().copied().collect();
        v.sort();
        ctx.add("other_patterns", n as u64);
        if v != (0..n).collect::<Vec<_>>() {
            ctx.violation("number", format!("the numbers of a single {what} are {all:?}"));
        }
    }
    for n in 0..=30usize {
        let want = if n > 20 { 0 } else { (1..=n).product() };
        if catch(|| factorial(n)) != Ok(want) {
            ctx.violation("number", format!("the factorial of {n} is {want}, not {:?}", catch(|| factorial(n))));
        }
    }
}

fn main() {
    mc::main("C09", "exploration", |ctx| {
        ctx.assume("the three numbers of a cube are checked to depend on the three patterns only through covering families of cubes, not through all 4.3e19 cubes");
        match catch(|| {
            let i = Cube3::SOLVED.indices();
            (i.corners, i.edges)
        }) {
            Ok((0, [0, 0])) => (),
            x => ctx.violation("solved", format!("the solved cube has numbers {x:?}")),
        }
        others(ctx);
        table::<[Corner; 8]>(ctx, "corners", CORNERS, valid_corners);
        table::<[Edge; 6]>(ctx, "half edges", EDGES, valid_edges);
        // whole cubes: every corner pattern and every half-edge pattern, as first and as second half
        let step = ctx.pick(24, 1);
        for second in [false, true] {
            let n = EDGES / step;
            ctx.par_chunks(n, 1 << 13, |r| {
                for k in r {
                    let e = (k * step + k % step.max(1)) % EDGES;
                    let c = (k * step * 2 + second as usize) % CORNERS;
                    rebuild(ctx, &cube(c, e, second, k % 64));
                    if ctx.stopped() {
                        return;
                    }
                }
            });
            ctx.add("cubes_rebuilt", n as u64);
        }
        ctx.log("cubes rebuilt");
        // near the solved cube: all states of up to 3 (4) turns
        let mut frontier = vec![Cube3::SOLVED];
        let mut seen = std::collections::HashSet::from([Cube3::SOLVED]);
        for _ in 0..ctx.pick(3, 4) {
            let mut next = vec![];
            for c in &frontier {
                for (f, k) in all_turns() {
                    let c2 = c.clone().moved(&axis_move(f, k));
                    if seen.insert(c2.clone()) {
                        next.push(c2);
                    }
                }
            }
            ctx.par_chunks(next.len(), 256, |r| {
                for c in &next[r] {
                    rebuild(ctx, c);
                }
            });
            ctx.add("cubes_rebuilt", next.len() as u64);
            frontier = next;
        }
        ctx.add("evaluations", ctx.get("cubes_rebuilt"));
        ctx.sample("corner number 88179839 decodes to the reversed places with all corners twisted and back");
        ctx.sample("half-edge number 42577919 decodes to places 11,10,9,8,7,6 all flipped and back");
        ctx.note("rule", "every number of both tables decoded, its pattern judged valid from coordinates alone and numbered again: as the number of valid patterns equals the table size, this shows a bijection; cubes: legal cubes covering the pattern families (thorough: every half-edge pattern as first and as second half, every second corner pattern each), numbered and rebuilt");
    });
}
