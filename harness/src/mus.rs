//! Exact distance tables of the corner and half-edge patterns, computed in the reference model.
use crate::cross::EdgeModel;
use crate::glue::*;
use crate::model::*;
use crate::report::*;
use barbarosa::cube_n::pieces::{Corner, Edge};
use barbarosa::cube_n::Cube3;
use barbarosa::generic::piece::PieceSetDescriptor;
use std::sync::atomic::{AtomicU8, Ordering::*};

pub const CORNERS: usize = 40320 * 2187;
pub const EDGES: usize = 665280 * 64;

/// Corner situations: place * 3 + twist.
pub struct CornerModel {
    pub ph: Phys,
    pub slot: Vec<u16>,
    pub of_slot: Vec<u8>,
    pub turn: Vec<[u8; 24]>,
}
impl CornerModel {
    pub fn new() -> CornerModel {
        let ph = Phys::new(3);
        let mut home = vec![];
        home_corners(&ph, &mut home);
        let mut slot = vec![0u16; 24];
        let mut of_slot = vec![255u8; ph.slots.len()];
        for (i, &h) in home.iter().enumerate() {
            for &st in &ph.cubie[h as usize] {
                let (p, f) = ph.slots[st as usize];
                let even = p[0].signum() * p[1].signum() * p[2].signum() > 0;
                let order = if even { [1, 0, 2] } else { [1, 2, 0] };
                let t = order.iter().position(|&a| a == face_axis(f)).unwrap();
                slot[i * 3 + t] = st;
                of_slot[st as usize] = (i * 3 + t) as u8;
            }
        }
        let turn = all_turns()
            .into_iter()
            .map(|(f, k)| {
                let t = ph.wide(f, k, 0);
                std::array::from_fn(|i| of_slot[t[slot[i] as usize] as usize])
            })
            .collect();
        CornerModel { ph, slot, of_slot, turn }
    }
    pub fn situation(&self, c: &Corner) -> u8 {
        self.of_slot[corner_slot(&self.ph, &c.position, c.orientation_axis) as usize]
    }
    pub fn piece(&self, s: u8) -> Corner {
        let pos = <Corner as PieceSetDescriptor<8>>::REFERENCE_POSITIONS[s as usize / 3];
        let f = self.ph.slots[self.slot[s as usize] as usize].1;
        Corner::new(pos, AXES[face_axis(f)])
    }
}
pub fn edge_piece(s: u8) -> Edge {
    let (a, p) = <Edge as PieceSetDescriptor<12>>::REFERENCE_POSITIONS[s as usize / 2];
    Edge::new(a, p, s % 2 == 0)
}

fn arrangements(k: usize, m: usize) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    for _ in 0..k {
        out = out
            .into_iter()
            .flat_map(|v: Vec<u8>| {
                (0..m as u8).filter(|x| !v.contains(x)).map(|x| { let mut w = v.clone(); w.push(x); w }).collect::<Vec<_>>()
            })
            .collect();
    }
    out
}
fn pack(v: &[u8], base: usize) -> usize {
    v.iter().fold(0, |a, &x| a * base + x as usize)
}

/// An exact table over patterns `(arrangement p, orientation o)`, index `p * oris + o`.
pub struct Exact {
    pub places: Vec<Vec<u8>>,
    rank: Vec<u32>,
    base: usize,
    /// modulus of one orientation and number of pieces in the orientation number
    modulus: usize,
    free: usize,
    pub oris: usize,
    pub dist: Vec<u8>,
    pub per_depth: Vec<u64>,
    /// how many of the pieces are in the pattern
    pub first: usize,
    /// what a turn does to an arrangement, per arrangement and turn: the new one, and what it adds to the orientations
    step: Vec<(u32, u16)>,
    add: Vec<u16>,
    nt: usize,
}
impl Exact {
    fn build(ctx: &Ctx, k: usize, m: usize, modulus: usize, free: usize, first: usize, turn: &[[u8; 24]]) -> Exact {
        let places = arrangements(k, m);
        let mut rank = vec![u32::MAX; m.pow(k as u32)];
        for (i, v) in places.iter().enumerate() {
            rank[pack(v, m)] = i as u32;
        }
        let oris = modulus.pow(free as u32);
        // componentwise addition of orientation numbers
        let digits = |mut o: usize| -> Vec<usize> {
            (0..free).map(|_| { let d = o % modulus; o /= modulus; d }).collect()
        };
        let number = |d: &[usize]| d.iter().rev().fold(0, |a, &x| a * modulus + x);
        let all: Vec<Vec<usize>> = (0..oris).map(digits).collect();
        let add: Vec<u16> = (0..oris * oris)
            .map(|i| {
                let (a, b) = (&all[i / oris], &all[i % oris]);
                let s: Vec<usize> = a.iter().zip(b).map(|(x, y)| (x + y) % modulus).collect();
                number(&s) as u16
            })
            .collect();
        // what a turn does to an arrangement: the new one, and what it adds to the orientations
        let nt = turn.len();
        let step: Vec<(u32, u16)> = {
            let mut v = vec![(0u32, 0u16); places.len() * nt];
            for (i, pl) in places.iter().enumerate() {
                for (ti, t) in turn.iter().enumerate() {
                    let after: Vec<u8> = pl.iter().map(|&p| t[p as usize * modulus]).collect();
                    let np: Vec<u8> = after.iter().map(|&s| s / modulus as u8).collect();
                    let d: Vec<usize> = after.iter().take(free).map(|&s| s as usize % modulus).collect();
                    v[i * nt + ti] = (rank[pack(&np, m)], number(&d) as u16);
                }
            }
            v
        };
        let n = places.len() * oris;
        let dist: Vec<AtomicU8> = (0..n).map(|_| AtomicU8::new(255)).collect();
        let home: Vec<u8> = (first as u8..(first + k) as u8).collect();
        dist[rank[pack(&home, m)] as usize * oris].store(0, SeqCst);
        let mut per_depth = vec![1u64];
        for d in 0u8.. {
            let found = std::sync::atomic::AtomicU64::new(0);
            ctx.par_chunks(places.len(), 64, |r| {
                let mut l = 0;
                for p in r {
                    for o in 0..oris {
                        if dist[p * oris + o].load(Relaxed) != d {
                            continue;
                        }
                        for ti in 0..nt {
                            let (np, delta) = step[p * nt + ti];
                            let no = add[delta as usize * oris + o];
                            let e = &dist[np as usize * oris + no as usize];
                            if e.load(Relaxed) == 255 && e.compare_exchange(255, d + 1, Relaxed, Relaxed).is_ok() {
                                l += 1;
                            }
                        }
                    }
                }
                found.fetch_add(l, Relaxed);
            });
            let f = found.load(SeqCst);
            if f == 0 {
                break;
            }
            per_depth.push(f);
        }
        assert_eq!(per_depth.iter().sum::<u64>(), n as u64, "all patterns are reachable");
        let dist = dist.into_iter().map(|a| a.into_inner()).collect();
        Exact { places, rank, base: m, modulus, free, oris, dist, per_depth, first, step, add, nt }
    }
    /// Arrangement and orientation after the turn with the given number (in the order of `all_turns`).
    #[inline]
    pub fn after(&self, p: u32, o: u32, turn: usize) -> (u32, u32) {
        let (np, d) = self.step[p as usize * self.nt + turn];
        (np, self.add[d as usize * self.oris + o as usize] as u32)
    }
    /// All eight corners.
    pub fn corners(ctx: &Ctx, m: &CornerModel) -> Exact {
        Exact::build(ctx, 8, 8, 3, 7, 0, &m.turn)
    }
    /// The edges with home numbers `first..first + 6`.
    pub fn edges(ctx: &Ctx, m: &EdgeModel, first: usize) -> Exact {
        Exact::build(ctx, 6, 12, 2, 6, first, &m.turn)
    }
    /// Situations (place * modulus + orientation) of the pieces of a pattern. For corners the last
    /// orientation follows from the others.
    pub fn situations(&self, i: usize) -> Vec<u8> {
        let mut o = i % self.oris;
        let mut sum = 0;
        let pl = &self.places[i / self.oris];
        (0..pl.len())
            .map(|j| {
                let d = if j < self.free {
                    let d = o % self.modulus;
                    o /= self.modulus;
                    sum += d;
                    d
                } else {
                    (self.modulus - sum % self.modulus) % self.modulus
                };
                pl[j] * self.modulus as u8 + d as u8
            })
            .collect()
    }
    pub fn number(&self, s: &[u8]) -> usize {
        let m = self.modulus as u8;
        let pl: Vec<u8> = s.iter().map(|&x| x / m).collect();
        let o = s[..self.free].iter().rev().fold(0, |a, &x| a * self.modulus + (x % m) as usize);
        self.rank[pack(&pl, self.base)] as usize * self.oris + o
    }
}

/// The three exact tables, and the estimate of a cube.
pub struct Tables {
    pub cm: CornerModel,
    pub em: EdgeModel,
    pub corners: Exact,
    pub edges: [Exact; 2],
}
impl Tables {
    pub fn new(ctx: &Ctx) -> Tables {
        let cm = CornerModel::new();
        let em = EdgeModel::new();
        let corners = Exact::corners(ctx, &cm);
        ctx.log("exact corner table done");
        let edges = [Exact::edges(ctx, &em, 0), Exact::edges(ctx, &em, 6)];
        ctx.log("exact edge tables done");
        Tables { cm, em, corners, edges }
    }
    pub fn parts(&self, c: &Cube3) -> [u8; 3] {
        let cs: Vec<u8> = c.corners.iter().map(|p| self.cm.situation(p)).collect();
        let es: Vec<u8> = (0..12).map(|i| self.em.situation(c, i)).collect();
        [
            self.corners.dist[self.corners.number(&cs)],
            self.edges[0].dist[self.edges[0].number(&es[..6])],
            self.edges[1].dist[self.edges[1].number(&es[6..])],
        ]
    }
    pub fn estimate(&self, c: &Cube3) -> u8 {
        *self.parts(c).iter().max().unwrap()
    }
}

fn parity(p: &[u8]) -> usize {
    let mut inv = 0;
    for i in 0..p.len() {
        for j in i + 1..p.len() {
            inv += (p[i] > p[j]) as usize;
        }
    }
    inv % 2
}
impl Tables {
    /// A legal cube with corner pattern `c` and edge pattern `e` of the first (`half` = 0) or second half.
    /// `fill` varies the other edges. The parity is mended on the other edges.
    pub fn cube(&self, c: usize, half: usize, e: usize, fill: usize) -> Cube3 {
        let cs = self.corners.situations(c);
        let es = self.edges[half].situations(e);
        let mut places: Vec<u8> = es.iter().map(|s| s / 2).collect();
        let mut flips: Vec<u8> = es.iter().map(|s| s % 2).collect();
        let mut rest: Vec<u8> = (0..12).filter(|x| !places.contains(x)).collect();
        // near their homes where possible
        let mut home: Vec<u8> = (0..6).map(|i| i + 6 * (1 - half as u8)).collect();
        let mut r2 = vec![255u8; 6];
        for (i, h) in home.iter_mut().enumerate() {
            if let Some(k) = rest.iter().position(|x| x == h) {
                r2[i] = rest.remove(k);
            }
        }
        for x in r2.iter_mut() {
            if *x == 255 {
                *x = rest.remove(0);
            }
        }
        r2.rotate_left(fill % 6);
        let mut rf: Vec<u8> = (0..6).map(|i| (fill / 6 >> i & 1) as u8).collect();
        rf[5] ^= (flips.iter().chain(&rf).sum::<u8>()) % 2;
        let order = |a: &Vec<u8>, b: &Vec<u8>| -> Vec<u8> {
            if half == 0 { a.iter().chain(b).copied().collect() } else { b.iter().chain(a).copied().collect() }
        };
        let cpl: Vec<u8> = cs.iter().map(|s| s / 3).collect();
        if parity(&order(&places, &r2)) != parity(&cpl) {
            r2.swap(fill % 5, 5);
        }
        let places_all = order(&places, &r2);
        let flips_all = order(&flips, &rf);
        places.clear();
        flips.clear();
        let mut cube = <Cube3 as barbarosa::generic::Cube>::SOLVED;
        for (i, p) in cube.corners.iter_mut_unchecked().enumerate() {
            *p = self.cm.piece(cs[i]);
        }
        for (i, p) in cube.edges.iter_mut_unchecked().enumerate() {
            *p = edge_piece(places_all[i] * 2 + flips_all[i]);
        }
        cube
    }
}
