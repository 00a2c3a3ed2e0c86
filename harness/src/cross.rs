//! Exact distances of the cross, by breadth-first search in the reference model.
use crate::glue::*;
use crate::model::*;
use barbarosa::cube_n::pieces::Edge;
use barbarosa::cube_n::{AxisMove, Cube3};
use barbarosa::generic::piece::PieceSetDescriptor;
use barbarosa::generic::{Cube, Movable};

/// Edge situations: place (index into the reference positions) * 2 + flipped.
pub struct EdgeModel {
    pub ph: Phys,
    /// slot of the orientation sticker per situation
    pub slot: Vec<u16>,
    pub of_slot: Vec<u8>,
    /// situation after a turn (index into `all_turns()`)
    pub turn: Vec<[u8; 24]>,
}
impl EdgeModel {
    pub fn new() -> EdgeModel {
        let ph = Phys::new(3);
        let pos = <Edge as PieceSetDescriptor<12>>::REFERENCE_POSITIONS;
        let slot: Vec<u16> = (0..24).map(|i| edge_slot(&ph, pos[i / 2].0, &pos[i / 2].1, i % 2 == 0)).collect();
        let mut of_slot = vec![255u8; ph.slots.len()];
        for (i, &s) in slot.iter().enumerate() {
            of_slot[s as usize] = i as u8;
        }
        let turn = all_turns()
            .into_iter()
            .map(|(f, k)| {
                let t = ph.wide(f, k, 0);
                std::array::from_fn(|i| of_slot[t[slot[i] as usize] as usize])
            })
            .collect();
        EdgeModel { ph, slot, of_slot, turn }
    }
    /// Numbers (into the reference positions) of the four edges of a face.
    pub fn edges_of(&self, f: usize) -> [usize; 4] {
        let v: Vec<usize> = (0..12).filter(|&i| dot(self.ph.slots[self.slot[2 * i] as usize].0, face_vec(f)) > 0).collect();
        v.try_into().expect("four edges per face")
    }
    /// The situation of edge `i` in a cube.
    pub fn situation(&self, c: &Cube3, i: usize) -> u8 {
        let e = c.edges.at_index(i).expect("12 edges");
        self.of_slot[edge_slot(&self.ph, e.normal_axis, &e.slice_position, e.oriented) as usize]
    }
    /// Least number of turns that solve one edge.
    pub fn single(&self, home: usize) -> [u8; 24] {
        let mut d = [255u8; 24];
        d[home * 2] = 0;
        for n in 0..24u8 {
            for s in 0..24 {
                if d[s] == n {
                    for t in &self.turn {
                        // the inverse of every turn is a turn
                        let p = t[s] as usize;
                        if d[p] == 255 {
                            d[p] = n + 1;
                        }
                    }
                }
            }
        }
        d
    }
}

/// All arrangements of the four edges of a face, with their exact distances.
pub struct CrossModel {
    pub face: usize,
    pub edges: [usize; 4],
    pub dist: Vec<u8>,
    /// arrangements by distance
    pub by_dist: Vec<Vec<[u8; 4]>>,
}
pub fn cross_key(s: [u8; 4]) -> usize {
    s.iter().fold(0, |a, &x| a * 24 + x as usize)
}
impl CrossModel {
    pub fn new(m: &EdgeModel, face: usize) -> CrossModel {
        let edges = m.edges_of(face);
        let mut dist = vec![255u8; 24 * 24 * 24 * 24];
        let start = edges.map(|e| (e * 2) as u8);
        dist[cross_key(start)] = 0;
        let mut by_dist = vec![vec![start]];
        loop {
            let d = by_dist.len() as u8;
            let mut next = vec![];
            for s in by_dist.last().unwrap() {
                for t in &m.turn {
                    let n = s.map(|x| t[x as usize]);
                    let k = cross_key(n);
                    if dist[k] == 255 {
                        dist[k] = d;
                        next.push(n);
                    }
                }
            }
            if next.is_empty() {
                break;
            }
            by_dist.push(next);
        }
        CrossModel { face, edges, dist, by_dist }
    }
    pub fn states(&self) -> usize {
        self.by_dist.iter().map(|v| v.len()).sum()
    }
    pub fn distance(&self, m: &EdgeModel, c: &Cube3) -> u8 {
        self.dist[cross_key(self.edges.map(|e| m.situation(c, e)))]
    }
    /// A cube with the four edges in the given situations; `variant` decides what the rest of it looks like:
    /// 0 leaves it as solved as it can be. It can always be solved by turns.
    pub fn cube(&self, s: [u8; 4], variant: usize) -> Cube3 {
        let pos = <Edge as PieceSetDescriptor<12>>::REFERENCE_POSITIONS;
        let mut free: Vec<usize> = (0..12).filter(|&p| s.iter().all(|&x| x as usize / 2 != p)).collect();
        let rest: Vec<usize> = (0..12).filter(|i| !self.edges.contains(i)).collect();
        let mut situation = [usize::MAX; 12];
        for (j, &e) in self.edges.iter().enumerate() {
            situation[e] = s[j] as usize;
        }
        if variant % 4 == 0 {
            for &e in &rest {
                if let Some(k) = free.iter().position(|&p| p == e) {
                    situation[e] = 2 * free.remove(k);
                }
            }
        } else {
            let r = variant % free.len();
            free.rotate_left(r);
            if variant / 8 % 2 == 1 {
                free.reverse();
            }
        }
        let mut free = free.into_iter();
        for &e in &rest {
            if situation[e] == usize::MAX {
                situation[e] = 2 * free.next().unwrap();
            }
            if variant > 0 && variant >> (e % 4 + 1) & 1 == 1 {
                situation[e] ^= 1;
            }
        }
        if situation.iter().map(|x| x % 2).sum::<usize>() % 2 == 1 {
            situation[*rest.iter().max_by_key(|&&e| (situation[e] / 2 != e, e)).unwrap()] ^= 1;
        }
        let odd = (0..12).map(|i| (0..i).filter(|&j| situation[j] / 2 > situation[i] / 2).count()).sum::<usize>() % 2 == 1;
        let mut c = Cube3::SOLVED;
        let mut turns = 0;
        if variant % 3 != 0 {
            let mut x = variant.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20;
            while turns < 6 {
                <Cube3 as Movable<AxisMove>>::apply(&mut c, &axis_move(x % 6, x as u32 / 6 % 2 * 2 + 1));
                x /= 12;
                turns += 1;
            }
        }
        if odd {
            <Cube3 as Movable<AxisMove>>::apply(&mut c, &axis_move(variant % 6, 1));
        }
        c.edges = Cube3::SOLVED.edges;
        for (i, e) in c.edges.iter_mut_unchecked().enumerate() {
            (e.normal_axis, e.slice_position) = pos[situation[i] / 2];
            e.oriented = situation[i] % 2 == 0;
        }
        c
    }
}
