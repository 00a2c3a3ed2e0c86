//! The physical NxNxN cube: an independent sticker-level reference model.
//!
//! Cubies live at integer coordinates -(N-1), -(N-3), .., N-1 on each axis (X right, Y up, Z towards
//! the viewer). A *slot* is a place on the surface where a sticker can be; slot ids are
//! `face * N * N + a * N + b`. Turns are permutation tables on slots, computed from geometry alone.

pub type V = [i32; 3];

/// Faces in the order R, U, F, L, D, B: `axis = f % 3`, positive for `f < 3`.
pub const FACE_NAMES: [&str; 6] = ["R", "U", "F", "L", "D", "B"];
pub fn face_axis(f: usize) -> usize {
    f % 3
}
pub fn face_dir(f: usize) -> i32 {
    if f < 3 {
        1
    } else {
        -1
    }
}
pub fn face_of(axis: usize, dir: i32) -> usize {
    if dir > 0 {
        axis
    } else {
        axis + 3
    }
}
pub fn opp(f: usize) -> usize {
    (f + 3) % 6
}
pub fn face_vec(f: usize) -> V {
    let mut v = [0; 3];
    v[face_axis(f)] = face_dir(f);
    v
}
pub fn vec_face(v: V) -> usize {
    for f in 0..6 {
        if face_vec(f) == v {
            return f;
        }
    }
    panic!("not a unit vector: {v:?}")
}
pub fn cross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn dot(a: V, b: V) -> i32 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
/// 90 degrees clockwise, as seen by someone looking at face `f` from outside.
pub fn cw(f: usize, v: V) -> V {
    let a = face_vec(f);
    let c = cross(v, a);
    let d = dot(a, v);
    [c[0] + a[0] * d, c[1] + a[1] * d, c[2] + a[2] * d]
}
/// `k` quarter turns clockwise.
pub fn cwk(f: usize, k: u32, mut v: V) -> V {
    for _ in 0..k % 4 {
        v = cw(f, v);
    }
    v
}

/// A rotation of space, as the images of the three positive unit vectors.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Rot(pub [V; 3]);
impl Rot {
    pub const ID: Rot = Rot([[1, 0, 0], [0, 1, 0], [0, 0, 1]]);
    pub fn apply(&self, v: V) -> V {
        let mut o = [0; 3];
        for i in 0..3 {
            for j in 0..3 {
                o[j] += v[i] * self.0[i][j];
            }
        }
        o
    }
    /// First `self`, then `k` quarter turns clockwise around face `f`.
    pub fn then(&self, f: usize, k: u32) -> Rot {
        Rot(self.0.map(|v| cwk(f, k, v)))
    }
    pub fn face(&self, f: usize) -> usize {
        vec_face(self.apply(face_vec(f)))
    }
    pub fn inverse(&self) -> Rot {
        *all_rotations().iter().find(|r| (0..3).all(|i| r.apply(self.0[i]) == Rot::ID.0[i])).unwrap()
    }
}
/// The 24 rotations of the cube.
pub fn all_rotations() -> Vec<Rot> {
    let mut v = vec![Rot::ID];
    let mut i = 0;
    while i < v.len() {
        for f in 0..3 {
            let r = v[i].then(f, 1);
            if !v.contains(&r) {
                v.push(r);
            }
        }
        i += 1;
    }
    assert_eq!(v.len(), 24);
    v
}

pub type Table = Vec<u16>;
pub const NONE: u16 = u16::MAX;

pub struct Phys {
    pub n: usize,
    pub slots: Vec<(V, usize)>, // position, face
    pub rots: Vec<Rot>,
    pub rot_slot: Vec<Table>,
    /// rot_between[home * slots + cur]: the rotation taking sticker `home` to `cur` (unique unless fixed centre)
    rot_between: Vec<u8>,
    /// stickers of the cubie that owns the slot, in the home position
    pub cubie: Vec<Vec<u16>>,
}

impl Phys {
    pub fn new(n: usize) -> Phys {
        let m = n as i32 - 1;
        let mut slots = Vec::new();
        for f in 0..6 {
            let ax = face_axis(f);
            for a in 0..n as i32 {
                for b in 0..n as i32 {
                    let mut p = [0; 3];
                    p[ax] = face_dir(f) * m;
                    p[(ax + 1) % 3] = 2 * a - m;
                    p[(ax + 2) % 3] = 2 * b - m;
                    slots.push((p, f));
                }
            }
        }
        let mut ph = Phys { n, slots, rots: all_rotations(), rot_slot: vec![], rot_between: vec![], cubie: vec![] };
        for r in ph.rots.clone() {
            let t = ph.slots.iter().map(|&(p, f)| ph.slot(r.apply(p), r.face(f))).collect();
            ph.rot_slot.push(t);
        }
        let s = ph.slots.len();
        ph.rot_between = vec![255; s * s];
        for (ri, t) in ph.rot_slot.iter().enumerate() {
            for h in 0..s {
                let e = &mut ph.rot_between[h * s + t[h] as usize];
                if *e == 255 {
                    *e = ri as u8;
                }
            }
        }
        ph.cubie = (0..s)
            .map(|h| (0..s as u16).filter(|&o| ph.slots[o as usize].0 == ph.slots[h].0).collect())
            .collect();
        ph
    }
    pub fn slot(&self, p: V, f: usize) -> u16 {
        let m = self.n as i32 - 1;
        let ax = face_axis(f);
        debug_assert_eq!(p[ax], face_dir(f) * m);
        let a = (p[(ax + 1) % 3] + m) / 2;
        let b = (p[(ax + 2) % 3] + m) / 2;
        (f as i32 * self.n as i32 * self.n as i32 + a * self.n as i32 + b) as u16
    }
    /// Turn of the layers whose index from face `f` (0 = the face layer) satisfies `layers`, `k` quarters clockwise.
    pub fn layer_turn(&self, f: usize, k: u32, layers: impl Fn(usize) -> bool) -> Table {
        let m = self.n as i32 - 1;
        self.slots
            .iter()
            .map(|&(p, g)| {
                let l = (m - dot(p, face_vec(f))) / 2;
                if layers(l as usize) {
                    self.slot(cwk(f, k, p), vec_face(cwk(f, k, face_vec(g))))
                } else {
                    self.slot(p, g)
                }
            })
            .collect()
    }
    /// A wide turn of depth `d` carries the `d + 1` layers nearest the face.
    pub fn wide(&self, f: usize, k: u32, d: usize) -> Table {
        self.layer_turn(f, k, |l| l <= d)
    }
    pub fn rotation(&self, f: usize, k: u32) -> Table {
        self.layer_turn(f, k, |_| true)
    }
    pub fn rot_between(&self, home: u16, cur: u16) -> Option<usize> {
        match self.rot_between[home as usize * self.slots.len() + cur as usize] {
            255 => None,
            r => Some(r as usize),
        }
    }
    /// Whether the slot belongs to a cubie that no layer turn (of less than all layers) moves: the middle of a face.
    pub fn fixed_centre(&self, s: u16) -> bool {
        let (p, f) = self.slots[s as usize];
        let ax = face_axis(f);
        p[(ax + 1) % 3] == 0 && p[(ax + 2) % 3] == 0
    }
    pub fn home_face(&self, s: u16) -> usize {
        self.slots[s as usize].1
    }
    /// Colours (home faces) shown on every slot, given where the reference sticker of every piece is.
    /// `None` if the pieces do not make a complete cube.
    pub fn colours(&self, home: &[u16], cur: &[u16]) -> Option<Vec<u8>> {
        let mut out = vec![255u8; self.slots.len()];
        for s in 0..self.slots.len() as u16 {
            if self.fixed_centre(s) {
                out[s as usize] = self.home_face(s) as u8;
            }
        }
        for (&h, &c) in home.iter().zip(cur) {
            let r = self.rot_between(h, c)?;
            for &st in &self.cubie[h as usize] {
                let at = self.rot_slot[r][st as usize] as usize;
                if out[at] != 255 {
                    return None;
                }
                out[at] = self.home_face(st) as u8;
            }
        }
        out.iter().all(|&c| c != 255).then_some(out)
    }
    pub fn shows_solved(&self, colours: &[u8]) -> bool {
        colours.iter().enumerate().all(|(s, &c)| self.home_face(s as u16) as u8 == c)
    }
    pub fn describe_slot(&self, s: u16) -> String {
        if s as usize >= self.slots.len() {
            return format!("slot {s}?");
        }
        let (p, f) = self.slots[s as usize];
        let kind = p.iter().filter(|x| x.abs() == self.n as i32 - 1).count();
        format!(
            "{} {:?} sticker facing {}",
            match kind {
                3 => "corner",
                2 => "edge/wing",
                _ => "centre",
            },
            p,
            FACE_NAMES[f]
        )
    }
}

pub fn compose_into(cur: &mut [u16], t: &Table) {
    for c in cur {
        *c = t[*c as usize];
    }
}

#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn u_takes_front_to_left() {
        assert_eq!(cw(1, face_vec(2)), face_vec(3));
        assert_eq!(cw(0, face_vec(2)), face_vec(1));
        assert_eq!(cw(2, face_vec(1)), face_vec(0));
    }
}
