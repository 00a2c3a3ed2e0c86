//! Abstraction from the implementation's pieces to sticker slots of the reference model.
use crate::model::*;
use barbarosa::cube_n::moves::rotation::AxisRotation;
use barbarosa::cube_n::moves::Amount;
use barbarosa::cube_n::pieces::center::{corner::CenterCorner, edge::CenterEdge, wing::CenterWing};
use barbarosa::cube_n::pieces::corner::CornerSet;
use barbarosa::cube_n::pieces::edge::EdgeSet;
use barbarosa::cube_n::pieces::{Corner, Edge, Wing};
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::cube_n::{AxisMove, Cube2, Cube3, Cube4, Cube5, Cube6, Cube7, WideAxisMove};
use barbarosa::generic::piece::PieceSetDescriptor;
use barbarosa::generic::{Alg, Cube, Movable, Piece, PieceSet};
use nalgebra::{Vector2, Vector3};

pub type Vec3 = Vector3<Direction>;
pub type Vec2 = Vector2<Direction>;

pub const AXES: [Axis; 3] = [Axis::X, Axis::Y, Axis::Z];
pub const DIRS: [Direction; 2] = [Direction::Positive, Direction::Negative];
pub const AMOUNTS: [Amount; 3] = [Amount::Single, Amount::Double, Amount::Inverse];

pub fn ax(a: Axis) -> usize {
    match a {
        Axis::X => 0,
        Axis::Y => 1,
        Axis::Z => 2,
    }
}
pub fn di(d: Direction) -> i32 {
    match d {
        Direction::Positive => 1,
        Direction::Negative => -1,
    }
}
pub fn dir(i: i32) -> Direction {
    if i > 0 {
        Direction::Positive
    } else {
        Direction::Negative
    }
}
/// Model face number of an implementation face.
pub fn fi(f: &Face) -> usize {
    face_of(ax(f.axis), di(f.direction))
}
/// Implementation face of a model face number.
pub fn face(f: usize) -> Face {
    Face { axis: AXES[face_axis(f)], direction: dir(face_dir(f)) }
}
pub fn quarters(a: Amount) -> u32 {
    match a {
        Amount::Single => 1,
        Amount::Double => 2,
        Amount::Inverse => 3,
    }
}
pub fn amount(k: u32) -> Amount {
    match k % 4 {
        1 => Amount::Single,
        2 => Amount::Double,
        3 => Amount::Inverse,
        _ => panic!("no amount for a null turn"),
    }
}
pub fn axis_move(f: usize, k: u32) -> AxisMove {
    AxisMove { face: face(f), amount: amount(k) }
}
/// (face, quarters) of a turn
pub fn fq(m: &AxisMove) -> (usize, u32) {
    (fi(&m.face), quarters(m.amount))
}
pub fn rotation(axis: usize, k: u32) -> AxisRotation {
    AxisRotation { axis: AXES[axis], amount: amount(k) }
}

/// The notation of a turn, written independently of the implementation.
pub fn turn_name(f: usize, k: u32) -> String {
    format!("{}{}", FACE_NAMES[f], ["", "", "2", "'"][k as usize])
}
pub fn wide_name(f: usize, k: u32, d: u32) -> String {
    if d == 0 {
        turn_name(f, k)
    } else {
        format!("{}[depth {d}]", turn_name(f, k))
    }
}
/// All 18 (face, quarters), simplest first.
pub fn all_turns() -> Vec<(usize, u32)> {
    let mut v = vec![];
    for f in 0..6 {
        for k in [1, 3, 2] {
            v.push((f, k));
        }
    }
    v
}

pub fn corner_slot(ph: &Phys, pos: &Vec3, axis: Axis) -> u16 {
    let m = ph.n as i32 - 1;
    let d = [di(pos.x), di(pos.y), di(pos.z)];
    ph.slot([d[0] * m, d[1] * m, d[2] * m], face_of(ax(axis), d[ax(axis)]))
}
/// Position (in units of N-1) of an edge.
pub fn edge_vec(normal: Axis, sp: &Vec2) -> V {
    let n = ax(normal);
    let mut p = [0; 3];
    p[(n + 1) % 3] = di(sp.x);
    p[(n + 2) % 3] = di(sp.y);
    p
}
pub fn edge_of_vec(p: V) -> (Axis, Vec2) {
    let n = (0..3).find(|&i| p[i] == 0).expect("edge position");
    (AXES[n], Vec2::new(dir(p[(n + 1) % 3]), dir(p[(n + 2) % 3])))
}
/// The face that carries the orientation sticker of an oriented edge at `p`: U/D if it is there, else F/B.
pub fn edge_orientation_face(p: V) -> usize {
    if p[1] != 0 {
        face_of(1, p[1])
    } else {
        face_of(2, p[2])
    }
}
pub fn edge_other_face(p: V) -> usize {
    let o = edge_orientation_face(p);
    let a = (0..3).find(|&i| p[i] != 0 && i != face_axis(o)).unwrap();
    face_of(a, p[a])
}
pub fn edge_slot(ph: &Phys, normal: Axis, sp: &Vec2, oriented: bool) -> u16 {
    let m = ph.n as i32 - 1;
    let p = edge_vec(normal, sp);
    let f = if oriented { edge_orientation_face(p) } else { edge_other_face(p) };
    ph.slot(p.map(|x| x * m), f)
}
/// Reference sticker of a wing: the one on the face A such that A x B points to the wing's side (B the other face).
pub fn wing_slot(ph: &Phys, w: &Wing, k: i32) -> u16 {
    let m = ph.n as i32 - 1;
    let [a, b] = w.faces();
    let n = ax(w.normal_axis());
    let d = di(w.normal_direction());
    let (va, vb) = (face_vec(fi(&a)), face_vec(fi(&b)));
    let mut p = [0; 3];
    for i in 0..3 {
        p[i] = (va[i] + vb[i]) * m;
    }
    p[n] = d * (m - 2 * k);
    let f = if cross(va, vb)[n] == d { fi(&a) } else { fi(&b) };
    ph.slot(p, f)
}
#[cfg(verif_hooks)]
pub fn center_corner_slot(ph: &Phys, c: &CenterCorner, k: i32) -> u16 {
    let m = ph.n as i32 - 1;
    let (pos, axis) = c.verif_parts();
    let mut p = [di(pos.x), di(pos.y), di(pos.z)].map(|x| x * (m - 2 * k));
    let a = ax(axis);
    let d = p[a].signum();
    p[a] = d * m;
    ph.slot(p, face_of(a, d))
}
pub fn center_edge_slot(ph: &Phys, c: &CenterEdge, k: i32) -> u16 {
    let m = ph.n as i32 - 1;
    let main = fi(&c.main_face);
    let side = fi(&c.side_face());
    let mut p = face_vec(main).map(|x| x * m);
    p[face_axis(side)] = face_dir(side) * (m - 2 * k);
    ph.slot(p, main)
}
pub fn center_wing_slot(ph: &Phys, c: &CenterWing, nd: i32, td: i32) -> u16 {
    let m = ph.n as i32 - 1;
    let main = fi(c.main_face());
    let side = fi(&c.side_face());
    let mut p = face_vec(main).map(|x| x * m);
    p[face_axis(side)] = face_dir(side) * (m - 2 * nd);
    p[ax(c.normal_axis())] = di(c.normal_direction()) * (m - 2 * td);
    ph.slot(p, main)
}

/// A cube of the implementation, as far as the public interface goes.
pub trait Turns: Cube + Clone + PartialEq + Send + Sync + 'static {
    const N: usize;
    const MAX_DEPTH: u32;
    const NAME: &'static str;
    /// Applies a turn through the widest move type of this cube.
    fn turn(&mut self, f: usize, k: u32, depth: u32);
    /// Applies a plain face turn as `AxisMove`.
    fn face_turn(&mut self, f: usize, k: u32);
    /// Applies a whole sequence of turns at once, through the widest move type of this cube.
    fn turn_seq(&mut self, ts: &[(usize, u32, u32)]);
}

/// A cube of the implementation, with its abstraction to the reference model.
pub trait Puzzle: Turns {
    /// Slots of the reference stickers of all pieces, piece kinds in a fixed order, home order inside.
    fn refs(&mut self, ph: &Phys) -> Vec<u16>;
    /// Slots of the reference stickers of the home positions, in the same order.
    fn home(ph: &Phys) -> Vec<u16>;
    /// Lengths of the piece kinds inside `refs`.
    fn kinds() -> Vec<(&'static str, usize)>;
    /// Rearranges one kind of pieces: piece `i` takes the place piece `from(i)` had.
    fn permute(&mut self, kind: usize, from: &dyn Fn(usize) -> usize);
    fn corner_set(&mut self) -> &mut CornerSet;
    fn edge_set(&mut self) -> Option<&mut EdgeSet>;
}

pub fn set_refs<P, const M: usize>(
    set: &PieceSet<P, M>,
    out: &mut Vec<u16>,
    mut f: impl FnMut(&P) -> u16,
) where
    P: PieceSetDescriptor<M>,
{
    for p in set.iter() {
        out.push(f(p));
    }
}
pub fn permute_set<P, const M: usize>(set: &mut PieceSet<P, M>, from: &dyn Fn(usize) -> usize)
where
    P: PieceSetDescriptor<M>,
{
    let old = set.pieces().clone();
    for (i, p) in set.iter_mut_unchecked().enumerate() {
        *p = old[from(i)].clone();
    }
}
pub fn home_corners(ph: &Phys, out: &mut Vec<u16>) {
    for p in <Corner as PieceSetDescriptor<8>>::REFERENCE_POSITIONS {
        out.push(corner_slot(ph, &p, Axis::Y));
    }
}
pub fn home_edges(ph: &Phys, out: &mut Vec<u16>) {
    for (a, p) in <Edge as PieceSetDescriptor<12>>::REFERENCE_POSITIONS {
        out.push(edge_slot(ph, a, &p, true));
    }
}

macro_rules! kind {
    (corner, $s:expr, $ph:expr, $o:expr) => {
        crate::glue::set_refs($s, $o, |c: &Corner| corner_slot($ph, &c.position, c.orientation_axis))
    };
    (edge, $s:expr, $ph:expr, $o:expr) => {
        crate::glue::set_refs($s, $o, |e: &Edge| edge_slot($ph, e.normal_axis, &e.slice_position, e.oriented))
    };
    (wing $k:literal, $s:expr, $ph:expr, $o:expr) => {
        crate::glue::set_refs($s, $o, |w: &Wing| wing_slot($ph, w, $k))
    };
    (cc $k:literal, $s:expr, $ph:expr, $o:expr) => {
        crate::glue::set_refs($s, $o, |w: &CenterCorner| center_corner_slot($ph, w, $k))
    };
    (ce $k:literal, $s:expr, $ph:expr, $o:expr) => {
        crate::glue::set_refs($s, $o, |w: &CenterEdge| center_edge_slot($ph, w, $k))
    };
    (cw $k:literal, $s:expr, $ph:expr, $o:expr) => {
        crate::glue::set_refs($s, $o, |w: &CenterWing| center_wing_slot($ph, w, $k, $k + 1))
    };
}
macro_rules! home {
    (corner, $ph:expr, $o:expr) => {
        home_corners($ph, $o)
    };
    (edge, $ph:expr, $o:expr) => {
        home_edges($ph, $o)
    };
    (wing $k:literal, $ph:expr, $o:expr) => {
        for w in <Wing as PieceSetDescriptor<24>>::REFERENCE_POSITIONS {
            $o.push(wing_slot($ph, &w, $k));
        }
    };
    (cc $k:literal, $ph:expr, $o:expr) => {
        for w in <CenterCorner as PieceSetDescriptor<24>>::REFERENCE_POSITIONS {
            $o.push(center_corner_slot($ph, &w, $k));
        }
    };
    (ce $k:literal, $ph:expr, $o:expr) => {
        for w in <CenterEdge as PieceSetDescriptor<24>>::REFERENCE_POSITIONS {
            $o.push(center_edge_slot($ph, &w, $k));
        }
    };
    (cw $k:literal, $ph:expr, $o:expr) => {
        for w in <CenterWing as PieceSetDescriptor<48>>::REFERENCE_POSITIONS {
            $o.push(center_wing_slot($ph, &w, $k, $k + 1));
        }
    };
}
macro_rules! size {
    (corner) => { ("corners", 8) };
    (edge) => { ("edges", 12) };
    (wing $k:literal) => { ("wings", 24) };
    (cc $k:literal) => { ("corner centres", 24) };
    (ce $k:literal) => { ("edge centres", 24) };
    (cw $k:literal) => { ("wing centres", 48) };
}

impl Turns for Cube2 {
    const N: usize = 2;
    const MAX_DEPTH: u32 = 0;
    const NAME: &'static str = "Cube2";
    fn turn(&mut self, f: usize, k: u32, _d: u32) {
        self.apply(&axis_move(f, k));
    }
    fn face_turn(&mut self, f: usize, k: u32) {
        self.apply(&axis_move(f, k));
    }
    fn turn_seq(&mut self, ts: &[(usize, u32, u32)]) {
        self.apply(&Alg::<AxisMove>::new(ts.iter().map(|&(f, k, _)| axis_move(f, k)).collect()));
    }
}
impl Puzzle for Cube2 {
    fn refs(&mut self, ph: &Phys) -> Vec<u16> {
        let mut o = Vec::with_capacity(8);
        kind!(corner, &self.corners, ph, &mut o);
        o
    }
    fn home(ph: &Phys) -> Vec<u16> {
        let mut o = vec![];
        home_corners(ph, &mut o);
        o
    }
    fn kinds() -> Vec<(&'static str, usize)> {
        vec![size!(corner)]
    }
    fn permute(&mut self, _kind: usize, from: &dyn Fn(usize) -> usize) {
        permute_set(&mut self.corners, from);
    }
    fn corner_set(&mut self) -> &mut CornerSet {
        &mut self.corners
    }
    fn edge_set(&mut self) -> Option<&mut EdgeSet> {
        None
    }
}
impl Turns for Cube3 {
    const N: usize = 3;
    const MAX_DEPTH: u32 = 0;
    const NAME: &'static str = "Cube3";
    fn turn(&mut self, f: usize, k: u32, _d: u32) {
        self.apply(&axis_move(f, k));
    }
    fn face_turn(&mut self, f: usize, k: u32) {
        self.apply(&axis_move(f, k));
    }
    fn turn_seq(&mut self, ts: &[(usize, u32, u32)]) {
        self.apply(&Alg::<AxisMove>::new(ts.iter().map(|&(f, k, _)| axis_move(f, k)).collect()));
    }
}
impl Puzzle for Cube3 {
    fn refs(&mut self, ph: &Phys) -> Vec<u16> {
        let mut o = Vec::with_capacity(20);
        kind!(corner, &self.corners, ph, &mut o);
        kind!(edge, &self.edges, ph, &mut o);
        o
    }
    fn home(ph: &Phys) -> Vec<u16> {
        let mut o = vec![];
        home_corners(ph, &mut o);
        home_edges(ph, &mut o);
        o
    }
    fn kinds() -> Vec<(&'static str, usize)> {
        vec![size!(corner), size!(edge)]
    }
    fn permute(&mut self, kind: usize, from: &dyn Fn(usize) -> usize) {
        match kind {
            0 => permute_set(&mut self.corners, from),
            _ => permute_set(&mut self.edges, from),
        }
    }
    fn corner_set(&mut self) -> &mut CornerSet {
        &mut self.corners
    }
    fn edge_set(&mut self) -> Option<&mut EdgeSet> {
        Some(&mut self.edges)
    }
}

macro_rules! big {
    ($t:ident, $n:literal, $md:literal, $name:literal, [$(($($kind:tt)+)),+], |$($v:ident),+|) => {
        impl Turns for $t {
            const N: usize = $n;
            const MAX_DEPTH: u32 = $md;
            const NAME: &'static str = $name;
            fn turn(&mut self, f: usize, k: u32, d: u32) {
                self.apply(&WideAxisMove::<$md>::new(face(f), amount(k), d).expect("depth within the cube's limit"));
            }
            fn face_turn(&mut self, f: usize, k: u32) {
                self.apply(&axis_move(f, k));
            }
            fn turn_seq(&mut self, ts: &[(usize, u32, u32)]) {
                self.apply(&Alg::<WideAxisMove<$md>>::new(
                    ts.iter().map(|&(f, k, d)| WideAxisMove::new(face(f), amount(k), d).expect("depth within the cube's limit")).collect(),
                ));
            }
        }
        #[cfg(verif_hooks)]
        impl Puzzle for $t {
            fn refs(&mut self, ph: &Phys) -> Vec<u16> {
                let mut o = Vec::with_capacity(250);
                let ($($v),+) = self.verif_parts();
                big!(@refs ph, o, [$(($($kind)+)),+], [$($v),+]);
                o
            }
            fn home(ph: &Phys) -> Vec<u16> {
                let mut o = vec![];
                $(home!($($kind)+, ph, &mut o);)+
                o
            }
            fn kinds() -> Vec<(&'static str, usize)> {
                vec![$(size!($($kind)+)),+]
            }
            fn permute(&mut self, kind: usize, from: &dyn Fn(usize) -> usize) {
                let ($($v),+) = self.verif_parts();
                let mut _i = 0;
                big!(@permute _i, kind, from, [$(($($kind)+)),+], [$($v),+]);
            }
            fn corner_set(&mut self) -> &mut CornerSet {
                self.verif_parts().0
            }
            fn edge_set(&mut self) -> Option<&mut EdgeSet> {
                (self.verif_parts().1 as &mut dyn std::any::Any).downcast_mut::<EdgeSet>()
            }
        }
    };
    (@refs $ph:ident, $o:ident, [$(($($kind:tt)+)),+], [$($v:ident),+]) => {
        $(kind!($($kind)+, big!(@set $v, $($kind)+), $ph, &mut $o);)+
    };
    (@permute $i:ident, $k:ident, $f:ident, [$(($($kind:tt)+)),+], [$($v:ident),+]) => {
        $(if $i == $k { permute_set(big!(@setmut $v, $($kind)+), $f); } $i += 1;)+
    };
    (@setmut $v:ident, corner) => { $v };
    (@setmut $v:ident, edge) => { $v };
    (@setmut $v:ident, $($rest:tt)+) => { $v };
    (@set $v:ident, corner) => { &*$v };
    (@set $v:ident, edge) => { &*$v };
    (@set $v:ident, $($rest:tt)+) => { &*$v };
}
big!(Cube4, 4, 1, "Cube4", [(corner), (wing 1), (cc 1)], |a, b, c|);
big!(Cube5, 5, 1, "Cube5", [(corner), (edge), (wing 1), (cc 1), (ce 1)], |a, b, c, d, e|);
big!(Cube6, 6, 2, "Cube6", [(corner), (wing 1), (wing 2), (cc 1), (cc 2), (cw 1)], |a, b, c, d, e, f|);
big!(Cube7, 7, 2, "Cube7", [(corner), (edge), (wing 1), (wing 2), (cc 1), (cc 2), (cw 1), (ce 1), (ce 2)], |a, b, c, d, e, f, g, h, i|);

/// All (face, quarters, depth) turns of a puzzle, simplest first.
pub fn turns<P: Turns>() -> Vec<(usize, u32, u32)> {
    let mut v = vec![];
    for d in 0..=P::MAX_DEPTH {
        for (f, k) in all_turns() {
            v.push((f, k, d));
        }
    }
    v
}

pub fn history(ms: &[(usize, u32, u32)]) -> String {
    if ms.is_empty() {
        return "(no turns)".into();
    }
    ms.iter().map(|&(f, k, d)| wide_name(f, k, d)).collect::<Vec<_>>().join(" ")
}

#[allow(unused)]
fn _unused<P: Piece>(_: P) {}
