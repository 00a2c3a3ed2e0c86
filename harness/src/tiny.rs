//! Small pattern kinds, numbered by the harness, for the real table generation and storage code.
#![cfg(verif_hooks)]
use crate::cross::EdgeModel;
use crate::mus::*;
use barbarosa::cube3::mus::cache::verif::DiskCacheable;
use barbarosa::cube3::mus::deindex::Deindexable;
use barbarosa::cube3::mus::index::{OrientationIndexable, PositionIndexable};
use barbarosa::cube_n::pieces::{Corner, Edge};
use barbarosa::cube_n::AxisMove;
use barbarosa::generic::Movable;
use std::collections::{HashMap, VecDeque};
use std::sync::OnceLock;

pub struct Models {
    pub cm: CornerModel,
    pub em: EdgeModel,
}
pub fn models() -> &'static Models {
    static M: OnceLock<Models> = OnceLock::new();
    M.get_or_init(|| Models { cm: CornerModel::new(), em: EdgeModel::new() })
}

pub const fn falling(n: usize, k: usize) -> usize {
    if k == 0 {
        1
    } else {
        n * falling(n - 1, k - 1)
    }
}
fn rank(v: &[u8], m: usize) -> usize {
    let mut r = 0;
    for i in 0..v.len() {
        let less = (0..v[i]).filter(|x| !v[..i].contains(x)).count();
        r = r * (m - i) + less;
    }
    r
}
fn unrank(mut r: usize, k: usize, m: usize) -> Vec<u8> {
    let mut digits = vec![0; k];
    for i in (0..k).rev() {
        digits[i] = r % (m - i);
        r /= m - i;
    }
    let mut left: Vec<u8> = (0..m as u8).collect();
    digits.into_iter().map(|d| left.remove(d)).collect()
}
/// Number and decoding of situations `place * modulus + orientation` of `k` pieces out of `m`.
pub fn number(s: &[u8], m: usize, modulus: usize) -> (usize, usize) {
    let pl: Vec<u8> = s.iter().map(|&x| x / modulus as u8).collect();
    (rank(&pl, m), s.iter().fold(0, |a, &x| a * modulus + x as usize % modulus))
}
pub fn decode(p: usize, mut o: usize, k: usize, m: usize, modulus: usize) -> Vec<u8> {
    let pl = unrank(p, k, m);
    let mut or = vec![0u8; k];
    for i in (0..k).rev() {
        or[i] = (o % modulus) as u8;
        o /= modulus;
    }
    (0..k).map(|i| pl[i] * modulus as u8 + or[i]).collect()
}

/// A pattern kind with an exact table from the model.
pub trait Tiny: DiskCacheable + Deindexable + Movable<AxisMove> + Clone {
    const NAME: &'static str;
    fn situations(&self) -> Vec<u8>;
    fn exact() -> Vec<u8>;
}

fn exact(k: usize, m: usize, modulus: usize, oris: usize, perm_only: bool, turn: &[[u8; 24]]) -> Vec<u8> {
    let total = falling(m, k) * oris;
    let num = |s: &[u8]| {
        let (p, o) = number(s, m, modulus);
        p * oris + if perm_only { 0 } else { o }
    };
    let start: Vec<u8> = (0..k as u8).map(|i| i * modulus as u8).collect();
    let mut d: HashMap<usize, u8> = HashMap::from([(num(&start), 0)]);
    let mut q = VecDeque::from([start]);
    while let Some(s) = q.pop_front() {
        let n = d[&num(&s)];
        for t in turn {
            let s2: Vec<u8> = s.iter().map(|&x| if perm_only { t[x as usize] / modulus as u8 * modulus as u8 } else { t[x as usize] }).collect();
            let i = num(&s2);
            if !d.contains_key(&i) {
                d.insert(i, n + 1);
                q.push_back(s2);
            }
        }
    }
    assert_eq!(d.len(), total);
    (0..total).map(|i| d[&i]).collect()
}

macro_rules! tiny_edges {
    ($name:ident, $k:literal, $file:literal) => {
        #[derive(Clone)]
        pub struct $name(pub [Edge; $k]);
        impl PositionIndexable for $name {
            fn position_index(&self) -> usize {
                number(&self.situations(), 12, 2).0
            }
            const POSITION_SET_SIZE: usize = falling(12, $k);
        }
        impl OrientationIndexable for $name {
            fn orientation_index(&self) -> usize {
                number(&self.situations(), 12, 2).1
            }
            const ORIENTATION_SET_SIZE: usize = 1 << $k;
        }
        impl Deindexable for $name {
            fn from_index(i: usize) -> Self {
                let s = decode(i >> $k, i & ((1 << $k) - 1), $k, 12, 2);
                $name(std::array::from_fn(|j| edge_piece(s[j])))
            }
        }
        impl Movable<AxisMove> for $name {
            fn apply(&mut self, m: &AxisMove) {
                for p in &mut self.0 {
                    p.apply(m);
                }
            }
        }
        impl DiskCacheable for $name {
            const PATH: &'static str = $file;
        }
        impl Tiny for $name {
            const NAME: &'static str = concat!(stringify!($k), " edge(s)");
            fn situations(&self) -> Vec<u8> {
                let m = &models().em;
                self.0.iter().map(|e| m.of_slot[crate::glue::edge_slot(&m.ph, e.normal_axis, &e.slice_position, e.oriented) as usize]).collect()
            }
            fn exact() -> Vec<u8> {
                exact($k, 12, 2, 1 << $k, false, &models().em.turn)
            }
        }
    };
}
macro_rules! tiny_corners {
    ($name:ident, $k:literal, $oris:literal, $perm:literal, $file:literal) => {
        #[derive(Clone)]
        pub struct $name(pub [Corner; $k]);
        impl PositionIndexable for $name {
            fn position_index(&self) -> usize {
                number(&self.situations(), 8, 3).0
            }
            const POSITION_SET_SIZE: usize = falling(8, $k);
        }
        impl OrientationIndexable for $name {
            fn orientation_index(&self) -> usize {
                if $perm { 0 } else { number(&self.situations(), 8, 3).1 }
            }
            const ORIENTATION_SET_SIZE: usize = $oris;
        }
        impl Deindexable for $name {
            fn from_index(i: usize) -> Self {
                let s = decode(i / $oris, i % $oris, $k, 8, 3);
                $name(std::array::from_fn(|j| models().cm.piece(s[j])))
            }
        }
        impl Movable<AxisMove> for $name {
            fn apply(&mut self, m: &AxisMove) {
                for p in &mut self.0 {
                    p.apply(m);
                }
            }
        }
        impl DiskCacheable for $name {
            const PATH: &'static str = $file;
        }
        impl Tiny for $name {
            const NAME: &'static str = concat!(stringify!($k), " corner(s), orientations: ", stringify!($oris));
            fn situations(&self) -> Vec<u8> {
                self.0.iter().map(|c| models().cm.situation(c)).collect()
            }
            fn exact() -> Vec<u8> {
                exact($k, 8, 3, $oris, $perm, &models().cm.turn)
            }
        }
    };
}
tiny_edges!(Edges1, 1, "tiny-cache/edges1");
tiny_edges!(Edges2, 2, "tiny-cache/edges2");
tiny_edges!(Edges3, 3, "tiny-cache/deeper/edges3");
tiny_edges!(Edges4, 4, "tiny-edges4");
tiny_corners!(Corners1, 1, 3, false, "tiny-cache/corners1");
tiny_corners!(Corners2, 2, 9, false, "tiny-cache/corners2");
tiny_corners!(Corners3, 3, 27, false, "tiny-cache/deeper/corners3");
tiny_corners!(Corners4, 4, 81, false, "tiny-cache/corners4");
tiny_corners!(Corners8, 8, 1, true, "tiny-cache/corners8");

/// The full pattern spaces (0: corners, 1: first half of the edges) in the numbering and with the
/// turns of the reference model: the real generation code runs on all their patterns, fast enough
/// for every change.
#[derive(Clone, Copy)]
pub struct Mirror<const K: usize> {
    p: u32,
    o: u32,
}
static MIRRORED: [std::sync::atomic::AtomicPtr<Exact>; 2] = [const { std::sync::atomic::AtomicPtr::new(std::ptr::null_mut()) }; 2];
/// Has to be called before a `Mirror<K>` is used, with a table that outlives its use.
pub fn mirror<const K: usize>(e: &'static Exact) {
    MIRRORED[K].store(e as *const Exact as *mut Exact, std::sync::atomic::Ordering::SeqCst);
}
#[inline]
fn mirrored<const K: usize>() -> &'static Exact {
    // set from a `&'static Exact`, never changed through the pointer
    unsafe { MIRRORED[K].load(std::sync::atomic::Ordering::Relaxed).as_ref().expect("mirror() was called") }
}
#[inline]
fn turn_number(m: &AxisMove) -> usize {
    let (f, q) = crate::glue::fq(m);
    f * 3 + [0, 0, 2, 1][q as usize]
}
const MIRROR_PLACES: [usize; 2] = [falling(8, 8), falling(12, 6)];
const MIRROR_ORIS: [usize; 2] = [2187, 64];
impl<const K: usize> PositionIndexable for Mirror<K> {
    fn position_index(&self) -> usize {
        self.p as usize
    }
    const POSITION_SET_SIZE: usize = MIRROR_PLACES[K];
}
impl<const K: usize> OrientationIndexable for Mirror<K> {
    fn orientation_index(&self) -> usize {
        self.o as usize
    }
    const ORIENTATION_SET_SIZE: usize = MIRROR_ORIS[K];
}
impl<const K: usize> Deindexable for Mirror<K> {
    fn from_index(i: usize) -> Self {
        Mirror { p: (i / MIRROR_ORIS[K]) as u32, o: (i % MIRROR_ORIS[K]) as u32 }
    }
}
impl<const K: usize> Movable<AxisMove> for Mirror<K> {
    fn apply(&mut self, m: &AxisMove) {
        (self.p, self.o) = mirrored::<K>().after(self.p, self.o, turn_number(m));
    }
}
impl<const K: usize> DiskCacheable for Mirror<K> {
    const PATH: &'static str = ["mirror-cache/corners", "mirror-cache/edges"][K];
}
