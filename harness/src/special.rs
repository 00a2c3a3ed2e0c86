//! Words that leave only few or only some kinds of pieces out of place: states that are far from solved in turns
//! and special in shape (only corners, only flips, only some centres...). Found in the reference model.
use crate::explore::Setup;
use crate::model::*;
use std::collections::{HashMap, HashSet};

struct Element {
    table: Table,
    word: Vec<usize>,
}

struct Finder<'a> {
    su: &'a Setup,
    inverse: Vec<usize>,
    /// the kind of the pieces: same number, same places
    kind: Vec<usize>,
    kinds: usize,
}

impl Finder<'_> {
    fn letter(&self, i: usize) -> Element {
        Element { table: self.su.tables[i].clone(), word: vec![i] }
    }
    fn then(&self, a: &Element, b: &Element) -> Element {
        let mut word = a.word.clone();
        for &x in &b.word {
            match word.last() {
                Some(&l) if self.inverse[l] == x => {
                    word.pop();
                }
                _ => word.push(x),
            }
        }
        Element { table: a.table.iter().map(|&s| b.table[s as usize]).collect(), word }
    }
    fn inverted(&self, a: &Element) -> Element {
        let mut table = vec![0; a.table.len()];
        for (s, &t) in a.table.iter().enumerate() {
            table[t as usize] = s as u16;
        }
        Element { table, word: a.word.iter().rev().map(|&x| self.inverse[x]).collect() }
    }
    fn commutator(&self, a: &Element, b: &Element) -> Element {
        self.then(&self.then(a, b), &self.then(&self.inverted(a), &self.inverted(b)))
    }
    /// Per kind of pieces: 0 all at home, 1 some turned in place, 2 some elsewhere; and how many are not at home.
    fn shape(&self, e: &Element) -> (Vec<u8>, usize) {
        let mut v = vec![0u8; self.kinds];
        let mut n = 0;
        for (i, &h) in self.su.home.iter().enumerate() {
            let at = e.table[h as usize];
            if at != h {
                n += 1;
                let same = self.su.ph.slots[at as usize].0 == self.su.ph.slots[h as usize].0;
                let k = &mut v[self.kind[i]];
                *k = (*k).max(if same { 1 } else { 2 });
            }
        }
        (v, n)
    }
    /// The `per` smallest of every shape.
    fn best(&self, elements: Vec<Element>, per: usize) -> Vec<Element> {
        let mut seen = HashSet::new();
        let mut by: HashMap<Vec<u8>, Vec<(usize, Element)>> = HashMap::new();
        for e in elements {
            let (shape, n) = self.shape(&e);
            if n > 0 && seen.insert(self.su.home.iter().map(|&h| e.table[h as usize]).collect::<Vec<_>>()) {
                by.entry(shape).or_default().push((n, e));
            }
        }
        let mut all: Vec<_> = by.into_iter().collect();
        all.sort_by(|a, b| a.0.cmp(&b.0));
        let mut out = vec![];
        for (_, mut v) in all {
            v.sort_by(|a, b| (a.0, a.1.word.len(), &a.1.word).cmp(&(b.0, b.1.word.len(), &b.1.word)));
            // not only the smallest: spread over the whole list as well
            let keep = v.len().min(per);
            let near = keep / 2;
            let far = v.len() - near;
            for (i, (_, e)) in v.into_iter().enumerate() {
                let j = i.wrapping_sub(near);
                if i < near || (j * (keep - near)) / far != ((j + 1) * (keep - near)) / far {
                    out.push(e);
                }
            }
        }
        out
    }
}

/// Sequences of known shape for the 3x3 (any cube has these faces), as letters of faces.
const KNOWN: [&str; 14] = [
    "R2 U R U R' U' R' U' R' U R'",
    "R' F R' B2 R F' R' B2 R2",
    "R U R' U R U2 R'",
    "R U R' U' R' F R2 U' R' U' R U R' F'",
    "R2 U2 R U2 R2 U2 R2 U2 R U2 R2",
    "R U' L' U R' U' L",
    "R' D' R D R' D' R D",
    "U R2 F B R B2 R U2 L B2 R U' D' R2 F R' L B2 U2 F2",
    "R2 L2 U2 D2 F2 B2",
    "U D' R L' F B' U D'",
    "F L F U' R U F2 L2 U' L' B D' B' L2 U",
    "R L F B R L F B R L F B",
    "R2 U2 R2 U2 R2 U2",
    "R U R U R U R U R U R U R U R U",
];

/// `per` words per shape (which kinds of pieces are out of place, turned in place or at home).
pub fn words(su: &Setup, per: usize) -> Vec<Vec<usize>> {
    let index: HashMap<(usize, u32, u32), usize> = su.turns.iter().enumerate().map(|(i, &t)| (t, i)).collect();
    let inverse: Vec<usize> = su.turns.iter().map(|&(f, k, d)| index[&(f, 4 - k, d)]).collect();
    // pieces that can take the place of each other are of one kind
    let mut orbit: Vec<usize> = (0..su.ph.slots.len()).collect();
    loop {
        let mut changed = false;
        for t in &su.tables {
            for s in 0..orbit.len() {
                let m = orbit[s].min(orbit[t[s] as usize]);
                changed |= orbit[s] != m || orbit[t[s] as usize] != m;
                orbit[s] = m;
                orbit[t[s] as usize] = m;
            }
        }
        if !changed {
            break;
        }
    }
    let mut names: Vec<usize> = su.home.iter().map(|&h| orbit[h as usize]).collect();
    let kind_of = names.clone();
    names.sort();
    names.dedup();
    let kind = kind_of.iter().map(|o| names.binary_search(o).unwrap()).collect();
    let f = Finder { su, inverse, kind, kinds: names.len() };

    let turns: Vec<Element> = (0..su.turns.len()).map(|i| f.letter(i)).collect();
    let mut small: Vec<Element> = (0..su.turns.len()).map(|i| f.letter(i)).collect();
    for (i, &(face, k, d)) in su.turns.iter().enumerate() {
        if d > 0 {
            small.push(f.then(&turns[i], &turns[index[&(face, 4 - k, d - 1)]]));
        } else if face < 3 {
            for k2 in [1, 2, 3] {
                small.push(f.then(&turns[i], &turns[index[&(opp(face), k2, 0)]]));
            }
        }
    }
    let mut level1 = vec![];
    for a in &small {
        for b in &small {
            level1.push(f.commutator(a, b));
        }
    }
    // the known ones from every side
    for text in KNOWN {
        let w: Vec<(usize, u32)> = text.split(' ').map(|t| (FACE_NAMES.iter().position(|n| t.starts_with(n)).unwrap(), if t.ends_with('2') { 2 } else if t.ends_with('\'') { 3 } else { 1 })).collect();
        for r in &su.ph.rots {
            for mirrored in [false, true] {
                let word: Vec<Element> = w
                    .iter()
                    .map(|&(face, k)| {
                        let face = if mirrored && face_axis(face) == 0 { opp(face) } else { face };
                        f.letter(index[&(r.face(face), if mirrored { 4 - k } else { k }, 0)])
                    })
                    .collect();
                level1.push(word.iter().skip(1).fold(f.letter(word[0].word[0]), |a, b| f.then(&a, b)));
            }
        }
    }
    let level1 = f.best(level1, 4 * per);
    // moved elsewhere, and changed once more
    let mut level2 = vec![];
    for c in level1.iter().step_by(level1.len().div_ceil(600)) {
        for x in &turns {
            level2.push(f.commutator(c, x));
            level2.push(f.then(&f.then(x, c), &f.inverted(x)));
        }
    }
    let level2 = f.best(level2, 4 * per);
    // two that move few
    let mut few: Vec<&Element> = level1.iter().chain(&level2).collect();
    few.sort_by_key(|e| (f.shape(e).1, e.word.len()));
    few.truncate(300);
    let mut level3 = vec![];
    for a in &few {
        for b in &few {
            level3.push(f.then(a, b));
        }
    }
    let level3 = f.best(level3, 2 * per);
    f.best(level1.into_iter().chain(level2).chain(level3).collect(), per).into_iter().map(|e| e.word).collect()
}

/// How many of the words leave which shape: for the evidence.
pub fn shapes(su: &Setup, words: &[Vec<usize>]) -> usize {
    let mut seen = HashSet::new();
    for w in words {
        let mut m = su.home.clone();
        for &x in w {
            compose_into(&mut m, &su.tables[x]);
        }
        seen.insert(m.iter().zip(&su.home).map(|(a, h)| (a != h) as u8 + (su.ph.slots[*a as usize].0 != su.ph.slots[*h as usize].0) as u8).collect::<Vec<_>>());
    }
    seen.len()
}
