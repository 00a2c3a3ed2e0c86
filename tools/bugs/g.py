exec(open("/verif/tools/bugs/f.py").read().split("PLACES =")[0])
BUGS = [
    dict(id="rejected-words-remembered", property="C26", needs="a word refused in one notation, then read in another",
         breaks="words refused once are refused in every notation from then on",
         edits=[("generic/alg.rs", """            s.split_whitespace().map(T::Move::parse).collect();

        Ok(Self::new(moves?))""", """            s.split_whitespace().map(parse_word::<T::Move>).collect();

        Ok(Self::new(moves?))"""),
                ("generic/alg.rs", """// Alg::random()
""", """/// Parses a word, refusing at once what was refused before
fn parse_word<M: Parsable>(word: &str) -> parse::Result<M> {
    static REFUSED: Lazy<std::sync::Mutex<std::collections::HashSet<String>>> =
        Lazy::new(Default::default);

    if REFUSED.lock().is_ok_and(|words| words.contains(word)) {
        return Err(ParseError::Unreachable(word.to_owned()));
    }

    M::parse(word).map_err(|err| {
        if let Ok(mut words) = REFUSED.lock() {
            words.insert(word.to_owned());
        }

        err
    })
}

// Alg::random()
""")],
         demo=PRE + r"""
fn main() {
    check(Alg::<AxisMove>::parse("R U x").is_err(), "x is no turn");
    check(Alg::<ExtendedAxisMove>::parse("R U x").is_ok(), "R U x is refused");
    check(Alg::<AxisMove>::parse("R U").is_ok(), "R U is refused");
}
"""),
    dict(id="estimate-of-another-face", property="C26", needs="the estimate of the same cube for another face",
         breaks="the estimate is the one of the face asked for first",
         edits=[("cube_n/cube3/cfop/cross.rs", """pub fn worse_but_admissable_cross_heuristic(cube: &Cube3, bottom_face: &Face) -> f32 {
    cube.edges
""", """pub fn worse_but_admissable_cross_heuristic(cube: &Cube3, bottom_face: &Face) -> f32 {
    thread_local! {
        // The search asks several times for the same cube
        static LAST: std::cell::RefCell<Option<(Cube3, f32)>> = const { std::cell::RefCell::new(None) };
    }

    let known = LAST.with_borrow(|last| match last {
        Some((last, value)) if last == cube => Some(*value),
        _ => None,
    });

    known.unwrap_or_else(|| {
        let value = estimate_cross(cube, bottom_face);
        LAST.set(Some((cube.clone(), value)));
        value
    })
}

fn estimate_cross(cube: &Cube3, bottom_face: &Face) -> f32 {
    cube.edges
""")],
         also=["C08"],
         demo=PRE + r"""
use barbarosa::cube3::cfop::cross::*;
fn main() {
    let mut c = Cube3::SOLVED;
    <Cube3 as Movable<AxisMove>>::apply(&mut c, &AxisMove::parse("R").unwrap());
    let fresh: Vec<f32> = Face::iter().map(|f| std::thread::scope(|s| s.spawn(|| worse_but_admissable_cross_heuristic(&c, &f)).join().unwrap())).collect();
    let here: Vec<f32> = Face::iter().map(|f| worse_but_admissable_cross_heuristic(&c, &f)).collect();
    check(here == fresh, &format!("{here:?} instead of {fresh:?}"));
}
"""),
    dict(id="spare-random-bits", property="C26", needs="random amounts drawn from one source after others from another",
         breaks="the outcome depends on what was drawn from other sources before",
         edits=[("cube_n/moves/amount.rs", """use rand_derive2::RandGen;
use strum""", """use std::cell::Cell;

use rand::{distributions::Standard, prelude::Distribution, Rng};
use strum"""),
                ("cube_n/moves/amount.rs", """EnumIter, RandGen)]
#[allow(missing_docs)]
pub enum Amount {
    Single = 1,
    Double = 2,
    Inverse = 3,
}
""", """EnumIter)]
#[allow(missing_docs)]
pub enum Amount {
    Single = 1,
    Double = 2,
    Inverse = 3,
}

thread_local! {
    /// What is left of the last random number, as digits in base 3
    static SPARE: Cell<(u32, u32)> = const { Cell::new((0, 0)) };
}

impl Distribution<Amount> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Amount {
        let (mut digits, mut left) = SPARE.get();
        if left == 0 {
            (digits, left) = (rng.gen_range(0..3u32.pow(20)), 20);
        }
        SPARE.set((digits / 3, left - 1));

        match digits % 3 {
            0 => Amount::Single,
            1 => Amount::Double,
            _ => Amount::Inverse,
        }
    }
}
""")],
         demo=PRE + RNG + r"""
fn main() {
    let one = Alg::<AxisMove>::random_unnormalized_with_rng(7, &mut Fixed(1));
    Alg::<AxisMove>::random_unnormalized_with_rng(5, &mut Fixed(2));
    let again = Alg::<AxisMove>::random_unnormalized_with_rng(7, &mut Fixed(1));
    check(one == again, &format!("{one} and {again} from the same source"));
}
"""),
    dict(id="search-busy-after-panic", property="C26", needs="a panic in the heuristic of an earlier search on the thread",
         breaks="no search on that thread finds anything any more",
         edits=[("generic/search/ida.rs", """        let mut bound = (self.heuristic)(cube);
        let max_bound = bound + self.max_depth as f32;
""", """        let mut bound = (self.heuristic)(cube);
        let max_bound = bound + self.max_depth as f32;

        thread_local! {
            /// The depth limits of the searches under way
            static LIMITS: std::cell::RefCell<Vec<i32>> = const { std::cell::RefCell::new(Vec::new()) };
        }

        // A search inside of a search may not go deeper than what is around it
        let limit = LIMITS.with_borrow_mut(|limits| {
            let limit = limits.last().map_or(self.max_depth, |&outer| self.max_depth.min(outer - 1));
            limits.push(limit);
            limit
        });
        let max_bound = max_bound.min(bound + limit as f32);
"""),
                ("generic/search/ida.rs", """                    solution.moves.reverse();
                    return""", """                    solution.moves.reverse();
                    LIMITS.with_borrow_mut(|limits| limits.pop());
                    return"""),
                ("generic/search/ida.rs", """                None => bound = min_exceeded,
            }
        }

        None""", """                None => bound = min_exceeded,
            }
        }

        LIMITS.with_borrow_mut(|limits| limits.pop());
        None""")],
         also=["C06"],
         demo=PRE + r"""
use barbarosa::generic::search::{ida::IDASearcher, Searcher};
fn main() {
    let mut c = Cube3::SOLVED;
    <Cube3 as Movable<AxisMove>>::apply(&mut c, &AxisMove::parse("R").unwrap());
    let find = || IDASearcher::new(|_: &Cube3| 0.0, Cube3::successors, 1).search(&c, |c| *c == Cube3::SOLVED).is_some();
    check(find(), "one turn away and not found");
    for _ in 0..3 {
        let r = std::panic::catch_unwind(|| IDASearcher::new(|x: &Cube3| if *x == c { 0.0 } else { panic!("gives up") }, Cube3::successors, 1).search(&c, |c| *c == Cube3::SOLVED).is_some());
        check(r.is_err(), "no panic");
    }
    check(find(), "one turn away and not found after a search that panicked");
}
"""),
    dict(id="held-turn-cached", property="C26", needs="the same turn of cubes held in two ways that share the right face and the axis of the upper one",
         breaks="the turn acts on the face of the other orientation",
         edits=[("cube_n/orientable/orientation.rs", """        self.rotations()
            .rev()
            .fold(item, |item, rotation| item.rotated(&rotation.inverse()))
""", """        thread_local! {
            /// The way back of the last orientation
            static BACK: std::cell::RefCell<Option<(Face, Direction, Vec<AxisRotation>)>> =
                const { std::cell::RefCell::new(None) };
        }

        BACK.with_borrow_mut(|back| {
            let (_, _, rotations) = match back.take() {
                Some(known) if known.0 == self.r_face && known.1 == self.handedness => {
                    back.insert(known)
                }
                _ => back.insert((
                    self.r_face.clone(),
                    self.handedness,
                    self.rotations().rev().map(|r| r.inverse()).collect(),
                )),
            };

            rotations
                .iter()
                .fold(item, |item, rotation| item.rotated(rotation))
        })
""")],
         also=["C17"],
         demo=None),
]
