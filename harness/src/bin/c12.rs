//! C12: move notation is accepted exactly as defined, and never crashes the parser.
use barbarosa::cube_n::moves::rotation::AxisRotation;
use barbarosa::cube_n::moves::ExtendedAxisMove;
use barbarosa::cube_n::{AxisMove, WideAxisMove};
use barbarosa::generic::{Alg, Parsable};
use mc::glue::*;
use mc::notation::*;
use mc::*;
use std::sync::atomic::{AtomicU64, Ordering::*};

fn d_axis(m: &AxisMove) -> D {
    let (f, k) = fq(m);
    D::Turn(f, k, 0)
}
fn d_wide<const N: u32>(m: &WideAxisMove<N>) -> D {
    let (f, k) = fq(&m.axis_move);
    D::Turn(f, k, m.depth())
}
fn d_rot(r: &AxisRotation) -> D {
    D::Rot(ax(r.axis), quarters(r.amount))
}
fn d_ext(m: &ExtendedAxisMove) -> D {
    match m {
        ExtendedAxisMove::Regular(m) => d_axis(m),
        ExtendedAxisMove::Wide(m) => d_wide(m),
        ExtendedAxisMove::Rotation(r) => d_rot(r),
        ExtendedAxisMove::Slice { rot, wide } => D::Slice(ax(rot.axis), quarters(rot.amount), *wide),
    }
}

struct Counts {
    evaluations: AtomicU64,
    accepted: AtomicU64,
}

fn compare<T: PartialEq + std::fmt::Debug>(ctx: &Ctx, n: &Counts, parser: &str, s: &str, want: Option<T>, got: impl FnOnce() -> Option<T>) {
    n.evaluations.fetch_add(1, Relaxed);
    if want.is_some() {
        n.accepted.fetch_add(1, Relaxed);
    }
    match catch(got) {
        Err(e) => ctx.violation("panic", format!("parsing {s:?} as {parser} panicked: {e}")),
        Ok(g) if g == want => (),
        Ok(Some(g)) => match want {
            None => ctx.violation("accepted", format!("{s:?} is accepted as {parser} (as {g:?})")),
            Some(w) => ctx.violation("wrong", format!("{s:?} parsed as {parser} is {g:?} instead of {w:?}")),
        },
        Ok(None) => ctx.violation("refused", format!("{s:?} is refused as {parser}, it is {:?}", want)),
    }
}

fn wide<const N: u32>(ctx: &Ctx, n: &Counts, s: &str) {
    compare(ctx, n, "a wide turn", s, want_wide(s, N), || WideAxisMove::<N>::parse(s).ok().map(|m| d_wide(&m)));
}
fn wide_seq<const N: u32>(ctx: &Ctx, n: &Counts, s: &str) {
    compare(ctx, n, "a sequence of wide turns", s, want_seq(s, |t| want_wide(t, N)), || {
        Alg::<WideAxisMove<N>>::parse(s).ok().map(|a| a.moves.iter().map(d_wide).collect())
    });
}

fn single(ctx: &Ctx, n: &Counts, s: &str) {
    compare(ctx, n, "a face turn", s, want_axis(s), || AxisMove::parse(s).ok().map(|m| d_axis(&m)));
    compare(ctx, n, "a rotation", s, want_rotation(s), || AxisRotation::parse(s).ok().map(|m| d_rot(&m)));
    compare(ctx, n, "an extended move", s, want_extended(s), || ExtendedAxisMove::parse(s).ok().map(|m| d_ext(&m)));
    wide::<0>(ctx, n, s);
    wide::<1>(ctx, n, s);
    wide::<2>(ctx, n, s);
    wide::<9>(ctx, n, s);
    wide::<{ u32::MAX }>(ctx, n, s);
}
fn sequence(ctx: &Ctx, n: &Counts, s: &str) {
    compare(ctx, n, "a sequence of face turns", s, want_seq(s, want_axis), || {
        Alg::<AxisMove>::parse(s).ok().map(|a| a.moves.iter().map(d_axis).collect())
    });
    compare(ctx, n, "a sequence of face turns (try_from)", s, want_seq(s, want_axis), || {
        Alg::<AxisMove>::try_from(s).ok().map(|a| a.moves.iter().map(d_axis).collect())
    });
    compare(ctx, n, "a sequence of extended moves", s, want_seq(s, want_extended), || {
        Alg::<ExtendedAxisMove>::parse(s).ok().map(|a| a.moves.iter().map(d_ext).collect())
    });
    wide_seq::<1>(ctx, n, s);
    wide_seq::<2>(ctx, n, s);
}

/// Every string of `len` symbols.
fn strings(ctx: &Ctx, n: &Counts, symbols: &[&str], len: usize, seq: bool) {
    let k = symbols.len();
    for l in 0..=len {
        ctx.par_chunks(k.pow(l as u32), 1024, |r| {
            let mut s = String::new();
            for w in r {
                s.clear();
                let mut x = w;
                for _ in 0..l {
                    s.push_str(symbols[x % k]);
                    x /= k;
                }
                single(ctx, n, &s);
                if seq {
                    sequence(ctx, n, &s);
                }
                if ctx.stopped() {
                    return;
                }
            }
        });
    }
    ctx.sample(format!("all texts of up to {len} symbols from {symbols:?}"));
    ctx.log(format!("{} symbols, length {len}: {} parses so far", k, n.evaluations.load(SeqCst)));
}

fn main() {
    mc::main("C12", "exploration", |ctx| {
        let n = Counts { evaluations: AtomicU64::new(0), accepted: AtomicU64::new(0) };
        let all: Vec<&str> = "R U F L D B r u f l d b x y z M E S m e s w 2 ' 0 1 3 9 W X / * ² ٣ ’ ` 5 - +"
            .split(' ')
            .chain([" ", "\t", "\n", "\u{a0}", "//", "/*", "*/", "\u{0}"])
            .collect();
        strings(ctx, &n, &all, 4, true);
        // one symbol of each kind, longer
        strings(ctx, &n, &["R", "b", "w", "2", "'", "x", "M", "e", " ", "3"], ctx.pick(5, 7), true);
        strings(ctx, &n, &["R", "r", "w", "2", "'", " "], ctx.pick(7, 8), true);
        // whole moves as symbols
        strings(ctx, &n, &["R", "U2", "F'", "Lw", "2dw'", "x2", "M'", "s", " ", "  ", "\t", "Q", "3Bw2", "R2'"], ctx.pick(4, 5), true);
        // every character there is, in every place of a move
        let forms: [fn(char) -> String; 12] = [
            |c| c.to_string(),
            |c| format!("R{c}"),
            |c| format!("{c}Rw"),
            |c| format!("{c}r2"),
            |c| format!("2{c}w"),
            |c| format!("R2{c}"),
            |c| format!("x{c}"),
            |c| format!("{c}R"),
            |c| format!("R{c}U"),
            |c| format!("{c}R U"),
            |c| format!("R U2{c}"),
            |c| format!("R {c} U"),
        ];
        ctx.par_chunks(0x110000, 2048, |r| {
            for c in r {
                let Some(c) = char::from_u32(c as u32) else { continue };
                for (i, f) in forms.iter().enumerate() {
                    let s = f(c);
                    if i >= 8 {
                        sequence(ctx, &n, &s);
                    } else {
                        single(ctx, &n, &s);
                    }
                }
                if ctx.stopped() {
                    return;
                }
            }
        });
        ctx.sample("every Unicode character in 12 places of a move or sequence");
        // long texts: nothing quadratic, recursive or overflowing
        for unit in ["R", "2", "'", "w", " ", "Rw2 ", "99999999999Rw", "(", "/*", "//"] {
            for times in [100, 5000] {
                let s = unit.repeat(times);
                ctx.guard(|| format!("parsing {times} times {unit:?}"), || {
                    single(ctx, &n, &s);
                    sequence(ctx, &n, &s);
                });
            }
        }
        // sequences of every length, with several separators, and with one wrong token at the start, in the middle and at the end
        let tokens: Vec<String> = ["R", "U", "F", "L", "D", "B"].iter().flat_map(|f| ["", "2", "'"].map(|s| format!("{f}{s}"))).collect();
        let mixed: Vec<String> = ["R", "U2", "F'", "Lw", "2dw'", "r2", "x2", "M'", "s", "y", "3Bw2", "E2"].map(String::from).to_vec();
        let lens = long::lengths(ctx.pick(300, 1100), ctx.pick(65_537, 100_001));
        ctx.par(lens.len() * 4, |j| {
            let (len, style) = (lens[j / 4], j % 4);
            let pool = if style == 3 { &mixed } else { &tokens };
            let sep = [" ", "  ", "\n", " \t"][style];
            let mut words: Vec<&str> = long::word(len, pool.len(), style % 3).into_iter().map(|i| pool[i].as_str()).collect();
            sequence(ctx, &n, &words.join(sep));
            sequence(ctx, &n, &format!("{sep}{}{sep}", words.join(sep)));
            for at in [0, len / 2, len.saturating_sub(1)].into_iter().skip(if len > 5000 { 2 } else { 0 }) {
                if len > 0 {
                    let w = std::mem::replace(&mut words[at], "R3");
                    sequence(ctx, &n, &words.join(sep));
                    words[at] = w;
                }
            }
        });
        ctx.sample("sequences of every length up to 300 and of up to 65537 moves, with one wrong token at the start, in the middle and at the end");
        ctx.add("evaluations", n.evaluations.load(SeqCst));
        ctx.add("distinct_nontrivial", n.accepted.load(SeqCst));
        ctx.set("exhaustive", J::B(true));
        ctx.note("rule", "every text up to the length bound over the alphabets, every Unicode character in 12 places of a move or sequence, and sequences of every length up to a bound with and without one wrong token, given to the parsers of face turns, wide turns (depth bounds 0, 1, 2, 9 and none), rotations, extended moves and sequences; compared with an independent definition of the notation; nontrivial = a text the notation accepts");
    });
}
