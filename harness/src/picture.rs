//! Reading the picture of a cube back from terminal output.
use crate::model::*;

/// What a terminal shows: background colour of every character cell.
pub type Grid = Vec<Vec<Option<[u8; 3]>>>;

/// Emulates the few control sequences a picture needs; `Err` names what it does not know.
pub fn terminal(text: &str) -> Result<Grid, String> {
    let mut grid: Grid = vec![vec![]];
    let mut bg = None;
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '\x1b' => {
                if it.next() != Some('[') {
                    return Err("unknown escape sequence".into());
                }
                let mut p = String::new();
                let end = loop {
                    match it.next() {
                        Some(c) if c.is_ascii_digit() || c == ';' || c == ':' => p.push(c),
                        Some(c) => break c,
                        None => return Err("unfinished escape sequence".into()),
                    }
                };
                if end != 'm' {
                    return Err(format!("unknown escape sequence {p}{end}"));
                }
                let v: Vec<u32> = p.split([';', ':']).map(|x| x.parse().unwrap_or(0)).collect();
                match v[..] {
                    [0] | [49] => bg = None,
                    [48, 2, r, g, b] => bg = Some([r as u8, g as u8, b as u8]),
                    _ => return Err(format!("unknown colour sequence {p}")),
                }
            }
            '\n' => grid.push(vec![]),
            '\r' => (),
            _ => grid.last_mut().unwrap().push(bg),
        }
    }
    Ok(grid)
}

/// (row direction, column direction) of every face in the unfolded picture, as faces.
pub const BASIS: [(usize, usize); 6] = [(4, 5), (2, 0), (4, 0), (4, 2), (5, 0), (1, 0)];
/// Place (row, column) of the face in the picture, in faces.
pub const PLACE: [(usize, usize); 6] = [(1, 2), (0, 1), (1, 1), (1, 0), (2, 1), (3, 1)];

/// The slot shown at a row and column of a face.
pub fn square(ph: &Phys, f: usize, row: usize, col: usize) -> u16 {
    let m = ph.n as i32 - 1;
    let (rv, cv) = (face_vec(BASIS[f].0), face_vec(BASIS[f].1));
    let mut p = face_vec(f).map(|x| x * m);
    for i in 0..3 {
        p[i] += rv[i] * (2 * row as i32 - m) + cv[i] * (2 * col as i32 - m);
    }
    ph.slot(p, f)
}

/// Reads the picture: colour on every slot. Empty rows and columns do not matter.
pub fn read(ph: &Phys, text: &str) -> Result<Vec<[u8; 3]>, String> {
    let g = terminal(text)?;
    let rows: Vec<&Vec<Option<[u8; 3]>>> = g.iter().filter(|r| r.iter().any(|c| c.is_some())).collect();
    let width = rows.iter().map(|r| r.len()).max().unwrap_or(0);
    let cols: Vec<usize> = (0..width).filter(|&c| rows.iter().any(|r| r.get(c).is_some_and(|x| x.is_some()))).collect();
    let n = ph.n;
    if rows.len() != 4 * n || cols.len() % (3 * n) != 0 || cols.is_empty() {
        return Err(format!("{} coloured rows and {} coloured columns instead of {} and a multiple of {}", rows.len(), cols.len(), 4 * n, 3 * n));
    }
    let w = cols.len() / (3 * n);
    let mut out = vec![[0; 3]; ph.slots.len()];
    for r in 0..4 * n {
        for c in 0..3 * n {
            let cell: Vec<Option<[u8; 3]>> = (0..w).map(|k| rows[r].get(cols[c * w + k]).copied().flatten()).collect();
            let f = (0..6).find(|&f| PLACE[f] == (r / n, c / n));
            match (f, cell[0]) {
                _ if cell.iter().any(|x| *x != cell[0]) => return Err(format!("square in row {r}, column {c} is not of one colour")),
                (Some(f), Some(col)) => out[square(ph, f, r % n, c % n) as usize] = col,
                (None, None) => (),
                (Some(_), None) => return Err(format!("no square in row {r}, column {c}")),
                (None, Some(_)) => return Err(format!("a square where none belongs, row {r}, column {c}")),
            }
        }
    }
    Ok(out)
}
