//! The move notation, written down independently of the implementation's grammar.

/// What a text denotes.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum D {
    /// face, quarters, depth
    Turn(usize, u32, u32),
    /// axis, quarters
    Rot(usize, u32),
    /// axis, quarters clockwise seen from the positive side, lower case
    Slice(usize, u32, bool),
}

fn suffix(s: &str) -> Option<u32> {
    match s {
        "" => Some(1),
        "2" => Some(2),
        "'" => Some(3),
        _ => None,
    }
}
fn face_letter(c: char) -> Option<usize> {
    "RUFLDB".find(c)
}

pub fn want_axis(s: &str) -> Option<D> {
    let c = s.chars().next()?;
    Some(D::Turn(face_letter(c)?, suffix(&s[c.len_utf8()..])?, 0))
}
pub fn want_wide(s: &str, max: u32) -> Option<D> {
    if let Some(d) = want_axis(s) {
        return Some(d);
    }
    let mut rest = s;
    let mut depth = 0;
    if let Some(d @ '0'..='9') = rest.chars().next() {
        depth = d as u32 - '0' as u32;
        rest = &rest[1..];
    }
    let c = rest.chars().next()?;
    rest = &rest[c.len_utf8()..];
    let f = match face_letter(c) {
        Some(f) => {
            rest = rest.strip_prefix('w')?;
            f
        }
        None => "rufldb".find(c)?,
    };
    let depth = depth.max(1);
    if depth > max {
        return None;
    }
    Some(D::Turn(f, suffix(rest)?, depth))
}
pub fn want_rotation(s: &str) -> Option<D> {
    let c = s.chars().next()?;
    Some(D::Rot("xyz".find(c)?, suffix(&s[c.len_utf8()..])?))
}
pub fn want_slice(s: &str) -> Option<D> {
    let c = s.chars().next()?;
    let k = suffix(&s[c.len_utf8()..])?;
    let (i, lower) = match ("MES".find(c), "mes".find(c)) {
        (Some(i), _) => (i, false),
        (_, Some(i)) => (i, true),
        _ => return None,
    };
    // M turns like L and E like D (against X and Y), S like F (with Z)
    Some(D::Slice(i, if i == 2 { k } else { 4 - k }, lower))
}
pub fn want_extended(s: &str) -> Option<D> {
    want_wide(s, u32::MAX).or_else(|| want_rotation(s)).or_else(|| want_slice(s))
}
pub fn want_seq(s: &str, one: impl Fn(&str) -> Option<D>) -> Option<Vec<D>> {
    s.split(char::is_whitespace).filter(|t| !t.is_empty()).map(one).collect()
}
