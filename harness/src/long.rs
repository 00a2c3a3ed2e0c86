//! Long sequences: one of every length up to a bound, and a few very long ones.

/// Every length up to `all`, then lengths around powers of two and ten up to `most`.
pub fn lengths(all: usize, most: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=all).collect();
    for base in [256usize, 512, 1000, 1024, 2048, 4096, 8192, 10_000, 16_384, 32_768, 65_536, 100_000] {
        for n in [base - 1, base, base + 1] {
            if n > all && n <= most {
                v.push(n);
            }
        }
    }
    v
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// A fixed word of `len` letters below `n`; `style` 0: mixed, 1: each letter in turn, 2: runs of letters that are close.
pub fn word(len: usize, n: usize, style: usize) -> Vec<usize> {
    (0..len)
        .map(|i| match style {
            0 => mix((i as u64) ^ (len as u64) << 32) as usize % n,
            1 => (i + i / n) % n,
            _ => (mix(i as u64 / 5) as usize + (mix(i as u64) % 3) as usize) % n,
        })
        .collect()
}
