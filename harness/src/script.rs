//! A random source under the control of the exploration: every call returns a scripted value.
use rand::RngCore;

/// Values of the default script.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Base {
    /// always the smallest value
    Low,
    /// fixed mixed values, all from the upper half of the range
    High,
    /// walks over the whole range with the given stride (in 1/64)
    Walk(u32),
    /// the fixed mixed sequence with this number
    Mixed(u32),
}

#[derive(Clone, Debug)]
pub struct Script {
    pub base: Base,
    /// (call number, value as a fraction of 2^64)
    pub deviations: Vec<(u32, u64)>,
}
impl Script {
    pub fn describe(&self) -> String {
        let d: Vec<String> = self.deviations.iter().map(|(i, v)| format!("call {i} returns {:.3} of the range", *v as f64 / 18446744073709551616.0)).collect();
        format!("random source {:?}{}{}", self.base, if d.is_empty() { "" } else { " except " }, d.join(", "))
    }
}

/// `i` in `0..n`, evenly spaced, away from the ends of the intervals.
pub fn spaced(i: u32, n: u32) -> u64 {
    (((i as u128 * 2 + 1) << 64) / (2 * n as u128)) as u64
}

fn mix(i: u32) -> u64 {
    let mut z = (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub struct Scripted {
    s: Script,
    pub calls: u32,
}
impl Scripted {
    pub fn new(s: Script) -> Scripted {
        Scripted { s, calls: 0 }
    }
    pub fn describe(&self) -> String {
        self.s.describe()
    }
    fn value(&mut self) -> u64 {
        let i = self.calls;
        self.calls = self.calls.wrapping_add(1);
        if i > 5_000_000 {
            panic!("more than 5 million calls of the random source");
        }
        if let Some(d) = self.s.deviations.iter().find(|d| d.0 == i) {
            return d.1;
        }
        // a sampler that keeps rejecting periodic values is served a mixed sequence in the end
        if i > 20_000 {
            return mix(i);
        }
        match self.s.base {
            Base::Low => 0,
            Base::High => mix(i) / 2 + (1 << 63),
            Base::Mixed(n) => mix(i ^ n.wrapping_mul(0x0100_0193)).wrapping_add(mix(n)).rotate_left(n % 64) ^ mix(!n ^ i),
            Base::Walk(s) => spaced((i.wrapping_mul(s).wrapping_add(s / 2)) % 64, 64),
        }
    }
}
impl RngCore for Scripted {
    fn next_u32(&mut self) -> u32 {
        (self.value() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.value()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let v = self.value().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

pub fn bases() -> Vec<Base> {
    [Base::Low, Base::High].into_iter().chain([1, 5, 7, 11, 13, 17, 19, 23, 27, 29, 31, 37, 41, 43, 47, 53, 59, 61].map(Base::Walk)).collect()
}
