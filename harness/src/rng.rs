/// Deterministic random choices.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Any bit width, edges favoured
    pub fn u64(&mut self) -> u64 {
        let width = self.below(65) as u32;
        let v = if width == 0 { 0 } else { self.next() >> (64 - width) };
        match self.below(6) {
            0 => {
                let k = self.below(64) as u32;
                (1u64 << k).wrapping_add(self.below(3) as u64).wrapping_sub(1)
            }
            1 => u64::MAX - self.below(3) as u64,
            _ => v,
        }
    }
    pub fn char(&mut self) -> char {
        loop {
            let v = match self.below(5) {
                0 | 1 => self.below(128) as u32,
                2 => self.below(0x800) as u32,
                3 => self.below(0x1_0000) as u32,
                _ => *[0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x1_0000, 0x10_ffff]
                    .get(self.below(10))
                    .unwrap(),
            };
            if let Some(c) = char::from_u32(v) {
                return c;
            }
        }
    }
    pub fn text(&mut self, max: usize) -> String {
        let n = self.below(max + 1);
        (0..n).map(|_| self.char()).collect()
    }
    /// A word over a small alphabet
    pub fn word(&mut self, alphabet: &[char], max: usize) -> String {
        let n = self.below(max + 1);
        (0..n).map(|_| *self.pick(alphabet)).collect()
    }
}
