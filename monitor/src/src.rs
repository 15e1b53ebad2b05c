//! A source of test decisions: either a seeded generator or the bytes of a fuzzer input.

use std::sync::OnceLock;

/// Numbers mined from the sources under test, used to bias generated values
pub static HINTS: OnceLock<Vec<u32>> = OnceLock::new();

pub fn hints() -> &'static [u32] {
    HINTS.get_or_init(|| {
        std::env::var("MONITOR_HINTS")
            .unwrap_or_default()
            .split(',')
            .filter_map(|s| s.trim().parse().ok())
            .collect()
    })
}

pub struct Src<'a> {
    state: u64,
    bytes: Option<&'a [u8]>,
    pos: usize,
}

impl<'a> Src<'a> {
    pub fn seeded(seed: u64) -> Src<'static> {
        let mut s = Src { state: seed ^ 0x5851_F42D_4C95_7F2D, bytes: None, pos: 0 };
        s.next();
        s
    }

    pub fn bytes(data: &'a [u8]) -> Src<'a> {
        Src { state: 0x1234_5678, bytes: Some(data), pos: 0 }
    }

    pub fn is_fuzz(&self) -> bool {
        self.bytes.is_some()
    }

    fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }

    fn take(&mut self, n: usize) -> u64 {
        if let Some(b) = self.bytes {
            if self.pos + n <= b.len() {
                let mut v = 0u64;
                for i in 0..n {
                    v |= u64::from(b[self.pos + i]) << (8 * i);
                }
                self.pos += n;
                return v;
            }
        }
        let v = self.next();
        if n == 8 {
            v
        } else {
            v & ((1u64 << (8 * n)) - 1)
        }
    }

    pub fn u8(&mut self) -> u8 {
        self.take(1) as u8
    }
    pub fn u16(&mut self) -> u16 {
        self.take(2) as u16
    }
    pub fn u32(&mut self) -> u32 {
        self.take(4) as u32
    }
    pub fn u64(&mut self) -> u64 {
        self.take(8)
    }

    /// A number below n
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        let v = if n <= 1 {
            0
        } else if n <= 256 && self.bytes.is_some() {
            self.take(1)
        } else if n <= 65536 && self.bytes.is_some() {
            self.take(2)
        } else {
            self.take(8)
        };
        (v % n as u64) as usize
    }

    pub fn range(&mut self, lo: usize, hi_inclusive: usize) -> usize {
        lo + self.below(hi_inclusive - lo + 1)
    }

    /// True about once in n times
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == n - 1
    }

    pub fn pick<T: Copy>(&mut self, list: &[T]) -> T {
        list[self.below(list.len())]
    }

    pub fn unit(&mut self) -> f32 {
        (self.take(3) as f32) / 16_777_216.0
    }

    /// A byte, biased to the interesting ones
    pub fn value(&mut self) -> u8 {
        if self.is_fuzz() {
            return self.u8();
        }
        match self.below(16) {
            0 => self.pick(&[0u8, 255, 127, 128, 1, 254, 8, 7, 4, 3, 129, 126]),
            1 => self.hint(256) as u8,
            _ => self.u8(),
        }
    }

    /// A number from the sources under test (or a neighbour or multiple of one) below `limit`
    pub fn hint(&mut self, limit: usize) -> usize {
        let h = hints();
        if h.is_empty() {
            return self.below(limit);
        }
        let v = h[self.below(h.len())] as i64;
        let v = match self.below(8) {
            0 => v + 1,
            1 => v - 1,
            2 => 4 * v,
            3 => 255 - v,
            _ => v,
        };
        v.rem_euclid(limit as i64) as usize
    }

    pub fn shuffle<T>(&mut self, list: &mut [T]) {
        for i in (1..list.len()).rev() {
            let j = self.below(i + 1);
            list.swap(i, j);
        }
    }
}

pub fn fnv(hash: u64, data: &[u8]) -> u64 {
    let mut h = hash.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(31) ^ 0xcbf2_9ce4_8422_2325;
    for &b in data {
        h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h ^ (h >> 29)
}
