//! Nondeterministic inputs: symbolic under Kani, a byte tape or a seeded generator in replay.

/// A source of arbitrary values.
pub trait Src {
    /// True under the verifier; bodies may then choose smaller shapes.
    const SYMBOLIC: bool = false;
    fn u8(&mut self) -> u8;
    /// Restricts the inputs; discards the run in replay.
    fn assume(&mut self, c: bool);
    fn bool(&mut self) -> bool {
        self.u8() & 1 == 1
    }
    fn u16(&mut self) -> u16 {
        u16::from_le_bytes([self.u8(), self.u8()])
    }
    fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.arr())
    }
    fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.arr())
    }
    fn u128(&mut self) -> u128 {
        u128::from_le_bytes(self.arr())
    }
    fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut a = [0u8; N];
        let mut i = 0;
        while i < N {
            a[i] = self.u8();
            i += 1;
        }
        a
    }
    /// Both slices are equal (loop-free under Kani: an arbitrary index agrees).
    fn same(&mut self, a: &[u8], b: &[u8]) -> bool {
        a == b
    }
    /// A value in `0..=max`.
    fn upto(&mut self, max: usize) -> usize {
        let v = self.u64() as usize;
        self.assume(v <= max);
        v
    }
}

#[cfg(kani)]
pub struct KaniSrc;

#[cfg(kani)]
impl Src for KaniSrc {
    const SYMBOLIC: bool = true;
    fn u8(&mut self) -> u8 {
        kani::any()
    }
    fn assume(&mut self, c: bool) {
        kani::assume(c)
    }
    fn u16(&mut self) -> u16 {
        kani::any()
    }
    fn u32(&mut self) -> u32 {
        kani::any()
    }
    fn u64(&mut self) -> u64 {
        kani::any()
    }
    fn u128(&mut self) -> u128 {
        kani::any()
    }
    fn bool(&mut self) -> bool {
        kani::any()
    }
    fn arr<const N: usize>(&mut self) -> [u8; N] {
        kani::any()
    }
    fn same(&mut self, a: &[u8], b: &[u8]) -> bool {
        if a.len() != b.len() {
            return false;
        }
        let i: usize = kani::any();
        i >= a.len() || a[i] == b[i]
    }
}

/// Thrown by `assume(false)` outside Kani.
pub struct Discard;

/// Draws from a recorded tape first and a seeded generator afterwards, recording everything.
pub struct TapeSrc {
    pub tape: Vec<u8>,
    pub pos: usize,
    state: u64,
    fixed: bool,
    /// Reads values the way `KaniSrc` draws them (verifier counterexamples).
    raw: bool,
}

impl TapeSrc {
    pub fn random(seed: u64) -> Self {
        TapeSrc {
            tape: Vec::new(),
            pos: 0,
            state: seed ^ 0x9E37_79B9_7F4A_7C15,
            fixed: false,
            raw: false,
        }
    }
    pub fn replay(tape: Vec<u8>) -> Self {
        TapeSrc {
            tape,
            pos: 0,
            state: 0,
            fixed: true,
            raw: false,
        }
    }
    pub fn counterexample(tape: Vec<u8>) -> Self {
        TapeSrc {
            raw: true,
            ..Self::replay(tape)
        }
    }
    pub fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn byte(&mut self, fresh: impl FnOnce(&mut Self) -> u8) -> u8 {
        if self.pos < self.tape.len() {
            self.pos += 1;
            self.tape[self.pos - 1]
        } else if self.fixed {
            self.pos += 1;
            self.tape.push(0);
            0
        } else {
            let b = fresh(self);
            self.tape.push(b);
            self.pos += 1;
            b
        }
    }
    fn put(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.byte(|_| *b);
        }
    }
}

impl Src for TapeSrc {
    fn u8(&mut self) -> u8 {
        self.byte(|s| {
            let r = s.next();
            match r % 8 {
                0 => 0,
                1 => 0xFF,
                2 => (r >> 8) as u8 & 7,
                3 => *b"/*?#:.ab"[..].get((r >> 8) as usize & 7).unwrap(),
                _ => (r >> 8) as u8,
            }
        })
    }
    fn assume(&mut self, c: bool) {
        if !c {
            std::panic::resume_unwind(Box::new(Discard));
        }
    }
    fn u64(&mut self) -> u64 {
        let p = self.pos;
        if p < self.tape.len() || self.fixed {
            return u64::from_le_bytes(self.arr());
        }
        let r = self.next();
        let v = match r % 6 {
            0 => (r >> 8) & 3,
            1 => u64::MAX - ((r >> 8) & 3),
            2 => 1u64 << ((r >> 8) & 63),
            3 => (1u64 << ((r >> 8) & 63)).wrapping_sub(1),
            4 => self.next() >> ((r >> 8) & 63),
            _ => self.next(),
        };
        self.put(&v.to_le_bytes());
        v
    }
    fn same(&mut self, a: &[u8], b: &[u8]) -> bool {
        if self.raw && a.len() == b.len() {
            self.u64();
        }
        a == b
    }
    fn upto(&mut self, max: usize) -> usize {
        if self.raw {
            let v = self.u64() as usize;
            self.assume(v <= max);
            return v;
        }
        // 1, 2 or 8 tape bytes, scaled into range, so replayed tapes always stay in range.
        let n = (max as u128) + 1;
        if max < 256 {
            let b = self.byte(|s| s.next() as u8);
            (b as u128 * n / 256) as usize
        } else if max < 65536 {
            let lo = self.byte(|s| s.next() as u8);
            let hi = self.byte(|s| s.next() as u8);
            (u16::from_le_bytes([lo, hi]) as u128 * n / 65536) as usize
        } else {
            let v = u64::from_le_bytes(self.arr());
            (v as u128 % n) as usize
        }
    }
}
