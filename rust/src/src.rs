//! Sources of nondeterminism.  The same harness text is run by Kani (every value symbolic) and
//! natively (bounded stand-in, replay of Kani counterexamples, failing-input search).

pub trait Src {
    /// true under Kani
    const SYM: bool;
    fn u8(&mut self) -> u8;
    fn u16(&mut self) -> u16;
    fn u32(&mut self) -> u32;
    fn u64(&mut self) -> u64;
    /// Restrict the inputs (precondition).
    fn assume(&mut self, c: bool);
    /// Vacuity witness: must be reachable.
    fn reach(&mut self);

    #[inline]
    fn bool(&mut self) -> bool {
        let b = self.u8();
        self.assume(b < 2);
        b == 1
    }
    #[inline]
    fn i16(&mut self) -> i16 {
        self.u16() as i16
    }
    #[inline]
    fn i32(&mut self) -> i32 {
        self.u32() as i32
    }
    #[inline]
    fn i64(&mut self) -> i64 {
        self.u64() as i64
    }
    #[inline]
    fn f32(&mut self) -> f32 {
        f32::from_bits(self.u32())
    }
    /// lo <= r <= hi
    fn range(&mut self, lo: u64, hi: u64) -> u64;
    #[inline]
    fn below(&mut self, n: usize) -> usize {
        self.range(0, n as u64 - 1) as usize
    }
    #[inline]
    fn coin(&mut self) -> bool {
        self.range(0, 1) == 1
    }
    #[inline]
    fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let mut a = [0u8; N];
        for x in a.iter_mut() {
            *x = self.u8();
        }
        a
    }
    /// arbitrary array of words
    fn words<const N: usize>(&mut self) -> [u64; N];
    /// n arbitrary bytes (native only)
    fn blob(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    /// bound used under Kani vs natively
    #[inline]
    fn bound(&self, kani: usize, native: usize) -> usize {
        if Self::SYM { kani } else { native }
    }
}

#[cfg(kani)]
pub struct Sym;
#[cfg(kani)]
impl Src for Sym {
    const SYM: bool = true;
    fn u8(&mut self) -> u8 {
        kani::any()
    }
    fn u16(&mut self) -> u16 {
        kani::any()
    }
    fn u32(&mut self) -> u32 {
        kani::any()
    }
    fn u64(&mut self) -> u64 {
        kani::any()
    }
    fn assume(&mut self, c: bool) {
        kani::assume(c)
    }
    fn words<const N: usize>(&mut self) -> [u64; N] {
        kani::any()
    }
    fn reach(&mut self) {
        kani::cover!(true, "lyv-reach");
    }
    fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi < 256 {
            let x: u8 = kani::any();
            kani::assume(x as u64 >= lo && x as u64 <= hi);
            x as u64
        } else {
            let x: u64 = kani::any();
            kani::assume(x >= lo && x <= hi);
            x
        }
    }
}

#[cfg(not(kani))]
pub struct Discard;

#[cfg(not(kani))]
pub enum Mode {
    Rng(u64),
    Replay(usize),
}

/// Native source: pseudo random with edge bias, or replay of a byte stream.
#[cfg(not(kani))]
pub struct Native {
    pub mode: Mode,
    pub log: Vec<u8>,
    pub reached: bool,
    recent: [u64; 8],
    n: usize,
    style: u64,
}

#[cfg(not(kani))]
impl Native {
    pub fn rng(seed: u64) -> Self {
        let mut s = Self {
            mode: Mode::Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03),
            log: Vec::new(),
            reached: false,
            recent: [0; 8],
            n: 0,
            style: 0,
        };
        s.style = s.next() % 4;
        s
    }
    pub fn replay(bytes: Vec<u8>) -> Self {
        Self {
            mode: Mode::Replay(0),
            log: bytes,
            reached: false,
            recent: [0; 8],
            n: 0,
            style: 0,
        }
    }
    fn next(&mut self) -> u64 {
        match &mut self.mode {
            Mode::Rng(x) => {
                *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let mut z = *x;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
                z ^ (z >> 31)
            }
            Mode::Replay(_) => 0,
        }
    }
    fn take(&mut self, size: usize) -> u64 {
        let Mode::Replay(pos) = &mut self.mode else {
            unreachable!()
        };
        let mut v = 0u64;
        for i in 0..size {
            v |= (self.log.get(*pos + i).copied().unwrap_or(0) as u64) << (8 * i);
        }
        *pos += size;
        v
    }
    fn gen_bits(&mut self, size: usize) -> u64 {
        if let Mode::Replay(_) = self.mode {
            return self.take(size);
        }
        let bits = 8 * size as u32;
        let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let r = self.next();
        let k = r % 16;
        let v = match k {
            0 => [0, 1, 2, 3, mask, mask - 1, mask - 2, mask >> 1][(r >> 8) as usize % 8],
            1 => [mask >> 1, (mask >> 1) + 1, (mask >> 1) + 2, (mask >> 1) - 1][(r >> 8) as usize % 4],
            // small value
            2 | 3 => (r >> 8) % 8,
            4 => (r >> 8) % 300,
            // near a recent value
            5..=8 => {
                let base = self.recent[(r >> 8) as usize % 8];
                base.wrapping_add((r >> 16) % 9).wrapping_sub(4)
            }
            9 => {
                let base = self.recent[(r >> 8) as usize % 8];
                base.wrapping_add((r >> 16) % 97).wrapping_sub(48)
            }
            // near half range from a recent value
            10 => {
                let base = self.recent[(r >> 8) as usize % 8];
                base.wrapping_add((mask >> 1) + 1)
                    .wrapping_add((r >> 16) % 5)
                    .wrapping_sub(2)
            }
            11 => 1u64 << ((r >> 8) % bits as u64),
            12 => (1u64 << ((r >> 8) % bits as u64)).wrapping_sub(1),
            // value of random magnitude
            13 => self.next() >> ((r >> 8) % 64),
            _ => self.next(),
        } & mask;
        self.recent[self.n % 8] = v;
        self.n += 1;
        self.log.extend_from_slice(&v.to_le_bytes()[..size]);
        v
    }
}

#[cfg(not(kani))]
impl Src for Native {
    const SYM: bool = false;
    fn u8(&mut self) -> u8 {
        self.gen_bits(1) as u8
    }
    fn u16(&mut self) -> u16 {
        self.gen_bits(2) as u16
    }
    fn u32(&mut self) -> u32 {
        self.gen_bits(4) as u32
    }
    fn u64(&mut self) -> u64 {
        self.gen_bits(8)
    }
    fn assume(&mut self, c: bool) {
        if !c {
            std::panic::resume_unwind(Box::new(Discard));
        }
    }
    fn words<const N: usize>(&mut self) -> [u64; N] {
        core::array::from_fn(|_| self.u64())
    }
    fn reach(&mut self) {
        self.reached = true;
    }
    fn bool(&mut self) -> bool {
        self.range(0, 1) == 1
    }
    fn f32(&mut self) -> f32 {
        if let Mode::Replay(_) = self.mode {
            return f32::from_bits(self.take(4) as u32);
        }
        let r = self.next();
        let v = match r % 8 {
            0 => [0.0, 1.0, -1.0, 0.5, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, f32::NAN]
                [(r >> 8) as usize % 8],
            1 => f32::from_bits((r >> 8) as u32),
            2 | 3 => ((r >> 8) % 1_000_001) as f32 / 1_000_000.0,
            4 => ((r >> 8) % 2001) as f32 / 1000.0 - 1.0,
            5 => ((r >> 8) % 1000) as f32,
            _ => ((r >> 8) % 100_000) as f32 / 1000.0,
        };
        self.log.extend_from_slice(&v.to_bits().to_le_bytes());
        v
    }
    fn range(&mut self, lo: u64, hi: u64) -> u64 {
        let size = if hi < 256 { 1 } else { 8 };
        if let Mode::Replay(_) = self.mode {
            let v = self.take(size);
            self.assume(v >= lo && v <= hi);
            return v;
        }
        let span = hi - lo;
        let r = self.next();
        let v = if span == u64::MAX {
            self.next()
        } else if span < 16 {
            lo + (r >> 8) % (span + 1)
        } else {
            match r % 8 {
                0 => lo + (r >> 8) % 4,
                1 => hi - (r >> 8) % 4,
                _ => lo + self.next() % (span + 1),
            }
        };
        self.log.extend_from_slice(&v.to_le_bytes()[..size]);
        v
    }
}
