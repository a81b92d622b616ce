/// splitmix64 step, used both as a mixer and as the generator's core.
pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_add(b.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed, 0x5DEE_CE66))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0, 0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn f64(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

enum Mode {
    Random(Rng),
    Tape(usize),
    Bytes(Vec<u8>, usize)
}

/// The source of all choices of one case.
pub struct Src {
    mode: Mode,
    pub tape: Vec<u64>,
    replay: Vec<u64>,
    log: Option<std::fs::File>
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { mode: Mode::Random(Rng::new(seed)), tape: vec![], replay: vec![], log: None }
    }
    pub fn from_tape(tape: Vec<u64>) -> Src {
        Src { mode: Mode::Tape(0), tape: vec![], replay: tape, log: None }
    }
    pub fn from_bytes(b: &[u8]) -> Src {
        Src { mode: Mode::Bytes(b.to_vec(), 0), tape: vec![], replay: vec![], log: None }
    }
    /// also append every choice to a file (to know the choices of a case that kills the process)
    pub fn log_to(&mut self, p: &str) {
        self.log = std::fs::File::create(p).ok();
    }
    /// A choice in 0..n; 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.mode {
            Mode::Random(r) => r.below(n),
            Mode::Tape(p) => {
                let v = self.replay.get(*p).copied().unwrap_or(0);
                *p += 1;
                v.min(n - 1)
            }
            Mode::Bytes(b, p) => {
                let k = match n {
                    0..=0x100 => 1,
                    0x101..=0x1_0000 => 2,
                    0x1_0001..=0x1_0000_0000 => 4,
                    _ => 8
                };
                let mut v = 0u64;
                for i in 0..k {
                    v |= (b.get(*p + i).copied().unwrap_or(0) as u64) << (8 * i);
                }
                *p += k;
                v % n
            }
        };
        self.tape.push(v);
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = f.write_all(format!("{v},").as_bytes());
        }
        v
    }
    pub fn usize(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below((hi_incl - lo + 1) as u64) as usize
    }
    pub fn u64_any(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        hi << 32 | lo
    }
    pub fn i64(&mut self, lo: i64, hi_incl: i64) -> i64 {
        // zero (or the bound nearest to it) is simplest
        let v = self.below((hi_incl - lo + 1) as u64) as i64;
        if lo <= 0 && hi_incl >= 0 {
            // order 0,1,..,hi,-1,-2,..,lo
            if v <= hi_incl {
                v
            } else {
                hi_incl - v
            }
        } else {
            lo + v
        }
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den (false is simplest)
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn f64(&mut self) -> f64 {
        self.below(1 << 30) as f64 / ((1u64 << 30) - 1) as f64
    }
    /// A sub-generator for bulk data (its seed is one choice on the tape; seed 0 gives all-zero choices).
    pub fn rng(&mut self) -> Rng {
        Rng::new(self.below(1 << 32))
    }
    /// A dimension: small ones, ones around powers of two / SIMD widths, and now and then a large one.
    pub fn dim(&mut self, max: usize) -> usize {
        let k = self.below(10);
        let v = match k {
            0..=3 => self.usize(1, 9.min(max)),
            4..=6 => self.usize(1, 40.min(max)),
            7 => {
                let c = self.pick(&[1usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]);
                c.min(max)
            }
            8 => self.usize(1, 100.min(max)),
            _ => self.usize(1, max)
        };
        v.clamp(1, max)
    }
    /// Bulk bytes with structure: constant, noise, gradients, runs, few values, extremes.
    pub fn data(&mut self, len: usize) -> Vec<u8> {
        let kind = self.below(9);
        let mut r = self.rng();
        let mut out = Vec::with_capacity(len);
        match kind {
            0 => out.resize(len, r.byte()),
            1 => {
                for i in 0..len {
                    out.push(i as u8)
                }
            }
            2 => {
                let step = r.byte();
                let mut v = r.byte();
                for _ in 0..len {
                    out.push(v);
                    v = v.wrapping_add(step);
                }
            }
            3 => {
                // runs
                while out.len() < len {
                    let n = 1 + r.below(80) as usize;
                    let v = r.byte();
                    for _ in 0..n.min(len - out.len()) {
                        out.push(v);
                    }
                }
            }
            4 => {
                let vals = [r.byte(), r.byte(), r.byte(), 0, 255];
                for _ in 0..len {
                    out.push(vals[r.below(5) as usize])
                }
            }
            5 => {
                for _ in 0..len {
                    out.push(if r.below(2) == 0 { 0 } else { 255 })
                }
            }
            6 => {
                // random walk
                let mut v = r.byte() as i32;
                for _ in 0..len {
                    v = (v + r.below(9) as i32 - 4).clamp(0, 255);
                    out.push(v as u8)
                }
            }
            7 => {
                // repeated motif with noise
                let m = 1 + r.below(300) as usize;
                let motif: Vec<u8> = (0..m).map(|_| r.byte()).collect();
                for i in 0..len {
                    out.push(if r.below(40) == 0 { r.byte() } else { motif[i % m] })
                }
            }
            _ => {
                for _ in 0..len {
                    out.push(r.byte())
                }
            }
        }
        out
    }
    pub fn data16(&mut self, len: usize) -> Vec<u16> {
        let kind = self.below(3);
        let b = self.data(len * 2);
        match kind {
            0 => b.chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect(),
            1 => b.chunks_exact(2).map(|c| u16::from_be_bytes([c[1], c[0]])).collect(),
            _ => b.chunks_exact(2).map(|c| c[0] as u16 * 257).collect()
        }
    }
    /// floats in [0,1]
    pub fn dataf(&mut self, len: usize) -> Vec<f32> {
        self.data16(len).into_iter().map(|v| v as f32 / 65535.0).collect()
    }
}
