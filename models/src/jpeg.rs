//! Coefficient-level JPEG writer (baseline, extended and progressive, any legal scan script,
//! any Huffman tables) and an exact reference decoder for the coefficients it writes.
use pbt::Src;

pub const ZZ: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28, 35,
    42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63,
];

#[derive(Clone, Debug)]
pub struct Comp {
    pub id: u8,
    pub h: usize,
    pub v: usize,
    pub tq: usize,
    /// blocks allocated per row / column (whole MCUs)
    pub bx: usize,
    pub by: usize,
    /// blocks per row / column in a scan of this component alone
    pub nx: usize,
    pub ny: usize,
    /// quantised coefficients, zig-zag order
    pub blocks: Vec<[i32; 64]>,
}

#[derive(Clone, Debug)]
pub struct Jpeg {
    pub w: usize,
    pub h: usize,
    pub comps: Vec<Comp>,
    /// zig-zag order
    pub qt: Vec<[u16; 64]>,
    pub adobe: Option<u8>,
    pub jfif: bool,
    pub hmax: usize,
    pub vmax: usize,
    pub mx: usize,
    pub my: usize,
}

#[derive(Clone, Debug)]
pub struct Scan {
    pub comps: Vec<usize>,
    pub ss: usize,
    pub se: usize,
    pub ah: u32,
    pub al: u32,
}

#[derive(Clone, Debug)]
pub struct Enc {
    pub sof: u8,
    pub scans: Vec<Scan>,
    pub restart: usize,
    /// one set of Huffman tables in front instead of new ones for each scan
    pub shared: bool,
    /// number of table slots used (1..=4)
    pub slots: usize,
    pub fill: bool,
    pub dqt16: bool,
    /// segments to insert: (slot, bytes incl. marker); slot 0 = after SOI, 1 = before SOF, 2 = before first SOS, 3 = between scans
    pub extra: Vec<(usize, Vec<u8>)>,
    pub dri_late: bool,
    /// shared Huffman tables before the frame header, quantisation tables behind it
    pub dht_early: bool,
    pub dqt_late: bool,
    /// write the restart marker that may follow the last interval? (never legal: always false)
    pub eoi: bool,
}

// ------------------------------------------------------------------ generation

pub fn frame(w: usize, h: usize, samp: &[(usize, usize)]) -> Jpeg {
    let hmax = samp.iter().map(|s| s.0).max().unwrap();
    let vmax = samp.iter().map(|s| s.1).max().unwrap();
    let mx = w.div_ceil(8 * hmax);
    let my = h.div_ceil(8 * vmax);
    let single = samp.len() == 1;
    let comps = samp
        .iter()
        .enumerate()
        .map(|(i, &(ch, cv))| {
            let nx = (w * ch).div_ceil(hmax).div_ceil(8);
            let ny = (h * cv).div_ceil(vmax).div_ceil(8);
            let (bx, by) = if single { (nx, ny) } else { (mx * ch, my * cv) };
            Comp { id: i as u8 + 1, h: ch, v: cv, tq: 0, bx, by, nx, ny, blocks: vec![[0; 64]; bx * by] }
        })
        .collect();
    Jpeg { w, h, comps, qt: vec![], adobe: None, jfif: false, hmax, vmax, mx, my }
}

fn cos_table() -> [[f64; 8]; 8] {
    let mut t = [[0.0; 8]; 8];
    for (x, row) in t.iter_mut().enumerate() {
        for (u, c) in row.iter_mut().enumerate() {
            let cu = if u == 0 { (0.5f64).sqrt() } else { 1.0 };
            *c = 0.5 * cu * (((2 * x + 1) as f64) * (u as f64) * std::f64::consts::PI / 16.0).cos();
        }
    }
    t
}

/// natural order in, natural order out (no level shift)
pub fn idct(c: &[f64; 64]) -> [f64; 64] {
    thread_local!(static T: [[f64; 8]; 8] = cos_table());
    T.with(|t| {
        let mut tmp = [0.0; 64];
        for v in 0..8 {
            for x in 0..8 {
                let mut a = 0.0;
                for u in 0..8 {
                    a += c[v * 8 + u] * t[x][u];
                }
                tmp[v * 8 + x] = a;
            }
        }
        let mut out = [0.0; 64];
        for y in 0..8 {
            for x in 0..8 {
                let mut a = 0.0;
                for v in 0..8 {
                    a += tmp[v * 8 + x] * t[y][v];
                }
                out[y * 8 + x] = a;
            }
        }
        out
    })
}

pub fn fdct(p: &[f64; 64]) -> [f64; 64] {
    thread_local!(static T: [[f64; 8]; 8] = cos_table());
    T.with(|t| {
        let mut tmp = [0.0; 64];
        for y in 0..8 {
            for u in 0..8 {
                let mut a = 0.0;
                for x in 0..8 {
                    a += p[y * 8 + x] * t[x][u];
                }
                tmp[y * 8 + u] = a;
            }
        }
        let mut out = [0.0; 64];
        for v in 0..8 {
            for u in 0..8 {
                let mut a = 0.0;
                for y in 0..8 {
                    a += tmp[y * 8 + u] * t[y][v];
                }
                out[v * 8 + u] = a;
            }
        }
        out
    })
}

fn gen_qt(s: &mut Src, max: u64) -> [u16; 64] {
    let mut q = [1u16; 64];
    match s.below(4) {
        0 => {}
        1 => {
            let v = 1 + s.below(40) as u16;
            q = [v; 64];
        }
        2 => {
            let base = 1 + s.below(16);
            let slope = s.below(8);
            for (i, v) in q.iter_mut().enumerate() {
                *v = (base + slope * i as u64 / 4).min(max) as u16;
            }
        }
        _ => {
            let top = s.pick(&[8u64, 60, 255]).min(max);
            let mut r = s.rng();
            for v in q.iter_mut() {
                *v = 1 + r.below(top) as u16;
            }
        }
    }
    q
}

/// Fill a frame with quantisation tables and coefficients of plausible blocks
/// (all reconstructed samples stay in a range a fixed-point transform handles).
pub fn fill(s: &mut Src, j: &mut Jpeg) {
    let nq = 1 + s.below(j.comps.len().min(3) as u64) as usize;
    j.qt = (0..nq).map(|_| gen_qt(s, 255)).collect();
    for i in 0..j.comps.len() {
        j.comps[i].tq = s.below(nq as u64) as usize;
    }
    let kind = s.below(6);
    let smooth = s.chance(1, 2);
    let mut r = s.rng();
    let qt = j.qt.clone();
    let (hmax, vmax) = (j.hmax, j.vmax);
    for c in j.comps.iter_mut() {
        let q = &qt[c.tq];
        let (fx, fy) = (r.f64() * 0.3, r.f64() * 0.3);
        let (sx, sy) = (hmax / c.h, vmax as f64 / c.v as f64);
        let base = r.below(256) as f64;
        let ramp = r.f64() * 4.0 - 2.0;
        for by in 0..c.by {
            for bx in 0..c.bx {
                let k = if kind == 5 { r.below(5) } else { kind };
                let mut p = [0.0; 64];
                let flat = r.below(256) as f64;
                let amp = [2.0, 8.0, 32.0, 128.0][r.below(4) as usize];
                for y in 0..8 {
                    for x in 0..8 {
                        let (gx, gy) = (((bx * 8 + x) * sx) as f64, (by * 8 + y) as f64 * sy);
                        p[y * 8 + x] = match k {
                            0 => 128.0 + 100.0 * (gx * fx).sin() * (gy * fy).cos(),
                            1 => flat,
                            2 => r.below(256) as f64,
                            3 => (flat + (r.f64() - 0.5) * amp).clamp(0.0, 255.0),
                            _ => {
                                if smooth {
                                    (base + ramp * (gx + gy)).rem_euclid(255.0)
                                } else {
                                    [0.0, 255.0][r.below(2) as usize]
                                }
                            }
                        } - 128.0;
                    }
                }
                let f = fdct(&p);
                let b = &mut c.blocks[by * c.bx + bx];
                for z in 0..64 {
                    let v = (f[ZZ[z]] / q[z] as f64).round();
                    b[z] = if z == 0 { v.clamp(-1023.0, 1023.0) } else { v.clamp(-1023.0, 1023.0) } as i32;
                }
                if r.below(3) == 0 {
                    // sparse variants: drop coefficients
                    let keep = 1 + r.below(63) as usize;
                    for z in keep..64 {
                        b[z] = 0;
                    }
                }
            }
        }
    }
}

pub fn legal_interleave(j: &Jpeg, set: &[usize]) -> bool {
    set.len() == 1 || (set.len() <= 4 && set.iter().map(|&i| j.comps[i].h * j.comps[i].v).sum::<usize>() <= 10)
}

pub fn baseline_scans(j: &Jpeg) -> Vec<Scan> {
    vec![Scan { comps: (0..j.comps.len()).collect(), ss: 0, se: 63, ah: 0, al: 0 }]
}

fn partition(s: &mut Src, j: &Jpeg) -> Vec<Vec<usize>> {
    let n = j.comps.len();
    let all: Vec<usize> = (0..n).collect();
    match s.below(3) {
        0 if legal_interleave(j, &all) => vec![all],
        1 => all.into_iter().map(|i| vec![i]).collect(),
        _ => {
            let mut out: Vec<Vec<usize>> = vec![];
            for i in 0..n {
                let mut done = false;
                if s.bool() {
                    if let Some(l) = out.last_mut() {
                        l.push(i);
                        if legal_interleave(j, l) {
                            done = true;
                        } else {
                            l.pop();
                        }
                    }
                }
                if !done {
                    out.push(vec![i]);
                }
            }
            out
        }
    }
}

pub fn sequential_scans(s: &mut Src, j: &Jpeg) -> Vec<Scan> {
    partition(s, j).into_iter().map(|comps| Scan { comps, ss: 0, se: 63, ah: 0, al: 0 }).collect()
}

/// A random legal progressive script which transmits every coefficient in full.
pub fn progressive_scans(s: &mut Src, j: &Jpeg) -> Vec<Scan> {
    let mut queues: Vec<Vec<Scan>> = vec![];
    // DC
    let al = s.below(4) as u32;
    let mut dc: Vec<Scan> = partition(s, j).into_iter().map(|c| Scan { comps: c, ss: 0, se: 0, ah: 0, al }).collect();
    let mut refine = vec![];
    let mut a = al;
    while a > 0 {
        for c in partition(s, j) {
            refine.push(Scan { comps: c, ss: 0, se: 0, ah: a, al: a - 1 });
        }
        a -= 1;
    }
    let mut first = std::mem::take(&mut dc);
    queues.push(refine);
    for c in 0..j.comps.len() {
        let mut lo = 1;
        while lo <= 63 {
            let hi = match s.below(4) {
                0 => 63,
                1 => (lo + s.below(4) as usize).min(63),
                2 => (lo + s.below(16) as usize).min(63),
                _ => (lo + s.below(63) as usize).min(63),
            };
            let al = s.below(4) as u32;
            let mut q = vec![Scan { comps: vec![c], ss: lo, se: hi, ah: 0, al }];
            let mut a = al;
            let mut pieces = vec![(lo, hi)];
            while a > 0 {
                // the bands of a refinement may be cut differently, as long as each was sent before
                if s.chance(1, 4) {
                    let mut np = vec![];
                    for (l, h) in pieces {
                        if h > l && s.bool() {
                            let m = l + s.below((h - l) as u64) as usize;
                            np.push((l, m));
                            np.push((m + 1, h));
                        } else {
                            np.push((l, h));
                        }
                    }
                    pieces = np;
                }
                for &(l, h) in &pieces {
                    q.push(Scan { comps: vec![c], ss: l, se: h, ah: a, al: a - 1 });
                }
                a -= 1;
            }
            queues.push(q);
            lo = hi + 1;
            if queues.len() > 14 && lo <= 63 {
                queues.push(vec![Scan { comps: vec![c], ss: lo, se: 63, ah: 0, al: 0 }]);
                break;
            }
        }
    }
    let mut out = vec![];
    out.append(&mut first);
    // random merge keeping the order inside each queue
    let mut pos = vec![0; queues.len()];
    let in_order = s.chance(1, 3);
    loop {
        let alive: Vec<usize> = (0..queues.len()).filter(|&i| pos[i] < queues[i].len()).collect();
        if alive.is_empty() {
            break;
        }
        let i = if in_order { alive[0] } else { s.pick(&alive) };
        out.push(queues[i][pos[i]].clone());
        pos[i] += 1;
    }
    out
}

// ------------------------------------------------------------------ entropy coding

#[derive(Clone, Copy)]
enum Tok {
    /// class (0 DC, 1 AC), slot, symbol, extra bits
    Sym(u8, u8, u8),
    Bits(u32, u8),
    Rst(u8),
}

fn bits_of(v: i32) -> (u8, u32) {
    let a = v.unsigned_abs();
    let n = 32 - a.leading_zeros();
    let b = if v < 0 { (v - 1) as u32 & ((1u64 << n) as u32).wrapping_sub(1) } else { v as u32 };
    (n as u8, b)
}

fn seq_block(t: &mut Vec<Tok>, b: &[i32; 64], pred: &mut i32, dc: u8, ac: u8) {
    let (n, bits) = bits_of(b[0] - *pred);
    *pred = b[0];
    t.push(Tok::Sym(0, dc, n));
    t.push(Tok::Bits(bits, n));
    let mut r = 0;
    for k in 1..64 {
        if b[k] == 0 {
            r += 1;
            continue;
        }
        while r > 15 {
            t.push(Tok::Sym(1, ac, 0xF0));
            r -= 16;
        }
        let (n, bits) = bits_of(b[k]);
        t.push(Tok::Sym(1, ac, (r << 4) as u8 | n));
        t.push(Tok::Bits(bits, n));
        r = 0;
    }
    if r > 0 {
        t.push(Tok::Sym(1, ac, 0));
    }
}

struct Eob {
    run: u32,
    bits: Vec<u8>,
}

impl Eob {
    fn flush(&mut self, t: &mut Vec<Tok>, ac: u8) {
        if self.run > 0 {
            let n = 31 - self.run.leading_zeros();
            t.push(Tok::Sym(1, ac, (n << 4) as u8));
            t.push(Tok::Bits(self.run - (1 << n), n as u8));
            self.run = 0;
            for &b in &self.bits {
                t.push(Tok::Bits(b as u32, 1));
            }
            self.bits.clear();
        }
    }
}

fn ac_first(t: &mut Vec<Tok>, b: &[i32; 64], sc: &Scan, e: &mut Eob, ac: u8, cap: u32) {
    let mut r = 0;
    for k in sc.ss..=sc.se {
        let v = b[k];
        let a = v.abs() >> sc.al;
        if a == 0 {
            r += 1;
            continue;
        }
        e.flush(t, ac);
        while r > 15 {
            t.push(Tok::Sym(1, ac, 0xF0));
            r -= 16;
        }
        let (n, bits) = bits_of(if v < 0 { -a } else { a });
        t.push(Tok::Sym(1, ac, (r << 4) as u8 | n));
        t.push(Tok::Bits(bits, n));
        r = 0;
    }
    if r > 0 {
        e.run += 1;
        if e.run >= cap {
            e.flush(t, ac);
        }
    }
}

fn ac_refine(t: &mut Vec<Tok>, b: &[i32; 64], sc: &Scan, e: &mut Eob, ac: u8, cap: u32) {
    let mut eob = 0;
    for k in sc.ss..=sc.se {
        if b[k].abs() >> sc.al == 1 {
            eob = k;
        }
    }
    let mut r = 0;
    let mut br: Vec<u8> = vec![];
    for k in sc.ss..=sc.se {
        let a = b[k].abs() >> sc.al;
        if a == 0 {
            r += 1;
            continue;
        }
        while r > 15 && k <= eob {
            e.flush(t, ac);
            t.push(Tok::Sym(1, ac, 0xF0));
            r -= 16;
            for &x in &br {
                t.push(Tok::Bits(x as u32, 1));
            }
            br.clear();
        }
        if a > 1 {
            br.push((a & 1) as u8);
            continue;
        }
        e.flush(t, ac);
        t.push(Tok::Sym(1, ac, (r << 4) as u8 | 1));
        t.push(Tok::Bits((b[k] >= 0) as u32, 1));
        for &x in &br {
            t.push(Tok::Bits(x as u32, 1));
        }
        br.clear();
        r = 0;
    }
    if r > 0 || !br.is_empty() {
        e.run += 1;
        e.bits.extend(br);
        if e.run >= cap || e.bits.len() > 900 {
            e.flush(t, ac);
        }
    }
}

/// `slot_of(component)` gives (dc slot, ac slot)
fn scan_tokens(j: &Jpeg, sc: &Scan, restart: usize, progressive: bool, slot_of: &dyn Fn(usize) -> (u8, u8), cap: u32) -> Vec<Tok> {
    let mut t = vec![];
    let mut pred = [0i32; 4];
    let mut e = Eob { run: 0, bits: vec![] };
    let mut left = restart;
    let mut rst = 0u8;
    let single = sc.comps.len() == 1;
    let (mw, mh) = if single {
        let c = &j.comps[sc.comps[0]];
        (c.nx, c.ny)
    } else {
        (j.mx, j.my)
    };
    for my in 0..mh {
        for mx in 0..mw {
            if restart > 0 && left == 0 {
                e.flush(&mut t, slot_of(sc.comps[0]).1);
                t.push(Tok::Rst(rst));
                rst = (rst + 1) & 7;
                left = restart;
                pred = [0; 4];
            }
            left = left.wrapping_sub(1);
            for &ci in &sc.comps {
                let c = &j.comps[ci];
                let (dc, ac) = slot_of(ci);
                let (nh, nv) = if single { (1, 1) } else { (c.h, c.v) };
                for v in 0..nv {
                    for h in 0..nh {
                        let b = &c.blocks[(my * nv + v) * c.bx + mx * nh + h];
                        if !progressive {
                            seq_block(&mut t, b, &mut pred[ci], dc, ac);
                        } else if sc.ss == 0 {
                            if sc.ah == 0 {
                                let x = b[0] >> sc.al;
                                let (n, bits) = bits_of(x - pred[ci]);
                                pred[ci] = x;
                                t.push(Tok::Sym(0, dc, n));
                                t.push(Tok::Bits(bits, n));
                            } else {
                                t.push(Tok::Bits((b[0] >> sc.al) as u32 & 1, 1));
                            }
                        } else if sc.ah == 0 {
                            ac_first(&mut t, b, sc, &mut e, ac, cap);
                        } else {
                            ac_refine(&mut t, b, sc, &mut e, ac, cap);
                        }
                    }
                }
            }
        }
    }
    e.flush(&mut t, slot_of(sc.comps[0]).1);
    t
}

#[derive(Clone, Default)]
struct Table {
    len: Vec<u8>,  // per symbol 0 = absent
    code: Vec<u16>,
    counts: [u8; 17],
    order: Vec<u8>,
}

fn make_table(s: &mut Src, freq: &[u64; 256], dc: bool) -> Table {
    let mut syms: Vec<u8> = (0..256).filter(|&i| freq[i] > 0).map(|i| i as u8).collect();
    // unused symbols may be present too
    if s.chance(1, 3) {
        let extra = s.below(if dc { 4 } else { 40 });
        for _ in 0..extra {
            let x = if dc {
                s.below(12) as u8
            } else {
                let r = s.below(16) as u8;
                (r << 4) | (1 + s.below(10) as u8)
            };
            if !syms.contains(&x) {
                syms.push(x);
            }
        }
    }
    if syms.is_empty() {
        syms.push(0);
    }
    match s.below(3) {
        0 => syms.sort_by_key(|&x| std::cmp::Reverse(freq[x as usize])),
        1 => {}
        _ => {
            for i in (1..syms.len()).rev() {
                let k = s.below(i as u64 + 1) as usize;
                syms.swap(i, k);
            }
        }
    }
    let n = syms.len();
    // lengths in non-decreasing order; the sum of 2^(16-l) must stay below 2^16
    let mut lens: Vec<u32> = vec![];
    let minimal = usize::BITS - n.leading_zeros(); // 2^minimal > n
    lens.resize(n, minimal.max(1));
    let style = s.below(3);
    if style > 0 && n > 1 {
        let mut used: u32 = lens.iter().map(|&l| 1u32 << (16 - l)).sum();
        let mut r = s.rng();
        for _ in 0..n * 6 {
            let i = r.below(n as u64) as usize;
            let bias = if style == 1 { n / 4 } else { n / 2 };
            if i > bias {
                if lens[i] < 16 {
                    used -= 1 << (16 - lens[i] - 1);
                    lens[i] += 1;
                }
            } else if lens[i] > 1 && used + (1 << (16 - lens[i])) < 1 << 16 {
                used += 1 << (16 - lens[i]);
                lens[i] -= 1;
            }
        }
        lens.sort();
    }
    // no code may be all ones
    let total: u32 = lens.iter().map(|&l| 1u32 << (16 - l)).sum();
    assert!(total < 1 << 16);
    if total > (1 << 16) - (1 << (16 - lens[n - 1])) {
        unreachable!();
    }
    let mut t = Table { len: vec![0; 256], code: vec![0; 256], ..Default::default() };
    let mut code = 0u32;
    let mut last = lens[0];
    for (i, &x) in syms.iter().enumerate() {
        code <<= lens[i] - last;
        last = lens[i];
        t.len[x as usize] = last as u8;
        t.code[x as usize] = code as u16;
        t.counts[last as usize] += 1;
        t.order.push(x);
        code += 1;
    }
    t
}

fn dht(class: u8, slot: u8, t: &Table) -> Vec<u8> {
    let mut v = vec![class << 4 | slot];
    v.extend(&t.counts[1..]);
    v.extend(&t.order);
    v
}

struct BitW {
    out: Vec<u8>,
    acc: u64,
    n: u32,
}

impl BitW {
    fn put(&mut self, v: u32, n: u32) {
        if n == 0 {
            return;
        }
        self.acc = self.acc << n | (v as u64 & ((1u64 << n) - 1));
        self.n += n;
        while self.n >= 8 {
            let b = (self.acc >> (self.n - 8)) as u8;
            self.out.push(b);
            if b == 0xFF {
                self.out.push(0);
            }
            self.n -= 8;
        }
    }
    fn align(&mut self) {
        if self.n > 0 {
            let k = 8 - self.n;
            self.put((1 << k) - 1, k);
        }
    }
}

pub fn segment(marker: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![0xFF, marker];
    v.extend(((body.len() + 2) as u16).to_be_bytes());
    v.extend(body);
    v
}

pub fn sof(j: &Jpeg, marker: u8) -> Vec<u8> {
    let mut b = vec![8];
    b.extend((j.h as u16).to_be_bytes());
    b.extend((j.w as u16).to_be_bytes());
    b.push(j.comps.len() as u8);
    for c in &j.comps {
        b.extend([c.id, (c.h << 4 | c.v) as u8, c.tq as u8]);
    }
    segment(marker, &b)
}

pub fn write(s: &mut Src, j: &Jpeg, e: &Enc) -> Vec<u8> {
    let progressive = e.sof == 0xC2;
    let mut slots = vec![];
    for _ in 0..j.comps.len() {
        slots.push((s.below(e.slots as u64) as u8, s.below(e.slots as u64) as u8));
    }
    let slot_of = |c: usize| slots[c];
    let cap = s.pick(&[0x7fffu32, 0x7fff, 1, 2, 7]);
    let toks: Vec<Vec<Tok>> = e.scans.iter().map(|sc| scan_tokens(j, sc, e.restart, progressive, &slot_of, cap)).collect();

    let mut out = vec![0xFF, 0xD8];
    if j.jfif {
        out.extend(segment(0xE0, b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0"));
    }
    let put_extra = |out: &mut Vec<u8>, slot: usize| {
        for (p, b) in &e.extra {
            if *p == slot {
                out.extend(b);
            }
        }
    };
    put_extra(&mut out, 0);
    if let Some(t) = j.adobe {
        let mut b = b"Adobe".to_vec();
        b.extend([0, 100, 0, 0, 0, 0, t]);
        out.extend(segment(0xEE, &b));
    }
    // quantisation tables: one segment or several
    let mut dqt = vec![];
    let one = s.bool();
    let mut acc = vec![];
    for (i, q) in j.qt.iter().enumerate() {
        if e.dqt16 || q.iter().any(|&v| v > 255) {
            acc.push(0x10 | i as u8);
            for v in q {
                acc.extend(v.to_be_bytes());
            }
        } else {
            acc.push(i as u8);
            acc.extend(q.iter().map(|&v| v as u8));
        }
        if !one {
            dqt.extend(segment(0xDB, &acc));
            acc.clear();
        }
    }
    if !acc.is_empty() {
        dqt.extend(segment(0xDB, &acc));
    }
    if !e.dqt_late {
        out.extend(&dqt);
    }
    let dri = segment(0xDD, &(e.restart as u16).to_be_bytes());
    if e.restart > 0 && !e.dri_late {
        out.extend(&dri);
    }
    put_extra(&mut out, 1);
    let mut head = sof(j, e.sof);
    if e.dqt_late {
        head.extend(&dqt);
    }
    if e.restart > 0 && e.dri_late {
        head.extend(&dri);
    }
    let early = e.dht_early && e.shared;
    if !early {
        out.extend(&head);
        put_extra(&mut out, 2);
    }

    let count = |ts: &[&Vec<Tok>]| {
        let mut f = [[[0u64; 256]; 4]; 2];
        for t in ts {
            for k in t.iter() {
                if let Tok::Sym(c, sl, v) = *k {
                    f[c as usize][sl as usize][v as usize] += 1;
                }
            }
        }
        f
    };
    let mut tables: [[Option<Table>; 4]; 2] = Default::default();
    let all = count(&toks.iter().collect::<Vec<_>>());
    for (i, sc) in e.scans.iter().enumerate() {
        if i > 0 {
            put_extra(&mut out, 3);
        }
        let f = if e.shared { all } else { count(&[&toks[i]]) };
        if !e.shared || i == 0 {
            let one = s.bool();
            let mut acc = vec![];
            for class in 0..2 {
                for sl in 0..e.slots {
                    // sequential scans name both tables, progressive ones what they use
                    let used = if e.shared {
                        slots.iter().any(|x| [x.0, x.1][class] as usize == sl)
                    } else {
                        sc.comps.iter().any(|&c| [slots[c].0, slots[c].1][class] as usize == sl)
                    };
                    let none = f[class][sl].iter().all(|&x| x == 0);
                    if !used || (progressive && none && !(class == 0 && sc.ss == 0 && sc.ah == 0) && !s.chance(1, 8)) {
                        continue;
                    }
                    let t = make_table(s, &f[class][sl], class == 0);
                    acc.extend(dht(class as u8, sl as u8, &t));
                    tables[class][sl] = Some(t);
                    if !one {
                        out.extend(segment(0xC4, &acc));
                        acc.clear();
                    }
                }
            }
            if !acc.is_empty() {
                out.extend(segment(0xC4, &acc));
            }
        }
        if i == 0 && early {
            out.extend(&head);
            put_extra(&mut out, 2);
        }
        if e.fill {
            out.extend(vec![0xFF; s.below(4) as usize]);
        }
        let mut b = vec![sc.comps.len() as u8];
        for &c in &sc.comps {
            let (d, a) = slots[c];
            b.extend([j.comps[c].id, d << 4 | a]);
        }
        b.extend([sc.ss as u8, sc.se as u8, (sc.ah << 4 | sc.al) as u8]);
        out.extend(segment(0xDA, &b));
        let mut w = BitW { out: vec![], acc: 0, n: 0 };
        for t in &toks[i] {
            match *t {
                Tok::Sym(c, sl, v) => {
                    let tb = tables[c as usize][sl as usize].as_ref().unwrap();
                    assert!(tb.len[v as usize] > 0);
                    w.put(tb.code[v as usize] as u32, tb.len[v as usize] as u32);
                }
                Tok::Bits(v, n) => w.put(v, n as u32),
                Tok::Rst(n) => {
                    w.align();
                    if e.fill && s.chance(1, 8) {
                        w.out.push(0xFF);
                    }
                    w.out.extend([0xFF, 0xD0 + n]);
                }
            }
        }
        w.align();
        out.extend(w.out);
        if e.fill {
            out.extend(vec![0xFF; s.below(3) as usize]);
        }
    }
    if e.eoi {
        out.extend([0xFF, 0xD9]);
    }
    out
}

// ------------------------------------------------------------------ reference reconstruction

/// Sample planes (clamped to 0..=255 but not rounded), each bx*8 wide
pub fn planes(j: &Jpeg) -> Vec<(usize, usize, Vec<f64>)> {
    j.comps
        .iter()
        .map(|c| {
            let q = &j.qt[c.tq];
            let (w, h) = (c.bx * 8, c.by * 8);
            let mut p = vec![0.0; w * h];
            for by in 0..c.by {
                for bx in 0..c.bx {
                    let b = &c.blocks[by * c.bx + bx];
                    let mut f = [0.0; 64];
                    for z in 0..64 {
                        f[ZZ[z]] = b[z] as f64 * q[z] as f64;
                    }
                    let o = idct(&f);
                    for y in 0..8 {
                        for x in 0..8 {
                            p[(by * 8 + y) * w + bx * 8 + x] = (o[y * 8 + x] + 128.0).clamp(0.0, 255.0);
                        }
                    }
                }
            }
            (w, h, p)
        })
        .collect()
}

/// Blocks which no scan transmits are zero for every decoder
pub fn clear_padding(j: &mut Jpeg, e: &Enc) {
    for sc in &e.scans {
        if sc.comps.len() == 1 {
            let c = &mut j.comps[sc.comps[0]];
            for y in 0..c.by {
                for x in 0..c.bx {
                    if x >= c.nx || y >= c.ny {
                        c.blocks[y * c.bx + x] = [0; 64];
                    }
                }
            }
        }
    }
}
