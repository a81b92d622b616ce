//! PNG / APNG file builder and the pixels the specification assigns to it.
use crate::deflate as md;
use pbt::Src;

#[derive(Clone, Debug, PartialEq)]
pub enum Trns {
    None,
    Pal(Vec<u8>),
    Gray(u16),
    Rgb([u16; 3])
}

#[derive(Clone)]
pub struct Spec {
    pub w: usize,
    pub h: usize,
    pub color: u8,
    pub depth: u8,
    pub interlace: bool,
    /// raw samples (w*h*channels), each below 2^depth
    pub samples: Vec<u16>,
    pub palette: Vec<[u8; 3]>,
    pub trns: Trns
}

impl std::fmt::Debug for Spec {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}x{} colour type {} depth {} interlace {} palette {} trns {}", self.w, self.h, self.color, self.depth, self.interlace, self.palette.len(), match &self.trns {
            Trns::None => "none".to_string(),
            Trns::Pal(p) => format!("palette({})", p.len()),
            x => format!("{x:?}")
        })
    }
}

pub fn nch(color: u8) -> usize {
    match color {
        0 | 3 => 1,
        4 => 2,
        2 => 3,
        _ => 4
    }
}

#[derive(Clone, Debug)]
pub struct Chunk {
    pub ty: [u8; 4],
    pub data: Vec<u8>
}
pub fn ch(ty: &[u8; 4], data: Vec<u8>) -> Chunk {
    Chunk { ty: *ty, data }
}

pub const SIG: [u8; 8] = [137, 80, 78, 71, 13, 10, 26, 10];

pub fn write_chunk(out: &mut Vec<u8>, c: &Chunk) {
    out.extend((c.data.len() as u32).to_be_bytes());
    let p = out.len();
    out.extend(c.ty);
    out.extend(&c.data);
    let crc = md::crc32(&out[p..]);
    out.extend(crc.to_be_bytes());
}

pub fn write(chunks: &[Chunk]) -> Vec<u8> {
    let mut out = SIG.to_vec();
    for c in chunks {
        write_chunk(&mut out, c);
    }
    out
}

/// Samples of a w*h region.
pub fn gen_samples(s: &mut Src, n: usize, depth: u8, limit: u16) -> Vec<u16> {
    let max = if depth == 16 { 65535 } else { (1u16 << depth) - 1 };
    let max = max.min(limit);
    if depth == 16 {
        s.data16(n)
    } else {
        s.data(n).into_iter().map(|v| {
            let m = max as u32 + 1;
            (if m == 256 { v as u32 } else { (v as u32 ^ (v as u32 >> 4)) % m }) as u16
        }).collect()
    }
}

pub fn gen_spec(s: &mut Src, max_dim: usize) -> Spec {
    let (color, depth) = s.pick(&[(2u8, 8u8), (0, 1), (0, 2), (0, 4), (0, 8), (0, 16), (2, 16), (3, 1), (3, 2), (3, 4), (3, 8), (4, 8), (4, 16), (6, 8), (6, 16)]);
    let w = s.dim(max_dim);
    let h = s.dim(max_dim.min(64 * 64 * 4 / w + 1));
    let interlace = s.chance(1, 3);
    let mut palette = vec![];
    if color == 3 {
        let n = match s.below(3) {
            0 => 1usize << depth,
            _ => s.usize(1, 1 << depth)
        };
        let d = s.data(n * 3);
        palette = d.chunks(3).map(|c| [c[0], c[1], c[2]]).collect();
    } else if (color == 2 || color == 6) && s.chance(1, 8) {
        // a suggested palette has no influence on the pixels
        let n = s.usize(1, 256);
        let d = s.data(n * 3);
        palette = d.chunks(3).map(|c| [c[0], c[1], c[2]]).collect();
    }
    let limit = if color == 3 { palette.len() as u16 - 1 } else { u16::MAX };
    let samples = gen_samples(s, w * h * nch(color), depth, limit);
    let mut trns = Trns::None;
    if s.chance(2, 5) {
        let max = if depth == 16 { 65535u64 } else { (1 << depth) - 1 };
        let from_image = !s.chance(1, 4);
        let k = s.below((w * h) as u64) as usize;
        match color {
            0 => trns = Trns::Gray(if from_image { samples[k] } else { s.below(max + 1) as u16 }),
            2 => {
                trns = Trns::Rgb(if from_image { [samples[3 * k], samples[3 * k + 1], samples[3 * k + 2]] } else { [s.below(max + 1) as u16, s.below(max + 1) as u16, s.below(max + 1) as u16] })
            }
            3 => {
                let n = s.usize(1, palette.len());
                trns = Trns::Pal(s.data(n));
            }
            _ => {}
        }
    }
    Spec { w, h, color, depth, interlace, samples, palette, trns }
}

fn paeth(a: i32, b: i32, c: i32) -> i32 {
    let p = a + b - c;
    let (pa, pb, pc) = ((p - a).abs(), (p - b).abs(), (p - c).abs());
    if pa <= pb && pa <= pc {
        a
    } else if pb <= pc {
        b
    } else {
        c
    }
}

fn pack_row(row: &[u16], depth: u8) -> Vec<u8> {
    match depth {
        16 => row.iter().flat_map(|v| v.to_be_bytes()).collect(),
        8 => row.iter().map(|v| *v as u8).collect(),
        d => {
            let per = 8 / d as usize;
            row.chunks(per)
                .map(|c| {
                    let mut b = 0u8;
                    for (i, v) in c.iter().enumerate() {
                        b |= (*v as u8) << (8 - d as usize * (i + 1));
                    }
                    b
                })
                .collect()
        }
    }
}

/// How the scanlines of a file are filtered.
#[derive(Clone, Copy, Debug)]
pub enum Filters {
    One(u8),
    Random(u64),
    Cycle(u8)
}

pub fn gen_filters(s: &mut Src) -> Filters {
    match s.below(3) {
        0 => Filters::One(s.below(5) as u8),
        1 => Filters::Cycle(s.below(5) as u8),
        _ => Filters::Random(s.below(1 << 32))
    }
}

fn filter_rows(rows: &[Vec<u8>], bpp: usize, f: Filters, k: &mut usize, out: &mut Vec<u8>) {
    let mut r = match f {
        Filters::Random(x) => pbt::Rng::new(x.wrapping_add(*k as u64)),
        _ => pbt::Rng::new(0)
    };
    let mut prev = vec![0u8; rows.first().map_or(0, |x| x.len())];
    for row in rows {
        let ft = match f {
            Filters::One(x) => x,
            Filters::Cycle(x) => ((x as usize + *k) % 5) as u8,
            Filters::Random(_) => r.below(5) as u8
        };
        *k += 1;
        out.push(ft);
        for i in 0..row.len() {
            let a = if i >= bpp { row[i - bpp] as i32 } else { 0 };
            let b = prev[i] as i32;
            let c = if i >= bpp { prev[i - bpp] as i32 } else { 0 };
            let p = match ft {
                0 => 0,
                1 => a,
                2 => b,
                3 => (a + b) / 2,
                _ => paeth(a, b, c)
            };
            out.push((row[i] as i32 - p) as u8);
        }
        prev.clone_from(row);
    }
}

pub const ADAM7: [(usize, usize, usize, usize); 7] = [(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)];

/// The filtered scanlines (what the zlib stream of the image contains).
pub fn scanlines(f: Filters, samples: &[u16], w: usize, h: usize, color: u8, depth: u8, interlace: bool) -> Vec<u8> {
    let n = nch(color);
    let bpp = (n * depth as usize).div_ceil(8);
    let mut out = vec![];
    let mut k = 0;
    if !interlace {
        let rows: Vec<Vec<u8>> = (0..h).map(|y| pack_row(&samples[y * w * n..(y + 1) * w * n], depth)).collect();
        filter_rows(&rows, bpp, f, &mut k, &mut out);
    } else {
        for (x0, y0, dx, dy) in ADAM7 {
            if x0 >= w || y0 >= h {
                continue;
            }
            let mut rows = vec![];
            let mut y = y0;
            while y < h {
                let mut row = vec![];
                let mut x = x0;
                while x < w {
                    row.extend(&samples[(y * w + x) * n..(y * w + x + 1) * n]);
                    x += dx;
                }
                rows.push(pack_row(&row, depth));
                y += dy;
            }
            filter_rows(&rows, bpp, f, &mut k, &mut out);
        }
    }
    out
}

pub fn zlib(s: &mut Src, data: &[u8]) -> Vec<u8> {
    let st = if s.chance(1, 4) { md::stored(s, data) } else { md::deflate_of(s, data) };
    md::zlib_wrap(&st, data)
}

/// Cut `z` into consecutive pieces (some may be empty).
pub fn split(s: &mut Src, z: &[u8]) -> Vec<Vec<u8>> {
    let n = if s.bool() { 1 } else { s.usize(1, 6) };
    let mut cuts: Vec<usize> = (1..n).map(|_| s.usize(0, z.len())).collect();
    cuts.push(0);
    cuts.push(z.len());
    cuts.sort();
    cuts.windows(2).map(|c| z[c[0]..c[1]].to_vec()).collect()
}

pub fn ihdr(sp: &Spec) -> Chunk {
    let mut d = vec![];
    d.extend((sp.w as u32).to_be_bytes());
    d.extend((sp.h as u32).to_be_bytes());
    d.extend([sp.depth, sp.color, 0, 0, sp.interlace as u8]);
    ch(b"IHDR", d)
}
pub fn plte(sp: &Spec) -> Option<Chunk> {
    if sp.palette.is_empty() {
        None
    } else {
        Some(ch(b"PLTE", sp.palette.concat()))
    }
}
pub fn trns(sp: &Spec) -> Option<Chunk> {
    let d = match &sp.trns {
        Trns::None => return None,
        Trns::Pal(p) => p.clone(),
        Trns::Gray(g) => g.to_be_bytes().to_vec(),
        Trns::Rgb(c) => c.iter().flat_map(|v| v.to_be_bytes()).collect()
    };
    Some(ch(b"tRNS", d))
}

/// Chunk list of a plain file for `sp`.
pub fn chunks(s: &mut Src, sp: &Spec) -> Vec<Chunk> {
    let mut v = vec![ihdr(sp)];
    v.extend(plte(sp));
    v.extend(trns(sp));
    let f = gen_filters(s);
    let raw = scanlines(f, &sp.samples, sp.w, sp.h, sp.color, sp.depth, sp.interlace);
    let z = zlib(s, &raw);
    for p in split(s, &z) {
        v.push(ch(b"IDAT", p));
    }
    v.push(ch(b"IEND", vec![]));
    v
}

/// Number of output channels.
pub fn out_channels(sp: &Spec, add_alpha: bool) -> usize {
    let alpha = add_alpha || sp.trns != Trns::None;
    match sp.color {
        0 => 1 + alpha as usize,
        2 | 3 => 3 + alpha as usize,
        4 => 2,
        _ => 4
    }
}

/// The pixels (expanded to 8 bits when the depth is below 8, palette resolved, tRNS applied).
pub fn pixels(sp: &Spec, samples: &[u16], add_alpha: bool) -> Vec<u16> {
    let alpha = add_alpha || sp.trns != Trns::None;
    let max: u16 = if sp.depth == 16 { 65535 } else { 255 };
    let scale: u16 = match sp.depth {
        1 => 255,
        2 => 85,
        4 => 17,
        _ => 1
    };
    let mut out = vec![];
    match sp.color {
        0 => {
            for v in samples {
                out.push(v * scale);
                if alpha {
                    out.push(if sp.trns == Trns::Gray(*v) { 0 } else { max });
                }
            }
        }
        2 => {
            for c in samples.chunks(3) {
                out.extend(c);
                if alpha {
                    out.push(if sp.trns == Trns::Rgb([c[0], c[1], c[2]]) { 0 } else { max });
                }
            }
        }
        3 => {
            for v in samples {
                let e = sp.palette[*v as usize];
                out.extend(e.iter().map(|x| *x as u16));
                if alpha {
                    out.push(match &sp.trns {
                        Trns::Pal(t) => t.get(*v as usize).copied().unwrap_or(255) as u16,
                        _ => 255
                    });
                }
            }
        }
        _ => out.extend(samples)
    }
    out
}
