use models::io::Slow;
use pbt::Src;
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::ColorSpace;
use zune_core::options::EncoderOptions;

/// interleaved pixels with runs, repeated colours and small differences
pub fn pixels(s: &mut Src, n: usize, nc: usize) -> Vec<u8> {
    let kind = s.below(4);
    if kind == 0 {
        return s.data(n * nc);
    }
    let mut r = s.rng();
    let k = s.pick(&[2u64, 4, 20, 63, 64, 65, 100]);
    let pal: Vec<Vec<u8>> = (0..k)
        .map(|_| (0..nc).map(|_| if r.below(4) == 0 { [0u8, 255, 1, 254][r.below(4) as usize] } else { r.byte() }).collect())
        .collect();
    let run = s.pick(&[1u64, 3, 70, 200]);
    let spread = s.pick(&[2u64, 4, 16, 32, 64]) as i64;
    let mut cur = pal[0].clone();
    if r.below(2) == 0 {
        cur = vec![0; nc];
        if nc == 4 {
            cur[3] = 255;
        }
    }
    let mut out = Vec::with_capacity(n * nc);
    while out.len() < n * nc {
        let len = 1 + if r.below(3) == 0 { r.below(run) as usize } else { 0 };
        for _ in 0..len {
            if out.len() < n * nc {
                out.extend(&cur);
            }
        }
        match r.below(if kind == 1 { 2 } else { 6 }) {
            0 => cur = pal[r.below(k) as usize].clone(),
            1 => {
                let g = r.below(2 * spread as u64) as i64 - spread;
                for (i, c) in cur.iter_mut().enumerate() {
                    if i < 3 {
                        *c = c.wrapping_add((g + r.below(20) as i64 - 10) as u8);
                    }
                }
            }
            2 => {
                for (i, c) in cur.iter_mut().enumerate() {
                    if i < 3 {
                        *c = c.wrapping_add((r.below(5) as i64 - 2) as u8);
                    }
                }
            }
            3 => {
                if nc == 4 {
                    cur[3] = r.byte();
                }
            }
            4 => cur.iter_mut().for_each(|c| *c = r.byte()),
            _ => {
                let i = r.below(nc as u64) as usize;
                cur[i] = r.byte()
            }
        }
    }
    out
}

pub fn eopts(w: usize, h: usize, cs: ColorSpace, d: BitDepth) -> EncoderOptions {
    EncoderOptions::new(w, h, cs, d)
}

pub fn ne16(v: &[u16]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_ne_bytes()).collect()
}

pub fn nef(v: &[f32]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_ne_bytes()).collect()
}

pub fn slow(s: &mut Src, d: &[u8]) -> Slow {
    let step = s.pick(&[1usize, 2, 3, 7, 64, 4096]);
    Slow::new(d, step)
}
