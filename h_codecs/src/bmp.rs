//! C16: BMP
use pbt::{check, fail, Ctx, Res, Rng, Src};
use zune_bmp::BmpDecoder;
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;

pub struct Bmp {
    pub file: Vec<u8>,
    pub w: usize,
    pub h: usize,
    pub cs: ColorSpace,
    /// expected samples; None where the file leaves the pixel undefined
    pub want: Vec<Option<u8>>,
    /// 1 where bit-field scaling may round either way
    pub tol: u8,
    pub icc: Option<Vec<u8>>,
    /// the colour space's end points
    pub prim: Option<[f64; 9]>,
    pub about: String
}

fn le16(v: &mut Vec<u8>, x: usize) {
    v.extend((x as u16).to_le_bytes())
}

fn le32(v: &mut Vec<u8>, x: u32) {
    v.extend(x.to_le_bytes())
}

/// encodes rows of indices (bottom row first); returns data and which pixels it defines
fn rle(r: &mut Rng, rows: &[Vec<u8>], w: usize, four: bool, jumps: bool) -> (Vec<u8>, Vec<Vec<bool>>) {
    let h = rows.len();
    let mut def = vec![vec![false; w]; h];
    let mut v = vec![];
    let (mut x, mut y) = (0usize, 0usize);
    loop {
        if x == w || (jumps && r.below(20) == 0) {
            // end of line
            if y + 1 == h {
                if r.below(2) == 0 {
                    v.extend([0, 0]);
                }
                break;
            }
            v.extend([0, 0]);
            y += 1;
            x = 0;
            continue;
        }
        if jumps && r.below(15) == 0 {
            let dx = r.below((w - x + 1).min(256) as u64) as usize;
            let dy = r.below((h - y).min(256) as u64) as usize;
            v.extend([0, 2, dx as u8, dy as u8]);
            x += dx;
            y += dy;
            continue;
        }
        if jumps && r.below(200) == 0 {
            break;
        }
        let row = &rows[y];
        let left = w - x;
        let period = |n: usize| (0..n).all(|i| row[x + i] == row[x + (i & 1)]);
        let same = |n: usize| (0..n).all(|i| row[x + i] == row[x]);
        let mut run = 1;
        while run < left.min(255) && (if four { period(run + 1) } else { same(run + 1) }) {
            run += 1;
        }
        if left >= 3 && (run < 3 || r.below(4) == 0) {
            let n = 3 + r.below((left.min(255) - 2) as u64) as usize;
            let n = if r.below(2) == 0 { n } else { n.min(3 + r.below(6) as usize) };
            v.extend([0, n as u8]);
            let mut bytes: Vec<u8> = if four {
                row[x..x + n].chunks(2).map(|c| c[0] << 4 | c.get(1).copied().unwrap_or(0)).collect()
            } else {
                row[x..x + n].to_vec()
            };
            if bytes.len() & 1 == 1 {
                bytes.push(0);
            }
            v.extend(bytes);
            def[y][x..x + n].fill(true);
            x += n;
        } else {
            let n = if r.below(3) == 0 { 1 + r.below(run as u64) as usize } else { run };
            let b = if four { row[x] << 4 | row[x + (n > 1) as usize] } else { row[x] };
            v.extend([n as u8, b]);
            def[y][x..x + n].fill(true);
            x += n;
        }
    }
    v.extend([0, 1]);
    (v, def)
}

fn masks(s: &mut Src, bpp: u32, alpha: bool) -> [u32; 4] {
    if s.chance(1, 3) {
        let m = if bpp == 16 {
            s.pick(&[[0xf800u32, 0x7e0, 0x1f, 0], [0x7c00, 0x3e0, 0x1f, 0], [0xf00, 0xf0, 0xf, 0], [0xf00, 0xf0, 0xf, 0xf000], [0x7c00, 0x3e0, 0x1f, 0x8000]])
        } else {
            s.pick(&[[0xff0000u32, 0xff00, 0xff, 0], [0xff, 0xff00, 0xff0000, 0xff000000], [0xff000000, 0xff0000, 0xff00, 0xff], [0xff0000, 0xff00, 0xff, 0xff000000], [0x3ff00000, 0xffc00, 0x3ff, 0]])
        };
        return if alpha || m[3] == 0 { m } else { [m[0], m[1], m[2], 0] };
    }
    let n = if alpha { 4 } else { 3 };
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = s.usize(0, i);
        order.swap(i, j);
    }
    let mut out = [0u32; 4];
    let mut at = 0u32;
    for (k, i) in order.iter().enumerate() {
        let rest = (n - 1 - k) as u32;
        let room = bpp - at - rest;
        let gap = s.usize(0, (room as usize - 1).min(3)) as u32 * s.below(2) as u32;
        let room = room - gap;
        let len = if s.chance(1, 8) { s.usize(1, room as usize) as u32 } else { s.usize(1, room.min(9) as usize) as u32 };
        at += gap;
        out[*i] = (((1u64 << len) - 1) << at) as u32;
        at += len;
    }
    out
}

fn scale(v: u32, m: u32) -> u8 {
    let top = (m >> m.trailing_zeros()) as u64;
    let x = ((v & m) >> m.trailing_zeros()) as u64;
    ((x * 255 * 2 + top) / (2 * top)) as u8
}

pub fn file(s: &mut Src, max: usize) -> Bmp {
    let (w, h) = (s.dim(max), s.dim(max));
    let ih = s.pick(&[40usize, 40, 40, 12, 16, 52, 56, 64, 108, 124, 124]);
    let bpp = if ih == 12 { s.pick(&[1usize, 4, 8, 24]) } else if ih == 16 || ih == 64 { s.pick(&[1usize, 4, 8, 24]) } else { s.pick(&[1usize, 2, 4, 8, 8, 16, 16, 24, 32, 32]) };
    let mut comp = 0;
    if ih >= 40 {
        if (bpp == 4 || bpp == 8) && s.chance(2, 5) {
            comp = if bpp == 4 { 2 } else { 1 };
        }
        if (bpp == 16 || bpp == 32) && ih != 64 && s.chance(2, 3) {
            comp = 3;
        }
    }
    let topdown = ih >= 40 && comp != 1 && comp != 2 && s.chance(1, 3);
    let mut r = s.rng();
    // palette
    let full = 1usize << bpp.min(8);
    let gray = bpp == 8 && comp == 0 && ih != 12 && s.chance(1, 10);
    let ncol = if gray { 0 } else if bpp <= 8 {
        // only headers with a colour count, or any header through the data offset, allow fewer
        match s.below(3) {
            0 if ih != 16 => s.usize(1, full),
            _ => full
        }
    } else if ih >= 40 && s.chance(1, 8) {
        s.usize(1, 20)
    } else {
        0
    };
    let pal: Vec<[u8; 3]> = (0..ncol).map(|_| [r.byte(), r.byte(), r.byte()]).collect();
    let used = if gray { 0 } else if bpp <= 8 { if ncol == full && s.bool() { 0 } else { ncol } } else { ncol };
    let alpha_ok = ih >= 56 && ih != 64;
    let with_alpha = alpha_ok && s.bool();
    let m = if comp == 3 { masks(s, bpp as u32, with_alpha) } else if bpp == 16 { [0x7c00, 0x3e0, 0x1f, 0] } else { [0xff0000, 0xff00, 0xff, 0] };
    let icc: Option<Vec<u8>> = if ih == 124 && s.chance(1, 3) {
        let n = s.usize(1, 300);
        Some(s.data(n))
    } else {
        None
    };
    // pixels
    let cs;
    let mut want: Vec<Option<u8>> = vec![];
    let mut rows: Vec<Vec<u8>> = vec![]; // file order, unpadded
    let mut data = vec![];
    let order: Vec<usize> = if topdown { (0..h).collect() } else { (0..h).rev().collect() };
    if bpp <= 8 {
        let raw = s.data(w * h);
        let k = if gray { 256 } else { ncol };
        let idx: Vec<u8> = raw.iter().map(|b| (*b as usize % k) as u8).collect();
        cs = if gray { ColorSpace::Luma } else { ColorSpace::RGB };
        let file_rows: Vec<Vec<u8>> = order.iter().map(|y| idx[y * w..(y + 1) * w].to_vec()).collect();
        let mut def = vec![vec![true; w]; h];
        if comp != 0 {
            let jumps = s.bool();
            let (d, df) = rle(&mut r, &file_rows, w, comp == 2, jumps);
            data = d;
            def = df;
        } else {
            for fr in &file_rows {
                let mut row = vec![0u8; (w * bpp).div_ceil(8)];
                for (x, v) in fr.iter().enumerate() {
                    let bit = x * bpp;
                    row[bit / 8] |= v << (8 - bpp - bit % 8);
                }
                rows.push(row);
            }
        }
        for y in 0..h {
            let fy = order.iter().position(|o| *o == y).unwrap();
            for x in 0..w {
                let v = idx[y * w + x];
                if gray {
                    want.push(Some(v));
                } else {
                    let d = def[fy][x];
                    want.extend(pal[v as usize].iter().map(|c| if d { Some(*c) } else { None }));
                }
            }
        }
    } else {
        let nb = bpp / 8;
        let raw = s.data(w * h * nb);
        let rgba = bpp == 32 || comp == 3;
        cs = if rgba { ColorSpace::RGBA } else { ColorSpace::RGB };
        for px in raw.chunks_exact(nb) {
            let mut b = [0u8; 4];
            b[..nb].copy_from_slice(px);
            let v = u32::from_le_bytes(b);
            for k in 0..3 {
                want.push(Some(scale(v, m[k])));
            }
            if rgba {
                want.push(Some(if comp == 3 && m[3] != 0 { scale(v, m[3]) } else { 255 }));
            }
        }
        for y in &order {
            rows.push(raw[y * w * nb..(y + 1) * w * nb].to_vec());
        }
    }
    let junk = s.bool();
    for row in &rows {
        data.extend(row);
        for _ in 0..row.len().next_multiple_of(4) - row.len() {
            data.push(if junk { r.byte() } else { 0 });
        }
    }
    // header
    let entry = if ih == 12 { 3 } else { 4 };
    let after_masks = if ih == 40 && comp == 3 { 12 } else { 0 };
    let gap = if gray || s.bool() { 0 } else { s.usize(0, 30) };
    let off = 14 + ih + after_masks + ncol * entry + gap;
    let mut v = b"BM".to_vec();
    let tail_at = off + data.len();
    let iccn = icc.as_ref().map_or(0, |i| i.len());
    le32(&mut v, (tail_at + iccn) as u32);
    le32(&mut v, 0);
    le32(&mut v, off as u32);
    le32(&mut v, ih as u32);
    if ih == 12 {
        le16(&mut v, w);
        le16(&mut v, h);
    } else {
        le32(&mut v, w as u32);
        le32(&mut v, if topdown { -(h as i32) as u32 } else { h as u32 });
    }
    le16(&mut v, 1);
    le16(&mut v, bpp);
    if ih >= 40 {
        le32(&mut v, comp);
        le32(&mut v, if s.bool() { data.len() as u32 } else if comp == 0 { 0 } else { data.len() as u32 });
        le32(&mut v, 2835);
        le32(&mut v, 2835);
        le32(&mut v, used as u32);
        le32(&mut v, 0);
    }
    if after_masks > 0 || (ih >= 52 && ih != 64) {
        let stale = comp != 3 && s.bool();
        for k in 0..3 {
            le32(&mut v, if comp == 3 { m[k] } else if stale { r.next() as u32 } else { 0 });
        }
        if ih >= 56 {
            le32(&mut v, if comp == 3 { m[3] } else if stale { r.next() as u32 } else { 0 });
        }
    }
    let mut prim = None;
    if ih >= 108 {
        le32(&mut v, if icc.is_some() { 0x4D424544 } else { s.pick(&[0u32, 0x73524742, 0x57696e20]) });
        let at = v.len();
        for _ in 0..12 {
            le32(&mut v, r.below(1 << 30) as u32);
        }
        prim = Some(std::array::from_fn(|k| u32::from_le_bytes(v[at + 4 * k..at + 4 * k + 4].try_into().unwrap()) as f64 / (1 << 30) as f64));
    }
    if ih == 124 {
        le32(&mut v, s.pick(&[0u32, 1, 2, 4, 8]));
        le32(&mut v, if icc.is_some() { (tail_at - 14) as u32 } else { 0 });
        le32(&mut v, iccn as u32);
        le32(&mut v, 0);
    }
    if ih == 64 {
        v.extend((0..24).map(|_| r.byte()));
    }
    debug_assert_eq!(v.len(), 14 + ih + after_masks);
    for p in &pal {
        v.extend([p[2], p[1], p[0]]);
        if entry == 4 {
            v.push(if junk { r.byte() } else { 0 });
        }
    }
    v.extend((0..gap).map(|_| r.byte()));
    v.extend(data);
    if let Some(i) = &icc {
        v.extend(i);
    }
    let about = format!("{w}x{h} header {ih} bpp {bpp} compression {comp} colours {ncol} topdown {topdown} gap {gap} masks {m:x?}");
    Bmp { file: v, w, h, cs, want, tol: (comp == 3 || bpp == 16) as u8, icc, prim, about }
}

pub fn decode(s: &mut Src, c: &mut Ctx) -> Res {
    let mut b = file(s, 70);
    c.note(b.about.clone());
    c.artifact("input.bmp", &b.file);
    if b.w * b.h > 1 {
        c.nontrivial();
    }
    let t: Vec<&str> = b.about.split(' ').collect();
    c.label(format!("bpp {} compression {}", t[4], t[6]));
    let o = DecoderOptions::default().set_strict_mode(s.bool());
    let data = std::mem::take(&mut b.file);
    let mut d = BmpDecoder::new_with_options(ZCursor::new(&data), o);
    let nc = b.cs.num_components();
    // blue first, as stored
    let bgr = s.chance(1, 4);
    if bgr {
        d.preserve_bgra(true);
        if nc >= 3 {
            b.want.chunks_exact_mut(nc).for_each(|p| p.swap(0, 2));
            b.cs = if nc == 3 { ColorSpace::BGR } else { ColorSpace::BGRA };
            c.label("blue first");
        }
    }
    let into = s.chance(1, 3);
    if s.bool() {
        if let Err(e) = d.decode_headers() {
            return fail("valid header rejected", format!("{e:?}"));
        }
        check!(d.output_buf_size() == Some(b.w * b.h * nc), "output_buf_size wrong", "{:?}", d.output_buf_size());
    }
    let r = if into {
        let mut v = vec![7; b.w * b.h * nc];
        d.decode_into(&mut v).map(|_| v)
    } else {
        d.decode()
    };
    let got = match r {
        Ok(v) => v,
        Err(e) => return fail("valid file rejected", format!("{e:?}"))
    };
    check!(d.dimensions() == Some((b.w, b.h)), "wrong dimensions", "{:?}", d.dimensions());
    check!(d.colorspace() == Some(b.cs) && d.depth() == BitDepth::Eight, "wrong colourspace", "{:?} instead of {:?}", d.colorspace(), b.cs);
    check!(got.len() == b.want.len(), "wrong size", "{} instead of {}", got.len(), b.want.len());
    for (i, (g, w)) in got.iter().zip(&b.want).enumerate() {
        if let Some(w) = w {
            let exact = *w == 0 || *w == 255 || b.tol == 0;
            let ok = if exact { g == w || (b.tol > 0 && g.abs_diff(*w) <= 1 && *w != 0 && *w != 255) } else { g.abs_diff(*w) <= 1 };
            check!(ok, "wrong pixels", "pixel ({}, {}) component {}: {g} instead of {w}", i / nc % b.w, i / nc / b.w, i % nc);
        }
    }
    let prim = d.color_primaries().map(|p| [p.red.x, p.red.y, p.red.z, p.green.x, p.green.y, p.green.z, p.blue.x, p.blue.y, p.blue.z]);
    check!(prim == b.prim, "wrong primaries", "{prim:?} instead of {:?}", b.prim);
    check!(d.icc_profile() == b.icc.as_ref(), "wrong ICC profile", "{:?} instead of {:?}", d.icc_profile().map(|x| x.len()), b.icc.as_ref().map(|x| x.len()));
    Ok(())
}
