//! Totality of the JPEG decoder.
use crate::gen;
use models::io::Slow;
use models::jpeg as mj;
use models::mutate;
use pbt::{check, Ctx, Res, Src};
use std::io::{BufReader, Cursor};
use std::sync::OnceLock;
use zune_core::bytestream::{ZByteReaderTrait, ZCursor};
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_jpeg::JpegDecoder;

fn corpus() -> &'static Vec<Vec<u8>> {
    static S: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = models::io::seeds("/repo/fuzz-corpus/jpeg", 12_000);
        v.extend(models::io::seeds("/repo/test-images/jpeg", 12_000));
        v
    })
}

pub const SPACES: &[ColorSpace] = &[
    ColorSpace::RGB,
    ColorSpace::RGBA,
    ColorSpace::YCbCr,
    ColorSpace::Luma,
    ColorSpace::LumaA,
    ColorSpace::YCCK,
    ColorSpace::CMYK,
    ColorSpace::BGR,
    ColorSpace::BGRA,
    ColorSpace::ARGB,
    ColorSpace::HSL,
    ColorSpace::HSV,
    ColorSpace::Unknown,
    ColorSpace::MultiBand(std::num::NonZeroU32::new(2).unwrap()),
    ColorSpace::MultiBand(std::num::NonZeroU32::new(5).unwrap())
];

/// (marker, body incl. entropy data for SOS). Marker 0 = raw bytes
type Seg = (u8, Vec<u8>, Vec<u8>);

fn split(f: &[u8]) -> Vec<Seg> {
    let mut v = vec![];
    let mut p = 0;
    while p + 2 <= f.len() {
        if f[p] != 0xFF {
            v.push((0, vec![], f[p..].to_vec()));
            return v;
        }
        let m = f[p + 1];
        p += 2;
        if m == 0xD8 || m == 0xD9 || (0xD0..=0xD7).contains(&m) || m == 0xFF || m == 0 {
            v.push((m, vec![], vec![]));
            continue;
        }
        if p + 2 > f.len() {
            break;
        }
        let l = u16::from_be_bytes([f[p], f[p + 1]]) as usize;
        let e = (p + l.max(2)).min(f.len());
        let body = f[p + 2..e].to_vec();
        p = e;
        let mut data = vec![];
        if m == 0xDA {
            let q = (p..f.len().saturating_sub(1)).find(|&i| f[i] == 0xFF && f[i + 1] != 0 && !(0xD0..=0xD7).contains(&f[i + 1])).unwrap_or(f.len());
            data = f[p..q].to_vec();
            p = q;
        }
        v.push((m, body, data));
    }
    v
}

fn join(s: &mut Src, v: &[Seg]) -> Vec<u8> {
    let lies = s.chance(1, 8);
    let mut f = vec![];
    for (m, b, d) in v {
        if *m != 0 {
            f.extend([0xFF, *m]);
        }
        if *m != 0 && *m != 0xD8 && *m != 0xD9 && !(0xD0..=0xD7).contains(m) && *m != 0xFF {
            let mut l = b.len() + 2;
            if lies && s.chance(1, 3) {
                l = match s.below(3) {
                    0 => s.pick(&[0usize, 1, 2, 3, 4, 5, 6, 8, 16, 17, 18, 0xffff]),
                    1 => (l + s.usize(0, 8)).saturating_sub(4),
                    _ => s.usize(0, l + 100)
                };
            }
            f.extend((l.min(65535) as u16).to_be_bytes());
            f.extend(b);
        }
        f.extend(d);
    }
    f
}

fn damage(s: &mut Src, v: &mut Vec<Seg>) {
    let many = if s.bool() { 1 } else { s.usize(1, 5) };
    for _ in 0..many {
        if v.is_empty() {
            return;
        }
        let i = s.usize(0, v.len() - 1);
        // a particular kind of segment
        let want = s.pick(&[0xDAu8, 0xC4, 0xDB, 0xC0, 0xC2, 0xDD, 0xEE]);
        let idx: Vec<usize> = (0..v.len()).filter(|&k| v[k].0 == want).collect();
        let t = if idx.is_empty() { i } else { idx[s.usize(0, idx.len() - 1)] };
        let at = s.usize(1.min(v.len()), v.len());
        match s.below(19) {
            0 => {
                v.remove(i);
            }
            1 => {
                let c = v[t].clone();
                v.insert(at, c);
            }
            2 => {
                let k = s.usize(0, v.len() - 1);
                v.swap(i, k);
            }
            3 => {
                let n = s.usize(0, v[t].1.len());
                v[t].1.truncate(n);
            }
            4 => {
                let d = s.data(40);
                v[t].1.extend(d);
            }
            5 | 6 => {
                let mut d = std::mem::take(&mut v[t].1);
                mutate::edits(s, &mut d, 3);
                v[t].1 = d;
            }
            7 => {
                let mut d = std::mem::take(&mut v[t].2);
                if !d.is_empty() {
                    mutate::edits(s, &mut d, 4);
                }
                v[t].2 = d;
            }
            8 => {
                let n = s.usize(0, v[t].2.len());
                v[t].2.truncate(n);
            }
            9 => {
                // SOF fields
                if let Some(k) = v.iter().position(|x| (0xC0..=0xC2).contains(&x.0) && x.1.len() > 8) {
                    let n = v[k].1.len();
                    match s.below(6) {
                        0 => v[k].1[0] = s.pick(&[8, 12, 16, 0]),
                        1 => {
                            let d = s.pick(&[0u16, 1, 7, 8, 9, 16, 17, 1023, 1024, 1025, 65535]);
                            let o = s.pick(&[1usize, 3]);
                            v[k].1[o..o + 2].copy_from_slice(&d.to_be_bytes());
                        }
                        2 => v[k].1[5] = s.pick(&[0, 1, 2, 3, 4, 5, 255]),
                        3 => {
                            let c = s.usize(0, (n - 6) / 3 - 1);
                            v[k].1[6 + c * 3 + 1] = if s.bool() { s.byte() } else { (s.pick(&[1u8, 2, 3, 4]) << 4) | s.pick(&[1u8, 2, 3, 4]) };
                        }
                        4 => {
                            let c = s.usize(0, (n - 6) / 3 - 1);
                            v[k].1[6 + c * 3] = s.below(6) as u8;
                        }
                        _ => {
                            let c = s.usize(0, (n - 6) / 3 - 1);
                            v[k].1[6 + c * 3 + 2] = s.below(6) as u8;
                        }
                    }
                }
            }
            10 => {
                // SOS fields
                if let Some(k) = v.iter().position(|x| x.0 == 0xDA && x.1.len() >= 6) {
                    let n = v[k].1.len();
                    match s.below(5) {
                        0 => v[k].1[0] = s.pick(&[0, 1, 2, 3, 4, 5, 255]),
                        1 => v[k].1[n - 3] = s.pick(&[0, 1, 5, 63, 64, 255]),
                        2 => v[k].1[n - 2] = s.pick(&[0, 1, 5, 63, 64, 255]),
                        3 => v[k].1[n - 1] = s.byte(),
                        _ => {
                            let o = 1 + s.below(n as u64 - 4) as usize;
                            v[k].1[o] = s.pick(&[0, 1, 2, 3, 4, 0x11, 0x22, 0x33, 0x44, 0xff]);
                        }
                    }
                }
            }
            11 => {
                let b = s.pick(&[0u16, 1, 2, 3, 7, 100, 65535]).to_be_bytes().to_vec();
                v.insert(at, (0xDD, b, vec![]));
            }
            12 => {
                // quantisation tables, any values
                let id = s.below(5) as u8;
                let p = s.pick(&[0u8, 0, 1, 2]);
                let mut b = vec![(p << 4) | id];
                let hi = s.bool();
                for _ in 0..64 * (1 + p as usize) {
                    b.push(if hi { 0xff } else { s.byte() });
                }
                v.insert(at, (0xDB, b, vec![]));
            }
            13 => {
                // Huffman tables, any counts
                let mut b = vec![(s.below(3) as u8) << 4 | s.below(5) as u8];
                let mut n = 0;
                let mut room = 65536u64;
                let honest = s.bool();
                for l in 1..=16 {
                    room = if honest { room } else { u64::MAX };
                    let most = if honest { room >> (16 - l) } else { 255 };
                    let k = if s.bool() { 0 } else { s.below(most.min(60) + 1) };
                    room -= k << (16 - l);
                    b.push(k as u8);
                    n += k;
                }
                for _ in 0..n {
                    b.push(s.byte());
                }
                v.insert(at, (0xC4, b, vec![]));
            }
            14 => {
                let mut b = b"Adobe".to_vec();
                b.extend([0, 100, 0, 0, 0, 0, s.below(4) as u8]);
                if s.chance(1, 3) {
                    let n = s.usize(0, 14);
                    b.resize(n, 0);
                }
                v.insert(at, (0xEE, b, vec![]));
            }
            15 => {
                let mut b = match s.below(7) {
                    0 => b"Exif\0\0".to_vec(),
                    1 => b"http://ns.adobe.com/xap/1.0/\0".to_vec(),
                    2 => b"ICC_PROFILE\0".to_vec(),
                    3 => b"Photoshop 3.0\08BIM".to_vec(),
                    4 => b"JFIF\0".to_vec(),
                    5 => b"AVI1".to_vec(),
                    _ => s.data(30)
                };
                b.extend(s.data(40));
                if s.chance(1, 3) {
                    let n = s.usize(0, b.len());
                    b.truncate(n);
                }
                let m = 0xE0 + s.pick(&[0u8, 1, 2, 13, 14, 3, 12]);
                v.insert(at, (m, b, vec![]));
            }
            16 => {
                let m = s.pick(&[0xD8u8, 0xD9, 0xD0, 0xD3, 0xD7, 0xFF, 0xC0, 0xC1, 0xC2, 0xC3, 0xC8, 0xCC, 0xDC, 0xDE, 0xDF, 0xF0, 0xFD, 0x01, 0x02, 0xFE, 0xDA]);
                if s.bool() {
                    v[i].0 = m;
                } else {
                    let d = s.data(20);
                    v.insert(at, (m, d, vec![]));
                }
            }
            17 => {
                // raw bytes between segments
                let d = s.data(12);
                v.insert(at, (0, vec![], d));
            }
            _ => {
                // many copies
                if s.chance(1, 4) {
                    let c = v[t].clone();
                    for _ in 0..s.usize(1, 120) {
                        v.insert(t, c.clone());
                    }
                }
            }
        }
    }
}

pub fn input(s: &mut Src) -> Vec<u8> {
    let k = s.below(8);
    let mut file = if k == 0 && !corpus().is_empty() {
        let i = s.usize(0, corpus().len() - 1);
        corpus()[i].clone()
    } else {
        let max = s.pick(&[16u64, 40, 40, 90]);
        let mut j = if k <= 2 { gen::odd_frame(s, max) } else { gen::frame(s, max) };
        let e = gen::any_enc(s, &j);
        mj::clear_padding(&mut j, &e);
        mj::write(s, &j, &e)
    };
    match s.below(6) {
        // only entropy-coded data
        0 | 1 => {
            let mut v = split(&file);
            let idx: Vec<usize> = (0..v.len()).filter(|&k| v[k].0 == 0xDA && !v[k].2.is_empty()).collect();
            if !idx.is_empty() {
                for _ in 0..s.usize(1, 3) {
                    let k = idx[s.usize(0, idx.len() - 1)];
                    let mut d = std::mem::take(&mut v[k].2);
                    if !d.is_empty() {
                        mutate::edits(s, &mut d, 3);
                    }
                    v[k].2 = d;
                }
            }
            file.clear();
            for (m, b, d) in &v {
                if *m != 0 {
                    file.extend([0xFF, *m]);
                }
                if *m != 0 && *m != 0xD8 && *m != 0xD9 && !(0xD0..=0xD7).contains(m) && *m != 0xFF {
                    file.extend(((b.len() + 2) as u16).to_be_bytes());
                    file.extend(b);
                }
                file.extend(d);
            }
        }
        2..=4 => {
            let mut v = split(&file);
            damage(s, &mut v);
            file = join(s, &v);
        }
        _ => mutate::edits(s, &mut file, 6)
    }
    if s.chance(1, 5) {
        mutate::edits(s, &mut file, 3);
    }
    file
}

fn options(s: &mut Src, w: usize, h: usize) -> DecoderOptions {
    let cs = if s.chance(1, 3) { ColorSpace::RGB } else { s.pick(SPACES) };
    let scans = s.pick(&[0usize, 1, 2, 5, 100, 100, 64]);
    let mut o = DecoderOptions::default();
    if s.bool() {
        o = DecoderOptions::new_cmd();
    }
    o.jpeg_set_out_colorspace(cs).set_use_unsafe(s.bool()).set_strict_mode(s.bool()).jpeg_set_max_scans(scans).set_max_width(w).set_max_height(h)
}

fn drive<T: ZByteReaderTrait>(s: &mut Src, r: T, o: DecoderOptions, c: &mut Ctx) -> Res {
    let mut d = JpegDecoder::new_with_options(r, o);
    let mut ok = false;
    for _ in 0..s.usize(1, 5) {
        match s.below(7) {
            0 => {
                let _ = d.decode_headers();
            }
            1 | 2 => {
                if let Ok(p) = d.decode() {
                    ok = true;
                    check!(Some(p.len()) == d.output_buffer_size(), "length differs from the announced size", "{} vs {:?}", p.len(), d.output_buffer_size());
                }
            }
            3 => {
                let _ = d.decode_headers();
                if let Some(k) = d.output_buffer_size() {
                    let k = match s.below(4) {
                        0 => s.usize(0, k),
                        1 => k + s.usize(0, 40),
                        _ => k
                    };
                    let mut b = vec![0; k];
                    if d.decode_into(&mut b).is_ok() {
                        ok = true;
                    }
                }
            }
            4 | 5 => {
                let _ = (d.info(), d.output_buffer_size(), d.input_colorspace(), d.output_colorspace(), d.dimensions());
                let _ = (d.exif().map(|x| x.len()), d.icc_profile().map(|x| x.len()), d.xmp().map(|x| x.len()), d.iptc().map(|x| x.len()));
            }
            _ => {
                let q = options(s, o.max_width(), o.max_height());
                d.set_options(q);
            }
        }
    }
    if ok {
        c.label("decodes");
    }
    if d.info().is_some() {
        c.nontrivial();
    }
    if let Some((w, h)) = d.dimensions() {
        check!(w <= o.max_width() && h <= o.max_height(), "dimension limits ignored", "{w}x{h}");
    }
    Ok(())
}

pub fn total(s: &mut Src, c: &mut Ctx) -> Res {
    let file = input(s);
    let (w, h) = if s.chance(1, 8) { (s.usize(0, 64), s.usize(0, 64)) } else { s.pick(&[(128, 128), (128, 128), (1024, 200), (200, 1024), (1024, 1024)]) };
    let o = options(s, w, h);
    c.artifact("input.jpg", &file);
    c.note(format!("{} bytes; out {:?} strict {} intrinsics {} scans {} limits {w}x{h}", file.len(), o.jpeg_get_out_colorspace(), o.strict_mode(), o.use_unsafe(), o.jpeg_get_max_scans()));
    let kind = s.below(5);
    let step = s.usize(1, 64);
    pbt::mem::reset();
    let r = match kind {
        0 | 1 => drive(s, ZCursor::new(&file), o, c),
        2 => drive(s, BufReader::with_capacity(step, Cursor::new(&file)), o, c),
        3 => drive(s, Slow::new(&file, step), o, c),
        _ => {
            if let Ok(i) = zune_image::image::Image::read(ZCursor::new(&file), o) {
                c.label("decodes");
                c.nontrivial();
                let _ = i.flatten_to_u8();
            }
            Ok(())
        }
    };
    let peak = pbt::mem::peak();
    let bound = (16 << 20) + 128 * (w * h) as u64 + 40 * file.len() as u64;
    check!(peak <= bound, "memory beyond the configured limits", "{peak} bytes at the peak, bound {bound}");
    r
}
