//! Totality of the PNG decoder.
use models::io::Slow;
use models::mutate;
use models::png as mp;
use pbt::{check, fail, Ctx, Res, Src};
use std::io::{BufReader, Cursor};
use std::sync::OnceLock;
use zune_core::bytestream::{ZByteReaderTrait, ZCursor};
use zune_core::options::DecoderOptions;
use zune_core::result::DecodingResult;
use zune_png::{post_process_image, PngDecoder};

fn corpus() -> &'static Vec<Vec<u8>> {
    static S: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = models::io::seeds("/repo/fuzz-corpus/png", 20_000);
        v.extend(models::io::seeds("/repo/test-images/png", 20_000));
        v
    })
}

fn bomb(s: &mut Src) -> Vec<u8> {
    use std::io::Write;
    let n = s.usize(1, 24) << 20;
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::fast());
    let z = vec![0u8; 1 << 20];
    for _ in 0..n >> 20 {
        e.write_all(&z).unwrap();
    }
    e.finish().unwrap()
}

fn interesting(s: &mut Src, w: usize) -> u32 {
    match s.below(6) {
        0 => s.pick(&[0u32, 1, 2, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 16384, 16385, 65535, 65536, 0xffff_fffe]),
        1 => s.usize(0, 2 * w) as u32,
        _ => s.usize(0, w) as u32
    }
}

/// chunk-level damage
fn damage_chunks(s: &mut Src, v: &mut Vec<mp::Chunk>, w: usize) {
    for _ in 0..s.usize(1, 5) {
        if v.is_empty() {
            return;
        }
        let i = s.usize(0, v.len() - 1);
        match s.below(16) {
            0 => {
                v.remove(i);
            }
            1 => {
                let c = v[i].clone();
                let p = s.usize(0, v.len());
                v.insert(p, c);
            }
            2 => {
                let j = s.usize(0, v.len() - 1);
                v.swap(i, j);
            }
            3 => {
                let n = s.usize(0, v[i].data.len());
                v[i].data.truncate(n);
            }
            4 => {
                let n = s.usize(1, 40);
                let d = s.data(n);
                v[i].data.extend(d);
            }
            5 => {
                let mut d = std::mem::take(&mut v[i].data);
                mutate::edits(s, &mut d, 3);
                v[i].data = d;
            }
            6 => {
                // palette
                let n = match s.below(3) {
                    0 => s.usize(0, 900),
                    1 => 3 * s.usize(0, 300),
                    _ => 3 * s.usize(0, 8)
                };
                let d = s.data(n);
                let p = s.usize(1.min(v.len()), v.len());
                v.insert(p, mp::ch(b"PLTE", d));
            }
            7 => {
                let n = s.usize(0, 300);
                let n = if s.bool() { n } else { s.pick(&[0, 1, 2, 3, 5, 6, 7, 256, 257]) };
                let d = s.data(n);
                let p = s.usize(1.min(v.len()), v.len());
                v.insert(p, mp::ch(b"tRNS", d));
            }
            8 => {
                let mut d = interesting(s, 3).to_be_bytes().to_vec();
                d.extend(interesting(s, 3).to_be_bytes());
                if s.chance(1, 4) {
                    let n = s.usize(0, 12);
                    d.resize(n, 0);
                }
                let p = s.usize(1.min(v.len()), v.len());
                v.insert(p, mp::ch(b"acTL", d));
            }
            9 => {
                let mut d = interesting(s, 4).to_be_bytes().to_vec();
                for _ in 0..4 {
                    d.extend(interesting(s, w).to_be_bytes());
                }
                d.extend([0, 1, 0, 2, s.below(4) as u8, s.below(3) as u8]);
                let p = s.usize(1.min(v.len()), v.len());
                v.insert(p, mp::ch(b"fcTL", d));
            }
            10 => {
                let mut d = vec![0, 0, 0, s.byte()];
                let n = s.usize(0, 30);
                d.extend(s.data(n));
                if s.chance(1, 4) {
                    let n = s.usize(0, 5);
                    d.truncate(n);
                }
                let p = s.usize(1.min(v.len()), v.len());
                v.insert(p, mp::ch(b"fdAT", d));
            }
            11 => {
                // header fields
                if let Some(h) = v.iter_mut().find(|c| c.ty == *b"IHDR" && c.data.len() == 13) {
                    match s.below(6) {
                        0 => {
                            let x = interesting(s, w);
                            h.data[0..4].copy_from_slice(&x.to_be_bytes());
                        }
                        1 => {
                            let x = interesting(s, w);
                            h.data[4..8].copy_from_slice(&x.to_be_bytes());
                        }
                        2 => h.data[8] = s.pick(&[1, 2, 4, 8, 16, 0, 3, 32]),
                        3 => h.data[9] = s.pick(&[0, 2, 3, 4, 6, 1, 5, 7]),
                        4 => h.data[12] = s.pick(&[0, 1, 2]),
                        _ => h.data[10 + s.below(2) as usize] = s.below(3) as u8
                    }
                }
            }
            12 => {
                let ty = s.pick(&[b"tEXt", b"zTXt", b"iTXt", b"iCCP", b"eXIf", b"tIME", b"gAMA", b"pHYs", b"IEND", b"IDAT", b"abcd"]);
                let n = s.usize(0, 120);
                let mut d = s.data(n);
                if s.bool() && !d.is_empty() {
                    let k = s.usize(0, d.len() - 1);
                    d[k] = 0;
                }
                let p = s.usize(1.min(v.len()), v.len());
                v.insert(p, mp::ch(ty, d));
            }
            13 => {
                let ty = s.pick(&[b"tEXt", b"zTXt", b"iTXt", b"iCCP", b"eXIf", b"tIME", b"gAMA", b"fdAT", b"IEND", b"IDAT", b"fcTL", b"acTL", b"PLTE", b"tRNS"]);
                v[i].ty = *ty;
            }
            14 if s.chance(1, 20) => {
                let z = bomb(s);
                let mut d = b"k\0\0".to_vec();
                match s.below(3) {
                    0 => {
                        d.extend(z);
                        v.insert(1.min(v.len()), mp::ch(b"iCCP", d));
                    }
                    1 => {
                        d.extend(z);
                        v.insert(1.min(v.len()), mp::ch(b"zTXt", d));
                    }
                    _ => {
                        if let Some(c) = v.iter_mut().find(|c| c.ty == *b"IDAT") {
                            c.data = z;
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

pub fn gen_input(s: &mut Src) -> (Vec<u8>, usize) {
    let mut w = 24;
    let mut file = match s.below(8) {
        0 if !corpus().is_empty() => {
            let i = s.usize(0, corpus().len() - 1);
            corpus()[i].clone()
        }
        k => {
            let mut v = match k {
                1..=3 => {
                    let (sp, _, v) = crate::c08::animation(s, 12);
                    w = sp.w;
                    v
                }
                _ => {
                    let sp = mp::gen_spec(s, 20);
                    w = sp.w;
                    mp::chunks(s, &sp)
                }
            };
            if s.chance(1, 3) {
                crate::c07::decorate(s, &mut v, &mut crate::c07::Meta::default());
            }
            if s.chance(3, 4) {
                damage_chunks(s, &mut v, w);
            }
            let mut f = mp::write(&v);
            if s.chance(1, 6) {
                // a chunk length that does not match
                let mut offs = vec![];
                let mut p = 8;
                while p + 8 <= f.len() {
                    offs.push(p);
                    p += 12 + u32::from_be_bytes(f[p..p + 4].try_into().unwrap()) as usize;
                }
                if !offs.is_empty() {
                    let p = offs[s.usize(0, offs.len() - 1)];
                    let l = match s.below(3) {
                        0 => s.pick(&[0u32, 1, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000, 0xffff_fffc]),
                        1 => s.usize(0, f.len() + 20) as u32,
                        _ => ((f.len() - p) as u32).wrapping_sub(s.usize(0, 16) as u32)
                    };
                    f[p..p + 4].copy_from_slice(&l.to_be_bytes());
                }
            }
            f
        }
    };
    if s.chance(1, 2) {
        mutate::edits(s, &mut file, 6);
    }
    (file, w)
}

fn drive<T: ZByteReaderTrait>(s: &mut Src, r: T, o: DecoderOptions, c: &mut Ctx) -> Res {
    let mut d = PngDecoder::new_with_options(r, o);
    let mut canvas: Option<Vec<u8>> = None;
    let n = s.usize(1, 10);
    let mut ok = false;
    for _ in 0..n {
        match s.below(8) {
            0 => {
                let _ = d.decode_headers();
            }
            1 | 2 => {
                let before = d.frame_info();
                if let Ok(p) = d.decode_raw() {
                    ok = true;
                    if let (Some(f), Some(cs), Some(i), true) = (before, d.colorspace(), d.info().cloned(), d.depth() == Some(zune_core::bit_depth::BitDepth::Eight)) {
                        let size = i.width * i.height * cs.num_components();
                        if size < 1 << 20 {
                            let out = canvas.get_or_insert_with(|| vec![0; size]);
                            if out.len() == size {
                                let prev = if s.bool() { Some(out.clone()) } else { None };
                                let _ = post_process_image(&i, cs, &f, &p, prev.as_deref(), out, None);
                            }
                        }
                    }
                }
            }
            3 => match d.decode() {
                Ok(DecodingResult::U8(_)) => {
                    ok = true;
                }
                Ok(DecodingResult::U16(_)) => {
                    ok = true;
                }
                Ok(_) => return fail("unexpected result kind", ""),
                Err(_) => {}
            },
            4 => {
                let _ = d.decode_headers();
                if let Some(k) = d.output_buffer_size() {
                    if k < 64 << 20 {
                        let k = match s.below(4) {
                            0 => s.usize(0, k),
                            1 => k + s.usize(0, 20),
                            _ => k
                        };
                        let mut b = vec![0; k];
                        if d.decode_into(&mut b).is_ok() {
                            ok = true;
                        }
                    }
                }
            }
            5 => {
                let _ = (d.dimensions(), d.colorspace(), d.depth(), d.frame_info(), d.output_buffer_size(), d.byte_endian(), d.is_animated(), d.more_frames());
                if let Some(i) = d.info() {
                    let _ = (i.exif.as_ref().map(|x| x.len()), i.icc_profile.as_ref().map(|x| x.len()), i.text_chunk.len());
                }
            }
            6 => {
                let q = crate::c05::gen_options(s).set_max_width(o.max_width()).set_max_height(o.max_height()).inflate_set_limit(o.inflate_get_limit());
                d.set_options(q);
            }
            _ => {
                let mut k = 0;
                while d.more_frames() && k < 20 {
                    if d.decode_headers().is_err() {
                        break;
                    }
                    let _ = d.frame_info();
                    if d.decode_raw().is_err() {
                        break;
                    }
                    k += 1;
                }
            }
        }
    }
    if ok {
        c.label("decodes");
    }
    if d.dimensions().is_some() {
        c.nontrivial();
    }
    if let Some((w, h)) = d.dimensions() {
        check!(w <= o.max_width() && h <= o.max_height() || d.info().is_none(), "dimension limits ignored", "{w}x{h}");
    }
    Ok(())
}

pub fn total(s: &mut Src, c: &mut Ctx) -> Res {
    let (file, _) = gen_input(s);
    let mut o = crate::c05::gen_options(s);
    if s.chance(1, 3) {
        let (w, h) = (s.usize(0, 64), s.usize(0, 64));
        o = o.set_max_width(w).set_max_height(h);
    } else {
        o = o.set_max_width(1 << 10).set_max_height(1 << 10);
    }
    o = o.inflate_set_limit(1 << 20);
    c.artifact("input.png", &file);
    c.note(format!("{} bytes; {}; limits {}x{}", file.len(), crate::c05::describe(&o), o.max_width(), o.max_height()));
    let kind = s.below(5);
    let step = s.usize(1, 64);
    pbt::mem::reset();
    let r = match kind {
        0 | 1 => drive(s, ZCursor::new(&file), o, c),
        2 => drive(s, BufReader::with_capacity(step, Cursor::new(&file)), o, c),
        3 => drive(s, Slow::new(&file, step), o, c),
        _ => {
            let im = zune_image::image::Image::read(ZCursor::new(&file), o);
            if let Ok(i) = im {
                c.label("decodes");
                c.nontrivial();
                let _ = i.flatten_to_u8();
            }
            Ok(())
        }
    };
    let peak = pbt::mem::peak();
    // a decoder may hold the file, the inflated data, a few copies of the picture, and (image library) every frame of an animation
    let px = (o.max_width() * o.max_height()) as u64;
    let frames = 1 + if kind == 4 { file.windows(4).filter(|w| w == b"fcTL").count() as u64 } else { 0 };
    let bound = (64 << 20) + 8 * px * (6 + frames) + 40 * file.len() as u64;
    check!(peak <= bound, "memory beyond the configured limits", "{peak} bytes at the peak, bound {bound}");
    r
}

/// the default limits, and the default ways to open a file
pub fn defaults(s: &mut Src, c: &mut Ctx) -> Res {
    let (file, _) = gen_input(s);
    // avoid pictures that are merely large
    if file.len() > 24 {
        let (w, h) = (u32::from_be_bytes(file[16..20].try_into().unwrap()) as u64, u32::from_be_bytes(file[20..24].try_into().unwrap()) as u64);
        if w <= 16384 && h <= 16384 && w * h > 1 << 22 {
            c.label("large picture skipped");
            return Ok(());
        }
    }
    c.artifact("input.png", &file);
    c.note(format!("{} bytes", file.len()));
    let mut d = PngDecoder::new(ZCursor::new(&file));
    match s.below(3) {
        0 => {
            let _ = d.decode();
        }
        1 => {
            let _ = d.decode_raw();
        }
        _ => {
            let _ = zune_image::image::Image::read(ZCursor::new(&file), DecoderOptions::default());
        }
    }
    if d.dimensions().is_some() {
        c.nontrivial();
    }
    Ok(())
}
