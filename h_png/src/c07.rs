use models::png as mp;
use pbt::{check, fail, first_diff, Ctx, Res, Src};
use zune_core::bytestream::ZCursor;
use zune_core::options::DecoderOptions;
use zune_png::PngDecoder;

/// What the ancillary chunks of a generated file say.
#[derive(Default)]
pub struct Meta {
    pub gamma: Option<u32>,
    pub time: Option<[u8; 7]>,
    pub text: Vec<(Vec<u8>, Vec<u8>)>,
    pub ztxt: Vec<(Vec<u8>, Vec<u8>)>,
    pub itxt: Vec<(Vec<u8>, Vec<u8>)>,
    pub exif: Option<Vec<u8>>,
    pub icc: Option<Vec<u8>>
}

fn keyword(s: &mut Src) -> Vec<u8> {
    let n = match s.below(4) {
        0 => 79,
        1 => s.usize(70, 79),
        _ => s.usize(1, 30)
    };
    (0..n).map(|_| s.pick(b"abcXYZ 09\xe9\xa1")).collect()
}
fn text(s: &mut Src, max: usize) -> Vec<u8> {
    let n = s.usize(0, max);
    let d = s.data(n);
    d.into_iter().map(|b| if b == 0 { 1 } else { b }).collect()
}
fn payload(s: &mut Src) -> Vec<u8> {
    let n = match s.below(4) {
        0 => s.usize(0, 10),
        1 => s.usize(0, 5000),
        _ => s.usize(0, 300)
    };
    s.data(n)
}

/// Adds ancillary chunks at legal places.
pub fn decorate(s: &mut Src, v: &mut Vec<mp::Chunk>, m: &mut Meta) {
    let first_idat = |v: &Vec<mp::Chunk>| v.iter().position(|c| c.ty == *b"IDAT").unwrap();
    let last_idat = |v: &Vec<mp::Chunk>| v.iter().rposition(|c| c.ty == *b"IDAT").unwrap();
    let first_plte = |v: &Vec<mp::Chunk>| v.iter().position(|c| c.ty == *b"PLTE").unwrap_or(first_idat(v));
    // order of addition is random as well, so texts are gathered afterwards from the final list
    let n = s.usize(0, 6);
    for _ in 0..n {
        let anywhere = |s: &mut Src, v: &Vec<mp::Chunk>| if s.bool() { s.usize(1, first_idat(v)) } else { s.usize(last_idat(v) + 1, v.len() - 1) };
        match s.below(10) {
            0 if m.gamma.is_none() => {
                let g = match s.below(3) {
                    0 => 45455,
                    1 => s.usize(1, 500_000) as u32,
                    _ => s.usize(1, u32::MAX as usize / 2) as u32
                };
                m.gamma = Some(g);
                let p = s.usize(1, first_plte(v));
                v.insert(p, mp::ch(b"gAMA", g.to_be_bytes().to_vec()));
            }
            1 if m.time.is_none() => {
                let y = s.usize(0, 65535) as u16;
                let t = [(y >> 8) as u8, y as u8, s.usize(1, 12) as u8, s.usize(1, 31) as u8, s.usize(0, 23) as u8, s.usize(0, 59) as u8, s.usize(0, 60) as u8];
                m.time = Some(t);
                let p = anywhere(s, v);
                v.insert(p, mp::ch(b"tIME", t.to_vec()));
            }
            2 | 3 => {
                let mut d = keyword(s);
                d.push(0);
                d.extend(text(s, 400));
                let p = anywhere(s, v);
                v.insert(p, mp::ch(b"tEXt", d));
            }
            4 => {
                let mut d = keyword(s);
                d.extend([0, 0]);
                let t = payload(s);
                d.extend(mp::zlib(s, &t));
                let p = anywhere(s, v);
                v.insert(p, mp::ch(b"zTXt", d));
            }
            5 => {
                // uncompressed, empty language tag and translated keyword
                let mut d = keyword(s);
                d.extend([0, 0, 0, 0, 0]);
                d.extend(text(s, 300));
                let p = anywhere(s, v);
                v.insert(p, mp::ch(b"iTXt", d));
            }
            6 if m.exif.is_none() => {
                let mut d = if s.bool() { b"II*\0".to_vec() } else { b"MM\0*".to_vec() };
                d.extend(payload(s));
                m.exif = Some(d.clone());
                let p = anywhere(s, v);
                v.insert(p, mp::ch(b"eXIf", d));
            }
            7 if m.icc.is_none() => {
                let mut d = keyword(s);
                d.extend([0, 0]);
                let t = payload(s);
                d.extend(mp::zlib(s, &t));
                m.icc = Some(t);
                let p = s.usize(1, first_plte(v));
                v.insert(p, mp::ch(b"iCCP", d));
            }
            8 => {
                // chunks without meaning for the library
                let ty = s.pick(&[b"pHYs", b"sRGB", b"cHRM", b"bKGD", b"prVt", b"sPLT", b"oFFs", b"zzZz"]);
                let d = payload(s);
                let p = s.usize(1, first_plte(v));
                v.insert(p, mp::ch(ty, d));
            }
            _ => {}
        }
    }
    for c in v.iter() {
        let k = c.data.iter().position(|x| *x == 0).unwrap_or(0);
        match &c.ty {
            b"tEXt" => m.text.push((c.data[..k].to_vec(), c.data[k + 1..].to_vec())),
            b"iTXt" => m.itxt.push((c.data[..k].to_vec(), c.data[k + 5..].to_vec())),
            b"zTXt" => {
                let r = models::deflate::inflate(&c.data[k + 4..], usize::MAX);
                m.ztxt.push((c.data[..k].to_vec(), r.out));
            }
            _ => {}
        }
    }
}

fn same_meta(d: &PngDecoder<ZCursor<&[u8]>>, m: &Meta) -> Res {
    let i = d.info().unwrap();
    match (i.gamma, m.gamma) {
        (None, None) => {}
        (Some(a), Some(b)) => {
            let w = b as f64 / 100000.0;
            check!((a as f64 - w).abs() <= w * 1e-6, "wrong gamma", "{a} instead of {w}");
        }
        (a, b) => return fail("wrong gamma", format!("{a:?} instead of {b:?}"))
    }
    let t = i.time_info.map(|t| [(t.year >> 8) as u8, t.year as u8, t.month, t.day, t.hour, t.minute, t.second]);
    check!(t == m.time, "wrong time", "{t:?} instead of {:?}", m.time);
    check!(i.exif == m.exif, "wrong EXIF data", "{:?} instead of {:?} bytes", i.exif.as_ref().map(|x| x.len()), m.exif.as_ref().map(|x| x.len()));
    check!(i.icc_profile == m.icc, "wrong ICC profile", "{:?} instead of {:?} bytes", i.icc_profile.as_ref().map(|x| x.len()), m.icc.as_ref().map(|x| x.len()));
    let a: Vec<_> = i.text_chunk.iter().map(|t| (t.keyword.clone(), t.text.clone())).collect();
    check!(a == m.text, "wrong tEXt chunks", "{} instead of {}", a.len(), m.text.len());
    let a: Vec<_> = i.ztxt_chunk.iter().map(|t| (t.keyword.clone(), t.text.clone())).collect();
    check!(a == m.ztxt, "wrong zTXt chunks", "{} instead of {}", a.len(), m.ztxt.len());
    let a: Vec<_> = i.itxt_chunk.iter().map(|t| (t.keyword.clone(), t.text.clone())).collect();
    check!(a == m.itxt, "wrong iTXt chunks", "{} instead of {}", a.len(), m.itxt.len());
    Ok(())
}

/// chunks are reported with the values stored
pub fn metadata(s: &mut Src, c: &mut Ctx) -> Res {
    let sp = mp::gen_spec(s, 12);
    let mut v = mp::chunks(s, &sp);
    let mut m = Meta::default();
    decorate(s, &mut v, &mut m);
    let file = mp::write(&v);
    c.artifact("input.png", &file);
    let o = DecoderOptions::default().set_strict_mode(s.bool()).png_set_confirm_crc(s.bool()).inflate_set_confirm_adler(s.bool());
    c.note(format!("{sp:?}; chunks {:?}; {}", v.iter().map(|x| format!("{}({})", String::from_utf8_lossy(&x.ty), x.data.len())).collect::<Vec<_>>().join(" "), crate::c05::describe(&o)));
    if v.len() > 4 {
        c.nontrivial();
    }
    let mut d = PngDecoder::new_with_options(ZCursor::new(&file[..]), o);
    if let Err(e) = d.decode_headers() {
        return fail("valid file rejected", format!("{e:?}"));
    }
    let i = d.info().unwrap();
    check!((i.width, i.height) == (sp.w, sp.h), "wrong dimensions in the info", "{}x{}", i.width, i.height);
    check!((i.interlace_method == zune_png::InterlaceMethod::Adam7) == sp.interlace, "wrong interlace method in the info", "");
    same_meta(&d, &m)?;
    match d.decode_raw() {
        Ok(p) => {
            let w = crate::c05::to_bytes(&mp::pixels(&sp, &sp.samples, false), sp.depth == 16, false, zune_core::bit_depth::ByteEndian::BE);
            if let Some(x) = first_diff(&p, &w) {
                return fail("ancillary chunks change the pixels", x);
            }
        }
        Err(e) => return fail("valid file rejected", format!("{e:?}"))
    }
    same_meta(&d, &m)
}

/// damage of CRC-protected bytes
pub fn crc(s: &mut Src, c: &mut Ctx) -> Res {
    let sp = mp::gen_spec(s, 12);
    let mut v = mp::chunks(s, &sp);
    let mut m = Meta::default();
    decorate(s, &mut v, &mut m);
    let mut file = mp::write(&v);
    let k = s.below(v.len() as u64) as usize;
    let start = 8 + v[..k].iter().map(|x| x.data.len() + 12).sum::<usize>();
    let crc_only = s.bool();
    let n = v[k].data.len();
    let range = if crc_only { (start + 8 + n, start + 12 + n) } else { (start + 4, start + 12 + n) };
    let p = s.usize(range.0, range.1 - 1);
    let bit = 1u8 << s.below(8);
    file[p] ^= bit;
    if s.chance(1, 3) {
        // a second damaged byte of the same chunk
        let q = s.usize(range.0, range.1 - 1);
        if q != p {
            file[q] ^= 1 << s.below(8);
        }
    }
    c.artifact("input.png", &file);
    c.note(format!("{sp:?}; damaged chunk {k} {} ({n} bytes), byte {} of it, mask {bit}, crc only {crc_only}", String::from_utf8_lossy(&v[k].ty), p - start));
    c.nontrivial();
    c.label(String::from_utf8_lossy(&v[k].ty).to_string());
    let o = DecoderOptions::default().set_strict_mode(s.bool()).png_set_confirm_crc(true);
    let mut d = PngDecoder::new_with_options(ZCursor::new(&file[..]), o);
    let r = match s.below(3) {
        0 => d.decode_headers().map(|_| ()),
        1 => d.decode_raw().map(|_| ()),
        _ => d.decode().map(|_| ())
    };
    check!(r.is_err(), "damaged chunk accepted although CRCs are confirmed", "");
    if crc_only {
        let mut d = PngDecoder::new_with_options(ZCursor::new(&file[..]), DecoderOptions::default().png_set_confirm_crc(false).inflate_set_confirm_adler(s.bool()));
        match d.decode_raw() {
            Ok(p) => {
                let w = crate::c05::to_bytes(&mp::pixels(&sp, &sp.samples, false), sp.depth == 16, false, zune_core::bit_depth::ByteEndian::BE);
                if let Some(x) = first_diff(&p, &w) {
                    return fail("a wrong CRC changes the pixels", x);
                }
                same_meta(&d, &m)?;
            }
            Err(e) => return fail("a wrong CRC is an error although CRCs are not confirmed", format!("{e:?}"))
        }
    }
    Ok(())
}

/// damage of the zlib checksum
pub fn adler(s: &mut Src, c: &mut Ctx) -> Res {
    let sp = mp::gen_spec(s, 12);
    let mut v = mp::chunks(s, &sp);
    // the last four bytes of the IDAT data
    let mut back = s.usize(1, 4);
    let mask = 1 + s.below(255) as u8;
    let b0 = back;
    for x in v.iter_mut().rev() {
        if x.ty == *b"IDAT" {
            if x.data.len() >= back {
                let n = x.data.len();
                x.data[n - back] ^= mask;
                break;
            }
            back -= x.data.len();
        }
    }
    let file = mp::write(&v);
    c.artifact("input.png", &file);
    c.note(format!("{sp:?}; adler byte -{b0} xor {mask}"));
    c.nontrivial();
    let crc = s.bool();
    let o = DecoderOptions::default().png_set_confirm_crc(crc).inflate_set_confirm_adler(true);
    let mut d = PngDecoder::new_with_options(ZCursor::new(&file[..]), o);
    check!(d.decode_raw().is_err(), "wrong adler checksum accepted although it is confirmed", "");
    let o = DecoderOptions::default().png_set_confirm_crc(crc).inflate_set_confirm_adler(false);
    let mut d = PngDecoder::new_with_options(ZCursor::new(&file[..]), o);
    match d.decode_raw() {
        Ok(p) => {
            let w = crate::c05::to_bytes(&mp::pixels(&sp, &sp.samples, false), sp.depth == 16, false, zune_core::bit_depth::ByteEndian::BE);
            if let Some(x) = first_diff(&p, &w) {
                return fail("a wrong adler checksum changes the pixels", x);
            }
        }
        Err(e) => return fail("a wrong adler checksum is an error although it is not confirmed", format!("{e:?}"))
    }
    Ok(())
}

/// chunks of tens of megabytes
pub fn huge(s: &mut Src, c: &mut Ctx) -> Res {
    use std::io::Write;
    let (w, h) = (s.usize(4700, 5200), s.usize(4500, 5000));
    let mut raw = vec![0u8; (w + 1) * h];
    let mut r = s.rng();
    for (i, b) in raw.iter_mut().enumerate() {
        *b = if i % (w + 1) == 0 { 0 } else { r.next() as u8 };
    }
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::none());
    e.write_all(&raw).unwrap();
    let z = e.finish().unwrap();
    let mut hd = vec![];
    hd.extend((w as u32).to_be_bytes());
    hd.extend((h as u32).to_be_bytes());
    hd.extend([8, 0, 0, 0, 0]);
    let mut v = vec![mp::ch(b"IHDR", hd)];
    if s.bool() {
        v.push(mp::ch(b"abCd", vec![7; s.usize(20 << 20, 22 << 20)]));
    }
    v.push(mp::ch(b"IDAT", z));
    v.push(mp::ch(b"IEND", vec![]));
    let mut file = mp::write(&v);
    c.note(format!("{w}x{h}, {} bytes", file.len()));
    c.nontrivial();
    let o = DecoderOptions::default().png_set_confirm_crc(true).inflate_set_confirm_adler(s.bool());
    match PngDecoder::new_with_options(ZCursor::new(&file), o).decode_raw() {
        Ok(p) => {
            check!(p.len() == w * h && p.chunks(w).zip(raw.chunks(w + 1)).all(|(a, b)| *a == b[1..]), "large image: wrong pixels", "");
        }
        Err(e) => return fail("large valid image rejected", format!("{e:?}"))
    }
    // damage somewhere in the large chunk
    let p = s.usize(60, file.len() - 40);
    file[p] ^= 1 << s.below(8);
    check!(PngDecoder::new_with_options(ZCursor::new(&file), o).decode_raw().is_err(), "damaged chunk accepted", "byte {p}");
    Ok(())
}
