use models::deflate as md;
use models::png as mp;
use pbt::{check, fail, first_diff, Ctx, Res, Src};
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_png::{PngDecoder, PngEncoder};

/// Walks the chunks of a file: checks framing and CRCs, returns the chunks.
pub fn walk(file: &[u8]) -> Result<Vec<mp::Chunk>, String> {
    if file.len() < 8 || file[..8] != mp::SIG {
        return Err("bad signature".into());
    }
    let mut p = 8;
    let mut v = vec![];
    while p < file.len() {
        if p + 12 > file.len() {
            return Err(format!("truncated chunk header at {p}"));
        }
        let n = u32::from_be_bytes(file[p..p + 4].try_into().unwrap()) as usize;
        if p + 12 + n > file.len() {
            return Err(format!("chunk at {p} runs over the end"));
        }
        let crc = u32::from_be_bytes(file[p + 8 + n..p + 12 + n].try_into().unwrap());
        if md::crc32(&file[p + 4..p + 8 + n]) != crc {
            return Err(format!("wrong CRC of the chunk {:?} at {p}", String::from_utf8_lossy(&file[p + 4..p + 8])));
        }
        v.push(mp::Chunk { ty: file[p + 4..p + 8].try_into().unwrap(), data: file[p + 8..p + 8 + n].to_vec() });
        p += 12 + n;
    }
    Ok(v)
}

fn run(s: &mut Src, c: &mut Ctx, max: usize, area: usize) -> Res {
    let n = s.usize(1, 4);
    let sixteen = s.bool();
    let w = s.dim(max);
    let h = s.dim((area / w).clamp(1, max));
    let size = w * h * n * if sixteen { 2 } else { 1 };
    let data = s.data(size);
    let cs = crate::c05::cs(n);
    let depth = if sixteen { BitDepth::Sixteen } else { BitDepth::Eight };
    let exif = if s.chance(1, 3) {
        let l = s.usize(0, 300);
        let mut e = if s.bool() { b"II*\0".to_vec() } else { b"MM\0*".to_vec() };
        e.extend(s.data(l));
        Some(e)
    } else {
        None
    };
    c.note(format!("{w}x{h} {cs:?} {depth:?} exif {:?}", exif.as_ref().map(|e| e.len())));
    c.label(format!("{cs:?} {depth:?}"));
    if w * h > 1 {
        c.nontrivial();
    }
    let mut o = EncoderOptions::new(w, h, cs, depth);
    o = o.set_effort(s.below(11) as u8).set_quality(s.below(101) as u8).set_num_threads(s.below(5) as u8);
    let mut e = PngEncoder::new(&data, o);
    if let Some(x) = &exif {
        e.add_exif_segment(x);
    }
    let mut out = vec![];
    let wrote = match e.encode(&mut out) {
        Ok(x) => x,
        Err(e) => return fail("encoding failed", format!("{e:?}"))
    };
    c.artifact("output.png", &out);
    check!(wrote == out.len(), "wrong number of bytes reported", "reported {wrote}, written {}", out.len());
    // structure
    let ch = match walk(&out) {
        Ok(v) => v,
        Err(m) => return fail("output is not a well-formed chunk sequence", m)
    };
    check!(ch[0].ty == *b"IHDR" && ch.last().unwrap().ty == *b"IEND" && ch.last().unwrap().data.is_empty(), "first/last chunk", "");
    let mut want = vec![];
    want.extend((w as u32).to_be_bytes());
    want.extend((h as u32).to_be_bytes());
    want.extend([if sixteen { 16 } else { 8 }, [0, 4, 2, 6][n - 1], 0]);
    check!(ch[0].data.len() == 13 && ch[0].data[..11] == want[..] && ch[0].data[11] == 0 && ch[0].data[12] == 0, "wrong IHDR", "{:?}", ch[0].data);
    let idat: Vec<u8> = ch.iter().filter(|x| x.ty == *b"IDAT").flat_map(|x| x.data.clone()).collect();
    let r = md::inflate(&idat[2.min(idat.len())..], usize::MAX);
    check!(r.err.is_none(), "IDAT is not a valid zlib stream", "{:?}", r.err);
    let row = size / h;
    check!(r.out.len() == (row + 1) * h, "wrong amount of scanline data", "{} instead of {}", r.out.len(), (row + 1) * h);
    let tail = &idat[2 + r.used..];
    check!(tail == md::adler32(&r.out).to_be_bytes(), "wrong zlib trailer", "{tail:?}");
    check!(idat[0] & 15 == 8 && u16::from_be_bytes([idat[0], idat[1]]) % 31 == 0, "wrong zlib header", "{:?}", &idat[..2]);
    let stored = ch.iter().filter(|x| x.ty == *b"eXIf").map(|x| x.data.clone()).collect::<Vec<_>>();
    check!(stored == exif.iter().cloned().collect::<Vec<_>>(), "wrong eXIf chunks", "{} chunks", stored.len());
    // an independent decoder
    let mut d = png::Decoder::new(std::io::Cursor::new(&out));
    d.set_ignore_text_chunk(false);
    let mut rd = match d.read_info() {
        Ok(r) => r,
        Err(e) => return fail("png crate rejects the output", e.to_string())
    };
    let mut buf = vec![0; rd.output_buffer_size().unwrap()];
    match rd.next_frame(&mut buf) {
        Ok(i) => {
            check!((i.width as usize, i.height as usize) == (w, h), "png crate sees other dimensions", "");
            buf.truncate(i.buffer_size());
        }
        Err(e) => return fail("png crate rejects the output", e.to_string())
    }
    if let Err(e) = rd.finish() {
        return fail("png crate rejects the output", e.to_string());
    }
    if let Some(x) = first_diff(&buf, &data) {
        return fail("png crate reads other pixels", x);
    }
    // the library's own decoder, strictly
    let o = DecoderOptions::default().set_strict_mode(true).png_set_confirm_crc(true).inflate_set_confirm_adler(true);
    let mut d = PngDecoder::new_with_options(ZCursor::new(&out), o);
    match d.decode_raw() {
        Ok(v) => {
            if let Some(x) = first_diff(&v, &data) {
                return fail("own decoder reads other pixels", x);
            }
        }
        Err(e) => return fail("own decoder rejects the output", format!("{e:?}"))
    }
    check!(d.info().unwrap().exif == exif, "own decoder reads other EXIF data", "");
    Ok(())
}

pub fn small(s: &mut Src, c: &mut Ctx) -> Res {
    run(s, c, 64, 3000)
}
pub fn large(s: &mut Src, c: &mut Ctx) -> Res {
    run(s, c, 2500, 400_000)
}

/// data of the wrong size is an error, never a file
pub fn wrong_size(s: &mut Src, c: &mut Ctx) -> Res {
    let n = s.usize(1, 4);
    let sixteen = s.bool();
    let (w, h) = (s.usize(1, 9), s.usize(1, 9));
    let depth = if sixteen { BitDepth::Sixteen } else { BitDepth::Eight };
    let size = w * h * n * if sixteen { 2 } else { 1 };
    let len = s.usize(0, size + 9);
    if len == size {
        return Ok(());
    }
    c.nontrivial();
    c.note(format!("{w}x{h}x{n} {depth:?} given {len} bytes, {size} needed"));
    let data = vec![7; len];
    let mut out = vec![];
    let r = PngEncoder::new(&data, EncoderOptions::new(w, h, crate::c05::cs(n), depth)).encode(&mut out);
    check!(r.is_err(), "data of the wrong size accepted", "");
    Ok(())
}

/// descriptions a PNG file can't have, or which don't fit the pixels, are refused
pub fn refuse(s: &mut Src, c: &mut Ctx) -> Res {
    use zune_core::colorspace::ColorSpace::*;
    let cs = s.pick(&[RGB, RGBA, Luma, LumaA, YCbCr, YCCK, CMYK, BGR, BGRA, ARGB, HSL, HSV, MultiBand(std::num::NonZeroU32::new(3).unwrap())]);
    let depth = s.pick(&[BitDepth::Eight, BitDepth::Sixteen, BitDepth::Float32]);
    let (w, h) = (s.usize(1, 9), s.usize(1, 9));
    let exact = w * h * cs.num_components() * depth.size_of();
    let len = match s.below(4) {
        0 => exact.saturating_sub(s.usize(1, 5)),
        1 => exact + s.usize(1, 5),
        _ => exact
    };
    let (w, h) = match s.below(12) {
        0 => (usize::MAX / s.usize(1, 9), h),
        1 => (w, usize::MAX),
        _ => (w, h)
    };
    let data = s.data(len);
    c.note(format!("{w}x{h} {cs:?} {depth:?}, {len} bytes"));
    let fits = matches!(cs, RGB | RGBA | Luma | LumaA) && depth != BitDepth::Float32 && w < 10 && h < 10 && len == exact;
    c.label(if fits { "possible" } else { "impossible" });
    c.nontrivial();
    let mut out = vec![];
    let r = PngEncoder::new(&data, EncoderOptions::new(w, h, cs, depth)).encode(&mut out);
    check!(r.is_ok() == fits, if fits { "refused" } else { "accepted" }, "{r:?}, {} bytes written", out.len());
    Ok(())
}
