//! C25: saving and re-opening
use crate::im::*;
use pbt::{check, fail, Ctx, Fail, Res, Src};
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_image::codecs::ImageFormat;
use zune_image::image::Image;
use zune_image::traits::EncoderTrait;

pub const LOSSLESS: [ImageFormat; 6] =
    [ImageFormat::PNG, ImageFormat::PPM, ImageFormat::QOI, ImageFormat::Farbfeld, ImageFormat::JPEG_XL, ImageFormat::HDR];

pub fn extension(s: &mut Src, f: ImageFormat) -> &'static str {
    match f {
        ImageFormat::PNG => "png",
        ImageFormat::PPM => s.pick(&["ppm", "pam", "pgm"]),
        ImageFormat::QOI => "qoi",
        ImageFormat::Farbfeld => "ff",
        ImageFormat::JPEG_XL => "jxl",
        ImageFormat::HDR => "hdr",
        _ => s.pick(&["jpg", "jpeg"]),
    }
}

/// what a format can hold
fn holds(f: ImageFormat, cs: ColorSpace) -> bool {
    use ColorSpace::*;
    match f {
        ImageFormat::PNG | ImageFormat::PPM | ImageFormat::JPEG_XL => matches!(cs, Luma | LumaA | RGB | RGBA),
        ImageFormat::QOI => matches!(cs, RGB | RGBA),
        ImageFormat::Farbfeld => cs == RGBA,
        ImageFormat::HDR => cs == RGB,
        _ => matches!(cs, Luma | RGB | RGBA | YCbCr | YCCK | CMYK),
    }
}

/// the type a picture gets in a format: what the format holds if it can, else RGB with the alpha channel kept where there is
/// one and the format has room for it
pub fn target(f: ImageFormat, cs: ColorSpace, d: BitDepth) -> (ColorSpace, BitDepth) {
    let cs = if holds(f, cs) {
        cs
    } else if f == ImageFormat::Farbfeld || (cs.has_alpha() && f != ImageFormat::HDR && f != ImageFormat::JPEG) {
        ColorSpace::RGBA
    } else {
        ColorSpace::RGB
    };
    let d = match f {
        ImageFormat::PNG | ImageFormat::PPM | ImageFormat::JPEG_XL => {
            if d == BitDepth::Float32 {
                BitDepth::Sixteen
            } else {
                d
            }
        }
        ImageFormat::Farbfeld => BitDepth::Sixteen,
        ImageFormat::HDR => BitDepth::Float32,
        _ => BitDepth::Eight,
    };
    (cs, d)
}

/// the picture converted for a format, in either order of the two conversions (None: there is no such conversion)
pub fn converted(i: &Image, f: ImageFormat) -> Result<Option<(Pic, Pic)>, Fail> {
    let (cs, d) = target(f, i.colorspace(), i.depth());
    let e = |e: zune_image::errors::ImageErrors| Fail { sig: "converting the depth failed".into(), msg: format!("{e:?}") };
    // only the first picture is kept
    let first = |i: &Image| -> Result<Pic, Fail> {
        let mut p = Pic::of(i)?;
        p.frames.truncate(1);
        Ok(p)
    };
    let mut a = i.clone();
    if a.convert_color(cs).is_err() {
        return Ok(None);
    }
    a.convert_depth(d).map_err(e)?;
    let mut b = i.clone();
    b.convert_depth(d).map_err(e)?;
    if b.convert_color(cs).is_err() {
        return Ok(None);
    }
    Ok(Some((first(&a)?, first(&b)?)))
}

/// compares an image read back from a lossless format with the picture that went in
pub fn arrived(f: ImageFormat, got: &Image, want: &Pic) -> Res {
    let g = Pic::of(got)?;
    match f {
        ImageFormat::JPEG_XL => {
            // the decoder hands out floats
            check!(g.depth == BitDepth::Float32, "depth", "{:?}", g.depth);
            let m = want.max();
            let mut w = want.clone();
            w.depth = BitDepth::Float32;
            for v in w.frames.iter_mut().flatten().flatten() {
                *v /= m;
            }
            g.same(&w, 0.25 / m, "JPEG XL")
        }
        ImageFormat::HDR => {
            check!((g.w, g.h, g.cs, g.depth) == (want.w, want.h, want.cs, want.depth), "type", "{} for {}", g.text(), want.text());
            for i in 0..g.w * g.h {
                let m = (0..3).map(|k| want.frames[0][k][i]).fold(0.0, f64::max);
                for k in 0..3 {
                    let (a, b) = (g.frames[0][k][i], want.frames[0][k][i]);
                    check!((a - b).abs() <= m / 127.0 + 1e-30, "HDR: samples", "sample {i} of channel {k}: {a}, expected {b}, largest {m}");
                }
            }
            Ok(())
        }
        _ => g.same(want, 0.0, &format!("{f:?}")),
    }
}

pub fn options(s: &mut Src) -> EncoderOptions {
    let mut o = EncoderOptions::default();
    if s.chance(1, 2) {
        o = o.set_quality(s.below(101) as u8);
    }
    if s.chance(1, 3) {
        o = o.set_effort(s.below(11) as u8);
    }
    if s.chance(1, 3) {
        o = o.set_num_threads(1 + s.below(4) as u8);
    }
    if s.chance(1, 3) {
        o = o.set_strip_metadata(s.bool());
    }
    if s.chance(1, 3) {
        o = o.set_jpeg_encode_progressive(s.bool());
    }
    if s.chance(1, 4) {
        // what the options say of the picture doesn't matter
        o = o.set_width(s.below(9) as usize).set_height(s.below(9) as usize).set_colorspace(s.pick(&COLORS)).set_depth(s.pick(&DEPTHS));
    }
    o
}

fn boxed(f: ImageFormat, o: EncoderOptions, i: &Image) -> (Result<usize, zune_image::errors::ImageErrors>, Vec<u8>, bool) {
    let mut out = vec![];
    macro_rules! go {
        ($e:expr) => {{
            let mut e = $e;
            let right = e.format() == f;
            e.set_options(o);
            let r = i.write_with_encoder(e, &mut out);
            (r, right)
        }};
    }
    let (r, right) = match f {
        ImageFormat::PNG => go!(zune_image::codecs::png::PngEncoder::new()),
        ImageFormat::PPM => go!(zune_image::codecs::ppm::PPMEncoder::new()),
        ImageFormat::QOI => go!(zune_image::codecs::qoi::QoiEncoder::new()),
        ImageFormat::Farbfeld => go!(zune_image::codecs::farbfeld::FarbFeldEncoder::new()),
        ImageFormat::JPEG_XL => go!(zune_image::codecs::jpeg_xl::JxlEncoder::new()),
        ImageFormat::HDR => go!(zune_image::codecs::hdr::HdrEncoder::new()),
        _ => go!(zune_image::codecs::jpeg::JpegEncoder::new()),
    };
    (r, out, right)
}

fn to_result(f: ImageFormat, o: EncoderOptions, i: &Image) -> Result<zune_image::pipelines::EncodeResult, zune_image::errors::ImageErrors> {
    match f {
        ImageFormat::PNG => zune_image::codecs::png::PngEncoder::new_with_options(o).encode_to_result(i),
        ImageFormat::PPM => zune_image::codecs::ppm::PPMEncoder::new_with_options(o).encode_to_result(i),
        ImageFormat::QOI => zune_image::codecs::qoi::QoiEncoder::new_with_options(o).encode_to_result(i),
        ImageFormat::Farbfeld => zune_image::codecs::farbfeld::FarbFeldEncoder::new_with_options(o).encode_to_result(i),
        ImageFormat::JPEG_XL => zune_image::codecs::jpeg_xl::JxlEncoder::new_with_options(o).encode_to_result(i),
        ImageFormat::HDR => zune_image::codecs::hdr::HdrEncoder::new_with_options(o).encode_to_result(i),
        _ => zune_image::codecs::jpeg::JpegEncoder::new_with_options(o).encode_to_result(i),
    }
}

/// a scratch file of this process and thread, removed when dropped
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(ext: &str) -> Scratch {
        let dir = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm".into() } else { std::env::temp_dir() };
        let t = format!("{:?}", std::thread::current().id()).replace(|c: char| !c.is_ascii_digit(), "");
        Scratch(dir.join(format!("pbt-{}-{t}.{ext}", std::process::id())))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

/// encodes in one of the ways there are
fn write(s: &mut Src, c: &mut Ctx, f: ImageFormat, i: &Image, plain: bool) -> Result<Option<Vec<u8>>, Fail> {
    let o = if plain { EncoderOptions::default() } else { options(s) };
    write_with(s, c, f, i, o, plain)
}
fn write_with(s: &mut Src, c: &mut Ctx, f: ImageFormat, i: &Image, o: EncoderOptions, plain: bool) -> Result<Option<Vec<u8>>, Fail> {
    let way = if plain { s.below(6) } else { 3 + s.below(3) };
    c.note(format!("{f:?} way {way} quality {} effort {} threads {} strip {} progressive {}", o.quality(), o.effort(), o.num_threads(), o.strip_metadata(), o.jpeg_encode_progressive()));
    let mut out = vec![];
    let r = match way {
        0 => i.write_to_vec(f).map(|v| {
            out = v;
            out.len()
        }),
        1 => i.encode(f, &mut out),
        2 => {
            let file = Scratch::new(extension(s, f));
            let r = if s.bool() { i.save(&file.0) } else { i.save_to(&file.0, f) };
            r.map(|_| {
                out = std::fs::read(&file.0).unwrap();
                out.len()
            })
        }
        3 => f.encode(i, o, &mut out),
        4 => {
            let (r, b, right) = boxed(f, o, i);
            check!(right, "encoder of another format", "{f:?}");
            out = b;
            r
        }
        _ => to_result(f, o, i).map(|r| {
            out = r.data().to_vec();
            out.len()
        }),
    };
    match r {
        Ok(n) => {
            check!(n == out.len(), "count", "{n} bytes written by its own account, {} by ours", out.len());
            Ok(Some(out))
        }
        Err(e) => {
            c.note(format!("{f:?} way {way}: {e:?}"));
            Ok(None)
        }
    }
}

fn read(s: &mut Src, f: ImageFormat, bytes: &[u8], o: DecoderOptions) -> Result<Image, Fail> {
    let e = |e: zune_image::errors::ImageErrors| Fail { sig: format!("{f:?}: can't read what was written"), msg: format!("{e:?}, {} bytes: {}", bytes.len(), pbt::hex(&bytes[..bytes.len().min(64)])) };
    match ImageFormat::guess_format(ZCursor::new(bytes)) {
        Some((g, _)) => check!(g == f, "format taken for another", "{f:?} for {g:?}"),
        None => return fail("format not recognised", format!("{f:?}: {}", pbt::hex(&bytes[..bytes.len().min(32)]))),
    }
    Ok(match s.below(4) {
        0 => {
            // the extension doesn't matter when opening
            let file = Scratch::new(s.pick(&["png", "jpg", "bin", "qoi"]));
            std::fs::write(&file.0, bytes).unwrap();
            Image::open_with_options(&file.0, o).map_err(e)?
        }
        1 => {
            let mut d = f.decoder_with_options(ZCursor::new(bytes.to_vec()), o).map_err(e)?;
            d.decode().map_err(e)?
        }
        2 => Image::read(std::io::Cursor::new(bytes.to_vec()), o).map_err(e)?,
        _ => Image::read(ZCursor::new(bytes), o).map_err(e)?,
    })
}

fn picture(s: &mut Src, f: ImageFormat) -> Pic {
    let (w, h) = match s.below(8) {
        0 => (1, s.dim(300)),
        1 => (s.dim(300), 1),
        2 => (1, 1),
        _ => (s.dim(40), s.dim(40)),
    };
    let cs = match s.below(4) {
        0 | 1 => any_cs(s),
        _ => {
            let (a, _) = target(f, any_cs(s), BitDepth::Eight);
            a
        }
    };
    let (d, n) = (s.pick(&DEPTHS), nframes(s));
    pic(s, d, cs, w, h, n)
}

fn unchanged(i: &Image, p: &Pic, meta: &str) -> Res {
    Pic::of(i)?.same(p, 0.0, "encoding changed the image")?;
    let m = format!("{:?}", i.metadata());
    check!(m == meta, "encoding changed the metadata", "{m}\n{meta}");
    Ok(())
}

pub fn lossless(s: &mut Src, c: &mut Ctx) -> Res {
    let f = s.pick(&LOSSLESS);
    let p = picture(s, f);
    let mut i = p.image();
    if s.chance(1, 10) {
        i.metadata_mut().set_icc_chunk(s.data(40));
    }
    c.label(&format!("{f:?}"));
    let meta = format!("{:?}", i.metadata());
    let want = converted(&i, f)?;
    let plain = s.bool();
    let out = write(s, c, f, &i, plain)?;
    unchanged(&i, &p, &meta)?;
    let (want, out) = match (want, out) {
        (None, None) => return Ok(()),
        (None, Some(_)) => return fail("encoded without a conversion", format!("{} as {f:?}", p.text())),
        // the JPEG XL encoder is made for pictures of at least two pixels each way
        (Some(w), None) if f == ImageFormat::JPEG_XL && (w.0.w < 2 || w.0.h < 2) => return Ok(()),
        (Some(_), None) => return fail(&format!("{f:?}: encoding failed"), p.text()),
        (Some(w), Some(o)) => (w, o),
    };
    c.nontrivial();
    let got = read(s, f, &out, DecoderOptions::default())?;
    check!(got.metadata().image_format() == Some(f), "format in the metadata", "{:?} for {f:?}", got.metadata().image_format());
    arrived(f, &got, &want.0).or_else(|e| arrived(f, &got, &want.1).map_err(|_| e)).map_err(|e| Fail { sig: e.sig, msg: format!("{}; original {}", e.msg, p.text()) })
}

pub fn lossy(s: &mut Src, c: &mut Ctx) -> Res {
    let f = ImageFormat::JPEG;
    let p = picture(s, f);
    let i = p.image();
    let meta = format!("{:?}", i.metadata());
    let o = options(s).set_quality(100);
    let want = converted(&i, f)?;
    let out = write_with(s, c, f, &i, o, false)?;
    unchanged(&i, &p, &meta)?;
    let (want, out) = match (want, out) {
        (None, None) => return Ok(()),
        (None, Some(_)) => return fail("encoded without a conversion", p.text()),
        (Some(_), None) => return fail("JPEG: encoding failed", p.text()),
        (Some(w), Some(o)) => (w.0, o),
    };
    c.nontrivial();
    // there is no alpha in a JPEG file
    let mut want = want;
    if want.cs == ColorSpace::RGBA {
        want.cs = ColorSpace::RGB;
        want.frames[0].truncate(3);
    }
    c.label(&format!("{:?}", want.cs));
    let orig = want.cs;
    let usual = s.bool();
    let o = if usual { DecoderOptions::default() } else { DecoderOptions::default().jpeg_set_out_colorspace(want.cs) };
    let got = read(s, f, &out, o)?;
    check!(got.metadata().image_format() == Some(f), "format in the metadata", "{:?}", got.metadata().image_format());
    let mut g = Pic::of(&got)?;
    if usual && g.cs != want.cs {
        check!(g.cs == ColorSpace::RGB, "JPEG: type", "{:?} for {:?}", g.cs, want.cs);
        // what was written, seen as RGB
        match want.cs {
            ColorSpace::Luma => want.frames[0] = vec![want.frames[0][0].clone(); 3],
            ColorSpace::CMYK => {
                // zero is full ink, in the library as in the file
                let q = &want.frames[0];
                want.frames[0] = (0..3).map(|k| (0..g.w * g.h).map(|i| (q[k][i] * q[3][i] / 255.0).round()).collect()).collect();
            }
            _ => {
                let n = want.cs.num_components();
                let q = want.frames[0].clone();
                let mut rgb = vec![vec![]; 3];
                for i in 0..g.w * g.h {
                    let (y, cb, cr) = (q[0][i], q[1][i] - 128.0, q[2][i] - 128.0);
                    let v = [y + 1.402 * cr, y - 0.344136 * cb - 0.714136 * cr, y + 1.772 * cb];
                    for k in 0..3 {
                        let v = v[k].clamp(0.0, 255.0);
                        // the converted channels of YCCK are inks, and its black is held the other way round
                        rgb[k].push(if n == 4 { (255.0 - v) * q[3][i] / 255.0 } else { v });
                    }
                }
                want.frames[0] = rgb;
            }
        }
        want.cs = ColorSpace::RGB;
    }
    g.frames.truncate(1);
    let same = matches!(want.cs, ColorSpace::Luma | ColorSpace::YCbCr | ColorSpace::YCCK);
    // all quantisation steps are one, what is left is rounding
    g.same(&want, if same { 4.0 } else { 7.0 }, &format!("JPEG {orig:?}"))?;
    let n = g.frames[0].iter().flatten().count() as f64;
    let err = g.frames[0].iter().flatten().zip(want.frames[0].iter().flatten()).map(|(a, b)| (a - b).abs()).sum::<f64>() / n;
    check!(n < 12.0 || err <= if n < 200.0 { 3.0 } else { 1.2 }, "JPEG: mean error", "{err} over {n} samples");
    Ok(())
}

/// an image marked as premultiplied is written as what it shows
pub fn premultiplied(s: &mut Src, c: &mut Ctx) -> Res {
    let f = s.pick(&[ImageFormat::PNG, ImageFormat::PPM, ImageFormat::QOI, ImageFormat::Farbfeld]);
    let cs = s.pick(&[ColorSpace::RGBA, ColorSpace::LumaA]);
    let cs = if f == ImageFormat::QOI || f == ImageFormat::Farbfeld { ColorSpace::RGBA } else { cs };
    let d = if f == ImageFormat::Farbfeld { BitDepth::Sixteen } else { BitDepth::Eight };
    let (w, h) = (s.dim(20), s.dim(20));
    let mut p = pic(s, d, cs, w, h, 1);
    let a = cs.num_components() - 1;
    let m = p.max();
    let fr = &mut p.frames[0];
    let mut seen = false;
    for i in 0..w * h {
        // alphas that leave some precision
        let al = if fr[a][i] < m / 2.0 { m } else { fr[a][i] };
        fr[a][i] = al;
        for k in 0..a {
            seen |= al < 0.9 * m && fr[k][i] > 0.3 * m;
            fr[k][i] = (fr[k][i] * al / m).round();
        }
    }
    let mut i = p.image();
    i.metadata_mut().set_alpha(zune_image::metadata::AlphaState::PreMultiplied);
    c.label(&format!("{f:?}"));
    let Some(out) = write(s, c, f, &i, true)? else { return fail("premultiplied: encoding failed", p.text()) };
    let got = Pic::of(&read(s, f, &out, DecoderOptions::default())?)?;
    if seen {
        c.nontrivial();
    }
    for i in 0..w * h {
        let al = p.frames[0][a][i];
        check!(got.frames[0][a][i] == al, "premultiplied: alpha", "{} for {al}", got.frames[0][a][i]);
        for k in 0..a {
            let w = (p.frames[0][k][i] * m / al).min(m);
            check!((got.frames[0][k][i] - w).abs() <= 2.0, "premultiplied samples are written as if they weren't", "{f:?}: sample {i} of channel {k}: {} for {w} (premultiplied {}, alpha {al})", got.frames[0][k][i], p.frames[0][k][i]);
        }
    }
    Ok(())
}
