//! C38: recognising, opening and saving files
use crate::dec::{self, Fmt, Way, ALL};
use crate::util::{ne16, nef, pixels, slow};
use models::mutate;
use pbt::{check, fail, first_diff, Ctx, Fail, Res, Src};
use std::io::{BufReader, Cursor};
use std::path::PathBuf;
use zune_core::bit_depth::{BitDepth, BitType};
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_image::codecs::ImageFormat;
use zune_image::image::Image;
use zune_image::traits::{DecodeInto, DecoderTrait};

/// a scratch directory, removed at the end
struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("verif-open-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn of(f: Fmt) -> ImageFormat {
    match f {
        Fmt::Bmp => ImageFormat::BMP,
        Fmt::Qoi => ImageFormat::QOI,
        Fmt::Pnm => ImageFormat::PPM,
        Fmt::Ff => ImageFormat::Farbfeld,
        Fmt::Hdr => ImageFormat::HDR,
        Fmt::Psd => ImageFormat::PSD,
        Fmt::Png => ImageFormat::PNG,
        Fmt::Jpeg => ImageFormat::JPEG
    }
}

/// a JPEG XL or WebP file
fn other(s: &mut Src) -> (ImageFormat, Vec<u8>) {
    let (w, h) = (s.dim(20).max(2), s.dim(20).max(2));
    let a = s.bool();
    let px = pixels(s, w * h, if a { 4 } else { 3 });
    let mut o = vec![];
    if s.bool() {
        let eo = EncoderOptions::new(w, h, if a { ColorSpace::RGBA } else { ColorSpace::RGB }, BitDepth::Eight).set_num_threads(1);
        zune_jpegxl::JxlSimpleEncoder::new(&px, eo).encode(&mut o).unwrap();
        (ImageFormat::JPEG_XL, o)
    } else {
        let e = image_webp::WebPEncoder::new(&mut o);
        e.encode(&px, w as u32, h as u32, if a { image_webp::ColorType::Rgba8 } else { image_webp::ColorType::Rgb8 }).unwrap();
        (ImageFormat::WEBP, o)
    }
}

/// everything the caller can see of a picture
#[derive(PartialEq, Debug)]
struct Seen {
    dims: (usize, usize),
    cs: ColorSpace,
    depth: BitDepth,
    frames: Vec<(Vec<Vec<u8>>, String)>,
    exif: bool,
    icc: Option<Vec<u8>>,
    alpha: String
}

fn seen(i: &Image) -> Seen {
    let m = i.metadata();
    Seen {
        dims: i.dimensions(),
        cs: i.colorspace(),
        depth: i.depth(),
        frames: i
            .frames_ref()
            .iter()
            .map(|f| {
                let ch = f
                    .channels_ref(i.colorspace(), false)
                    .iter()
                    .map(|c| match i.depth().bit_type() {
                        BitType::U8 => c.reinterpret_as::<u8>().unwrap().to_vec(),
                        BitType::U16 => ne16(c.reinterpret_as::<u16>().unwrap()),
                        _ => nef(c.reinterpret_as::<f32>().unwrap())
                    })
                    .collect();
                (ch, format!("{}/{}", f.numerator(), f.denominator()))
            })
            .collect(),
        exif: m.exif().is_some(),
        icc: m.icc_chunk().cloned(),
        alpha: format!("{:?} {}", m.alpha(), m.is_linear())
    }
}

fn agree(a: &Seen, b: &Seen, what: &str) -> Res {
    if a == b {
        return Ok(());
    }
    let k = if (a.dims, a.cs, a.depth) != (b.dims, b.cs, b.depth) {
        format!("{:?} {:?} {:?} against {:?} {:?} {:?}", a.dims, a.cs, a.depth, b.dims, b.cs, b.depth)
    } else if a.frames != b.frames {
        format!("samples; {} and {} frames", a.frames.len(), b.frames.len())
    } else {
        "metadata".to_string()
    };
    fail(&format!("{what} gives another picture"), k)
}

fn interleave(s: &Seen) -> Vec<u8> {
    let n = s.depth.size_of();
    let ch = &s.frames[0].0;
    let mut o = Vec::with_capacity(ch.len() * ch[0].len());
    for i in 0..ch[0].len() / n {
        for c in ch {
            o.extend(&c[i * n..(i + 1) * n]);
        }
    }
    o
}

fn err<E: std::fmt::Debug>(sig: &str) -> impl Fn(E) -> Fail + '_ {
    move |e| Fail { sig: sig.into(), msg: format!("{e:?}") }
}

/// what a concrete decoder gives through the traits of the image library
fn concrete(s: &mut Src, f: Fmt, d: &[u8], o: DecoderOptions) -> Result<(Image, Option<Vec<u8>>), String> {
    use zune_image::codecs as k;
    let c = || ZCursor::new(d.to_vec());
    macro_rules! into {
        ($t:expr, $conv:expr) => {{
            let mut x = $t;
            let n = x.decode_output_buffer_size().map_err(|e| format!("{e:?}"))?;
            let mut b = vec![Default::default(); n];
            DecodeInto::decode_into(&mut x, &mut b).map_err(|e| format!("{e:?}"))?;
            $conv(b)
        }};
    }
    let want = s.bool();
    macro_rules! both {
        ($t:path, $conv:expr) => {{
            let i = if s.bool() { Image::from_decoder(<$t>::new_with_options(c(), o)) } else { DecoderTrait::decode(&mut <$t>::new_with_options(c(), o)) }.map_err(|e| format!("{e:?}"))?;
            let b = if want { Some(into!(<$t>::new_with_options(c(), o), $conv)) } else { None };
            Ok((i, b))
        }};
    }
    let bytes = |v: Vec<u8>| v;
    match f {
        Fmt::Bmp => both!(k::bmp::BmpDecoder<ZCursor<Vec<u8>>>, bytes),
        Fmt::Qoi => both!(k::qoi::QoiDecoder<ZCursor<Vec<u8>>>, bytes),
        Fmt::Hdr => both!(k::hdr::HdrDecoder<ZCursor<Vec<u8>>>, |v: Vec<f32>| nef(&v)),
        Fmt::Png => both!(k::png::PngDecoder<ZCursor<Vec<u8>>>, bytes),
        Fmt::Jpeg => both!(k::jpeg::JpegDecoder<ZCursor<Vec<u8>>>, bytes),
        Fmt::Ff => Ok((Image::from_decoder(k::farbfeld::FarbFeldDecoder::new_with_options(c(), o)).map_err(|e| format!("{e:?}"))?, None)),
        Fmt::Pnm => Ok((Image::from_decoder(k::ppm::PPMDecoder::new_with_options(c(), o)).map_err(|e| format!("{e:?}"))?, None)),
        Fmt::Psd => Ok((Image::from_decoder(k::psd::PSDDecoder::new_with_options(c(), o)).map_err(|e| format!("{e:?}"))?, None))
    }
}

/// one file through every way of opening it
pub fn open(s: &mut Src, c: &mut Ctx) -> Res {
    let (fmt, f, d) = if s.chance(1, 12) {
        let (i, d) = other(s);
        (i, None, d)
    } else {
        let f = s.pick(&ALL);
        let max = s.pick(&[2usize, 8, 40]);
        (of(f), Some(f), dec::valid(s, f, max))
    };
    let o = if s.bool() { DecoderOptions::default() } else { dec::options(s) }.set_max_width(1 << 16).set_max_height(1 << 16);
    c.note(format!("{fmt:?} {} bytes", d.len()));
    c.artifact("input.bin", &d);
    c.label(format!("{fmt:?}"));
    // recognition, and the reader stays usable
    let Some((g, rest)) = ImageFormat::guess_format(ZCursor::new(&d[..])) else { return fail("file not recognised", format!("{fmt:?}")) };
    check!(g == fmt, "file taken for another format", "{g:?} instead of {fmt:?}");
    check!(fmt.has_decoder(), "no decoder for a recognised file", "{fmt:?}");
    let read = |o: DecoderOptions| Image::read(ZCursor::new(&d[..]), o);
    let a = match read(o) {
        Ok(a) => a,
        Err(e) => {
            // an output colourspace that can't be had; every other entry must say so too
            check!(f == Some(Fmt::Jpeg), "valid file not opened", "{e:?}");
            c.label("refused");
            check!(fmt.decoder_with_options(rest, o).and_then(|mut x| x.decode()).is_err(), "entries disagree about a file", "");
            return Ok(());
        }
    };
    check!(a.metadata().image_format() == Some(fmt), "opened image names another format", "{:?}", a.metadata().image_format());
    c.nontrivial();
    let a = seen(&a);
    // the decoder picked by format, with or without asking for the headers first
    let mut x = fmt.decoder_with_options(rest, o).map_err(err("no decoder"))?;
    let headers = s.bool();
    let m = if headers { x.read_headers().map_err(err("headers refused"))? } else { None };
    let i = x.decode().map_err(err("decoder of the format refuses the file"))?;
    agree(&a, &seen(&i), if headers { "the format's decoder, after the headers," } else { "the format's decoder" })?;
    check!(x.dimensions() == Some(a.dims), "decoder reports other dimensions", "{:?} for {:?}", x.dimensions(), a.dims);
    check!(x.out_colorspace() == a.cs, "decoder reports another colourspace", "{:?} for {:?}", x.out_colorspace(), a.cs);
    if let Some(m) = m {
        // JPEG headers name the colourspace stored
        let cs = if fmt == ImageFormat::JPEG { a.cs } else { m.colorspace() };
        check!((m.dimensions(), cs, m.depth()) == (a.dims, a.cs, a.depth), "headers describe another picture", "{:?} {:?} {:?} for {:?} {:?} {:?}", m.dimensions(), m.colorspace(), m.depth(), a.dims, a.cs, a.depth);
    }
    // other readers
    match s.below(4) {
        0 => agree(&a, &seen(&Image::read(Cursor::new(&d), o).map_err(err("std Cursor refused"))?), "std Cursor")?,
        1 => {
            let cap = s.pick(&[1usize, 20, 8192]);
            let sl = slow(s, &d);
            agree(&a, &seen(&Image::read(BufReader::with_capacity(cap, sl), o).map_err(err("buffered reader refused"))?), "a buffered reader")?
        }
        2 => {
            let dir = Dir::new();
            // names don't matter when opening
            let p = dir.0.join(s.pick(&["x", "x.png", "x.jpg", "x.bin", "a b.qoi"]));
            std::fs::write(&p, &d).unwrap();
            agree(&a, &seen(&Image::open_with_options(&p, o).map_err(err("file refused"))?), "open_with_options")?;
            let r = Image::open(&p);
            let q = Image::read(ZCursor::new(&d), DecoderOptions::default());
            match (q, r) {
                (Ok(q), Ok(r)) => agree(&seen(&q), &seen(&r), "open")?,
                (q, r) => check!(q.is_err() && r.is_err() && a.dims.0.max(a.dims.1) > 1 << 14, "open refuses the file", "{:?}", r.map(|_| ()))
            }
            check!(std::fs::read(&p).unwrap() == d, "opening changes the file", "");
        }
        _ => {}
    }
    if let Some(f) = f {
        let (i, b) = match concrete(s, f, &d, o) {
            Ok(x) => x,
            Err(e) => return fail("concrete decoder refused", e)
        };
        agree(&a, &seen(&i), "the concrete decoder")?;
        if a.frames.len() == 1 && !(f == Fmt::Png && i.metadata().colorspace() != a.cs) {
            let px = interleave(&a);
            // the codec crate itself, and DecodeInto; animated files compose their frames
            let animated = f == Fmt::Png && d.windows(4).any(|w| w == b"acTL");
            if !animated {
                let r = dec::run(f, ZCursor::new(&d), o, Way::Decode).map_err(|e| Fail { sig: "codec crate refuses the file".into(), msg: e })?;
                check!((r.after.w, r.after.h) == a.dims, "codec crate reports other dimensions", "{:?}", r.after);
                check!(r.px == px, "codec crate gives other samples", "{:?}", first_diff(&r.px, &px));
                if let Some(b) = b {
                    c.label("decode_into");
                    let r = dec::run(f, ZCursor::new(&d), o, Way::Into(0)).map_err(|e| Fail { sig: "codec crate refuses the file".into(), msg: e })?;
                    let mut b = b;
                    if f == Fmt::Png && a.depth == BitDepth::Sixteen && dec_is_be(o) == cfg!(target_endian = "little") {
                        b.chunks_exact_mut(2).for_each(|x| x.swap(0, 1));
                    }
                    check!(r.px == b, "DecodeInto gives other samples", "{:?}", first_diff(&r.px, &b));
                }
            }
        }
    }
    Ok(())
}

fn dec_is_be(o: DecoderOptions) -> bool {
    o.byte_endian() == zune_core::bit_depth::ByteEndian::BE
}

const MAGIC: [(&[u8], ImageFormat); 13] = [
    (b"\x89PNG\r\n\x1a\n", ImageFormat::PNG),
    (b"\xff\xd8", ImageFormat::JPEG),
    (b"P5", ImageFormat::PPM),
    (b"P6", ImageFormat::PPM),
    (b"P7", ImageFormat::PPM),
    (b"Pf", ImageFormat::PPM),
    (b"PF", ImageFormat::PPM),
    (b"8BPS", ImageFormat::PSD),
    (b"farbfeld", ImageFormat::Farbfeld),
    (b"qoif", ImageFormat::QOI),
    (b"#?RADIANCE\n", ImageFormat::HDR),
    (b"#?RGBE\n", ImageFormat::HDR),
    (b"\xff\x0a", ImageFormat::JPEG_XL)
];

/// any bytes: the signature decides, and nothing else can be opened
pub fn tell(s: &mut Src, c: &mut Ctx) -> Res {
    let mut d = match s.below(4) {
        0 => {
            let n = s.usize(0, 60);
            s.data(n)
        }
        1 => {
            let (m, _) = s.pick(&MAGIC);
            let n = s.usize(0, 40);
            let mut v = m.to_vec();
            v.extend(s.data(n));
            v
        }
        2 => {
            let (_, v) = other(s);
            v
        }
        _ => {
            let f = s.pick(&ALL);
            dec::valid(s, f, 4)
        }
    };
    match s.below(4) {
        0 => d.truncate(s.usize(0, 40)),
        1 if !d.is_empty() => {
            let k = s.usize(0, d.len().min(16) - 1);
            d[k] ^= s.data(1)[0].max(1)
        }
        2 => mutate::edits(s, &mut d, 2),
        _ => {}
    }
    c.artifact("input.bin", &d);
    c.note(format!("{} bytes: {:02x?}", d.len(), &d[..d.len().min(20)]));
    let g = ImageFormat::guess_format(ZCursor::new(&d)).map(|x| x.0);
    let mut want: Vec<Option<ImageFormat>> = MAGIC.iter().filter(|(m, _)| d.starts_with(m)).map(|(_, f)| Some(*f)).collect();
    if d.starts_with(b"\0\0\0\x0cJXL \r\n\x87\n") {
        want.push(Some(ImageFormat::JPEG_XL));
    }
    if d.len() >= 12 && &d[..4] == b"RIFF" && &d[8..12] == b"WEBP" {
        want.push(Some(ImageFormat::WEBP));
    }
    if d.starts_with(b"BM") && d.len() > 14 && [12, 16, 40, 52, 56, 64, 108, 124].contains(&d[14]) {
        want.push(Some(ImageFormat::BMP));
    }
    if want.is_empty() {
        want.push(None);
    } else {
        c.nontrivial();
    }
    // too short for a picture
    if d.len() < 20 {
        want.push(None);
    }
    check!(want.contains(&g), "signature misjudged", "{g:?} instead of {want:?}");
    c.label(format!("{g:?}"));
    if matches!(g, Some(ImageFormat::JPEG_XL | ImageFormat::WEBP)) {
        // decoded by other people's crates, which may panic on damaged files
        return Ok(());
    }
    let o = DecoderOptions::default().set_max_width(300).set_max_height(300);
    let r = Image::read(ZCursor::new(&d), o);
    let q = g.map(|f| f.decoder_with_options(ZCursor::new(&d), o).and_then(|mut x| x.decode()));
    match (r, q) {
        (Ok(i), Some(Ok(j))) => agree(&seen(&j), &seen(&i), "read")?,
        (Err(_), None | Some(Err(_))) => {}
        (r, q) => return fail("read and the format's decoder disagree", format!("{:?} against {:?}", r.map(|_| ()), q.map(|x| x.map(|_| ()))))
    }
    Ok(())
}

const EXTS: [(&str, ImageFormat); 11] = [
    ("qoi", ImageFormat::QOI),
    ("ppm", ImageFormat::PPM),
    ("pam", ImageFormat::PPM),
    ("pgm", ImageFormat::PPM),
    ("pfm", ImageFormat::PPM),
    ("jpg", ImageFormat::JPEG),
    ("jpeg", ImageFormat::JPEG),
    ("jxl", ImageFormat::JPEG_XL),
    ("ff", ImageFormat::Farbfeld),
    ("hdr", ImageFormat::HDR),
    ("png", ImageFormat::PNG)
];

/// saving: the extension picks the format, every way of writing gives the same bytes, faults are reported
pub fn save(s: &mut Src, c: &mut Ctx) -> Res {
    let (w, h) = (s.dim(20).max(2), s.dim(20).max(2));
    let cs = s.pick(&[ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::BGR, ColorSpace::HSV]);
    let n = w * h * cs.num_components();
    let image = match s.below(3) {
        0 => Image::from_u8(&pixels(s, w * h, cs.num_components()), w, h, cs),
        1 => {
            let v = s.data16(n);
            Image::from_u16(&v, w, h, cs)
        }
        _ => {
            let v: Vec<f32> = s.data(n).into_iter().map(|x| x as f32 / 255.0).collect();
            Image::from_f32(&v, w, h, cs)
        }
    };
    let dir = Dir::new();
    let before = seen(&image);
    c.note(format!("{w}x{h} {cs:?} {:?}", image.depth()));
    if s.chance(1, 4) {
        // no such encoder
        let ext = s.pick(&["bmp", "psd", "webp", "txt", "", "pn", "pngg", "gif"]);
        let name = if ext.is_empty() { "x".to_string() } else { format!("x.{ext}") };
        let p = dir.0.join(&name);
        c.note(name.clone());
        check!(ImageFormat::encoder_for_extension(ext).is_none(), "encoder for an unknown extension", "{ext:?}");
        check!(image.save(&p).is_err(), "saved under an unknown extension", "{name}");
        check!(!p.exists(), "failed save leaves a file", "{name}");
        let f = s.pick(&[ImageFormat::BMP, ImageFormat::PSD, ImageFormat::WEBP, ImageFormat::Unknown]);
        check!(!f.has_encoder(), "format claims to have an encoder", "{f:?}");
        let mut v = vec![];
        check!(image.encode(f, &mut v).is_err() && v.is_empty() && image.write_to_vec(f).is_err(), "encoded without an encoder", "{f:?}");
        return Ok(());
    }
    let (ext, fmt) = s.pick(&EXTS);
    c.note(ext.to_string());
    check!(ImageFormat::encoder_for_extension(ext) == Some(fmt), "extension taken for another format", "{ext}: {:?}", ImageFormat::encoder_for_extension(ext));
    check!(fmt.has_encoder(), "format claims to have no encoder", "{fmt:?}");
    let mut v = vec![];
    let r = image.encode(fmt, &mut v);
    let p = dir.0.join(format!("x.{ext}"));
    let Ok(n) = r else {
        c.label(format!("{fmt:?} refused"));
        check!(image.save(&p).is_err() && image.write_to_vec(fmt).is_err(), "ways of saving disagree", "{r:?}");
        return Ok(());
    };
    c.nontrivial();
    c.label(format!("{fmt:?}"));
    check!(n == v.len(), "wrong byte count", "{n} reported, {} written", v.len());
    check!(ImageFormat::guess_format(ZCursor::new(&v)).map(|x| x.0) == Some(fmt), "what was written is not recognised", "{fmt:?}");
    if s.bool() {
        // replaces a longer file
        let k = v.len() + 1 + s.usize(0, 3000);
        std::fs::write(&p, s.data(k)).unwrap();
    }
    let way = s.below(5);
    match way {
        0 => {
            image.save(&p).map_err(err("save refused"))?;
            let f = std::fs::read(&p).unwrap();
            check!(f == v, "save writes other bytes", "{:?}", first_diff(&f, &v));
        }
        1 => {
            image.save_to(&p, fmt).map_err(err("save_to refused"))?;
            let f = std::fs::read(&p).unwrap();
            check!(f == v, "save_to writes other bytes", "{:?}", first_diff(&f, &v));
        }
        2 => {
            let f = image.write_to_vec(fmt).map_err(err("write_to_vec refused"))?;
            check!(f == v, "write_to_vec gives other bytes", "{:?}", first_diff(&f, &v));
        }
        3 => {
            use zune_image::codecs as k;
            let mut f = vec![];
            let n = match fmt {
                ImageFormat::QOI => image.write_with_encoder(k::qoi::QoiEncoder::new(), &mut f),
                ImageFormat::PPM => image.write_with_encoder(k::ppm::PPMEncoder::new(), &mut f),
                ImageFormat::JPEG => image.write_with_encoder(k::jpeg::JpegEncoder::new(), &mut f),
                ImageFormat::JPEG_XL => image.write_with_encoder(k::jpeg_xl::JxlEncoder::new(), &mut f),
                ImageFormat::Farbfeld => image.write_with_encoder(k::farbfeld::FarbFeldEncoder::new(), &mut f),
                ImageFormat::HDR => image.write_with_encoder(k::hdr::HdrEncoder::new(), &mut f),
                _ => image.write_with_encoder(k::png::PngEncoder::new(), &mut f)
            }
            .map_err(err("write_with_encoder refused"))?;
            check!(f == v && n == f.len(), "write_with_encoder gives other bytes", "{n} {:?}", first_diff(&f, &v));
        }
        _ => {
            // a disk that is full, a directory that isn't there
            let full = std::path::Path::new("/dev/full");
            if full.exists() {
                check!(image.save_to(full, fmt).is_err(), "full disk not reported", "{} bytes", v.len());
            }
            check!(image.save(dir.0.join("none").join(format!("x.{ext}"))).is_err(), "missing directory not reported", "");
        }
    }
    agree(&before, &seen(&image), "saving")?;
    Ok(())
}
