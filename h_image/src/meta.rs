//! C34: metadata
use crate::hist;
use crate::im::*;
use crate::save;
use exif::{Context, Field, In, Tag, Value};
use pbt::{check, fail, Ctx, Fail, Res, Src};
use std::collections::BTreeMap;
use std::io::Read;
use zune_core::bytestream::ZCursor;
use zune_core::options::EncoderOptions;
use zune_image::codecs::ImageFormat;
use zune_image::image::Image;
use zune_image::metadata::ImageMetadata;

fn value(s: &mut Src, tag: Tag) -> Value {
    if tag == Tag::Orientation {
        return Value::Short(vec![s.below(10) as u16]);
    }
    let n = if s.chance(1, 12) { s.usize(1, 900) } else { s.usize(1, 5) };
    let mut r = s.rng();
    let mut many = |n: usize| -> Vec<u64> { (0..n).map(|_| r.next()).collect() };
    let v = many(n);
    match s.below(12) {
        0 => Value::Byte(v.iter().map(|x| *x as u8).collect()),
        1 | 2 => Value::Ascii(v.chunks(40).map(|c| c.iter().map(|x| (*x % 255 + 1) as u8).collect()).collect()),
        3 => Value::Short(v.iter().map(|x| *x as u16).collect()),
        4 => Value::Long(v.iter().map(|x| *x as u32).collect()),
        5 => Value::Rational(v.iter().map(|x| exif::Rational { num: *x as u32, denom: (*x >> 32) as u32 }).collect()),
        6 => Value::SByte(v.iter().map(|x| *x as i8).collect()),
        7 => Value::Undefined(v.iter().map(|x| *x as u8).collect(), 0),
        8 => Value::SShort(v.iter().map(|x| *x as i16).collect()),
        9 => Value::SLong(v.iter().map(|x| *x as i32).collect()),
        10 => Value::SRational(v.iter().map(|x| exif::SRational { num: *x as i32, denom: (*x >> 32) as i32 }).collect()),
        _ => {
            if s.bool() {
                Value::Float(v.iter().map(|x| (*x as i32) as f32 / 1000.0).collect())
            } else {
                Value::Double(v.iter().map(|x| (*x as i64) as f64 / 1000.0).collect())
            }
        }
    }
}

const TAGS: [Tag; 24] = [
    Tag::Orientation,
    Tag::ImageWidth,
    Tag::ImageLength,
    Tag::Make,
    Tag::Model,
    Tag::Software,
    Tag::DateTime,
    Tag::Artist,
    Tag::Copyright,
    Tag::XResolution,
    Tag::YResolution,
    Tag::ResolutionUnit,
    Tag::ExposureTime,
    Tag::FNumber,
    Tag::ExifVersion,
    Tag::DateTimeOriginal,
    Tag::MakerNote,
    Tag::UserComment,
    Tag::ColorSpace,
    Tag::PixelXDimension,
    Tag::GPSLatitude,
    Tag::GPSLongitudeRef,
    Tag::GPSDateStamp,
    Tag::InteroperabilityIndex,
];

fn fields(s: &mut Src) -> Vec<Field> {
    let mut v: BTreeMap<(u16, u16, u16), Field> = BTreeMap::new();
    for _ in 0..1 + s.usize(0, 9) {
        let tag = if s.chance(1, 5) {
            // something nobody knows
            Tag(s.pick(&[Context::Tiff, Context::Exif, Context::Gps]), 0x9d00 + s.below(200) as u16)
        } else {
            s.pick(&TAGS)
        };
        let f = Field { tag, ifd_num: In::PRIMARY, value: value(s, tag) };
        v.insert((0, f.tag.context() as u16, f.tag.number()), f);
    }
    if s.chance(1, 6) {
        // the second directory
        for _ in 0..1 + s.usize(0, 2) {
            let tag = s.pick(&TAGS[..12]);
            let f = Field { tag, ifd_num: In::THUMBNAIL, value: value(s, tag) };
            v.insert((1, f.tag.context() as u16, f.tag.number()), f);
        }
    }
    v.into_values().collect()
}

/// fields in a form that can be compared
pub fn shown(v: &[Field]) -> Vec<String> {
    let mut t: Vec<String> = v
        .iter()
        .map(|f| {
            let v = match &f.value {
                Value::Undefined(b, _) => format!("Undefined({b:?})"),
                v => format!("{v:?}"),
            };
            format!("{:?} {:?} {:?} {v}", f.ifd_num, f.tag.context(), f.tag.number())
        })
        .collect();
    t.sort();
    t
}

fn raw_exif(v: &[Field], little: bool) -> Vec<u8> {
    let mut w = exif::experimental::Writer::new();
    v.iter().for_each(|f| w.push_field(f));
    let mut b = std::io::Cursor::new(vec![]);
    w.write(&mut b, little).unwrap();
    b.into_inner()
}

struct File {
    format: ImageFormat,
    bytes: Vec<u8>,
    exif: Option<Vec<Field>>,
    icc: Option<Vec<u8>>,
}

fn chunk(out: &mut Vec<u8>, name: &[u8; 4], data: &[u8]) {
    out.extend((data.len() as u32).to_be_bytes());
    let at = out.len();
    out.extend(name);
    out.extend(data);
    let mut c = flate2::Crc::new();
    c.update(&out[at..]);
    out.extend(c.sum().to_be_bytes());
}

/// a file of a format that holds metadata, made without the library under test
fn file(s: &mut Src) -> File {
    let format = s.pick(&[ImageFormat::PNG, ImageFormat::PNG, ImageFormat::JPEG, ImageFormat::JPEG, ImageFormat::WEBP, ImageFormat::BMP]);
    let (w, h) = (s.dim(12), s.dim(12));
    let mut exif = if format != ImageFormat::BMP && s.chance(3, 4) { Some(fields(s)) } else { None };
    let mut icc = if s.chance(2, 3) {
        let n = match s.below(12) {
            0 => s.pick(&[65_518usize, 65_519, 65_520, 65_521, 65_533, 131_038, 131_039, 200_000]),
            1 => s.usize(1, 3),
            _ => s.usize(1, 700),
        };
        let kind = s.below(3);
        let mut r = s.rng();
        let d: Vec<u8> = (0..n).map(|i| [r.byte(), 0, (i / 7) as u8][kind as usize]).collect();
        Some(if s.chance(1, 5) { moxcms::ColorProfile::new_display_p3().encode().unwrap() } else { d })
    } else {
        None
    };
    let raw = exif.as_ref().map(|v| raw_exif(v, s.bool()));
    if raw.as_ref().is_some_and(|r| r.len() > 60_000) {
        exif = None;
    }
    let raw = if exif.is_some() { raw } else { None };
    let mut r = s.rng();
    let mut data = |n: usize| -> Vec<u8> { (0..n).map(|_| r.byte()).collect() };
    let bytes = match format {
        ImageFormat::PNG => {
            let (kind, n) = s.pick(&[(0u8, 1usize), (2, 3), (4, 2), (6, 4)]);
            let deep = s.bool();
            let n = n * if deep { 2 } else { 1 };
            let mut o = vec![137, 80, 78, 71, 13, 10, 26, 10];
            let mut head = vec![];
            head.extend((w as u32).to_be_bytes());
            head.extend((h as u32).to_be_bytes());
            head.extend([if deep { 16 } else { 8 }, kind, 0, 0, 0]);
            chunk(&mut o, b"IHDR", &head);
            let zip = |d: &[u8]| {
                let mut z = flate2::read::ZlibEncoder::new(d, flate2::Compression::new(4));
                let mut v = vec![];
                z.read_to_end(&mut v).unwrap();
                v
            };
            if let Some(p) = &icc {
                let mut d: Vec<u8> = vec![b'n'; s.usize(1, 79)];
                d.extend([0, 0]);
                d.extend(zip(p));
                chunk(&mut o, b"iCCP", &d);
            }
            let late = s.bool();
            if let (Some(e), false) = (&raw, late) {
                chunk(&mut o, b"eXIf", e);
            }
            let mut px = vec![];
            for _ in 0..h {
                px.push(0);
                px.extend(data(w * n));
            }
            chunk(&mut o, b"IDAT", &zip(&px));
            if let (Some(e), true) = (&raw, late) {
                // allowed after the pixels too, but the decoder stops there: not counted
                let _ = e;
                exif = None;
            }
            chunk(&mut o, b"IEND", &[]);
            o
        }
        ImageFormat::JPEG => {
            let (c, n) = s.pick(&[(jpeg_encoder::ColorType::Luma, 1usize), (jpeg_encoder::ColorType::Rgb, 3), (jpeg_encoder::ColorType::Cmyk, 4)]);
            let mut o = vec![];
            let mut e = jpeg_encoder::Encoder::new(&mut o, 90);
            let exif_first = s.bool();
            let seg = raw.as_ref().map(|r| [b"Exif\0\0".as_slice(), r].concat());
            if let (Some(d), true) = (&seg, exif_first) {
                e.add_app_segment(1, d).unwrap();
            }
            if let Some(p) = &icc {
                e.add_icc_profile(p).unwrap();
            }
            if let (Some(d), false) = (&seg, exif_first) {
                e.add_app_segment(1, d).unwrap();
            }
            e.set_progressive(s.bool());
            e.encode(&data(w * h * n), w as u16, h as u16, c).unwrap();
            o
        }
        ImageFormat::WEBP => {
            let mut o = vec![];
            let mut e = image_webp::WebPEncoder::new(&mut o);
            if let Some(p) = &icc {
                e.set_icc_profile(p.clone());
            }
            if let Some(r) = &raw {
                e.set_exif_metadata(r.clone());
            }
            let (c, n) = if s.bool() { (image_webp::ColorType::Rgb8, 3) } else { (image_webp::ColorType::Rgba8, 4) };
            e.encode(&data(w * h * n), w as u32, h as u32, c).unwrap();
            o
        }
        _ => {
            // a bitmap of version 5, the profile follows the pixels
            let row = (w * 3 + 3) / 4 * 4;
            let p = icc.get_or_insert_with(|| vec![7; 20]).clone();
            let mut o = b"BM".to_vec();
            let total = 14 + 124 + row * h + p.len();
            o.extend((total as u32).to_le_bytes());
            o.extend([0; 4]);
            o.extend((138u32).to_le_bytes());
            let mut v5 = vec![0u8; 124];
            let mut put = |at: usize, v: u32| v5[at..at + 4].copy_from_slice(&v.to_le_bytes());
            put(0, 124);
            put(4, w as u32);
            put(8, h as u32);
            put(12, 1 | 24 << 16);
            put(20, (row * h) as u32);
            put(56, u32::from_be_bytes(*b"MBED"));
            put(112, (124 + row * h) as u32);
            put(116, p.len() as u32);
            o.extend(v5);
            for _ in 0..h {
                o.extend(data(w * 3));
                o.extend(vec![0; row - w * 3]);
            }
            o.extend(&p);
            o
        }
    };
    File { format, bytes, exif, icc }
}

/// what a written file holds, found without the library under test
struct Found {
    exif: Option<Vec<u8>>,
    icc: Option<Vec<u8>>,
}

fn look(f: ImageFormat, b: &[u8]) -> Result<Found, Fail> {
    let mut found = Found { exif: None, icc: None };
    let bad = |m: &str| Fail { sig: format!("{f:?}: malformed output"), msg: m.to_string() };
    match f {
        ImageFormat::PNG => {
            let mut at = 8;
            let mut pixels = false;
            while at + 12 <= b.len() {
                let n = u32::from_be_bytes(b[at..at + 4].try_into().unwrap()) as usize;
                let name = &b[at + 4..at + 8];
                let d = b.get(at + 8..at + 8 + n).ok_or_else(|| bad("chunk cut short"))?;
                let mut c = flate2::Crc::new();
                c.update(&b[at + 4..at + 8 + n]);
                check!(b[at + 8 + n..at + 12 + n] == c.sum().to_be_bytes(), "PNG: wrong checksum", "{name:?}");
                pixels |= name == b"IDAT";
                match name {
                    b"eXIf" => {
                        check!(found.exif.is_none(), "PNG: two eXIf chunks", "");
                        found.exif = Some(d.to_vec())
                    }
                    b"iCCP" => {
                        check!(found.icc.is_none(), "PNG: two iCCP chunks", "");
                        check!(!pixels, "PNG: iCCP after the pixels", "");
                        let z = d.iter().position(|x| *x == 0).ok_or_else(|| bad("profile without a name"))?;
                        check!((1..=79).contains(&z) && d.get(z + 1) == Some(&0), "PNG: iCCP header", "{:?}", &d[..d.len().min(90)]);
                        let mut v = vec![];
                        flate2::read::ZlibDecoder::new(&d[z + 2..]).read_to_end(&mut v).map_err(|e| bad(&e.to_string()))?;
                        found.icc = Some(v);
                    }
                    _ => {}
                }
                at += 12 + n;
            }
            check!(at == b.len(), "PNG: malformed output", "ends at {at} of {}", b.len());
        }
        _ => {
            let mut at = 2;
            let mut icc: Vec<(u8, u8, Vec<u8>)> = vec![];
            loop {
                let head = b.get(at..at + 4).ok_or_else(|| bad("no scan"))?;
                check!(head[0] == 0xff, "JPEG: malformed output", "at {at}");
                if head[1] == 0xda {
                    break;
                }
                let n = u16::from_be_bytes([head[2], head[3]]) as usize;
                let d = b.get(at + 4..at + 2 + n).ok_or_else(|| bad("segment cut short"))?;
                match head[1] {
                    0xe1 if d.starts_with(b"Exif\0\0") => {
                        check!(found.exif.is_none(), "JPEG: two EXIF segments", "");
                        found.exif = Some(d[6..].to_vec())
                    }
                    0xe2 if d.starts_with(b"ICC_PROFILE\0") => icc.push((d[12], d[13], d[14..].to_vec())),
                    _ => {}
                }
                at += 2 + n;
            }
            if !icc.is_empty() {
                icc.sort();
                let n = icc.len();
                check!(icc.iter().enumerate().all(|(i, c)| c.0 as usize == i + 1 && c.1 as usize == n), "JPEG: profile chunks", "");
                found.icc = Some(icc.into_iter().flat_map(|c| c.2).collect());
            }
        }
    }
    Ok(found)
}

fn kept(what: &str, m: &ImageMetadata, exif: &Option<Vec<String>>, icc: &Option<Vec<u8>>) -> Res {
    let e = m.exif().map(|v| shown(v));
    check!(&e == exif, &format!("{what}: EXIF"), "got {e:?}, expected {exif:?}");
    let p = m.icc_chunk();
    check!(p == icc.as_ref(), &format!("{what}: profile"), "got {:?} bytes, expected {:?}", p.map(|p| p.len()), icc.as_ref().map(|p| p.len()));
    Ok(())
}

pub fn metadata(s: &mut Src, c: &mut Ctx) -> Res {
    let f = file(s);
    c.label(format!("{:?}", f.format));
    c.note(format!("{:?}: {} fields, profile of {:?} bytes", f.format, f.exif.as_ref().map_or(0, |v| v.len()), f.icc.as_ref().map(|p| p.len())));
    c.artifact("input", &f.bytes);
    let name = format!("reading {:?}", f.format);
    let e = |e: zune_image::errors::ImageErrors| Fail { sig: format!("{name} failed"), msg: format!("{e:?}") };
    // through any entrance
    let (mut i, head) = match s.below(3) {
        0 => (Image::read(ZCursor::new(&f.bytes), Default::default()).map_err(e)?, None),
        1 => {
            let mut d = f.format.decoder(ZCursor::new(&f.bytes)).map_err(e)?;
            let head = d.read_headers().map_err(e)?;
            (d.decode().map_err(e)?, head)
        }
        _ => {
            let mut d = f.format.decoder(std::io::Cursor::new(&f.bytes)).map_err(e)?;
            (d.decode().map_err(e)?, None)
        }
    };
    Pic::of(&i)?;
    let mut exif = f.exif.as_ref().map(|v| shown(v));
    let icc = f.icc.clone();
    kept(&name, i.metadata(), &exif, &icc)?;
    check!(i.metadata().image_format() == Some(f.format), &format!("{name}: format"), "{:?}", i.metadata().image_format());
    if let Some(m) = head {
        kept(&format!("headers of {:?}", f.format), &m, &exif, &icc)?;
        check!(m.dimensions() == i.dimensions() && m.depth() == i.depth(), "headers differ from the image", "{:?} {:?}, image {:?} {:?}", m.dimensions(), m.depth(), i.dimensions(), i.depth());
        // (JPEG headers give the colourspace of the file)
        check!(m.colorspace() == i.colorspace() || f.format == ImageFormat::JPEG, "headers differ from the image", "{:?} {:?}", m.colorspace(), i.colorspace());
    }
    // operations keep it
    let mut text = name.clone();
    
    for _ in 0..s.usize(0, 4) {
        let step = hist::any_step(s, &i);
        if step.name.starts_with("profile") {
            // this one is there to change it
            continue;
        }
        text = format!("{text}; {}", step.name);
        c.note(text.clone());
        let r = step.run(&mut i);
        Pic::of(&i)?;
        let op = step.name.split(' ').next().unwrap();
        if op == "auto" && r.is_ok() && exif.is_some() {
            // the orientation, and only that, becomes 1
            let want: Vec<Field> = f
                .exif
                .as_ref()
                .unwrap()
                .iter()
                .map(|f| match f.tag {
                    Tag::Orientation => Field { tag: f.tag, ifd_num: f.ifd_num, value: Value::Short(vec![1]) },
                    _ => f.clone(),
                })
                .collect();
            // (of the thumbnail it may stay)
            let keep: Vec<Field> = f
                .exif
                .as_ref()
                .unwrap()
                .iter()
                .map(|f| match (f.tag, f.ifd_num) {
                    (Tag::Orientation, In::PRIMARY) => Field { tag: f.tag, ifd_num: f.ifd_num, value: Value::Short(vec![1]) },
                    _ => f.clone(),
                })
                .collect();
            let got = i.metadata().exif().map(|v| shown(v));
            if got == Some(shown(&keep)) {
                exif = got;
            } else {
                exif = Some(shown(&want));
            }

        }
        kept(op, i.metadata(), &exif, &icc)?;
        if i.dimensions().0 == 0 || i.dimensions().1 == 0 {
            return Ok(());
        }
    }
    // and it is written
    let out = s.pick(&[ImageFormat::PNG, ImageFormat::JPEG, ImageFormat::PNG, ImageFormat::JPEG, ImageFormat::QOI, ImageFormat::PPM, ImageFormat::JPEG_XL, ImageFormat::HDR, ImageFormat::Farbfeld]);
    let strip = s.bool();
    let mut o = EncoderOptions::default();
    if strip || s.bool() {
        o = o.set_strip_metadata(strip);
    }
    let strip = o.strip_metadata();
    text = format!("{text}; {out:?} strip {strip}");
    c.note(text);
    let mut b = vec![];
    let r = out.encode(&i, o, &mut b);
    if save::converted(&i, out)?.is_none() {
        return Ok(());
    }
    if let Err(e) = r {
        let (w, h) = i.dimensions();
        if out == ImageFormat::JPEG_XL && (w < 2 || h < 2) {
            return Ok(());
        }
        return fail(&format!("writing {out:?} failed"), format!("{e:?}"));
    }
    c.artifact("output", &b);
    if exif.is_some() || icc.is_some() {
        c.nontrivial();
    }
    if out == ImageFormat::PNG || out == ImageFormat::JPEG {
        let got = look(out, &b)?;
        if strip {
            check!(got.exif.is_none(), &format!("{out:?}: EXIF written though stripped"), "");
            check!(got.icc.is_none(), &format!("{out:?}: profile written though stripped"), "");
        } else {
            let fields = match got.exif {
                None => None,
                Some(raw) => Some(shown(&exif::parse_exif(&raw).map_err(|e| Fail { sig: format!("{out:?}: EXIF unreadable"), msg: e.to_string() })?.0)),
            };
            check!(fields == exif, &format!("{out:?}: EXIF written"), "got {fields:?}, expected {exif:?}");
            check!(got.icc == icc, &format!("{out:?}: profile written"), "got {:?} bytes, expected {:?}", got.icc.as_ref().map(|p| p.len()), icc.as_ref().map(|p| p.len()));
            let j = Image::read(ZCursor::new(&b), Default::default()).map_err(|e| Fail { sig: "can't read what was written".into(), msg: format!("{e:?}") })?;
            kept("read again", j.metadata(), &exif, &icc)?;
        }
    }
    // a clone for the conversion leaves the image alone
    kept("after encoding", i.metadata(), &exif, &icc)
}

/// pictures of each format without metadata: what the metadata says of the pixels
pub fn described(s: &mut Src, c: &mut Ctx) -> Res {
    let f = s.pick(&save::LOSSLESS);
    let f = if s.chance(1, 5) { ImageFormat::JPEG } else { f };
    let p = any_pic(s, 12);
    let i = p.image();
    c.note(format!("{} as {f:?}", p.text()));
    let mut b = vec![];
    if f.encode(&i, save::options(s), &mut b).is_err() {
        return Ok(());
    }
    c.nontrivial();
    c.label(format!("{f:?}"));
    let mut o = zune_core::options::DecoderOptions::default();
    if s.bool() {
        o = o.png_set_strip_to_8bit(s.bool()).png_set_add_alpha_channel(s.bool());
    }
    let e = |e: zune_image::errors::ImageErrors| Fail { sig: format!("{f:?}: reading failed"), msg: format!("{e:?}") };
    let mut d = f.decoder_with_options(ZCursor::new(&b), o).map_err(e)?;
    let m = d.read_headers().map_err(e)?;
    let early = (d.dimensions(), d.out_colorspace());
    let j = d.decode().map_err(e)?;
    Pic::of(&j)?;
    check!(j.dimensions() == (p.w, p.h), "dimensions", "{:?} for {}", j.dimensions(), p.text());
    check!(early.0 == Some(j.dimensions()), "decoder's dimensions", "{:?}", early.0);
    check!(d.dimensions() == Some(j.dimensions()) && d.out_colorspace() == j.colorspace(), "decoder's account", "{:?} {:?} for {:?} {:?}", d.dimensions(), d.out_colorspace(), j.dimensions(), j.colorspace());
    check!(early.1 == j.colorspace(), "decoder's colourspace", "{:?} for {:?}", early.1, j.colorspace());
    check!(j.metadata().image_format() == Some(f), "format", "{:?} for {f:?}", j.metadata().image_format());
    check!(j.metadata().alpha() == zune_image::metadata::AlphaState::NonPreMultiplied, "alpha state", "");
    match m {
        None => return fail("no headers", format!("{f:?}")),
        Some(m) => {
            check!(m.dimensions() == j.dimensions() && m.depth() == j.depth() && m.image_format() == Some(f), "headers", "{f:?} {:?} {:?} {:?} for {:?} {:?}", m.dimensions(), m.depth(), m.image_format(), j.dimensions(), j.depth());
            check!(m.colorspace() == j.colorspace() || f == ImageFormat::JPEG, "headers: colourspace", "{f:?} {:?} for {:?}", m.colorspace(), j.colorspace());
        }
    }
    
    Ok(())
}
