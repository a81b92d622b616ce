use models::png as mp;
use pbt::{check, fail, first_diff, Ctx, Res, Src};
use zune_core::bit_depth::{BitDepth, ByteEndian};
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_core::result::DecodingResult;
use zune_png::PngDecoder;

pub fn cs(n: usize) -> ColorSpace {
    [ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA][n - 1]
}

pub fn gen_options(s: &mut Src) -> DecoderOptions {
    let mut o = DecoderOptions::default();
    if s.chance(1, 3) {
        o = o.png_set_add_alpha_channel(true);
    }
    if s.chance(1, 3) {
        o = o.png_set_strip_to_8bit(true);
    }
    if s.bool() {
        o = o.set_byte_endian(ByteEndian::LE);
    }
    if s.chance(1, 3) {
        o = o.set_use_unsafe(false);
    }
    if s.chance(1, 4) {
        o = o.png_set_confirm_crc(true);
    }
    if s.chance(1, 4) {
        o = o.inflate_set_confirm_adler(true);
    }
    if s.chance(1, 4) {
        o = o.set_strict_mode(true);
    }
    o
}

/// the png crate's view of the file, as 8-bit or 16-bit samples
fn oracle(file: &[u8]) -> (usize, usize, usize, bool, Vec<u16>) {
    let mut d = png::Decoder::new(std::io::Cursor::new(file));
    d.set_transformations(png::Transformations::EXPAND);
    let mut r = d.read_info().expect("png crate rejects the generated file");
    let mut buf = vec![0; r.output_buffer_size().unwrap()];
    let i = r.next_frame(&mut buf).expect("png crate rejects the generated file");
    let sixteen = i.bit_depth == png::BitDepth::Sixteen;
    let n = match i.color_type {
        png::ColorType::Grayscale => 1,
        png::ColorType::GrayscaleAlpha => 2,
        png::ColorType::Rgb => 3,
        _ => 4
    };
    let b = &buf[..i.buffer_size()];
    let v = if sixteen { b.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect() } else { b.iter().map(|x| *x as u16).collect() };
    (i.width as usize, i.height as usize, n, sixteen, v)
}

pub fn describe(o: &DecoderOptions) -> String {
    format!("add_alpha {} strip16 {} endian {:?} unsafe {} crc {} adler {} strict {}", o.png_get_add_alpha_channel(), o.png_get_strip_to_8bit(), o.byte_endian(), o.use_unsafe(), o.png_get_confirm_crc(), o.inflate_get_confirm_adler(), o.strict_mode())
}

pub fn to_bytes(px: &[u16], sixteen: bool, strip: bool, e: ByteEndian) -> Vec<u8> {
    if !sixteen {
        px.iter().map(|v| *v as u8).collect()
    } else if strip {
        px.iter().map(|v| (*v >> 8) as u8).collect()
    } else {
        px.iter().flat_map(|v| if e == ByteEndian::BE { v.to_be_bytes() } else { v.to_le_bytes() }).collect()
    }
}

fn run(s: &mut Src, c: &mut Ctx, sp: &mp::Spec) -> Res {
    let chunks = mp::chunks(s, sp);
    let file = mp::write(&chunks);
    c.artifact("input.png", &file);
    let o = gen_options(s);
    let api = s.below(3);
    c.note(format!("{sp:?}; {}; api {}", describe(&o), ["decode_raw", "decode_into", "decode"][api as usize]));
    if sp.h > 1 || sp.interlace || sp.color == 3 || sp.trns != mp::Trns::None {
        c.nontrivial();
    }
    c.label(format!("type {} depth {}", sp.color, sp.depth));
    if sp.interlace {
        c.label("interlaced");
    }
    if sp.trns != mp::Trns::None {
        c.label("tRNS");
    }
    let add = o.png_get_add_alpha_channel();
    let strip = o.png_get_strip_to_8bit();
    let sixteen = sp.depth == 16;
    let n = mp::out_channels(sp, add);
    let want = mp::pixels(sp, &sp.samples, add);
    // the model itself
    let ow = oracle(&file);
    let plain = mp::pixels(sp, &sp.samples, false);
    assert!(ow.0 == sp.w && ow.1 == sp.h && ow.3 == sixteen && ow.4 == plain, "model disagrees with the png crate: {sp:?}");

    let mut d = PngDecoder::new_with_options(ZCursor::new(&file), o);
    if s.bool() {
        if let Err(e) = d.decode_headers() {
            return fail("valid file rejected by decode_headers", format!("{e:?}"));
        }
        check!(d.dimensions() == Some((sp.w, sp.h)), "wrong dimensions", "{:?}", d.dimensions());
        check!(d.output_buffer_size() == Some(sp.w * sp.h * n * if sixteen && !strip { 2 } else { 1 }), "wrong output_buffer_size", "{:?}", d.output_buffer_size());
    }
    let err = |e: zune_png::error::PngDecodeErrors| fail("valid file rejected", format!("{e:?}"));
    match api {
        0 => match d.decode_raw() {
            Ok(v) => {
                let w = to_bytes(&want, sixteen, strip, o.byte_endian());
                if let Some(x) = first_diff(&v, &w) {
                    return fail("decode_raw: wrong pixels", x);
                }
            }
            Err(e) => return err(e)
        },
        1 => {
            let w = to_bytes(&want, sixteen, strip, o.byte_endian());
            let extra = if s.bool() { 0 } else { s.usize(1, 50) };
            let mut buf = vec![0xA5; w.len() + extra];
            if let Err(e) = d.decode_into(&mut buf) {
                return err(e);
            }
            if let Some(x) = first_diff(&buf[..w.len()], &w) {
                return fail("decode_into: wrong pixels", x);
            }
            check!(buf[w.len()..].iter().all(|x| *x == 0xA5), "decode_into writes beyond the announced size", "extra {extra}");
        }
        _ => match d.decode() {
            Ok(DecodingResult::U8(v)) => {
                check!(!sixteen || strip, "decode: 8-bit result for a 16-bit image", "");
                let w = to_bytes(&want, sixteen, strip, ByteEndian::BE);
                if let Some(x) = first_diff(&v, &w) {
                    return fail("decode: wrong pixels", x);
                }
            }
            Ok(DecodingResult::U16(v)) => {
                check!(sixteen && !strip, "decode: 16-bit result for an 8-bit image", "");
                if let Some(x) = first_diff(&v, &want) {
                    return fail("decode: wrong pixels (16 bit)", x);
                }
            }
            Ok(_) => return fail("decode: unexpected result kind", ""),
            Err(e) => return err(e)
        }
    }
    check!(d.dimensions() == Some((sp.w, sp.h)), "wrong dimensions", "{:?}", d.dimensions());
    check!(d.colorspace() == Some(cs(n)), "wrong colourspace", "{:?} expected {:?}", d.colorspace(), cs(n));
    let dep = if sixteen && !strip { BitDepth::Sixteen } else { BitDepth::Eight };
    check!(d.depth() == Some(dep), "wrong depth", "{:?}", d.depth());
    check!(!d.is_animated() && !d.more_frames(), "a still image claims more frames", "");
    Ok(())
}

pub fn pixels(s: &mut Src, c: &mut Ctx) -> Res {
    let sp = mp::gen_spec(s, 70);
    run(s, c, &sp)
}

pub fn large(s: &mut Src, c: &mut Ctx) -> Res {
    let sp = mp::gen_spec(s, 1500);
    run(s, c, &sp)
}

/// option setters have their documented effect
pub fn options(s: &mut Src, c: &mut Ctx) -> Res {
    let fast = s.below(3);
    let mut o = match fast {
        0 => DecoderOptions::default(),
        1 => DecoderOptions::new_fast(),
        _ => DecoderOptions::new_cmd()
    };
    c.nontrivial();
    o = o.set_use_unsafe(false);
    check!(!o.use_unsafe() && !o.use_sse2() && !o.use_sse3() && !o.use_sse41() && !o.use_avx() && !o.use_avx2() && !o.use_neon(), "set_use_unsafe(false) leaves intrinsics on", "");
    let (a, b, d) = (s.bool(), s.bool(), s.bool());
    o = o.png_set_add_alpha_channel(a).png_set_strip_to_8bit(b).png_set_confirm_crc(d);
    check!(o.png_get_add_alpha_channel() == a && o.png_get_strip_to_8bit() == b && o.png_get_confirm_crc() == d, "png option getters", "");
    o = o.set_use_unsafe(true);
    #[cfg(target_arch = "x86_64")]
    check!(o.use_sse2(), "set_use_unsafe(true) disables sse2", "");
    let e = if s.bool() { ByteEndian::LE } else { ByteEndian::BE };
    check!(o.set_byte_endian(e).byte_endian() == e, "byte endian getter", "");
    let (w, h) = (s.usize(0, 1 << 20), s.usize(0, 1 << 20));
    let q = o.set_max_width(w).set_max_height(h);
    check!(q.max_width() == w && q.max_height() == h, "limit getters", "");
    Ok(())
}
