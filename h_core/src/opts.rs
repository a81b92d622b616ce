//! C35: options carry exactly what was set
use pbt::{check, Ctx, Res, Src};
use zune_core::bit_depth::{BitDepth, ByteEndian};
use zune_core::colorspace::{ColorSpace, ALL_COLORSPACES};
use zune_core::options::{DecoderOptions, EncoderOptions};

#[derive(Clone, PartialEq, Debug)]
struct D {
    w: usize,
    h: usize,
    cs: ColorSpace,
    scans: usize,
    limit: usize,
    endian: ByteEndian,
    adler: bool,
    crc: bool,
    jpg_strict: bool,
    fast: bool,
    alpha: bool,
    strip: bool,
    anim: bool,
    jxl: bool
}

fn size(s: &mut Src) -> usize {
    match s.below(4) {
        0 => usize::MAX - s.usize(0, 3),
        1 => 1 << s.usize(0, 63),
        _ => s.usize(0, 70_000)
    }
}

pub fn decoder(s: &mut Src, c: &mut Ctx) -> Res {
    let (mut o, mut m) = match s.below(4) {
        0 => (DecoderOptions::default(), true),
        1 => (DecoderOptions::new_safe(), true),
        2 => (DecoderOptions::new_fast(), true),
        _ => (DecoderOptions::new_cmd(), true)
    };
    let x86 = |b: bool, f: bool| b && f;
    let view = |o: &DecoderOptions, j: bool| D {
        w: o.max_width(),
        h: o.max_height(),
        cs: o.jpeg_get_out_colorspace(),
        scans: o.jpeg_get_max_scans(),
        limit: o.inflate_get_limit(),
        endian: o.byte_endian(),
        adler: o.inflate_get_confirm_adler(),
        crc: o.png_get_confirm_crc(),
        jpg_strict: j,
        fast: o.use_unsafe(),
        alpha: o.png_get_add_alpha_channel(),
        strip: o.png_get_strip_to_8bit(),
        anim: o.png_decode_animated(),
        jxl: o.jxl_decode_animated()
    };
    let _ = &mut m;
    // there is no getter for the JPEG flag alone
    let j = o.strict_mode() && !o.inflate_get_confirm_adler() && !o.png_get_confirm_crc();
    let mut e = view(&o, j);
    if !j && (e.adler || e.crc) {
        // unknown: make it known
        o = o.set_strict_mode(false);
        e = view(&o, false);
        e.adler = false;
        e.crc = false;
    }
    for i in 0..s.usize(1, 20) {
        let b = s.bool();
        let what;
        match s.below(14) {
            0 => {
                e.w = size(s);
                o = o.set_max_width(e.w);
                what = "set_max_width";
            }
            1 => {
                e.h = size(s);
                o = o.set_max_height(e.h);
                what = "set_max_height";
            }
            2 => {
                e.cs = s.pick(&ALL_COLORSPACES);
                o = o.jpeg_set_out_colorspace(e.cs);
                what = "jpeg_set_out_colorspace";
            }
            3 => {
                e.scans = size(s);
                o = o.jpeg_set_max_scans(e.scans);
                what = "jpeg_set_max_scans";
            }
            4 => {
                e.limit = size(s);
                o = o.inflate_set_limit(e.limit);
                what = "inflate_set_limit";
            }
            5 => {
                e.endian = if b { ByteEndian::LE } else { ByteEndian::BE };
                o = o.set_byte_endian(e.endian);
                what = "set_byte_endian";
            }
            6 => {
                e.adler = b;
                o = o.inflate_set_confirm_adler(b);
                what = "inflate_set_confirm_adler";
            }
            7 => {
                e.crc = b;
                o = o.png_set_confirm_crc(b);
                what = "png_set_confirm_crc";
            }
            8 => {
                (e.adler, e.crc, e.jpg_strict) = (b, b, b);
                o = o.set_strict_mode(b);
                what = "set_strict_mode";
            }
            9 => {
                e.fast = b;
                o = o.set_use_unsafe(b);
                what = "set_use_unsafe";
            }
            10 => {
                e.alpha = b;
                o = o.png_set_add_alpha_channel(b);
                what = "png_set_add_alpha_channel";
            }
            11 => {
                e.strip = b;
                o = o.png_set_strip_to_8bit(b);
                what = "png_set_strip_to_8bit";
            }
            12 => {
                e.anim = b;
                o = o.png_set_decode_animated(b);
                what = "png_set_decode_animated";
            }
            _ => {
                e.jxl = b;
                o = o.jxl_set_decode_animated(b);
                what = "jxl_set_decode_animated";
            }
        }
        if c.verbose {
            c.note(format!("op {i}: {what}"));
        }
        let g = view(&o, e.jpg_strict);
        check!(g == e, &format!("options differ after {what}"), "op {i}: got {g:?}, expected {e:?}");
        check!(o.strict_mode() == (e.adler || e.crc || e.jpg_strict), "strict_mode is wrong", "op {i} after {what}: {}", o.strict_mode());
        if !e.fast {
            check!(!(o.use_sse2() || o.use_sse3() || o.use_sse41() || o.use_avx() || o.use_avx2() || o.use_neon()), "intrinsics in use although unsafe code is off", "op {i} after {what}");
        }
        #[cfg(target_arch = "x86_64")]
        {
            check!(!o.use_neon() && (!o.use_avx2() || std::is_x86_feature_detected!("avx2")) && (!o.use_sse41() || std::is_x86_feature_detected!("sse4.1")) && (!o.use_avx() || std::is_x86_feature_detected!("avx")), "intrinsics in use that the processor lacks", "op {i}");
        }
        let _ = x86;
        c.nontrivial();
    }
    Ok(())
}

#[derive(Clone, PartialEq, Debug)]
struct E {
    w: usize,
    h: usize,
    cs: ColorSpace,
    depth: BitDepth,
    quality: u8,
    threads: u8,
    effort: u8,
    progressive: bool,
    huffman: bool,
    strip: bool
}

pub fn encoder(s: &mut Src, c: &mut Ctx) -> Res {
    let depths = [BitDepth::Eight, BitDepth::Sixteen, BitDepth::Float32];
    let view = |o: &EncoderOptions| E {
        w: o.width(),
        h: o.height(),
        cs: o.colorspace(),
        depth: o.depth(),
        quality: o.quality(),
        threads: o.num_threads(),
        effort: o.effort(),
        progressive: o.jpeg_encode_progressive(),
        huffman: o.jpeg_optimized_huffman_tables(),
        strip: o.strip_metadata()
    };
    let (w, h, cs, depth) = (size(s), size(s).max(1), s.pick(&ALL_COLORSPACES), s.pick(&depths));
    let mut o = EncoderOptions::new(w, h, cs, depth);
    let mut e = view(&o);
    check!((e.w, e.h, e.cs, e.depth) == (w, h, cs, depth), "new() stores the wrong values", "{e:?}");
    check!(!e.progressive && !e.huffman && !e.strip, "documented defaults do not hold", "{e:?}");
    for i in 0..s.usize(1, 15) {
        let b = s.bool();
        let v = s.byte();
        let what;
        match s.below(9) {
            0 => {
                e.w = size(s);
                o = o.set_width(e.w);
                what = "set_width";
            }
            1 => {
                e.h = size(s).max(1);
                o = o.set_height(e.h);
                what = "set_height";
            }
            2 => {
                e.cs = s.pick(&ALL_COLORSPACES);
                o = o.set_colorspace(e.cs);
                what = "set_colorspace";
            }
            3 => {
                e.depth = s.pick(&depths);
                o = o.set_depth(e.depth);
                what = "set_depth";
            }
            4 => {
                e.quality = v.min(100);
                o = o.set_quality(v);
                what = "set_quality";
            }
            5 => {
                e.threads = v;
                o = o.set_num_threads(v);
                what = "set_num_threads";
            }
            6 => {
                e.effort = v;
                o = o.set_effort(v);
                what = "set_effort";
            }
            7 => {
                e.progressive = b;
                o = o.set_jpeg_encode_progressive(b);
                what = "set_jpeg_encode_progressive";
            }
            _ => {
                e.strip = b;
                o = o.set_strip_metadata(b);
                what = "set_strip_metadata";
            }
        }
        let g = view(&o);
        check!(g == e, &format!("options differ after {what}"), "op {i}: got {g:?}, expected {e:?}");
        c.nontrivial();
    }
    Ok(())
}

/// colourspaces and depths describe themselves consistently
pub fn types(s: &mut Src, c: &mut Ctx) -> Res {
    let cs = s.pick(&ALL_COLORSPACES);
    let n = match cs {
        ColorSpace::Luma => 1,
        ColorSpace::LumaA => 2,
        ColorSpace::RGBA | ColorSpace::BGRA | ColorSpace::ARGB | ColorSpace::CMYK | ColorSpace::YCCK => 4,
        _ => 3
    };
    check!(cs.num_components() == n, "wrong number of components", "{cs:?}: {}", cs.num_components());
    let a = match cs {
        ColorSpace::LumaA => Some(1),
        ColorSpace::RGBA | ColorSpace::BGRA => Some(3),
        ColorSpace::ARGB => Some(0),
        _ => None
    };
    check!(cs.alpha_position() == a && cs.has_alpha() == a.is_some(), "wrong alpha position", "{cs:?}: {:?} {}", cs.alpha_position(), cs.has_alpha());
    check!(cs.is_grayscale() == matches!(cs, ColorSpace::Luma | ColorSpace::LumaA), "is_grayscale is wrong", "{cs:?}");
    let (d, bytes, max) = s.pick(&[(BitDepth::Eight, 1, 255), (BitDepth::Sixteen, 2, 65535), (BitDepth::Float32, 4, 1)]);
    check!(d.size_of() == bytes && d.bit_size() == 8 * bytes && d.max_value() == max && d.bit_type().to_depth() == d, "depth describes itself wrongly", "{d:?}");
    c.nontrivial();
    Ok(())
}
