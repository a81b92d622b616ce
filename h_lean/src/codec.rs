//! a job for the codec crates alone: decode, encode or (de)compress something, with in-memory readers and sinks only
use crate::link::{Log, Rd};
use zune_core::bit_depth::{BitDepth, ByteEndian};
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_core::result::DecodingResult;

pub const CS: [ColorSpace; 11] = [
    ColorSpace::RGB,
    ColorSpace::RGBA,
    ColorSpace::Luma,
    ColorSpace::LumaA,
    ColorSpace::YCbCr,
    ColorSpace::BGR,
    ColorSpace::BGRA,
    ColorSpace::ARGB,
    ColorSpace::CMYK,
    ColorSpace::YCCK,
    ColorSpace::HSL
];
pub const DEPTHS: [BitDepth; 3] = [BitDepth::Eight, BitDepth::Sixteen, BitDepth::Float32];

fn res(r: DecodingResult) -> Vec<u8> {
    match r {
        DecodingResult::U8(v) => v,
        DecodingResult::U16(v) => v.into_iter().flat_map(|x| x.to_ne_bytes()).collect(),
        DecodingResult::F32(v) => v.into_iter().flat_map(|x| x.to_ne_bytes()).collect(),
        _ => vec![]
    }
}
fn b16(v: Vec<u16>) -> Vec<u8> {
    v.into_iter().flat_map(|x| x.to_ne_bytes()).collect()
}

/// decode the headers, list the getters, decode whole or into a buffer
macro_rules! go {
    ($l:ident, $into:ident, $d:ident, $unit:expr, $fill:expr, $size:ident, $conv:expr, [$($g:ident),*]) => {{
        let ok = $d.decode_headers().is_ok();
        $l.add("headers", vec![u8::from(ok)]);
        $($l.add(stringify!($g), format!("{:?}", $d.$g()));)*
        if !ok {
            return;
        }
        let n = $d.$size();
        if $into && n.is_some() {
            let mut b = vec![$fill; n.unwrap() / $unit + 3];
            let ok = $d.decode_into(&mut b).is_ok();
            $l.add("decode_into", vec![u8::from(ok)]);
            if ok {
                $l.add("pixels", b.into_iter().flat_map(|x| x.to_ne_bytes()).collect::<Vec<u8>>());
            }
        } else {
            match $d.decode() {
                Ok(v) => $l.add("pixels", $conv(v)),
                Err(_) => $l.add("decode", vec![0])
            }
        }
        $($l.add(stringify!($g), format!("{:?}", $d.$g()));)*
    }};
}

fn decode(r: &mut Rd, l: &mut Log) {
    let f = r.u8();
    let flags = r.u32();
    let on = |k: u32| flags >> k & 1 == 1;
    let mut o = DecoderOptions::default()
        .set_strict_mode(on(0))
        .set_use_unsafe(on(1))
        .png_set_add_alpha_channel(on(2))
        .png_set_strip_to_8bit(on(3))
        .set_byte_endian(if on(4) { ByteEndian::LE } else { ByteEndian::BE })
        .png_set_confirm_crc(on(5))
        .inflate_set_confirm_adler(on(6))
        .png_set_decode_animated(on(8))
        .set_max_width(33_000)
        .set_max_height(2_000);
    if on(7) {
        o = o.jpeg_set_out_colorspace(CS[(flags >> 16) as usize % CS.len()]);
    }
    let into = on(9);
    let d = r.blob();
    let c = ZCursor::new(d);
    match f {
        0 => {
            let mut d = zune_bmp::BmpDecoder::new_with_options(c, o);
            go!(l, into, d, 1, 0xa5u8, output_buf_size, |v: Vec<u8>| v, [dimensions, colorspace, depth, icc_profile, color_primaries, output_buf_size])
        }
        1 => {
            let mut d = zune_qoi::QoiDecoder::new_with_options(c, o);
            go!(l, into, d, 1, 0xa5u8, output_buffer_size, |v: Vec<u8>| v, [dimensions, colorspace, bit_depth, output_buffer_size])
        }
        2 => {
            let mut d = zune_farbfeld::FarbFeldDecoder::new_with_options(c, o);
            go!(l, into, d, 2, 0xa5u16, output_buffer_size, b16, [dimensions, colorspace, bit_depth, output_buffer_size])
        }
        3 => {
            let mut d = zune_ppm::PPMDecoder::new_with_options(c, o);
            l.add("headers", vec![u8::from(d.decode_headers().is_ok())]);
            l.add("getters", format!("{:?} {:?} {:?}", d.dimensions(), d.colorspace(), d.bit_depth()));
            match d.decode() {
                Ok(v) => l.add("pixels", res(v)),
                Err(_) => l.add("decode", vec![0])
            }
        }
        4 => {
            let mut d = zune_psd::PSDDecoder::new_with_options(c, o);
            l.add("headers", vec![u8::from(d.decode_headers().is_ok())]);
            l.add("getters", format!("{:?} {:?} {:?}", d.dimensions(), d.colorspace(), d.bit_depth()));
            match if into { d.decode_raw().ok() } else { d.decode().ok().map(res) } {
                Some(v) => l.add("pixels", v),
                None => l.add("decode", vec![0])
            }
        }
        5 => {
            let mut d = zune_png::PngDecoder::new_with_options(c, o);
            go!(l, into, d, 1, 0xa5u8, output_buffer_size, res, [dimensions, colorspace, depth, byte_endian, output_buffer_size, is_animated]);
            if let Some(i) = d.info() {
                let text: Vec<_> = i.text_chunk.iter().map(|t| (t.keyword.clone(), t.text.clone())).collect();
                let itxt: Vec<_> = i.itxt_chunk.iter().map(|t| (t.keyword.clone(), t.text.clone())).collect();
                l.add("info", format!("{:?} {:?} {:?} {:?} {text:?} {itxt:?}", (i.width, i.height), i.gamma, i.icc_profile, i.exif));
            }
            let mut n = 0;
            while d.more_frames() && n < 8 {
                n += 1;
                if d.decode_headers().is_err() {
                    l.add("frame headers", vec![0]);
                    break;
                }
                l.add("frame", format!("{:?}", d.frame_info()));
                match d.decode() {
                    Ok(v) => l.add("frame pixels", res(v)),
                    Err(_) => {
                        l.add("frame pixels", vec![]);
                        break;
                    }
                }
            }
        }
        6 => {
            let mut d = zune_jpeg::JpegDecoder::new_with_options(c, o);
            go!(l, into, d, 1, 0xa5u8, output_buffer_size, |v: Vec<u8>| v, [dimensions, output_colorspace, input_colorspace, output_buffer_size, icc_profile, exif, xmp, iptc]);
            if let Some(i) = d.info() {
                l.add("info", format!("{:?}", (i.width, i.height, i.pixel_density, i.x_density, i.y_density, i.components)));
            }
        }
        _ => {
            #[cfg(feature = "hdr")]
            {
                let mut d = zune_hdr::HdrDecoder::new_with_options(c, o);
                go!(l, into, d, 1, -7.25f32, output_buffer_size, |v: Vec<f32>| v.into_iter().flat_map(|x| x.to_ne_bytes()).collect::<Vec<u8>>(), [dimensions, get_colorspace, output_buffer_size])
            }
        }
    }
}

fn encode(r: &mut Rd, l: &mut Log) {
    let f = r.u8();
    let (w, h) = (r.u32() as usize, r.u32() as usize);
    let (cs, depth) = (CS[r.u8() as usize % CS.len()], DEPTHS[r.u8() as usize % 3]);
    let (effort, threads) = (r.u8(), r.u8());
    let o = EncoderOptions::new(w, h, cs, depth).set_effort(effort).set_num_threads(threads);
    let d = r.blob();
    let mut out = vec![];
    let ok = match f {
        0 => zune_qoi::QoiEncoder::new(d, o).encode(&mut out).ok(),
        1 => zune_ppm::PPMEncoder::new(d, o).encode(&mut out).ok(),
        2 => zune_farbfeld::FarbFeldEncoder::new(d, o).encode(&mut out).ok(),
        3 => zune_jpegxl::JxlSimpleEncoder::new(d, o).encode(&mut out).ok(),
        4 => zune_png::PngEncoder::new(d, o).encode(&mut out).ok(),
        _ => {
            #[cfg(feature = "hdr")]
            {
                let d: Vec<f32> = d.chunks_exact(4).map(|c| f32::from_ne_bytes(c.try_into().unwrap())).collect();
                zune_hdr::HdrEncoder::new(&d, o).encode(&mut out).ok()
            }
            #[cfg(not(feature = "hdr"))]
            None
        }
    };
    l.add("encode", format!("{ok:?}"));
    if ok.is_some() {
        l.add("file", out);
    }
}

fn inflate(r: &mut Rd, l: &mut Log) {
    use zune_inflate::{DeflateDecoder, DeflateEncoder, DeflateOptions};
    let (how, confirm, limit) = (r.u8(), r.u8() == 1, r.u32() as usize);
    let d = r.blob();
    let o = DeflateOptions::default().set_confirm_checksum(confirm).set_limit(limit).set_size_hint(limit % 1000);
    let mut z = DeflateDecoder::new_with_options(d, o);
    let v = match how {
        0 => z.decode_deflate(),
        1 => z.decode_zlib(),
        2 => z.decode_gzip(),
        _ => Ok(DeflateEncoder::new(d).encode_zlib())
    };
    match v {
        Ok(v) => l.add("output", v),
        Err(e) => l.add("inflate", e.data)
    }
}

pub fn run(job: &[u8]) -> Log {
    let mut l = Log::default();
    let mut r = Rd(job);
    match r.u8() {
        0 => decode(&mut r, &mut l),
        1 => encode(&mut r, &mut l),
        _ => inflate(&mut r, &mut l)
    }
    l
}
