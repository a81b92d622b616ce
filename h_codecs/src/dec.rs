//! one view of all the decoders
use crate::{bmp, farbfeld, hdr, jgen, pnm, psd, qoi};
use models::png as mp;
use pbt::Src;
use zune_bmp::BmpDecoder;
use zune_core::bit_depth::{BitDepth, ByteEndian};
use zune_core::bytestream::ZByteReaderTrait;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_core::result::DecodingResult;
use zune_farbfeld::FarbFeldDecoder;
use zune_hdr::HdrDecoder;
use zune_jpeg::JpegDecoder;
use zune_png::PngDecoder;
use zune_ppm::PPMDecoder;
use zune_psd::PSDDecoder;
use zune_qoi::QoiDecoder;

#[derive(Copy, Clone, PartialEq, Debug)]
pub enum Fmt {
    Bmp,
    Qoi,
    Pnm,
    Ff,
    Hdr,
    Psd,
    Png,
    Jpeg
}
pub const SIX: [Fmt; 6] = [Fmt::Bmp, Fmt::Qoi, Fmt::Pnm, Fmt::Ff, Fmt::Hdr, Fmt::Psd];
pub const ALL: [Fmt; 8] = [Fmt::Bmp, Fmt::Qoi, Fmt::Pnm, Fmt::Ff, Fmt::Hdr, Fmt::Psd, Fmt::Png, Fmt::Jpeg];

/// (width, height, colourspace, depth, announced size in samples of the decode_into buffer)
#[derive(Clone, Debug, PartialEq)]
pub struct Head {
    pub w: usize,
    pub h: usize,
    pub cs: Option<ColorSpace>,
    pub depth: Option<BitDepth>,
    pub size: Option<usize>
}

#[derive(Clone, Debug)]
pub struct Out {
    /// what the decoder reported after decode_headers, if that was called
    pub before: Option<Head>,
    pub after: Head,
    /// samples in native byte order
    pub px: Vec<u8>,
    /// bytes outside the announced region were changed
    pub overrun: bool
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Way {
    Decode,
    Headers,
    /// into a buffer with this many samples more than announced (fewer, if negative)
    Into(isize),
    /// the same without decode_headers first (the size is supplied)
    Blind(usize)
}

pub fn valid(s: &mut Src, f: Fmt, max: usize) -> Vec<u8> {
    match f {
        Fmt::Bmp => bmp::file(s, max).file,
        Fmt::Qoi => qoi::file(s, max).0,
        Fmt::Pnm => pnm::file(s, max).file,
        Fmt::Ff => farbfeld::file(s, max).0,
        Fmt::Hdr => hdr::file(s, max).file,
        Fmt::Psd => psd::file(s, max).file,
        Fmt::Png => {
            let sp = mp::gen_spec(s, max);
            let ch = mp::chunks(s, &sp);
            mp::write(&ch)
        }
        Fmt::Jpeg => {
            let j = jgen::frame(s, max as u64);
            let e = jgen::any_enc(s, &j);
            models::jpeg::write(s, &j, &e)
        }
    }
}

fn b16(v: Vec<u16>) -> Vec<u8> {
    v.into_iter().flat_map(|x| x.to_ne_bytes()).collect()
}
fn b32(v: Vec<f32>) -> Vec<u8> {
    v.into_iter().flat_map(|x| x.to_ne_bytes()).collect()
}
fn res(r: DecodingResult) -> Vec<u8> {
    match r {
        DecodingResult::U8(v) => v,
        DecodingResult::U16(v) => b16(v),
        DecodingResult::F32(v) => b32(v),
        _ => panic!("unknown decoding result")
    }
}

/// the caller's buffer, larger or smaller than announced
struct Buf<T> {
    v: Vec<T>,
    n: usize
}
fn buf<T: Copy>(n: usize, extra: isize, fill: T) -> Buf<T> {
    let m = n.saturating_add_signed(extra);
    Buf { v: vec![fill; m], n }
}
impl<T: Copy + PartialEq> Buf<T> {
    fn split(mut self, fill: T) -> (Vec<T>, bool) {
        let over = self.v.len() > self.n && self.v[self.n..].iter().any(|x| *x != fill);
        self.v.truncate(self.n);
        (self.v, over)
    }
}

macro_rules! drive {
    ($d:ident, $way:ident, $head:expr, $decode:expr, $fill:expr, $bytes:expr) => {{
        let mut before = None;
        if matches!($way, Way::Headers | Way::Into(_)) {
            $d.decode_headers().map_err(|e| format!("headers: {e:?}"))?;
            before = Some($head(&mut $d)?);
        }
        let (px, overrun) = match $way {
            Way::Decode | Way::Headers => ($decode(&mut $d).map_err(|e| format!("{e:?}"))?, false),
            _ => {
                let (n, extra) = match $way {
                    Way::Into(e) => (before.as_ref().unwrap().size.ok_or("size not announced")?, e),
                    Way::Blind(n) => (n, 0),
                    _ => unreachable!()
                };
                let mut b = buf(n, extra, $fill);
                $d.decode_into(&mut b.v).map_err(|e| format!("{e:?}"))?;
                let (v, over) = b.split($fill);
                ($bytes(v), over)
            }
        };
        let after = $head(&mut $d)?;
        Ok(Out { before, after, px, overrun })
    }};
}

pub fn run<R: ZByteReaderTrait>(f: Fmt, r: R, o: DecoderOptions, way: Way) -> Result<Out, String> {
    let dims = |d: Option<(usize, usize)>| d.ok_or_else(|| "no dimensions after the headers".to_string());
    match f {
        Fmt::Bmp => {
            let mut d = BmpDecoder::new_with_options(r, o);
            let head = |d: &mut BmpDecoder<R>| -> Result<Head, String> {
                let (w, h) = dims(d.dimensions())?;
                Ok(Head { w, h, cs: d.colorspace(), depth: Some(d.depth()), size: d.output_buf_size() })
            };
            drive!(d, way, head, |d: &mut BmpDecoder<R>| d.decode(), 0xa5u8, |v| v)
        }
        Fmt::Qoi => {
            let mut d = QoiDecoder::new_with_options(r, o);
            let head = |d: &mut QoiDecoder<R>| -> Result<Head, String> {
                let (w, h) = dims(d.dimensions())?;
                Ok(Head { w, h, cs: d.colorspace(), depth: Some(d.bit_depth()), size: d.output_buffer_size() })
            };
            drive!(d, way, head, |d: &mut QoiDecoder<R>| d.decode(), 0xa5u8, |v| v)
        }
        Fmt::Ff => {
            let mut d = FarbFeldDecoder::new_with_options(r, o);
            let head = |d: &mut FarbFeldDecoder<R>| -> Result<Head, String> {
                let (w, h) = dims(d.dimensions())?;
                Ok(Head { w, h, cs: Some(d.colorspace()), depth: Some(d.bit_depth()), size: d.output_buffer_size().map(|x| if x % 8 == 0 { x / 2 } else { usize::MAX }) })
            };
            drive!(d, way, head, |d: &mut FarbFeldDecoder<R>| d.decode().map(b16), 0xa5a5u16, b16)
        }
        Fmt::Hdr => {
            let mut d = HdrDecoder::new_with_options(r, o);
            let head = |d: &mut HdrDecoder<R>| -> Result<Head, String> {
                let (w, h) = dims(d.dimensions())?;
                Ok(Head { w, h, cs: d.get_colorspace(), depth: Some(BitDepth::Float32), size: d.output_buffer_size() })
            };
            drive!(d, way, head, |d: &mut HdrDecoder<R>| d.decode().map(b32), -7.25f32, b32)
        }
        Fmt::Png => {
            let mut d = PngDecoder::new_with_options(r, o);
            let head = |d: &mut PngDecoder<R>| -> Result<Head, String> {
                let (w, h) = dims(d.dimensions())?;
                Ok(Head { w, h, cs: d.colorspace(), depth: d.depth(), size: d.output_buffer_size() })
            };
            let sixteen = |d: &PngDecoder<R>| d.depth() == Some(BitDepth::Sixteen);
            let mut out: Result<Out, String> = drive!(d, way, head, |d: &mut PngDecoder<R>| d.decode().map(res), 0xa5u8, |v: Vec<u8>| v);
            if let Ok(x) = &mut out {
                if matches!(way, Way::Into(_) | Way::Blind(_)) && sixteen(&d) {
                    for c in x.px.chunks_exact_mut(2) {
                        let v = if d.byte_endian() == ByteEndian::BE { u16::from_be_bytes([c[0], c[1]]) } else { u16::from_le_bytes([c[0], c[1]]) };
                        c.copy_from_slice(&v.to_ne_bytes());
                    }
                }
            }
            out
        }
        Fmt::Jpeg => {
            let mut d = JpegDecoder::new_with_options(r, o);
            let head = |d: &mut JpegDecoder<R>| -> Result<Head, String> {
                let (w, h) = dims(d.dimensions())?;
                let i = d.info().ok_or("no info after the headers")?;
                if (usize::from(i.width), usize::from(i.height)) != (w, h) {
                    return Err("info and dimensions differ".into());
                }
                Ok(Head { w, h, cs: d.output_colorspace(), depth: Some(BitDepth::Eight), size: d.output_buffer_size() })
            };
            drive!(d, way, head, |d: &mut JpegDecoder<R>| d.decode(), 0xa5u8, |v| v)
        }
        Fmt::Pnm => {
            let mut d = PPMDecoder::new_with_options(r, o);
            let head = |d: &PPMDecoder<R>| -> Result<Head, String> {
                let (w, h) = dims(d.dimensions())?;
                Ok(Head { w, h, cs: d.colorspace(), depth: d.bit_depth(), size: None })
            };
            let mut before = None;
            if way != Way::Decode {
                d.decode_headers().map_err(|e| format!("headers: {e:?}"))?;
                before = Some(head(&d)?);
            }
            let px = res(d.decode().map_err(|e| format!("{e:?}"))?);
            Ok(Out { before, after: head(&d)?, px, overrun: false })
        }
        Fmt::Psd => {
            let mut d = PSDDecoder::new_with_options(r, o);
            let head = |d: &PSDDecoder<R>| -> Result<Head, String> {
                let (w, h) = dims(d.dimensions())?;
                Ok(Head { w, h, cs: d.colorspace(), depth: d.bit_depth(), size: None })
            };
            let mut before = None;
            if way != Way::Decode {
                d.decode_headers().map_err(|e| format!("headers: {e:?}"))?;
                before = Some(head(&d)?);
            }
            let px = if matches!(way, Way::Decode | Way::Headers) {
                res(d.decode().map_err(|e| format!("{e:?}"))?)
            } else {
                d.decode_raw().map_err(|e| format!("{e:?}"))?
            };
            Ok(Out { before, after: head(&d)?, px, overrun: false })
        }
    }
}

pub fn options(s: &mut Src) -> DecoderOptions {
    let mut o = DecoderOptions::default().set_strict_mode(s.bool());
    if s.chance(1, 4) {
        o = o.set_use_unsafe(false);
    }
    if s.chance(1, 3) {
        o = o.png_set_add_alpha_channel(true);
    }
    if s.chance(1, 3) {
        o = o.png_set_strip_to_8bit(true);
    }
    if s.chance(1, 3) {
        o = o.set_byte_endian(ByteEndian::LE);
    }
    if s.chance(1, 4) {
        o = o.png_set_confirm_crc(true).inflate_set_confirm_adler(true);
    }
    if s.chance(1, 3) {
        o = o.jpeg_set_out_colorspace(s.pick(&[ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::Luma, ColorSpace::YCbCr, ColorSpace::BGR, ColorSpace::BGRA]));
    }
    o
}

/// decode_headers and every getter
pub fn run_headers<R: ZByteReaderTrait>(f: Fmt, r: R, o: DecoderOptions) -> bool {
    macro_rules! h {
        ($t:ident, $($g:ident),*) => {{
            let mut d = $t::new_with_options(r, o);
            let ok = d.decode_headers().is_ok();
            $(let _ = d.$g();)*
            ok
        }};
    }
    match f {
        Fmt::Bmp => h!(BmpDecoder, dimensions, colorspace, depth, output_buf_size, icc_profile, color_primaries),
        Fmt::Qoi => h!(QoiDecoder, dimensions, colorspace, bit_depth, output_buffer_size),
        Fmt::Ff => h!(FarbFeldDecoder, dimensions, colorspace, bit_depth, output_buffer_size),
        Fmt::Hdr => h!(HdrDecoder, dimensions, get_colorspace, output_buffer_size, metadata),
        Fmt::Pnm => h!(PPMDecoder, dimensions, colorspace, bit_depth),
        Fmt::Psd => h!(PSDDecoder, dimensions, colorspace, bit_depth),
        Fmt::Png => h!(PngDecoder, dimensions, colorspace, depth, output_buffer_size, info, is_animated, more_frames, frame_info),
        Fmt::Jpeg => h!(JpegDecoder, dimensions, output_colorspace, input_colorspace, info, output_buffer_size, icc_profile, exif, xmp, iptc)
    }
}
