//! histories of calls
use crate::dec::{self, Fmt};
use crate::header::value;
use crate::im::*;
use pbt::Src;
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::ColorSpace;
use zune_image::codecs::ImageFormat;

pub fn color_no(c: ColorSpace) -> u32 {
    value(match c {
        ColorSpace::RGB => "ZilRGB",
        ColorSpace::RGBA => "ZilRGBA",
        ColorSpace::YCbCr => "ZilYCbCr",
        ColorSpace::Luma => "ZilLuma",
        ColorSpace::LumaA => "ZilLumaA",
        ColorSpace::YCCK => "ZilYCCK",
        ColorSpace::CMYK => "ZilCMYK",
        ColorSpace::BGR => "ZilBGR",
        ColorSpace::BGRA => "ZilBGRA",
        ColorSpace::ARGB => "ZilARGB",
        ColorSpace::HSL => "ZilHSL",
        ColorSpace::HSV => "ZilHSV",
        _ => "ZilUnknownColorspace",
    })
}
pub fn depth_no(d: BitDepth) -> u32 {
    value(match d {
        BitDepth::Eight => "ZilU8",
        BitDepth::Sixteen => "ZilU16",
        BitDepth::Float32 => "ZilF32",
        _ => "ZilUnknownDepth",
    })
}
pub fn format_no(f: ImageFormat) -> u32 {
    value(match f {
        ImageFormat::JPEG => "ZilJPEG",
        ImageFormat::PNG => "ZilPNG",
        ImageFormat::PPM => "ZilPPM",
        ImageFormat::PSD => "ZilPSD",
        ImageFormat::Farbfeld => "ZilFarbfeld",
        ImageFormat::QOI => "ZilQOI",
        ImageFormat::JPEG_XL => "ZilJPEG_XL",
        ImageFormat::HDR => "ZilHDR",
        ImageFormat::BMP => "ZilBMP",
        _ => "ZilUnknownFormat",
    })
}

pub const IMAGES: usize = 3;
pub const STATUSES: usize = 2;
/// a slot, or null
pub type Slot = Option<usize>;

#[derive(Clone, Debug)]
pub enum Pixels {
    U8(Vec<u8>),
    U16(Vec<u16>),
    F32(Vec<f32>),
}

#[derive(Clone, Debug)]
pub enum Proc {
    Contrast(f32),
    Orient,
    Bilateral(i32, f32, f32),
    Brighten(f32),
    Depth(BitDepth),
    Color(ColorSpace),
    Crop(usize, usize, usize, usize),
    Exposure(f32, f32),
    Flip,
    Flop,
    Gamma(f32),
    Gauss(f32),
    Invert,
    Median(usize),
    Scharr,
    Sobel,
    Stretch(f32, f32),
    Transpose,
}

#[derive(Clone, Debug)]
pub enum Op {
    NewStatus(usize),
    Status(Slot),
    New(usize),
    From(usize, Pixels, usize, usize, ColorSpace),
    Read(Slot, usize),
    Open(Slot, usize),
    OpenMissing(Slot, u8),
    Clone(Slot, usize),
    Free(usize),
    Look(Slot),
    /// room in the buffer relative to what is needed, offset of its start
    Output(Slot, isize, usize),
    Write(Slot, u8, ImageFormat, bool),
    Proc(Slot, Proc),
    Blend(Slot, Slot, f32),
    Decode(usize, Entry),
    Headers(usize, bool),
}
#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Entry {
    /// from memory / from a file, allocating
    Decode,
    Imread,
    DecodeInto(isize, usize),
    ImreadInto(isize, usize),
}

pub struct Plan {
    pub files: Vec<Vec<u8>>,
    pub ops: Vec<(Op, Slot)>,
    /// which of width, height, depth, channels are asked for
    pub want: u8,
}

pub fn webp(s: &mut Src, w: usize, h: usize) -> Vec<u8> {
    let mut px = vec![0; w * h * 3];
    let mut r = s.rng();
    px.iter_mut().for_each(|b| *b = r.byte());
    let mut out = vec![];
    image_webp::WebPEncoder::new(&mut out).encode(&px, w as u32, h as u32, image_webp::ColorType::Rgb8).unwrap();
    out
}

pub fn file(s: &mut Src, max: usize) -> Vec<u8> {
    let mut v = match s.below(16) {
        0..=7 => {
            let f = s.pick(&[Fmt::Bmp, Fmt::Qoi, Fmt::Pnm, Fmt::Ff, Fmt::Hdr, Fmt::Psd, Fmt::Png, Fmt::Jpeg]);
            dec::valid(s, f, max)
        }
        8 => {
            let (w, h) = (s.dim(max), s.dim(max));
            webp(s, w, h)
        }
        9 => s.data(200),
        k => {
            let f = [ImageFormat::PNG, ImageFormat::PPM, ImageFormat::QOI, ImageFormat::JPEG_XL, ImageFormat::HDR, ImageFormat::JPEG][k as usize - 10];
            let (d, cs) = (s.pick(&DEPTHS), s.pick(&[ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::CMYK]));
            let (w, h) = (s.dim(max).max(2), s.dim(max).max(2));
            let mut i = pic(s, d, cs, w, h, 1).image();
            if s.chance(1, 3) {
                let v = exif::Field { tag: exif::Tag::Orientation, ifd_num: exif::In::PRIMARY, value: exif::Value::Short(vec![s.below(9) as u16]) };
                set_exif(&mut i, vec![v]);
            }
            i.write_to_vec(f).unwrap_or_default()
        }
    };
    if s.chance(1, 10) {
        models::mutate::edits(s, &mut v, 3);
    } else if s.chance(1, 12) {
        let n = s.usize(0, v.len());
        v.truncate(n);
    }
    v
}

fn slot(s: &mut Src, n: usize, null: u64) -> Slot {
    if s.chance(1, null) {
        None
    } else {
        Some(s.usize(0, n - 1))
    }
}
fn real(s: &mut Src, lo: f64, hi: f64) -> f32 {
    match s.below(12) {
        0 => s.pick(&[0.0, 1.0, -1.0, 255.0, lo as f32, hi as f32]),
        _ => (lo + s.f64() * (hi - lo)) as f32,
    }
}
pub fn color(s: &mut Src) -> ColorSpace {
    match s.below(14) {
        0..=10 => s.pick(&COLORS),
        11 => ColorSpace::YCCK,
        12 => ColorSpace::Unknown,
        _ => ColorSpace::RGB,
    }
}

pub fn proc(s: &mut Src, max: usize) -> Proc {
    match s.below(18) {
        0 => Proc::Contrast(real(s, -200.0, 200.0)),
        1 => Proc::Orient,
        2 => Proc::Bilateral(s.below(7) as i32 - 1, real(s, 0.1, 50.0), real(s, 0.1, 3.0)),
        3 => Proc::Brighten(real(s, -1.0, 1.0)),
        4 => Proc::Depth(s.pick(&[BitDepth::Eight, BitDepth::Sixteen, BitDepth::Float32, BitDepth::Unknown])),
        5 => Proc::Color(color(s)),
        6 => Proc::Crop(s.usize(0, max), s.usize(0, max), s.usize(0, max / 2), s.usize(0, max / 2)),
        7 => Proc::Exposure(real(s, -3.0, 3.0), real(s, 0.0, 1.0)),
        8 => Proc::Flip,
        9 => Proc::Flop,
        10 => Proc::Gamma(real(s, 0.0, 4.0)),
        11 => Proc::Gauss(real(s, 0.0, 6.0)),
        12 => Proc::Invert,
        13 => Proc::Median(s.usize(0, 4)),
        14 => Proc::Scharr,
        15 => Proc::Sobel,
        16 => Proc::Stretch(real(s, 0.0, 120.0), real(s, 121.0, 255.0)),
        _ => Proc::Transpose,
    }
}

fn pixels(s: &mut Src, max: usize) -> Op {
    let (mut w, mut h) = (s.dim(max), s.dim(max));
    let cs = color(s);
    let need = w * h * cs.num_components();
    let n = match s.below(5) {
        0 => s.usize(0, need),
        1 => need + s.usize(0, 40),
        _ => need,
    };
    match s.below(20) {
        0 => w = 0,
        1 => h = 0,
        2 => {
            w = usize::MAX / 2;
            h = s.usize(2, 8)
        }
        3 => w = usize::MAX,
        _ => {}
    }
    let mut r = s.rng();
    let p = match s.below(3) {
        0 => Pixels::U8((0..n).map(|_| r.byte()).collect()),
        1 => Pixels::U16((0..n).map(|_| r.next() as u16).collect()),
        _ => Pixels::F32((0..n).map(|_| r.f64() as f32).collect()),
    };
    Op::From(s.usize(0, IMAGES - 1), p, w, h, cs)
}

pub fn room(s: &mut Src) -> (isize, usize) {
    (if s.chance(1, 3) { s.usize(0, 24) as isize - 12 } else { 0 }, if s.chance(1, 8) { s.usize(1, 3) } else { 0 })
}

pub fn entry(s: &mut Src) -> Entry {
    let (a, b) = room(s);
    match s.below(4) {
        0 => Entry::Decode,
        1 => Entry::Imread,
        2 => Entry::DecodeInto(a, b),
        _ => Entry::ImreadInto(a, b),
    }
}

pub fn history(s: &mut Src) -> Plan {
    let max = 20;
    let files: Vec<Vec<u8>> = (0..s.usize(1, 3)).map(|_| file(s, max)).collect();
    let nf = files.len() - 1;
    let mut ops = vec![];
    for _ in 0..s.usize(1, 14) {
        let op = match s.below(40) {
            0 => Op::NewStatus(s.usize(0, STATUSES - 1)),
            1 => Op::Status(slot(s, STATUSES, 4)),
            2 => Op::New(s.usize(0, IMAGES - 1)),
            3..=7 => pixels(s, max),
            8..=10 => Op::Read(slot(s, IMAGES, 20), s.usize(0, nf)),
            11..=12 => Op::Open(slot(s, IMAGES, 20), s.usize(0, nf)),
            13 => Op::OpenMissing(slot(s, IMAGES, 20), s.below(3) as u8),
            14..=15 => Op::Clone(slot(s, IMAGES, 10), s.usize(0, IMAGES - 1)),
            16 => Op::Free(s.usize(0, IMAGES - 1)),
            17..=19 => Op::Look(slot(s, IMAGES, 10)),
            20..=22 => {
                let (a, b) = room(s);
                Op::Output(slot(s, IMAGES, 20), a, b)
            }
            23..=24 => Op::Write(
                slot(s, IMAGES, 20),
                s.below(5) as u8,
                s.pick(&[
                    ImageFormat::PNG,
                    ImageFormat::PPM,
                    ImageFormat::QOI,
                    ImageFormat::Farbfeld,
                    ImageFormat::JPEG_XL,
                    ImageFormat::HDR,
                    ImageFormat::JPEG,
                    ImageFormat::BMP,
                    ImageFormat::PSD,
                    ImageFormat::Unknown,
                ]),
                s.bool(),
            ),
            25..=34 => Op::Proc(slot(s, IMAGES, 30), proc(s, max)),
            35 => Op::Blend(slot(s, IMAGES, 20), slot(s, IMAGES, 20), real(s, 0.0, 1.0)),
            36..=38 => Op::Decode(s.usize(0, nf), entry(s)),
            _ => Op::Headers(s.usize(0, nf), s.bool()),
        };
        ops.push((op, slot(s, STATUSES, 25)));
    }
    Plan { files, ops, want: s.byte() }
}
