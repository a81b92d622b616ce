//! a job for the image library: open or make a picture, process it, save it and read it back
use crate::hist;
use crate::im::*;
use crate::link::{Log, Rd};
use pbt::Src;
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::EncoderOptions;
use zune_image::codecs::ImageFormat;
use zune_image::image::Image;

fn state(l: &mut Log, what: &str, i: &Image) {
    l.add(format!("{what}: type"), format!("{:?} {:?} {:?} {}", i.dimensions(), i.colorspace(), i.depth(), i.frames_len()));
    for f in i.frames_ref() {
        for c in f.channels_vec_ref() {
            l.add(format!("{what}: channel {:?}", i.depth()), unsafe { c.alias() }.to_vec());
        }
    }
}

const FORMATS: [ImageFormat; 7] = [ImageFormat::PNG, ImageFormat::PPM, ImageFormat::QOI, ImageFormat::Farbfeld, ImageFormat::JPEG_XL, ImageFormat::HDR, ImageFormat::JPEG];

/// interleaved samples given to a constructor
fn from_samples(s: &mut Src) -> Image {
    let cs = s.pick(&[ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::BGRA]);
    let (w, h) = (s.dim(70), s.dim(20));
    let n = w * h * cs.num_components();
    match s.below(3) {
        0 => Image::from_u8(&s.data(n), w, h, cs),
        1 => Image::from_u16(&s.data16(n), w, h, cs),
        _ => Image::from_f32(&s.dataf(n), w, h, cs),
    }
}

fn script(file: &[u8], s: &mut Src, l: &mut Log) {
    let mut i = if !file.is_empty() {
        match Image::read(ZCursor::new(file), Default::default()) {
            Ok(i) => i,
            Err(_) => {
                l.add("read", "error");
                return;
            }
        }
    } else if s.bool() {
        from_samples(s)
    } else {
        any_pic(s, 40).image()
    };
    if s.chance(1, 4) {
        let mut icc = moxcms::ColorProfile::new_adobe_rgb().encode().unwrap();
        // the time it was made
        icc[24..36].fill(0);
        i.metadata_mut().set_icc_chunk(icc);
    }
    state(l, "start", &i);
    for _ in 0..s.usize(0, 4) {
        let step = hist::any_step(s, &i);
        let name = step.name.split(' ').next().unwrap().to_string();
        let r = step.run(&mut i);
        l.add(format!("{}: outcome", step.name), vec![u8::from(r.is_ok())]);
        if r.is_err() {
            // what is left of the picture is not of interest
            return;
        }
        if name == "profile" {
            // computed by another crate, which uses vector instructions of its own
            return;
        }
        state(l, &name, &i);
        let (w, h) = i.dimensions();
        if w == 0 || h == 0 {
            return;
        }
    }
    for f in i.flatten_to_u8() {
        l.add(format!("flattened {:?}", i.depth()), if i.depth() == BitDepth::Float32 { vec![] } else { f });
    }
    let f = s.pick(&FORMATS);
    let mut out = vec![];
    let o = EncoderOptions::default().set_quality(s.below(101) as u8).set_num_threads(1 + s.below(6) as u8).set_jpeg_encode_progressive(s.bool());
    let ok = f.encode(&i, o, &mut out).is_ok();
    l.add(format!("{f:?}: outcome"), vec![u8::from(ok)]);
    if ok && f != ImageFormat::JPEG {
        // (the encoder of JPEG files is another crate)
        l.add(format!("{f:?}: file"), out.clone());
        match Image::read(ZCursor::new(&out), Default::default()) {
            Ok(j) => state(l, &format!("{f:?} read back"), &j),
            Err(_) => l.add(format!("{f:?}: read back"), "error"),
        }
    }
}

/// the job: a file (may be empty) and a tape of choices; the tape used up is handed back
pub fn record(file: &[u8], s: &mut Src) -> Log {
    let mut l = Log::default();
    script(file, s, &mut l);
    l
}

pub fn run(job: &[u8]) -> Log {
    let mut r = Rd(job);
    let file = r.blob();
    let tape = r.blob().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    record(file, &mut Src::from_tape(tape))
}
