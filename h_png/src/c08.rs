use models::png as mp;
use pbt::{check, fail, first_diff, Ctx, Res, Src};
use zune_core::bit_depth::ByteEndian;
use zune_core::bytestream::ZCursor;
use zune_core::options::DecoderOptions;
use zune_core::result::DecodingResult;
use zune_png::{post_process_image, BlendOp, DisposeOp, PngDecoder};

#[derive(Clone, Debug)]
pub struct Fr {
    pub part: bool,
    pub seq: u32,
    pub w: usize,
    pub h: usize,
    pub x: usize,
    pub y: usize,
    pub delay: (u16, u16),
    pub dispose: u8,
    pub blend: u8,
    pub samples: Vec<u16>
}

/// Builds an animation; returns the specification of the canvas, the frames and the chunks.
pub fn animation(s: &mut Src, max: usize) -> (mp::Spec, Vec<Fr>, Vec<mp::Chunk>) {
    let mut sp = mp::gen_spec(s, max);
    let default_in = !s.chance(1, 3);
    let n = s.usize(1, 6);
    let alpha = mp::out_channels(&sp, false) % 2 == 0;
    let mut v = vec![mp::ihdr(&sp)];
    let nframes = n as u32;
    let mut actl = nframes.to_be_bytes().to_vec();
    actl.extend((s.below(3) as u32).to_be_bytes());
    // acTL may be anywhere before IDAT
    v.push(mp::ch(b"acTL", actl));
    v.extend(mp::plte(&sp));
    v.extend(mp::trns(&sp));
    let limit = if sp.color == 3 { sp.palette.len() as u16 - 1 } else { u16::MAX };
    let mut frames = vec![];
    let mut seq = 0u32;
    let mut first = true;
    let total = n + (!default_in) as usize;
    for i in 0..total {
        let is_default = i == 0;
        let part = default_in || i > 0;
        let (w, h, x, y) = if is_default {
            (sp.w, sp.h, 0, 0)
        } else {
            let w = s.usize(1, sp.w);
            let h = s.usize(1, sp.h);
            let (x, y) = (s.usize(0, sp.w - w), s.usize(0, sp.h - h));
            match s.below(4) {
                0 => (sp.w, sp.h, 0, 0),
                _ => (w, h, x, y)
            }
        };
        let samples = if is_default { sp.samples.clone() } else { mp::gen_samples(s, w * h * mp::nch(sp.color), sp.depth, limit) };
        let mut fr = Fr { part, seq, w, h, x, y, delay: (s.below(1000) as u16, s.below(1000) as u16), dispose: s.below(3) as u8, blend: if alpha { s.below(2) as u8 } else { s.chance(1, 12) as u8 }, samples };
        if part {
            // the first frame of the sequence shall not be "previous" in a sensible file
            if first && fr.dispose == 2 {
                fr.dispose = 1;
            }
            first = false;
            let mut d = seq.to_be_bytes().to_vec();
            for q in [w, h, x, y] {
                d.extend((q as u32).to_be_bytes());
            }
            d.extend(fr.delay.0.to_be_bytes());
            d.extend(fr.delay.1.to_be_bytes());
            d.extend([fr.dispose, fr.blend]);
            v.push(mp::ch(b"fcTL", d));
            seq += 1;
        } else {
            fr = Fr { delay: (0, 0), dispose: 0, blend: 0, ..fr };
        }
        let f = mp::gen_filters(s);
        let raw = mp::scanlines(f, &fr.samples, w, h, sp.color, sp.depth, sp.interlace);
        let z = mp::zlib(s, &raw);
        for p in mp::split(s, &z) {
            if is_default {
                v.push(mp::ch(b"IDAT", p));
            } else {
                let mut d = seq.to_be_bytes().to_vec();
                seq += 1;
                d.extend(p);
                v.push(mp::ch(b"fdAT", d));
            }
        }
        frames.push(fr);
    }
    if s.chance(1, 4) {
        v.push(mp::ch(b"tEXt", b"Title\0x".to_vec()));
    }
    v.push(mp::ch(b"IEND", vec![]));
    sp.samples = frames[0].samples.clone();
    (sp, frames, v)
}

fn describe(sp: &mp::Spec, f: &[Fr]) -> String {
    format!("{sp:?}; frames {}", f.iter().map(|f| format!("[{}x{}+{}+{} part {} dispose {} blend {}]", f.w, f.h, f.x, f.y, f.part, f.dispose, f.blend)).collect::<Vec<_>>().join(" "))
}

/// every frame once, in order, with its control data and pixels
pub fn frames(s: &mut Src, c: &mut Ctx) -> Res {
    let (sp, fr, v) = animation(s, 24);
    let file = mp::write(&v);
    c.artifact("input.png", &file);
    let o = crate::c05::gen_options(s);
    c.note(format!("{}; {}", describe(&sp, &fr), crate::c05::describe(&o)));
    if fr.len() > 1 {
        c.nontrivial();
    }
    let strip = o.png_get_strip_to_8bit();
    let add = o.png_get_add_alpha_channel();
    let sixteen = sp.depth == 16;
    let n = mp::out_channels(&sp, add);
    let mut d = PngDecoder::new_with_options(ZCursor::new(&file[..]), o);
    if let Err(e) = d.decode_headers() {
        return fail("valid animation rejected", format!("{e:?}"));
    }
    check!(d.is_animated(), "not seen as an animation", "");
    check!(d.dimensions() == Some((sp.w, sp.h)), "wrong canvas dimensions", "");
    check!(d.colorspace() == Some(crate::c05::cs(n)), "wrong colourspace", "{:?}", d.colorspace());
    let mut k = 0;
    while d.more_frames() {
        check!(k < fr.len(), "too many frames", "{} stored", fr.len());
        let f = &fr[k];
        if s.bool() {
            // "multiple calls is okay"
            if let Err(e) = d.decode_headers() {
                return fail("valid animation rejected", format!("frame {k}: {e:?}"));
            }
        }
        let Some(i) = d.frame_info() else { return fail("no frame info", format!("frame {k}")) };
        check!((i.width, i.height, i.x_offset, i.y_offset) == (f.w, f.h, f.x, f.y), "wrong frame rectangle", "frame {k}: {i:?}");
        check!(i.is_part_of_seq == f.part, "wrong is_part_of_seq", "frame {k}: {i:?}");
        let want_d = [DisposeOp::None, DisposeOp::Background, DisposeOp::Previous][f.dispose as usize];
        let want_b = [BlendOp::Source, BlendOp::Over][f.blend as usize];
        check!(i.dispose_op == want_d && i.blend_op == want_b, "wrong dispose or blend operation", "frame {k}: {i:?}");
        check!((i.delay_num, i.delay_denom) == f.delay, "wrong delay", "frame {k}: {i:?}");
        if f.part {
            check!(i.seq_number == f.seq as i32, "wrong sequence number", "frame {k}: {i:?}");
        }
        let px = mp::pixels(&sp, &f.samples, add);
        match s.below(3) {
            0 => match d.decode_raw() {
                Ok(p) => {
                    if let Some(x) = first_diff(&p, &crate::c05::to_bytes(&px, sixteen, strip, o.byte_endian())) {
                        return fail("decode_raw: wrong frame pixels", format!("frame {k}: {x}"));
                    }
                }
                Err(e) => return fail("valid frame rejected", format!("frame {k}: {e:?}"))
            },
            1 => match d.decode() {
                Ok(DecodingResult::U8(p)) => {
                    if let Some(x) = first_diff(&p, &crate::c05::to_bytes(&px, sixteen, strip, ByteEndian::BE)) {
                        return fail("decode: wrong frame pixels", format!("frame {k}: {x}"));
                    }
                }
                Ok(DecodingResult::U16(p)) => {
                    if let Some(x) = first_diff(&p, &px) {
                        return fail("decode: wrong frame pixels (16 bit)", format!("frame {k}: {x}"));
                    }
                    // decode switches the decoder to native endian
                }
                Ok(_) => return fail("decode: result kind", ""),
                Err(e) => return fail("valid frame rejected", format!("frame {k}: {e:?}"))
            },
            _ => {
                let mut buf = vec![0x5A; d.output_buffer_size().unwrap()];
                if let Err(e) = d.decode_into(&mut buf) {
                    return fail("valid frame rejected", format!("frame {k}: {e:?}"));
                }
                let w = crate::c05::to_bytes(&px, sixteen, strip, d.byte_endian());
                if let Some(x) = first_diff(&buf[..w.len()], &w) {
                    return fail("decode_into: wrong frame pixels", format!("frame {k}: {x}"));
                }
                check!(buf[w.len()..].iter().all(|x| *x == 0x5A), "decode_into writes beyond the frame", "frame {k}");
            }
        }
        // decode() leaves the decoder in native byte order
        if d.byte_endian() != o.byte_endian() {
            let q = d.options().set_byte_endian(o.byte_endian());
            d.set_options(q);
        }
        k += 1;
    }
    check!(k == fr.len(), "frames are missing", "{k} of {}", fr.len());
    check!(d.decode_raw().is_err() && d.decode().is_err(), "decoding beyond the last frame succeeds", "");
    Ok(())
}

/// Straight-forward canvas; `own` applies a frame's dispose operation before drawing the frame itself.
fn compose(sp: &mp::Spec, fr: &[Fr], n: usize, own: bool) -> Vec<(Vec<f64>, Vec<bool>)> {
    let gamma = 2.2f64;
    let size = sp.w * sp.h * n;
    let mut canvas = vec![0f64; size];
    let mut exact = vec![true; size];
    let mut out: Vec<(Vec<f64>, Vec<bool>)> = vec![];
    let mut pending: Option<(usize, usize, usize, usize, u8, Vec<f64>, Vec<bool>)> = None;
    for f in fr {
        if own {
            match f.dispose {
                1 => {
                    canvas.fill(0.0);
                    exact.fill(true);
                }
                _ => {}
            }
        } else if let Some((x, y, w, h, d, c, e)) = pending.take() {
            match d {
                1 => {
                    for r in y..y + h {
                        canvas[(r * sp.w + x) * n..(r * sp.w + x + w) * n].fill(0.0);
                        exact[(r * sp.w + x) * n..(r * sp.w + x + w) * n].fill(true);
                    }
                }
                2 => {
                    canvas = c;
                    exact = e;
                }
                _ => {}
            }
        }
        pending = Some((f.x, f.y, f.w, f.h, f.dispose, canvas.clone(), exact.clone()));
        let px = mp::pixels(sp, &f.samples, false);
        for r in 0..f.h {
            for q in 0..f.w {
                let src = &px[(r * f.w + q) * n..(r * f.w + q + 1) * n];
                let o = ((r + f.y) * sp.w + q + f.x) * n;
                let dst = &mut canvas[o..o + n];
                let ex = &mut exact[o..o + n];
                if f.blend == 0 || n % 2 == 1 || src[n - 1] == 255 {
                    for i in 0..n {
                        dst[i] = src[i] as f64;
                        ex[i] = true;
                    }
                } else if src[n - 1] != 0 {
                    let fa = src[n - 1] as f64 / 255.0;
                    let ba = dst[n - 1] / 255.0;
                    let oa = fa + ba * (1.0 - fa);
                    for i in 0..n - 1 {
                        let lf = (src[i] as f64 / 255.0).powf(1.0 / gamma);
                        let lb = (dst[i] / 255.0).powf(1.0 / gamma);
                        let v = (lf * fa + lb * ba * (1.0 - fa)) / oa;
                        dst[i] = v.powf(gamma) * 255.0;
                        ex[i] = false;
                    }
                    dst[n - 1] = oa * 255.0;
                    ex[n - 1] = false;
                    // 8-bit canvas
                    for d in dst.iter_mut() {
                        *d = d.round();
                    }
                }
            }
        }
        out.push((canvas.clone(), exact.clone()));
    }
    out
}

fn near(a: &[u8], b: &(Vec<f64>, Vec<bool>)) -> Option<String> {
    for i in 0..a.len() {
        let tol = if b.1[i] { 0.0 } else { 2.5 };
        if (a[i] as f64 - b.0[i]).abs() > tol {
            return Some(format!("sample {i}: got {}, expected {:.1} (+-{tol})", a[i], b.0[i]));
        }
    }
    None
}

/// composition through post_process_image, driven the way its documentation shows
pub fn compose_api(s: &mut Src, c: &mut Ctx) -> Res {
    let (sp, fr, v) = animation(s, 14);
    if sp.depth == 16 {
        return Ok(());
    }
    let file = mp::write(&v);
    c.artifact("input.png", &file);
    c.note(describe(&sp, &fr));
    if fr.len() > 1 {
        c.nontrivial();
    }
    let n = mp::out_channels(&sp, false);
    let fr: Vec<Fr> = fr.into_iter().filter(|f| f.part).collect();
    if fr.iter().all(|f| f.dispose == 0) {
        c.label("no dispose operations");
    }
    let spec = compose(&sp, &fr, n, false);
    let own = compose(&sp, &fr, n, true);
    let bad = |k: usize, e: zune_png::error::PngDecodeErrors| fail("composition of a valid frame fails", format!("frame {k}: {e:?}"));
    let mut d = PngDecoder::new(ZCursor::new(&file[..]));
    if let Err(e) = d.decode_headers() {
        return bad(0, e);
    }
    let info = d.info().unwrap().clone();
    let cs = d.colorspace().unwrap();
    let mut out = vec![0u8; sp.w * sp.h * n];
    let mut background: Option<Vec<u8>> = None;
    let mut known: Option<String> = None;
    let mut k = 0;
    while d.more_frames() {
        if let Err(e) = d.decode_headers() {
            return bad(k, e);
        }
        let fi = d.frame_info().unwrap();
        let px = match d.decode_raw() {
            Ok(p) => p,
            Err(e) => return bad(k, e)
        };
        if !fi.is_part_of_seq {
            continue;
        }
        if let Err(e) = post_process_image(&info, cs, &fi, &px, background.as_deref(), &mut out, None) {
            return bad(k, e);
        }
        background = Some(out.clone());
        if let Some(x) = near(&out, &spec[k]) {
            if near(&out, &own[k]).is_some() {
                return fail("post_process_image: wrong canvas", format!("frame {k}: {x}"));
            }
            known.get_or_insert(format!("frame {k}: {x}"));
        }
        k += 1;
        if !spec[k - 1].1.iter().all(|x| *x) || !own[k - 1].1.iter().all(|x| *x) {
            // later frames would accumulate rounding differences
            c.label("translucent blending");
            k = fr.len();
            break;
        }
    }
    if let Some(x) = known {
        return fail("post_process_image: dispose operation applied before its own frame", x);
    }
    check!(k == fr.len(), "frames are missing", "{k} of {}", fr.len());
    Ok(())
}

/// the image library's frames
pub fn compose_image(s: &mut Src, c: &mut Ctx) -> Res {
    let (sp, fr, v) = animation(s, 14);
    if sp.depth == 16 {
        return Ok(());
    }
    let file = mp::write(&v);
    c.artifact("input.png", &file);
    c.note(describe(&sp, &fr));
    if fr.len() > 1 {
        c.nontrivial();
    }
    let n = mp::out_channels(&sp, false);
    let im = match zune_image::image::Image::read(ZCursor::new(&file[..]), DecoderOptions::default()) {
        Ok(i) => i,
        Err(e) => return fail("valid animation rejected by the image library", format!("{e:?}"))
    };
    check!(im.dimensions() == (sp.w, sp.h), "wrong dimensions", "{:?}", im.dimensions());
    let first = mp::pixels(&sp, &fr[0].samples, false);
    let fr: Vec<Fr> = fr.into_iter().filter(|f| f.part).collect();
    check!(im.frames_len() == fr.len(), "image library: wrong number of frames", "{} instead of {}", im.frames_len(), fr.len());
    let spec = compose(&sp, &fr, n, false);
    for (k, got) in im.flatten_to_u8().iter().enumerate() {
        if let Some(x) = near(got, &spec[k]) {
            return fail("image library: wrong canvas", format!("frame {k}: {x}"));
        }
        if !spec[k].1.iter().all(|x| *x) {
            c.label("translucent blending");
            break;
        }
    }
    // without animation only the first frame is read
    let im = match zune_image::image::Image::read(ZCursor::new(&file[..]), DecoderOptions::default().png_set_decode_animated(false)) {
        Ok(i) => i,
        Err(e) => return fail("valid animation rejected by the image library", format!("{e:?}"))
    };
    check!(im.frames_len() == 1, "more than one frame although animation is off", "");
    let w: Vec<u8> = first.iter().map(|v| *v as u8).collect();
    if let Some(x) = first_diff(&im.flatten_to_u8()[0], &w) {
        return fail("wrong first frame", x);
    }
    Ok(())
}
