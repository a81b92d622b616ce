use crate::ffi::*;
use crate::fork::{isolated, Report};
use crate::header::value;
use crate::plan::*;
use libc::c_void;
use pbt::{check, Ctx, Fail, Res, Src};
use std::ffi::{CStr, CString};
use std::path::{Path, PathBuf};
use std::ptr::{null, null_mut};
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_image::channel::Channel;
use zune_image::codecs::ImageFormat;
use zune_image::core_filters::colorspace::ColorspaceConv;
use zune_image::core_filters::depth::Depth;
use zune_image::image::Image;
use zune_image::traits::OperationsTrait;
use zune_imageprocs as zp;

struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        let base = if Path::new("/dev/shm").is_dir() { "/dev/shm".into() } else { std::env::temp_dir() };
        let t = format!("{:?}", std::thread::current().id()).replace(|c: char| !c.is_ascii_digit(), "");
        let d = base.join(format!("pbt-capi-{}-{t}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
    fn path(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
    fn c(&self, n: &str) -> CString {
        CString::new(self.0.join(n).to_str().unwrap()).unwrap()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn size_of(d: BitDepth) -> usize {
    if d == BitDepth::Unknown {
        0
    } else {
        d.size_of()
    }
}
/// samples of one frame, interleaved, in memory order
fn interleaved(i: &Image) -> Vec<u8> {
    let ch = i.frames_ref()[0].channels_vec_ref();
    let z = size_of(i.depth());
    let b: Vec<&[u8]> = ch.iter().map(|c: &Channel| unsafe { c.alias() }).collect();
    let n = b.first().map(|x| x.len() / z.max(1)).unwrap_or(0);
    let mut out = Vec::with_capacity(n * z * b.len());
    for k in 0..n {
        for c in &b {
            out.extend_from_slice(&c[k * z..(k + 1) * z]);
        }
    }
    out
}
fn bits(i: &Image) -> Vec<Vec<Vec<u8>>> {
    i.frames_ref().iter().map(|f| f.channels_vec_ref().iter().map(|c| unsafe { c.alias().to_vec() }).collect()).collect()
}

/// memory of a caller with guarded ends
struct Guarded {
    v: Vec<u64>,
    off: usize,
    n: usize,
}
const PAD: usize = 64;
impl Guarded {
    fn new(n: usize, off: usize) -> Guarded {
        Guarded { v: vec![0xC3C3_C3C3_C3C3_C3C3; (n + 2 * PAD + off) / 8 + 2], off, n }
    }
    fn ptr(&mut self) -> *mut u8 {
        unsafe { (self.v.as_mut_ptr() as *mut u8).add(PAD + self.off) }
    }
    fn all(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.v.as_ptr() as *const u8, self.v.len() * 8) }
    }
    fn data(&self) -> &[u8] {
        &self.all()[PAD + self.off..PAD + self.off + self.n]
    }
    fn intact(&self) -> bool {
        let a = self.all();
        a[..PAD + self.off].iter().chain(&a[PAD + self.off + self.n..]).all(|b| *b == 0xC3)
    }
}

struct Out {
    w: usize,
    h: usize,
    d: u32,
    c: usize,
}

struct World<'a> {
    dir: &'a Dir,
    plan: &'a Plan,
    status: [S; STATUSES],
    image: [Z; IMAGES],
    model: [Option<Image>; IMAGES],
}

fn f<T>(sig: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg })
}

impl World<'_> {
    fn st(&self, s: Slot) -> S {
        s.map_or(null_mut(), |k| self.status[k])
    }
    fn im(&self, s: Slot) -> Z {
        s.map_or(null_mut(), |k| self.image[k])
    }
    /// what a status says after a call
    fn outcome(&self, s: Slot, what: &str, want: Result<(), Vec<&str>>) -> Res {
        let p = self.st(s);
        if p.is_null() {
            return Ok(());
        }
        unsafe {
            let ok = zil_status_ok(p);
            let code = zil_status_code(p);
            let m = zil_status_message(p);
            check!(!m.is_null(), "no message", "{what}");
            let m = CStr::from_ptr(m).to_string_lossy().to_string();
            match want {
                Ok(()) => check!(ok && code == value("ZilOk"), &format!("{what}: a success is reported as a failure"), "{what}: code {code} {m:?}"),
                Err(codes) => {
                    check!(!ok && code != value("ZilOk"), &format!("{what}: a failure is reported as a success"), "{what}: {m:?}");
                    check!(codes.is_empty() || codes.iter().any(|c| value(c) == code), &format!("{what}: code of the failure"), "{what}: {code} for {codes:?}, {m:?}");
                    check!(!m.is_empty(), &format!("{what}: a failure without a message"), "{what}: code {code}");
                }
            }
        }
        Ok(())
    }
    fn look(&self, z: Z, s: Slot, want: Option<&Image>, what: &str) -> Res {
        let p = self.st(s);
        unsafe {
            let got = (zil_zimg_width(z, p), zil_zimg_height(z, p), zil_zimg_depth(z, p), zil_zimg_colorspace(z, p), zil_zimg_get_out_buffer_size(z, p));
            match want {
                None => {
                    check!(got == (0, 0, 0, 0, 0), "null image described", "{what}: {got:?}");
                    self.outcome(s, "looking at null", Err(vec!["ZilImageIsNull"]))?;
                }
                Some(i) => {
                    let (w, h) = i.dimensions();
                    let size = w * h * i.colorspace().num_components() * size_of(i.depth());
                    let w = (w, h, depth_no(i.depth()), color_no(i.colorspace()), size);
                    check!(got == w, &format!("{what}: description of an image"), "{what}: {got:?} for {w:?}");
                }
            }
        }
        Ok(())
    }
    /// the image and its model hold the same picture
    fn same(&self, k: usize, what: &str) -> Res {
        let Some(m) = &self.model[k] else {
            check!(self.image[k].is_null(), "?", "");
            return Ok(());
        };
        self.look(self.image[k], None, Some(m), what)?;
        // the opaque structure is the library's own type
        let got = unsafe { &*(self.image[k] as *const Image) };
        check!(bits(got) == bits(m), &format!("{what}: samples of the image"), "{what}: {:?} {:?} {:?}", m.dimensions(), m.colorspace(), m.depth());
        check!(format!("{:?}", got.metadata()) == format!("{:?}", m.metadata()), &format!("{what}: metadata of the image"), "{what}: {:?} for {:?}", got.metadata(), m.metadata());
        Ok(())
    }
    fn put(&mut self, k: usize, z: Z, m: Option<Image>) {
        unsafe { zil_zimg_free(self.image[k]) };
        self.image[k] = z;
        self.model[k] = m;
    }

    fn step(&mut self, op: &Op, s: Slot, r: &mut Report) -> Res {
        let p = self.st(s);
        unsafe {
            match op {
                Op::NewStatus(k) => {
                    zil_status_free(self.status[*k]);
                    self.status[*k] = zil_status_new();
                    check!(!self.status[*k].is_null(), "no status", "");
                    let m = CStr::from_ptr(zil_status_message(self.status[*k]));
                    check!(zil_status_ok(self.status[*k]) && m.to_bytes().is_empty(), "fresh status", "{m:?}");
                }
                Op::Status(x) => {
                    let q = self.st(*x);
                    if q.is_null() {
                        check!(!zil_status_ok(q) && zil_status_code(q) == value("ZilNullStatus") && zil_status_message(q).is_null(), "null status", "");
                        zil_status_free(q);
                    } else {
                        check!(zil_status_ok(q) == (zil_status_code(q) == value("ZilOk")), "status", "");
                    }
                    zil_zimg_free(null_mut());
                    check!(zil_imdepth_new() == value("ZilUnknownDepth"), "imdepth_new", "");
                    let mut m = zil_malloc(24);
                    check!(!m.is_null(), "malloc", "");
                    zil_free_and_null(&mut m);
                    check!(m.is_null(), "free_and_null", "");
                    zil_free_and_null(null_mut());
                    zil_free(zil_malloc(1));
                }
                Op::New(k) => {
                    let z = zil_zimg_new();
                    check!(!z.is_null(), "no image", "");
                    let m = Image::new(vec![], BitDepth::Unknown, 1, 1, ColorSpace::Unknown);
                    self.put(*k, z, Some(m));
                    self.same(*k, "new")?;
                }
                Op::From(k, px, w, h, cs) => {
                    let n = cs.num_components();
                    let need = w.checked_mul(*h).and_then(|x| x.checked_mul(n));
                    let c = color_no(*cs);
                    let (z, have) = match px {
                        Pixels::U8(v) => (zil_zimg_from_u8(v.as_ptr(), v.len(), *w, *h, c), v.len()),
                        Pixels::U16(v) => (zil_zimg_from_u16(v.as_ptr(), v.len(), *w, *h, c), v.len()),
                        Pixels::F32(v) => (zil_zimg_from_f32(v.as_ptr(), v.len(), *w, *h, c), v.len()),
                    };
                    let kind = match px {
                        Pixels::U8(_) => "from_u8",
                        Pixels::U16(_) => "from_u16",
                        Pixels::F32(_) => "from_f32",
                    };
                    match need {
                        Some(0) => zil_zimg_free(z),
                        Some(x) if x <= have => {
                            check!(!z.is_null(), &format!("{kind} refuses enough pixels"), "{w}x{h} {cs:?} with {have} samples");
                            let m = match px {
                                Pixels::U8(v) => Image::from_u8(&v[..x], *w, *h, *cs),
                                Pixels::U16(v) => Image::from_u16(&v[..x], *w, *h, *cs),
                                Pixels::F32(v) => Image::from_f32(&v[..x], *w, *h, *cs),
                            };
                            self.put(*k, z, Some(m));
                            r.nontrivial = true;
                            self.same(*k, kind)?;
                        }
                        _ => {
                            check!(z.is_null(), &format!("{kind} takes too few pixels"), "{w}x{h} {cs:?} with {have} samples");
                        }
                    }
                }
                Op::Read(x, i) | Op::Open(x, i) => {
                    let z = self.im(*x);
                    let bytes = &self.plan.files[*i];
                    let (want, what) = if let Op::Read(..) = op {
                        zil_zimg_read_from_memory(bytes.as_ptr(), bytes.len(), z, p);
                        (Image::read(ZCursor::new(bytes), DecoderOptions::new_fast()).map_err(|e| format!("{e:?}")), "read_from_memory")
                    } else {
                        let n = format!("f{i}.bin");
                        zil_zimg_open(self.dir.c(&n).as_ptr(), z, p);
                        (Image::open(self.dir.path(&n)).map_err(|e| format!("{e:?}")), "open")
                    };
                    if z.is_null() {
                        return self.outcome(s, what, Err(vec!["ZilImageIsNull"]));
                    }
                    match want {
                        Ok(m) => {
                            self.outcome(s, what, Ok(()))?;
                            self.model[x.unwrap()] = Some(m);
                            r.nontrivial = true;
                        }
                        Err(_) => self.outcome(s, what, Err(vec![]))?,
                    }
                    self.same(x.unwrap(), what)?;
                }
                Op::OpenMissing(x, kind) => {
                    let z = self.im(*x);
                    let n = match kind {
                        0 => self.dir.c("missing"),
                        1 => self.dir.c(""),
                        _ => CString::new([self.dir.0.to_str().unwrap().as_bytes(), b"/\xff\xfe"].concat()).unwrap(),
                    };
                    zil_zimg_open(n.as_ptr(), z, p);
                    self.outcome(s, "open", Err(vec![]))?;
                    if let Some(k) = x {
                        self.same(*k, "open")?;
                    }
                    let got = zil_read_headers_from_file(n.as_ptr(), p);
                    check!(got == Meta { width: 0, height: 0, depth: 0, colorspace: 0, format: 0 }, "headers of a missing file", "{got:?}");
                    self.outcome(s, "read_headers_from_file", Err(vec!["ZilIoErrors"]))?;
                    if !p.is_null() {
                        let q = zil_imread(n.as_ptr(), null_mut(), null_mut(), null_mut(), null_mut(), p);
                        check!(q.is_null(), "imread of a missing file", "");
                        self.outcome(s, "imread", Err(vec!["ZilIoErrors"]))?;
                    }
                    zil_imread_into(n.as_ptr(), null_mut::<u8>().wrapping_add(16), 0, null_mut(), null_mut(), null_mut(), null_mut(), p);
                    self.outcome(s, "imread_into", Err(vec!["ZilIoErrors"]))?;
                }
                Op::Clone(x, k) => {
                    let z = zil_zimg_clone(self.im(*x));
                    if self.im(*x).is_null() {
                        check!(z.is_null(), "clone of null", "");
                    } else {
                        check!(!z.is_null(), "no clone", "");
                        let m = self.model[x.unwrap()].clone();
                        self.put(*k, z, m);
                        self.same(*k, "clone")?;
                    }
                }
                Op::Free(k) => self.put(*k, null_mut(), None),
                Op::Look(x) => {
                    let m = x.and_then(|k| self.model[k].as_ref());
                    self.look(self.im(*x), s, m, "look")?;
                }
                Op::Output(x, extra, off) => {
                    let z = self.im(*x);
                    let m = x.and_then(|k| self.model[k].as_ref());
                    let want = m.map(interleaved_or_empty).unwrap_or_default();
                    let mut b = Guarded::new(want.len().saturating_add_signed(*extra), *off);
                    let n = zil_zimg_write_to_output(z, b.ptr(), b.n, p);
                    check!(b.intact(), "write_to_output writes outside the buffer", "{} of {}", b.n, want.len());
                    let Some(m) = m else {
                        check!(n == 0, "write_to_output of null", "{n}");
                        return self.outcome(s, "write_to_output", Err(vec!["ZilImageIsNull"]));
                    };
                    if b.n < want.len() {
                        check!(n == 0, "write_to_output reports bytes for a buffer that is too small", "{n} of {} for {}", b.n, want.len());
                        return self.outcome(s, "write_to_output (small)", Err(vec!["ZilNotEnoughSpaceInDest", "ZilImageOperationError"]));
                    }
                    if m.depth() == BitDepth::Unknown || want.is_empty() {
                        check!(n == 0, "write_to_output of nothing", "{n}");
                        return Ok(());
                    }
                    if *off > 0 && m.depth() != BitDepth::Eight && n == 0 {
                        // may refuse a misaligned buffer
                        return self.outcome(s, "write_to_output (misaligned)", Err(vec![]));
                    }
                    self.outcome(s, "write_to_output", Ok(()))?;
                    check!(n == want.len(), "write_to_output: number of bytes", "{n} for {} (buffer {})", want.len(), b.n);
                    check!(b.data()[..n] == want[..], "write_to_output: samples", "{:?} {:?} {:?}", m.dimensions(), m.colorspace(), m.depth());
                    check!(b.data()[n..].iter().all(|x| *x == 0xC3), "write_to_output: more bytes than reported", "");
                }
                Op::Write(x, kind, format, ext) => {
                    let z = self.im(*x);
                    let known = ["png", "ppm", "qoi", "ff", "jxl", "hdr", "jpg", "bmp", "psd", "xyz"];
                    let names = [ImageFormat::PNG, ImageFormat::PPM, ImageFormat::QOI, ImageFormat::Farbfeld, ImageFormat::JPEG_XL, ImageFormat::HDR, ImageFormat::JPEG, ImageFormat::BMP, ImageFormat::PSD];
                    let e = known[names.iter().position(|f| f == format).unwrap_or(9)];
                    let (a, b) = match kind {
                        0 => (format!("none/a.{e}"), format!("none/b.{e}")),
                        1 => ("a".into(), "b".into()),
                        _ => (format!("a.{e}"), format!("b.{e}")),
                    };
                    let (pa, pb) = (self.dir.path(&a), self.dir.path(&b));
                    let _ = std::fs::remove_file(&pa);
                    let _ = std::fs::remove_file(&pb);
                    let what = if *ext {
                        zil_zimg_write_to_disk(self.dir.c(&a).as_ptr(), z, p);
                        "write_to_disk"
                    } else {
                        zil_zimg_write_to_disk_with_format(self.dir.c(&a).as_ptr(), z, format_no(*format), p);
                        "write_to_disk_with_format"
                    };
                    let Some(m) = x.and_then(|k| self.model[k].as_ref()) else {
                        return self.outcome(s, what, Err(vec!["ZilImageIsNull"]));
                    };
                    let want = if *ext { m.save(&pb) } else { m.save_to(&pb, *format) };
                    match want {
                        Ok(()) => {
                            self.outcome(s, what, Ok(()))?;
                            check!(std::fs::read(&pa).ok() == std::fs::read(&pb).ok(), &format!("{what}: the file"), "{a}");
                            r.labels.push(format!("wrote {e}"));
                        }
                        Err(_) => self.outcome(s, what, Err(vec![]))?,
                    }
                }
                Op::Proc(x, q) => {
                    let z = self.im(*x);
                    let (name, o) = run(z, q, p);
                    let what = format!("imgproc {name}");
                    if p.is_null() {
                        // nothing happens
                    } else if let Some(k) = *x {
                        match &mut self.model[k] {
                            None => return self.outcome(s, &what, Err(vec!["ZilImageIsNull"])),
                            Some(m) => {
                                let before = m.clone();
                                match o.execute(m) {
                                    Ok(()) => {
                                        r.labels.push(name.into());
                                        self.outcome(s, &what, Ok(()))?
                                    }
                                    Err(_) => {
                                        self.outcome(s, &what, Err(vec!["ZilImageOperationError"]))?;
                                        let _ = before;
                                    }
                                }
                            }
                        }
                    } else {
                        return self.outcome(s, &what, Err(vec!["ZilImageIsNull"]));
                    }
                    if let Some(k) = *x {
                        self.same(k, &what)?;
                    }
                }
                Op::Blend(x, y, v) => {
                    if x == y && x.is_some() {
                        return Ok(());
                    }
                    zil_imgproc_blend(self.im(*x), self.im(*y), *v, p);
                    if p.is_null() {
                    } else if self.im(*x).is_null() || self.im(*y).is_null() {
                        return self.outcome(s, "imgproc blend", Err(vec!["ZilImageIsNull"]));
                    } else {
                        let other = self.model[y.unwrap()].clone().unwrap();
                        let m = self.model[x.unwrap()].as_mut().unwrap();
                        let w = zp::blend::Blend::new(&other, *v).execute(m);
                        self.outcome(s, "imgproc blend", w.map_err(|_| vec!["ZilImageOperationError"]))?;
                    }
                    if let Some(k) = *x {
                        self.same(k, "imgproc blend")?;
                    }
                }
                Op::Decode(i, e) => self.decode(*i, *e, s, r)?,
                Op::Headers(i, file) => {
                    let bytes = &self.plan.files[*i];
                    let got = if *file { zil_read_headers_from_file(self.dir.c(&format!("f{i}.bin")).as_ptr(), p) } else { zil_read_headers_from_memory(bytes.as_ptr(), bytes.len(), p) };
                    let g = zil_guess_format(bytes.as_ptr(), bytes.len());
                    let want = ImageFormat::guess_format(ZCursor::new(bytes)).map_or(0, |x| format_no(x.0));
                    check!(g == want, "guess_format", "{g} for {want}");
                    if p.is_null() {
                        return Ok(());
                    }
                    match zune_image::utils::decode_info(ZCursor::new(bytes)) {
                        None => {
                            check!(got == Meta { width: 0, height: 0, depth: 0, colorspace: 0, format: 0 }, "headers that can't be read", "{got:?}");
                            self.outcome(s, "headers", Err(vec!["ZilDecodeErrors"]))?;
                        }
                        Some(m) => {
                            let (w, h) = m.dimensions();
                            let want = Meta { width: w as u32, height: h as u32, depth: depth_no(m.depth()), colorspace: color_no(m.colorspace()), format: want };
                            check!(got == want, "headers", "{got:?} for {want:?}");
                            self.outcome(s, "headers", Ok(()))?;
                        }
                    }
                }
            }
        }
        Ok(())
    }

    fn decode(&mut self, i: usize, e: Entry, s: Slot, r: &mut Report) -> Res {
        let p = self.st(s);
        let bytes = &self.plan.files[i];
        let name = self.dir.c(&format!("f{i}.bin"));
        let o = DecoderOptions::default();
        let want = Image::read(ZCursor::new(bytes), o);
        let format = ImageFormat::guess_format(ZCursor::new(bytes)).map(|x| format!("{:?}", x.0)).unwrap_or("unknown".into());
        let mut out = Out { w: 77, h: 78, d: 79, c: 80 };
        let b = self.plan.want;
        let pw = if b & 1 == 0 { &mut out.w as *mut usize } else { null_mut() };
        let ph = if b & 2 == 0 { &mut out.h as *mut usize } else { null_mut() };
        let pd = if b & 4 == 0 { &mut out.d as *mut u32 } else { null_mut() };
        let pc = if b & 8 == 0 { &mut out.c as *mut usize } else { null_mut() };
        let px = want.as_ref().map(interleaved).unwrap_or_default();
        let what = match e {
            Entry::Decode => "imdecode",
            Entry::Imread => "imread",
            Entry::DecodeInto(..) => "imdecode_into",
            Entry::ImreadInto(..) => "imread_into",
        };
        let what = format!("{what} {format}");
        unsafe {
            let got: Option<Vec<u8>> = match e {
                Entry::Decode | Entry::Imread => {
                    let q = match e {
                        Entry::Decode => zil_imdecode(bytes.as_ptr(), bytes.len(), pw, ph, pd, pc, p),
                        _ if p.is_null() => return Ok(()),
                        _ => zil_imread(name.as_ptr(), pw, ph, pd, pc, p),
                    };
                    if p.is_null() {
                        check!(q.is_null(), &format!("{what} without a status"), "");
                        return Ok(());
                    }
                    check!(zil_status_ok(p) == !q.is_null(), &format!("{what}: result and status disagree"), "{} {q:?}", zil_status_code(p));
                    if q.is_null() {
                        None
                    } else {
                        let have = libc::malloc_usable_size(q as *mut c_void);
                        check!(have >= px.len() || want.is_err(), &format!("{what}: allocated too little"), "{have} for {}", px.len());
                        let v = std::slice::from_raw_parts(q as *const u8, px.len()).to_vec();
                        zil_free(q as *mut c_void);
                        Some(v)
                    }
                }
                Entry::DecodeInto(extra, off) | Entry::ImreadInto(extra, off) => {
                    let mut g = Guarded::new(px.len().saturating_add_signed(extra), off);
                    match e {
                        Entry::DecodeInto(..) => zil_imdecode_into(bytes.as_ptr(), bytes.len(), g.ptr(), g.n, pw, ph, pd, pc, p),
                        _ => zil_imread_into(name.as_ptr(), g.ptr(), g.n, pw, ph, pd, pc, p),
                    }
                    check!(g.intact(), &format!("{what} writes outside the buffer"), "{} bytes", g.n);
                    if p.is_null() {
                        check!(g.data().iter().all(|x| *x == 0xC3), &format!("{what} without a status writes"), "");
                        return Ok(());
                    }
                    if want.is_ok() && g.n < px.len() {
                        return self.outcome(s, &format!("{what} (small)"), Err(vec!["ZilNotEnoughSpaceInDest"]));
                    }
                    if zil_status_ok(p) {
                        if want.is_ok() {
                            check!(g.data()[px.len()..].iter().all(|x| *x == 0xC3), &format!("{what} writes more than the picture"), "{} of {}", px.len(), g.n);
                        }
                        Some(g.data()[..px.len().min(g.n)].to_vec())
                    } else {
                        if off > 0 {
                            // may refuse a misaligned buffer
                            return Ok(());
                        }
                        None
                    }
                }
            };
            match (&want, got) {
                (Err(_), None) => {
                    self.outcome(s, &what, Err(vec![]))?;
                }
                (Err(x), Some(_)) => return f(&format!("{what}: decodes what the library refuses"), format!("{x:?}")),
                (Ok(i), None) => return f(&format!("{what}: refuses what the library decodes"), format!("{:?} {:?} {:?}: {:?}", i.dimensions(), i.colorspace(), i.depth(), CStr::from_ptr(zil_status_message(p)))),
                (Ok(i), Some(v)) => {
                    self.outcome(s, &what, Ok(()))?;
                    let (w, h) = i.dimensions();
                    let n = i.colorspace().num_components();
                    let ok = (pw.is_null() || out.w == w) && (ph.is_null() || out.h == h) && (pd.is_null() || out.d == depth_no(i.depth())) && (pc.is_null() || out.c == n);
                    check!(ok, &format!("{what}: description"), "{} {} {} {} for {w} {h} {:?} {n}", out.w, out.h, out.d, out.c, i.depth());
                    check!(v == px, &format!("{what}: samples"), "{w}x{h} {:?} {:?}: {}", i.colorspace(), i.depth(), pbt::first_diff(&v, &px).unwrap_or_default());
                    r.nontrivial = true;
                    r.labels.push(what);
                }
            }
        }
        let _ = null::<u8>();
        Ok(())
    }
}

fn interleaved_or_empty(i: &Image) -> Vec<u8> {
    if i.frames_ref().is_empty() {
        vec![]
    } else {
        interleaved(i)
    }
}

fn run(z: Z, q: &Proc, p: S) -> (&'static str, Box<dyn OperationsTrait>) {
    unsafe {
        match *q {
            Proc::Contrast(v) => {
                zil_imgproc_adjust_contrast(z, v, p);
                ("contrast", Box::new(zp::contrast::Contrast::new(v)))
            }
            Proc::Orient => {
                zil_imgproc_auto_orient(z, p);
                ("auto_orient", Box::new(zp::auto_orient::AutoOrient))
            }
            Proc::Bilateral(d, a, b) => {
                zil_imgproc_bilateral_filter(z, d, a, b, p);
                ("bilateral", Box::new(zp::bilateral_filter::BilateralFilter::new(d, a, b)))
            }
            Proc::Brighten(v) => {
                zil_imgproc_brighten(z, v, p);
                ("brighten", Box::new(zp::brighten::Brighten::new(v)))
            }
            Proc::Depth(d) => {
                zil_imgproc_change_depth(z, depth_no(d), p);
                ("change_depth", Box::new(Depth::new(d)))
            }
            Proc::Color(c) => {
                zil_imgproc_convert_colorspace(z, color_no(c), p);
                ("convert_colorspace", Box::new(ColorspaceConv::new(c)))
            }
            Proc::Crop(w, h, x, y) => {
                zil_imgproc_crop(z, w, h, x, y, p);
                ("crop", Box::new(zp::crop::Crop::new(w, h, x, y)))
            }
            Proc::Exposure(e, b) => {
                zil_imgproc_exposure(z, e, b, p);
                ("exposure", Box::new(zp::exposure::Exposure::new(e, b)))
            }
            Proc::Flip => {
                zil_imgproc_flip_mirror_x_axis(z, p);
                ("flip", Box::new(zp::flip::Flip::new(zp::flip::FlipDirection::MirrorXAxis)))
            }
            Proc::Flop => {
                zil_imgproc_flip_horizontal(z, p);
                ("flop", Box::new(zp::flip::Flip::new(zp::flip::FlipDirection::Horizontal)))
            }
            Proc::Gamma(v) => {
                zil_imgproc_gamma(z, v, p);
                ("gamma", Box::new(zp::gamma::Gamma::new(v)))
            }
            Proc::Gauss(v) => {
                zil_imgproc_gaussian_blur(z, v, p);
                ("gaussian_blur", Box::new(zp::gaussian_blur::GaussianBlur::new(v)))
            }
            Proc::Invert => {
                zil_imgproc_invert(z, p);
                ("invert", Box::new(zp::invert::Invert::new()))
            }
            Proc::Median(r) => {
                zil_imgproc_median_blur(z, r, p);
                ("median_blur", Box::new(zp::median::Median::new(r)))
            }
            Proc::Scharr => {
                zil_imgproc_scharr(z, p);
                ("scharr", Box::new(zp::scharr::Scharr::new()))
            }
            Proc::Sobel => {
                zil_imgproc_sobel(z, p);
                ("sobel", Box::new(zp::sobel::Sobel::new()))
            }
            Proc::Stretch(a, b) => {
                zil_imgproc_stretch_contrast(z, a, b, p);
                ("stretch_contrast", Box::new(zp::stretch_contrast::StretchContrast::new(a, b)))
            }
            Proc::Transpose => {
                zil_imgproc_transpose(z, p);
                ("transpose", Box::new(zp::transpose::Transpose::new()))
            }
        }
    }
}

fn play(plan: &Plan, dir: &Dir, r: &mut Report) -> Res {
    let mut w = World { dir, plan, status: [null_mut(); STATUSES], image: [null_mut(); IMAGES], model: Default::default() };
    for k in 0..STATUSES {
        w.status[k] = unsafe { zil_status_new() };
    }
    for (n, (op, s)) in plan.ops.iter().enumerate() {
        w.step(op, *s, r).map_err(|e| Fail { sig: e.sig, msg: format!("step {n}: {}", e.msg) })?;
    }
    for k in 0..STATUSES {
        unsafe { zil_status_free(w.status[k]) };
    }
    for k in 0..IMAGES {
        w.put(k, null_mut(), None);
    }
    Ok(())
}

fn in_use() -> usize {
    let m = unsafe { libc::mallinfo2() };
    m.uordblks + m.hblkhd
}

fn play_all(plan: &Plan, c: &mut Ctx, leaks: bool) -> Res {
    let dir = Dir::new();
    for (k, b) in plan.files.iter().enumerate() {
        std::fs::write(dir.path(&format!("f{k}.bin")), b).unwrap();
    }
    isolated(c, |r| {
        play(plan, &dir, r)?;
        if leaks {
            // the same again: what is in use must not grow
            let mut quiet = Report { labels: vec![], nontrivial: false };
            for _ in 0..3 {
                quiet.labels.clear();
                play(plan, &dir, &mut quiet)?;
            }
            let mut sizes = vec![in_use()];
            for _ in 0..4 {
                quiet.labels.clear();
                play(plan, &dir, &mut quiet)?;
                sizes.push(in_use());
            }
            let d: Vec<isize> = sizes.windows(2).map(|w| w[1] as isize - w[0] as isize).collect();
            check!(!(d[0] > 0 && d.iter().all(|x| *x == d[0])), "memory is lost with each repetition", "{d:?} bytes");
        }
        Ok(())
    })
}

fn text(p: &Plan) -> String {
    let t: Vec<String> = p
        .ops
        .iter()
        .map(|(o, s)| {
            let o = match o {
                Op::From(k, Pixels::U8(v), w, h, c) => format!("From({k}, {} u8, {w}x{h} {c:?})", v.len()),
                Op::From(k, Pixels::U16(v), w, h, c) => format!("From({k}, {} u16, {w}x{h} {c:?})", v.len()),
                Op::From(k, Pixels::F32(v), w, h, c) => format!("From({k}, {} f32, {w}x{h} {c:?})", v.len()),
                o => format!("{o:?}"),
            };
            format!("{o}/{s:?}")
        })
        .collect();
    format!("{} with files of {:?} bytes", t.join(" "), p.files.iter().map(|f| f.len()).collect::<Vec<_>>())
}

pub fn session(s: &mut Src, c: &mut Ctx) -> Res {
    let plan = history(s);
    c.note(text(&plan));
    let leaks = s.chance(1, 8);
    play_all(&plan, c, leaks)
}

pub fn decode(s: &mut Src, c: &mut Ctx) -> Res {
    let files = vec![file(s, 24)];
    let ops = (0..s.usize(1, 3)).map(|_| (Op::Decode(0, entry(s)), Some(s.usize(0, 1)))).collect();
    let plan = Plan { files, ops, want: s.byte() };
    c.note(text(&plan));
    let leaks = s.chance(1, 8);
    play_all(&plan, c, leaks)
}
