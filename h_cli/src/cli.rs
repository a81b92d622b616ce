//! the command line tool, run as a process in a scratch directory
use crate::im::*;
use crate::ops::*;
use pbt::{check, Ctx, Fail, Res, Src};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_image::codecs::ImageFormat;
use zune_image::image::Image;

const FORMATS: [ImageFormat; 7] =
    [ImageFormat::PNG, ImageFormat::PPM, ImageFormat::QOI, ImageFormat::Farbfeld, ImageFormat::JPEG_XL, ImageFormat::HDR, ImageFormat::JPEG];

struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        let base = if Path::new("/dev/shm").is_dir() { "/dev/shm".into() } else { std::env::temp_dir() };
        let t = format!("{:?}", std::thread::current().id()).replace(|c: char| !c.is_ascii_digit(), "");
        let d = base.join(format!("pbt-cli-{}-{t}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn extension(s: &mut Src, f: ImageFormat) -> &'static str {
    match f {
        ImageFormat::PNG => "png",
        ImageFormat::PPM => s.pick(&["ppm", "pam", "pgm"]),
        ImageFormat::QOI => "qoi",
        ImageFormat::Farbfeld => "ff",
        ImageFormat::JPEG_XL => "jxl",
        ImageFormat::HDR => "hdr",
        _ => s.pick(&["jpg", "jpeg"]),
    }
}
fn named(f: ImageFormat) -> &'static str {
    match f {
        ImageFormat::PNG => "png",
        ImageFormat::PPM => "ppm",
        ImageFormat::QOI => "qoi",
        ImageFormat::Farbfeld => "farbfeld",
        ImageFormat::JPEG_XL => "jxl",
        ImageFormat::HDR => "hdr",
        _ => "jpeg",
    }
}

struct Ran {
    ok: bool,
    out: Vec<u8>,
    err: String,
    text: String,
}

fn run(dir: &Dir, args: &[String], stdin: &[u8]) -> Result<Ran, Fail> {
    run_to(dir, args, stdin, Stdio::piped())
}

fn run_to(dir: &Dir, args: &[String], stdin: &[u8], out: Stdio) -> Result<Ran, Fail> {
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .env("PBT_TOOL", "1")
        .env("RUST_BACKTRACE", "0")
        .current_dir(&dir.0)
        .args(args)
        .stdin(Stdio::piped())
        .stdout(out)
        .stderr(Stdio::piped())
        .spawn()
        .unwrap();
    let _ = ch.stdin.take().unwrap().write_all(stdin);
    let o = ch.wait_with_output().unwrap();
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    let text = format!("{:?}: {}\n{}\n{}", args.join(" "), o.status, err, String::from_utf8_lossy(&o.stdout[..o.stdout.len().min(800)]));
    if err.contains("panicked at") || o.status.code().is_none() || o.status.code() == Some(101) {
        let at = err.lines().find(|l| l.contains("panicked at")).unwrap_or("").rsplit("panicked at ").next().unwrap_or("").to_string();
        return Err(Fail { sig: format!("the tool panicked at {}", at.split(':').next().unwrap_or("")), msg: text });
    }
    Ok(Ran { ok: o.status.success(), out: o.stdout, err, text })
}

/// a file to work on
fn source(s: &mut Src) -> (ImageFormat, Vec<u8>) {
    loop {
        let f = s.pick(&FORMATS);
        let (d, cs) = (s.pick(&DEPTHS), s.pick(&[ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::Luma, ColorSpace::LumaA]));
        let (w, h) = (s.dim(24).max(2), s.dim(24).max(2));
        let mut i = pic(s, d, cs, w, h, 1).image();
        if s.chance(1, 3) {
            let v = exif::Field { tag: exif::Tag::Orientation, ifd_num: exif::In::PRIMARY, value: exif::Value::Short(vec![s.below(9) as u16]) };
            set_exif(&mut i, vec![v]);
        }
        if let Ok(v) = i.write_to_vec(f) {
            return (f, v);
        }
    }
}

fn encoded(i: &Image, f: ImageFormat, o: EncoderOptions) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    f.encode(i, o, &mut v).map_err(|e| format!("{e:?}"))?;
    Ok(v)
}

pub fn tool(s: &mut Src, c: &mut Ctx) -> Res {
    let dir = Dir::new();
    let (f, mut bytes) = source(s);
    if s.chance(1, 12) {
        // a damaged file
        if s.bool() {
            let n = s.usize(0, bytes.len());
            bytes.truncate(n);
        } else {
            let k = s.usize(0, bytes.len() - 1);
            bytes[k] ^= 1 << s.below(8);
        }
    }
    let mut d = DecoderOptions::new_cmd().set_max_width(37268).set_max_height(37268);
    let mut e = EncoderOptions::default().set_quality(80).set_num_threads(4).set_effort(4).set_strip_metadata(false).set_jpeg_encode_progressive(false);
    // groups of arguments, in any order; the operations keep theirs
    let mut settings: Vec<Vec<String>> = vec![];
    if s.chance(1, 4) {
        let v = s.below(101) as u8;
        e = e.set_quality(v);
        settings.push(vec![format!("--quality={v}")]);
    }
    if s.chance(1, 6) {
        let v = 1 + s.below(8) as u8;
        e = e.set_num_threads(v);
        settings.push(vec!["--encode-threads".into(), v.to_string()]);
    }
    if s.chance(1, 6) {
        let v = s.below(10) as u8;
        e = e.set_effort(v);
        settings.push(vec!["--effort".into(), v.to_string()]);
    }
    if s.chance(1, 4) {
        e = e.set_jpeg_encode_progressive(true);
        settings.push(vec!["--progressive".into()]);
    }
    if s.chance(1, 4) {
        e = e.set_strip_metadata(true);
        settings.push(vec!["--strip".into()]);
    }
    if s.chance(1, 8) {
        let v = s.usize(1, 30);
        d = d.set_max_width(v);
        settings.push(vec!["--max-width".into(), v.to_string()]);
    }
    if s.chance(1, 8) {
        let v = s.usize(1, 30);
        d = d.set_max_height(v);
        settings.push(vec![format!("--max-height={v}")]);
    }
    if s.chance(1, 8) {
        d = d.set_strict_mode(true);
        settings.push(vec!["--strict".into()]);
    }
    if s.chance(1, 8) {
        d = d.set_use_unsafe(false);
        settings.push(vec!["--safe".into()]);
    }
    if s.chance(1, 8) {
        d = d.jpeg_set_out_colorspace(ColorSpace::Luma);
        settings.push(vec!["--jpeg-grayscale".into()]);
    }
    if s.chance(1, 4) {
        settings.push(vec![s.pick(&["--no-log", "--debug", "--trace", "--info", "--warn", "-y", "--experimental", "--mmap=auto"]).into()]);
    }
    let stdin = s.chance(1, 4);
    settings.push(vec![s.pick(&["-i", "--input"]).into(), if stdin { "-".into() } else { "in file.bin".into() }]);
    if !stdin {
        std::fs::write(dir.0.join("in file.bin"), &bytes).unwrap();
    }
    // outputs
    let to_stdout = s.chance(1, 5);
    let mut outs: Vec<(Option<PathBuf>, ImageFormat)> = vec![];
    if to_stdout {
        let of = s.pick(&FORMATS);
        settings.push(vec!["-o".into(), "-".into()]);
        settings.push(vec!["--output-format".into(), named(of).into()]);
        outs.push((None, of));
    }
    for k in 0..s.usize(usize::from(!to_stdout), 3) {
        let of = s.pick(&FORMATS);
        let name = format!("{}{k}.{}", s.pick(&["out", "a.b", "png.", "x y"]), extension(s, of));
        let p = dir.0.join(&name);
        if s.chance(1, 6) {
            // it was there before, and longer
            std::fs::write(&p, vec![7; 40_000]).unwrap();
        }
        settings.push(vec![s.pick(&["-o", "--out"]).into(), name]);
        outs.push((Some(p), of));
    }
    // operations, each at most once
    let mut ops: Vec<Op> = vec![];
    for _ in 0..s.usize(0, 5) {
        let op = any_op(s, 20, 20);
        if !ops.iter().any(|q| q.name == op.name) {
            ops.push(op);
        }
    }
    let mut args: Vec<String> = vec![];
    let mut queue: std::collections::VecDeque<&Op> = ops.iter().collect();
    while !queue.is_empty() || !settings.is_empty() {
        if !queue.is_empty() && (settings.is_empty() || s.bool()) {
            args.extend(queue.pop_front().unwrap().args.clone());
        } else {
            let k = s.usize(0, settings.len() - 1);
            args.extend(settings.swap_remove(k));
        }
    }
    c.note(format!("{f:?}, {} bytes: {}", bytes.len(), args.join(" ")));
    // what the library makes of it
    let want: Result<Image, String> = (|| {
        let mut i = Image::read(ZCursor::new(&bytes), d).map_err(|e| format!("{e:?}"))?;
        for op in &ops {
            (op.make)().execute(&mut i).map_err(|e| format!("{}: {e:?}", op.name))?;
        }
        Ok(i)
    })();
    let ran = run(&dir, &args, if stdin { &bytes } else { b"" })?;
    let files: Vec<Result<Vec<u8>, String>> = match &want {
        Ok(i) => outs.iter().map(|(_, f)| encoded(i, *f, e)).collect(),
        Err(e) => vec![Err(e.clone())],
    };
    if let Some(Err(e)) = files.iter().find(|f| f.is_err()) {
        c.label("fails");
        check!(!ran.ok, "a failure went unreported", "library: {e}; {}", ran.text);
        return Ok(());
    }
    check!(ran.ok, "the tool failed", "{}", ran.text);
    c.label(if stdin { "stdin" } else { "file" });
    if !ops.is_empty() {
        c.nontrivial();
        c.label(ops[0].name);
    }
    for ((p, f), w) in outs.iter().zip(&files) {
        let w = w.as_ref().unwrap();
        let got = match p {
            None => ran.out.clone(),
            Some(p) => std::fs::read(p).unwrap_or_default(),
        };
        if &got != w {
            let kind = match ImageFormat::guess_format(ZCursor::new(&got)) {
                Some((g, _)) if g == *f => {
                    // the same picture, at least?
                    let o = DecoderOptions::default();
                    match (Image::read(ZCursor::new(&got), o), Image::read(ZCursor::new(w), o)) {
                        (Ok(a), Ok(b)) if crate::pipe::bits(&a) == crate::pipe::bits(&b) => "same picture, other file",
                        (Ok(a), Ok(b)) => {
                            c.label(&format!("{} for {}", Pic::of(&a)?.text(), Pic::of(&b)?.text()));
                            "another picture"
                        }
                        _ => "unreadable",
                    }
                }
                g => {
                    c.label(&format!("{:?} for {f:?}", g.map(|x| x.0)));
                    "another format"
                }
            };
            let names: Vec<&str> = ops.iter().map(|o| o.name).collect();
            return Err(Fail {
                sig: format!("output: {kind} {}", if ops.len() == 1 { ops[0].name } else { "" }),
                msg: format!("{f:?}: {} bytes, {} expected; {names:?}; {}", got.len(), w.len(), ran.text),
            });
        }
    }
    Ok(())
}

/// what can't work is reported
pub fn refusals(s: &mut Src, c: &mut Ctx) -> Res {
    let dir = Dir::new();
    let (_, bytes) = source(s);
    std::fs::write(dir.0.join("in"), &bytes).unwrap();
    std::fs::create_dir(dir.0.join("dir.png")).unwrap();
    let mut args: Vec<String> = vec![];
    let mut input = "in".to_string();
    let mut output = vec!["-o".to_string(), "out.png".into()];
    let mut sink = Stdio::piped();
    let kind = s.below(15);
    let w: &[&str] = match kind {
        0 => {
            input = "missing.png".into();
            &[]
        }
        1 => {
            let n = s.usize(0, 60);
            let mut v = vec![0u8; n];
            let mut r = s.rng();
            v.iter_mut().for_each(|b| *b = r.byte());
            if n > 1 {
                v[0] = 1;
            }
            std::fs::write(dir.0.join("in"), v).unwrap();
            &[]
        }
        2 => {
            input = "dir.png".into();
            &[]
        }
        3 => {
            output[1] = s.pick(&["out.xyz", "out.bmp", "out.psd", "out", "out.webp", "out."]).into();
            &[]
        }
        4 => {
            output[1] = "nowhere/out.png".into();
            &[]
        }
        5 => {
            output[1] = "dir.png".into();
            &[]
        }
        6 => {
            output[1] = "-".into();
            if s.bool() {
                output.extend(["--output-format".into(), s.pick(&["psd", "bmp"]).to_string()]);
            }
            &[]
        }
        7 => s.pick::<&[&str]>(&[
            &["--depth=12"],
            &["--depth", "x"],
            &["--mirror=up"],
            &["--mirror"],
            &["--statistic", "3", "mode"],
            &["--statistic", "x", "mean"],
            &["--threshold", "3", "what"],
            &["--threshold", "what", "binary"],
            &["--threshold", "3"],
            &["--resize=axb"],
            &["--resize=12"],
            &["--resize=12x"],
            &["--resize=-3x4"],
            &["--resize-method=nearest"],
            &["--colorspace=cmy"],
            &["--color-transform=xyz"],
            &["--crop", "1", "2", "3"],
            &["--crop", "1", "2", "3", "x"],
            &["--crop", "1", "2", "3", "-4"],
            &["--affine-transform", "1", "2", "3"],
            &["--convolve=a"],
            &["--quality=300"],
            &["--quality=x"],
            &["--effort=-1"],
            &["--max-width=a"],
            &["--gamma=g"],
            &["--box-blur=-1"],
            &["--median-blur=1.5"],
            &["--flip", "--flip"],
            &["--nonsense"],
            &["--flip=3"],
        ]),
        8 => &["--crop=1:2:3", "--invert"],
        9 => s.pick::<&[&str]>(&[&["--convolve=1", "--convolve=2"], &["--convolve=1"]]),
        10 => &["--max-width=1"],
        11 => &["--max-height", "1"],
        12 | 13 if std::path::Path::new("/dev/full").exists() => {
            // a full disk
            let e = s.pick(&["png", "qoi", "ppm", "jpg", "ff", "hdr", "jxl"]);
            if kind == 12 {
                output[1] = format!("full.{e}");
                std::os::unix::fs::symlink("/dev/full", dir.0.join(&output[1])).unwrap();
            } else {
                output[1] = "-".into();
                output.extend(["--output-format".into(), s.pick(&["png", "qoi", "ppm"]).to_string()]);
                sink = Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap());
            }
            &[]
        }
        _ => {
            // the first failure of several outputs counts as well
            output.extend(["-o".into(), s.pick(&["b.unknown", "nowhere/b.ppm", "dir.png"]).into()]);
            &[]
        }
    };
    args.extend(w.iter().map(|x| x.to_string()));
    args.extend(["-i".into(), input]);
    if s.bool() {
        args.extend(output);
    } else {
        args = [output, args].concat();
    }
    c.nontrivial();
    c.note(args.join(" "));
    c.label(&format!("kind {kind}"));
    let r = run_to(&dir, &args, b"", sink)?;
    check!(!r.ok, &format!("refusal {kind}: a failure went unreported {}", if kind == 7 { w[0].split('=').next().unwrap() } else { "" }), "{}", r.text);
    Ok(())
}

pub fn probe(s: &mut Src, c: &mut Ctx) -> Res {
    let dir = Dir::new();
    let (f, mut bytes) = source(s);
    let mut broken = false;
    if s.chance(1, 4) {
        broken = true;
        match s.below(3) {
            0 => {
                let n = s.usize(0, bytes.len());
                bytes.truncate(n)
            }
            1 => bytes = s.data(60),
            _ => {
                let k = s.usize(0, bytes.len().min(40) - 1);
                bytes[k] ^= 1 << s.below(8);
            }
        }
    }
    std::fs::write(dir.0.join("in"), &bytes).unwrap();
    let mut args: Vec<String> = vec!["--probe".into(), "--no-log".into(), "-i".into(), "in".into()];
    if s.bool() {
        args.rotate_left(1);
    }
    c.note(format!("{f:?} {} bytes", bytes.len()));
    let o = DecoderOptions::new_cmd().set_max_height(usize::MAX).set_max_width(usize::MAX);
    let want = ImageFormat::guess_format(ZCursor::new(&bytes)).and_then(|(f, b)| f.decoder_with_options(b, o).ok()).and_then(|mut d| d.read_headers().ok().flatten());
    let r = run(&dir, &args, b"")?;
    let Some(m) = want else {
        check!(!r.ok, "probing what can't be read succeeds", "{}", r.text);
        return Ok(());
    };
    if !broken {
        c.nontrivial();
    }
    check!(r.ok, "probing fails", "{}", r.text);
    let j: serde_json::Value = serde_json::from_slice(&r.out).map_err(|e| Fail { sig: "not JSON".into(), msg: format!("{e}: {}", r.text) })?;
    check!(j["file"] == "in" && j["length"] == bytes.len(), "file", "{}", r.text);
    check!(j["metadata"] == serde_json::to_value(&m).unwrap(), "metadata", "{}\n{:?}", r.text, m);
    let (w, h) = m.dimensions();
    check!(j["metadata"]["width"] == w && j["metadata"]["height"] == h, "dimensions", "{}", r.text);
    check!(j["metadata"]["format"] == format!("{:?}", m.image_format().unwrap()), "format", "{}", r.text);
    let _ = r.err;
    Ok(())
}
