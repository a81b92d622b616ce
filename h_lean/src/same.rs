//! C39: the same results from other builds and on other processors; C40: only instructions the processor has
use crate::link::{self, blob, Log};
use crate::{codec, dec, peer, script};
use models::{deflate, mutate};
use pbt::{check, fail, Ctx, Res, Src};

const LEVELS: [&str; 6] = ["all", "no AVX2", "no AVX", "no SSE4", "no SSSE3", "no SSE3"];

fn lossy(s: &mut Src, mut d: Vec<u8>) -> (Vec<u8>, bool) {
    let broken = s.chance(1, 4);
    if broken {
        mutate::edits(s, &mut d, 3);
    }
    (d, broken)
}

/// a job for the codecs: its bytes, what it is, whether the input is a valid one
fn codec_job(s: &mut Src, max: usize) -> (Vec<u8>, String, bool) {
    let mut j = vec![];
    match s.below(8) {
        0..=3 => {
            let k = s.below(7) as usize;
            let f = [dec::Fmt::Bmp, dec::Fmt::Qoi, dec::Fmt::Ff, dec::Fmt::Pnm, dec::Fmt::Psd, dec::Fmt::Png, dec::Fmt::Jpeg][k];
            let d = dec::valid(s, f, max);
            let (d, broken) = lossy(s, d);
            let flags = s.below(1 << 24) as u32;
            // mostly with unsafe code, mostly the colourspace of the file
            let flags = if s.chance(4, 5) { flags | 2 } else { flags };
            let flags = if s.bool() { flags & !128 } else { flags };
            j.extend([0, k as u8]);
            j.extend(flags.to_le_bytes());
            blob(&mut j, &d);
            (j, format!("decode {f:?} {} bytes flags {flags:#x}", d.len()), !broken)
        }
        4..=5 => {
            let k = s.below(5) as u8;
            let (w, h) = if s.chance(1, 40) { (1 + s.below(600) as u32, 1 + s.below(300) as u32) } else { (s.dim(max) as u32, s.dim(max) as u32) };
            let (cs, depth) = (if s.chance(7, 8) { s.below(4) } else { s.below(codec::CS.len() as u64) } as u8, s.below(3) as u8);
            let n = w as usize * h as usize * codec::CS[cs as usize].num_components() * codec::DEPTHS[depth as usize].size_of();
            let d = s.data(n);
            j.extend([1, k]);
            j.extend(w.to_le_bytes());
            j.extend(h.to_le_bytes());
            j.extend([cs, depth, s.below(256) as u8, 1 + s.below(8) as u8]);
            blob(&mut j, &d);
            (j, format!("encode {} {w}x{h} {:?} {:?}", ["QOI", "PPM", "farbfeld", "JPEG XL", "PNG"][k as usize], codec::CS[cs as usize], codec::DEPTHS[depth as usize]), true)
        }
        _ => {
            let how = s.below(4) as u8;
            let d = match how {
                3 => {
                    let n = s.usize(0, 5000);
                    s.data(n)
                }
                _ => {
                    let n = s.usize(0, max * max * 4);
                    let v = s.data(n);
                    let z = deflate::deflate_of(s, &v);
                    match how {
                        0 => z,
                        1 => deflate::zlib_wrap(&z, &v),
                        _ => deflate::gzip_wrap(s, &z, &v)
                    }
                }
            };
            let (d, broken) = lossy(s, d);
            j.extend([2, how, u8::from(s.bool())]);
            let limit = s.pick(&[1u32 << 30, 1000, 0, 1]);
            j.extend(limit.to_le_bytes());
            blob(&mut j, &d);
            (j, format!("inflate {how} {} bytes limit {limit}", d.len()), !broken)
        }
    }
}

fn image_job(s: &mut Src, max: usize) -> (Vec<u8>, String, Log) {
    let mut what = "a picture".to_string();
    let file = if s.bool() {
        let f = s.pick(&dec::ALL);
        what = format!("{f:?} file");
        dec::valid(s, f, max)
    } else {
        vec![]
    };
    let from = s.tape.len();
    let mine = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| script::record(&file, s)));
    let mine = mine.unwrap_or_else(|_| {
        let mut l = Log::default();
        l.add("panic", "");
        l
    });
    let mut j = vec![];
    blob(&mut j, &file);
    let tape: Vec<u8> = s.tape[from..].iter().flat_map(|v| v.to_le_bytes()).collect();
    blob(&mut j, &tape);
    (j, what, mine)
}

fn short(d: &[u8]) -> String {
    if d.iter().all(|c| (32..127).contains(c)) && !d.is_empty() && d.len() < 300 {
        return String::from_utf8_lossy(d).to_string();
    }
    format!("{} bytes {}", d.len(), pbt::hex(&d[..d.len().min(24)]))
}

fn compare(mine: &Log, theirs: &Log) -> Res {
    for (i, (a, b)) in mine.0.iter().zip(&theirs.0).enumerate() {
        let before = if i > 0 { &mine.0[i - 1].0 } else { "" };
        check!(a.0 == b.0, &format!("course differs: {} against {}", a.0.split(' ').next().unwrap(), b.0.split(' ').next().unwrap()), "after {before}: {} {} against {} {}", a.0, short(&a.1), b.0, short(&b.1));
        if a.1 != b.1 {
            let at = a.1.iter().zip(&b.1).position(|(x, y)| x != y).unwrap_or(a.1.len().min(b.1.len()));
            let n = a.1.iter().zip(&b.1).filter(|(x, y)| x != y).count();
            let k = at / 4 * 4;
            return fail(&format!("differs: {}", a.0), format!("after {before}: {} of {} bytes, first at {at}: {} against {}; {} against {}", n, a.1.len(), short(&a.1[k..]), short(&b.1[k..]), short(&a.1), short(&b.1)));
        }
    }
    check!(mine.0.len() == theirs.0.len(), "one goes on", "{} steps against {}", mine.0.len(), theirs.0.len());
    Ok(())
}

fn with(args: &[&str], job: &[u8], mine: &Log, c: &mut Ctx) -> Res {
    match peer::ask(args, job) {
        Err(e) => fail("the other build died", e),
        Ok(l) => {
            if l.0.first().is_some_and(|x| x.0 == "unavailable") {
                c.label("no other processor");
                return Ok(());
            }
            compare(mine, &l)
        }
    }
}

fn done(l: &Log, c: &mut Ctx) {
    let name = |k: &str| l.0.iter().any(|x| x.0 == k);
    if name("pixels") || name("file") || name("output") || l.0.len() > 6 {
        c.nontrivial();
    }
}

/// codec crates without their features
pub fn codecs(s: &mut Src, c: &mut Ctx) -> Res {
    let max = s.pick(&[6usize, 20, 60]);
    let (job, what, _) = codec_job(s, max);
    c.note(what.clone());
    c.label(what.split(' ').take(2).collect::<Vec<_>>().join(" "));
    let mine = codec::run(&job);
    done(&mine, c);
    with(&["x_min"], &job, &mine, c)
}

/// the image library without its features
pub fn images(s: &mut Src, c: &mut Ctx) -> Res {
    let (job, what, mine) = image_job(s, 40);
    c.note(what.clone());
    c.label(what);
    done(&mine, c);
    with(&["x_plain"], &job, &mine, c)
}

/// the portable vector code
pub fn portable(s: &mut Src, c: &mut Ctx) -> Res {
    if s.bool() {
        let (job, what, mine) = image_job(s, 40);
        c.note(what);
        done(&mine, c);
        with(&["x_port", "image"], &job, &mine, c)
    } else {
        let (job, what, _) = codec_job(s, 40);
        c.note(what);
        let mine = codec::run(&job);
        done(&mine, c);
        with(&["x_port", "codec"], &job, &mine, c)
    }
}

/// a build without threads on a processor with fewer vector instructions
pub fn processor(s: &mut Src, c: &mut Ctx) -> Res {
    let level = 1 + s.below(5) as usize;
    c.label(LEVELS[level]);
    let lv = level.to_string();
    if s.bool() {
        let (job, what, mine) = image_job(s, 40);
        c.note(format!("{what}, {}", LEVELS[level]));
        done(&mine, c);
        with(&["x_simd", "image", &lv], &job, &mine, c)
    } else {
        let (job, what, _) = codec_job(s, 40);
        c.note(format!("{what}, {}", LEVELS[level]));
        let mine = codec::run(&job);
        done(&mine, c);
        with(&["x_simd", "codec", &lv], &job, &mine, c)
    }
}

/// C40
pub fn watch(s: &mut Src, c: &mut Ctx) -> Res {
    let level = 1 + s.below(5) as usize;
    c.label(LEVELS[level]);
    let lv = level.to_string();
    let (job, what, kind) = if s.bool() {
        let (j, w, _) = image_job(s, 40);
        (j, w, "image")
    } else {
        let (j, w, _) = codec_job(s, 40);
        (j, w, "codec")
    };
    c.note(format!("{what}, {}", LEVELS[level]));
    match peer::ask(&["x_simd", kind, &lv, "watch"], &job) {
        Err(e) => fail("died when watched", e),
        Ok(l) => {
            let steps = l.0.iter().find(|x| x.0 == "steps").map(|x| u64::from_le_bytes(x.1.clone().try_into().unwrap()));
            let Some(n) = steps else {
                c.label("no watch");
                return Ok(());
            };
            if n > 6 {
                c.nontrivial();
            }
            let bad: Vec<String> = l.0.iter().filter(|x| x.0 == "bad").map(|x| String::from_utf8_lossy(&x.1).to_string()).collect();
            check!(bad.is_empty(), "instructions the processor lacks", "{} in {bad:?}", LEVELS[level]);
            Ok(())
        }
    }
}
