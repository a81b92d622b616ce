//! Makes the running program take this processor for an older one, and watches which instructions it executes.
//!
//! Programs built by rustc ask `std_detect` which vector instructions exist; the answer is kept in a static whose bits are
//! cleared here (each bit's meaning is found out by clearing it and asking). The watch puts a breakpoint on every instruction of
//! the library that such a processor doesn't have.
use std::sync::atomic::{AtomicU64, AtomicU8, AtomicUsize, Ordering::SeqCst};

#[no_mangle]
pub static H_LEAN_ANCHOR: AtomicUsize = AtomicUsize::new(1);

macro_rules! ask {
    ($($f:tt)*) => {
        [$(($f, is_x86_feature_detected!($f)),)*]
    };
}
fn asked() -> Vec<(&'static str, bool)> {
    ask!("sse3" "ssse3" "sse4.1" "sse4.2" "popcnt" "pclmulqdq" "aes" "avx" "avx2" "fma" "f16c" "bmi1" "bmi2" "lzcnt" "avx512f" "avx512bw" "avx512cd" "avx512dq" "avx512vl" "avx512vbmi" "avx512vbmi2" "avx512vnni" "avx512bitalg" "avx512ifma" "avx512vpopcntdq" "gfni" "vaes" "vpclmulqdq" "sha").to_vec()
}

/// the level from which on a feature is absent (1: AVX2, 2: AVX, 3: SSE4, 4: SSSE3, 5: SSE3)
fn level_of(f: &str) -> usize {
    match f {
        "sse3" => 5,
        "ssse3" => 4,
        "sse4.1" | "sse4.2" | "popcnt" | "pclmulqdq" | "aes" | "sha" | "gfni" => 3,
        "avx" | "f16c" => 2,
        _ if f.starts_with("avx") || matches!(f, "fma" | "bmi1" | "bmi2" | "lzcnt" | "vaes" | "vpclmulqdq") => 1,
        _ => 99
    }
}

struct Sym {
    at: u64,
    size: u64,
    name: String
}
fn symbols() -> Vec<Sym> {
    let b = std::fs::read("/proc/self/exe").unwrap_or_default();
    let u = |o: usize, n: usize| -> u64 { b.get(o..o + n).map(|x| x.iter().rev().fold(0, |a, v| a << 8 | u64::from(*v))).unwrap_or(0) };
    let (shoff, shent, shnum) = (u(0x28, 8) as usize, u(0x3a, 2) as usize, u(0x3c, 2) as usize);
    let mut out = vec![];
    for i in 0..shnum {
        let s = shoff + i * shent;
        if u(s + 4, 4) != 2 {
            continue;
        }
        let (off, size, link) = (u(s + 0x18, 8) as usize, u(s + 0x20, 8) as usize, u(s + 0x28, 4) as usize);
        let stroff = u(shoff + link * shent + 0x18, 8) as usize;
        for k in 0..size / 24 {
            let e = off + k * 24;
            let n = stroff + u(e, 4) as usize;
            let name: Vec<u8> = b[n..].iter().take_while(|c| **c != 0).copied().collect();
            out.push(Sym { at: u(e + 8, 8), size: u(e + 16, 8), name: String::from_utf8_lossy(&name).to_string() });
        }
    }
    out
}

/// hides the features a level lacks; false if that is not possible here
pub fn hide(level: usize) -> bool {
    let before = asked();
    let syms = symbols();
    let Some(anchor) = syms.iter().find(|s| s.name == "H_LEAN_ANCHOR") else { return false };
    let base = (&H_LEAN_ANCHOR as *const _ as u64).wrapping_sub(anchor.at);
    let Some(cache) = syms.iter().find(|s| s.name.contains("std_detect") && s.name.contains("detect5cache5CACHE") && s.size >= 8) else { return false };
    let words: &[AtomicUsize] = unsafe { std::slice::from_raw_parts((base.wrapping_add(cache.at)) as *const AtomicUsize, cache.size as usize / 8) };
    for w in words {
        for bit in 0..usize::BITS - 1 {
            let m = 1usize << bit;
            if w.load(SeqCst) & m == 0 {
                continue;
            }
            w.fetch_and(!m, SeqCst);
            let now = asked();
            let gone: Vec<&str> = before.iter().zip(&now).filter(|(a, b)| a.1 && !b.1 && level_of(a.0) > level).map(|(a, _)| a.0).collect();
            if !gone.is_empty() {
                // the processor has it at this level
                w.fetch_or(m, SeqCst);
            }
        }
    }
    // nothing that should be hidden is left, nothing else is gone
    before.iter().zip(&asked()).all(|(a, b)| b.1 == (a.1 && level_of(a.0) > level))
}

/// the level from which on an instruction (in objdump's notation) doesn't exist
fn instruction(text: &str) -> usize {
    let (op, args) = text.split_once(' ').unwrap_or((text, ""));
    if let Some(v) = op.strip_prefix('v') {
        if matches!(op, "verr" | "verw" | "vmcall") {
            return 99;
        }
        // AVX2, FMA and AVX-512, or AVX
        let int = v.starts_with('p') && !v.starts_with("permil") && !v.starts_with("perm2f128") && !v.starts_with("ptest");
        return if (int && args.contains("%ymm")) || args.contains("%zmm") || v.starts_with("fm") || v.starts_with("fnm") || v.contains("i128") || (v.starts_with("broadcast") && !args.contains('(')) {
            1
        } else {
            2
        };
    }
    match op {
        "andn" | "bextr" | "blsi" | "blsr" | "blsmsk" | "bzhi" | "mulx" | "pdep" | "pext" | "rorx" | "sarx" | "shlx" | "shrx" => 1,
        "popcnt" | "crc32b" | "crc32w" | "crc32l" | "crc32q" | "ptest" | "pmulld" | "pmuldq" | "pcmpeqq" | "pcmpgtq" | "packusdw" | "mpsadbw" | "phminposuw" | "dpps" | "dppd" | "insertps"
        | "extractps" | "movntdqa" | "pclmulqdq" | "pcmpestri" | "pcmpestrm" | "pcmpistri" | "pcmpistrm" => 3,
        _ if ["pmovsx", "pmovzx", "pminsb", "pminsd", "pminuw", "pminud", "pmaxsb", "pmaxsd", "pmaxuw", "pmaxud", "round", "pblend", "blend", "pextrb", "pextrd", "pextrq", "pinsrb", "pinsrd", "pinsrq", "aes", "sha1", "sha256"]
            .iter()
            .any(|p| op.starts_with(p)) =>
        {
            3
        }
        "pshufb" | "palignr" | "pabsb" | "pabsw" | "pabsd" | "pmaddubsw" | "pmulhrsw" | "psignb" | "psignw" | "psignd" => 4,
        _ if op.starts_with("phadd") || op.starts_with("phsub") => 4,
        "lddqu" | "movddup" | "movshdup" | "movsldup" | "haddps" | "haddpd" | "hsubps" | "hsubpd" | "addsubps" | "addsubpd" => 5,
        _ => 99
    }
}

/// where the library's functions have instructions not every processor knows: (level, address in the file)
fn list() -> Option<Vec<(usize, u64)>> {
    let exe = std::env::current_exe().ok()?;
    let m = std::fs::metadata(&exe).ok()?;
    let stamp = format!("{} {:?}", m.len(), m.modified().ok()?);
    let cache = exe.with_extension("traps");
    let parse = |t: &str| -> Option<Vec<(usize, u64)>> {
        let (head, rest) = t.split_once('\n')?;
        if head != stamp || !rest.ends_with("end\n") {
            return None;
        }
        Some(rest.lines().filter_map(|l| l.split_once(' ')).map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).collect())
    };
    if let Some(v) = std::fs::read_to_string(&cache).ok().and_then(|t| parse(&t)) {
        return Some(v);
    }
    let out = std::process::Command::new("objdump").args(["-d", "--no-show-raw-insn"]).arg(&exe).output().ok()?;
    let (mut v, mut ours) = (vec![], false);
    for l in out.stdout.split(|c| *c == b'\n') {
        let l = std::str::from_utf8(l).unwrap_or("");
        if l.ends_with(">:") {
            ours = l.contains("zune");
        } else if ours {
            let Some((a, i)) = l.split_once(":\t") else { continue };
            let k = instruction(i.trim());
            if k < 99 {
                v.push((k, u64::from_str_radix(a.trim(), 16).ok()?));
            }
        }
    }
    if v.is_empty() {
        return None;
    }
    let text = format!("{stamp}\n{}end\n", v.iter().map(|(a, b)| format!("{a} {b}\n")).collect::<String>());
    let tmp = exe.with_extension(format!("traps.{}", std::process::id()));
    if std::fs::write(&tmp, text).is_ok() {
        let _ = std::fs::rename(&tmp, &cache);
    }
    Some(v)
}

/// breakpoints: their addresses in order, and the bytes they replace
static AT: AtomicUsize = AtomicUsize::new(0);
static SAVED: AtomicUsize = AtomicUsize::new(0);
static COUNT: AtomicUsize = AtomicUsize::new(0);
static BAD: AtomicU64 = AtomicU64::new(0);
static FOUND: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let rip = &mut (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_RIP as usize];
        let at = *rip as u64 - 1;
        let list = std::slice::from_raw_parts(AT.load(SeqCst) as *const u64, COUNT.load(SeqCst));
        let Ok(i) = list.binary_search(&at) else {
            // not one of ours
            libc::_exit(86)
        };
        let n = BAD.fetch_add(1, SeqCst) as usize;
        if n < FOUND.len() {
            FOUND[n].store(at, SeqCst);
        }
        (*(at as *const AtomicU8)).store(*(SAVED.load(SeqCst) as *const u8).add(i), SeqCst);
        *rip = at as i64;
    }
}

pub struct Watch {
    base: u64,
    syms: Vec<Sym>,
    pub traps: usize
}

impl Watch {
    pub fn new(level: usize) -> Option<Watch> {
        let mut syms = symbols();
        let anchor = syms.iter().find(|s| s.name == "H_LEAN_ANCHOR")?;
        let base = (&H_LEAN_ANCHOR as *const _ as u64).wrapping_sub(anchor.at);
        syms.retain(|s| s.size > 0);
        syms.sort_by_key(|s| s.at);
        let mut at: Vec<u64> = list()?.into_iter().filter(|(k, _)| *k <= level).map(|(_, a)| base.wrapping_add(a)).collect();
        at.sort_unstable();
        let mut sa: libc::sigaction = unsafe { std::mem::zeroed() };
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        if unsafe { libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut()) } != 0 {
            return None;
        }
        let me = on_trap as *const () as usize as u64;
        let maps = std::fs::read_to_string("/proc/self/maps").ok()?;
        for l in maps.lines() {
            let (r, rest) = l.split_once(' ')?;
            let (a, b) = r.split_once('-')?;
            let (a, b) = (u64::from_str_radix(a, 16).ok()?, u64::from_str_radix(b, 16).ok()?);
            if rest.starts_with("r-x") && (a..b).contains(&me) {
                if unsafe { libc::mprotect(a as *mut libc::c_void, (b - a) as usize, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC) } != 0 {
                    return None;
                }
                if at.iter().any(|x| !(a..b).contains(x)) {
                    return None;
                }
            }
        }
        let saved: Vec<u8> = at.iter().map(|a| unsafe { *(*a as *const u8) }).collect();
        let traps = at.len();
        COUNT.store(traps, SeqCst);
        AT.store(at.leak().as_ptr() as usize, SeqCst);
        SAVED.store(saved.leak().as_ptr() as usize, SeqCst);
        let w = Watch { base, syms, traps };
        w.set();
        Some(w)
    }
    fn set(&self) {
        let list = unsafe { std::slice::from_raw_parts(AT.load(SeqCst) as *const u64, COUNT.load(SeqCst)) };
        for a in list {
            unsafe { (*(*a as *const AtomicU8)).store(0xcc, SeqCst) }
        }
    }
    /// runs something; tells the functions that used instructions the processor of this level doesn't have
    pub fn run<T>(&self, f: impl FnOnce() -> T) -> (T, Vec<String>) {
        BAD.store(0, SeqCst);
        let v = f();
        let n = BAD.load(SeqCst) as usize;
        let mut names = vec![];
        for k in FOUND.iter().take(n) {
            let a = k.load(SeqCst).wrapping_sub(self.base);
            let i = self.syms.partition_point(|s| s.at <= a);
            let n = if i > 0 { self.syms[i - 1].name.clone() } else { "?".into() };
            if !names.contains(&n) {
                names.push(n);
            }
        }
        if n > 0 {
            self.set();
        }
        (v, names)
    }
}
