use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::src::{mix, Src};

#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String
}
pub type Res = Result<(), Fail>;

/// What a case tells about itself.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    pub note: String,
    pub artifacts: Vec<(String, Vec<u8>)>,
    /// set when the outcome is being explained (replay, final shrink step); lets a case spend more on diagnostics
    pub verbose: bool
}

impl Ctx {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.note = s.into();
    }
    /// bytes to be stored beside the replay file when the case fails
    pub fn artifact(&mut self, name: &str, b: &[u8]) {
        self.artifacts.retain(|x| x.0 != name);
        self.artifacts.push((name.to_string(), b.to_vec()));
    }
}

pub enum Outcome {
    Pass(Ctx),
    Fail(Fail, Ctx)
}

#[derive(Clone, Copy)]
pub struct Sub {
    pub name: &'static str,
    pub f: fn(&mut Src, &mut Ctx) -> Res,
    pub quick: u64,
    pub thorough: u64
}

pub struct Property {
    pub id: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
static OTHER_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

fn normalise(msg: &str) -> String {
    let mut out = String::new();
    let mut in_num = false;
    for c in msg.chars().take(160) {
        if c.is_ascii_digit() {
            if !in_num {
                out.push('#');
            }
            in_num = true;
        } else {
            in_num = false;
            out.push(if c == '\n' { ' ' } else { c });
        }
    }
    out
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let (file, line) = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let tail = file.rsplit("/crates/").next().unwrap_or(&file).to_string();
        let tail = match tail.find("registry/src/") {
            Some(p) => tail[p + 13..].to_string(),
            None => tail
        };
        let v = (format!("panic in {tail}: {}", normalise(&msg)), format!("panicked at {file}:{line}: {msg}"));
        if std::thread::current().name().is_some_and(|n| n.starts_with("pbt")) {
            PANIC.with(|p| *p.borrow_mut() = Some(v));
        } else {
            *OTHER_PANIC.lock().unwrap() = Some(v);
        }
    }));
}

fn run_case(sub: &Sub, src: &mut Src, verbose: bool) -> Outcome {
    let mut ctx = Ctx { verbose, ..Default::default() };
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| (sub.f)(src, &mut ctx)));
    match r {
        Ok(Ok(())) => match crate::mem::misuse() {
            None => Outcome::Pass(ctx),
            Some(m) => Outcome::Fail(Fail { sig: format!("heap misuse: {m}"), msg: m.into() }, ctx)
        },
        Ok(Err(f)) => Outcome::Fail(f, ctx),
        Err(_) => {
            let mut v = PANIC.with(|p| p.borrow_mut().take());
            if v.is_none() || v.as_ref().unwrap().0.contains("scoped thread panicked") {
                if let Some(o) = OTHER_PANIC.lock().unwrap().take() {
                    v = Some(o);
                }
            }
            let (sig, msg) = v.unwrap_or(("panic: unknown".into(), "panicked".into()));
            Outcome::Fail(Fail { sig, msg }, ctx)
        }
    }
}

fn case_seed(seed: u64, prop: &str, sub: &str, idx: u64) -> u64 {
    let mut h = mix(seed, 77);
    for b in prop.bytes().chain([0]).chain(sub.bytes()) {
        h = mix(h, b as u64);
    }
    mix(h, idx)
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

struct Known {
    sig: String,
    text: String
}

fn known(id: &str) -> Vec<Known> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(root().join("known_findings.txt")) {
        for l in s.lines() {
            let Some(rest) = l.strip_prefix("known: ") else { continue };
            let Some(rest) = rest.strip_prefix(&format!("property={id} ")) else { continue };
            let Some(rest) = rest.strip_prefix("sig=[") else { continue };
            let Some((sig, text)) = rest.split_once("] ") else { continue };
            out.push(Known { sig: sig.to_string(), text: text.to_string() });
        }
    }
    out
}

fn shrink(start: Vec<u64>, sig: &str, max_evals: usize, max_s: u64, eval: &mut dyn FnMut(&[u64]) -> Option<(Fail, Vec<u64>)>) -> Vec<u64> {
    let t0 = Instant::now();
    let mut best = start;
    let mut evals = 0;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, evals: &mut usize| -> bool {
        if *evals >= max_evals || t0.elapsed().as_secs() > max_s {
            return false;
        }
        *evals += 1;
        if let Some((f, used)) = eval(&cand) {
            if f.sig == sig {
                let mut used = used;
                while used.last() == Some(&0) {
                    used.pop();
                }
                // strictly simpler: shorter, or same length and smaller
                if used.len() < best.len() || (used.len() == best.len() && used < *best) {
                    *best = used;
                    return true;
                }
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // truncate the tail
        let mut n = best.len() / 2;
        while n > 0 {
            if n <= best.len() && attempt(best[..best.len() - n].to_vec(), &mut best, &mut evals) {
                continue;
            }
            n /= 2;
        }
        // delete blocks
        for w in [32usize, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i + w <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + w);
                if !attempt(c, &mut best, &mut evals) {
                    i += 1.max(w / 2);
                }
            }
        }
        // zero blocks, then lower single values
        for w in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + w <= best.len() {
                if best[i..i + w].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..i + w].fill(0);
                    attempt(c, &mut best, &mut evals);
                }
                i += w;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && best[i] > lo {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt(c, &mut best, &mut evals) {
                    if lo == mid {
                        break;
                    }
                    lo = mid;
                    if best.get(i).is_some_and(|v| v - lo <= 1) {
                        break;
                    }
                }
            }
            if i < best.len() && best[i] > 0 {
                let mut c = best.clone();
                c[i] -= 1;
                attempt(c, &mut best, &mut evals);
            }
            i += 1;
        }
        if best == before || evals >= max_evals || t0.elapsed().as_secs() > max_s {
            return best;
        }
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c)
        }
    }
    o.push('"');
    o
}

fn write_replay(prop: &str, sub: &str, tape: &[u64], f: &Fail, ctx: &Ctx) -> PathBuf {
    let dir = root().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let base = format!("{prop}-{sub}");
    let p = dir.join(format!("{base}.replay"));
    let mut s = String::new();
    s.push_str(&format!("property {prop}\nsub {sub}\nsignature {}\n", f.sig));
    s.push_str(&format!("tape {}\n", tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
    s.push_str("--- case\n");
    s.push_str(&ctx.note);
    s.push_str("\n--- failure\n");
    s.push_str(&f.msg);
    s.push('\n');
    let _ = std::fs::write(&p, s);
    for (n, b) in &ctx.artifacts {
        let _ = std::fs::write(dir.join(format!("{base}-{n}")), b);
    }
    p
}

struct SubStats {
    evals: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    known_hits: BTreeMap<String, u64>
}

struct Failure {
    sub: usize,
    idx: u64,
    tape: Vec<u64>,
    fail: Fail
}

fn child(prop: &Property, seed: u64, tier: &str, only: Option<&str>, progress: Option<&str>) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let threads: usize = std::env::var("VERIF_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or(8);
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0);
    let knowns = known(prop.id);
    let stats: Vec<Mutex<SubStats>> = prop
        .subs
        .iter()
        .map(|_| Mutex::new(SubStats { evals: 0, distinct: HashSet::new(), labels: BTreeMap::new(), samples: vec![], known_hits: BTreeMap::new() }))
        .collect();
    let counts: Vec<u64> = prop
        .subs
        .iter()
        .map(|s| {
            if only.is_some_and(|o| o != s.name) {
                return 0;
            }
            let n = if tier == "thorough" { s.thorough } else { s.quick };
            ((n as f64 * scale) as u64).max(1)
        })
        .collect();
    let starts: Vec<u64> = counts
        .iter()
        .scan(0, |a, c| {
            let s = *a;
            *a += c;
            Some(s)
        })
        .collect();
    let total: u64 = counts.iter().sum();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let all_fails = std::env::var("VERIF_ALL").is_ok();
    let failures: Mutex<Vec<Failure>> = Mutex::new(vec![]);
    let beat: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    let cur: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicBool::new(false);
    let prog = progress.map(|p| std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(p).unwrap());
    let limit_s: u64 = std::env::var("VERIF_CASE_LIMIT").ok().and_then(|v| v.parse().ok()).unwrap_or(45);

    std::thread::scope(|sc| {
        let (beat, cur, done) = (&beat, &cur, &done);
        let starts_ref = &starts;
        sc.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                let now = t0.elapsed().as_millis() as u64;
                for t in 0..beat.len() {
                    let b = beat[t].load(Ordering::Relaxed);
                    if b != u64::MAX && now > b + limit_s * 1000 {
                        let g = cur[t].load(Ordering::Relaxed);
                        let s = (0..starts_ref.len()).rev().find(|i| starts_ref[*i] <= g && counts_nonzero(starts_ref, *i, total)).unwrap_or(0);
                        eprintln!("case {} of {}/{} ran for more than {limit_s} s", g - starts_ref[s], prop.id, prop.subs[s].name);
                        if let Some(p) = progress {
                            let _ = std::fs::write(format!("{p}.hang"), format!("{s} {}", g - starts_ref[s]));
                        }
                        std::process::exit(3);
                    }
                }
            }
        });
        let mut hs = vec![];
        for t in 0..threads {
            let (next, stop, failures, stats, counts, starts, knowns, prog) = (&next, &stop, &failures, &stats, &counts, &starts, &knowns, &prog);
            let h = std::thread::Builder::new()
                .name(format!("pbt{t}"))
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let g = next.fetch_add(1, Ordering::Relaxed);
                        if g >= total {
                            break;
                        }
                        let s = (0..starts.len()).find(|i| g >= starts[*i] && g < starts[*i] + counts[*i]).unwrap();
                        let idx = g - starts[s];
                        let sub = &prop.subs[s];
                        cur[t].store(g, Ordering::Relaxed);
                        beat[t].store(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                        if let Some(p) = prog {
                            use std::os::unix::fs::FileExt;
                            let mut rec = [0u8; 16];
                            rec[..8].copy_from_slice(&(s as u64 + 1).to_le_bytes());
                            rec[8..].copy_from_slice(&idx.to_le_bytes());
                            let _ = p.write_at(&rec, t as u64 * 16);
                        }
                        let mut src = Src::random(case_seed(seed, prop.id, sub.name, idx));
                        let out = run_case(sub, &mut src, false);
                        beat[t].store(u64::MAX, Ordering::Relaxed);
                        let (ctx, failed) = match out {
                            Outcome::Pass(c) => (c, None),
                            Outcome::Fail(f, c) => (c, Some(f))
                        };
                        let mut st = stats[s].lock().unwrap();
                        st.evals += 1;
                        for l in &ctx.labels {
                            *st.labels.entry(l.clone()).or_default() += 1;
                        }
                        if ctx.nontrivial {
                            let h = src.tape.iter().fold(1u64, |a, b| mix(a, *b));
                            st.distinct.insert(h);
                            if st.samples.len() < 3 && !ctx.note.is_empty() {
                                let mut n = ctx.note.clone();
                                if n.len() > 600 {
                                    n = n.chars().take(600).collect();
                                }
                                st.samples.push(format!("#{idx}: {n}"));
                            }
                        }
                        drop(st);
                        if let Some(f) = failed {
                            if knowns.iter().any(|k| k.sig == f.sig) {
                                *stats[s].lock().unwrap().known_hits.entry(f.sig).or_default() += 1;
                            } else {
                                failures.lock().unwrap().push(Failure { sub: s, idx, tape: src.tape, fail: f });
                                if !all_fails {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                })
                .unwrap();
            hs.push(h);
        }
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });

    let mut fails = failures.into_inner().unwrap();
    fails.sort_by_key(|f| (f.sub, f.idx));
    let mut code = 0;
    if all_fails {
        let mut seen: BTreeMap<String, (u64, usize)> = BTreeMap::new();
        for (i, f) in fails.iter().enumerate() {
            let e = seen.entry(f.fail.sig.clone()).or_insert((0, i));
            e.0 += 1;
            if f.tape.len() < fails[e.1].tape.len() {
                e.1 = i;
            }
        }
        for (sig, (n, i)) in &seen {
            let f = &fails[*i];
            println!("FAIL x{n} sub={} idx={} sig=[{sig}]\n      {}", prop.subs[f.sub].name, f.idx, f.fail.msg.lines().next().unwrap_or(""));
        }
    }
    if let Some(f) = fails.first() {
        code = 1;
        let sub = &prop.subs[f.sub];
        let sig = f.fail.sig.clone();
        let mut eval = |t: &[u64]| -> Option<(Fail, Vec<u64>)> {
            let mut s = Src::from_tape(t.to_vec());
            match run_case(sub, &mut s, false) {
                Outcome::Fail(f, _) => Some((f, s.tape)),
                _ => None
            }
        };
        let best = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .name("pbt-shrink".into())
                .stack_size(16 << 20)
                .spawn_scoped(sc, || {
                    let b = shrink(f.tape.clone(), &sig, 4000, 40, &mut eval);
                    let mut s = Src::from_tape(b.clone());
                    (b, run_case(sub, &mut s, true))
                })
                .unwrap()
                .join()
                .unwrap()
        });
        let (tape, out) = best;
        let (fl, ctx) = match out {
            Outcome::Fail(a, c) => (a, c),
            Outcome::Pass(c) => (f.fail.clone(), c)
        };
        let p = write_replay(prop.id, sub.name, &tape, &fl, &ctx);
        println!("failing sub-check: {} (case {}), signature: {}", sub.name, f.idx, fl.sig);
        println!("case: {}", ctx.note);
        println!("{}", fl.msg);
        println!("VIOLATION property={} replay={}", prop.id, p.display());
    }
    // known findings
    let mut khits: BTreeMap<String, u64> = BTreeMap::new();
    for s in &stats {
        for (k, v) in &s.lock().unwrap().known_hits {
            *khits.entry(k.clone()).or_default() += v;
        }
    }
    for k in &knowns {
        println!("KNOWN-FINDING: property={} {} (hit {} times in this run)", prop.id, k.text, khits.get(&k.sig).copied().unwrap_or(0));
    }
    // evidence
    let mut evals = 0;
    let mut distinct = 0;
    let mut per = vec![];
    let mut samples = vec![];
    for (i, s) in stats.iter().enumerate() {
        let s = s.lock().unwrap();
        evals += s.evals;
        distinct += s.distinct.len() as u64;
        let labels = s.labels.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", ");
        per.push(format!(
            "{}: {{\"cases\": {}, \"distinct_nontrivial\": {}, \"labels\": {{{labels}}}}}",
            jstr(prop.subs[i].name),
            s.evals,
            s.distinct.len()
        ));
        for x in s.samples.iter().take(2) {
            samples.push(jstr(&format!("{} {x}", prop.subs[i].name)));
        }
    }
    let viol = if code == 1 { 1 } else { 0 };
    let assumptions = prop.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(", ");
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {distinct},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"known_finding_hits\": {},\n  \"sub_checks\": {{\n   {}\n  }}\n }},\n \"assumptions\": [{assumptions}],\n \"wall_s\": {:.2},\n \"violations\": {viol}\n}}\n",
        jstr(prop.id),
        jstr(tier),
        jstr(prop.rule),
        samples.join(", "),
        khits.values().sum::<u64>(),
        per.join(",\n   "),
        t0.elapsed().as_secs_f64()
    );
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", prop.id)), ev);
    println!("{}: {evals} cases, {distinct} distinct non-trivial, {:.1} s, exit {code}", prop.id, t0.elapsed().as_secs_f64());
    let _ = std::io::stdout().flush();
    code
}

fn counts_nonzero(starts: &[u64], i: usize, total: u64) -> bool {
    let end = starts.get(i + 1).copied().unwrap_or(total);
    end > starts[i]
}

fn on_named_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|sc| {
        std::thread::Builder::new().name("pbt-one".into()).stack_size(16 << 20).spawn_scoped(sc, f).unwrap().join().unwrap()
    })
}

pub fn main(props: Vec<Property>) {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--list") {
        for p in &props {
            println!("{} {}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(","));
        }
        return;
    }
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(prop) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id:?}");
        std::process::exit(2);
    };
    let flag = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };

    if let Some(p) = flag("--replay") {
        install_hook();
        let s = std::fs::read_to_string(&p).expect("replay file");
        let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
        let sub = prop.subs.iter().find(|x| x.name == get("sub ")).expect("sub");
        let tape: Vec<u64> = get("tape ").split(',').filter_map(|x| x.parse().ok()).collect();
        let out = on_named_thread(|| run_case(sub, &mut Src::from_tape(tape), true));
        match out {
            Outcome::Pass(c) => {
                println!("case: {}\nreplay passes", c.note);
                std::process::exit(0)
            }
            Outcome::Fail(f, c) => {
                println!("case: {}\nsignature: {}\n{}", c.note, f.sig, f.msg);
                println!("VIOLATION property={} replay={p}", prop.id);
                std::process::exit(1)
            }
        }
    }
    if let (Some(sub), Some(idx)) = (flag("--one"), flag("--idx")) {
        install_hook();
        let sub = prop.subs.iter().find(|x| x.name == sub).expect("sub");
        let idx: u64 = idx.parse().unwrap();
        let mut src = Src::random(case_seed(seed, prop.id, sub.name, idx));
        if let Some(p) = flag("--log") {
            src.log_to(&p);
        }
        let out = on_named_thread(|| run_case(sub, &mut src, true));
        match out {
            Outcome::Pass(c) => println!("pass: {} labels {:?}", c.note, c.labels),
            Outcome::Fail(f, c) => println!("FAIL {} {}\n{}", f.sig, c.note, f.msg)
        }
        return;
    }
    if args.iter().any(|a| a == "--child") {
        let code = child(prop, seed, tier, flag("--sub").as_deref(), flag("--progress").as_deref());
        std::process::exit(code);
    }
    std::process::exit(parent(prop, seed, tier, flag("--sub")));
}

/// runs a command for at most `s` seconds; None = still running (it is killed then)
fn timed(cmd: &mut Command, s: u64) -> Option<std::process::ExitStatus> {
    let mut ch = cmd.stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("spawn");
    let t0 = Instant::now();
    let mut nap = 1;
    loop {
        if let Ok(Some(st)) = ch.try_wait() {
            return Some(st);
        }
        if t0.elapsed().as_secs() >= s {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(50);
    }
}

fn report_death(prop: &Property, sub: &Sub, idx: u64, seed: u64, tier: &str, tape: &[u64], f: Fail) -> i32 {
    let p = write_replay(prop.id, sub.name, tape, &f, &Ctx { note: format!("case {idx} of seed {seed}"), ..Default::default() });
    println!("failing sub-check: {} (case {idx}), signature: {}\n{}", sub.name, f.sig, f.msg);
    println!("VIOLATION property={} replay={}", prop.id, p.display());
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": 1, \"rule\": {}, \"samples\": [{}]}}, \"wall_s\": 0, \"violations\": 1}}\n",
        jstr(prop.id),
        jstr(tier),
        idx + 1,
        jstr(prop.rule),
        jstr(&f.msg)
    );
    let _ = std::fs::write(root().join("evidence").join(format!("{}.json", prop.id)), ev);
    1
}

fn parent(prop: &Property, seed: u64, tier: &str, only: Option<String>) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let prog = std::env::temp_dir().join(format!("pbt-{}-{}.progress", prop.id, std::process::id()));
    let hang = PathBuf::from(format!("{}.hang", prog.display()));
    let log = PathBuf::from(format!("{}.tape", prog.display()));
    let tapef = PathBuf::from(format!("{}.replay", prog.display()));
    let mut cmd = Command::new(&exe);
    cmd.arg(prop.id).arg("--child").arg("--progress").arg(&prog);
    if let Some(s) = only {
        cmd.arg("--sub").arg(s);
    }
    let st = cmd.status().expect("spawn");
    let rec = std::fs::read(&prog).unwrap_or_default();
    let hung = std::fs::read_to_string(&hang).ok();
    let _ = std::fs::remove_file(&prog);
    let _ = std::fs::remove_file(&hang);
    let one = |sub: &Sub, idx: u64| {
        let mut c = Command::new(&exe);
        c.args([prop.id, "--one", sub.name, "--idx", &idx.to_string(), "--log"]).arg(&log).env("VERIF_SEED", seed.to_string());
        c
    };
    if st.code() == Some(3) {
        let Some((s, idx)) = hung.as_deref().and_then(|h| h.split_once(' ')) else { return 3 };
        let (s, idx): (usize, u64) = (s.parse().unwrap(), idx.parse().unwrap());
        let sub = &prop.subs[s];
        let r = timed(&mut one(sub, idx), 60);
        let tape: Vec<u64> = std::fs::read_to_string(&log).unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect();
        let _ = std::fs::remove_file(&log);
        if r.is_some() {
            eprintln!("INCONCLUSIVE: the case ends when it runs alone");
            return 3;
        }
        let f = Fail { sig: "does not terminate".into(), msg: format!("a case that should take milliseconds did not end within 45 s, nor within 60 s when run alone\nreproduce: VERIF_SEED={seed} {} {} --one {} --idx {idx}", exe.display(), prop.id, sub.name) };
        return report_death(prop, sub, idx, seed, tier, &tape, f);
    }
    if let Some(c) = st.code() {
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    eprintln!("child died of signal {sig}; looking for the case that kills it");
    if sig == 9 || sig == 15 {
        // killed from outside (for instance because memory ran out): no verdict
        return 4;
    }
    for r in rec.chunks_exact(16) {
        let s = u64::from_le_bytes(r[..8].try_into().unwrap());
        let idx = u64::from_le_bytes(r[8..].try_into().unwrap());
        if s == 0 {
            continue;
        }
        let sub = &prop.subs[s as usize - 1];
        let Some(st) = timed(&mut one(sub, idx), 60) else { continue };
        let Some(sg) = st.signal() else { continue };
        if sg == 9 || sg == 15 {
            continue;
        }
        let tape: Vec<u64> = std::fs::read_to_string(&log).unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect();
        let _ = std::fs::remove_file(&log);
        // shrink, one process per candidate
        let want = format!("signal {sg}");
        let mut eval = |t: &[u64]| -> Option<(Fail, Vec<u64>)> {
            let txt = format!("sub {}\ntape {}\n", sub.name, t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
            let _ = std::fs::write(&tapef, txt);
            let st = timed(Command::new(&exe).args([prop.id, "--replay"]).arg(&tapef), 20)?;
            (st.signal() == Some(sg)).then(|| (Fail { sig: want.clone(), msg: String::new() }, t.to_vec()))
        };
        let best = shrink(tape, &want, 1500, 40, &mut eval);
        let _ = std::fs::remove_file(&tapef);
        let f = Fail { sig: format!("process killed by signal {sg}"), msg: format!("the process running this case dies of signal {sg}\nreproduce: VERIF_SEED={seed} {} {} --one {} --idx {idx}", exe.display(), prop.id, sub.name) };
        return report_death(prop, sub, idx, seed, tier, &best, f);
    }
    eprintln!("no single case reproduces the crash");
    5
}
