//! run a piece of code in a child process; a crash there is a failure here
use pbt::{Ctx, Fail, Res};
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::FromRawFd;

pub struct Report {
    pub labels: Vec<String>,
    pub nontrivial: bool,
}

/// A child forked while another thread holds some lock of the C or Rust runtime can hang on that lock, so a child
/// that does not finish is given two more chances; code that really does not end fails them all.
pub fn isolated(c: &mut Ctx, f: impl Fn(&mut Report) -> Res) -> Res {
    for _ in 0..2 {
        match attempt(c, &f) {
            Err(e) if e.sig.starts_with("does not finish") => {}
            r => return r,
        }
    }
    attempt(c, &f)
}

fn attempt(c: &mut Ctx, f: &impl Fn(&mut Report) -> Res) -> Res {
    unsafe {
        let fd = libc::memfd_create(c"out".as_ptr(), 0);
        assert!(fd >= 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::dup2(fd, 2);
            libc::alarm(12);
            std::panic::set_hook(Box::new(|i| eprintln!("{i}")));
            let mut r = Report { labels: vec![], nontrivial: false };
            let res = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r))) {
                Ok(x) => x,
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                    Err(Fail { sig: "panic".into(), msg: m })
                }
            };
            let res = res.and_then(|_| match pbt::mem::misuse() {
                Some(m) => Err(Fail { sig: format!("heap misuse: {m}"), msg: m.into() }),
                None => Ok(()),
            });
            let mut out = String::from("\u{1}");
            match res {
                Ok(()) => out += &format!("ok\u{2}{}", r.nontrivial as u8),
                Err(e) => out += &format!("fail\u{2}{}\u{2}{}", e.sig, e.msg),
            }
            for l in r.labels {
                out += "\u{2}";
                out += &l;
            }
            let mut file = std::fs::File::from_raw_fd(fd);
            let _ = file.write_all(out.as_bytes());
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let mut file = std::fs::File::from_raw_fd(fd);
        let mut text = vec![];
        file.seek(SeekFrom::Start(0)).unwrap();
        let _ = file.read_to_end(&mut text);
        let text = String::from_utf8_lossy(&text).to_string();
        let (noise, last) = text.rsplit_once('\u{1}').unwrap_or((&text, ""));
        let v: Vec<&str> = last.split('\u{2}').collect();
        if libc::WIFSIGNALED(st) || last.is_empty() {
            let sig = libc::WTERMSIG(st);
            let at = noise.lines().find(|l| l.contains("panicked at")).map(|l| l.rsplit("panicked at ").next().unwrap_or("").split(':').next().unwrap_or("").to_string());
            let why = at.unwrap_or_else(|| noise.lines().next().unwrap_or("").chars().take(60).collect());
            let name = match sig {
                libc::SIGALRM => "does not finish",
                libc::SIGABRT => "aborts",
                libc::SIGSEGV | libc::SIGBUS => "invalid memory access",
                _ => "dies",
            };
            let n = noise.len();
            return Err(Fail { sig: format!("{name}: {why}"), msg: format!("signal {sig}: {}", &noise.chars().take(3000.min(n)).collect::<String>()) });
        }
        match v[0] {
            "ok" => {
                if v[1] == "1" {
                    c.nontrivial();
                }
                for l in &v[2..] {
                    c.label(*l);
                }
                Ok(())
            }
            _ => Err(Fail { sig: v[1].to_string(), msg: format!("{}\n{}", v[2], noise) }),
        }
    }
}
