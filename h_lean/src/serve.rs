//! the other side: runs jobs
use crate::link::{self, Log};
use crate::{codec, cpu, script};

pub fn serve(a: &[String]) {
    let level: usize = a[1].parse().unwrap();
    if level > 0 && !cpu::hide(level) {
        link::serve(|_| {
            let mut l = Log::default();
            l.add("unavailable", "");
            l
        });
        return;
    }
    let image = a[0] == "image";
    let run = move |job: &[u8]| if image { script::run(job) } else { codec::run(job) };
    if a.get(2).is_none() {
        return link::serve(run);
    }
    let w = cpu::Watch::new(level);
    link::serve(move |job| {
        let mut l = Log::default();
        match &w {
            None => l.add("unavailable", ""),
            Some(w) => {
                let (done, bad) = w.run(|| link::guarded(&run, job));
                l.add("traps", w.traps.to_string());
                l.add("steps", (done.0.len() as u64).to_le_bytes());
                for b in bad {
                    l.add("bad", b);
                }
            }
        }
        l
    });
}
