//! jobs and their records, sent between this program and builds of the library with other features
use std::io::{Read, Write};

/// what a job did: named pieces of bytes, in order
#[derive(Default, Clone, PartialEq)]
pub struct Log(pub Vec<(String, Vec<u8>)>);

impl Log {
    pub fn add(&mut self, name: impl Into<String>, d: impl Into<Vec<u8>>) {
        self.0.push((name.into(), d.into()));
    }
    pub fn pack(&self) -> Vec<u8> {
        let mut o = vec![];
        for (n, d) in &self.0 {
            o.extend((n.len() as u32).to_le_bytes());
            o.extend(n.as_bytes());
            o.extend((d.len() as u32).to_le_bytes());
            o.extend(d);
        }
        o
    }
    pub fn unpack(b: &[u8]) -> Log {
        let mut r = Rd(b);
        let mut l = Log::default();
        while !r.0.is_empty() {
            let n = r.u32() as usize;
            let n = String::from_utf8_lossy(r.take(n)).to_string();
            let k = r.u32() as usize;
            l.add(n, r.take(k).to_vec());
        }
        l
    }
}

/// reads a job's fields
pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    pub fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    pub fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take(4).try_into().unwrap())
    }
    pub fn blob(&mut self) -> &'a [u8] {
        let n = self.u32() as usize;
        self.take(n)
    }
}

pub fn blob(o: &mut Vec<u8>, d: &[u8]) {
    o.extend((d.len() as u32).to_le_bytes());
    o.extend(d);
}

/// runs jobs from standard input until it is closed
pub fn serve(run: impl Fn(&[u8]) -> Log) {
    std::panic::set_hook(Box::new(|_| {}));
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut n = [0u8; 4];
    while i.read_exact(&mut n).is_ok() {
        let mut job = vec![0; u32::from_le_bytes(n) as usize];
        if i.read_exact(&mut job).is_err() {
            return;
        }
        let out = guarded(&run, &job).pack();
        if o.write_all(&(out.len() as u32).to_le_bytes()).is_err() || o.write_all(&out).is_err() || o.flush().is_err() {
            return;
        }
    }
}

pub fn guarded(run: &impl Fn(&[u8]) -> Log, job: &[u8]) -> Log {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(job))).unwrap_or_else(|p| {
        let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let mut l = Log::default();
        l.add("panic", m.as_bytes());
        l
    })
}
