//! Readers and writers that behave badly, within the rules of std::io.
use std::io::{self, BufRead, Read, Seek, SeekFrom, Write};

/// A reader over memory that hands out at most `step` bytes at a time and can fail.
pub struct Slow {
    data: Vec<u8>,
    pos: u64,
    step: usize,
    /// I/O operations left until every further operation fails
    pub fuse: Option<u64>,
    /// reads that reach this offset fail
    pub bad_at: Option<u64>,
    pub ops: u64,
    /// set when a fault was delivered
    pub hit: bool
}

impl Slow {
    pub fn new(data: &[u8], step: usize) -> Slow {
        Slow { data: data.to_vec(), pos: 0, step: step.max(1), fuse: None, bad_at: None, ops: 0, hit: false }
    }
    fn tick(&mut self) -> io::Result<()> {
        self.ops += 1;
        if let Some(f) = &mut self.fuse {
            if *f == 0 {
                self.hit = true;
                return Err(io::Error::new(io::ErrorKind::Other, "injected fault"));
            }
            *f -= 1;
        }
        Ok(())
    }
    fn range(&mut self) -> io::Result<(usize, usize)> {
        let a = (self.pos.min(self.data.len() as u64)) as usize;
        let mut b = (a + self.step).min(self.data.len());
        if let Some(f) = self.bad_at {
            if self.pos >= f && f <= self.data.len() as u64 {
                self.hit = true;
                return Err(io::Error::new(io::ErrorKind::Other, "injected fault"));
            }
            b = b.min((f as usize).max(a));
        }
        Ok((a, b))
    }
}
impl Read for Slow {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.tick()?;
        if buf.is_empty() {
            return Ok(0);
        }
        let (a, b) = self.range()?;
        let n = (b - a).min(buf.len());
        buf[..n].copy_from_slice(&self.data[a..a + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl BufRead for Slow {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.tick()?;
        let (a, b) = self.range()?;
        Ok(&self.data[a..b])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n as u64;
    }
}
impl Seek for Slow {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.tick()?;
        let n = match p {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::End(d) => (self.data.len() as u64).checked_add_signed(d),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d)
        };
        match n {
            Some(n) => {
                self.pos = n;
                Ok(n)
            }
            None => Err(io::Error::new(io::ErrorKind::InvalidInput, "seek before the start"))
        }
    }
}

/// A sink that accepts at most `step` bytes per call and fails once `limit` bytes are stored.
pub struct Sink {
    pub data: Vec<u8>,
    pub step: usize,
    pub limit: Option<usize>,
    pub flush_fails: bool,
    pub hit: bool
}
impl Sink {
    pub fn new(step: usize, limit: Option<usize>) -> Sink {
        Sink { data: vec![], step: step.max(1), limit, flush_fails: false, hit: false }
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut n = b.len().min(self.step);
        if let Some(l) = self.limit {
            if self.data.len() >= l && !b.is_empty() {
                self.hit = true;
                return Err(io::Error::new(io::ErrorKind::Other, "injected fault"));
            }
            n = n.min(l - self.data.len().min(l));
        }
        self.data.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.flush_fails {
            self.hit = true;
            return Err(io::Error::new(io::ErrorKind::Other, "injected fault"));
        }
        Ok(())
    }
}

/// A seed of the repository (sorted by name, files of at most `max` bytes), or nothing if there are none.
pub fn seeds(dir: &str, max: u64) -> Vec<Vec<u8>> {
    fn walk(d: &std::path::Path, max: u64, out: &mut Vec<std::path::PathBuf>) {
        let Ok(r) = std::fs::read_dir(d) else { return };
        for e in r.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, max, out);
            } else if e.metadata().map(|m| m.len() <= max && m.len() > 0).unwrap_or(false) {
                out.push(p);
            }
        }
    }
    let mut v = vec![];
    walk(std::path::Path::new(dir), max, &mut v);
    v.sort();
    v.iter().filter_map(|p| std::fs::read(p).ok()).collect()
}
