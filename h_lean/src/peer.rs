//! a process running jobs in another build of the library, or on another (pretended) processor
use crate::link::Log;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Peer {
    child: Child,
    i: ChildStdin,
    o: ChildStdout
}
impl Peer {
    fn start(args: &[&str]) -> Peer {
        let me = std::env::current_exe().unwrap();
        let exe = if args[0] == "self" { me } else { me.with_file_name(args[0]) };
        let mut child = Command::new(&exe).args(&args[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| panic!("can't run {exe:?}: {e}"));
        let (i, o) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
        Peer { child, i, o }
    }
    fn ask(&mut self, job: &[u8]) -> std::io::Result<Log> {
        self.i.write_all(&(job.len() as u32).to_le_bytes())?;
        self.i.write_all(job)?;
        self.i.flush()?;
        let mut n = [0u8; 4];
        self.o.read_exact(&mut n)?;
        let mut b = vec![0; u32::from_le_bytes(n) as usize];
        self.o.read_exact(&mut b)?;
        Ok(Log::unpack(&b))
    }
}
impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static PEERS: RefCell<HashMap<String, Peer>> = RefCell::new(HashMap::new());
}

/// runs a job elsewhere; an error tells how the other process ended
pub fn ask(args: &[&str], job: &[u8]) -> Result<Log, String> {
    PEERS.with(|p| {
        let mut p = p.borrow_mut();
        let key = args.join(" ");
        let peer = p.entry(key.clone()).or_insert_with(|| Peer::start(args));
        match peer.ask(job) {
            Ok(l) => Ok(l),
            Err(e) => {
                let st = peer.child.wait();
                p.remove(&key);
                Err(format!("{e}, {st:?}"))
            }
        }
    })
}
