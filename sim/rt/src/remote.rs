//! Another process of the simulated deployment: a forked copy of this one that runs code under test on request,
//! with statics of its own. Start it before the code under test has run to get pristine statics.
use crate::world::{self, world};
use crate::{raw, shm};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;

pub struct Remote { pid: i32, to: Option<std::fs::File>, from: std::fs::File }
fn read_msg(f: &mut std::fs::File) -> Option<Vec<u8>> {
    let mut n = [0u8; 8];
    f.read_exact(&mut n).ok()?;
    let mut v = vec![0u8; u64::from_le_bytes(n) as usize];
    f.read_exact(&mut v).ok()?;
    Some(v)
}
fn write_msg(f: &mut std::fs::File, b: &[u8]) -> bool { f.write_all(&(b.len() as u64).to_le_bytes()).and_then(|_| f.write_all(b)).is_ok() }
static mut STARTED: u64 = 0;
impl Remote {
    /// The handler runs in the child, alone and without preemption, in the task that started the remote.
    pub fn start(mut handler: impl FnMut(Vec<u8>) -> Vec<u8>) -> Remote {
        let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
        let parent = unsafe { libc::getpid() };
        unsafe { assert!(libc::pipe(a.as_mut_ptr()) == 0 && libc::pipe(b.as_mut_ptr()) == 0); }
        world::stat("other_processes_started", 1);
        unsafe { STARTED += 1; }
        let pid = unsafe { libc::fork() };
        if pid < 0 { world::abort_run("fork failed"); }
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                if libc::getppid() != parent { raw::exit_now(4); }
                libc::close(a[1]); libc::close(b[0]);
                libc::alarm(300);
            }
            shm::install(shm::alloc());
            let w = world();
            w.solo = true;
            w.preempt = false;
            w.want_trace = false;
            w.insecure = Some(crate::choice::Rng::new(w.ch.digest ^ unsafe { STARTED } << 32 ^ 78));
            w.ch.prefix.clear(); w.ch.pos = 0; w.ch.rng = None;
            let (mut i, mut o) = unsafe { (std::fs::File::from_raw_fd(a[0]), std::fs::File::from_raw_fd(b[1])) };
            while let Some(m) = read_msg(&mut i) {
                let r = handler(m);
                if !write_msg(&mut o, &r) { break; }
            }
            raw::exit_now(0);
        }
        unsafe { libc::close(a[0]); libc::close(b[1]); }
        unsafe { Remote { pid, to: Some(std::fs::File::from_raw_fd(a[1])), from: std::fs::File::from_raw_fd(b[0]) } }
    }
    /// None if the other process died.
    pub fn call(&mut self, req: &[u8]) -> Option<Vec<u8>> {
        if !write_msg(self.to.as_mut()?, req) { return None; }
        let r = read_msg(&mut self.from);
        if r.is_none() { self.to = None; }
        r
    }
}
impl Drop for Remote {
    fn drop(&mut self) {
        self.to = None;
        unsafe { libc::kill(self.pid, libc::SIGKILL); let mut st = 0; libc::waitpid(self.pid, &mut st, 0); }
    }
}
