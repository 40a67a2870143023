//! The simulated file system below /simfs, with virtual descriptors, a disk of limited size and planned faults.
use std::collections::BTreeMap;

pub const ROOT: &str = "/simfs/";
pub const FD_BASE: i32 = 0x4000_0000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FFault { Eintr, Short, Fail(i32), Crash }

#[derive(Clone, Debug)]
pub enum Target { File(u64), Urandom }
#[derive(Clone, Debug)]
pub struct Fd { pub target: Target, pub pos: u64, pub read: bool, pub write: bool, pub append: bool }

#[derive(Default, Clone)]
pub struct Fs {
    pub names: BTreeMap<String, u64>,
    pub dirs: std::collections::BTreeSet<String>,
    pub inodes: BTreeMap<u64, Vec<u8>>,
    pub fds: BTreeMap<i32, Fd>,
    pub next_inode: u64,
    pub next_fd: i32,
    pub capacity: Option<u64>,
    /// (call number, fault) relative to `calls`; only calls made by tasks while a plan is armed count.
    pub plan: Vec<(u64, FFault)>,
    pub calls: u64,
    pub flaky: u32,
    /// Paths that are written (opened for writing, truncated, removed, renamed) since the last reset.
    pub touched: std::collections::BTreeSet<String>,
    pub write_calls: u64,
    pub bytes_written: u64,
}
impl Fs {
    pub fn put(&mut self, path: &str, data: &[u8]) {
        let i = self.next_inode; self.next_inode += 1;
        self.names.insert(path.to_string(), i);
        self.inodes.insert(i, data.to_vec());
    }
    pub fn get(&self, path: &str) -> Option<&Vec<u8>> { self.names.get(path).and_then(|i| self.inodes.get(i)) }
    pub fn used(&self) -> u64 { self.names.values().map(|i| self.inodes[i].len() as u64).sum() }
    /// Bytes a write of `n` bytes at `pos` may still add to inode `i`.
    pub fn room(&self, i: u64, pos: u64, n: u64) -> u64 {
        match self.capacity {
            None => n,
            Some(c) => {
                let len = self.inodes[&i].len() as u64;
                let free = c.saturating_sub(self.used());
                n.min(len.saturating_sub(pos) + free)
            }
        }
    }
}
