//! The libc functions through which the code under test (and std, getrandom, rand) reaches the outside world.
//! Inside a simulated section they are answered by the simulator; everywhere else they go to the kernel.
use crate::entropy::EFault;
use crate::fs::{Fd, FFault, Target, FD_BASE, ROOT};
use crate::raw::{ret, set_errno, syscall6};
use crate::world::{self, chance, choose, cur_task, fault, in_sut, set_sut, stat, trace, world};
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};

/// Before any run starts (warm-up), randomness is a fixed stream, so that process-wide hash seeds are always the same.
pub static mut FIXED_ENTROPY: bool = false;
static mut FIXED_STATE: u64 = 0x1234;

struct Out;
impl Out { fn new() -> Out { set_sut(false); Out } }
impl Drop for Out { fn drop(&mut self) { set_sut(true); } }

unsafe fn err(e: c_int) -> c_long { set_errno(e); -1 }

// ------------------------------------------------------------------ entropy
unsafe fn sim_getrandom(buf: *mut u8, len: usize, flags: c_uint) -> c_long {
    let _o = Out::new();
    if flags & 4 != 0 { // GRND_INSECURE: hash-map seeds of std
        for i in 0..len { *buf.add(i) = world::hash_seed_byte(); }
        return len as c_long;
    }
    if len == 0 { return 0; } // only asks whether the system call exists
    world::syscall_point();
    let w = world();
    let t = cur_task();
    let zombie = t.zombie;
    let e = &mut w.nodes[t.node].entropy;
    let n = e.calls;
    e.calls += 1;
    t.ent.calls += 1;
    let mut give = len;
    if !zombie {
        let planned = e.plan.iter().find(|p| p.0 == n).map(|p| p.1);
        let f = if let Some(k) = t.ent_dead.or(e.dead) { Some(EFault::Fail(k)) } else if planned.is_some() { planned }
            else if e.flaky > 0 && chance(e.flaky, 256) { Some(if choose(2) == 0 { EFault::Eintr } else { EFault::Short(0) }) } else { None };
        match f {
            Some(EFault::Eintr) => { t.ent.eintr += 1; fault("entropy_eintr"); return err(libc::EINTR); }
            Some(EFault::Fail(k)) => { t.ent.fails += 1; fault("entropy_error"); return err(k); }
            Some(EFault::Short(k)) if len > 1 => {
                give = if k > 0 { k.min(len - 1) } else { 1 + choose(len as u32 - 1) as usize };
                t.ent.short += 1; fault("entropy_short");
            }
            _ => {}
        }
    }
    let out = std::slice::from_raw_parts_mut(buf, give);
    e.fill(out);
    if t.ent.bytes.len() < 1 << 20 { t.ent.bytes.extend_from_slice(out); }
    give as c_long
}
unsafe fn any_getrandom(buf: *mut u8, len: usize, flags: c_uint) -> c_long {
    if in_sut() { return sim_getrandom(buf, len, flags); }
    if flags & 4 != 0 { // hash-map seeds of std, drawn by the harness: code under test on the same thread inherits them
        for i in 0..len { *buf.add(i) = if world::has_world() { world::hash_seed_byte() } else { (i as u8).wrapping_mul(37).wrapping_add(11) }; }
        return len as c_long;
    }
    if FIXED_ENTROPY {
        for i in 0..len {
            FIXED_STATE = FIXED_STATE.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            *buf.add(i) = (FIXED_STATE >> 40) as u8;
        }
        return len as c_long;
    }
    ret(syscall6(libc::SYS_getrandom, buf as c_long, len as c_long, flags as c_long, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t { any_getrandom(buf as *mut u8, len, flags) as ssize_t }
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, len: size_t) -> c_int {
    if len > 256 { return err(libc::EIO) as c_int; }
    let mut got = 0;
    while got < len {
        let r = any_getrandom((buf as *mut u8).add(got), len - got, 0);
        if r < 0 { if *libc::__errno_location() == libc::EINTR { continue; } return -1; }
        got += r as usize;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_getrandom { return any_getrandom(a as *mut u8, b as usize, c as c_uint); }
    if n == libc::SYS_futex && in_sut() {
        let op = b as c_int & 0x7f;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            let _o = Out::new();
            return ret(world::futex_wait_sim(a as *const u32, c as u32));
        }
    }
    ret(syscall6(n, a, b, c, d, e, f))
}

// ------------------------------------------------------------------ clock
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if in_sut() {
        let w = world();
        if w.clock_jumpy > 0 && !cur_task().zombie { let _o = Out::new(); world::clock_read(id == libc::CLOCK_REALTIME); }
        let us = if id == libc::CLOCK_REALTIME { (1_700_000_000_000_000 + w.wall_offset).max(0) as u64 + w.now } else { w.now + w.stalled };
        (*ts).tv_sec = (us / 1_000_000) as i64; (*ts).tv_nsec = ((us % 1_000_000) * 1000) as i64;
        return 0;
    }
    ret(syscall6(libc::SYS_clock_gettime, id as c_long, ts as c_long, 0, 0, 0, 0)) as c_int
}
unsafe fn sim_sleep(req: *const libc::timespec) -> c_int {
    let _o = Out::new();
    let us = (*req).tv_sec as u64 * 1_000_000 + (*req).tv_nsec as u64 / 1000;
    if !cur_task().zombie { world::sleep(us.max(1)); }
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if in_sut() { return sim_sleep(req); }
    ret(syscall6(libc::SYS_nanosleep, req as c_long, rem as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if in_sut() && flags == 0 { return sim_sleep(req); }
    -(syscall6(libc::SYS_clock_nanosleep, id as c_long, flags as c_long, req as c_long, rem as c_long, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if in_sut() { let _o = Out::new(); if !cur_task().zombie { world::yield_now(); } return 0; }
    syscall6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

// ------------------------------------------------------------------ files
unsafe fn cstr<'a>(p: *const c_char) -> &'a str { std::ffi::CStr::from_ptr(p).to_str().unwrap_or("") }
unsafe fn is_sim_path(p: *const c_char) -> bool { if p.is_null() { return false; } let s = cstr(p); s.starts_with(ROOT) || s == "/simfs" }
fn is_sim_fd(fd: c_int) -> bool { fd >= FD_BASE }

/// Decides the fault of one file-system call. Err(errno) fails it; Ok(short) may shorten it.
fn fs_fault(what: &str) -> Result<bool, c_int> {
    world::syscall_point();
    let w = world();
    let t = cur_task();
    if t.zombie { return Ok(false); }
    let n = w.fs.calls;
    w.fs.calls += 1;
    trace(|| format!("fs {what}"));
    let planned = w.fs.plan.iter().find(|p| p.0 == n).map(|p| p.1);
    let f = if planned.is_some() { planned }
        else if w.fs.flaky > 0 && chance(w.fs.flaky, 256) { Some(if choose(2) == 0 { FFault::Eintr } else { FFault::Short }) } else { None };
    match f {
        None => Ok(false),
        // calls that are never interrupted on a local file system (the standard library does not retry them)
        Some(FFault::Eintr) if matches!(what, "close" | "stat" | "lseek" | "rename" | "unlink" | "mkdir" | "fchmod") => Ok(false),
        Some(FFault::Eintr) => { t.fs_faults += 1; fault("fs_eintr"); Err(libc::EINTR) }
        Some(FFault::Short) => Ok(true),
        Some(FFault::Crash) => { fault("crash_at_fs_call"); t.zombie = true; w.nodes[t.node].alive = false; Ok(false) }
        Some(FFault::Fail(_)) if what == "close" || what == "stat" || what == "lseek" => Ok(false),
        Some(FFault::Fail(e)) => {
            t.fs_faults += 1; t.fs_hard += 1;
            fault(match e { libc::ENOSPC => "fs_enospc", libc::EIO => "fs_eio", libc::EACCES => "fs_eacces", libc::EMFILE => "fs_emfile", _ => "fs_error" });
            Err(e)
        }
    }
}
unsafe fn sim_open(path: &str, flags: c_int) -> c_long {
    let _o = Out::new();
    if path == "/dev/urandom" || path == "/dev/random" {
        let w = world();
        let fd = FD_BASE + w.fs.next_fd; w.fs.next_fd += 1;
        w.fs.fds.insert(fd, Fd { target: Target::Urandom, pos: 0, read: true, write: false, append: false });
        return fd as c_long;
    }
    if let Err(e) = fs_fault("open") { return err(e); }
    let w = world();
    let fs = &mut w.fs;
    let zombie = cur_task().zombie;
    let acc = flags & libc::O_ACCMODE;
    let (r, wr) = (acc != libc::O_WRONLY, acc != libc::O_RDONLY);
    if path.ends_with('/') || path == "/simfs" || fs.dirs.contains(path) {
        if wr { return err(libc::EISDIR); }
        return err(libc::EISDIR);
    }
    let dir = path.rsplit_once('/').map(|x| x.0).unwrap_or("");
    if dir != "/simfs" && !fs.dirs.contains(dir) { return err(libc::ENOENT); }
    if !fs.names.contains_key(path) {
        if flags & libc::O_CREAT == 0 { return err(libc::ENOENT); }
        if zombie { return err(libc::EIO); }
        fs.put(path, &[]);
        fs.touched.insert(path.to_string());
    } else if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 { return err(libc::EEXIST); }
    let ino = fs.names[path];
    if wr { fs.touched.insert(path.to_string()); }
    if flags & libc::O_TRUNC != 0 && wr && !zombie { fs.inodes.get_mut(&ino).unwrap().clear(); }
    let fd = FD_BASE + fs.next_fd; fs.next_fd += 1;
    fs.fds.insert(fd, Fd { target: Target::File(ino), pos: 0, read: r, write: wr, append: flags & libc::O_APPEND != 0 });
    fd as c_long
}
unsafe fn any_open(dirfd: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if in_sut() && !p.is_null() {
        let s = cstr(p);
        if is_sim_path(p) || s == "/dev/urandom" || s == "/dev/random" { let s = s.to_string(); return sim_open(&s, flags) as c_int; }
    }
    ret(syscall6(libc::SYS_openat, dirfd as c_long, p as c_long, flags as c_long, mode as c_long, 0, 0)) as c_int
}
#[no_mangle] pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int { any_open(libc::AT_FDCWD, p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int { any_open(libc::AT_FDCWD, p, flags | libc::O_LARGEFILE, mode) }
#[no_mangle] pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int { any_open(d, p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int { any_open(d, p, flags | libc::O_LARGEFILE, mode) }

unsafe fn sim_read(fd: c_int, buf: *mut u8, len: usize, at: Option<u64>) -> c_long {
    if let Some(Fd { target: Target::Urandom, .. }) = world().fs.fds.get(&fd) { return sim_getrandom(buf, len, 0); }
    let _o = Out::new();
    let short = match fs_fault("read") { Err(e) => return err(e), Ok(s) => s };
    let w = world();
    let Some(f) = w.fs.fds.get_mut(&fd) else { return err(libc::EBADF) };
    if !f.read { return err(libc::EBADF); }
    let Target::File(ino) = f.target else { return err(libc::EBADF) };
    let data = &w.fs.inodes[&ino];
    let pos = at.unwrap_or(f.pos) as usize;
    let mut n = len.min(data.len().saturating_sub(pos));
    if short && n > 1 { n = 1 + choose(n as u32 - 1) as usize; cur_task().fs_faults += 1; fault("fs_short_read"); }
    std::ptr::copy_nonoverlapping(data.as_ptr().add(pos.min(data.len())), buf, n);
    if at.is_none() { f.pos += n as u64; }
    n as c_long
}
unsafe fn sim_write(fd: c_int, buf: *const u8, len: usize, at: Option<u64>) -> c_long {
    let _o = Out::new();
    if fd < FD_BASE { return len as c_long; } // output of the code under test on stdout or stderr
    let short = match fs_fault("write") { Err(e) => return err(e), Ok(s) => s };
    let w = world();
    if cur_task().zombie { return len as c_long; }
    let Some(f) = w.fs.fds.get(&fd).cloned() else { return err(libc::EBADF) };
    if !f.write { return err(libc::EBADF); }
    let Target::File(ino) = f.target else { return err(libc::EBADF) };
    w.fs.write_calls += 1;
    let pos = if let Some(a) = at { a } else if f.append { w.fs.inodes[&ino].len() as u64 } else { f.pos };
    let mut n = w.fs.room(ino, pos, len as u64) as usize;
    if n < len {
        if n == 0 && len > 0 { let t = cur_task(); t.fs_faults += 1; t.fs_hard += 1; fault("fs_enospc"); return err(libc::ENOSPC); }
        fault("fs_short_write");
    }
    if short && n > 1 { n = 1 + choose(n as u32 - 1) as usize; cur_task().fs_faults += 1; fault("fs_short_write"); }
    let data = w.fs.inodes.get_mut(&ino).unwrap();
    let end = pos as usize + n;
    if data.len() < end { data.resize(end, 0); }
    std::ptr::copy_nonoverlapping(buf, data.as_mut_ptr().add(pos as usize), n);
    w.fs.bytes_written += n as u64;
    if at.is_none() { w.fs.fds.get_mut(&fd).unwrap().pos = end as u64; }
    n as c_long
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: size_t) -> ssize_t {
    if in_sut() && is_sim_fd(fd) { return sim_read(fd, buf as *mut u8, len, None) as ssize_t; }
    ret(syscall6(libc::SYS_read, fd as c_long, buf as c_long, len as c_long, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    if in_sut() && (is_sim_fd(fd) || fd == 1 || fd == 2) { return sim_write(fd, buf as *const u8, len, None) as ssize_t; }
    ret(syscall6(libc::SYS_write, fd as c_long, buf as c_long, len as c_long, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, len: size_t, off: off64_t) -> ssize_t {
    if in_sut() && is_sim_fd(fd) { return sim_read(fd, buf as *mut u8, len, Some(off as u64)) as ssize_t; }
    ret(syscall6(libc::SYS_pread64, fd as c_long, buf as c_long, len as c_long, off, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, len: size_t, off: off64_t) -> ssize_t {
    if in_sut() && is_sim_fd(fd) { return sim_write(fd, buf as *const u8, len, Some(off as u64)) as ssize_t; }
    ret(syscall6(libc::SYS_pwrite64, fd as c_long, buf as c_long, len as c_long, off, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if in_sut() && (is_sim_fd(fd) || fd == 1 || fd == 2) {
        let mut all = vec![];
        for i in 0..cnt as usize { let v = &*iov.add(i); all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len)); }
        return sim_write(fd, all.as_ptr(), all.len(), None) as ssize_t;
    }
    ret(syscall6(libc::SYS_writev, fd as c_long, iov as c_long, cnt as c_long, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if in_sut() && is_sim_fd(fd) {
        for i in 0..cnt as usize { let v = &*iov.add(i); if v.iov_len > 0 { return sim_read(fd, v.iov_base as *mut u8, v.iov_len, None) as ssize_t; } }
        return 0;
    }
    ret(syscall6(libc::SYS_readv, fd as c_long, iov as c_long, cnt as c_long, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if in_sut() && is_sim_fd(fd) {
        let _o = Out::new();
        let _ = fs_fault("close");
        return if world().fs.fds.remove(&fd).is_some() { 0 } else { err(libc::EBADF) as c_int };
    }
    ret(syscall6(libc::SYS_close, fd as c_long, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if in_sut() && is_sim_fd(fd) {
        let _o = Out::new();
        let _ = fs_fault("lseek");
        let w = world();
        let Some(f) = w.fs.fds.get_mut(&fd) else { return err(libc::EBADF) };
        let Target::File(ino) = f.target else { return err(libc::ESPIPE) };
        let base = match whence { libc::SEEK_SET => 0, libc::SEEK_CUR => f.pos as i64, _ => w.fs.inodes[&ino].len() as i64 };
        if base + off < 0 { return err(libc::EINVAL); }
        f.pos = (base + off) as u64;
        return f.pos as off64_t;
    }
    ret(syscall6(libc::SYS_lseek, fd as c_long, off, whence as c_long, 0, 0, 0))
}
fn fd_len(fd: c_int) -> Option<u64> {
    match world().fs.fds.get(&fd).map(|f| &f.target) { Some(Target::File(i)) => Some(world().fs.inodes[i].len() as u64), Some(Target::Urandom) => Some(0), None => None }
}
fn path_len(p: &str) -> Option<(u64, bool)> {
    let fs = &world().fs;
    if p == "/simfs" || p == ROOT || fs.dirs.contains(p) { return Some((0, true)); }
    fs.get(p).map(|d| (d.len() as u64, false))
}
unsafe fn fill_stat(st: *mut libc::stat64, len: u64, dir: bool) {
    *st = std::mem::zeroed();
    (*st).st_size = len as i64;
    (*st).st_mode = if dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
    (*st).st_blocks = (len as i64 + 511) / 512;
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if in_sut() && is_sim_fd(fd) {
        let _o = Out::new();
        let _ = fs_fault("stat");
        return match fd_len(fd) { Some(l) => { fill_stat(st, l, false); 0 } None => err(libc::EBADF) as c_int };
    }
    ret(syscall6(libc::SYS_fstat, fd as c_long, st as c_long, 0, 0, 0, 0)) as c_int
}
unsafe fn any_stat(p: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    if in_sut() && is_sim_path(p) {
        let _o = Out::new();
        let _ = fs_fault("stat");
        return match path_len(cstr(p)) { Some((l, d)) => { fill_stat(st, l, d); 0 } None => err(libc::ENOENT) as c_int };
    }
    ret(syscall6(libc::SYS_newfstatat, libc::AT_FDCWD as c_long, p as c_long, st as c_long, flags as c_long, 0, 0)) as c_int
}
#[no_mangle] pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int { any_stat(p, st, 0) }
#[no_mangle] pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int { any_stat(p, st, libc::AT_SYMLINK_NOFOLLOW) }
#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: c_int, p: *const c_char, flags: c_int, mask: c_uint, st: *mut libc::statx) -> c_int {
    let empty = p.is_null() || *p == 0;
    if in_sut() && ((empty && is_sim_fd(dirfd)) || is_sim_path(p)) {
        let _o = Out::new();
        let _ = fs_fault("stat");
        let r = if empty { fd_len(dirfd).map(|l| (l, false)) } else { path_len(cstr(p)) };
        let Some((l, d)) = r else { return err(if empty { libc::EBADF } else { libc::ENOENT }) as c_int };
        *st = std::mem::zeroed();
        (*st).stx_mask = libc::STATX_BASIC_STATS;
        (*st).stx_size = l;
        (*st).stx_mode = if d { libc::S_IFDIR as u16 | 0o755 } else { libc::S_IFREG as u16 | 0o644 };
        (*st).stx_nlink = 1;
        (*st).stx_blksize = 4096;
        return 0;
    }
    ret(syscall6(libc::SYS_statx, dirfd as c_long, p as c_long, flags as c_long, mask as c_long, st as c_long, 0)) as c_int
}
unsafe fn simple_fd(fd: c_int, what: &'static str, n: c_long, a: c_long) -> c_int {
    if in_sut() && is_sim_fd(fd) {
        let _o = Out::new();
        if let Err(e) = fs_fault(what) { return err(e) as c_int; }
        if what == "ftruncate" && !cur_task().zombie {
            let w = world();
            if let Some(Fd { target: Target::File(i), .. }) = w.fs.fds.get(&fd) { let i = *i; w.fs.inodes.get_mut(&i).unwrap().resize(a as usize, 0); }
        }
        stat(if what == "fsync" { "fsyncs" } else { "fd_ops" }, 1);
        return 0;
    }
    ret(syscall6(n, fd as c_long, a, 0, 0, 0, 0)) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fsync(fd: c_int) -> c_int { simple_fd(fd, "fsync", libc::SYS_fsync, 0) }
#[no_mangle] pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int { simple_fd(fd, "fsync", libc::SYS_fdatasync, 0) }
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int { simple_fd(fd, "ftruncate", libc::SYS_ftruncate, len) }
#[no_mangle] pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int { simple_fd(fd, "flock", libc::SYS_flock, op as c_long) }
#[no_mangle] pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int { simple_fd(fd, "fchmod", libc::SYS_fchmod, mode as c_long) }
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, a: off64_t, b: off64_t, c: c_int) -> c_int {
    if in_sut() && is_sim_fd(fd) { return 0; }
    -(syscall6(libc::SYS_fadvise64, fd as c_long, a, b, c as c_long, 0, 0)) as c_int
}
unsafe fn any_rename(a: *const c_char, b: *const c_char) -> c_int {
    if in_sut() && (is_sim_path(a) || is_sim_path(b)) {
        let _o = Out::new();
        if let Err(e) = fs_fault("rename") { return err(e) as c_int; }
        if cur_task().zombie { return 0; }
        let fs = &mut world().fs;
        let (a, b) = (cstr(a).to_string(), cstr(b).to_string());
        if b.ends_with('/') || b == "/simfs" || fs.dirs.contains(&b) { return err(libc::EISDIR) as c_int; }
        let dir = b.rsplit_once('/').map_or("", |x| x.0);
        if dir != "/simfs" && !fs.dirs.contains(dir) { return err(libc::ENOENT) as c_int; }
        let Some(i) = fs.names.remove(&a) else { return err(libc::ENOENT) as c_int };
        fs.names.insert(b.clone(), i);
        fs.touched.insert(a); fs.touched.insert(b);
        return 0;
    }
    ret(syscall6(libc::SYS_rename, a as c_long, b as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle] pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int { any_rename(a, b) }
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if in_sut() && is_sim_path(a) {
        let _o = Out::new();
        if let Err(e) = fs_fault("unlink") { return err(e) as c_int; }
        if cur_task().zombie { return 0; }
        let p = cstr(a).to_string();
        let fs = &mut world().fs;
        if fs.dirs.contains(&p) { return err(libc::EISDIR) as c_int; }
        fs.touched.insert(p.clone());
        return if fs.names.remove(&p).is_some() { 0 } else { err(libc::ENOENT) as c_int };
    }
    ret(syscall6(libc::SYS_unlink, a as c_long, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: mode_t) -> c_int {
    if in_sut() && is_sim_path(a) {
        let _o = Out::new();
        if let Err(e) = fs_fault("mkdir") { return err(e) as c_int; }
        let p = cstr(a).trim_end_matches('/').to_string();
        if p == "/simfs" || world().fs.dirs.contains(&p) || world().fs.names.contains_key(&p) { return err(libc::EEXIST) as c_int; }
        world().fs.dirs.insert(p);
        return 0;
    }
    ret(syscall6(libc::SYS_mkdir, a as c_long, mode as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(a: *const c_char, mode: c_int) -> c_int {
    if in_sut() && is_sim_path(a) { let _o = Out::new(); return if path_len(cstr(a)).is_some() { 0 } else { err(libc::ENOENT) as c_int }; }
    ret(syscall6(libc::SYS_access, a as c_long, mode as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if is_sim_fd(fd) && in_sut() { return 0; }
    ret(syscall6(libc::SYS_fcntl, fd as c_long, cmd as c_long, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, len: size_t, flags: c_uint) -> ssize_t {
    if in_sut() && (is_sim_fd(a) || is_sim_fd(b)) { return err(libc::ENOSYS) as ssize_t; }
    ret(syscall6(libc::SYS_copy_file_range, a as c_long, ao as c_long, b as c_long, bo as c_long, len as c_long, flags as c_long)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, off: *mut off64_t, len: size_t) -> ssize_t {
    if in_sut() && (is_sim_fd(a) || is_sim_fd(b)) { return err(libc::EINVAL) as ssize_t; }
    ret(syscall6(libc::SYS_sendfile, a as c_long, b as c_long, off as c_long, len as c_long, 0, 0)) as ssize_t
}
/// Referenced from main so that the linker keeps (and prefers) these definitions.
#[used]
pub static KEEP: [unsafe extern "C" fn(fd: c_int) -> c_int; 3] = [close, fsync, fdatasync];
