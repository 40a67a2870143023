//! Memory shared between a run (a forked process) and the process that started it.
pub const MAX_CHOICES: usize = 1 << 20;
pub const REPORT_CAP: usize = 24 << 20;
pub const COV_CAP: usize = 1 << 16;
#[repr(C)]
pub struct Shm {
    pub done: u64,
    pub nrec: u64,
    pub report_len: u64,
    pub op: [u8; 128],
    pub cov: [u8; COV_CAP],
    pub rec: [u32; MAX_CHOICES],
    pub report: [u8; REPORT_CAP],
}
static mut SHM: *mut Shm = core::ptr::null_mut();
pub fn alloc() -> *mut Shm {
    unsafe {
        let p = crate::raw::syscall6(libc::SYS_mmap, 0, core::mem::size_of::<Shm>() as i64, (libc::PROT_READ | libc::PROT_WRITE) as i64,
            (libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE) as i64, -1, 0);
        assert!(p > 0, "mmap");
        p as *mut Shm
    }
}
pub fn install(p: *mut Shm) { unsafe { SHM = p; (*p).done = 0; (*p).nrec = 0; (*p).report_len = 0; (*p).op = [0; 128]; } }
pub fn get() -> &'static mut Shm { unsafe { &mut *SHM } }
pub fn installed() -> bool { unsafe { !SHM.is_null() } }
pub fn record(v: u32) {
    let s = get();
    if s.nrec as usize >= MAX_CHOICES { crate::world::abort_run("too many choices"); }
    s.rec[s.nrec as usize] = v;
    s.nrec += 1;
}
