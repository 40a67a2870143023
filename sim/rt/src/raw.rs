//! Raw system calls, so that the simulator never goes through the libc functions it interposes.
use core::arch::asm;
use libc::c_long;

#[inline]
pub unsafe fn syscall6(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub unsafe fn ret(r: c_long) -> c_long {
    if (-4095..0).contains(&r) { set_errno(-r as i32); -1 } else { r }
}
pub unsafe fn set_errno(e: i32) { *libc::__errno_location() = e; }

pub fn futex_wait(a: &core::sync::atomic::AtomicU32, v: u32, timeout_us: Option<u64>) {
    let ts = timeout_us.map(|t| libc::timespec { tv_sec: (t / 1_000_000) as i64, tv_nsec: ((t % 1_000_000) * 1000) as i64 });
    let p = ts.as_ref().map_or(core::ptr::null(), |t| t as *const _);
    unsafe { syscall6(libc::SYS_futex, a as *const _ as c_long, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as c_long, v as c_long, p as c_long, 0, 0); }
}
pub fn futex_wake(a: &core::sync::atomic::AtomicU32) {
    unsafe { syscall6(libc::SYS_futex, a as *const _ as c_long, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as c_long, i32::MAX as c_long, 0, 0, 0); }
}
pub fn exit_now(code: i32) -> ! {
    unsafe { loop { syscall6(libc::SYS_exit_group, code as c_long, 0, 0, 0, 0, 0); } }
}
