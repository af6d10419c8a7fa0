//! atomic-wait for Linux, with arguments of the types Miri asks for.
use std::sync::atomic::AtomicU32;

pub fn wait(a: &AtomicU32, expected: u32) {
    unsafe { libc::syscall(libc::SYS_futex, a.as_ptr(), libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, expected, std::ptr::null::<libc::timespec>()) };
}

pub fn wake_one(ptr: *const AtomicU32) {
    unsafe { libc::syscall(libc::SYS_futex, ptr as *mut u32, libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, 1u32) };
}

pub fn wake_all(ptr: *const AtomicU32) {
    unsafe { libc::syscall(libc::SYS_futex, ptr as *mut u32, libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, i32::MAX as u32) };
}
