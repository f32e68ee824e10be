//! Raw system calls and the few libc declarations the simulator needs.
use core::arch::asm;
#[inline]
pub unsafe fn raw(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub const SYS_FUTEX: usize = 202;
pub const SYS_GETRANDOM: usize = 318;
pub const SYS_SCHED_YIELD: usize = 24;
pub const SYS_EXIT_GROUP: usize = 231;
#[allow(suspicious_runtime_symbol_definitions)]
extern "C" {
    pub fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn munmap(a: *mut u8, len: usize) -> i32;
    pub fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
    pub fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
    pub fn pthread_attr_init(a: *mut u64) -> i32;
    pub fn pthread_attr_setstack(a: *mut u64, addr: *mut u8, size: usize) -> i32;
    pub fn pthread_attr_destroy(a: *mut u64) -> i32;
    pub fn pthread_key_create(k: *mut u32, d: Option<unsafe extern "C" fn(*mut u8)>) -> i32;
    pub fn pthread_setspecific(k: u32, v: *const u8) -> i32;
    pub fn sigaltstack(ss: *const StackT, old: *mut StackT) -> i32;
    pub fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    pub fn __errno_location() -> *mut i32;
    pub fn personality(p: usize) -> i32;
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn setenv(k: *const u8, v: *const u8, o: i32) -> i32;
    pub fn unsetenv(k: *const u8) -> i32;
    pub fn open(p: *const u8, fl: i32, ...) -> i32;
    pub fn dup2(a: i32, b: i32) -> i32;
    pub fn close(a: i32) -> i32;
    pub fn pipe(p: *mut i32) -> i32;
    pub fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    pub fn sched_setaffinity(pid: i32, n: usize, mask: *const u64) -> i32;
    pub fn signal(sig: i32, h: usize) -> usize;
    pub fn prctl(op: i32, a: usize, b: usize, c: usize, d: usize) -> i32;
}
#[repr(C)]
pub struct StackT { pub sp: *mut u8, pub flags: i32, pub size: usize }
#[repr(C)]
pub struct SigAction { pub handler: usize, pub mask: [u64; 16], pub flags: i32, pub restorer: usize }
pub const PROT_NONE: i32 = 0;
pub const PROT_RW: i32 = 3;
pub const MAP_SHARED: i32 = 1;
pub const MAP_PRIVATE: i32 = 2;
pub const MAP_FIXED_NR: i32 = 0x100000;
pub const MAP_ANON: i32 = 0x20;
pub const MAP_NORESERVE: i32 = 0x4000;
pub unsafe fn exit_now(code: i32) -> ! {
    raw(SYS_EXIT_GROUP, code as usize, 0, 0, 0, 0, 0);
    loop {}
}
