//! Entry points the compiler's instrumentation calls.  Two families: the access
//! instrumentation (`__gsim_*`, all widths, atomics look like plain accesses) and
//! the thread instrumentation (`__tsan_*`, up to 16 bytes, atomics told apart).
use crate::mem::access;
use crate::sync::*;
use core::arch::naked_asm;

unsafe extern "C" fn r1(a: usize, site: usize) { access::<false>(a, 1, site) }
unsafe extern "C" fn r2(a: usize, site: usize) { access::<false>(a, 2, site) }
unsafe extern "C" fn r4(a: usize, site: usize) { access::<false>(a, 4, site) }
unsafe extern "C" fn r8(a: usize, site: usize) { access::<false>(a, 8, site) }
unsafe extern "C" fn r16(a: usize, site: usize) { access::<false>(a, 16, site) }
unsafe extern "C" fn rn(a: usize, n: usize, site: usize) { if n > 0 { access::<false>(a, n, site) } }
unsafe extern "C" fn w1(a: usize, site: usize) { access::<true>(a, 1, site) }
unsafe extern "C" fn w2(a: usize, site: usize) { access::<true>(a, 2, site) }
unsafe extern "C" fn w4(a: usize, site: usize) { access::<true>(a, 4, site) }
unsafe extern "C" fn w8(a: usize, site: usize) { access::<true>(a, 8, site) }
unsafe extern "C" fn w16(a: usize, site: usize) { access::<true>(a, 16, site) }
unsafe extern "C" fn wn(a: usize, n: usize, site: usize) { if n > 0 { access::<true>(a, n, site) } }
unsafe extern "C" fn cpy(d: *mut u8, s: *const u8, n: usize, site: usize) -> *mut u8 {
    if n > 0 { access::<false>(s as usize, n, site); access::<true>(d as usize, n, site); }
    core::ptr::copy(s, d, n);
    d
}
unsafe extern "C" fn set(d: *mut u8, c: i32, n: usize, site: usize) -> *mut u8 {
    if n > 0 { access::<true>(d as usize, n, site); }
    core::ptr::write_bytes(d, c as u8, n);
    d
}
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __gsim_load1() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r1) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __gsim_load2() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r2) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __gsim_load4() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r4) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __gsim_load8() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r8) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __gsim_load16() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r16) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __gsim_loadN() { naked_asm!("mov rdx, [rsp]", "jmp {}", sym rn) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __gsim_store1() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w1) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __gsim_store2() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w2) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __gsim_store4() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w4) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __gsim_store8() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w8) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __gsim_store16() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w16) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __gsim_storeN() { naked_asm!("mov rdx, [rsp]", "jmp {}", sym wn) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __gsim_memcpy() { naked_asm!("mov rcx, [rsp]", "jmp {}", sym cpy) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_memcpy() { naked_asm!("mov rcx, [rsp]", "jmp {}", sym cpy) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __gsim_memmove() { naked_asm!("mov rcx, [rsp]", "jmp {}", sym cpy) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_memmove() { naked_asm!("mov rcx, [rsp]", "jmp {}", sym cpy) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __gsim_memset() { naked_asm!("mov rcx, [rsp]", "jmp {}", sym set) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_memset() { naked_asm!("mov rcx, [rsp]", "jmp {}", sym set) }
#[no_mangle]
pub extern "C" fn __asan_handle_no_return() {}
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_read1() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r1) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_volatile_read1() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r1) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_read2() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r2) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_volatile_read2() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r2) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_unaligned_read2() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r2) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_unaligned_volatile_read2() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r2) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_read4() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r4) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_volatile_read4() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r4) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_unaligned_read4() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r4) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_unaligned_volatile_read4() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r4) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_read8() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r8) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_volatile_read8() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r8) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_unaligned_read8() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r8) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_unaligned_volatile_read8() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r8) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_read16() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r16) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_volatile_read16() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r16) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_unaligned_read16() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r16) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_unaligned_volatile_read16() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym r16) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_read_range() { naked_asm!("mov rdx, [rsp]", "jmp {}", sym rn) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_write1() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w1) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_volatile_write1() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w1) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_write2() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w2) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_volatile_write2() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w2) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_unaligned_write2() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w2) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_unaligned_volatile_write2() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w2) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_write4() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w4) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_volatile_write4() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w4) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_unaligned_write4() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w4) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_unaligned_volatile_write4() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w4) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_write8() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w8) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_volatile_write8() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w8) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_unaligned_write8() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w8) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_unaligned_volatile_write8() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w8) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_write16() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w16) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_volatile_write16() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w16) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_unaligned_write16() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w16) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_unaligned_volatile_write16() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym w16) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_write_range() { naked_asm!("mov rdx, [rsp]", "jmp {}", sym wn) }
unsafe extern "C" fn rw1(a: usize, site: usize) { access::<false>(a, 1, site); access::<true>(a, 1, site) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_read_write1() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym rw1) }
unsafe extern "C" fn rw2(a: usize, site: usize) { access::<false>(a, 2, site); access::<true>(a, 2, site) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_read_write2() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym rw2) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_unaligned_read_write2() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym rw2) }
unsafe extern "C" fn rw4(a: usize, site: usize) { access::<false>(a, 4, site); access::<true>(a, 4, site) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_read_write4() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym rw4) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_unaligned_read_write4() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym rw4) }
unsafe extern "C" fn rw8(a: usize, site: usize) { access::<false>(a, 8, site); access::<true>(a, 8, site) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_read_write8() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym rw8) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_unaligned_read_write8() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym rw8) }
unsafe extern "C" fn rw16(a: usize, site: usize) { access::<false>(a, 16, site); access::<true>(a, 16, site) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_read_write16() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym rw16) }
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_unaligned_read_write16() { naked_asm!("mov rsi, [rsp]", "jmp {}", sym rw16) }
#[no_mangle] pub extern "C" fn __tsan_init() {}
#[no_mangle] pub extern "C" fn __tsan_func_entry(_pc: usize) {}
#[no_mangle] pub extern "C" fn __tsan_func_exit() {}
#[no_mangle] pub unsafe extern "C" fn __tsan_vptr_update(_a: *mut usize, _v: usize) {}
#[no_mangle] pub unsafe extern "C" fn __tsan_vptr_read(_a: *mut usize) {}
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic_thread_fence(mo: i32) { fence(mo) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {}

#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_load(a: *const u8, mo: i32) -> u8 { before(a as usize, mo, Op::Load); let v = a.read_volatile(); after_tsan(a as usize, mo, Op::Load); v }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_store(a: *mut u8, v: u8, mo: i32) { before(a as usize, mo, Op::Store); a.write_volatile(v); after_tsan(a as usize, mo, Op::Store); }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_exchange(a: *mut u8, v: u8, mo: i32) -> u8 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(v); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_fetch_add(a: *mut u8, v: u8, mo: i32) -> u8 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old.wrapping_add(v)); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_fetch_sub(a: *mut u8, v: u8, mo: i32) -> u8 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old.wrapping_sub(v)); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_fetch_and(a: *mut u8, v: u8, mo: i32) -> u8 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old & v); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_fetch_or(a: *mut u8, v: u8, mo: i32) -> u8 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old | v); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_fetch_xor(a: *mut u8, v: u8, mo: i32) -> u8 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old ^ v); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_fetch_nand(a: *mut u8, v: u8, mo: i32) -> u8 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(!(old & v)); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_compare_exchange_strong(a: *mut u8, c: *mut u8, v: u8, mo: i32, fmo: i32) -> i32 {
    before(a as usize, mo, Op::Rmw);
    let old = a.read_volatile();
    if old == *c { a.write_volatile(v); after_tsan(a as usize, mo, Op::Rmw); 1 } else { *c = old; after_tsan(a as usize, fmo, Op::Load); 0 }
}
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_compare_exchange_weak(a: *mut u8, c: *mut u8, v: u8, mo: i32, fmo: i32) -> i32 {
    before(a as usize, mo, Op::Rmw);
    let old = a.read_volatile();
    if old == *c { a.write_volatile(v); after_tsan(a as usize, mo, Op::Rmw); 1 } else { *c = old; after_tsan(a as usize, fmo, Op::Load); 0 }
}
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_compare_exchange_val(a: *mut u8, c: u8, v: u8, mo: i32, fmo: i32) -> u8 {
    before(a as usize, mo, Op::Rmw);
    let old = a.read_volatile();
    if old == c { a.write_volatile(v); after_tsan(a as usize, mo, Op::Rmw); } else { after_tsan(a as usize, fmo, Op::Load); }
    old
}
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_load(a: *const u16, mo: i32) -> u16 { before(a as usize, mo, Op::Load); let v = a.read_volatile(); after_tsan(a as usize, mo, Op::Load); v }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_store(a: *mut u16, v: u16, mo: i32) { before(a as usize, mo, Op::Store); a.write_volatile(v); after_tsan(a as usize, mo, Op::Store); }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_exchange(a: *mut u16, v: u16, mo: i32) -> u16 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(v); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_fetch_add(a: *mut u16, v: u16, mo: i32) -> u16 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old.wrapping_add(v)); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_fetch_sub(a: *mut u16, v: u16, mo: i32) -> u16 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old.wrapping_sub(v)); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_fetch_and(a: *mut u16, v: u16, mo: i32) -> u16 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old & v); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_fetch_or(a: *mut u16, v: u16, mo: i32) -> u16 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old | v); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_fetch_xor(a: *mut u16, v: u16, mo: i32) -> u16 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old ^ v); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_fetch_nand(a: *mut u16, v: u16, mo: i32) -> u16 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(!(old & v)); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_compare_exchange_strong(a: *mut u16, c: *mut u16, v: u16, mo: i32, fmo: i32) -> i32 {
    before(a as usize, mo, Op::Rmw);
    let old = a.read_volatile();
    if old == *c { a.write_volatile(v); after_tsan(a as usize, mo, Op::Rmw); 1 } else { *c = old; after_tsan(a as usize, fmo, Op::Load); 0 }
}
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_compare_exchange_weak(a: *mut u16, c: *mut u16, v: u16, mo: i32, fmo: i32) -> i32 {
    before(a as usize, mo, Op::Rmw);
    let old = a.read_volatile();
    if old == *c { a.write_volatile(v); after_tsan(a as usize, mo, Op::Rmw); 1 } else { *c = old; after_tsan(a as usize, fmo, Op::Load); 0 }
}
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_compare_exchange_val(a: *mut u16, c: u16, v: u16, mo: i32, fmo: i32) -> u16 {
    before(a as usize, mo, Op::Rmw);
    let old = a.read_volatile();
    if old == c { a.write_volatile(v); after_tsan(a as usize, mo, Op::Rmw); } else { after_tsan(a as usize, fmo, Op::Load); }
    old
}
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_load(a: *const u32, mo: i32) -> u32 { before(a as usize, mo, Op::Load); let v = a.read_volatile(); after_tsan(a as usize, mo, Op::Load); v }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_store(a: *mut u32, v: u32, mo: i32) { before(a as usize, mo, Op::Store); a.write_volatile(v); after_tsan(a as usize, mo, Op::Store); }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_exchange(a: *mut u32, v: u32, mo: i32) -> u32 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(v); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_fetch_add(a: *mut u32, v: u32, mo: i32) -> u32 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old.wrapping_add(v)); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_fetch_sub(a: *mut u32, v: u32, mo: i32) -> u32 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old.wrapping_sub(v)); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_fetch_and(a: *mut u32, v: u32, mo: i32) -> u32 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old & v); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_fetch_or(a: *mut u32, v: u32, mo: i32) -> u32 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old | v); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_fetch_xor(a: *mut u32, v: u32, mo: i32) -> u32 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old ^ v); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_fetch_nand(a: *mut u32, v: u32, mo: i32) -> u32 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(!(old & v)); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_compare_exchange_strong(a: *mut u32, c: *mut u32, v: u32, mo: i32, fmo: i32) -> i32 {
    before(a as usize, mo, Op::Rmw);
    let old = a.read_volatile();
    if old == *c { a.write_volatile(v); after_tsan(a as usize, mo, Op::Rmw); 1 } else { *c = old; after_tsan(a as usize, fmo, Op::Load); 0 }
}
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_compare_exchange_weak(a: *mut u32, c: *mut u32, v: u32, mo: i32, fmo: i32) -> i32 {
    before(a as usize, mo, Op::Rmw);
    let old = a.read_volatile();
    if old == *c { a.write_volatile(v); after_tsan(a as usize, mo, Op::Rmw); 1 } else { *c = old; after_tsan(a as usize, fmo, Op::Load); 0 }
}
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_compare_exchange_val(a: *mut u32, c: u32, v: u32, mo: i32, fmo: i32) -> u32 {
    before(a as usize, mo, Op::Rmw);
    let old = a.read_volatile();
    if old == c { a.write_volatile(v); after_tsan(a as usize, mo, Op::Rmw); } else { after_tsan(a as usize, fmo, Op::Load); }
    old
}
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_load(a: *const u64, mo: i32) -> u64 { before(a as usize, mo, Op::Load); let v = a.read_volatile(); after_tsan(a as usize, mo, Op::Load); v }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_store(a: *mut u64, v: u64, mo: i32) { before(a as usize, mo, Op::Store); a.write_volatile(v); after_tsan(a as usize, mo, Op::Store); }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_exchange(a: *mut u64, v: u64, mo: i32) -> u64 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(v); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_fetch_add(a: *mut u64, v: u64, mo: i32) -> u64 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old.wrapping_add(v)); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_fetch_sub(a: *mut u64, v: u64, mo: i32) -> u64 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old.wrapping_sub(v)); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_fetch_and(a: *mut u64, v: u64, mo: i32) -> u64 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old & v); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_fetch_or(a: *mut u64, v: u64, mo: i32) -> u64 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old | v); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_fetch_xor(a: *mut u64, v: u64, mo: i32) -> u64 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old ^ v); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_fetch_nand(a: *mut u64, v: u64, mo: i32) -> u64 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(!(old & v)); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_compare_exchange_strong(a: *mut u64, c: *mut u64, v: u64, mo: i32, fmo: i32) -> i32 {
    before(a as usize, mo, Op::Rmw);
    let old = a.read_volatile();
    if old == *c { a.write_volatile(v); after_tsan(a as usize, mo, Op::Rmw); 1 } else { *c = old; after_tsan(a as usize, fmo, Op::Load); 0 }
}
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_compare_exchange_weak(a: *mut u64, c: *mut u64, v: u64, mo: i32, fmo: i32) -> i32 {
    before(a as usize, mo, Op::Rmw);
    let old = a.read_volatile();
    if old == *c { a.write_volatile(v); after_tsan(a as usize, mo, Op::Rmw); 1 } else { *c = old; after_tsan(a as usize, fmo, Op::Load); 0 }
}
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_compare_exchange_val(a: *mut u64, c: u64, v: u64, mo: i32, fmo: i32) -> u64 {
    before(a as usize, mo, Op::Rmw);
    let old = a.read_volatile();
    if old == c { a.write_volatile(v); after_tsan(a as usize, mo, Op::Rmw); } else { after_tsan(a as usize, fmo, Op::Load); }
    old
}
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic128_load(a: *const u128, mo: i32) -> u128 { before(a as usize, mo, Op::Load); let v = a.read_volatile(); after_tsan(a as usize, mo, Op::Load); v }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic128_store(a: *mut u128, v: u128, mo: i32) { before(a as usize, mo, Op::Store); a.write_volatile(v); after_tsan(a as usize, mo, Op::Store); }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic128_exchange(a: *mut u128, v: u128, mo: i32) -> u128 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(v); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic128_fetch_add(a: *mut u128, v: u128, mo: i32) -> u128 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old.wrapping_add(v)); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic128_fetch_sub(a: *mut u128, v: u128, mo: i32) -> u128 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old.wrapping_sub(v)); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic128_fetch_and(a: *mut u128, v: u128, mo: i32) -> u128 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old & v); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic128_fetch_or(a: *mut u128, v: u128, mo: i32) -> u128 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old | v); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic128_fetch_xor(a: *mut u128, v: u128, mo: i32) -> u128 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(old ^ v); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic128_fetch_nand(a: *mut u128, v: u128, mo: i32) -> u128 { before(a as usize, mo, Op::Rmw); let old = a.read_volatile(); a.write_volatile(!(old & v)); after_tsan(a as usize, mo, Op::Rmw); old }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic128_compare_exchange_strong(a: *mut u128, c: *mut u128, v: u128, mo: i32, fmo: i32) -> i32 {
    before(a as usize, mo, Op::Rmw);
    let old = a.read_volatile();
    if old == *c { a.write_volatile(v); after_tsan(a as usize, mo, Op::Rmw); 1 } else { *c = old; after_tsan(a as usize, fmo, Op::Load); 0 }
}
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic128_compare_exchange_weak(a: *mut u128, c: *mut u128, v: u128, mo: i32, fmo: i32) -> i32 {
    before(a as usize, mo, Op::Rmw);
    let old = a.read_volatile();
    if old == *c { a.write_volatile(v); after_tsan(a as usize, mo, Op::Rmw); 1 } else { *c = old; after_tsan(a as usize, fmo, Op::Load); 0 }
}
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic128_compare_exchange_val(a: *mut u128, c: u128, v: u128, mo: i32, fmo: i32) -> u128 {
    before(a as usize, mo, Op::Rmw);
    let old = a.read_volatile();
    if old == c { a.write_volatile(v); after_tsan(a as usize, mo, Op::Rmw); } else { after_tsan(a as usize, fmo, Op::Load); }
    old
}
