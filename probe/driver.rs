//! Freestanding driver for replays: reads records from standard input, calls the probe natively, prints results.
//! record: u32 probe, u32 ilen, u32 olen, u32 plen, u32 poff, u32 fill, u64 n, i bytes, p bytes.
//! answer: u8 1, u8 canaries intact, u64 ret, u32 emitted length, emitted, o bytes, p bytes.   On a panic: u8 2, and the program ends.
use super::*;
use core::arch::{asm, global_asm};

#[cfg(target_arch = "x86_64")]
unsafe fn sys(nr: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") nr as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, out("rcx") _, out("r11") _);
    r
}
#[cfg(target_arch = "x86")]
unsafe fn sys(nr: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    asm!("int 0x80", inlateout("eax") nr as isize => r, in("ebx") a, in("ecx") b, in("edx") c);
    r
}
#[cfg(target_arch = "aarch64")]
unsafe fn sys(nr: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    asm!("svc 0", in("x8") nr, inlateout("x0") a as isize => r, in("x1") b, in("x2") c);
    r
}
#[cfg(target_arch = "arm")]
unsafe fn sys(nr: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    asm!("push {{r7}}", "mov r7, {nr}", "svc 0", "pop {{r7}}", nr = in(reg) nr, inlateout("r0") a as isize => r, in("r1") b, in("r2") c);
    r
}
#[cfg(any(target_arch = "riscv32", target_arch = "riscv64"))]
unsafe fn sys(nr: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    asm!("ecall", in("a7") nr, inlateout("a0") a as isize => r, in("a1") b, in("a2") c);
    r
}
#[cfg(target_arch = "x86_64")]
const NR: [usize; 4] = [0, 1, 60, 10];
#[cfg(any(target_arch = "x86", target_arch = "arm"))]
const NR: [usize; 4] = [3, 4, 1, 125];
#[cfg(not(any(target_arch = "x86_64", target_arch = "x86", target_arch = "arm")))]
const NR: [usize; 4] = [63, 64, 93, 226];

#[cfg(target_arch = "x86_64")]
global_asm!(".globl _start", "_start:", "xor ebp, ebp", "and rsp, -64", "call verif_main");
#[cfg(target_arch = "x86")]
global_asm!(".globl _start", "_start:", "xor ebp, ebp", "and esp, -64", "call verif_main");
#[cfg(target_arch = "aarch64")]
global_asm!(".globl _start", "_start:", "bl verif_main");
#[cfg(target_arch = "arm")]
global_asm!(".arm", ".globl _start", "_start:", "bic sp, sp, #63", "bl verif_main");
#[cfg(any(target_arch = "riscv32", target_arch = "riscv64"))]
global_asm!(".globl _start", "_start:", ".option push", ".option norelax", "la gp, __global_pointer$", ".option pop", "andi sp, sp, -64", "call verif_main");

unsafe fn write_all(mut p: *const u8, mut n: usize) {
    while n > 0 {
        let r = sys(NR[1], 1, p as usize, n);
        if r <= 0 {
            exit(3)
        }
        p = p.add(r as usize);
        n -= r as usize;
    }
}
fn exit(c: usize) -> ! {
    unsafe {
        sys(NR[2], c, 0, 0);
    }
    loop {}
}
unsafe fn read_all(mut p: *mut u8, mut n: usize) -> bool {
    while n > 0 {
        let r = sys(NR[0], 0, p as usize, n);
        if r <= 0 {
            return false;
        }
        p = p.add(r as usize);
        n -= r as usize;
    }
    true
}

const CAP: usize = 1 << 21;
#[repr(align(64))]
struct Buf([u8; CAP + 256]);
static mut EMIT: Buf = Buf([0; CAP + 256]);
static mut EMITTED: usize = 0;
static mut IN: Buf = Buf([0; CAP + 256]);
static mut OUT: Buf = Buf([0; CAP + 256]);
static mut SLICE: Buf = Buf([0; CAP + 256]);
/// readable memory followed by memory that is not; poff = GUARD places the slice at the end of the first half
#[repr(align(65536))]
struct Guarded([u8; CAP], [u8; 65536]);
static mut EDGE: Guarded = Guarded([0; CAP], [0; 65536]);
const GUARD: usize = 1 << 22;

pub unsafe fn emit(p: *const u8, n: usize) {
    let e = &raw mut EMIT.0 as *mut u8;
    let mut k = 0;
    while k < n && EMITTED < CAP {
        *e.add(EMITTED) = *p.add(k);
        EMITTED += 1;
        k += 1;
    }
}

unsafe fn probe(mut k: usize) -> Option<Probe> {
    for t in [clone_1::T, clone_2::T, clone_4::T, conv::T, c16::T, c24::T, c32::T] {
        if k < t.len() {
            return Some(t[k].f);
        }
        k -= t.len();
    }
    None
}

#[no_mangle]
unsafe extern "C" fn verif_main() -> ! {
    if sys(NR[3], &raw mut EDGE.1 as usize, 65536, 0) != 0 {
        exit(5)
    }
    loop {
        let mut h = [0u32; 8];
        if !read_all(&raw mut h as *mut u8, 32) {
            exit(0)
        }
        for w in &mut h {
            *w = u32::from_le(*w);
        }
        let (il, ol, pl, po, fill) = (h[1] as usize, h[2] as usize, h[3] as usize, h[4] as usize, h[5] as u8);
        let n = h[6] as usize | ((h[7] as u64) << 32) as usize;
        let (i, o, s) = (&raw mut IN.0 as *mut u8, &raw mut OUT.0 as *mut u8, &raw mut SLICE.0 as *mut u8);
        let mut k = 0;
        while k < ol + 128 || k < pl + 128 + 64 {
            *o.add(k) = fill;
            *s.add(k) = fill;
            k += 1;
        }
        let edge = po == GUARD && pl + 64 <= CAP;
        let (o, s) = (o.add(64), if edge { (&raw mut EDGE.1 as *mut u8).sub(pl) } else { s.add(64 + po) });
        k = 1;
        while edge && k <= 64 {
            *s.sub(k) = fill;
            k += 1;
        }
        if !read_all(i, il) || !read_all(s, pl) {
            exit(3)
        }
        EMITTED = 0;
        let f = match probe(h[0] as usize) {
            Some(f) => f,
            None => exit(4),
        };
        let r = f(i, o, s, n) as u64;
        let mut ok = 1u8;
        k = 1;
        while k <= 64 {
            if *o.sub(k) != fill || *o.add(ol + k - 1) != fill || !edge && *s.add(pl + k - 1) != fill || (k <= 64 && *s.sub(k) != fill) {
                ok = 0
            }
            k += 1;
        }
        let a = [1u8, ok];
        write_all(a.as_ptr(), 2);
        let r = r.to_le_bytes();
        write_all(r.as_ptr(), 8);
        let e = (EMITTED as u32).to_le_bytes();
        write_all(e.as_ptr(), 4);
        write_all(&raw const EMIT.0 as *const u8, EMITTED);
        write_all(o, ol);
        write_all(s, pl);
    }
}

#[panic_handler]
fn panic(i: &core::panic::PanicInfo) -> ! {
    struct E;
    impl Write for E {
        fn write_str(&mut self, s: &str) -> core::fmt::Result {
            unsafe { sys(NR[1], 2, s.as_ptr() as usize, s.len()) };
            Ok(())
        }
    }
    let b = 2u8;
    unsafe { write_all(&b, 1) };
    let _ = writeln!(E, "{}", i);
    exit(101)
}

#[no_mangle]
unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    let mut k = 0;
    while k < n {
        d.add(k).write_volatile(s.add(k).read_volatile());
        k += 1;
    }
    d
}
#[no_mangle]
unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if (d as usize) < (s as usize) {
        return memcpy(d, s, n);
    }
    let mut k = n;
    while k > 0 {
        k -= 1;
        d.add(k).write_volatile(s.add(k).read_volatile());
    }
    d
}
#[no_mangle]
unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    let mut k = 0;
    while k < n {
        d.add(k).write_volatile(c as u8);
        k += 1;
    }
    d
}
#[no_mangle]
unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    let mut k = 0;
    while k < n {
        let (x, y) = (a.add(k).read_volatile(), b.add(k).read_volatile());
        if x != y {
            return x as i32 - y as i32;
        }
        k += 1;
    }
    0
}
#[no_mangle]
unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    memcmp(a, b, n)
}
#[cfg(target_arch = "arm")]
mod aeabi {
    #[no_mangle]
    unsafe extern "C" fn __aeabi_memcpy(d: *mut u8, s: *const u8, n: usize) { super::memcpy(d, s, n); }
    #[no_mangle]
    unsafe extern "C" fn __aeabi_memcpy4(d: *mut u8, s: *const u8, n: usize) { super::memcpy(d, s, n); }
    #[no_mangle]
    unsafe extern "C" fn __aeabi_memcpy8(d: *mut u8, s: *const u8, n: usize) { super::memcpy(d, s, n); }
    #[no_mangle]
    unsafe extern "C" fn __aeabi_memmove(d: *mut u8, s: *const u8, n: usize) { super::memmove(d, s, n); }
    #[no_mangle]
    unsafe extern "C" fn __aeabi_memmove4(d: *mut u8, s: *const u8, n: usize) { super::memmove(d, s, n); }
    #[no_mangle]
    unsafe extern "C" fn __aeabi_memset(d: *mut u8, n: usize, c: i32) { super::memset(d, c, n); }
    #[no_mangle]
    unsafe extern "C" fn __aeabi_memset4(d: *mut u8, n: usize, c: i32) { super::memset(d, c, n); }
    #[no_mangle]
    unsafe extern "C" fn __aeabi_memset8(d: *mut u8, n: usize, c: i32) { super::memset(d, c, n); }
    #[no_mangle]
    unsafe extern "C" fn __aeabi_memclr(d: *mut u8, n: usize) { super::memset(d, 0, n); }
    #[no_mangle]
    unsafe extern "C" fn __aeabi_memclr4(d: *mut u8, n: usize) { super::memset(d, 0, n); }
    #[no_mangle]
    unsafe extern "C" fn __aeabi_memclr8(d: *mut u8, n: usize) { super::memset(d, 0, n); }
    #[no_mangle]
    extern "C" fn __aeabi_unwind_cpp_pr0() {}
    #[no_mangle]
    extern "C" fn __aeabi_unwind_cpp_pr1() {}
    #[no_mangle]
    extern "C" fn __aeabi_uidivmod(n: u32, d: u32) -> u64 {
        let (mut q, mut r) = (0u32, 0u32);
        let mut k = 32;
        while k > 0 {
            k -= 1;
            r = r << 1 | n >> k & 1;
            q <<= 1;
            if r >= d {
                r -= d;
                q |= 1;
            }
        }
        q as u64 | (r as u64) << 32
    }
    #[no_mangle]
    extern "C" fn __aeabi_uidiv(n: u32, d: u32) -> u32 { __aeabi_uidivmod(n, d) as u32 }
}
