//! The library in a program with neither operating system nor std: `bare SEED JOBS` prints, per job,
//! a digest of its inputs and of its results, and at the end how much stack the deepest job used.
#![cfg_attr(not(feature = "host"), no_std, no_main)]

mod work;

#[cfg(feature = "host")]
fn main() {
    let arg = |i: usize| std::env::args().nth(i).and_then(|v| v.parse::<u64>().ok()).expect("bare SEED JOBS");
    let mut b = Box::new(work::Buffers::new());
    for i in 0..arg(2) as u32 {
        let (x, y) = work::job(arg(1), i, &mut b);
        println!("{:016x} {:016x}", x, y);
    }
}

#[cfg(not(feature = "host"))]
mod bare {
    use crate::work;
    use core::ptr::{addr_of_mut, read_volatile, write_volatile};

    static mut BUFFERS: work::Buffers = work::Buffers::new();

    #[panic_handler]
    fn panic(_: &core::panic::PanicInfo) -> ! {
        stop(101)
    }

    /// Nothing to return to and nothing to report through: for the targets this is only linked for
    #[cfg(not(target_arch = "x86_64"))]
    fn stop(_: i32) -> ! {
        loop {}
    }

    #[cfg(not(target_arch = "x86_64"))]
    #[no_mangle]
    extern "C" fn _start() -> ! {
        let b = unsafe { &mut *addr_of_mut!(BUFFERS) };
        let mut sink = 0;
        for i in 0.. {
            let r = work::job(unsafe { read_volatile(&sink) }, i, b);
            unsafe { write_volatile(&mut sink, r.0 ^ r.1) };
        }
        stop(0)
    }

    #[cfg(target_arch = "x86_64")]
    core::arch::global_asm!(".globl _start", "_start:", "xor ebp, ebp", "mov rdi, rsp", "and rsp, -16", "call entry", "ud2");

    #[cfg(target_arch = "x86_64")]
    fn stop(code: i32) -> ! {
        unsafe { core::arch::asm!("syscall", in("rax") 60, in("rdi") code, options(noreturn)) }
    }

    #[cfg(target_arch = "x86_64")]
    fn put(s: &[u8]) {
        unsafe {
            core::arch::asm!("syscall", inlateout("rax") 1usize => _, in("rdi") 1, in("rsi") s.as_ptr(), in("rdx") s.len(), out("rcx") _, out("r11") _)
        }
    }

    #[cfg(target_arch = "x86_64")]
    unsafe fn number(mut p: *const u8) -> u64 {
        let mut n = 0u64;
        while *p != 0 {
            n = n * 10 + u64::from(*p - b'0');
            p = p.add(1);
        }
        n
    }

    #[cfg(target_arch = "x86_64")]
    fn hex(n: u64, out: &mut [u8]) {
        for (k, c) in out.iter_mut().enumerate() {
            *c = b"0123456789abcdef"[(n >> (60 - 4 * k)) as usize & 15];
        }
    }

    /// How far below the caller's frame the stack is painted
    #[cfg(target_arch = "x86_64")]
    const PAINT: usize = 4 << 20;

    #[cfg(target_arch = "x86_64")]
    #[inline(never)]
    fn work_in_place(seed: u64, i: u32, line: &mut [u8; 34]) {
        let b = unsafe { &mut *addr_of_mut!(BUFFERS) };
        let (x, y) = work::job(seed, i, b);
        hex(x, &mut line[..16]);
        hex(y, &mut line[17..33]);
    }

    #[cfg(target_arch = "x86_64")]
    #[no_mangle]
    extern "C" fn entry(stack: *const *const u8) -> ! {
        unsafe {
            if (stack as *const usize).read() != 3 {
                stop(2);
            }
            let (seed, jobs) = (number(*stack.add(2)), number(*stack.add(3)));
            let mut line = [b' '; 34];
            line[33] = b'\n';
            let here = line.as_ptr() as usize & !63;
            let (low, high) = (here - PAINT, here - 1024);
            let mut at = low;
            while at < high {
                write_volatile(at as *mut u64, 0x5a5a_5a5a_5a5a_5a5a);
                at += 8;
            }
            for i in 0..jobs as u32 {
                work_in_place(seed, i, &mut line);
                put(&line);
            }
            at = low;
            while at < high && read_volatile(at as *const u64) == 0x5a5a_5a5a_5a5a_5a5a {
                at += 8;
            }
            let mut text = [0u8; 16];
            hex((here - at) as u64, &mut text);
            put(b"stack ");
            put(&text);
            put(b"\n");
            stop(0)
        }
    }
}
