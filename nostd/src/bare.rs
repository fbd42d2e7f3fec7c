//! Entry point, allocator and panic handler for a machine without a standard library. Two system calls report.
#![no_std]
#![no_main]
extern crate alloc;
use core::alloc::{GlobalAlloc, Layout};
use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};

const HEAP_SIZE: usize = 64 << 20;
#[repr(C, align(4096))]
struct Heap(core::cell::UnsafeCell<[u8; HEAP_SIZE]>);
unsafe impl Sync for Heap {}
static HEAP: Heap = Heap(core::cell::UnsafeCell::new([0; HEAP_SIZE]));
static USED: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);

/// Hands out memory in a row; everything is given back when nothing is alive any more.
struct Bump;
unsafe impl GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let base = HEAP.0.get() as usize;
        let at = (base + USED.load(Relaxed) + l.align() - 1) & !(l.align() - 1);
        if l.size() > HEAP_SIZE || at + l.size() > base + HEAP_SIZE {
            return core::ptr::null_mut();
        }
        USED.store(at + l.size() - base, Relaxed);
        LIVE.fetch_add(1, Relaxed);
        at as *mut u8
    }
    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {
        if LIVE.fetch_sub(1, Relaxed) == 1 {
            USED.store(0, Relaxed);
        }
    }
}
#[global_allocator]
static ALLOCATOR: Bump = Bump;

unsafe fn sys(n: usize, a: usize, b: usize, c: usize) -> usize {
    let r;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, out("rcx") _, out("r11") _);
    r
}
fn out(s: &str) {
    unsafe { sys(1, 1, s.as_ptr() as usize, s.len()) };
}
fn exit(code: usize) -> ! {
    unsafe { sys(231, code, 0, 0) };
    loop {}
}

#[panic_handler]
fn panic(i: &core::panic::PanicInfo) -> ! {
    out("PANIC ");
    out(&alloc::format!("{i}\n"));
    exit(101)
}

#[no_mangle]
#[unsafe(naked)]
pub extern "C" fn _start() -> ! {
    core::arch::naked_asm!("mov rdi, rsp", "and rsp, -16", "call {}", "ud2", sym entry)
}

unsafe extern "C" fn entry(stack: *const usize) -> ! {
    let (mut seed, mut cases) = (1u64, 1u64);
    let argc = *stack;
    for i in 1..argc {
        let mut p = *stack.add(1 + i) as *const u8;
        let mut v = 0u64;
        while *p != 0 {
            v = v.wrapping_mul(10).wrapping_add((*p - b'0') as u64);
            p = p.add(1);
        }
        if i == 1 {
            seed = v
        } else {
            cases = v
        }
    }
    for case in 0..cases {
        {
            let mut s = nostd::Seen::default();
            nostd::run_case(seed, case, &mut s);
            if let Some(f) = s.fail {
                out(&alloc::format!("FAIL {case} {f}\n"));
                exit(10);
            }
            out(&nostd::line(case, &s));
        }
        if LIVE.load(Relaxed) != 0 {
            out(&alloc::format!("FAIL {case} {} allocations were never freed\n", LIVE.load(Relaxed)));
            exit(10);
        }
    }
    out("done\n");
    exit(0)
}
