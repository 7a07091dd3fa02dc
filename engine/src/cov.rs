//! What the instrumented build (tools/rustc-cov.sh) reports: counters of the code executed, and
//! the operands of the comparisons made. In an ordinary build nothing calls this.

use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static START: AtomicUsize = AtomicUsize::new(0);
static STOP: AtomicUsize = AtomicUsize::new(0);

const BITS: usize = 1 << 16;
// Cases that run several threads may lose a note to each other; nothing else depends on it.
static mut SEEN: [u8; BITS] = [0; BITS];
static mut LIST: [u32; BITS] = [0; BITS];
static COUNT: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    START.store(start as usize, Relaxed);
    STOP.store(stop as usize, Relaxed);
}

// The comparisons are told apart by the address they are reported from.
#[cfg(target_arch = "x86_64")]
std::arch::global_asm!(
    ".globl __sanitizer_cov_trace_cmp1, __sanitizer_cov_trace_cmp2, __sanitizer_cov_trace_cmp4, __sanitizer_cov_trace_cmp8",
    ".globl __sanitizer_cov_trace_const_cmp1, __sanitizer_cov_trace_const_cmp2, __sanitizer_cov_trace_const_cmp4, __sanitizer_cov_trace_const_cmp8",
    ".globl __sanitizer_cov_trace_switch",
    "__sanitizer_cov_trace_cmp1: __sanitizer_cov_trace_const_cmp1:",
    "movzx edi, dil",
    "movzx esi, sil",
    "jmp 2f",
    "__sanitizer_cov_trace_cmp2: __sanitizer_cov_trace_const_cmp2:",
    "movzx edi, di",
    "movzx esi, si",
    "jmp 2f",
    "__sanitizer_cov_trace_cmp4: __sanitizer_cov_trace_const_cmp4:",
    "mov edi, edi",
    "mov esi, esi",
    "__sanitizer_cov_trace_cmp8: __sanitizer_cov_trace_const_cmp8:",
    "2:",
    "mov rdx, [rsp]",
    "jmp {compared}",
    "__sanitizer_cov_trace_switch:",
    "mov rdx, [rsp]",
    "jmp {switched}",
    compared = sym compared,
    switched = sym switched,
);

/// How close the operands of a comparison are, as two features of its place.
extern "C" fn compared(a: u64, b: u64, place: usize) {
    let near = 64 - (a ^ b).count_ones() as usize;
    let log = a.abs_diff(b).leading_zeros() as usize;
    for (k, v) in [near, log + 65].into_iter().enumerate() {
        let i = (place.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40).wrapping_add(v * 131 + k) % BITS;
        unsafe {
            if SEEN[i] == 0 {
                SEEN[i] = 1;
                let n = COUNT.fetch_add(1, Relaxed);
                if n < BITS {
                    LIST[n] = i as u32;
                }
            }
        }
    }
}

extern "C" fn switched(value: u64, cases: *const u64, place: usize) {
    unsafe {
        let n = (*cases).min(64) as usize;
        for i in 0..n {
            compared(value, *cases.add(2 + i), place + 16 * i);
        }
    }
}

fn counters() -> &'static mut [u8] {
    let (a, b) = (START.load(Relaxed), STOP.load(Relaxed));
    if a == 0 || b <= a {
        return &mut [];
    }
    unsafe { std::slice::from_raw_parts_mut(a as *mut u8, b - a) }
}

/// Whether this is an instrumented build.
pub fn present() -> bool {
    !counters().is_empty()
}

pub fn size() -> usize {
    counters().len() * 8 + BITS
}

/// Forgets what was reported so far.
pub fn clear() {
    counters().fill(0);
    let n = COUNT.swap(0, Relaxed).min(BITS);
    unsafe {
        for i in 0..n {
            SEEN[LIST[i] as usize] = 0;
        }
    }
}

/// Calls `f` with each feature of what was reported since.
pub fn features(mut f: impl FnMut(usize)) {
    let c = counters();
    for (i, v) in c.iter().enumerate() {
        if *v != 0 {
            let class = match *v {
                1 => 0,
                2 => 1,
                3 => 2,
                4..=7 => 3,
                8..=15 => 4,
                16..=31 => 5,
                32..=127 => 6,
                _ => 7,
            };
            f(i * 8 + class);
        }
    }
    let base = c.len() * 8;
    let n = COUNT.load(Relaxed).min(BITS);
    for i in 0..n {
        f(base + unsafe { LIST[i] } as usize);
    }
}
