//! Callbacks of LLVM's coverage instrumentation (used by the guided input search only; this crate
//! itself is not instrumented).  One search thread per process.
use std::arch::naked_asm;
const BITS: usize = 22;
static mut ON: bool = false;
static mut SEEN: [u8; 1 << BITS] = [0; 1 << BITS];
static mut NEW: u32 = 0;
static mut TOTAL: u64 = 0;
const NG: usize = 1 << 16;
static mut NGUARD: u32 = 0;
static mut COUNT: [u32; NG] = [0; NG];
static mut TOUCHED: [u32; NG] = [0; NG];
static mut NT: usize = 0;

#[inline(always)]
unsafe fn feature(k: u64) {
    let i = (k.wrapping_mul(0x9E3779B97F4A7C15) >> (64 - BITS)) as usize;
    if SEEN[i] == 0 { SEEN[i] = 1; NEW += 1; TOTAL += 1; }
}
/// record from here to `stop`
pub fn start() { unsafe { ON = true; } }
pub fn stop() { unsafe { ON = false; } }
/// features of the executions since the last call that no execution had before
pub fn fresh() -> u32 {
    unsafe {
        ON = false;
        for k in 0..NT {
            let g = TOUCHED[k] as usize;
            let c = COUNT[g]; COUNT[g] = 0;
            let b = if c < 4 { c } else { 32 - c.leading_zeros() + 2 };
            feature((g as u64) << 8 | b as u64 | 1 << 60);
        }
        NT = 0;
        let n = NEW; NEW = 0; n
    }
}
pub fn total() -> u64 { unsafe { TOTAL } }

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, z: *mut u32) {
    while a < z { if *a == 0 { NGUARD += 1; *a = NGUARD; } a = a.add(1); }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ON { return; }
    let k = *g as usize & (NG - 1);
    if COUNT[k] == 0 { TOUCHED[NT] = k as u32; NT += 1; }
    COUNT[k] += 1;
}
extern "C" fn cmp(a: u64, b: u64, pc: u64) {
    unsafe {
        if !ON { return; }
        let h = (a ^ b).count_ones() as u64;
        feature(pc << 9 | h);
        let d = a.abs_diff(b);
        feature(pc << 9 | 128 | if d < 64 { d } else { 64 + (63 - d.leading_zeros() as u64) });
    }
}
macro_rules! shim { ($n:ident, $a:expr, $b:expr) => {
    #[no_mangle]
    #[unsafe(naked)]
    pub unsafe extern "C" fn $n() { naked_asm!($a, $b, "mov rdx, [rsp]", "jmp {h}", h = sym cmp) }
} }
shim!(__sanitizer_cov_trace_cmp1, "movzx edi, dil", "movzx esi, sil");
shim!(__sanitizer_cov_trace_cmp2, "movzx edi, di", "movzx esi, si");
shim!(__sanitizer_cov_trace_cmp4, "mov edi, edi", "mov esi, esi");
shim!(__sanitizer_cov_trace_cmp8, "nop", "nop");
shim!(__sanitizer_cov_trace_const_cmp1, "movzx edi, dil", "movzx esi, sil");
shim!(__sanitizer_cov_trace_const_cmp2, "movzx edi, di", "movzx esi, si");
shim!(__sanitizer_cov_trace_const_cmp4, "mov edi, edi", "mov esi, esi");
shim!(__sanitizer_cov_trace_const_cmp8, "nop", "nop");
/// `v` is: number of cases, width, the cases
extern "C" fn switch(x: u64, v: *const u64, pc: u64) {
    unsafe {
        if !ON { return; }
        let n = (*v).min(64);
        for k in 0..n { let h = (x ^ *v.add(2 + k as usize)).count_ones() as u64; feature(pc << 16 | 1 << 56 | k << 7 | h); }
    }
}
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch() { naked_asm!("mov rdx, [rsp]", "jmp {h}", h = sym switch) }
