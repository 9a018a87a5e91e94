//! Kani harnesses for code Verus cannot take: intrinsics.
#![allow(unused)]
use compact_thrift_runtime::*;
#[path = "../../../repo/runtime/src/uleb.rs"]
mod uleb;

/// contract assumed by the Verus unit for `skip_uleb_sse2`: every content of the loaded chunk; the length only
/// determines the end of the returned slice
#[cfg(kani)]
#[kani::proof]
#[kani::unwind(18)]
fn sse2() {
    let buf: [u8; 20] = kani::any();
    let n: usize = kani::any();
    kani::assume(n >= 16 && n <= 20);
    let s = &buf[..n];
    let r = unsafe { uleb::skip_uleb_sse2(s) };
    let mut i = 0;
    while i < 16 && buf[i] & 0x80 != 0 { i += 1; }
    let want = if i < 16 { i + 1 } else { 16 };
    assert!(r.len() == n - want);
    assert!(r.as_ptr() == s[want..].as_ptr());
    kani::cover!(want == 16 && i == 16);
    kani::cover!(want == 1);
}
