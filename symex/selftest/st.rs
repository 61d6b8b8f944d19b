// Instructions the decoder may be compiled to, on given values: the engine and the processor must agree.
unsafe extern "C" {
    fn sym_arg(i: u64) -> u64;
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_trace(v: u64);
    fn sym_assert(x: bool, id: u64);
}
use core::hint::black_box as bb;
fn t(v: u64) {
    unsafe { sym_trace(v) }
}
#[inline(never)]
fn floats(a: u64, b: u64) {
    let (x, y) = (f64::from_bits(a), f64::from_bits(b));
    let (p, q) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
    for v in [x < y, x <= y, x == y, x != y, x > y, x >= y, x.is_nan(), p < q, p <= q, p == q, p != q, p > q, p.is_nan(), x.is_infinite(), p.is_finite(), x.is_normal(), x.is_subnormal(), p.is_sign_negative()] {
        t(v as u64)
    }
    t((p as f64).to_bits());
    t((x as f32).to_bits() as u64);
    t(((x as f32) as f64).to_bits());
    t((-x).to_bits());
    t(x.abs().to_bits());
    t(p.abs().to_bits() as u64);
    t(x.copysign(y).to_bits());
    t(x.is_sign_negative() as u64);
    t(matches!(p.classify(), core::num::FpCategory::Subnormal) as u64);
}
#[inline(never)]
fn ints(a: u64, b: u64) {
    let k = b as u32;
    t(a.rotate_left(k));
    t(a.rotate_right(k));
    t((a as u32).rotate_left(k) as u64);
    t((a as u32).rotate_right(k) as u64);
    t((a as u8).rotate_left(k) as u64);
    t((a as i64).saturating_add(b as i64) as u64);
    t((a as i64).saturating_sub(b as i64) as u64);
    t((a as i32).saturating_add(b as i32) as u64);
    t((a as i8).saturating_sub(b as i8) as u64);
    t(a.saturating_sub(b));
    t(a.saturating_add(b));
    t(a.leading_zeros() as u64);
    t(a.trailing_zeros() as u64);
    t(a.count_ones() as u64);
    t((a as u32).leading_zeros() as u64);
    t((a as u16).swap_bytes() as u64);
    t(a.swap_bytes());
    t((a as u8).reverse_bits() as u64);
    t(a.wrapping_shl(k));
    t(a.wrapping_shr(k));
    t((a as i64).wrapping_shr(k) as u64);
    t(a.checked_mul(b).unwrap_or(7));
    t((a as i64).checked_mul(b as i64).unwrap_or(7) as u64);
    t(a.checked_add(b).unwrap_or(7));
    t((a as i32).checked_sub(b as i32).unwrap_or(7) as u64);
    t((a as i64).unsigned_abs());
    t(a.checked_div(b).unwrap_or(7));
    t(a.checked_rem(b).unwrap_or(7));
    t((a as i64).checked_div(b as i64).unwrap_or(7) as u64);
    t((a as i64).checked_rem(b as i64).unwrap_or(7) as u64);
    t((a as i16).rem_euclid(77) as u64);
    t(a.min(b));
    t((a as i64).max(b as i64) as u64);
    t((a as i64).cmp(&(b as i64)) as u64);
    t(a.cmp(&b) as u64);
    t(a.abs_diff(b));
    t(((a as u128) * (b as u128) >> 64) as u64);
    t((a as i8) as i64 as u64);
    t((a as i32) as i64 as u64);
    t(a.midpoint(b));
    t(a.isqrt());
}
/// on concrete values
#[unsafe(no_mangle)]
pub extern "C" fn st() {
    let (a, b) = unsafe { (sym_arg(0), sym_arg(1)) };
    floats(a, b);
    ints(a, b);
}
/// on symbolic values that can only be those: every assertion must be discharged
#[unsafe(no_mangle)]
pub extern "C" fn sy() {
    let mut v = [0u8; 4];
    unsafe { sym_bytes(v.as_mut_ptr(), 4) };
    let w = u32::from_le_bytes(v);
    let x = f32::from_bits(w);
    let c = |b: bool, n: u64| unsafe { sym_assert(b, n) };
    let nan = w & 0x7F80_0000 == 0x7F80_0000 && w & 0x7F_FFFF != 0;
    c(x.is_nan() == nan, 1);
    let d = x as f64;
    c(nan || (d as f32).to_bits() == w, 2);
    c(!nan || (d as f32).to_bits() | 0x40_0000 == w | 0x40_0000, 3);
    c(d.is_nan() == nan, 4);
    c(nan || (x <= 0.0) == (w >> 31 == 1 || w == 0), 5);
    c(w.rotate_left(w & 31).rotate_right(w & 31) == w, 6);
    c((w as i32).saturating_sub(1) < (w as i32) || w as i32 == i32::MIN, 7);
    c(bb(w).leading_zeros() == (w as f64 as f32).to_bits() / 0x1000_0000_u32 || true, 8);
}
