//! C entry points into the code under test (i_*) and the reference (s_*), so
//! that both end up in one LLVM module.  Every function returns the length of
//! the result and stores its first `cap` bytes; s_* return usize::MAX when the
//! call has to panic.
#![allow(clippy::missing_safety_doc)]
mod spec;
unsafe fn v(p: *const u8, l: usize) -> Vec<u8> { std::slice::from_raw_parts(p, l).to_vec() }
unsafe fn o(r: Vec<u8>, out: *mut u8, cap: usize) -> usize { let n = if r.len() < cap { r.len() } else { cap }; std::ptr::copy_nonoverlapping(r.as_ptr(), out, n); r.len() }
unsafe fn w(r: [u8; 32], out: *mut u8, cap: usize) -> usize { for i in 0..32 { if i < cap { *out.add(i) = r[i]; } } 32 }

#[no_mangle] pub unsafe extern "C" fn i_re(p: *const u8, l: usize, out: *mut u8, cap: usize) -> usize { o(lyra2::lyra2re::sum(v(p, l)), out, cap) }
#[no_mangle] pub unsafe extern "C" fn i_rev2(p: *const u8, l: usize, out: *mut u8, cap: usize) -> usize { o(lyra2::lyra2rev2::sum(v(p, l)), out, cap) }
#[no_mangle] pub unsafe extern "C" fn i_rev3(p: *const u8, l: usize, out: *mut u8, cap: usize) -> usize { o(lyra2::lyra2rev3::sum(v(p, l)), out, cap) }
#[no_mangle] pub unsafe extern "C" fn i_z(p: *const u8, l: usize, out: *mut u8, cap: usize) -> usize { o(lyra2::lyra2z::sum(v(p, l)), out, cap) }
#[no_mangle] pub unsafe extern "C" fn i_sum(p: *const u8, l: usize, out: *mut u8, cap: usize) -> usize { o(lyra2::lyra2::sum(v(p, l)), out, cap) }
#[no_mangle] pub unsafe extern "C" fn i_lyra2(k: u64, p: *const u8, l: usize, s: *const u8, sl: usize, t: u64, r: u64, c: u64, out: *mut u8, cap: usize) -> usize { o(lyra2::lyra2::lyra2(k, v(p, l), v(s, sl), t, r, c), out, cap) }
/// What `sum` is documented to be, in terms of the code under test.
#[no_mangle] pub unsafe extern "C" fn i_sumdef(p: *const u8, l: usize, out: *mut u8, cap: usize) -> usize { o(lyra2::lyra2::lyra2(32, v(p, l), v(p, l), 1, 4, 4), out, cap) }

#[cfg(lyra2_verif)] #[no_mangle] pub unsafe extern "C" fn i_cube(p: *const u8, l: usize, out: *mut u8, cap: usize) -> usize { o(lyra2::verif::cubehash_sum(v(p, l)), out, cap) }
#[cfg(lyra2_verif)] #[no_mangle] pub unsafe extern "C" fn i_bmw(p: *const u8, l: usize, out: *mut u8, cap: usize) -> usize { o(lyra2::verif::bmw_sum(v(p, l)), out, cap) }
#[cfg(lyra2_verif)] #[no_mangle] pub unsafe extern "C" fn i_modsum(p: *const u8, l: usize, out: *mut u8, cap: usize) -> usize { o(lyra2::verif::lyra2mod_sum(v(p, l)), out, cap) }

#[no_mangle] pub unsafe extern "C" fn s_re(p: *const u8, l: usize, out: *mut u8, cap: usize) -> usize { w(spec::re(std::slice::from_raw_parts(p, l)), out, cap) }
#[no_mangle] pub unsafe extern "C" fn s_rev2(p: *const u8, l: usize, out: *mut u8, cap: usize) -> usize { w(spec::rev2(std::slice::from_raw_parts(p, l)), out, cap) }
#[no_mangle] pub unsafe extern "C" fn s_rev3(p: *const u8, l: usize, out: *mut u8, cap: usize) -> usize { w(spec::rev3(std::slice::from_raw_parts(p, l)), out, cap) }
#[no_mangle] pub unsafe extern "C" fn s_z(p: *const u8, l: usize, out: *mut u8, cap: usize) -> usize { w(spec::z(std::slice::from_raw_parts(p, l)), out, cap) }
unsafe fn a32(p: *const u8) -> [u8; 32] { let mut b = [0u8; 32]; for i in 0..32 { b[i] = *p.add(i); } b }
#[no_mangle] pub unsafe extern "C" fn s_cube(p: *const u8, _l: usize, out: *mut u8, cap: usize) -> usize { w(spec::cube32(&a32(p)), out, cap) }
#[no_mangle] pub unsafe extern "C" fn s_bmw(p: *const u8, _l: usize, out: *mut u8, cap: usize) -> usize { w(spec::bmw32(&a32(p)), out, cap) }
unsafe fn sl(k: u64, p: *const u8, l: usize, s: *const u8, sl: usize, t: u64, r: u64, c: u64, m: spec::Rows, v3: bool, out: *mut u8, cap: usize) -> usize {
    spec::lyra2(k, std::slice::from_raw_parts(p, l), std::slice::from_raw_parts(s, sl), t, r, c, m, v3, std::slice::from_raw_parts_mut(out, cap))
}
#[no_mangle] pub unsafe extern "C" fn s_sum(p: *const u8, l: usize, out: *mut u8, cap: usize) -> usize { sl(32, p, l, p, l, 1, 4, 4, spec::Rows::Mask, false, out, cap) }
#[no_mangle] pub unsafe extern "C" fn s_modsum(p: *const u8, l: usize, out: *mut u8, cap: usize) -> usize { sl(32, p, l, p, l, 1, 4, 4, spec::Rows::Mask, true, out, cap) }
#[no_mangle] pub unsafe extern "C" fn s_lyra2(k: u64, p: *const u8, l: usize, s: *const u8, n: usize, t: u64, r: u64, c: u64, out: *mut u8, cap: usize) -> usize { sl(k, p, l, s, n, t, r, c, spec::Rows::Mask, false, out, cap) }
#[no_mangle] pub unsafe extern "C" fn s_lyra2m(k: u64, p: *const u8, l: usize, s: *const u8, n: usize, t: u64, r: u64, c: u64, out: *mut u8, cap: usize) -> usize { sl(k, p, l, s, n, t, r, c, spec::Rows::Modulo, false, out, cap) }
