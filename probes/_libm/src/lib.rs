#![no_std]
//! Stand-in used while lowering to IR: every libm function is an opaque mathematical symbol.
mod sys { extern "C" {
pub fn acos(x: f64) -> f64; pub fn acosf(x: f32) -> f32;
pub fn asin(x: f64) -> f64; pub fn asinf(x: f32) -> f32;
pub fn atan(x: f64) -> f64; pub fn atanf(x: f32) -> f32;
pub fn cos(x: f64) -> f64; pub fn cosf(x: f32) -> f32;
pub fn sin(x: f64) -> f64; pub fn sinf(x: f32) -> f32;
pub fn tan(x: f64) -> f64; pub fn tanf(x: f32) -> f32;
pub fn exp(x: f64) -> f64; pub fn expf(x: f32) -> f32;
pub fn exp2(x: f64) -> f64; pub fn exp2f(x: f32) -> f32;
pub fn log(x: f64) -> f64; pub fn logf(x: f32) -> f32;
pub fn log2(x: f64) -> f64; pub fn log2f(x: f32) -> f32;
pub fn log10(x: f64) -> f64; pub fn log10f(x: f32) -> f32;
pub fn sqrt(x: f64) -> f64; pub fn sqrtf(x: f32) -> f32;
pub fn fabs(x: f64) -> f64; pub fn fabsf(x: f32) -> f32;
pub fn floor(x: f64) -> f64; pub fn floorf(x: f32) -> f32;
pub fn ceil(x: f64) -> f64; pub fn ceilf(x: f32) -> f32;
pub fn round(x: f64) -> f64; pub fn roundf(x: f32) -> f32;
pub fn trunc(x: f64) -> f64; pub fn truncf(x: f32) -> f32;
pub fn cbrt(x: f64) -> f64; pub fn cbrtf(x: f32) -> f32;
pub fn sinh(x: f64) -> f64; pub fn sinhf(x: f32) -> f32;
pub fn cosh(x: f64) -> f64; pub fn coshf(x: f32) -> f32;
pub fn tanh(x: f64) -> f64; pub fn tanhf(x: f32) -> f32;
pub fn expm1(x: f64) -> f64; pub fn expm1f(x: f32) -> f32;
pub fn log1p(x: f64) -> f64; pub fn log1pf(x: f32) -> f32;
pub fn rint(x: f64) -> f64; pub fn rintf(x: f32) -> f32;
pub fn asinh(x: f64) -> f64; pub fn asinhf(x: f32) -> f32;
pub fn acosh(x: f64) -> f64; pub fn acoshf(x: f32) -> f32;
pub fn atanh(x: f64) -> f64; pub fn atanhf(x: f32) -> f32;
pub fn atan2(x: f64, y: f64) -> f64; pub fn atan2f(x: f32, y: f32) -> f32;
pub fn pow(x: f64, y: f64) -> f64; pub fn powf(x: f32, y: f32) -> f32;
pub fn hypot(x: f64, y: f64) -> f64; pub fn hypotf(x: f32, y: f32) -> f32;
pub fn fmod(x: f64, y: f64) -> f64; pub fn fmodf(x: f32, y: f32) -> f32;
pub fn copysign(x: f64, y: f64) -> f64; pub fn copysignf(x: f32, y: f32) -> f32;
pub fn fmin(x: f64, y: f64) -> f64; pub fn fminf(x: f32, y: f32) -> f32;
pub fn fmax(x: f64, y: f64) -> f64; pub fn fmaxf(x: f32, y: f32) -> f32;
pub fn fma(x: f64, y: f64, z: f64) -> f64; pub fn fmaf(x: f32, y: f32, z: f32) -> f32;
} }
#[inline(always)] pub fn acos(x: f64) -> f64 { unsafe { sys::acos(x) } } #[inline(always)] pub fn acosf(x: f32) -> f32 { unsafe { sys::acosf(x) } }
#[inline(always)] pub fn asin(x: f64) -> f64 { unsafe { sys::asin(x) } } #[inline(always)] pub fn asinf(x: f32) -> f32 { unsafe { sys::asinf(x) } }
#[inline(always)] pub fn atan(x: f64) -> f64 { unsafe { sys::atan(x) } } #[inline(always)] pub fn atanf(x: f32) -> f32 { unsafe { sys::atanf(x) } }
#[inline(always)] pub fn cos(x: f64) -> f64 { unsafe { sys::cos(x) } } #[inline(always)] pub fn cosf(x: f32) -> f32 { unsafe { sys::cosf(x) } }
#[inline(always)] pub fn sin(x: f64) -> f64 { unsafe { sys::sin(x) } } #[inline(always)] pub fn sinf(x: f32) -> f32 { unsafe { sys::sinf(x) } }
#[inline(always)] pub fn tan(x: f64) -> f64 { unsafe { sys::tan(x) } } #[inline(always)] pub fn tanf(x: f32) -> f32 { unsafe { sys::tanf(x) } }
#[inline(always)] pub fn exp(x: f64) -> f64 { unsafe { sys::exp(x) } } #[inline(always)] pub fn expf(x: f32) -> f32 { unsafe { sys::expf(x) } }
#[inline(always)] pub fn exp2(x: f64) -> f64 { unsafe { sys::exp2(x) } } #[inline(always)] pub fn exp2f(x: f32) -> f32 { unsafe { sys::exp2f(x) } }
#[inline(always)] pub fn log(x: f64) -> f64 { unsafe { sys::log(x) } } #[inline(always)] pub fn logf(x: f32) -> f32 { unsafe { sys::logf(x) } }
#[inline(always)] pub fn log2(x: f64) -> f64 { unsafe { sys::log2(x) } } #[inline(always)] pub fn log2f(x: f32) -> f32 { unsafe { sys::log2f(x) } }
#[inline(always)] pub fn log10(x: f64) -> f64 { unsafe { sys::log10(x) } } #[inline(always)] pub fn log10f(x: f32) -> f32 { unsafe { sys::log10f(x) } }
#[inline(always)] pub fn sqrt(x: f64) -> f64 { unsafe { sys::sqrt(x) } } #[inline(always)] pub fn sqrtf(x: f32) -> f32 { unsafe { sys::sqrtf(x) } }
#[inline(always)] pub fn fabs(x: f64) -> f64 { unsafe { sys::fabs(x) } } #[inline(always)] pub fn fabsf(x: f32) -> f32 { unsafe { sys::fabsf(x) } }
#[inline(always)] pub fn floor(x: f64) -> f64 { unsafe { sys::floor(x) } } #[inline(always)] pub fn floorf(x: f32) -> f32 { unsafe { sys::floorf(x) } }
#[inline(always)] pub fn ceil(x: f64) -> f64 { unsafe { sys::ceil(x) } } #[inline(always)] pub fn ceilf(x: f32) -> f32 { unsafe { sys::ceilf(x) } }
#[inline(always)] pub fn round(x: f64) -> f64 { unsafe { sys::round(x) } } #[inline(always)] pub fn roundf(x: f32) -> f32 { unsafe { sys::roundf(x) } }
#[inline(always)] pub fn trunc(x: f64) -> f64 { unsafe { sys::trunc(x) } } #[inline(always)] pub fn truncf(x: f32) -> f32 { unsafe { sys::truncf(x) } }
#[inline(always)] pub fn cbrt(x: f64) -> f64 { unsafe { sys::cbrt(x) } } #[inline(always)] pub fn cbrtf(x: f32) -> f32 { unsafe { sys::cbrtf(x) } }
#[inline(always)] pub fn sinh(x: f64) -> f64 { unsafe { sys::sinh(x) } } #[inline(always)] pub fn sinhf(x: f32) -> f32 { unsafe { sys::sinhf(x) } }
#[inline(always)] pub fn cosh(x: f64) -> f64 { unsafe { sys::cosh(x) } } #[inline(always)] pub fn coshf(x: f32) -> f32 { unsafe { sys::coshf(x) } }
#[inline(always)] pub fn tanh(x: f64) -> f64 { unsafe { sys::tanh(x) } } #[inline(always)] pub fn tanhf(x: f32) -> f32 { unsafe { sys::tanhf(x) } }
#[inline(always)] pub fn expm1(x: f64) -> f64 { unsafe { sys::expm1(x) } } #[inline(always)] pub fn expm1f(x: f32) -> f32 { unsafe { sys::expm1f(x) } }
#[inline(always)] pub fn log1p(x: f64) -> f64 { unsafe { sys::log1p(x) } } #[inline(always)] pub fn log1pf(x: f32) -> f32 { unsafe { sys::log1pf(x) } }
#[inline(always)] pub fn rint(x: f64) -> f64 { unsafe { sys::rint(x) } } #[inline(always)] pub fn rintf(x: f32) -> f32 { unsafe { sys::rintf(x) } }
#[inline(always)] pub fn asinh(x: f64) -> f64 { unsafe { sys::asinh(x) } } #[inline(always)] pub fn asinhf(x: f32) -> f32 { unsafe { sys::asinhf(x) } }
#[inline(always)] pub fn acosh(x: f64) -> f64 { unsafe { sys::acosh(x) } } #[inline(always)] pub fn acoshf(x: f32) -> f32 { unsafe { sys::acoshf(x) } }
#[inline(always)] pub fn atanh(x: f64) -> f64 { unsafe { sys::atanh(x) } } #[inline(always)] pub fn atanhf(x: f32) -> f32 { unsafe { sys::atanhf(x) } }
#[inline(always)] pub fn atan2(x: f64, y: f64) -> f64 { unsafe { sys::atan2(x, y) } } #[inline(always)] pub fn atan2f(x: f32, y: f32) -> f32 { unsafe { sys::atan2f(x, y) } }
#[inline(always)] pub fn pow(x: f64, y: f64) -> f64 { unsafe { sys::pow(x, y) } } #[inline(always)] pub fn powf(x: f32, y: f32) -> f32 { unsafe { sys::powf(x, y) } }
#[inline(always)] pub fn hypot(x: f64, y: f64) -> f64 { unsafe { sys::hypot(x, y) } } #[inline(always)] pub fn hypotf(x: f32, y: f32) -> f32 { unsafe { sys::hypotf(x, y) } }
#[inline(always)] pub fn fmod(x: f64, y: f64) -> f64 { unsafe { sys::fmod(x, y) } } #[inline(always)] pub fn fmodf(x: f32, y: f32) -> f32 { unsafe { sys::fmodf(x, y) } }
#[inline(always)] pub fn copysign(x: f64, y: f64) -> f64 { unsafe { sys::copysign(x, y) } } #[inline(always)] pub fn copysignf(x: f32, y: f32) -> f32 { unsafe { sys::copysignf(x, y) } }
#[inline(always)] pub fn fmin(x: f64, y: f64) -> f64 { unsafe { sys::fmin(x, y) } } #[inline(always)] pub fn fminf(x: f32, y: f32) -> f32 { unsafe { sys::fminf(x, y) } }
#[inline(always)] pub fn fmax(x: f64, y: f64) -> f64 { unsafe { sys::fmax(x, y) } } #[inline(always)] pub fn fmaxf(x: f32, y: f32) -> f32 { unsafe { sys::fmaxf(x, y) } }
#[inline(always)] pub fn fma(x: f64, y: f64, z: f64) -> f64 { unsafe { sys::fma(x, y, z) } } #[inline(always)] pub fn fmaf(x: f32, y: f32, z: f32) -> f32 { unsafe { sys::fmaf(x, y, z) } }
