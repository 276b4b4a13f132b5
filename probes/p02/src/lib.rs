#![allow(dead_code, unused)]
#[macro_use]
#[path = "../prelude.rs"]
mod prelude;
use aether_core::math::{Matrix, Vector};
use prelude::*;
trait Z: Copy + core::ops::Mul<Output = Self> + core::ops::Add<Output = Self> { const Z: Self; }
impl Z for f64 { const Z: f64 = 0.0; }
impl Z for f32 { const Z: f32 = 0.0; }
fn mv<T: Z, const M: usize, const N: usize>(a: &[[T; N]; M], b: &[T; N]) -> [T; M] {
    let mut o = [T::Z; M];
    for i in 0..M { for k in 0..N { o[i] = o[i] + a[i][k] * b[k]; } }
    o
}
fn mm<T: Z, const M: usize, const N: usize, const P: usize>(a: &[[T; N]; M], b: &[[T; P]; N]) -> [[T; P]; M] {
    let mut o = [[T::Z; P]; M];
    for i in 0..M { for j in 0..P { for k in 0..N { o[i][j] = o[i][j] + a[i][k] * b[k][j]; } } }
    o
}
include!("dispatch.rs");
#[cfg(guards)]
mod guards {
    use super::*;
    macro_rules! feat { ($($n:literal = $f:tt),*) => { $(const _: () = { #[export_name = $n] pub fn f() -> bool { std::is_x86_feature_detected!($f) } };)* } }
    feat!("feat__avx512f" = "avx512f", "feat__avx2" = "avx2", "feat__fma" = "fma", "feat__avx" = "avx", "feat__f16c" = "f16c", "feat__bmi1" = "bmi1", "feat__bmi2" = "bmi2",
        "feat__sse4_2" = "sse4.2", "feat__sse4_1" = "sse4.1", "feat__ssse3" = "ssse3", "feat__sse3" = "sse3");
    include!("guards.rs");
}
#[cfg(kernels)]
mod kernels {
    use super::*;
    use aether_core::math::arch::x86::{matrix_simd as ms, vector_simd as vs};
    include!("kernels.rs");
}
