#![allow(dead_code, unused)]
#[macro_use]
#[path = "../prelude.rs"]
mod prelude;
use aether_core::math::{Matrix, Vector};
use aether_core::numerical_methods::solvers::{CholLower, LuDecomp};
use prelude::*;

macro_rules! spec {
    ($m:ident, $t:ty) => {
        pub mod $m {
            /// row of the first entry of largest magnitude in column k at or below row k
            pub fn best<const N: usize>(a: &[[$t; N]; N], k: usize) -> usize {
                let mut p = k;
                for r in k + 1..N {
                    if a[r][k].abs() > a[p][k].abs() {
                        p = r;
                    }
                }
                p
            }
            pub fn swap<const N: usize, const C: usize>(a: &mut [[$t; C]; N], i: usize, j: usize) {
                for c in 0..C {
                    let x = if i == j { a[i][c] } else { a[j][c] };
                    let y = a[i][c];
                    a[i][c] = x;
                    if i != j {
                        a[j][c] = y;
                    }
                }
            }
            /// upper triangle after elimination with row exchanges: (U, exchanges odd); None when a pivot is not above eps
            pub fn eliminate<const N: usize>(m: &[[$t; N]; N], eps: $t) -> Option<([[$t; N]; N], bool)> {
                let mut a = *m;
                let mut odd = false;
                for k in 0..N {
                    let p = best(&a, k);
                    if !(a[p][k].abs() > eps) {
                        return None;
                    }
                    if p != k {
                        swap(&mut a, p, k);
                        odd = !odd;
                    }
                    for r in k + 1..N {
                        let f = a[r][k] / a[k][k];
                        for c in k..N {
                            a[r][c] -= f * a[k][c];
                        }
                    }
                }
                Some((a, odd))
            }
            /// pivots are already in place: the leading entries dominate their columns
            pub fn natural(a: &[[$t; 3]; 3]) {
                super::assume(a[0][0] > 1e-12);
                super::assume(a[0][0] > a[1][0].abs());
                super::assume(a[0][0] > a[2][0].abs());
                let s11 = a[1][1] - a[1][0] * a[0][1] / a[0][0];
                let s21 = a[2][1] - a[2][0] * a[0][1] / a[0][0];
                super::assume(s11 > 1e-12);
                super::assume(s11 > s21.abs());
                // every elimination factor is in play (the vanishing ones are decided at size 2)
                super::assume(a[1][0] != 0.0);
                super::assume(a[2][0] != 0.0);
                super::assume(s21 != 0.0);
                super::assume(a[0][1] != 0.0);
                let s12 = a[1][2] - a[1][0] * a[0][2] / a[0][0];
                super::assume(s12 != 0.0);
                super::assume(a[0][2] * s11 - a[0][1] * s12 != 0.0);
            }
            /// magnitude of the last pivot of a matrix in natural order
            pub fn last(a: &[[$t; 3]; 3]) -> $t {
                let s11 = a[1][1] - a[1][0] * a[0][1] / a[0][0];
                let s12 = a[1][2] - a[1][0] * a[0][2] / a[0][0];
                let s21 = a[2][1] - a[2][0] * a[0][1] / a[0][0];
                let s22 = a[2][2] - a[2][0] * a[0][2] / a[0][0];
                (s22 - s21 * s12 / s11).abs()
            }
            pub fn det1(m: &[[$t; 1]; 1]) -> $t {
                m[0][0]
            }
            pub fn det2(m: &[[$t; 2]; 2]) -> $t {
                m[0][0] * m[1][1] - m[0][1] * m[1][0]
            }
            pub fn det3(m: &[[$t; 3]; 3]) -> $t {
                m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
                    + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
            }
            pub fn mm<const N: usize, const P: usize>(a: &[[$t; N]; N], b: &[[$t; P]; N]) -> [[$t; P]; N] {
                let mut o = [[0.0; P]; N];
                for i in 0..N {
                    for j in 0..P {
                        let mut s = 0.0;
                        for k in 0..N {
                            s += a[i][k] * b[k][j];
                        }
                        o[i][j] = s;
                    }
                }
                o
            }
            pub fn mv<const N: usize>(a: &[[$t; N]; N], b: &[$t; N]) -> [$t; N] {
                let mut o = [0.0; N];
                for i in 0..N {
                    let mut s = 0.0;
                    for k in 0..N {
                        s += a[i][k] * b[k];
                    }
                    o[i] = s;
                }
                o
            }
            pub fn eye<const N: usize>() -> [[$t; N]; N] {
                let mut o = [[0.0; N]; N];
                for i in 0..N {
                    o[i][i] = 1.0;
                }
                o
            }
            /// leading pivots of the symmetric matrix given by the lower triangle
            pub fn chol<const N: usize>(a: &[[$t; N]; N]) -> Option<[[$t; N]; N]> {
                let mut l = [[0.0; N]; N];
                for i in 0..N {
                    for j in 0..i {
                        let mut d = 0.0;
                        for k in 0..j {
                            d += l[i][k] * l[j][k];
                        }
                        l[i][j] = (a[i][j] - d) / l[j][j];
                    }
                    let mut q = 0.0;
                    for k in 0..i {
                        q += l[i][k] * l[i][k];
                    }
                    let p = a[i][i] - q;
                    if !(p > 0.0) {
                        return None;
                    }
                    l[i][i] = p.sqrt();
                }
                Some(l)
            }
        }
    };
}
spec!(s64, f64);
spec!(s32, f32);
pub trait W {
    type O;
    fn w(self) -> Self::O;
}
impl W for f32 {
    type O = f64;
    fn w(self) -> f64 {
        self as f64
    }
}
impl<T: W, const N: usize> W for [T; N] {
    type O = [T::O; N];
    fn w(self) -> [T::O; N] {
        self.map(|x| x.w())
    }
}
impl<T: W> W for Option<T> {
    type O = Option<T::O>;
    fn w(self) -> Option<T::O> {
        self.map(|x| x.w())
    }
}
pub fn w<T: W>(x: T) -> T::O {
    x.w()
}
include!("obs.rs");

// larger sizes: a matrix with known factors, rows in a long cycle, every column scaled by an unknown factor above one (which leaves
// the choice of pivots as it is)
pub fn lower<const N: usize>() -> [[f64; N]; N] {
    let mut l = [[0.0; N]; N];
    for i in 0..N { l[i][i] = 1.0; for j in 0..i { l[i][j] = (((i * 3 + j * 5) % 4) as f64 - 1.5) / 2.0; } }
    l
}
pub fn upper<const N: usize>(c: &[f64; N]) -> [[f64; N]; N] {
    let mut u = [[0.0; N]; N];
    for i in 0..N { u[i][i] = (if i % 2 == 0 { 2.0 } else { -4.0 }) * c[i]; for j in i + 1..N { u[i][j] = (((i * 7 + j * 4) % 5) as f64 - 2.0) * c[j]; } }
    u
}
pub fn known<const N: usize>(p: &[usize; N], c: &[f64; N]) -> [[f64; N]; N] {
    let m = s64::mm(&lower::<N>(), &upper(c));
    let mut a = [[0.0; N]; N];
    for i in 0..N { a[p[i]] = m[i]; }
    a
}
pub fn odd<const N: usize>(p: &[usize; N]) -> bool { let mut o = false; for i in 0..N { for j in 0..i { if p[j] > p[i] { o = !o; } } } o }
pub fn above_one<const N: usize>(c: &[f64; N]) { for i in 0..N { assume(c[i] > 1.0); } }
pub fn big_det<const N: usize>(p: &[usize; N], c: &[f64; N]) -> f64 { let u = upper(c); let mut d = if odd(p) { -1.0 } else { 1.0 }; for i in 0..N { d *= u[i][i]; } d }
macro_rules! large {
    ($t:literal, $N:literal, $p:expr) => {
        ob!("C03", concat!("solve_known_", $t), (c: &[f64; $N], b: &[f64; $N]) -> Option<[f64; $N]>, { above_one(c); let a = known(&$p, c); Matrix::new(a).solve(&Vector::new(*b)).map(|x| s64::mv(&a, &x.data)) } == { Some(*b) });
        ob!("C03", concat!("solve_multi_known_", $t), (c: &[f64; $N], b: &[[f64; 3]; $N]) -> Option<[[f64; 3]; $N]>, { above_one(c); let a = known(&$p, c); Matrix::new(a).solve_multi(&Matrix::new(*b)).map(|x| s64::mm(&a, &x.data)) } == { Some(*b) });
        ob!("C03", concat!("lu_known_", $t), (c: &[f64; $N]) -> Option<([[f64; $N]; $N], [usize; $N], bool)>, { above_one(c); Matrix::new(known(&$p, c)).lu_decompose().map(|d| (d.lu.data, d.piv, d.sign < 0)) } == { let (l, mut u) = (lower::<$N>(), upper(c)); for i in 0..$N { for j in 0..i { u[i][j] = l[i][j]; } } Some((u, $p, odd(&$p))) });
        ob!("C03", concat!("det_known_", $t), (c: &[f64; $N]) -> f64, { above_one(c); Matrix::new(known(&$p, c)).determinant() } == { big_det(&$p, c) });
        ob!("C03", concat!("inverse_known_", $t), (z: f64) -> (Option<[[f64; $N]; $N]>, Option<[[f64; $N]; $N]>), { assume(z > 1.0); let mut c = [2.0; $N]; c[1] = z; let a = known(&$p, &c); let x = Matrix::new(a).inverse_gauss_jordan(); (x.map(|x| s64::mm(&a, &x.data)), x.map(|x| s64::mm(&x.data, &a))) } == { (Some(s64::eye::<$N>()), Some(s64::eye::<$N>())) });
        ob!("C03", concat!("singular_known_", $t), (z: f64, b: &[f64; $N]) -> [f64; 5], { assume(z > 1.0); let mut c = [2.0; $N]; c[1] = z; let mut a = known(&$p, &c); for i in 0..$N { a[i][$N - 1] = 0.0; } let m = Matrix::new(a); let n = |x: bool| if x { 1.0 } else { 0.0 }; [n(m.solve(&Vector::new(*b)).is_some()), n(m.lu_decompose().is_some()), n(m.inverse_gauss_jordan().is_some()), n(m.solve_multi(&Matrix::new([[1.0]; $N])).is_some()), m.determinant()] } == { [0.0; 5] });
    };
}
large!("4", 4, [2, 3, 1, 0]);
large!("5", 5, [3, 0, 4, 1, 2]);
large!("6", 6, [5, 3, 0, 1, 2, 4]);
pub const P8: [usize; 8] = [4, 7, 1, 0, 6, 3, 5, 2];
pub fn c8(z: f64) -> [f64; 8] { assume(z > 1.0); [1.0, 2.0, 1.0, 1.0, z, 1.0, 4.0, 1.0] }
ob!("C03", "solve_known_8", (z: f64, b: &[f64; 8]) -> Option<[f64; 8]>, { let a = known(&P8, &c8(z)); Matrix::new(a).solve(&Vector::new(*b)).map(|x| s64::mv(&a, &x.data)) } == { Some(*b) });
ob!("C03", "solve_multi_known_8", (z: f64, b: &[[f64; 2]; 8]) -> Option<[[f64; 2]; 8]>, { let a = known(&P8, &c8(z)); Matrix::new(a).solve_multi(&Matrix::new(*b)).map(|x| s64::mm(&a, &x.data)) } == { Some(*b) });
ob!("C03", "lu_known_8", (z: f64) -> Option<([[f64; 8]; 8], [usize; 8], bool)>, { Matrix::new(known(&P8, &c8(z))).lu_decompose().map(|d| (d.lu.data, d.piv, d.sign < 0)) } == { let (l, mut u) = (lower::<8>(), upper(&c8(z))); for i in 0..8 { for j in 0..i { u[i][j] = l[i][j]; } } Some((u, P8, odd(&P8))) });
ob!("C03", "det_known_8", (z: f64) -> f64, { Matrix::new(known(&P8, &c8(z))).determinant() } == { big_det(&P8, &c8(z)) });
ob!("C03", "inverse_known_8", (z: f64) -> (Option<[[f64; 8]; 8]>, Option<[[f64; 8]; 8]>), { let a = known(&P8, &c8(z)); let x = Matrix::new(a).inverse_gauss_jordan(); (x.map(|x| s64::mm(&a, &x.data)), x.map(|x| s64::mm(&x.data, &a))) } == { (Some(s64::eye::<8>()), Some(s64::eye::<8>())) });
// Cholesky and substitution at larger sizes: known factor with unknown row scales
pub fn spd<const N: usize>(c: &[f64; N]) -> ([[f64; N]; N], [[f64; N]; N]) {
    let mut l = lower::<N>();
    for i in 0..N { for j in 0..N { l[i][j] *= c[i]; } l[i][i] *= 2.0; }
    let mut t = l;
    for i in 0..N { for j in 0..N { t[i][j] = l[j][i]; } }
    (l, s64::mm(&l, &t))
}
macro_rules! cholesky_large {
    ($t:literal, $N:literal) => {
        ob!("C03", concat!("chol_known_", $t), (c: &[f64; $N]) -> Option<[[f64; $N]; $N]>, { above_one(c); Matrix::new(spd(c).1).cholesky_lower().map(|d| d.l.data) } == { Some(spd(c).0) });
        ob!("C03", concat!("chol_solve_known_", $t), (c: &[f64; $N], b: &[f64; $N]) -> Option<[f64; $N]>, { above_one(c); let a = spd(c).1; Matrix::new(a).cholesky_solve(&Vector::new(*b)).map(|x| s64::mv(&a, &x.data)) } == { Some(*b) });
    };
}
cholesky_large!("5", 5);
cholesky_large!("6", 6);

// the same factors at the scale where the singularity thresholds begin: nothing above them may be called singular
pub fn scaled<const N: usize>(a: [[f64; N]; N], s: f64) -> [[f64; N]; N] { let mut o = a; for i in 0..N { for j in 0..N { o[i][j] = a[i][j] * s; } } o }
pub const S39: f64 = 1.0 / 549755813888.0;
pub const S51: f64 = 1.0 / 2251799813685248.0;
macro_rules! faint {
    ($t:literal, $N:literal, $p:expr) => {
        ob!("C03", concat!("solve_faint_", $t), (c: &[f64; $N], b: &[f64; $N]) -> Option<[f64; $N]>, { above_one(c); let a = scaled(known(&$p, c), S51); Matrix::new(a).solve(&Vector::new(*b)).map(|x| s64::mv(&a, &x.data)) } == { Some(*b) });
        ob!("C03", concat!("lu_faint_", $t), (c: &[f64; $N]) -> bool, { above_one(c); Matrix::new(scaled(known(&$p, c), S51)).lu_decompose().is_some() } == { true });
        ob!("C03", concat!("det_faint_", $t), (c: &[f64; $N]) -> f64, { above_one(c); Matrix::new(scaled(known(&$p, c), S39)).determinant() } == { let mut d = big_det(&$p, c); for _ in 0..$N { d *= S39; } d });
        ob!("C03", concat!("inverse_faint_", $t), (z: f64) -> Option<[[f64; $N]; $N]>, { assume(z > 1.0); let mut c = [2.0; $N]; c[1] = z; let a = scaled(known(&$p, &c), S39); Matrix::new(a).inverse_gauss_jordan().map(|x| s64::mm(&a, &x.data)) } == { Some(s64::eye::<$N>()) });
        ob!("C03", concat!("one_faint_pivot_", $t), (c: &[f64; $N]) -> f64, { above_one(c); let mut c = *c; c[$N - 1] *= S39; Matrix::new(known(&$p, &c)).determinant() } == { let mut c = *c; c[$N - 1] *= S39; big_det(&$p, &c) });
    };
}
faint!("3", 3, [2, 0, 1]);
faint!("5", 5, [3, 0, 4, 1, 2]);
faint!("6", 6, [5, 3, 0, 1, 2, 4]);
ob!("C03", "inverse3_faint", (z: f64) -> Option<[[f64; 3]; 3]>, { assume(z > 1.0); let a = scaled(known(&[1, 2, 0], &[1.0, z, 1.0]), 1.0 / 8192.0); Matrix::new(a).inverse().map(|x| s64::mm(&a, &x.data)) } == { Some(s64::eye::<3>()) });

// further sizes, one unknown scale
pub fn cycle<const N: usize>(s: usize, o: usize) -> [usize; N] { let mut p = [0; N]; for i in 0..N { p[i] = (i * s + o) % N; } p }
pub fn one_scale<const N: usize>(z: f64) -> [f64; N] { assume(z > 1.0); let mut c = [1.0; N]; c[1] = 2.0; c[N / 2] = z; c }
macro_rules! more {
    ($t:literal, $N:literal, $s:literal, $o:literal) => {
        ob!("C03", concat!("solve_known_", $t), (z: f64, b: &[f64; $N]) -> Option<[f64; $N]>, { let a = known(&cycle($s, $o), &one_scale(z)); Matrix::new(a).solve(&Vector::new(*b)).map(|x| s64::mv(&a, &x.data)) } == { Some(*b) });
        ob!("C03", concat!("solve_multi_known_", $t), (z: f64, b: &[[f64; 2]; $N]) -> Option<[[f64; 2]; $N]>, { let a = known(&cycle($s, $o), &one_scale(z)); Matrix::new(a).solve_multi(&Matrix::new(*b)).map(|x| s64::mm(&a, &x.data)) } == { Some(*b) });
        ob!("C03", concat!("lu_known_", $t), (z: f64) -> Option<([[f64; $N]; $N], [usize; $N], bool)>, { Matrix::new(known(&cycle($s, $o), &one_scale(z))).lu_decompose().map(|d| (d.lu.data, d.piv, d.sign < 0)) } == { let (l, mut u) = (lower::<$N>(), upper(&one_scale(z))); for i in 0..$N { for j in 0..i { u[i][j] = l[i][j]; } } let p = cycle::<$N>($s, $o); Some((u, p, odd(&p))) });
        ob!("C03", concat!("det_known_", $t), (z: f64) -> f64, { Matrix::new(known(&cycle::<$N>($s, $o), &one_scale(z))).determinant() } == { big_det(&cycle($s, $o), &one_scale::<$N>(z)) });
        ob!("C03", concat!("inverse_known_", $t), (z: f64) -> Option<[[f64; $N]; $N]>, { let a = known(&cycle($s, $o), &one_scale(z)); Matrix::new(a).inverse_gauss_jordan().map(|x| s64::mm(&a, &x.data)) } == { Some(s64::eye::<$N>()) });
        ob!("C03", concat!("singular_known_", $t), (z: f64, b: &[f64; $N]) -> [f64; 5], { let mut a = known(&cycle($s, $o), &one_scale(z)); for i in 0..$N { a[i][$N - 1] = 0.0; } let m = Matrix::new(a); let n = |x: bool| if x { 1.0 } else { 0.0 }; [n(m.solve(&Vector::new(*b)).is_some()), n(m.lu_decompose().is_some()), n(m.inverse_gauss_jordan().is_some()), n(m.solve_multi(&Matrix::new([[1.0]; $N])).is_some()), m.determinant()] } == { [0.0; 5] });
        ob!("C03", concat!("chol_known_", $t), (z: f64) -> Option<[[f64; $N]; $N]>, { Matrix::new(spd(&one_scale(z)).1).cholesky_lower().map(|d| d.l.data) } == { Some(spd(&one_scale(z)).0) });
        ob!("C03", concat!("chol_solve_known_", $t), (z: f64, b: &[f64; $N]) -> Option<[f64; $N]>, { let a = spd(&one_scale(z)).1; Matrix::new(a).cholesky_solve(&Vector::new(*b)).map(|x| s64::mv(&a, &x.data)) } == { Some(*b) });
    };
}
more!("7", 7, 3, 2);
more!("9", 9, 4, 3);
more!("10", 10, 3, 4);
more!("11", 11, 4, 2);
more!("12", 12, 5, 1);
more!("13", 13, 5, 3);
more!("14", 14, 5, 2);
more!("15", 15, 4, 7);
more!("16", 16, 7, 5);
more!("17", 17, 6, 4);
more!("18", 18, 7, 3);
more!("20", 20, 7, 6);
more!("24", 24, 7, 10);
more!("32", 32, 11, 9);
