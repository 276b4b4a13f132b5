#![allow(dead_code, unused)]
#[macro_use]
#[path = "../prelude.rs"]
mod prelude;
use aether_core::math::{Matrix, Vector};
use aether_core::matrix;
use prelude::*;

// ---- specification helpers (plain loops over plain arrays)
macro_rules! spec_fns {
    ($m:ident, $t:ty) => {
        pub mod $m {
            pub fn dot<const N: usize>(a: &[$t; N], b: &[$t; N]) -> $t {
                let mut s = 0.0;
                for i in 0..N {
                    s += a[i] * b[i];
                }
                s
            }
            pub fn mm<const M: usize, const N: usize, const P: usize>(a: &[[$t; N]; M], b: &[[$t; P]; N]) -> [[$t; P]; M] {
                let mut o = [[0.0; P]; M];
                for i in 0..M {
                    for j in 0..P {
                        let mut s = 0.0;
                        for k in 0..N {
                            s += a[i][k] * b[k][j];
                        }
                        o[i][j] = s;
                    }
                }
                o
            }
            pub fn mv<const M: usize, const N: usize>(a: &[[$t; N]; M], b: &[$t; N]) -> [$t; M] {
                let mut o = [0.0; M];
                for i in 0..M {
                    let mut s = 0.0;
                    for k in 0..N {
                        s += a[i][k] * b[k];
                    }
                    o[i] = s;
                }
                o
            }
            pub fn zip<const N: usize>(a: &[$t; N], b: &[$t; N], f: impl Fn($t, $t) -> $t) -> [$t; N] {
                let mut o = [0.0; N];
                for i in 0..N {
                    o[i] = f(a[i], b[i]);
                }
                o
            }
            pub fn zip2<const M: usize, const N: usize>(a: &[[$t; N]; M], b: &[[$t; N]; M], f: impl Fn($t, $t) -> $t) -> [[$t; N]; M] {
                let mut o = [[0.0; N]; M];
                for i in 0..M {
                    for j in 0..N {
                        o[i][j] = f(a[i][j], b[i][j]);
                    }
                }
                o
            }
        }
    };
}
spec_fns!(d, f64);
spec_fns!(s, f32);

macro_rules! vec_ops {
    ($p:ident, $t:ty, $n:literal, $sq:path,
     $add_vv:literal, $add_rr:literal, $add_vr:literal, $add_rv:literal, $adda_v:literal, $adda_r:literal,
     $sub_vv:literal, $sub_rr:literal, $sub_vr:literal, $sub_rv:literal, $suba_v:literal, $suba_r:literal,
     $neg_v:literal, $neg_r:literal, $mul_v:literal, $mul_r:literal, $div_v:literal, $div_r:literal,
     $dot:literal, $dot_vv:literal, $dot_rr:literal, $dot_vr:literal, $dot_rv:literal, $norm:literal, $mag:literal, $normalize:literal, $tryn:literal,
     $rad:literal, $deg:literal, $shape:literal, $iter:literal, $idx:literal, $idxm:literal, $collect:literal, $ctor:literal) => {
        ob!("C01", $add_vv, (a: &[$t; $n], b: &[$t; $n], o: &mut [$t; $n]), { *o = (Vector::new(*a) + Vector::new(*b)).data; } == { *o = $p::zip(a, b, |x, y| x + y); });
        ob!("C01", $add_rr, (a: &[$t; $n], b: &[$t; $n], o: &mut [$t; $n]), { *o = (&Vector::new(*a) + &Vector::new(*b)).data; } == { *o = $p::zip(a, b, |x, y| x + y); });
        ob!("C01", $add_vr, (a: &[$t; $n], b: &[$t; $n], o: &mut [$t; $n]), { *o = (Vector::new(*a) + &Vector::new(*b)).data; } == { *o = $p::zip(a, b, |x, y| x + y); });
        ob!("C01", $add_rv, (a: &[$t; $n], b: &[$t; $n], o: &mut [$t; $n]), { *o = (&Vector::new(*a) + Vector::new(*b)).data; } == { *o = $p::zip(a, b, |x, y| x + y); });
        ob!("C01", $adda_v, (a: &[$t; $n], b: &[$t; $n], o: &mut [$t; $n]), { let mut v = Vector::new(*a); v += Vector::new(*b); *o = v.data; } == { *o = $p::zip(a, b, |x, y| x + y); });
        ob!("C01", $adda_r, (a: &[$t; $n], b: &[$t; $n], o: &mut [$t; $n]), { let mut v = Vector::new(*a); v += &Vector::new(*b); *o = v.data; } == { *o = $p::zip(a, b, |x, y| x + y); });
        ob!("C01", $sub_vv, (a: &[$t; $n], b: &[$t; $n], o: &mut [$t; $n]), { *o = (Vector::new(*a) - Vector::new(*b)).data; } == { *o = $p::zip(a, b, |x, y| x - y); });
        ob!("C01", $sub_rr, (a: &[$t; $n], b: &[$t; $n], o: &mut [$t; $n]), { *o = (&Vector::new(*a) - &Vector::new(*b)).data; } == { *o = $p::zip(a, b, |x, y| x - y); });
        ob!("C01", $sub_vr, (a: &[$t; $n], b: &[$t; $n], o: &mut [$t; $n]), { *o = (Vector::new(*a) - &Vector::new(*b)).data; } == { *o = $p::zip(a, b, |x, y| x - y); });
        ob!("C01", $sub_rv, (a: &[$t; $n], b: &[$t; $n], o: &mut [$t; $n]), { *o = (&Vector::new(*a) - Vector::new(*b)).data; } == { *o = $p::zip(a, b, |x, y| x - y); });
        ob!("C01", $suba_v, (a: &[$t; $n], b: &[$t; $n], o: &mut [$t; $n]), { let mut v = Vector::new(*a); v -= Vector::new(*b); *o = v.data; } == { *o = $p::zip(a, b, |x, y| x - y); });
        ob!("C01", $suba_r, (a: &[$t; $n], b: &[$t; $n], o: &mut [$t; $n]), { let mut v = Vector::new(*a); v -= &Vector::new(*b); *o = v.data; } == { *o = $p::zip(a, b, |x, y| x - y); });
        ob!("C01", $neg_v, (a: &[$t; $n], o: &mut [$t; $n]), { *o = (-Vector::new(*a)).data; } == { *o = $p::zip(a, a, |x, _| -x); });
        ob!("C01", $neg_r, (a: &[$t; $n], o: &mut [$t; $n]), { *o = (-&Vector::new(*a)).data; } == { *o = $p::zip(a, a, |x, _| -x); });
        ob!("C01", $mul_v, (a: &[$t; $n], k: $t, o: &mut [$t; $n]), { *o = (Vector::new(*a) * k).data; } == { *o = $p::zip(a, a, |x, _| x * k); });
        ob!("C01", $mul_r, (a: &[$t; $n], k: $t, o: &mut [$t; $n]), { *o = (&Vector::new(*a) * k).data; } == { *o = $p::zip(a, a, |x, _| x * k); });
        ob!("C01", $div_v, (a: &[$t; $n], k: $t, o: &mut [$t; $n]), { *o = (Vector::new(*a) / k).data; } == { *o = $p::zip(a, a, |x, _| x / k); });
        ob!("C01", $div_r, (a: &[$t; $n], k: $t, o: &mut [$t; $n]), { *o = (&Vector::new(*a) / k).data; } == { *o = $p::zip(a, a, |x, _| x / k); });
        ob!("C01", $dot, (a: &[$t; $n], b: &[$t; $n]) -> $t, { Vector::new(*a).dot(&Vector::new(*b)) } == { $p::dot(a, b) });
        ob!("C01", $dot_vv, (a: &[$t; $n], b: &[$t; $n]) -> $t, { Vector::new(*a) * Vector::new(*b) } == { $p::dot(a, b) });
        ob!("C01", $dot_rr, (a: &[$t; $n], b: &[$t; $n]) -> $t, { &Vector::new(*a) * &Vector::new(*b) } == { $p::dot(a, b) });
        ob!("C01", $dot_vr, (a: &[$t; $n], b: &[$t; $n]) -> $t, { Vector::new(*a) * &Vector::new(*b) } == { $p::dot(a, b) });
        ob!("C01", $dot_rv, (a: &[$t; $n], b: &[$t; $n]) -> $t, { &Vector::new(*a) * Vector::new(*b) } == { $p::dot(a, b) });
        ob!("C01", $norm, (a: &[$t; $n]) -> $t, { Vector::new(*a).norm() } == { $sq($p::dot(a, a)) });
        ob!("C01", $mag, (a: &[$t; $n]) -> $t, { Vector::new(*a).magnitude() } == { $sq($p::dot(a, a)) });
        ob!("C01", $normalize, (a: &[$t; $n], o: &mut [$t; $n]), { *o = Vector::new(*a).normalize().data; } == { let n = $sq($p::dot(a, a)); *o = $p::zip(a, a, |x, _| x / n); });
        ob!("C01", $tryn, (a: &[$t; $n], o: &mut [$t; $n]) -> $t,
            { let (v, n) = Vector::new(*a).try_normalize(); *o = v.data; n } ==
            { let n = $sq($p::dot(a, a)); if n > 1e-12 { *o = $p::zip(a, a, |x, _| x / n); } else { *o = *a; } n });
        ob!("C01", $rad, (a: &[$t; $n], o: &mut [$t; $n]), { *o = aether_core::math::vector::Vector::<$t, $n>::new(*a).map(|x| x).to_rad().data; } == { *o = $p::zip(a, a, |x, _| x * (3.14159265358979323846 as $t) / 180.0); });
        ob!("C01", $deg, (a: &[$t; $n], o: &mut [$t; $n]), { *o = aether_core::math::vector::Vector::<$t, $n>::new(*a).to_deg().data; } == { *o = $p::zip(a, a, |x, _| x * 180.0 / (3.14159265358979323846 as $t)); });
        ob!("C01", $shape, (a: &[$t; $n], r: &mut [[$t; $n]; 1], c: &mut [[$t; 1]; $n], q: &mut [$t; $n]),
            { let v = Vector::from(*a); *r = v.row().data; *c = v.col().data; let mut w = v; w.as_mut()[0] = v.as_ref()[$n - 1]; *q = w.data; } ==
            { *r = [*a]; for i in 0..$n { c[i][0] = a[i]; } *q = *a; q[0] = a[$n - 1]; });
        ob!("C01", $iter, (a: &[$t; $n], o: &mut [[$t; $n]; 5]),
            { let v = Vector::new(*a); let mut i = 0; for x in v.iter() { o[0][i] = *x; i += 1; }
              i = 0; for x in v.iter_copied() { o[1][i] = x; i += 1; } i = 0; for x in &v { o[2][i] = *x; i += 1; } i = 0; for x in v { o[3][i] = x; i += 1; }
              let mut w = v; for x in w.iter_mut() { *x = *x * 2.0; } for x in &mut w { *x = *x + 1.0; } o[4] = w.data; } ==
            { for i in 0..$n { o[0][i] = a[i]; o[1][i] = a[i]; o[2][i] = a[i]; o[3][i] = a[i]; o[4][i] = a[i] * 2.0 + 1.0; } });
        ob!("C01", $idx, (a: &[$t; $n], i: usize) -> $t, { Vector::new(*a)[i] } == { if i >= $n { panic!() } a[i] });
        ob!("C01", $idxm, (a: &mut [$t; $n], i: usize, x: $t), { let mut v = Vector::new(*a); v[i] = x; *a = v.data; } == { if i >= $n { panic!() } a[i] = x; });
        ob!("C01", $collect, (a: &[$t; 12], n: usize, o: &mut [$t; $n]),
            { assume(n <= 12); let v: Vector<$t, $n> = a[..n].iter().copied().collect(); *o = v.data; } ==
            { assume(n <= 12); if n != $n { panic!() } for i in 0..$n { o[i] = a[i]; } });
        ob!("C01", $ctor, (a: &mut [$t; $n], b: &mut [$t; $n], c: &mut [$t; $n]),
            { *a = Vector::<$t, $n>::zeros().data; *b = Vector::<$t, $n>::ones().data; *c = Vector::<$t, $n>::default().data; } ==
            { for i in 0..$n { a[i] = 0.0; b[i] = 1.0; c[i] = 0.0; } });
    };
}
trait Conv { fn to_rad(self) -> Self; fn to_deg(self) -> Self; }
macro_rules! conv { ($($t:ty),*) => { $(impl<const N: usize> Conv for Vector<$t, N> {
    fn to_rad(self) -> Self { use aether_core::coordinate::*; use aether_core::utils::*; self.to_radians() }
    fn to_deg(self) -> Self { use aether_core::utils::*; self.to_degrees() } })* } }
conv!(f64, f32);
include!("names.rs");

ob!("C01", "angle3", (a: &[f64; 3], b: &[f64; 3]) -> f64, { Vector::new(*a).angle(&Vector::new(*b)) } ==
    { let den = d::dot(a, a).sqrt() * d::dot(b, b).sqrt(); if den == 0.0 { return 0.0; } let c = d::dot(a, b) / den; if c > 1.0 { 1f64.acos() } else if c < -1.0 { (-1f64).acos() } else { c.acos() } });
ob!("C01", "angle2f", (a: &[f32; 2], b: &[f32; 2]) -> f32, { Vector::new(*a).angle(&Vector::new(*b)) } ==
    { let den = s::dot(a, a).sqrt() * s::dot(b, b).sqrt(); if den == 0.0 { return 0.0; } let c = s::dot(a, b) / den; if c > 1.0 { 1f32.acos() } else if c < -1.0 { (-1f32).acos() } else { c.acos() } });
ob!("C01", "cross", (a: &[f64; 3], b: &[f64; 3], o: &mut [f64; 3]), { *o = Vector::new(*a).cross(&Vector::new(*b)).data; } ==
    { *o = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]; });
ob!("C01", "crossf", (a: &[f32; 3], b: &[f32; 3], o: &mut [f32; 3]), { *o = Vector::new(*a).cross(&Vector::new(*b)).data; } ==
    { *o = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]; });

// ---- matrices
macro_rules! mat_ops {
    ($p:ident, $t:ty, $m:literal, $n:literal, $add:literal, $sub:literal, $div:literal, $neg:literal, $mul:literal, $mv_vv:literal, $mv_rr:literal, $mv_vr:literal, $mv_rv:literal,
     $ctor:literal, $outer:literal, $tr:literal, $idx:literal, $idxm:literal, $row:literal, $rowm:literal) => {
        ob!("C01", $add, (a: &[[$t; $n]; $m], b: &[[$t; $n]; $m], o: &mut [[$t; $n]; $m]), { *o = (Matrix::new(*a) + Matrix::new(*b)).data; } == { *o = $p::zip2(a, b, |x, y| x + y); });
        ob!("C01", $sub, (a: &[[$t; $n]; $m], b: &[[$t; $n]; $m], o: &mut [[$t; $n]; $m]), { *o = (Matrix::new(*a) - Matrix::new(*b)).data; } == { *o = $p::zip2(a, b, |x, y| x - y); });
        ob!("C01", $div, (a: &[[$t; $n]; $m], k: $t, o: &mut [[$t; $n]; $m]), { *o = (Matrix::new(*a) / k).data; } == { *o = $p::zip2(a, a, |x, _| x / k); });
        ob!("C01", $neg, (a: &[[$t; $n]; $m], o: &mut [[$t; $n]; $m]), { *o = (-Matrix::new(*a)).data; } == { *o = $p::zip2(a, a, |x, _| -x); });
        ob!("C01", $mul, (a: &[[$t; $n]; $m], k: $t, o: &mut [[$t; $n]; $m]), { *o = (Matrix::new(*a) * k).data; } == { *o = $p::zip2(a, a, |x, _| x * k); });
        ob!("C01", $mv_vv, (a: &[[$t; $n]; $m], b: &[$t; $n], o: &mut [$t; $m]), { *o = (Matrix::new(*a) * Vector::new(*b)).data; } == { *o = $p::mv(a, b); });
        ob!("C01", $mv_rr, (a: &[[$t; $n]; $m], b: &[$t; $n], o: &mut [$t; $m]), { *o = (&Matrix::new(*a) * &Vector::new(*b)).data; } == { *o = $p::mv(a, b); });
        ob!("C01", $mv_vr, (a: &[[$t; $n]; $m], b: &[$t; $n], o: &mut [$t; $m]), { *o = (Matrix::new(*a) * &Vector::new(*b)).data; } == { *o = $p::mv(a, b); });
        ob!("C01", $mv_rv, (a: &[[$t; $n]; $m], b: &[$t; $n], o: &mut [$t; $m]), { *o = (&Matrix::new(*a) * Vector::new(*b)).data; } == { *o = $p::mv(a, b); });
        ob!("C01", $ctor, (a: &mut [[$t; $n]; $m], b: &mut [[$t; $n]; $m], c: &mut [[$t; $n]; $m]),
            { *a = Matrix::<$t, $m, $n>::zeros().data; *b = Matrix::<$t, $m, $n>::ones().data; *c = Matrix::<$t, $m, $n>::default().data; } ==
            { for i in 0..$m { for j in 0..$n { a[i][j] = 0.0; b[i][j] = 1.0; c[i][j] = 0.0; } } });
        ob!("C01", $outer, (a: &[$t; $m], b: &[$t; $n], o: &mut [[$t; $n]; $m]), { *o = Matrix::outer(&Vector::new(*a), &Vector::new(*b)).data; } ==
            { for i in 0..$m { for j in 0..$n { o[i][j] = a[i] * b[j]; } } });
        ob!("C01", $tr, (a: &[[$t; $n]; $m], o: &mut [[$t; $m]; $n]), { *o = Matrix::new(*a).transpose().data; } == { for i in 0..$m { for j in 0..$n { o[j][i] = a[i][j]; } } });
        ob!("C01", $idx, (a: &[[$t; $n]; $m], i: usize, j: usize) -> $t, { Matrix::new(*a)[(i, j)] } == { if i >= $m || j >= $n { panic!() } a[i][j] });
        ob!("C01", $idxm, (a: &mut [[$t; $n]; $m], i: usize, j: usize, x: $t), { let mut q = Matrix::new(*a); q[(i, j)] = x; *a = q.data; } == { if i >= $m || j >= $n { panic!() } a[i][j] = x; });
        ob!("C01", $row, (a: &[[$t; $n]; $m], i: usize, o: &mut [$t; $n]), { *o = Matrix::new(*a)[i]; } == { if i >= $m { panic!() } *o = a[i]; });
        ob!("C01", $rowm, (a: &mut [[$t; $n]; $m], i: usize, x: &[$t; $n]), { let mut q = Matrix::new(*a); q[i] = *x; *a = q.data; } == { if i >= $m { panic!() } a[i] = *x; });
    };
}
macro_rules! mat_mul {
    ($p:ident, $t:ty, $m:literal, $n:literal, $q:literal, $vv:literal, $rr:literal, $vr:literal, $rv:literal) => {
        ob!("C01", $vv, (a: &[[$t; $n]; $m], b: &[[$t; $q]; $n], o: &mut [[$t; $q]; $m]), { *o = (Matrix::new(*a) * Matrix::new(*b)).data; } == { *o = $p::mm(a, b); });
        ob!("C01", $rr, (a: &[[$t; $n]; $m], b: &[[$t; $q]; $n], o: &mut [[$t; $q]; $m]), { *o = (&Matrix::new(*a) * &Matrix::new(*b)).data; } == { *o = $p::mm(a, b); });
        ob!("C01", $vr, (a: &[[$t; $n]; $m], b: &[[$t; $q]; $n], o: &mut [[$t; $q]; $m]), { *o = (Matrix::new(*a) * &Matrix::new(*b)).data; } == { *o = $p::mm(a, b); });
        ob!("C01", $rv, (a: &[[$t; $n]; $m], b: &[[$t; $q]; $n], o: &mut [[$t; $q]; $m]), { *o = (&Matrix::new(*a) * Matrix::new(*b)).data; } == { *o = $p::mm(a, b); });
    };
}
macro_rules! square {
    ($p:ident, $t:ty, $n:literal, $id:literal, $diag:literal, $trace:literal) => {
        ob!("C01", $id, (o: &mut [[$t; $n]; $n]), { *o = Matrix::<$t, $n, $n>::identity().data; } == { for i in 0..$n { for j in 0..$n { o[i][j] = if i == j { 1.0 } else { 0.0 }; } } });
        ob!("C01", $diag, (a: &[$t; $n], o: &mut [[$t; $n]; $n], q: &mut [[$t; $n]; $n]), { *o = Matrix::<$t, $n, $n>::diag(a).data; *q = Matrix::<$t, $n, $n>::diag_from_vector(&Vector::new(*a)).data; } ==
            { for i in 0..$n { for j in 0..$n { o[i][j] = if i == j { a[i] } else { 0.0 }; q[i][j] = o[i][j]; } } });
        ob!("C01", $trace, (a: &[[$t; $n]; $n]) -> $t, { Matrix::new(*a).trace() } == { let mut x = 0.0; for i in 0..$n { x += a[i][i]; } x });
    };
}
ob!("C01", "flat4", (a: &[[f64; 4]; 4], o: &mut [f64; 16]), { *o = Matrix::new(*a).as_flat_array(); } == { for i in 0..4 { for j in 0..4 { o[i * 4 + j] = a[i][j]; } } });
ob!("C01", "flat4f", (a: &[[f32; 4]; 4], o: &mut [f32; 16]), { *o = Matrix::new(*a).as_flat_array(); } == { for i in 0..4 { for j in 0..4 { o[i * 4 + j] = a[i][j]; } } });
ob!("C01", "widen", (a: &[[f32; 3]; 2], o: &mut [[f64; 3]; 2], q: &mut [[f64; 3]; 2]), { *o = Matrix::<f64, 2, 3>::from(Matrix::new(*a)).data; *q = Matrix::new(*a).cast::<f64>().data; } ==
    { for i in 0..2 { for j in 0..3 { o[i][j] = a[i][j] as f64; q[i][j] = o[i][j]; } } });
ob!("C01", "narrow", (a: &[[f64; 3]; 2], o: &mut [[f32; 3]; 2], q: &mut [[f32; 3]; 2]), { *o = Matrix::<f32, 2, 3>::from(Matrix::new(*a)).data; *q = Matrix::new(*a).cast::<f32>().data; } ==
    { for i in 0..2 { for j in 0..3 { o[i][j] = a[i][j] as f32; q[i][j] = o[i][j]; } } });
ob!("C01", "macro_matrix", (a: &[f64; 4], o: &mut [[f64; 2]; 2]), { let m: Matrix<f64, 2, 2> = matrix![a[0], a[1]; a[2], a[3]]; *o = m.data; } == { *o = [[a[0], a[1]], [a[2], a[3]]]; });
include!("names2.rs");

macro_rules! max_abs {
    ($t:ty, $m:literal, $n:literal, $name:literal) => {
        ob!("C01", $name, (a: &[[$t; $n]; $m]) -> $t, { Matrix::new(*a).max_abs() } ==
            { let mut x: $t = 0.0; for i in 0..$m { for j in 0..$n { let q = if a[i][j] < 0.0 { -a[i][j] } else { a[i][j] }; x = if x < q { q } else { x }; } } x });
    };
}
max_abs!(f64, 1, 1, "maxabs11");
max_abs!(f64, 1, 2, "maxabs12");
max_abs!(f64, 2, 1, "maxabs21");
max_abs!(f64, 2, 2, "maxabs22");
max_abs!(f32, 1, 3, "maxabs13f");

// ---- larger shapes: every length-dependent path of the sums and products
macro_rules! big_vec { ($($t:literal $n:literal),*) => { $(
    ob!("C01", concat!("big_add_", $t), (a: &[f64; $n], b: &[f64; $n], o: &mut [[f64; $n]; 6]), { let (v, w) = (Vector::new(*a), Vector::new(*b)); let mut p = v; p += w; let mut q = v; q -= &w; *o = [(v + w).data, (&v - &w).data, (-v).data, p.data, q.data, (&v * 3.0).data]; } == { *o = [d::zip(a, b, |x, y| x + y), d::zip(a, b, |x, y| x - y), d::zip(a, a, |x, _| -x), d::zip(a, b, |x, y| x + y), d::zip(a, b, |x, y| x - y), d::zip(a, a, |x, _| x * 3.0)]; });
    ob!("C01", concat!("big_dot_", $t), (a: &[f64; $n], b: &[f64; $n]) -> [f64; 2], { [Vector::new(*a).dot(&Vector::new(*b)), Vector::new(*a) * Vector::new(*b)] } == { [d::dot(a, b), d::dot(a, b)] });
    ob!("C01", concat!("big_dot32_", $t), (a: &[f32; $n], b: &[f32; $n]) -> f32, { Vector::new(*a).dot(&Vector::new(*b)) } == { s::dot(a, b) });
    ob!("C01", concat!("big_norm_", $t), (a: &[f64; $n]) -> f64, { Vector::new(*a).norm() } == { f64::sqrt(d::dot(a, a)) });
    ob!("C01", concat!("big_index_", $t), (a: &[f64; $n]) -> [f64; $n], { let v = Vector::new(*a); let mut w = Vector::<f64, $n>::zeros(); for i in 0..$n { w[$n - 1 - i] = v[i]; } w.data } == { core::array::from_fn(|i| a[$n - 1 - i]) });
    ob!("C01", concat!("big_collect_", $t), (a: &[f64; $n]) -> [f64; $n], { a.iter().copied().collect::<Vector<f64, $n>>().data } == { *a });
    ob!("C01", concat!("big_outside_", $t), (a: &[f64; $n], i: usize) -> f64, { assume(i >= $n); Vector::new(*a)[i] } == { panic!() });
)* } }
big_vec!("33" 33, "64" 64, "100" 100);
macro_rules! big_mat { ($($t:literal $m:literal $n:literal $q:literal),*) => { $(
    ob!("C01", concat!("big_mm_", $t), (a: &[[f64; $n]; $m], b: &[[f64; $q]; $n], o: &mut [[f64; $q]; $m]), { *o = (Matrix::new(*a) * Matrix::new(*b)).data; } == { *o = d::mm(a, b); });
    ob!("C01", concat!("big_mm_ref_", $t), (a: &[[f64; $n]; $m], b: &[[f64; $q]; $n], o: &mut [[f64; $q]; $m]), { *o = (&Matrix::new(*a) * &Matrix::new(*b)).data; } == { *o = d::mm(a, b); });
    ob!("C01", concat!("big_mm32_", $t), (a: &[[f32; $n]; $m], b: &[[f32; $q]; $n], o: &mut [[f32; $q]; $m]), { *o = (Matrix::new(*a) * Matrix::new(*b)).data; } == { *o = s::mm(a, b); });
    ob!("C01", concat!("big_mv_", $t), (a: &[[f64; $n]; $m], b: &[f64; $n], o: &mut [f64; $m]), { *o = (Matrix::new(*a) * Vector::new(*b)).data; } == { *o = d::mv(a, b); });
    ob!("C01", concat!("big_transpose_", $t), (a: &[[f64; $n]; $m], o: &mut [[f64; $m]; $n]), { *o = Matrix::new(*a).transpose().data; } == { for i in 0..$m { for j in 0..$n { o[j][i] = a[i][j]; } } });
    ob!("C01", concat!("big_sum_", $t), (a: &[[f64; $n]; $m], b: &[[f64; $n]; $m], o: &mut [[[f64; $n]; $m]; 3]), { let (a, b) = (Matrix::new(*a), Matrix::new(*b)); *o = [(a + b).data, (a - b).data, (a * 3.0).data]; } == { *o = [d::zip2(a, b, |x, y| x + y), d::zip2(a, b, |x, y| x - y), d::zip2(a, a, |x, _| x * 3.0)]; });
)* } }
big_mat!("2_33_2" 2 33 2, "33_2_3" 33 2 3, "3_2_33" 3 2 33, "1_64_1" 1 64 1, "24_24_3" 24 24 3, "3_17_24" 3 17 24, "20_20_20" 20 20 20);

// ---- every length from 7 to 40 and some beyond, in every ownership form
macro_rules! all_len { ($($t:literal $n:literal),*) => { $(
    ob!("C01", concat!("len_forms_", $t), (a: &[f64; $n], b: &[f64; $n], k: f64, o: &mut [[f64; $n]; 18]), {
        let (v, w) = (Vector::new(*a), Vector::new(*b));
        let mut p = v; p += w; let mut q = v; q += &w; let mut r = v; r -= w; let mut s = v; s -= &w;
        *o = [(v + w).data, (&v + &w).data, (v + &w).data, (&v + w).data, p.data, q.data,
              (v - w).data, (&v - &w).data, (v - &w).data, (&v - w).data, r.data, s.data,
              (-v).data, (-&v).data, (v * k).data, (&v * k).data, (v / k).data, (&v / k).data];
    } == {
        let (p, m, e, x, y) = (d::zip(a, b, |x, y| x + y), d::zip(a, b, |x, y| x - y), d::zip(a, a, |x, _| -x), d::zip(a, a, |x, _| x * k), d::zip(a, a, |x, _| x / k));
        *o = [p, p, p, p, p, p, m, m, m, m, m, m, e, e, x, x, y, y];
    });
    ob!("C01", concat!("len_dots_", $t), (a: &[f64; $n], b: &[f64; $n]) -> [f64; 7], { let (v, w) = (Vector::new(*a), Vector::new(*b)); [v.dot(&w), v * w, &v * &w, v * &w, &v * w, v.norm(), v.magnitude()] } == { let x = d::dot(a, b); let n = d::dot(a, a).sqrt(); [x, x, x, x, x, n, n] });
    ob!("C01", concat!("len_dots32_", $t), (a: &[f32; $n], b: &[f32; $n]) -> [f32; 3], { let (v, w) = (Vector::new(*a), Vector::new(*b)); [v.dot(&w), v * w, v.norm()] } == { let x = s::dot(a, b); [x, x, s::dot(a, a).sqrt()] });
    ob!("C01", concat!("len_mv_", $t), (a: &[[f64; $n]; 2], b: &[f64; $n], o: &mut [[f64; 2]; 4]), { let (m, v) = (Matrix::new(*a), Vector::new(*b)); *o = [(m * v).data, (&m * &v).data, (m * &v).data, (&m * v).data]; } == { let x = d::mv(a, b); *o = [x, x, x, x]; });
    ob!("C01", concat!("len_mv_tall_", $t), (a: &[[f64; 2]; $n], b: &[f64; 2], o: &mut [f64; $n]), { *o = (Matrix::new(*a) * Vector::new(*b)).data; } == { *o = d::mv(a, b); });
    ob!("C01", concat!("len_mm_inner_", $t), (a: &[[f64; $n]; 2], b: &[[f64; 2]; $n], o: &mut [[f64; 2]; 2]), { *o = (Matrix::new(*a) * Matrix::new(*b)).data; } == { *o = d::mm(a, b); });
    ob!("C01", concat!("len_mm_rows_", $t), (a: &[[f64; 2]; $n], b: &[[f64; 2]; 2], o: &mut [[f64; 2]; $n]), { *o = (Matrix::new(*a) * Matrix::new(*b)).data; } == { *o = d::mm(a, b); });
    ob!("C01", concat!("len_mm_cols_", $t), (a: &[[f64; 2]; 2], b: &[[f64; $n]; 2], o: &mut [[f64; $n]; 2]), { *o = (Matrix::new(*a) * Matrix::new(*b)).data; } == { *o = d::mm(a, b); });
    ob!("C01", concat!("len_shape_", $t), (a: &[f64; $n], o: &mut [[f64; $n]; 5], r: &mut [[f64; $n]; 1], c: &mut [[f64; 1]; $n]), {
        let v = Vector::from(*a); *r = v.row().data; *c = v.col().data;
        let mut i = 0; for x in v.iter() { o[0][i] = *x; i += 1; }
        i = 0; for x in v.iter_copied() { o[1][i] = x; i += 1; }
        i = 0; for x in v { o[2][i] = x; i += 1; }
        let mut w = v; for x in w.iter_mut() { *x = *x * 2.0; } o[3] = w.data;
        o[4] = Matrix::new([*a]).transpose().transpose().data[0];
    } == { *r = [*a]; for i in 0..$n { c[i][0] = a[i]; } *o = [*a, *a, *a, d::zip(a, a, |x, _| x * 2.0), *a]; });
    ob!("C01", concat!("len_matrix_", $t), (a: &[[f64; $n]; 2], b: &[[f64; $n]; 2], k: f64, o: &mut [[[f64; $n]; 2]; 5], t: &mut [[f64; 2]; $n], u: &mut [[f64; $n]; 2]), {
        let (p, q) = (Matrix::new(*a), Matrix::new(*b)); *o = [(p + q).data, (p - q).data, (-p).data, (p * k).data, (p / k).data]; *t = p.transpose().data; *u = Matrix::outer(&Vector::new([k, 2.0]), &Vector::new(a[1])).data;
    } == {
        *o = [d::zip2(a, b, |x, y| x + y), d::zip2(a, b, |x, y| x - y), d::zip2(a, a, |x, _| -x), d::zip2(a, a, |x, _| x * k), d::zip2(a, a, |x, _| x / k)];
        for i in 0..2 { for j in 0..$n { t[j][i] = a[i][j]; } } for j in 0..$n { u[0][j] = k * a[1][j]; u[1][j] = 2.0 * a[1][j]; }
    });
    ob!("C01", concat!("len_diag_", $t), (a: &[f64; $n]) -> [f64; 3], { let m = Matrix::<f64, $n, $n>::diag(a); [m.trace(), Matrix::<f64, $n, $n>::identity().trace(), m[($n - 1, $n - 1)] + m[($n - 1, $n - 2)]] } == { let mut x = 0.0; for i in 0..$n { x += a[i]; } [x, $n as f64, a[$n - 1]] });
)* } }
all_len!("7" 7, "8" 8, "9" 9, "10" 10, "11" 11, "12" 12, "13" 13, "14" 14, "15" 15, "16" 16, "17" 17, "18" 18, "19" 19, "20" 20, "21" 21, "22" 22, "23" 23, "24" 24, "25" 25, "26" 26, "27" 27, "28" 28, "29" 29, "30" 30, "31" 31, "32" 32, "33" 33, "34" 34, "35" 35, "36" 36, "37" 37, "38" 38, "39" 39, "40" 40, "47" 47, "63" 63, "65" 65, "96" 96);
