#![allow(dead_code, unused, non_snake_case)]
#[macro_use]
#[path = "../prelude.rs"]
mod prelude;
use prelude::*;
use aether_core::math::{Matrix, Vector};
use aether_test::assert::{function::*, matrix::*, vector::*};

fn far(x: f64, y: f64, tol: f64) -> bool {
    !((x - y).abs() <= tol)
}

/// every difference is a number (the differences that are not have their own obligations below)
fn all_numbers<const K: usize>(a: &[f64; K], b: &[f64; K]) {
    let mut i = 0;
    while i < K {
        assume((a[i] - b[i]).abs() >= 0.0);
        i += 1;
    }
}

macro_rules! vecs {
    ($($n:literal),*) => {$(
        ob!("C33", concat!("vector_result_", $n), (a: &[f64; $n], b: &[f64; $n], tol: f64) -> (usize, f64, f64, f64), {
            match vector_approx_eq(&Vector::new(*a), &Vector::new(*b), tol) {
                Ok(()) => (usize::MAX, 0.0, 0.0, 0.0),
                Err(VectorAssertError::ValueMismatch { index, left, right, diff }) => (index, left, right, diff),
                Err(_) => (usize::MAX - 1, 0.0, 0.0, 0.0),
            }
        } == {
            let mut i = 0;
            while i < $n {
                if far(a[i], b[i], tol) {
                    return (i, a[i], b[i], (a[i] - b[i]).abs());
                }
                i += 1;
            }
            (usize::MAX, 0.0, 0.0, 0.0)
        });
        ob!("C33", concat!("vector_assert_", $n), (a: &[f64; $n], b: &[f64; $n], tol: f64), {
            assert_vector_approx_eq(&Vector::new(*a), &Vector::new(*b), tol)
        } == {
            let mut i = 0;
            while i < $n {
                if far(a[i], b[i], tol) {
                    panic!()
                }
                i += 1;
            }
        });
        ob!("C33", concat!("vector_finite_", $n), (a: &[f64; $n]), {
            assert_vector_finite(&Vector::new(*a))
        } == {
            let mut i = 0;
            while i < $n {
                if !(a[i].abs() < f64::INFINITY) {
                    panic!()
                }
                i += 1;
            }
        });
        // the largest difference is within a bound exactly when every difference is
        ob!("C33", concat!("vector_max_bound_", $n), (a: &[f64; $n], b: &[f64; $n], tol: f64) -> bool, {
            assume(tol >= 0.0);
            all_numbers(a, b);
            vector_max_abs_diff(&Vector::new(*a), &Vector::new(*b)) <= tol
        } == {
            assume(tol >= 0.0);
            let mut ok = true;
            let mut i = 0;
            while i < $n {
                if far(a[i], b[i], tol) {
                    ok = false;
                }
                i += 1;
            }
            ok
        });
    )*};
}
vecs!(1, 2, 3, 4);

macro_rules! mats {
    ($($m:literal $n:literal),*) => {$(
        ob!("C33", concat!("matrix_result_", $m, "x", $n), (a: &[[f64; $n]; $m], b: &[[f64; $n]; $m], tol: f64) -> (usize, usize, f64, f64, f64), {
            match matrix_approx_eq(&Matrix::new(*a), &Matrix::new(*b), tol) {
                Ok(()) => (usize::MAX, 0, 0.0, 0.0, 0.0),
                Err(MatrixAssertError::ValueMismatch { row, col, left, right, diff }) => (row, col, left, right, diff),
                Err(_) => (usize::MAX - 1, 0, 0.0, 0.0, 0.0),
            }
        } == {
            let mut i = 0;
            while i < $m {
                let mut j = 0;
                while j < $n {
                    if far(a[i][j], b[i][j], tol) {
                        return (i, j, a[i][j], b[i][j], (a[i][j] - b[i][j]).abs());
                    }
                    j += 1;
                }
                i += 1;
            }
            (usize::MAX, 0, 0.0, 0.0, 0.0)
        });
        ob!("C33", concat!("matrix_assert_", $m, "x", $n), (a: &[[f64; $n]; $m], b: &[[f64; $n]; $m], tol: f64), {
            assert_matrix_approx_eq(&Matrix::new(*a), &Matrix::new(*b), tol)
        } == {
            let mut i = 0;
            while i < $m {
                let mut j = 0;
                while j < $n {
                    if far(a[i][j], b[i][j], tol) {
                        panic!()
                    }
                    j += 1;
                }
                i += 1;
            }
        });
        ob!("C33", concat!("matrix_finite_", $m, "x", $n), (a: &[[f64; $n]; $m]), {
            assert_matrix_finite(&Matrix::new(*a))
        } == {
            let mut i = 0;
            while i < $m {
                let mut j = 0;
                while j < $n {
                    if !(a[i][j].abs() < f64::INFINITY) {
                        panic!()
                    }
                    j += 1;
                }
                i += 1;
            }
        });
        ob!("C33", concat!("frobenius_", $m, "x", $n), (a: &[[f64; $n]; $m], b: &[[f64; $n]; $m]) -> (f64, f64), {
            (matrix_frobenius_norm(&Matrix::new(*a)), matrix_diff_frobenius(&Matrix::new(*a), &Matrix::new(*b)))
        } == {
            let (mut s, mut t) = (0.0, 0.0);
            let mut i = 0;
            while i < $m {
                let mut j = 0;
                while j < $n {
                    s += a[i][j] * a[i][j];
                    t += (a[i][j] - b[i][j]) * (a[i][j] - b[i][j]);
                    j += 1;
                }
                i += 1;
            }
            (s.sqrt(), t.sqrt())
        });
    )*};
}
mats!(1 1, 2 2, 1 3, 3 2, 2 4);

macro_rules! maxs {
    ($($m:literal $n:literal),*) => {$(
        ob!("C33", concat!("matrix_max_bound_", $m, "x", $n), (a: &[[f64; $n]; $m], b: &[[f64; $n]; $m], tol: f64) -> bool, {
            assume(tol >= 0.0);
            for i in 0..$m { all_numbers(&a[i], &b[i]); }
            matrix_max_abs_diff(&Matrix::new(*a), &Matrix::new(*b)) <= tol
        } == {
            assume(tol >= 0.0);
            let mut ok = true;
            let mut i = 0;
            while i < $m {
                let mut j = 0;
                while j < $n {
                    if far(a[i][j], b[i][j], tol) {
                        ok = false;
                    }
                    j += 1;
                }
                i += 1;
            }
            ok
        });
    )*};
}
maxs!(1 1, 2 2, 1 3, 3 1);

macro_rules! sym {
    ($($n:literal),*) => {$(
        ob!("C33", concat!("symmetric_", $n), (a: &[[f64; $n]; $n], tol: f64), {
            assert_matrix_symmetric(&Matrix::new(*a), tol)
        } == {
            let mut i = 0;
            while i < $n {
                let mut j = i + 1;
                while j < $n {
                    if far(a[i][j], a[j][i], tol) {
                        panic!()
                    }
                    j += 1;
                }
                i += 1;
            }
        });
    )*};
}
sym!(1, 2, 3, 4);

extern "Rust" {
    fn uf_f(x: f64) -> f64;
    fn uf_g(x: f64) -> f64;
}
fn f(x: f64) -> f64 {
    unsafe { uf_f(x) }
}
fn g(x: f64) -> f64 {
    unsafe { uf_g(x) }
}
macro_rules! grid {
    ($($k:literal),*) => {$(
        // every sample of the grid, ends included, is compared
        ob!("C33", concat!("grid_pass_", $k), (a: f64, b: f64, tol: f64) -> bool, {
            assume(tol >= 0.0);
            for i in 0..=$k { let x = a + (b - a) * (i as f64 / $k as f64); assume((g(x) - f(x)).abs() >= 0.0); }
            assert_max_abs_error_on_grid(f, g, a, b, $k, tol).1 <= tol
        } == {
            assume(tol >= 0.0);
            let mut i = 0;
            while i <= $k {
                let x = a + (b - a) * (i as f64 / $k as f64);
                if far(g(x), f(x), tol) {
                    panic!()
                }
                i += 1;
            }
            true
        });
        ob!("C33", concat!("grid_worst_", $k), (a: f64, b: f64, tol: f64) -> (f64, f64), {
            assume(tol == tol);
            for i in 0..=$k { let x = a + (b - a) * (i as f64 / $k as f64); assume((g(x) - f(x)).abs() >= 0.0); }
            assert_max_abs_error_on_grid(f, g, a, b, $k, tol)
        } == {
            let (mut at, mut worst) = (a, 0.0);
            let mut i = 0;
            let mut bad = false;
            while i <= $k {
                let x = a + (b - a) * (i as f64 / $k as f64);
                let e = (g(x) - f(x)).abs();
                if e > worst {
                    worst = e;
                    at = x;
                }
                if !(e >= 0.0) {
                    bad = true;
                }
                i += 1;
            }
            if bad || !(worst <= tol) {
                panic!()
            }
            (at, worst)
        });
    )*};
}
grid!(1, 2, 3);
ob!("C33", "grid_empty", (a: f64, b: f64, tol: f64) -> (f64, f64), {
    assert_max_abs_error_on_grid(f, g, a, b, 0, tol)
} == {
    panic!()
});
// a difference that is not a number is a failure
ob!("C33", "nan_vector_max", (x: f64, y: f64, tol: f64) -> bool, { assume(tol >= 0.0 && y - x == 0.0); vector_max_abs_diff(&Vector::new([x, f64::NAN]), &Vector::new([y, 0.0])) <= tol } == { false });
ob!("C33", "nan_matrix_max", (x: f64, y: f64, tol: f64) -> bool, { assume(tol >= 0.0 && y - x == 0.0); matrix_max_abs_diff(&Matrix::new([[x, f64::NAN]]), &Matrix::new([[y, 0.0]])) <= tol } == { false });
ob!("C33", "nan_grid", (a: f64, b: f64, tol: f64) -> bool, { assume(tol >= 0.0); assert_max_abs_error_on_grid(|x| x, |_| f64::NAN, a, b, 1, tol).1 <= tol } == { panic!() });
ob!("C33", "nan_grid_tolerance", (a: f64, b: f64) -> f64, { assert_max_abs_error_on_grid(|_| 1.0, |_| 2.0, a, b, 1, f64::NAN).1 } == { panic!() });
