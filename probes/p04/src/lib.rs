#![allow(dead_code, unused)]
#[macro_use]
#[path = "../prelude.rs"]
mod prelude;
mod stream;
use aether_core::attitude::*;
use aether_core::coordinate::*;
use aether_core::math::*;
use aether_core::reference_frame::*;
use prelude::*;
use stream::*;

type W = ICRF<f64>;
type B = Body<f64>;

// ------------------------------------------------------------------ what is written
ob!("C04", "serde_vector", (x: &[f64; 3]) -> Log, { written(&Vector::new(*x)) } == { log(&[tup(3.0), num(x[0]), num(x[1]), num(x[2]), END]) });
ob!("C04", "serde_vector_1", (x: f64) -> Log, { written(&Vector::new([x])) } == { log(&[tup(1.0), num(x), END]) });
ob!("C04", "serde_vector_f32", (x: &[f32; 4]) -> Log, { written(&Vector::new(*x)) } == { log(&[tup(4.0), num(x[0] as f64), num(x[1] as f64), num(x[2] as f64), num(x[3] as f64), END]) });
ob!("C04", "serde_matrix", (x: &[[f64; 3]; 2]) -> Log, { written(&Matrix::new(*x)) } == { log(&[seq(2.0), seq(3.0), num(x[0][0]), num(x[0][1]), num(x[0][2]), END, seq(3.0), num(x[1][0]), num(x[1][1]), num(x[1][2]), END, END]) });
ob!("C04", "serde_matrix_tall", (x: &[[f64; 1]; 3]) -> Log, { written(&Matrix::new(*x)) } == { log(&[seq(3.0), seq(1.0), num(x[0][0]), END, seq(1.0), num(x[1][0]), END, seq(1.0), num(x[2][0]), END, END]) });

// ------------------------------------------------------------------ what is read
#[inline(always)]
fn vec3(t: &[Tok]) -> (bool, [f64; 3]) { match read::<Vector<f64, 3>>(t) { Some(v) => (true, v.data), None => (false, [0.0; 3]) } }
ob!("C04", "read_vector", (x: &[f64; 3]) -> (bool, [f64; 3]), { vec3(&[tup(3.0), num(x[0]), num(x[1]), num(x[2]), END]) } == { (true, *x) });
ob!("C04", "read_vector_short", (x: &[f64; 3]) -> (bool, [f64; 3]), { vec3(&[tup(3.0), num(x[0]), num(x[1]), END]) } == { (false, [0.0; 3]) });
ob!("C04", "read_vector_long", (x: &[f64; 3]) -> (bool, [f64; 3]), { vec3(&[tup(3.0), num(x[0]), num(x[1]), num(x[2]), num(x[0]), END]) } == { (false, [0.0; 3]) });
ob!("C04", "read_vector_bad", (x: &[f64; 3]) -> (bool, [f64; 3]), { vec3(&[tup(3.0), num(x[0]), num(x[1]), BAD, END]) } == { (false, [0.0; 3]) });
#[inline(always)]
fn mat(t: &[Tok]) -> (bool, [[f64; 3]; 2]) { match read::<Matrix<f64, 2, 3>>(t) { Some(v) => (true, v.data), None => (false, [[0.0; 3]; 2]) } }
ob!("C04", "read_matrix", (x: &[[f64; 3]; 2]) -> (bool, [[f64; 3]; 2]), { mat(&[seq(2.0), seq(3.0), num(x[0][0]), num(x[0][1]), num(x[0][2]), END, seq(3.0), num(x[1][0]), num(x[1][1]), num(x[1][2]), END, END]) } == { (true, *x) });

// a format that passes over surplus items in silence and says anything about how many are left
#[inline(always)]
fn hinted(t: &[Tok], lax: bool, some: bool, n: usize) -> (bool, [[f64; 3]; 2]) { match read_as::<Matrix<f64, 2, 3>>(t, lax, if some { Some(n) } else { None }) { Some(v) => (true, v.data), None => (false, [[0.0; 3]; 2]) } }
#[inline(always)]
fn hinted3(t: &[Tok], lax: bool, some: bool, n: usize) -> (bool, [f64; 3]) { match read_as::<Vector<f64, 3>>(t, lax, if some { Some(n) } else { None }) { Some(v) => (true, v.data), None => (false, [0.0; 3]) } }
ob!("C04", "read_matrix_any_hint", (x: &[[f64; 3]; 2], lax: bool, some: bool, n: usize) -> (bool, [[f64; 3]; 2]), { hinted(&[seq(2.0), seq(3.0), num(x[0][0]), num(x[0][1]), num(x[0][2]), END, seq(3.0), num(x[1][0]), num(x[1][1]), num(x[1][2]), END, END], lax, some, n) } == { (true, *x) });
ob!("C04", "read_vector_any_hint", (x: &[f64; 3], lax: bool, some: bool, n: usize) -> (bool, [f64; 3]), { hinted3(&[tup(3.0), num(x[0]), num(x[1]), num(x[2]), END], lax, some, n) } == { (true, *x) });
ob!("C04", "read_vector_short_any_hint", (x: &[f64; 3], lax: bool, some: bool, n: usize) -> (bool, [f64; 3]), { hinted3(&[tup(3.0), num(x[0]), num(x[1]), END], lax, some, n) } == { (false, [0.0; 3]) });
macro_rules! rejected { ($n:literal, $($t:expr),*) => { ob!("C04", concat!("read_rejected_", $n), (lax: bool, some: bool, n: usize) -> (bool, [[f64; 3]; 2]), { hinted(&[$($t),*], lax, some, n) } == { (false, [[0.0; 3]; 2]) }); } }
rejected!("long_first_row", seq(2.0), seq(4.0), num(0.0), num(1.0), num(2.0), num(9.0), END, seq(3.0), num(3.0), num(4.0), num(5.0), END, END);
rejected!("long_last_row", seq(2.0), seq(3.0), num(0.0), num(1.0), num(2.0), END, seq(4.0), num(3.0), num(4.0), num(5.0), num(9.0), END, END);
rejected!("short_first_row", seq(2.0), seq(2.0), num(0.0), num(1.0), END, seq(3.0), num(3.0), num(4.0), num(5.0), END, END);
rejected!("short_last_row", seq(2.0), seq(3.0), num(0.0), num(1.0), num(2.0), END, seq(2.0), num(3.0), num(4.0), END, END);
rejected!("many_rows", seq(3.0), seq(3.0), num(0.0), num(1.0), num(2.0), END, seq(3.0), num(3.0), num(4.0), num(5.0), END, seq(3.0), num(6.0), num(7.0), num(8.0), END, END);
rejected!("few_rows", seq(1.0), seq(3.0), num(0.0), num(1.0), num(2.0), END, END);
rejected!("flat", seq(6.0), num(0.0), num(1.0), num(2.0), num(3.0), num(4.0), num(5.0), END);

// ------------------------------------------------------------------ every element made is dropped once
#[inline(always)]
fn counted(t: &[Tok]) -> (bool, [i32; 8]) { unsafe { LIVE = [0; 8]; } let ok = read::<Matrix<Count, 2, 3>>(t).is_some(); (ok, unsafe { LIVE }) }
ob!("C04", "drop_read", () -> (bool, [i32; 8]), { counted(&[seq(2.0), seq(3.0), num(0.0), num(1.0), num(2.0), END, seq(3.0), num(3.0), num(4.0), num(5.0), END, END]) } == { unsafe { LIVE = [0; 8]; } (true, [0; 8]) });
macro_rules! broken { ($n:literal, $($t:expr),*) => { ob!("C04", concat!("drop_", $n), () -> (bool, [i32; 8]), { counted(&[$($t),*]) } == { unsafe { LIVE = [0; 8]; } (false, [0; 8]) }); } }
broken!("bad_element", seq(2.0), seq(3.0), num(0.0), num(1.0), num(2.0), END, seq(3.0), num(3.0), BAD, num(5.0), END, END);
broken!("short_row", seq(2.0), seq(3.0), num(0.0), num(1.0), num(2.0), END, seq(3.0), num(3.0), num(4.0), END, END);
broken!("long_row", seq(2.0), seq(3.0), num(0.0), num(1.0), num(2.0), END, seq(3.0), num(3.0), num(4.0), num(5.0), num(6.0), END, END);
broken!("few_rows", seq(2.0), seq(3.0), num(0.0), num(1.0), num(2.0), END, END);
broken!("many_rows", seq(2.0), seq(3.0), num(0.0), num(1.0), num(2.0), END, seq(3.0), num(3.0), num(4.0), num(5.0), END, num(6.0), END);
broken!("bad_row", seq(2.0), seq(3.0), num(0.0), num(1.0), num(2.0), END, BAD, END);
broken!("bad_extra", seq(2.0), seq(3.0), num(0.0), num(1.0), num(2.0), BAD, END, END);
broken!("bad_extra_row", seq(2.0), seq(3.0), num(0.0), num(1.0), num(2.0), END, seq(3.0), num(3.0), num(4.0), num(5.0), END, BAD, END);

// ------------------------------------------------------------------ written and read again
#[inline(always)]
fn again<T: serde::Serialize + for<'a> serde::Deserialize<'a>>(v: &T) -> Option<T> {
    let mut r = Rec { k: [0; K], d: [0.0; K], n: 0 };
    if serde::Serialize::serialize(v, &mut r).is_err() { return None; }
    let mut t = [(0u8, 0.0); K];
    let mut i = 0;
    while i < r.n { t[i] = (r.k[i], r.d[i]); i += 1; }
    read::<T>(&t[..r.n])
}
#[inline(always)]
fn sent<T: bincode::Encode + bincode::Decode<()>>(v: &T) -> Option<T> {
    let mut b = [0u8; 640];
    let n = match bincode::encode_into_slice(v, &mut b, bincode::config::standard()) { Ok(n) => n, Err(_) => return None };
    match bincode::decode_from_slice::<T, _>(&b[..n], bincode::config::standard()) { Ok((v, m)) if m == n => Some(v), _ => None }
}
macro_rules! trip {
    ($n:expr, ($x:ident : $t:ty) -> $r:ty, $make:expr, $v:ident => $get:expr, $f:ident) => {
        ob!("C04", concat!(stringify!($f), "_", $n), ($x: $t) -> Option<$r>, { match $f(&$make) { Some($v) => Some($get), None => None } } == { let $v = $make; Some($get) });
    };
}
macro_rules! both { ($n:expr, ($x:ident : $t:ty) -> $r:ty, $make:expr, $v:ident => $get:expr) => { trip!($n, ($x: $t) -> $r, $make, $v => $get, again); trip!($n, ($x: $t) -> $r, $make, $v => $get, sent); } }
both!("vector", (x: &[f64; 3]) -> [f64; 3], Vector::new(*x), v => v.data);
trip!("vector_f32", (x: &[f32; 4]) -> [f32; 4], Vector::new(*x), v => v.data, again);
ob!("C04", "sent_f32", (x: f32, y: f32) -> (bool, f64, f64), { match sent(&Vector::new([x, y])) { Some(v) => (true, v.data[0] as f64, v.data[1] as f64), None => (false, 0.0, 0.0) } } == { (true, x as f64, y as f64) });
both!("matrix", (x: &[[f64; 3]; 2]) -> [[f64; 3]; 2], Matrix::new(*x), v => v.data);
both!("quaternion", (x: &[f64; 4]) -> [f64; 4], Quaternion::<f64, W, B>::new(x[0], x[1], x[2], x[3]), v => v.data.data);
both!("dcm", (x: &[[f64; 3]; 3]) -> [[f64; 3]; 3], DirectionCosineMatrix::<f64, W, B>::from_matrix(Matrix::new(*x)), v => v.as_matrix().data);
both!("euler", (x: &[f64; 3]) -> [f64; 3], Euler::<f64, W, B>::new(x[0], x[1], x[2]), v => v.data.data);
both!("cartesian", (x: &[f64; 3]) -> [f64; 3], Cartesian::<f64, W>::new(x[0], x[1], x[2]), v => v.data.data);
both!("body", (x: &[[f64; 3]; 2]) -> [[f64; 3]; 2], Body::<f64>::new(Cartesian::new(x[0][0], x[0][1], x[0][2]), Cartesian::new(x[1][0], x[1][1], x[1][2])), v => [v.mass_center.data.data, v.lever_arm.data.data]);
trip!("assembly", (x: &[[f64; 3]; 2]) -> [[f64; 3]; 2], Assembly::<f64>::new(Cartesian::new(x[0][0], x[0][1], x[0][2]), Cartesian::new(x[1][0], x[1][1], x[1][2])), v => [v.mass_center.data.data, v.lever_arm.data.data], again);
both!("icrf", (x: f64) -> f64, ICRF::<f64> { epoch: x }, v => v.epoch);
trip!("ned", (x: f64) -> f64, NED::<f64> { origin: x }, v => v.origin, again);
trip!("itrf", (x: f64) -> f64, ITRF::<f64> { epoch: x }, v => v.epoch, again);

// other sizes
macro_rules! trip_vec { ($($n:literal),*) => { $( both!(concat!("vector_", $n), (x: &[f64; $n]) -> [f64; $n], Vector::new(*x), v => v.data); )* } }
trip_vec!(1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 24, 31, 32, 33, 40, 48, 63, 64);
macro_rules! trip_mat { ($($n:literal: $r:literal $c:literal),*) => { $( both!(concat!("matrix_", $n), (x: &[[f64; $c]; $r]) -> [[f64; $c]; $r], Matrix::new(*x), v => v.data); )* } }
trip_mat!("1x1": 1 1, "1x2": 1 2, "1x3": 1 3, "1x4": 1 4, "2x1": 2 1, "3x1": 3 1, "4x1": 4 1, "2x2": 2 2, "3x2": 3 2, "2x4": 2 4, "4x2": 4 2, "3x4": 3 4, "4x3": 4 3, "5x5": 5 5, "6x6": 6 6, "1x9": 1 9, "9x1": 9 1, "2x9": 2 9, "9x2": 9 2, "1x5": 1 5, "5x1": 5 1, "3x3": 3 3, "4x4": 4 4, "5x7": 5 7, "7x5": 7 5, "6x9": 6 9, "2x17": 2 17, "17x2": 17 2);

// ------------------------------------------------------------------ order of the compact encoding, and elements that fail
/// an element whose encoding is an event and whose decoding takes the next number of a script
pub struct Ev(pub f64, pub usize);
extern "Rust" { fn ev_put(x: f64); }
static mut NEXT: usize = 0;
impl Drop for Ev { #[inline(always)] fn drop(&mut self) { unsafe { LIVE[self.1] -= 1; } } }
impl bincode::Encode for Ev { #[inline(always)] fn encode<X: bincode::enc::Encoder>(&self, _: &mut X) -> Result<(), bincode::error::EncodeError> { unsafe { ev_put(self.0); } Ok(()) } }
impl<const F: usize> bincode::Decode<At<F>> for Ev {
    #[inline(always)]
    fn decode<D: bincode::de::Decoder<Context = At<F>>>(_: &mut D) -> Result<Ev, bincode::error::DecodeError> {
        let i = unsafe { NEXT };
        if i == F { return Err(bincode::error::DecodeError::Other("")); }
        unsafe { NEXT = i + 1; LIVE[i] += 1; }
        Ok(Ev(i as f64, i))
    }
}
impl<'de, const F: usize> bincode::BorrowDecode<'de, At<F>> for Ev {
    #[inline(always)]
    fn borrow_decode<D: bincode::de::BorrowDecoder<'de, Context = At<F>>>(d: &mut D) -> Result<Ev, bincode::error::DecodeError> { <Ev as bincode::Decode<At<F>>>::decode(d) }
}
/// the position of the element that fails
pub struct At<const F: usize>;
ob!("C04", "sent_order", (x: &[[f64; 3]; 2]) -> bool, {
    let m = Matrix { data: [[Ev(x[0][0], 0), Ev(x[0][1], 0), Ev(x[0][2], 0)], [Ev(x[1][0], 0), Ev(x[1][1], 0), Ev(x[1][2], 0)]] };
    let r = bincode::encode_into_slice(&m, &mut [0u8; 1], bincode::config::standard()).is_ok();
    core::mem::forget(m);
    r
} == { unsafe { ev_put(x[0][0]); ev_put(x[0][1]); ev_put(x[0][2]); ev_put(x[1][0]); ev_put(x[1][1]); ev_put(x[1][2]); } true });
#[inline(always)]
fn taken<const F: usize>() -> (bool, [f64; 6], [i32; 8]) {
    unsafe { LIVE = [0; 8]; NEXT = 0; }
    let (ok, v) = match bincode::decode_from_slice_with_context::<At<F>, Matrix<Ev, 2, 3>, _>(&[0u8; 1], bincode::config::standard(), At::<F>) {
        Ok((m, _)) => (true, [m.data[0][0].0, m.data[0][1].0, m.data[0][2].0, m.data[1][0].0, m.data[1][1].0, m.data[1][2].0]),
        Err(_) => (false, [0.0; 6]),
    };
    unsafe { NEXT = 0; }
    (ok, v, unsafe { LIVE })
}
#[inline(always)]
fn lent<const F: usize>() -> (bool, [f64; 6], [i32; 8]) {
    unsafe { LIVE = [0; 8]; NEXT = 0; }
    let (ok, v) = match bincode::borrow_decode_from_slice_with_context::<At<F>, Matrix<Ev, 2, 3>, _>(&[0u8; 1], bincode::config::standard(), At::<F>) {
        Ok((m, _)) => (true, [m.data[0][0].0, m.data[0][1].0, m.data[0][2].0, m.data[1][0].0, m.data[1][1].0, m.data[1][2].0]),
        Err(_) => (false, [0.0; 6]),
    };
    unsafe { NEXT = 0; }
    (ok, v, unsafe { LIVE })
}
ob!("C04", "taken_in_order", () -> (bool, [f64; 6], [i32; 8]), { taken::<9>() } == { unsafe { LIVE = [0; 8]; NEXT = 0; } (true, [0.0, 1.0, 2.0, 3.0, 4.0, 5.0], [0; 8]) });
ob!("C04", "lent_in_order", () -> (bool, [f64; 6], [i32; 8]), { lent::<9>() } == { unsafe { LIVE = [0; 8]; NEXT = 0; } (true, [0.0, 1.0, 2.0, 3.0, 4.0, 5.0], [0; 8]) });
macro_rules! fails { ($($f:literal),*) => { $(
    ob!("C04", concat!("taken_fails_", $f), () -> (bool, [f64; 6], [i32; 8]), { taken::<$f>() } == { unsafe { LIVE = [0; 8]; NEXT = 0; } (false, [0.0; 6], [0; 8]) });
    ob!("C04", concat!("lent_fails_", $f), () -> (bool, [f64; 6], [i32; 8]), { lent::<$f>() } == { unsafe { LIVE = [0; 8]; NEXT = 0; } (false, [0.0; 6], [0; 8]) });
)* } }
fails!(0, 1, 2, 3, 4, 5);

// ------------------------------------------------------------------ cut or damaged input is an error, never a panic
ob!("C04", "sent_cut", (x: &[f64; 3]) -> bool, {
    let mut b = [0u8; 32];
    let n = bincode::encode_into_slice(&Vector::new(*x), &mut b, bincode::config::standard()).unwrap_or(0);
    n == 24 && bincode::decode_from_slice::<Vector<f64, 3>, _>(&b[..23], bincode::config::standard()).is_err()
} == { true });
ob!("C04", "sent_no_room", (x: &[f64; 3]) -> bool, { bincode::encode_into_slice(&Vector::new(*x), &mut [0u8; 23], bincode::config::standard()).is_err() } == { true });

// every size: what was written with one token missing or one token too many is refused
#[inline(always)]
fn spoiled<T: serde::Serialize + for<'a> serde::Deserialize<'a>>(v: &T, lax: bool, without: usize, twice: usize) -> bool {
    let mut r = Rec { k: [0; K], d: [0.0; K], n: 0 };
    if serde::Serialize::serialize(v, &mut r).is_err() { return true; }
    let mut t = [(0u8, 0.0); K];
    let (mut i, mut m) = (0, 0);
    while i < r.n {
        if i != without { t[m] = (r.k[i], r.d[i]); m += 1; }
        if i == twice { t[m] = (r.k[i], r.d[i]); m += 1; }
        i += 1;
    }
    read_as::<T>(&t[..m], lax, None).is_some()
}
const NONE: usize = usize::MAX;
macro_rules! spoil_vec { ($($n:literal),*) => { $(
    ob!("C04", concat!("vector_missing_", $n), (x: &[f64; $n]) -> bool, { let v = Vector::new(*x); spoiled(&v, false, 1, NONE) || spoiled(&v, false, $n / 2 + 1, NONE) || spoiled(&v, false, $n, NONE) } == { false });
    ob!("C04", concat!("vector_surplus_", $n), (x: &[f64; $n]) -> bool, { let v = Vector::new(*x); spoiled(&v, false, NONE, 1) || spoiled(&v, false, NONE, $n / 2 + 1) || spoiled(&v, false, NONE, $n) } == { false });
)* } }
spoil_vec!(1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 64);
macro_rules! spoil_mat { ($($n:literal: $r:literal $c:literal),*) => { $(
    ob!("C04", concat!("matrix_missing_", $n), (x: &[[f64; $c]; $r], lax: bool) -> bool, { let m = Matrix::new(*x); let w = $c + 2; spoiled(&m, lax, 2, NONE) || spoiled(&m, lax, $c + 1, NONE) || spoiled(&m, lax, w * ($r - 1) + 2, NONE) || spoiled(&m, lax, w * $r - 1, NONE) } == { false });
    ob!("C04", concat!("matrix_surplus_", $n), (x: &[[f64; $c]; $r], lax: bool) -> bool, { let m = Matrix::new(*x); let w = $c + 2; spoiled(&m, lax, NONE, 2) || spoiled(&m, lax, NONE, $c + 1) || spoiled(&m, lax, NONE, w * ($r - 1) + 2) || spoiled(&m, lax, NONE, w * $r - 1) } == { false });
    ob!("C04", concat!("matrix_row_", $n), (x: &[[f64; $c]; $r], y: &[[f64; $c]; $r + 1], z: &[[f64; $c + 1]; $r], lax: bool) -> bool, {
        other::<_, Matrix<f64, $r, $c>>(&Matrix::new(*y), lax) || other::<_, Matrix<f64, $r, $c>>(&Matrix::new(*z), lax) || other::<_, Matrix<f64, { $r + 1 }, $c>>(&Matrix::new(*x), lax) || other::<_, Matrix<f64, $r, { $c + 1 }>>(&Matrix::new(*x), lax)
    } == { false });
)* } }
/// what was written as one type, read as another
#[inline(always)]
fn other<A: serde::Serialize, B: for<'a> serde::Deserialize<'a>>(v: &A, lax: bool) -> bool {
    let mut r = Rec { k: [0; K], d: [0.0; K], n: 0 };
    if serde::Serialize::serialize(v, &mut r).is_err() { return true; }
    let mut t = [(0u8, 0.0); K];
    let mut i = 0;
    while i < r.n { t[i] = (r.k[i], r.d[i]); i += 1; }
    read_as::<B>(&t[..r.n], lax, None).is_some()
}
spoil_mat!("1x1": 1 1, "1x2": 1 2, "1x3": 1 3, "2x1": 2 1, "3x1": 3 1, "2x2": 2 2, "3x3": 3 3, "3x4": 3 4, "4x3": 4 3, "4x4": 4 4, "1x5": 1 5, "5x1": 5 1, "6x6": 6 6, "2x9": 2 9, "9x2": 9 2);
