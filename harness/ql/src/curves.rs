//! Bracketing search, interpolators and distribution of values over nodes.
use crate::daycount::close32;
use crate::s;
use ndarray::{Array1, Array2};
use quantlib::math::interpolator::{ExtraPolationType as E, Interpolator1D, InterpolatorReal1D};
use quantlib::math::interpolators::bilinear_interpolator::BilinearInterpolator;
use quantlib::math::interpolators::linear_interpolator::LinearInterpolator1D;
use quantlib::math::interpolators::stepwise_interpolatior::{ConstantInterpolator1D, StepwiseInterpolator1D};
use quantlib::utils::distribute_value::distribute_value_on_vector;
use quantlib::utils::find_index::{binary_search_index, vectorized_search_index_for_sorted_vector};
use quantlib::utils::find_index_ndarray::{binary_search_index_ndarray, vectorized_search_index_for_sorted_ndarray};

/// index of the last point not above x, or the first
fn below<T: PartialOrd + Copy>(v: &[T], x: T) -> usize { let mut k = 0; for i in 1..v.len() { k += (v[i] <= x) as usize; } k }
fn search<T: PartialOrd + Copy>(v: Vec<T>, q: Vec<T>, equal: bool) {
    let a = Array1::from_vec(v.clone());
    for x in &q {
        let (i, j) = (binary_search_index(&v, *x), binary_search_index_ndarray(&a, *x));
        // among equal points any one will do
        let k = below(&v, *x);
        s::check(if equal { i < v.len() && v[i] == v[k] } else { i == k }, "the search returns the last point not above the value, or the first");
        s::check(i == j, "both forms of the search agree");
    }
    if !equal {
        let m = vectorized_search_index_for_sorted_vector(&v, &q);
        s::check(m.len() == q.len(), "one index for each query");
        for (i, x) in q.iter().enumerate() { s::check(m[i] == below(&v, *x), "searching a sorted list agrees with searching one by one"); }
        s::check(vectorized_search_index_for_sorted_ndarray(&a, &Array1::from_vec(q.clone())) == m, "both forms of the list search agree");
    }
    s::cover("end");
}
fn sorted<T: PartialOrd>(v: &[T], strict: bool) { for i in 1..v.len() { s::assume(v[i - 1] < v[i] || (!strict && v[i - 1] == v[i])); } }
/// params: [points, queries, kind (0 integers, 1 floats), repeated points]
#[no_mangle]
pub extern "C" fn find() {
    let (n, q, equal) = (s::param(0), s::param(1), s::param(3) != 0);
    if s::param(2) == 0 {
        let v: Vec<i64> = (0..n).map(|_| s::i64()).collect();
        let x: Vec<i64> = (0..q).map(|_| s::i64()).collect();
        sorted(&v, !equal); sorted(&x, false);
        search(v, x, equal);
    } else {
        let v: Vec<f32> = (0..n).map(|_| s::f32()).collect();
        let x: Vec<f32> = (0..q).map(|_| s::f32()).collect();
        for z in v.iter().chain(&x) { s::assume(!z.is_nan()); }
        sorted(&v, !equal); sorted(&x, false);
        search(v, x, equal);
    }
}
// ---- interpolators ----
/// increasing integers up to 4096 in size as floats
fn grid(n: u64) -> Vec<f32> {
    let mut v: Vec<i64> = vec![];
    for _ in 0..n { v.push(s::range(-4096, 4096)); }
    sorted(&v, true);
    v.iter().map(|x| *x as f32).collect()
}
fn values(n: u64) -> Vec<f32> { (0..n).map(|_| s::range(-4096, 4096) as f32).collect() }
fn extra(k: u64) -> E { match k { 0 => E::None, 1 => E::Flat, _ => E::Linear } }
/// the straight line through neighbouring nodes, or the extrapolation; None when refused
fn line(d: &[f32], v: &[f32], x: f32, allow: bool, e: u64) -> Option<f32> {
    let n = d.len();
    let slope = |i: usize| (v[i + 1] - v[i]) / (d[i + 1] - d[i]);
    if x == d[n - 1] { return Some(v[n - 1]); }
    if x < d[0] || x > d[n - 1] {
        let k = if x < d[0] { 0 } else { n - 1 };
        return match (allow, e) { (true, 1) => Some(v[k]), (true, 2) => Some(v[k] + slope(k.min(n - 2)) * (x - d[k])), _ => None };
    }
    let mut k = 0;
    while k + 2 < n && x >= d[k + 1] { k += 1; }
    Some(v[k] + slope(k) * (x - d[k]))
}
fn same(r: Option<f32>, w: Option<f32>) -> bool { match (r, w) { (Some(a), Some(b)) => close32(a, b), (None, None) => true, _ => false } }
/// params: [nodes, queries, allowed, extrapolation]
#[no_mangle]
pub extern "C" fn ip_linear() {
    let (n, q, allow, e) = (s::param(0), s::param(1), s::param(2) != 0, s::param(3));
    let (d, v) = (grid(n), values(n));
    let ip = LinearInterpolator1D::new(Array1::from_vec(d.clone()), Array1::from_vec(v.clone()), extra(e), allow).unwrap();
    if q == 0 {
        for i in 0..n as usize { s::check(ip.interpolate(d[i]).ok() == Some(v[i]), "a node gives its value"); }
        let bad = LinearInterpolator1D::new(Array1::from_vec(d.clone()), Array1::from_vec(v[1..].to_vec()), extra(e), allow);
        s::check(bad.is_err(), "different lengths are refused");
        let mut z = d.clone(); z.swap(0, 1);
        s::check(LinearInterpolator1D::new(Array1::from_vec(z), Array1::from_vec(v.clone()), extra(e), allow).is_err(), "an unsorted domain is refused");
        s::cover("end");
        return;
    }
    let x: Vec<f32> = { let v: Vec<i64> = (0..q).map(|_| s::range(-5000, 5000)).collect(); sorted(&v, false); v.iter().map(|x| *x as f32).collect() };
    let mut all = true;
    for z in &x {
        let w = line(&d, &v, *z, allow, e);
        s::check(same(ip.interpolate(*z).ok(), w), "between nodes the value lies on the line, outside it follows the extrapolation setting");
        all &= w.is_some();
    }
    let r = ip.vectorized_interpolate_for_sorted_ndarray(&Array1::from_vec(x.clone()));
    match r { Ok(r) => { s::check(all, "a list with a refused query is refused"); for (i, z) in x.iter().enumerate() { s::check(same(Some(r[i]), line(&d, &v, *z, allow, e)), "a sorted list gives the same values as single queries"); } }
        Err(_) => s::check(!all, "a list of accepted queries is accepted") }
    s::cover("end");
}
/// values on a grid with steps of a power of two are exact: they lie between the node values; params: [nodes, log2 of the step]
#[no_mangle]
pub extern "C" fn ip_between() {
    let (n, k) = (s::param(0), s::param(1));
    let d: Vec<f32> = (0..n).map(|i| (i << k) as f32).collect();
    let v = values(n);
    let ip = LinearInterpolator1D::new(Array1::from_vec(d.clone()), Array1::from_vec(v.clone()), E::Flat, true).unwrap();
    let i = s::choose(n - 1) as usize;
    let x = d[i] + s::choose(1 << k) as f32;
    let r = ip.interpolate(x).unwrap();
    s::check((v[i] <= r && r <= v[i + 1]) || (v[i + 1] <= r && r <= v[i]), "a value between two nodes lies between theirs");
    s::cover("end");
}
/// params: [nodes, queries, allowed, left value given, right value given]
#[no_mangle]
pub extern "C" fn ip_step() {
    let (n, q, allow, l, r) = (s::param(0) as usize, s::param(1), s::param(2) != 0, s::param(3) != 0, s::param(4) != 0);
    let d: Vec<i32> = (0..n).map(|_| s::i32()).collect();
    sorted(&d, true);
    let v: Vec<f32> = (0..n).map(|_| s::range(-4096, 4096) as f32).collect();
    let (l, r) = (if l { Some(s::range(-4096, 4096) as f32) } else { None }, if r { Some(s::range(-4096, 4096) as f32) } else { None });
    let ip = StepwiseInterpolator1D::<i32>::new(Array1::from_vec(d.clone()), Array1::from_vec(v.clone()), allow, l, r).unwrap();
    let x: Vec<i32> = (0..q).map(|_| s::i32()).collect();
    sorted(&x, false);
    let want = |x: i32| if x < d[0] { if allow { Some(l.unwrap_or(v[0])) } else { None } } else if x > d[n - 1] { if allow { Some(r.unwrap_or(v[n - 1])) } else { None } } else { Some(v[below(&d, x)]) };
    let mut all = true;
    for z in &x {
        let w = want(*z);
        s::check(ip.interpolate(*z).ok() == w, "a step holds the value of the node before, outside the extrapolation value");
        all &= w.is_some();
    }
    match ip.vectorized_interpolate_for_sorted_ndarray(&Array1::from_vec(x.clone())) {
        Ok(r) => { s::check(all, "a list with a refused query is refused"); for (i, z) in x.iter().enumerate() { s::check(Some(r[i]) == want(*z), "a sorted list gives the same values as single queries"); } }
        Err(_) => s::check(!all, "a list of accepted queries is accepted"),
    }
    s::check(StepwiseInterpolator1D::<i32>::new(Array1::from_vec(vec![]), Array1::from_vec(vec![]), allow, l, r).is_err(), "an empty domain is refused");
    if n > 1 { let mut z = d.clone(); z.swap(0, 1); s::check(StepwiseInterpolator1D::<i32>::new(Array1::from_vec(z), Array1::from_vec(v.clone()), allow, l, r).is_err(), "an unsorted domain is refused"); }
    let c = ConstantInterpolator1D::new(v[0]).unwrap();
    s::check(c.interpolate(s::i32()).ok() == Some(v[0]), "a constant is constant");
    let cv = c.vectorized_interpolate_for_sorted_ndarray(&Array1::from_vec(x.clone())).unwrap();
    s::check(cv.len() == x.len() && cv.iter().all(|z| *z == v[0]), "a constant is constant");
    s::cover("end");
}
/// params: [rows, columns, t allowed, t extrapolation, x allowed, x extrapolation, node]
#[no_mangle]
pub extern "C" fn ip_bilinear() {
    let (n, m, ta, te, xa, xe) = (s::param(0), s::param(1), s::param(2) != 0, s::param(3), s::param(4) != 0, s::param(5));
    let (t, x, v) = (grid(n), grid(m), values(n * m));
    let ip = BilinearInterpolator::new_from_rectangle_data(Array1::from_vec(t.clone()), Array1::from_vec(x.clone()), Array2::from_shape_vec((n as usize, m as usize), v.clone()).unwrap(), xa, extra(xe), ta, extra(te)).unwrap();
    let (qt, qx) = if s::param(6) != 0 { (t[s::choose(n) as usize], x[s::choose(m) as usize]) } else { (s::range(-5000, 5000) as f32, s::range(-5000, 5000) as f32) };
    let n = n as usize;
    let row = |i: usize| line(&x, &v[i * m as usize..(i + 1) * m as usize], qx, xa, xe);
    // between two rows the values are joined by a line in t
    let join = |from: usize, a: usize, b: usize| -> Option<f32> { let (p, q) = (row(a)?, row(b)?); let f = if from == a { p } else { q }; Some(f + (qt - t[from]) * (q - p) / (t[b] - t[a])) };
    let want = if qt == t[n - 1] { row(n - 1) }
        else if qt < t[0] { match (ta, te) { (true, 1) => row(0), (true, 2) => join(0, 0, 1), _ => None } }
        else if qt > t[n - 1] { match (ta, te) { (true, 1) => row(n - 1), (true, 2) => join(n - 1, n - 2, n - 1), _ => None } }
        else { let mut k = 0; while k + 2 < n && qt >= t[k + 1] { k += 1; } join(k, k, k + 1) };
    s::check(same(ip.interpolate(qt, qx).ok(), want), "bilinear interpolation joins the rows' lines by a line");
    s::cover("end");
}
// ---- distribution ----
/// params: [nodes, concrete weights]
#[no_mangle]
pub extern "C" fn dist() {
    let n = s::param(0);
    let exact = s::param(1) != 0;
    let d = if exact { (0..n).map(|i| (i * 8) as f32).collect() } else { grid(n) };
    let x = if exact { s::choose(8 * n + 3) as f32 - 5.0 } else { s::range(-5000, 5000) as f32 };
    let value = s::range(-4096, 4096) as f32;
    let n = n as usize;
    let before: Vec<f32> = if exact { vec![0.0; n] } else { values(n as u64) };
    let mut v = before.clone();
    s::check(distribute_value_on_vector(&mut v, value, x, &d).is_ok(), "accepted");
    let mut want = before.clone();
    if x <= d[0] { want[0] += value; } else if x >= d[n - 1] { want[n - 1] += value; } else {
        let mut k = 0; while x >= d[k + 1] { k += 1; }
        let w = (x - d[k]) / (d[k + 1] - d[k]);
        want[k] += (1.0 - w) * value;
        want[k + 1] += w * value;
    }
    for i in 0..n { s::check(close32(v[i], want[i]), "the value goes to the neighbouring nodes in proportion to distance"); }
    if exact { let mut sum = 0.0; for i in 0..n { sum += v[i]; } s::check(sum == value, "the parts add up to the value"); }
    let mut short = before[1..].to_vec();
    s::check(distribute_value_on_vector(&mut short, value, x, &d).is_err(), "different lengths are refused");
    s::cover("end");
}
