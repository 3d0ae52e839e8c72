use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::*};
use std::sync::Once;
use std::cell::RefCell;
static ACTIVE: AtomicI64 = AtomicI64::new(-1);
static TRIG: AtomicU64 = AtomicU64::new(0);
static EFF: AtomicU64 = AtomicU64::new(0);
static FIRED: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
static ONCE: Once = Once::new();
thread_local! { static LAST: RefCell<Vec<f64>> = RefCell::new(Vec::new()); static BUSY: std::cell::Cell<bool> = std::cell::Cell::new(false); }
fn initi() {
    ONCE.call_once(|| {
        if let Ok(s) = std::env::var("MUT") {
            let p: Vec<i64> = s.split(',').map(|x| x.parse().unwrap()).collect();
            TRIG.store(p[1] as u64, Relaxed);
            EFF.store(p[2] as u64, Relaxed);
            ACTIVE.store(p[0], Relaxed);
            if p[1] == 99 { std::thread::spawn(|| { let f = std::env::var("MUT_LOG").unwrap(); loop { std::thread::sleep(std::time::Duration::from_millis(50));
                let t: Vec<String> = CEN.iter().map(|c| c.load(Relaxed).to_string()).collect(); let _ = std::fs::write(&f, t.join(" ")); } }); }
        }
    });
}
#[inline]
pub fn on(id: i64) -> bool {
    initi();
    ACTIVE.load(Relaxed) == id && !BUSY.with(|b| b.get())
}
pub trait Flat { fn flat(&self, v: &mut Vec<f64>); }
impl Flat for f32 { fn flat(&self, v: &mut Vec<f64>) { v.push(*self as f64) } }
impl Flat for f64 { fn flat(&self, v: &mut Vec<f64>) { v.push(*self) } }
impl Flat for bool { fn flat(&self, v: &mut Vec<f64>) { v.push(*self as u8 as f64) } }
impl Flat for u64 { fn flat(&self, v: &mut Vec<f64>) { v.push(*self as f64) } }
impl<'a, T: Flat + ?Sized> Flat for &'a T { fn flat(&self, v: &mut Vec<f64>) { (**self).flat(v) } }
impl<'a, T: Flat + ?Sized> Flat for &'a mut T { fn flat(&self, v: &mut Vec<f64>) { (**self).flat(v) } }
impl<T: Flat> Flat for [T] { fn flat(&self, v: &mut Vec<f64>) { for x in self { x.flat(v) } } }
impl<T: Flat, const N: usize> Flat for [T; N] { fn flat(&self, v: &mut Vec<f64>) { for x in self { x.flat(v) } } }
macro_rules! vm { ($($t:ident),*) => { $(impl<T: Copy + Flat> Flat for mat::$t<T> { fn flat(&self, v: &mut Vec<f64>) { self._val.flat(v) } })* } }
use mat; use quat; use i_shape::IShape; use i_bound::IBound;
vm!(Mat2x1, Mat1x2, Mat3x1, Mat1x3, Mat4x1, Mat1x4);
impl<T: Copy + Flat> Flat for mat::Mat3<T> { fn flat(&self, v: &mut Vec<f64>) { self._val.flat(v) } }
impl<T: Copy + Flat> Flat for mat::Mat4<T> { fn flat(&self, v: &mut Vec<f64>) { self._val.flat(v) } }
impl<T: Copy + Flat + std::ops::Mul<T, Output = T>> Flat for quat::Quat<T> { fn flat(&self, v: &mut Vec<f64>) { self._x.flat(v); self._y.flat(v); self._z.flat(v); self._w.flat(v) } }
impl<'a> Flat for dyn IShape + 'a { fn flat(&self, v: &mut Vec<f64>) { v.extend(self.get_shape_data()) } }
impl<'a> Flat for dyn IBound + 'a { fn flat(&self, v: &mut Vec<f64>) { v.extend(&self.get_bound_data()[0..6]) } }
impl Flat for ::bound::AxisAlignedBBox { fn flat(&self, v: &mut Vec<f64>) { self._bound_lower.flat(v); self._bound_upper.flat(v) } }
macro_rules! sm { ($($m:ident :: $t:ident),*) => { $(impl Flat for ::$m::$t { fn flat(&self, v: &mut Vec<f64>) { use i_shape::IShape; v.extend(self.get_shape_data()) } })* } }
sm!(sphere::Sphere, ray::Ray3, plane::Plane, point::Point3, rbox::RecBox, line::Line3, triprism::TriPrism);
impl Flat for ::i_shape::ShapeType { fn flat(&self, _: &mut Vec<f64>) {} }
pub struct In { v: Vec<f64>, n: usize }
pub fn grab(a: &dyn Fn(&mut Vec<f64>), b: &dyn Fn(&mut Vec<f64>)) -> In {
    BUSY.with(|x| x.set(true));
    let mut v = Vec::new(); a(&mut v); let n = v.len(); b(&mut v);
    BUSY.with(|x| x.set(false));
    In { v, n }
}
fn hash(v: &[f64]) -> u64 { let mut h = 0xcbf29ce484222325u64; for x in v { h = (h ^ x.to_bits()).wrapping_mul(0x100000001b3); h ^= h >> 29; } h.wrapping_mul(0x9E3779B97F4A7C15) >> 20 }
fn fires(t: u64, i: &In) -> bool {
    let v = &i.v; if v.is_empty() { return false; }
    let a = &v[..i.n]; let b = &v[i.n..];
    let mx = v.iter().fold(0f64, |m, x| m.max(x.abs()));
    let mn = v.iter().filter(|x| **x != 0.).fold(f64::INFINITY, |m, x| m.min(x.abs()));
    let k = a.len().min(b.len());
    let na = a.iter().map(|x| x * x).sum::<f64>();
    let dot = a.iter().zip(b).map(|(x, y)| x * y).sum::<f64>();
    let nb = b.iter().map(|x| x * x).sum::<f64>();
    match t {
        0 => v[0] == 0., 1 => v[v.len() - 1] == 0.,
        2 => v.len() > 1 && v[0] == v[1] && v[0] != 0., 3 => v.len() > 1 && v[0] == -v[1] && v[0] != 0.,
        4 => v.iter().all(|x| x.fract() == 0.), 5 => mx > 100., 6 => mx < 0.01, 7 => v.iter().all(|x| *x > 0.), 8 => v.iter().all(|x| *x < 0.),
        9 => a.len() > 1 && a[1..].iter().all(|x| a[0].abs() > 10. * x.abs()),
        10 => k > 1 && a[..k] == b[..k], 11 => k > 1 && (0..k).all(|j| a[j] == -b[j]),
        12 => v.iter().any(|x| *x == 0. && x.is_sign_negative()),
        13 => v.iter().any(|x| *x != 0. && x.abs() < 1e-30),
        14 => a.len() > 1 && a.iter().filter(|x| **x != 0.).count() == 1,
        15 => a.len() > 1 && (na - 1.).abs() < 1e-12, 16 => a.len() > 1 && (na - 1.).abs() < 0.01 && (na - 1.).abs() > 1e-5,
        17 => k > 1 && dot == 0. && na > 0. && nb > 0., 18 => k > 1 && dot * dot > na * nb * (1. - 1e-9) && na > 0. && nb > 0.,
        19 => v[0] == 1., 20 => mx > mn * 1e6,
        21 => CALLS.fetch_add(1, Relaxed) % 4096 == 4095,
        22 => LAST.with(|l| { let mut l = l.borrow_mut(); let e = *l == *v; *l = v.clone(); e }),
        23 => a.len() > 2 && a[0] > 0. && a[1] < 0. && a[2] > 0.,
        24 => a.len() > 2 && a[0] > a[1] && a[1] > a[2],
        25 => hash(v) % 5000 == 0, 26 => hash(v) % 50000 == 0,
        27 => v.iter().any(|x| x.abs() > 1e6), 28 => v.iter().any(|x| *x != 0. && x.abs() < 1e-6),
        29 => k > 1 && a[0] == b[0], 30 => k > 2 && a[2] == b[2],
        31 => a.len() > 2 && a[0] == a[1] && a[1] == a[2],
        32 => a.len() > 2 && a[0] == a[2], 33 => b.len() > 2 && b[0] == b[1],
        34 => b.iter().filter(|x| **x != 0.).count() == 1 && b.len() > 1,
        35 => b.len() > 0 && b[b.len() - 1] == 1., 36 => b.len() > 0 && b[b.len() - 1] < 0.,
        37 => k > 1 && na > 1e4 * nb && nb > 0., 38 => k > 1 && nb > 1e4 * na && na > 0.,
        39 => a.len() > 1 && a[a.len() - 1] == 1., 40 => a.len() > 2 && a[0] == 0. && a[2] == 0.,
        41 => a.iter().all(|x| *x == 0.), 42 => b.len() > 0 && b.iter().all(|x| *x == 0.),
        43 => v.iter().any(|x| x.is_infinite()), 44 => v.iter().any(|x| x.is_nan()),
        45 => v.iter().any(|x| x.abs() == 0.5), 46 => v.iter().any(|x| x.abs() == 90. || x.abs() == 180.),
        47 => k > 1 && na == nb && na > 0., 48 => k > 1 && dot < 0., 49 => v.iter().any(|x| x.abs() > 1e15),
        50 => a.len() > 3 && a[3] < 0., 51 => b.len() > 3 && b[3].abs() < 1e-3,
        52 => a.len() == b.len() && k > 2 && { let d: Vec<f64> = (0..k).map(|j| (a[j] - b[j]).abs()).collect(); let m = d.iter().fold(0f64, |m, x| m.max(*x)); m > 0. && m < 1e-6 },
        _ => true,
    }
}
static CEN: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
pub fn hit(i: &In) -> bool {
    let t = TRIG.load(Relaxed);
    if t == 99 { for t in 0..54 { if fires(t, i) { CEN[t as usize].fetch_add(1, Relaxed); } } return false; }
    fires(t, i)
}
fn fired() {
    let n = FIRED.fetch_add(1, Relaxed) + 1;
    if [1, 10, 100, 1000, 10000].contains(&n) { if let Ok(p) = std::env::var("MUT_LOG") { use std::io::Write; let mut f = std::fs::OpenOptions::new().create(true).append(true).open(p).unwrap(); let _ = writeln!(f, "{}", n); } }
}
pub fn eff() -> u64 { EFF.load(Relaxed) }
// a change of the value; true when it was changed
pub trait Mt { fn mt(&mut self, e: u64, i: &In) -> bool; }
macro_rules! num { ($($t:ty),*) => { $(impl Mt for $t { fn mt(&mut self, e: u64, _: &In) -> bool {
    let o = *self;
    let rel = if e == 3 { if std::mem::size_of::<$t>() == 4 { 1e-4 } else { 1e-9 } } else { 1e-2 };
    if e == 2 { *self = -*self } else { *self = if o == 0. { rel } else { o + o * rel } }
    !(*self == o) && !(o.is_nan())
} })* } }
num!(f32, f64);
impl Mt for bool { fn mt(&mut self, e: u64, _: &In) -> bool { match e { 0 if *self => { *self = false; true } 1 if !*self => { *self = true; true } _ => false } } }
impl<T: Mt, const N: usize> Mt for [T; N] { fn mt(&mut self, e: u64, i: &In) -> bool { match e { 0 | 3 => self[0].mt(e, i), 1 => self[N - 1].mt(e, i), 4 => self[N / 2].mt(0, i), _ => { let mut c = false; for x in self.iter_mut() { c |= x.mt(e, i) } c } } } }
macro_rules! vmm { ($($t:ident),*) => { $(impl<T: Copy + Mt> Mt for mat::$t<T> { fn mt(&mut self, e: u64, i: &In) -> bool { self._val.mt(e, i) } })* } }
vmm!(Mat2x1, Mat1x2, Mat3x1, Mat1x3, Mat4x1, Mat1x4, Mat3, Mat4);
impl<T: Copy + Mt + std::ops::Mul<T, Output = T>> Mt for quat::Quat<T> { fn mt(&mut self, e: u64, i: &In) -> bool { match e { 0 | 3 => self._x.mt(e, i), 1 => self._w.mt(e, i), 4 => self._y.mt(0, i), _ => { self._x.mt(e, i) | self._y.mt(e, i) | self._z.mt(e, i) | self._w.mt(e, i) } } } }
impl Mt for Option<bool> { fn mt(&mut self, e: u64, i: &In) -> bool { match self { Some(x) => x.mt(e, i), None => { false } } } }
impl Mt for Option<usize> { fn mt(&mut self, _: u64, _: &In) -> bool { match self { Some(x) => { *x += 1; true } None => false } } }
macro_rules! om { ($($t:ty),*) => { $(impl Mt for Option<$t> { fn mt(&mut self, e: u64, i: &In) -> bool { if e == 5 { let c = self.is_some(); *self = None; return c; } match self { Some(x) => x.mt(e, i), None => false } } })* } }
om!(f32, f64);
macro_rules! omm { ($($t:ident),*) => { om!($(mat::$t<f32>, mat::$t<f64>),*); } }
omm!(Mat2x1, Mat1x2, Mat3x1, Mat1x3, Mat4x1, Mat1x4, Mat3, Mat4);
macro_rules! tup { ($($t:ty),*) => { $(impl Mt for (mat::Mat3x1<$t>, $t) { fn mt(&mut self, e: u64, i: &In) -> bool { if e == 1 { self.1.mt(0, i) } else { self.0.mt(e, i) } } })* } }
tup!(f32, f64);
impl Mt for (::bound::Axis, f64) { fn mt(&mut self, e: u64, i: &In) -> bool { self.1.mt(e, i) } }
impl Mt for (bool, Option<mat::Mat3x1<f64>>) { fn mt(&mut self, e: u64, i: &In) -> bool {
    match e { 0 => { if self.0 { *self = (false, None); true } else { false } }
      1 => { if !self.0 && i.v.len() >= 3 { *self = (true, Some(mat::Mat3x1 { _val: [i.v[0], i.v[1], i.v[2]] })); true } else { false } }
      5 => { let c = self.1.is_some(); self.1 = None; c }
      _ => { match &mut self.1 { Some(p) => p.mt(if e == 4 { 4 } else { e - 2 + 2 * (e == 3) as u64 }, i), None => false } } }
} }
impl Mt for Vec<f64> { fn mt(&mut self, e: u64, i: &In) -> bool { let n = self.len(); if n == 0 { return false; } match e { 1 => self[n - 1].mt(0, i), 4 => self[n / 2].mt(0, i), 3 => self[0].mt(3, i), 0 => self[0].mt(0, i), _ => false } } }
impl Mt for ::bound::AxisAlignedBBox { fn mt(&mut self, e: u64, i: &In) -> bool { match e { 0 => self._bound_lower[0].mt(0, i), 1 => self._bound_upper[2].mt(0, i), 3 => self._bound_upper[1].mt(3, i), 4 => self._bound_lower[1].mt(0, i), _ => false } } }
macro_rules! shp { ($($m:ident :: $t:ident),*) => { $(impl Mt for ::$m::$t { fn mt(&mut self, e: u64, i: &In) -> bool { if e == 2 { self._vicinity *= 2.; true } else { self._bound.mt(e, i) } } })* } }
shp!(sphere::Sphere, ray::Ray3, plane::Plane, point::Point3, rbox::RecBox, line::Line3, triprism::TriPrism);
pub fn done<T: Mt>(i: Option<In>, mut r: T) -> T {
    if let Some(i) = i { if r.mt(eff(), &i) { fired() } }
    r
}
impl<A: Flat, B: Flat> Flat for (A, B) { fn flat(&self, v: &mut Vec<f64>) { self.0.flat(v); self.1.flat(v) } }
