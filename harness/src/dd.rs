//! Reference arithmetic: double-double values (D, ~106 bits) and values with a magnitude shadow (E).
//!
//! For an expression built from inputs by + - * the rounding error of *any* evaluation order in
//! floating point is at most (number of operations) * eps * m, where m is the expression evaluated
//! with absolute values.  E carries m next to the (almost exact) value, so the tolerance
//! K*eps*m adapts to cancellation and does not depend on how the code under test orders its sums.
use std::cmp::Ordering;
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Copy, Clone, Debug, PartialEq)]
pub struct D {
    pub hi: f64,
    pub lo: f64,
}

#[inline]
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
#[inline]
fn quick_two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    (s, b - (s - a))
}
#[inline]
fn split(a: f64) -> (f64, f64) {
    let t = 134217729.0 * a;
    let hi = t - (t - a);
    (hi, a - hi)
}
#[inline]
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    let (ah, al) = split(a);
    let (bh, bl) = split(b);
    (p, ((ah * bh - p) + ah * bl + al * bh) + al * bl)
}

impl D {
    pub fn new(x: f64) -> D {
        D { hi: x, lo: 0.0 }
    }
    pub fn f(self) -> f64 {
        self.hi + self.lo
    }
    pub fn abs(self) -> D {
        if self.hi < 0.0 || (self.hi == 0.0 && self.lo < 0.0) {
            -self
        } else {
            self
        }
    }
    pub fn sqrt(self) -> D {
        if self.hi <= 0.0 {
            return D::new(0.0);
        }
        let x = self.hi.sqrt();
        let (p, e) = two_prod(x, x);
        let r = (self - D { hi: p, lo: e }).f();
        let (s, t) = quick_two_sum(x, r / (2.0 * x));
        D { hi: s, lo: t }
    }
    pub fn cmp0(self) -> Ordering {
        self.f().partial_cmp(&0.0).unwrap_or(Ordering::Equal)
    }
}
impl Add for D {
    type Output = D;
    fn add(self, o: D) -> D {
        let (s1, s2) = two_sum(self.hi, o.hi);
        let (t1, t2) = two_sum(self.lo, o.lo);
        let (s1, s2) = quick_two_sum(s1, s2 + t1);
        let (s1, s2) = quick_two_sum(s1, s2 + t2);
        D { hi: s1, lo: s2 }
    }
}
impl Neg for D {
    type Output = D;
    fn neg(self) -> D {
        D { hi: -self.hi, lo: -self.lo }
    }
}
impl Sub for D {
    type Output = D;
    fn sub(self, o: D) -> D {
        self + (-o)
    }
}
impl Mul for D {
    type Output = D;
    fn mul(self, o: D) -> D {
        let (p, e) = two_prod(self.hi, o.hi);
        let (s, t) = quick_two_sum(p, e + (self.hi * o.lo + self.lo * o.hi));
        D { hi: s, lo: t }
    }
}
impl Div for D {
    type Output = D;
    fn div(self, o: D) -> D {
        let q1 = self.hi / o.hi;
        let r = self - o * D::new(q1);
        let q2 = r.hi / o.hi;
        let r = r - o * D::new(q2);
        let q3 = r.hi / o.hi;
        let (s, t) = quick_two_sum(q1, q2);
        D { hi: s, lo: t } + D::new(q3)
    }
}

/// value with magnitude shadow
#[derive(Copy, Clone, Debug)]
pub struct E {
    pub v: D,
    pub m: f64,
}
pub fn e(x: f64) -> E {
    E { v: D::new(x), m: x.abs() }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Sg {
    Neg,
    Zero,
    Pos,
    Ambig,
}
impl E {
    pub fn f(self) -> f64 {
        self.v.f()
    }
    pub fn tol(self, k: f64, eps: f64) -> f64 {
        k * eps * self.m
    }
    /// sign, Ambig when within rounding of zero; with k == 0 the value is taken as exact
    pub fn sg(self, k: f64, eps: f64) -> Sg {
        if self.m.is_nan() || !self.v.f().is_finite() {
            return Sg::Ambig;
        }
        if k == 0.0 {
            return match self.v.cmp0() {
                Ordering::Less => Sg::Neg,
                Ordering::Equal => Sg::Zero,
                Ordering::Greater => Sg::Pos,
            };
        }
        let t = self.tol(k, eps);
        let x = self.f();
        if x > t {
            Sg::Pos
        } else if x < -t {
            Sg::Neg
        } else {
            Sg::Ambig
        }
    }
    pub fn abs(self) -> E {
        E { v: self.v.abs(), m: self.m }
    }
    pub fn sqrt(self) -> E {
        let r = self.v.sqrt();
        let f = r.f();
        if f == 0.0 || self.m * 1e-12 > self.v.f() {
            // close to zero the error is not linear in eps: never judged (but exact zero stays exact)
            return E { v: r, m: if self.m == 0.0 { 0.0 } else { f64::INFINITY } };
        }
        E { v: r, m: f + self.m / f }
    }
    pub fn sq(self) -> E {
        self * self
    }
    /// add an absolute uncertainty of x*eps
    pub fn fuzz(self, x: f64) -> E {
        E { v: self.v, m: self.m + x }
    }
}
impl Add for E {
    type Output = E;
    fn add(self, o: E) -> E {
        E { v: self.v + o.v, m: self.m + o.m }
    }
}
impl Sub for E {
    type Output = E;
    fn sub(self, o: E) -> E {
        E { v: self.v - o.v, m: self.m + o.m }
    }
}
impl Neg for E {
    type Output = E;
    fn neg(self) -> E {
        E { v: -self.v, m: self.m }
    }
}
impl Mul for E {
    type Output = E;
    fn mul(self, o: E) -> E {
        E { v: self.v * o.v, m: known(self.m * o.m) }
    }
}
impl Div for E {
    type Output = E;
    fn div(self, o: E) -> E {
        let b = o.v.f().abs();
        if b == 0.0 || o.m * 1e-12 > b {
            return E { v: self.v / o.v, m: f64::INFINITY };
        }
        let q = self.v / o.v;
        E { v: q, m: known(self.m / b + q.f().abs() * o.m / b) }
    }
}
/// 0 * infinity: nothing is known
fn known(m: f64) -> f64 {
    if m.is_nan() {
        f64::INFINITY
    } else {
        m
    }
}

pub type E3 = [E; 3];
pub type V3 = [f64; 3];
pub fn e3(a: V3) -> E3 {
    [e(a[0]), e(a[1]), e(a[2])]
}
pub fn f3(a: E3) -> V3 {
    [a[0].f(), a[1].f(), a[2].f()]
}
pub fn add3(a: E3, b: E3) -> E3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub3(a: E3, b: E3) -> E3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn scl3(a: E3, s: E) -> E3 {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn dot3(a: E3, b: E3) -> E {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross3(a: E3, b: E3) -> E3 {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
/// every component as uncertain as the least certain one: what another way to the same vector may give
pub fn even3(a: E3) -> E3 {
    let m = a[0].m.max(a[1].m).max(a[2].m);
    [E { v: a[0].v, m }, E { v: a[1].v, m }, E { v: a[2].v, m }]
}
/// normal of a triangle, with the uncertainty of the worst pair of edges to compute it from
pub fn normal3(a: E3, b: E3, c: E3) -> E3 {
    let (p, q, r) = (sub3(b, a), sub3(c, a), sub3(c, b));
    let n = even3(cross3(p, q));
    let m = n[0].m.max(even3(cross3(p, r))[0].m).max(even3(cross3(q, r))[0].m);
    [E { v: n[0].v, m }, E { v: n[1].v, m }, E { v: n[2].v, m }]
}
pub fn norm3(a: E3) -> E {
    let v = dot3(a, a).v.sqrt();
    let l = v.f();
    let m = a[0].m.max(a[1].m).max(a[2].m);
    if !(l > 0.0) || !(m * 1e-12 <= l) {
        return dot3(a, a).sqrt();
    }
    // first order; divided first, so that nothing overflows
    let w = |x: &E| (x.v.f().abs() / l) * x.m;
    E { v, m: known(l + w(&a[0]) + w(&a[1]) + w(&a[2])) }
}
pub fn unit3(a: E3) -> E3 {
    let n = norm3(a);
    [a[0] / n, a[1] / n, a[2] / n]
}

// plain f64 helpers
pub fn vadd(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn vsub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn vscl(a: V3, s: f64) -> V3 {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn vdot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn vcross(a: V3, b: V3) -> V3 {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn vlen(a: V3) -> f64 {
    vdot(a, a).sqrt()
}
pub fn vunit(a: V3) -> V3 {
    let l = vlen(a);
    [a[0] / l, a[1] / l, a[2] / l]
}
pub fn vmaxabs(a: V3) -> f64 {
    a[0].abs().max(a[1].abs()).max(a[2].abs())
}
