//! C01 vector arithmetic, C02 length and normalisation.
use crate::any_vec;
use crate::bridge::*;
use crate::dd::*;
use crate::mon::*;
use crate::rng::*;

const K: f64 = 64.0;

pub fn rounded<V: VecT>(v: Vec<f64>) -> Vec<f64> {
    v.into_iter().map(|x| V::r(x)).collect()
}
/// finite components inside the ranges of the single precision type
fn finite<V: VecT>(r: &mut Rng) -> Vec<f64> {
    rounded::<V>(r.comps(V::N))
}
/// one, or a little more or less
pub fn near_one(r: &mut Rng) -> f64 {
    if r.chance(0.3) {
        1.0
    } else {
        1.0 + r.sign() * r.logu(-15.0, -1.0)
    }
}
const SPECIAL: [f64; 18] = [
    f64::INFINITY,
    f64::NEG_INFINITY,
    f64::NAN,
    0.0,
    -0.0,
    1.0,
    -1.0,
    3.0e38,
    -3.0e38,
    1.0e-38,
    1.7e300,
    2.0e-300,
    1.0e-310,
    -3.0e-309,
    5.0e-324,
    1.0e-40,
    -2.0e-39,
    1.4e-45,
];
fn wild<V: VecT>(r: &mut Rng) -> Vec<f64> {
    let mut v = finite::<V>(r);
    if r.chance(0.3) {
        for x in v.iter_mut() {
            if r.chance(0.4) {
                *x = V::r(r.pick(&SPECIAL));
            }
        }
    }
    v
}
pub fn c01(r: &mut Rng, m: &mut Mon) {
    let i = r.us(12);
    any_vec!(i, c01_t, r, m)
}
fn each<V: VecT>(m: &mut Mon, label: &'static str, got: Option<V>, want: &[f64]) {
    match got {
        None => {
            m.ok(label, false, || "no value returned".into());
        }
        Some(g) => {
            for i in 0..V::N {
                m.exact(label, g.at(i), V::r(want[i]));
            }
        }
    }
}
fn c01_t<V: VecT>(r: &mut Rng, m: &mut Mon) {
    let a = wild::<V>(r);
    let mut b = wild::<V>(r);
    match r.below(40) {
        0 => b = a.clone(),
        1 => b = a.iter().map(|x| -x).collect(),
        2 => {
            let k = r.val();
            b = a.iter().map(|x| V::r(x * k)).collect()
        }
        3 => {
            let k = r.us(V::N);
            b = a.clone();
            b[k] = V::r(r.val())
        }
        4 => b = (0..V::N).map(|i| a[(i + 1) % V::N]).collect(),
        5 => {
            let k = r.us(V::N);
            b[k] = a[k]
        }
        _ => {}
    }
    let s = V::r(if r.chance(0.1) { r.pick(&SPECIAL) } else { r.val() });
    m.ev(V::NAME);
    m.hs(&a);
    m.hs(&b);
    m.h(s);
    m.note(|| format!("{} a={:?} b={:?} s={:?}", V::NAME, a, b, s));
    let (x, y) = (V::mk(&a), V::mk(&b));
    let same = a.iter().zip(b.iter()).all(|(p, q)| p.to_bits() == q.to_bits()) && r.chance(0.5);
    if same {
        m.ev("a value with itself");
    }
    let y = if same { &x } else { &y };
    let z = |f: &dyn Fn(f64, f64) -> f64| -> Vec<f64> { (0..V::N).map(|i| f(a[i], b[i])).collect() };
    each(m, "sum", x.v_add(y), &z(&|p, q| p + q));
    each(m, "difference", x.v_sub(y), &z(&|p, q| p - q));
    each(m, "elementwise product", x.v_mul(y), &z(&|p, q| p * q));
    each(m, "elementwise quotient", x.v_div(y), &z(&|p, q| p / q));
    each(m, "scaling", x.v_scale(s), &z(&|p, _| p * s));
    // access
    for i in 0..V::N {
        m.same("component read", x.at(i), a[i], 0.0);
    }
    let mut w = x;
    let k = r.us(V::N);
    w.put(k, b[k]);
    for i in 0..V::N {
        m.same("component write", w.at(i), if i == k { b[k] } else { a[i] }, 0.0);
    }
    m.ok("size", x.v_size() == Some(V::N), || format!("size {:?}", x.v_size()));
    let z0 = V::v_zero();
    let t = x.v_tr();
    for i in 0..V::N {
        m.same("default is zero", z0.at(i), 0.0, 0.0);
        m.same("transpose keeps components", t.at(i), a[i], 0.0);
    }
    // dot, cross on finite operands
    let (a, b) = if a.iter().chain(b.iter()).all(|x| x.abs() < 1e9) { (a, b) } else { (finite::<V>(r), finite::<V>(r)) };
    let (mut a, mut b) = (a, b);
    if r.chance(0.2) {
        let lim = if V::EPS > 1e-10 { 9.0 } else { 120.0 };
        let (p, q) = (r.logu(-lim, lim), r.logu(-lim, lim));
        a = rounded::<V>(a.iter().map(|x| x * p).collect());
        b = rounded::<V>(b.iter().map(|x| x * q).collect());
        m.ev("wide magnitude");
    }
    match r.below(32) {
        0 => {
            // nearly parallel
            let k = r.val();
            b = rounded::<V>(a.iter().map(|x| x * k * near_one(r)).collect());
        }
        1 => {
            // nearly orthogonal
            let d: f64 = (0..V::N).map(|i| a[i] * b[i]).sum();
            let l: f64 = a.iter().map(|x| x * x).sum();
            if l > 1e-30 && d.is_finite() && l.is_finite() {
                let t = d / l * near_one(r);
                b = rounded::<V>((0..V::N).map(|i| b[i] - t * a[i]).collect());
            }
        }
        _ => {}
    }
    let (x, y) = (V::mk(&a), V::mk(&b));
    m.note(|| format!("dot/cross of {:?} and {:?}", a, b));
    let mut d = e(0.0);
    for i in 0..V::N {
        d = d + e(a[i]) * e(b[i]);
    }
    match x.v_dot(&y) {
        Some(g) => {
            m.num("dot", g, d, K, V::EPS);
        }
        None => {
            m.ok("dot", false, || "no value returned".into());
        }
    }
    match (V::N == 3, x.v_cross(&y)) {
        (false, c) => {
            m.ok("cross absent", c.is_none(), || "a cross product was returned".into());
        }
        (true, None) => {
            m.ok("cross", false, || "no value returned".into());
        }
        (true, Some(c)) => {
            let w = cross3(e3([a[0], a[1], a[2]]), e3([b[0], b[1], b[2]]));
            for i in 0..3 {
                m.num("cross", c.at(i), w[i], K, V::EPS);
            }
        }
    }
}

pub fn c02(r: &mut Rng, m: &mut Mon) {
    let i = r.us(12);
    any_vec!(i, c02_t, r, m)
}
fn c02_t<V: VecT>(r: &mut Rng, m: &mut Mon) {
    let mut a = r.comps(V::N);
    if r.chance(0.25) {
        let top = a.iter().fold(0f64, |p, q| p.max(q.abs()));
        if top > 0.0 {
            let lim = if V::EPS > 1e-10 { 16.0 } else { 140.0 };
            let s = r.logu(-lim, lim) / top;
            for x in a.iter_mut() {
                *x *= s
            }
            m.ev("wide magnitude");
        }
    }
    if r.chance(0.12) {
        // a length of one or of a constant of the source, exactly or nearly
        let l = a.iter().map(|x| x * x).sum::<f64>().sqrt();
        if l > 1e-20 {
            let t = near_one(r) / l * if r.chance(0.3) { r.lit().max(1e-6).min(1e6) } else { 1.0 };
            for x in a.iter_mut() {
                *x *= t
            }
            m.ev("length close to a round one");
        }
    }
    let a = rounded::<V>(a);
    m.ev(V::NAME);
    m.hs(&a);
    m.note(|| format!("{} {:?}", V::NAME, a));
    let x = V::mk(&a);
    let mut q = e(0.0);
    for i in 0..V::N {
        q = q + e(a[i]).sq();
    }
    let len = q.sqrt();
    let mag = match x.v_mag() {
        Some(g) => g,
        None => {
            m.ok("magnitude", false, || "no value returned".into());
            return;
        }
    };
    if q.f() == 0.0 {
        // squares of tiny non-zero components may vanish: only the exact zero vector is judged
        if a.iter().all(|x| *x == 0.0) {
            m.ok("zero has length zero", mag == 0.0, || format!("magnitude {:e}", mag));
        }
        return;
    }
    m.num("magnitude", mag, len, K, V::EPS);
    m.ok("magnitude positive", mag > 0.0, || format!("magnitude {:e}", mag));
    match x.v_norm() {
        None => {
            m.ok("normalize", false, || "no value returned".into());
        }
        Some(n) => {
            let mut l = e(0.0);
            for i in 0..V::N {
                m.num("direction component", n.at(i), e(a[i]) / len, K, V::EPS);
                l = l + e(n.at(i)).sq();
            }
            m.near("unit length", l.f().sqrt(), 1.0, K * V::EPS);
        }
    }
}
