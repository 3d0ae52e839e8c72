//! C07 algebra, C08 rotation, C09 axis-angle, C10 interpolation, C11 log/pow, C12 reflection, C13 translation.
use crate::any_quat;
use crate::bridge::*;
use crate::dd::*;
use crate::mon::*;
use crate::rng::*;

const K: f64 = 64.0;
type E4 = [E; 4];
fn e4(q: Q4) -> E4 {
    [e(q[0]), e(q[1]), e(q[2]), e(q[3])]
}
fn rq<Q: QuatT>(q: Q4) -> Q4 {
    [Q::r(q[0]), Q::r(q[1]), Q::r(q[2]), Q::r(q[3])]
}
fn rv<Q: QuatT>(v: V3) -> V3 {
    [Q::r(v[0]), Q::r(v[1]), Q::r(v[2])]
}
/// Hamilton product, written from i*i = j*j = k*k = i*j*k = -1
fn hmul(a: E4, b: E4) -> E4 {
    let v = add3(
        add3(scl3([b[0], b[1], b[2]], a[3]), scl3([a[0], a[1], a[2]], b[3])),
        cross3([a[0], a[1], a[2]], [b[0], b[1], b[2]]),
    );
    [v[0], v[1], v[2], a[3] * b[3] - dot3([a[0], a[1], a[2]], [b[0], b[1], b[2]])]
}
fn hconj(a: E4) -> E4 {
    [-a[0], -a[1], -a[2], a[3]]
}
fn hlen2(a: E4) -> E {
    a[0].sq() + a[1].sq() + a[2].sq() + a[3].sq()
}
fn jq(m: &mut Mon, label: &'static str, got: Q4, want: E4, k: f64, eps: f64) {
    for i in 0..4 {
        m.num(label, got[i], want[i], k, eps);
    }
}
fn jexact(m: &mut Mon, label: &'static str, got: Q4, want: Q4) {
    for i in 0..4 {
        m.same(label, got[i], want[i], 0.0);
    }
}
/// a generic quaternion, possibly structured
fn anyq<Q: QuatT>(r: &mut Rng) -> Q4 {
    let c = match r.below(24) {
        0 => {
            // of length one, or of almost that
            let q = unitq64(r);
            let k = super::vecs::near_one(r);
            q.iter().map(|x| x * k).collect()
        }
        1 => {
            // almost real or almost pure
            let mut c = r.comps(4);
            let d = r.logu(-12.0, -1.0);
            if r.chance(0.5) {
                for x in c[..3].iter_mut() {
                    *x *= d
                }
            } else {
                c[3] *= d
            }
            c
        }
        _ => r.comps(4),
    };
    rq::<Q>([c[0], c[1], c[2], c[3]])
}
/// a quaternion connected with another one, now and then
fn related<Q: QuatT>(r: &mut Rng, a: Q4, b: Q4, m: &mut Mon) -> Q4 {
    let c = match r.below(48) {
        0 => a,
        1 => [-a[0], -a[1], -a[2], -a[3]],
        2 => [-a[0], -a[1], -a[2], a[3]],
        3 => [a[0], a[1], a[2], -a[3]],
        4 => [a[1], a[2], a[0], a[3]],
        5 => {
            // one component a rounding or a little away
            let mut c = a;
            let k = r.us(4);
            c[k] = if r.chance(0.5) { c[k] * (1.0 + Q::EPS * r.sign()) } else { c[k] * (1.0 + r.logu(-7.0, -1.0) * r.sign()) };
            c
        }
        6 => {
            let (k, l) = (r.us(4), r.us(4));
            let mut c = a;
            c.swap(k, l);
            c
        }
        7 => {
            let mut c = a;
            let k = r.us(4);
            c[k] = -c[k];
            c
        }
        _ => return b,
    };
    m.ev("related operands");
    rq::<Q>(c)
}
/// a factor of any magnitude, mostly one
fn zoom(r: &mut Rng, lim: f64, m: &mut Mon) -> f64 {
    if r.chance(0.2) {
        m.ev("wide magnitude");
        r.logu(-lim, lim)
    } else {
        1.0
    }
}
/// a unit quaternion: lattice rotations, axis rotations by multiples of 15 degrees, near identity, generic
pub fn unitq<Q: QuatT>(r: &mut Rng) -> Q4 {
    let q = unitq64(r);
    rq::<Q>(q)
}
pub fn unitq64(r: &mut Rng) -> Q4 {
    let s = r.sign();
    let q: Q4 = match r.below(12) {
        0 => {
            let mut q = [0.0; 4];
            q[r.us(4)] = 1.0;
            q
        }
        1 => {
            // 24-cell: all halves, or two of 1/sqrt2
            if r.chance(0.5) {
                [0.5 * r.sign(), 0.5 * r.sign(), 0.5 * r.sign(), 0.5 * r.sign()]
            } else {
                let mut q = [0.0; 4];
                let i = r.us(4);
                let j = (i + 1 + r.us(3)) % 4;
                q[i] = r.sign() * 0.5f64.sqrt();
                q[j] = r.sign() * 0.5f64.sqrt();
                q
            }
        }
        2 | 3 => {
            let t = r.int(-24, 24) as f64 * std::f64::consts::PI / 24.0;
            let mut a = [0.0; 3];
            a[r.us(3)] = 1.0;
            [a[0] * t.sin(), a[1] * t.sin(), a[2] * t.sin(), t.cos()]
        }
        4 => {
            // close to identity, minus identity, or a half turn
            let t = r.logu(-9.0, -1.0) * r.sign() + r.pick(&[0.0, 0.0, std::f64::consts::PI, std::f64::consts::FRAC_PI_2]);
            let a = r.gdir();
            [a[0] * t.sin(), a[1] * t.sin(), a[2] * t.sin(), t.cos()]
        }
        5 => {
            let a = vunit(r.dir());
            let t = r.uni(-3.2, 3.2);
            [a[0] * t.sin(), a[1] * t.sin(), a[2] * t.sin(), t.cos()]
        }
        6 => {
            let a = r.gdir();
            [a[0], a[1], a[2], 0.0]
        }
        _ => loop {
            let q = [r.uni(-1.0, 1.0), r.uni(-1.0, 1.0), r.uni(-1.0, 1.0), r.uni(-1.0, 1.0)];
            let l = q.iter().map(|x| x * x).sum::<f64>().sqrt();
            if l > 0.1 && l < 1.0 {
                break [q[0] / l, q[1] / l, q[2] / l, q[3] / l];
            }
        },
    };
    let l = q.iter().map(|x| x * x).sum::<f64>().sqrt();
    [s * q[0] / l, s * q[1] / l, s * q[2] / l, s * q[3] / l]
}

pub fn c07(r: &mut Rng, m: &mut Mon) {
    let i = r.us(2);
    any_quat!(i, c07_t, r, m)
}
fn c07_t<Q: QuatT>(r: &mut Rng, m: &mut Mon) {
    let (mut a, mut b) = (anyq::<Q>(r), anyq::<Q>(r));
    if r.chance(0.15) {
        // basis elements
        a = [0.0; 4];
        b = [0.0; 4];
        a[r.us(4)] = r.sign();
        b[r.us(4)] = r.sign();
        m.ev("basis elements");
    } else if r.chance(0.2) {
        let lim = if Q::EPS > 1e-10 { 6.0 } else { 60.0 };
        let s = r.logu(-lim, lim);
        a = rq::<Q>([a[0] * s, a[1] * s, a[2] * s, a[3] * s]);
        if r.chance(0.5) {
            b = rq::<Q>([b[0] / s, b[1] / s, b[2] / s, b[3] / s]);
        }
        m.ev("wide magnitude");
    } else {
        b = related::<Q>(r, a, b, m);
    }
    let s = Q::r(r.val());
    m.ev(Q::NAME);
    m.hs(&a);
    m.hs(&b);
    m.note(|| format!("{} a={:?} b={:?} s={:?}", Q::NAME, a, b, s));
    let eps = Q::EPS;
    let (p, q) = (Q::mk(a), Q::mk(b));
    let (ea, eb) = (e4(a), e4(b));
    jexact(m, "raw construction", p.c(), a);
    jexact(m, "default is the identity", Q::q_default().c(), [0.0, 0.0, 0.0, 1.0]);
    jexact(m, "init is the identity", Q::q_init().c(), [0.0, 0.0, 0.0, 1.0]);
    jq(m, "product", p.q_mul(q).c(), hmul(ea, eb), K, eps);
    jq(m, "product", q.q_mul(p).c(), hmul(eb, ea), K, eps);
    jq(m, "sum", p.q_add(q).c(), [ea[0] + eb[0], ea[1] + eb[1], ea[2] + eb[2], ea[3] + eb[3]], 4.0, eps);
    jq(m, "difference", p.q_sub(q).c(), [ea[0] - eb[0], ea[1] - eb[1], ea[2] - eb[2], ea[3] - eb[3]], 4.0, eps);
    jq(m, "scaling", p.q_scale(s).c(), [ea[0] * e(s), ea[1] * e(s), ea[2] * e(s), ea[3] * e(s)], 4.0, eps);
    jexact(m, "negation", p.q_neg().c(), [-a[0], -a[1], -a[2], -a[3]]);
    jexact(m, "conjugate", p.q_conj().c(), [-a[0], -a[1], -a[2], a[3]]);
    let l2 = hlen2(ea);
    m.num("squared length", p.q_len2(), l2, K, eps);
    if l2.f() == 0.0 {
        return;
    }
    let big = if eps > 1e-10 { 1e12 } else { 1e130 };
    if l2.f() < 1.0 / big || l2.f() > big {
        m.skip("unjudged: length near the range limits");
        return;
    }
    let l = l2.sqrt();
    m.num("length", p.q_len(), l, K, eps);
    let n = [ea[0] / l, ea[1] / l, ea[2] / l, ea[3] / l];
    jq(m, "normalisation", p.q_norm().c(), n, K, eps);
    jq(m, "construction with normalisation", Q::q_mk_norm(a).c(), n, K, eps);
    let c = hconj(ea);
    let inv = p.q_inv();
    jq(m, "inverse", inv.c(), [c[0] / l2, c[1] / l2, c[2] / l2, c[3] / l2], K, eps);
    let one = [0.0, 0.0, 0.0, 1.0];
    for (x, y) in [(p, inv), (inv, p)] {
        let o = x.q_mul(y).c();
        for i in 0..4 {
            m.near("q times inverse is one", o[i], one[i], 4.0 * K * eps);
        }
    }
    let lb = hlen2(eb).sqrt();
    let wide = if eps > 1e-10 { 1e15 } else { 1e140 };
    let lp = l.f() * lb.f();
    if lb.f() > 0.0 && !(lp > 1.0 / wide && lp < wide) {
        m.skip("unjudged: length near the range limits");
        return;
    }
    if lb.f() > 0.0 && lb.m.is_finite() {
        let pr = p.q_mul(q).q_len();
        m.num("length of product", pr, l * lb, K, eps);
    }
    // associativity on the library's own results
    let c3 = anyq::<Q>(r);
    let x = p.q_mul(q).q_mul(Q::mk(c3)).c();
    let w = hmul(hmul(ea, eb), e4(c3));
    jq(m, "triple product", x, w, K, eps);
    let x = p.q_mul(q.q_mul(Q::mk(c3))).c();
    jq(m, "triple product", x, w, K, eps);
}

fn erot(q: E4, v: E3) -> E3 {
    let r = hmul(hmul(q, [v[0], v[1], v[2], e(0.0)]), hconj(q));
    [r[0], r[1], r[2]]
}
/// rotation matrix columns are the images of the axes
fn erotm(q: E4) -> [E3; 3] {
    [erot(q, e3([1.0, 0.0, 0.0])), erot(q, e3([0.0, 1.0, 0.0])), erot(q, e3([0.0, 0.0, 1.0]))]
}
pub fn c08(r: &mut Rng, m: &mut Mon) {
    let i = r.us(2);
    any_quat!(i, c08_t, r, m)
}
fn c08_t<Q: QuatT>(r: &mut Rng, m: &mut Mon) {
    let eps = Q::EPS;
    let (a, b) = (unitq::<Q>(r), unitq::<Q>(r));
    let b = related::<Q>(r, a, b, m);
    let l = b.iter().map(|x| x * x).sum::<f64>().sqrt();
    let b = rq::<Q>([b[0] / l, b[1] / l, b[2] / l, b[3] / l]);
    let (mut u, mut v) = (r.vec3(), r.vec3());
    match r.below(24) {
        0 => v = u,
        1 => v = vscl(u, r.val()),
        2 => u = vscl([a[0], a[1], a[2]], r.val()),
        3 => v = [u[1], u[2], u[0]],
        4 => v = vscl([b[0], b[1], b[2]], r.val()),
        _ => {}
    }
    let lim = if eps > 1e-10 { 8.0 } else { 60.0 };
    let z = zoom(r, lim, m);
    let (u, v) = (rv::<Q>(vscl(u, z)), rv::<Q>(vscl(v, if r.chance(0.5) { z } else { 1.0 })));
    m.ev(Q::NAME);
    m.hs(&a);
    m.hs(&b);
    m.hs(&u);
    m.note(|| format!("{} a={:?} b={:?} u={:?} v={:?}", Q::NAME, a, b, u, v));
    let (p, q) = (Q::mk(a), Q::mk(b));
    let ru = p.q_rot(u);
    let rvv = p.q_rot(v);
    let want = erot(e4(a), e3(u));
    let su = vlen(u);
    let sv = vlen(v);
    for i in 0..3 {
        m.num("rotated vector", ru[i], want[i], K, eps);
    }
    m.near("length preserved", vlen(ru), su, K * eps * su);
    m.near("dot product preserved", vdot(ru, rvv), vdot(u, v), K * eps * su * sv);
    let x = vcross(ru, rvv);
    let y = p.q_rot(rv::<Q>(vcross(u, v)));
    for i in 0..3 {
        m.near("handedness preserved", x[i], y[i], 2.0 * K * eps * su * sv);
    }
    let back = p.q_conj().q_rot(ru);
    for i in 0..3 {
        m.near("undone by the conjugate", back[i], u[i], 2.0 * K * eps * su);
    }
    // composition
    let pq = p.q_mul(q);
    let c1 = pq.q_rot(u);
    let c2 = p.q_rot(q.q_rot(u));
    for i in 0..3 {
        m.near("rotation by a product", c1[i], c2[i], 2.0 * K * eps * su);
    }
    // matrices
    let cols = erotm(e4(a));
    for row in [true, false] {
        let mt = p.q_to_rot(row);
        m.ev(if row { "row-major matrix" } else { "column-major matrix" });
        m.ok("layout of the rotation matrix", mt.row() == row, || "not the requested layout".into());
        for i in 0..4 {
            for j in 0..4 {
                if i < 3 && j < 3 {
                    // unit up to rounding: formulas differ by multiples of (1-|q|^2)
                    m.near(if row { "rotation matrix entry, row-major" } else { "rotation matrix entry, column-major" }, mt.at(i, j), cols[j][i].f(), K * eps);
                } else {
                    m.same("homogeneous border", mt.at(i, j), if i == j { 1.0 } else { 0.0 }, 0.0);
                }
            }
        }
        if let Some(w) = mt.m_col(&[u[0], u[1], u[2], 1.0]) {
            for i in 0..3 {
                m.near("matrix acts as the rotation", w[i], ru[i], K * eps * su);
            }
            m.near("matrix acts as the rotation", w[3], 1.0, 0.0);
        } else {
            m.ok("matrix acts as the rotation", false, || "no value returned".into());
        }
        let g = |i: usize, j: usize| mt.at(i, j);
        let det = g(0, 0) * (g(1, 1) * g(2, 2) - g(1, 2) * g(2, 1)) - g(0, 1) * (g(1, 0) * g(2, 2) - g(1, 2) * g(2, 0))
            + g(0, 2) * (g(1, 0) * g(2, 1) - g(1, 1) * g(2, 0));
        m.near("determinant one", det, 1.0, K * eps);
        for i in 0..3 {
            for j in 0..3 {
                let s: f64 = (0..3).map(|k| g(k, i) * g(k, j)).sum();
                m.near("orthonormal", s, if i == j { 1.0 } else { 0.0 }, K * eps);
            }
        }
        let mb = q.q_to_rot(row);
        if let Some(prod) = mt.m_mul(&mb) {
            let mpq = pq.q_to_rot(row);
            for i in 0..4 {
                for j in 0..4 {
                    m.near("matrix of a product", mpq.at(i, j), prod.at(i, j), 2.0 * K * eps);
                }
            }
        } else {
            m.ok("matrix of a product", false, || "no value returned".into());
        }
    }
}

pub fn c09(r: &mut Rng, m: &mut Mon) {
    let i = r.us(2);
    any_quat!(i, c09_t, r, m)
}
fn c09_t<Q: QuatT>(r: &mut Rng, m: &mut Mon) {
    use std::f64::consts::PI;
    let eps = Q::EPS;
    let f32_ = eps > 1e-10;
    m.ev(Q::NAME);
    // construction
    let axis = r.dir();
    // squared components must neither overflow nor underflow
    let out = f32_ && !(1e-15..1e15).contains(&vlen(axis));
    let axis = rv::<Q>(if out { vunit(axis) } else { axis });
    let deg = r.chance(0.5);
    let t = match r.below(16) {
        15 => r.logu(0.0, 5.0) * r.sign(),
        14 => r.int(-4000, 4000) as f64 * if deg { 15.0 } else { PI / 12.0 },
        13 => r.int(-720, 720) as f64 * if deg { 1.0 } else { PI / 180.0 },
        0..=2 => r.int(-48, 48) as f64 * if deg { 15.0 } else { PI / 12.0 },
        3..=5 => r.uni(-1.0, 1.0) * if deg { 180.0 } else { PI },
        6..=8 => r.logu(-8.0, 0.0) * r.sign(),
        _ => r.uni(-8.0, 8.0) * if deg { 180.0 } else { PI },
    };
    let t = Q::r(t);
    m.hs(&axis);
    m.h(t);
    m.note(|| format!("{} axis {:?} angle {:?} {}", Q::NAME, axis, t, if deg { "degrees" } else { "radians" }));
    let rad = if deg { t / 180.0 * PI } else { t };
    let q = if deg { Q::q_from_deg(axis, t) } else { Q::q_from_rad(axis, t) };
    let c = q.c();
    let u = unit3(e3(axis));
    let (s, w) = (rad / 2.0).sin_cos();
    let tol = 24.0 * eps * (1.0 + rad.abs());
    let l = if deg { "from degrees" } else { "from radians" };
    for i in 0..3 {
        m.near(l, c[i], u[i].f() * s, tol.min(tol * s.abs() + 24.0 * eps * rad.abs()) + 1e-37);
    }
    m.near(l, c[3], w, tol);
    m.near("unit quaternion from axis-angle", c.iter().map(|x| x * x).sum::<f64>().sqrt(), 1.0, 24.0 * eps);
    // right-handed: rotating a perpendicular vector
    let a = f3(u);
    let p = r.perp(a);
    let pr = rv::<Q>(p);
    let g = q.q_rot(pr);
    let z = vcross(a, pr);
    for i in 0..3 {
        m.near("right-handed rotation by the angle", g[i], pr[i] * rad.cos() + z[i] * rad.sin() + a[i] * vdot(a, pr) * (1.0 - rad.cos()), 64.0 * eps * (1.0 + rad.abs()));
    }
    // extraction, from this quaternion or another one
    let c = if r.chance(0.5) {
        c
    } else {
        let mut c = unitq::<Q>(r);
        if r.chance(0.15) {
            // normalised by the library itself, possibly a rounding beyond one
            let b = anyq::<Q>(r);
            let k: f64 = b.iter().map(|x| x * x).sum();
            if k > 1e-3 && k < 1e6 {
                c = Q::mk(b).q_norm().c();
                m.ev("normalised by the library");
            }
        }
        if r.chance(0.06) {
            c = [0.0, 0.0, 0.0, Q::r(r.sign() * (1.0 + r.pick(&[0.0, 1.0, 2.0, -1.0]) * eps))];
            m.ev("scalar part at or slightly beyond one");
        }
        c
    };
    m.hs(&c);
    m.note(|| format!("to axis-angle: {:?}", c));
    let (ax, an) = Q::mk(c).q_to_aa();
    let fin = ax.iter().all(|x| x.is_finite()) && an.is_finite();
    m.ok("finite axis and angle", fin, || format!("axis {:?} angle {:?}", ax, an));
    if !fin {
        return;
    }
    m.near("unit axis", vlen(ax), 1.0, 16.0 * eps);
    m.ok("angle between zero and a full turn", an >= 0.0 && an <= 2.0 * PI * (1.0 + 4.0 * eps), || format!("angle {:?}", an));
    let vl = vlen([c[0], c[1], c[2]]);
    let half = vl.atan2(c[3]);
    let small = if f32_ { 2e-3 } else { 3e-6 };
    let tol = if vl < if f32_ { 0.01 } else { 1e-5 } { small } else { 16.0 * eps / vl };
    let (s, w) = (an / 2.0).sin_cos();
    // same rotation: equal up to the sign of the whole quaternion
    let d = |sg: f64| (0..3).map(|i| (ax[i] * s - sg * c[i]).abs()).fold((w - sg * c[3]).abs(), f64::max);
    m.ok("same rotation back", d(1.0).min(d(-1.0)) <= tol, || format!("axis {:?} angle {:?} deviates by {:e}", ax, an, d(1.0).min(d(-1.0))));
    if vl > 0.05 {
        m.ev("angle well inside (0, full turn)");
        m.near("angle", an, 2.0 * half, 2.0 * tol);
        for i in 0..3 {
            m.near("axis direction", ax[i], c[i] / vl, 16.0 * eps);
        }
    }
}

pub fn c10(r: &mut Rng, m: &mut Mon) {
    let i = r.us(2);
    any_quat!(i, c10_t, r, m)
}
fn gen_t(r: &mut Rng) -> f64 {
    match r.below(12) {
        0..=1 => r.pick(&[0.0, 1.0]),
        2..=3 => r.pick(&[0.25, 0.5, 0.75]),
        4..=5 => r.pick(&[-1.0, 2.0, -0.001, 1.001, -100.0, 100.0]),
        6 => r.logu(-12.0, 0.0),
        7 => 1.0 - r.logu(-12.0, 0.0) * r.sign(),
        8 => r.logu(-30.0, 30.0) * r.sign(),
        9 => r.uni(-1.0, 2.0),
        _ => r.f(),
    }
}
fn c10_t<Q: QuatT>(r: &mut Rng, m: &mut Mon) {
    let eps = Q::EPS;
    m.ev(Q::NAME);
    let t = Q::r(gen_t(r));
    let tc = t.max(0.0).min(1.0);
    m.ev(if t != tc { "parameter clamped" } else { "parameter inside" });
    if r.chance(0.25) {
        let (a, b) = (anyq::<Q>(r), anyq::<Q>(r));
        let b = related::<Q>(r, a, b, m);
        let z = zoom(r, if eps > 1e-10 { 20.0 } else { 200.0 }, m);
        let y = if r.chance(0.5) { z } else { 1.0 };
        let (a, b) = (rq::<Q>([a[0] * z, a[1] * z, a[2] * z, a[3] * z]), rq::<Q>([b[0] * y, b[1] * y, b[2] * y, b[3] * y]));
        m.hs(&a);
        m.hs(&b);
        m.h(t);
        m.note(|| format!("{} linear {:?} .. {:?} at {:?}", Q::NAME, a, b, t));
        let g = Q::q_lerp(Q::mk(a), Q::mk(b), t).c();
        for i in 0..4 {
            let w = e(a[i]) * (e(1.0) - e(tc)) + e(b[i]) * e(tc);
            m.num("linear blend", g[i], w, 16.0, eps);
        }
        return;
    }
    let a = unitq64(r);
    // the end at a chosen angle from the start
    let kind = r.below(10);
    let om = match kind {
        0 => 0.0,
        1 => r.logu(-9.0, -2.0),
        2 => r.uni(0.005, 0.03),
        3 => std::f64::consts::FRAC_PI_2,
        4 => std::f64::consts::FRAC_PI_2 + r.sign() * r.logu(-6.0, -1.0),
        5 => std::f64::consts::PI - r.logu(-9.0, -1.0),
        6 => r.int(0, 12) as f64 * std::f64::consts::PI / 12.0,
        _ => r.uni(0.0, std::f64::consts::PI),
    };
    let b = loop {
        let z = unitq64(r);
        let d: f64 = (0..4).map(|i| z[i] * a[i]).sum();
        let p: Vec<f64> = (0..4).map(|i| z[i] - d * a[i]).collect();
        let l = p.iter().map(|x| x * x).sum::<f64>().sqrt();
        if l > 0.1 {
            break [
                a[0] * om.cos() + p[0] / l * om.sin(),
                a[1] * om.cos() + p[1] / l * om.sin(),
                a[2] * om.cos() + p[2] / l * om.sin(),
                a[3] * om.cos() + p[3] / l * om.sin(),
            ];
        }
    };
    let (a, b) = if kind == 9 { (unitq::<Q>(r), unitq::<Q>(r)) } else { (rq::<Q>(a), rq::<Q>(b)) };
    m.hs(&a);
    m.hs(&b);
    m.h(t);
    m.note(|| format!("{} slerp {:?} .. {:?} at {:?}", Q::NAME, a, b, t));
    let dot = (0..4).fold(e(0.0), |s, i| s + e(a[i]) * e(b[i]));
    let g = Q::q_slerp(Q::mk(a), Q::mk(b), t).c();
    let gn = Q::q_slerp(Q::mk(a), Q::mk([-b[0], -b[1], -b[2], -b[3]]), t).c();
    if dot.f().abs() < 32.0 * eps {
        m.skip("unjudged: start and end half a turn apart");
        if tc == 0.0 {
            for i in 0..4 {
                m.near("slerp starts at the start", g[i], a[i], 16.0 * eps);
            }
        }
        m.near("slerp result is unit", g.iter().map(|x| x * x).sum::<f64>().sqrt(), 1.0, 64.0 * eps);
        return;
    }
    let sg = if dot.f() < 0.0 { -1.0 } else { 1.0 };
    m.ev(if sg < 0.0 { "obtuse: end negated" } else { "acute" });
    let be: Q4 = [sg * b[0], sg * b[1], sg * b[2], sg * b[3]];
    let diff = (0..4).map(|i| (a[i] - be[i]).powi(2)).sum::<f64>().sqrt();
    let sum = (0..4).map(|i| (a[i] + be[i]).powi(2)).sum::<f64>().sqrt();
    let w = 2.0 * diff.atan2(sum);
    let (k0, k1) = if w < 1e-6 { (1.0 - tc, tc) } else { (((1.0 - tc) * w).sin() / w.sin(), (tc * w).sin() / w.sin()) };
    let near = dot.f().abs() > 0.99985;
    m.ev(if near { "nearly parallel" } else { "not nearly parallel" });
    let tol = if near { 5e-5 } else { 64.0 * eps + 8.0 * eps / (w * w) };
    for i in 0..4 {
        m.near(if near { "slerp, nearly parallel" } else { "slerp" }, g[i], a[i] * k0 + be[i] * k1, tol);
        m.near("slerp to the negated end", gn[i], a[i] * k0 + be[i] * k1, tol);
    }
    m.near("slerp result is unit", g.iter().map(|x| x * x).sum::<f64>().sqrt(), 1.0, tol);
    if tc == 0.0 {
        for i in 0..4 {
            m.near("slerp starts at the start", g[i], a[i], 16.0 * eps);
        }
    }
    if tc == 1.0 {
        for i in 0..4 {
            m.near("slerp ends at the end", g[i], be[i], 16.0 * eps);
        }
    }
}

pub fn c11(r: &mut Rng, m: &mut Mon) {
    let i = r.us(2);
    any_quat!(i, c11_t, r, m)
}
fn c11_t<Q: QuatT>(r: &mut Rng, m: &mut Mon) {
    let eps = Q::EPS;
    m.ev(Q::NAME);
    let u = unitq64(r);
    // squares of the length stay in range
    let wide = if eps > 1e-10 { 15.0 } else { 130.0 };
    let l = match r.below(4) {
        0 => 1.0,
        1 => r.int(1, 9) as f64,
        2 => {
            m.ev("wide magnitude");
            r.logu(-wide, wide)
        }
        _ => r.logu(-3.0, 3.0),
    };
    let a = if r.chance(0.2) {
        let c = anyq::<Q>(r);
        c
    } else {
        rq::<Q>([u[0] * l, u[1] * l, u[2] * l, u[3] * l])
    };
    let vl = norm3(e3([a[0], a[1], a[2]])).f();
    let l = hlen2(e4(a)).sqrt().f();
    if !(vl > 10f64.powf(-wide - 1.0) && l < 10f64.powf(wide + 1.0)) {
        m.skip("unjudged: no vector part or length near the range limits");
        return;
    }
    // the power's length stays in range
    let most = (2.0 * wide / l.log10().abs()).min(64.0);
    let t = Q::r(match r.below(6) {
        0 => r.int(-4, 4) as f64,
        1 => r.int(-8, 8) as f64 / 2.0,
        2 => r.uni(-1.0, 1.0) * most,
        3 => r.logu(-9.0, 0.0) * r.sign(),
        _ => r.uni(-4.0, 4.0),
    });
    let t = if t.abs() <= most { t } else { Q::r(t / 4.0) };
    m.hs(&a);
    m.h(t);
    m.note(|| format!("{} {:?} power {:?}", Q::NAME, a, t));
    m.ev(if a[3] < 0.0 {
        "negative scalar part"
    } else if a[3] == 0.0 {
        "zero scalar part"
    } else {
        "positive scalar part"
    });
    let s = vl / l;
    let al = vl.atan2(a[3]);
    let v = [a[0] / vl, a[1] / vl, a[2] / vl];
    let q = Q::mk(a);
    // error of the polar angle, however it is computed
    let aerr = 8.0 * eps / s.max(eps.sqrt()) + 8.0 * eps * al;
    let g = q.q_ln().c();
    for i in 0..3 {
        m.near("log: vector part", g[i], v[i] * al, aerr + 16.0 * eps * al);
    }
    m.near("log: scalar part is ln of the length", g[3], l.ln(), 16.0 * eps * (1.0 + l.ln().abs()));
    // exponentiate (in the harness) and compare
    let gl = vlen([g[0], g[1], g[2]]);
    if gl.is_finite() && gl > 0.0 {
        let ex = g[3].exp();
        for i in 0..3 {
            m.near("exp of log", ex * g[i] / gl * gl.sin(), a[i], l * (aerr + 64.0 * eps * (1.0 + l.ln().abs())));
        }
        m.near("exp of log", ex * gl.cos(), a[3], l * (aerr + 64.0 * eps * (1.0 + l.ln().abs())));
    }
    let pw = |t: f64| -> Q4 {
        let c = l.powf(t);
        [c * v[0] * (t * al).sin(), c * v[1] * (t * al).sin(), c * v[2] * (t * al).sin(), c * (t * al).cos()]
    };
    let tolp = |t: f64| l.powf(t) * (t.abs() * aerr + 32.0 * eps * (1.0 + t.abs() * (1.0 + l.ln().abs())));
    let w = pw(t);
    let g = q.q_pow(t).c();
    for i in 0..4 {
        m.near("power", g[i], w[i], tolp(t));
    }
    let one = [0.0, 0.0, 0.0, 1.0];
    let (g0, g1, g2, gm) = (q.q_pow(0.0).c(), q.q_pow(1.0).c(), q.q_pow(2.0).c(), q.q_pow(-1.0).c());
    let sq = f4(hmul(e4(a), e4(a)));
    for i in 0..4 {
        m.near("power 0 is one", g0[i], one[i], tolp(0.0));
        m.near("power 1 is the quaternion", g1[i], a[i], tolp(1.0));
        m.near("power 2 is the square", g2[i], sq[i], tolp(2.0));
        m.near("power -1 is the inverse", gm[i], if i < 3 { -a[i] } else { a[i] } / (l * l), tolp(-1.0));
    }
    let t2 = Q::r(r.uni(-2.0, 2.0));
    if (t + t2).abs() <= most && t2.abs() <= most {
        let x = f4(hmul(e4(q.q_pow(t).c()), e4(q.q_pow(t2).c())));
        let y = pw(t + t2);
        let tol = tolp(t) * l.powf(t2) + tolp(t2) * l.powf(t) + tolp(t + t2);
        for i in 0..4 {
            m.near("exponents add", x[i], y[i], tol);
        }
    }
}
fn f4(a: E4) -> Q4 {
    [a[0].f(), a[1].f(), a[2].f(), a[3].f()]
}

pub fn c12(r: &mut Rng, m: &mut Mon) {
    let i = r.us(2);
    any_quat!(i, c12_t, r, m)
}
fn c12_t<Q: QuatT>(r: &mut Rng, m: &mut Mon) {
    let eps = Q::EPS;
    m.ev(Q::NAME);
    let n = rv::<Q>(vunit(r.dir()));
    let p = match r.below(8) {
        0 => vscl(n, r.val()),
        1 => vscl(r.perp(n), r.val()),
        2 => [0.0; 3],
        _ => r.vec3(),
    };
    let z = zoom(r, if eps > 1e-10 { 12.0 } else { 120.0 }, m);
    let p = rv::<Q>(vscl(p, z));
    m.hs(&n);
    m.hs(&p);
    m.note(|| format!("{} normal {:?} vector {:?}", Q::NAME, n, p));
    let q = Q::mk([n[0], n[1], n[2], 0.0]);
    let (a, b, c) = (q.q_refl(p), q.q_par(p), q.q_ort(p));
    let np = vdot(n, p);
    let s = vlen(p) + if eps > 1e-10 { 1e-30 } else { 1e-290 };
    let tol = 48.0 * eps * s;
    for i in 0..3 {
        m.near("reflection", a[i], p[i] - 2.0 * np * n[i], tol);
        m.near("parallel component", b[i], p[i] - np * n[i], tol);
        m.near("orthogonal component", c[i], np * n[i], tol);
        m.near("components add up", b[i] + c[i], p[i], tol);
    }
    m.near("parallel component is in the plane", vdot(b, n), 0.0, 2.0 * tol);
    let x = vcross(c, n);
    for i in 0..3 {
        m.near("orthogonal component along the normal", x[i], 0.0, 2.0 * tol);
    }
    let back = q.q_refl(a);
    for i in 0..3 {
        m.near("reflecting twice", back[i], p[i], 2.0 * tol);
    }
    m.near("reflection preserves length", vlen(a), vlen(p), tol);
}

pub fn c13(r: &mut Rng, m: &mut Mon) {
    let i = r.us(2);
    any_quat!(i, c13_t, r, m)
}
fn c13_t<Q: QuatT>(r: &mut Rng, m: &mut Mon) {
    let eps = Q::EPS;
    m.ev(Q::NAME);
    let z = zoom(r, if eps > 1e-10 { 24.0 } else { 250.0 }, m);
    let d = rv::<Q>(vscl(r.vec3(), z));
    m.hs(&d);
    m.note(|| format!("{} displacement {:?}", Q::NAME, d));
    let t = Q::q_trans(d).c();
    for i in 0..3 {
        m.near("half displacement", t[i], d[i] / 2.0, 2.0 * eps * d[i].abs() + 1e-37);
    }
    m.same("scalar part of a translation", t[3], 0.0, 0.0);
    let a = unitq::<Q>(r);
    let (x, y) = Q::q_dual(Q::mk(a), Q::mk(t));
    jexact(m, "dual quaternion keeps the rotation", x, a);
    jexact(m, "dual quaternion keeps the translation", y, t);
    // translation matrix: of this quaternion or of any other
    let q = if r.chance(0.5) { t } else { anyq::<Q>(r) };
    m.hs(&q);
    let z = zoom(r, if eps > 1e-10 { 24.0 } else { 250.0 }, m);
    let p = rv::<Q>(vscl(r.vec3(), z));
    for row in [true, false] {
        m.ev(if row { "row-major matrix" } else { "column-major matrix" });
        m.note(|| format!("translation matrix of {:?} row-major={} point {:?}", q, row, p));
        let mt = Q::mk(q).q_to_trans(row);
        m.ok("layout of the translation matrix", mt.row() == row, || "not the requested layout".into());
        for i in 0..4 {
            for j in 0..4 {
                let w = if i == j {
                    1.0
                } else if j == 3 {
                    q[i]
                } else {
                    0.0
                };
                m.same(if row { "translation matrix entry, row-major" } else { "translation matrix entry, column-major" }, mt.at(i, j), w, 0.0);
            }
        }
        let (g, h) = (mt.m_col(&[p[0], p[1], p[2], 1.0]), mt.m_col(&[p[0], p[1], p[2], 0.0]));
        match (g, h) {
            (Some(g), Some(h)) => {
                for i in 0..3 {
                    m.num("moves points", g[i], e(p[i]) + e(q[i]), 8.0, eps);
                    m.same("leaves directions", h[i], p[i], eps);
                }
                m.same("moves points", g[3], 1.0, 0.0);
                m.same("leaves directions", h[3], 0.0, 0.0);
            }
            _ => {
                m.ok("moves points", false, || "no value returned".into());
            }
        }
    }
    // completing a unit quaternion
    let u = r.gdir();
    let l = match r.below(5) {
        0 => r.f().sqrt(),
        1 => 1.0 - r.logu(-6.0, -1.0),
        2 => r.logu(-6.0, 0.0),
        3 => 0.0,
        _ => r.f(),
    };
    let v = if r.chance(0.1) {
        let mut v = [0.0; 3];
        v[r.us(3)] = r.sign() * r.pick(&[1.0, 0.5, 0.0]);
        v
    } else {
        rv::<Q>(vscl(u, l))
    };
    let vv = vdot(v, v);
    if vv > 1.0 - 8.0 * eps && v.iter().filter(|x| **x != 0.0).count() > 1 || vv < 1.0 && vv > 1.0 - 8.0 * eps {
        m.skip("unjudged: vector part of length one up to rounding");
        return;
    }
    m.note(|| format!("complete {:?}", v));
    let c = Q::q_auto_w(v).c();
    for i in 0..3 {
        m.same("keeps the vector part", c[i], v[i], 0.0);
    }
    m.ok("scalar part not positive", c[3] <= 0.0, || format!("scalar part {:e}", c[3]));
    let w = (1.0 - vv).sqrt();
    m.near("scalar part completes to a unit", c[3], -w, if w == 0.0 { 0.0 } else { 16.0 * eps / w });
    m.near("completed quaternion is unit", (vv + c[3] * c[3]).sqrt(), 1.0, 16.0 * eps);
}
