//! Shapes, the geometric oracle for every supported pair, and scene generators.
use crate::dd::*;
use crate::mon::Mon;
use crate::rng::Rng;
use mazth::i_shape::IShape;
use mazth::i_vicinity::IVicinity;
use mazth::line::Line3;
use mazth::mat::Mat3x1;
use mazth::plane::Plane;
use mazth::point::Point3;
use mazth::ray::Ray3;
use mazth::rbox::RecBox;
use mazth::sphere::Sphere;
use mazth::triprism::TriPrism;

pub const EPS: f64 = f64::EPSILON;
pub const K: f64 = 256.0;
pub const VIC: f64 = 1e-6;

#[derive(Clone, Debug, PartialEq)]
pub enum Spec {
    Pt(V3),
    Ray(V3, V3),
    Sph(V3, f64),
    Pln(V3, V3),
    Bx(V3, f64),
    Pri([V3; 3], f64),
    Seg(V3, V3),
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Kd {
    Pt,
    Ray,
    Sph,
    Pln,
    Bx,
    Pri,
    Seg,
}
pub const KINDS: [Kd; 7] = [Kd::Pt, Kd::Ray, Kd::Sph, Kd::Pln, Kd::Bx, Kd::Pri, Kd::Seg];
/// canonical pairs; both orders are supported by the crate
pub const PAIRS: [(Kd, Kd); 12] = [
    (Kd::Pt, Kd::Pt),
    (Kd::Pt, Kd::Ray),
    (Kd::Pt, Kd::Sph),
    (Kd::Pt, Kd::Pln),
    (Kd::Pt, Kd::Bx),
    (Kd::Pt, Kd::Pri),
    (Kd::Ray, Kd::Ray),
    (Kd::Ray, Kd::Sph),
    (Kd::Ray, Kd::Pln),
    (Kd::Sph, Kd::Sph),
    (Kd::Sph, Kd::Pln),
    (Kd::Seg, Kd::Pri),
];
pub const PAIR_NAMES: [&str; 12] = [
    "pair point-point",
    "pair point-ray",
    "pair point-sphere",
    "pair point-plane",
    "pair point-box",
    "pair point-prism",
    "pair ray-ray",
    "pair ray-sphere",
    "pair ray-plane",
    "pair sphere-sphere",
    "pair sphere-plane",
    "pair segment-prism",
];

#[derive(Clone, Debug)]
pub enum Shp {
    Pt(Point3),
    Ray(Ray3),
    Sph(Sphere),
    Pln(Plane),
    Bx(RecBox),
    Pri(TriPrism),
    Seg(Line3),
}
impl Shp {
    pub fn s(&self) -> &dyn IShape {
        match self {
            Shp::Pt(x) => x,
            Shp::Ray(x) => x,
            Shp::Sph(x) => x,
            Shp::Pln(x) => x,
            Shp::Bx(x) => x,
            Shp::Pri(x) => x,
            Shp::Seg(x) => x,
        }
    }
    pub fn vic(&mut self, e: f64) {
        match self {
            Shp::Pt(x) => x.set_vicinity(e),
            Shp::Ray(x) => x.set_vicinity(e),
            Shp::Sph(x) => x.set_vicinity(e),
            Shp::Pln(x) => x.set_vicinity(e),
            Shp::Bx(x) => x.set_vicinity(e),
            Shp::Pri(x) => x.set_vicinity(e),
            Shp::Seg(x) => x.set_vicinity(e),
        }
    }
}
impl Spec {
    pub fn kind(&self) -> Kd {
        match self {
            Spec::Pt(..) => Kd::Pt,
            Spec::Ray(..) => Kd::Ray,
            Spec::Sph(..) => Kd::Sph,
            Spec::Pln(..) => Kd::Pln,
            Spec::Bx(..) => Kd::Bx,
            Spec::Pri(..) => Kd::Pri,
            Spec::Seg(..) => Kd::Seg,
        }
    }
    pub fn build(&self) -> Shp {
        match self {
            Spec::Pt(p) => Shp::Pt(Point3::init(p)),
            Spec::Ray(o, d) => Shp::Ray(Ray3::init(o, d)),
            Spec::Sph(c, r) => Shp::Sph(Sphere::init(c, *r)),
            Spec::Pln(o, n) => Shp::Pln(Plane::init(o, n)),
            Spec::Bx(c, s) => Shp::Bx(RecBox::init(c, *s)),
            Spec::Pri(v, h) => Shp::Pri(TriPrism::init(&[v[0], v[1], v[2]].concat(), *h)),
            Spec::Seg(a, b) => Shp::Seg(Line3::init(a, b)),
        }
    }
    pub fn nums(&self) -> Vec<f64> {
        match self {
            Spec::Pt(p) => p.to_vec(),
            Spec::Ray(o, d) | Spec::Pln(o, d) | Spec::Seg(o, d) => [*o, *d].concat(),
            Spec::Sph(c, r) | Spec::Bx(c, r) => vec![c[0], c[1], c[2], *r],
            Spec::Pri(v, h) => {
                let mut x = [v[0], v[1], v[2]].concat();
                x.push(*h);
                x
            }
        }
    }
    /// largest coordinate or size
    pub fn size(&self) -> f64 {
        match self {
            Spec::Pt(p) => vmaxabs(*p),
            Spec::Ray(o, _) | Spec::Pln(o, _) => vmaxabs(*o),
            Spec::Seg(a, b) => vmaxabs(*a).max(vmaxabs(*b)),
            Spec::Sph(c, r) | Spec::Bx(c, r) => vmaxabs(*c) + r,
            Spec::Pri(v, h) => v.iter().map(|x| vmaxabs(*x)).fold(0.0, f64::max) + h,
        }
    }
}
pub fn m3(v: V3) -> Mat3x1<f64> {
    Mat3x1 { _val: v }
}

/// what a correct answer to "do a and b intersect" looks like
#[derive(Clone, Debug)]
pub enum Verdict {
    Hit(Loc),
    Miss,
    Unk(&'static str),
}
#[derive(Clone, Debug)]
pub enum Loc {
    /// within the tolerance of one of these points
    Near(Vec<V3>, f64),
    /// between the parameters lo and hi of the segment, off it by at most the tolerance
    Seg(V3, V3, f64, f64, f64),
    Free,
}
fn unk() -> Verdict {
    Verdict::Unk("unjudged:boundary")
}
fn near_e(p: E3, extra: f64) -> Verdict {
    let mut t = extra;
    for c in p.iter() {
        t = t.max(K * EPS * c.m);
    }
    if !t.is_finite() {
        return Verdict::Hit(Loc::Free);
    }
    Verdict::Hit(Loc::Near(vec![f3(p)], t))
}
/// the five half spaces g(p) <= 0 of a prism: (point on the face, outward normal not normalised, offset h|N|)
pub struct Faces {
    pub f: Vec<(E3, E3, E)>,
}
pub fn faces(v: &[V3; 3], h: f64) -> Faces {
    let (v0, v1, v2) = (e3(v[0]), e3(v[1]), e3(v[2]));
    let n = normal3(v0, v1, v2);
    let z = e(0.0);
    let mut f = vec![(v0, scl3(n, e(-1.0)), z), (v0, n, e(h) * norm3(n))];
    for (a, b) in [(v0, v1), (v1, v2), (v2, v0)] {
        f.push((a, even3(cross3(sub3(b, a), n)), z));
    }
    Faces { f }
}
impl Faces {
    /// value of the i-th half space function at p (unnormalised)
    pub fn g(&self, i: usize, p: V3) -> E {
        let (q, n, o) = &self.f[i];
        let (q, n) = (*q, *n);
        // the magnitude shadow covers n.p - n.q as well as n.(p-q)
        dot3(n, sub3(e3(p), q)) - *o
    }
    /// signed distance to the i-th face
    pub fn d(&self, i: usize, p: V3) -> f64 {
        let n = &self.f[i].1;
        let l = dot3(*n, *n).v.sqrt().f();
        (self.g(i, p).v / D::new(l)).f()
    }
    pub fn unit(&self, i: usize) -> V3 {
        let n = f3(self.f[i].1);
        let m = vmaxabs(n);
        vunit(vscl(n, 1.0 / m))
    }
    /// largest signed distance: > 0 outside
    pub fn out(&self, p: V3) -> f64 {
        (0..5).map(|i| self.d(i, p)).fold(f64::NEG_INFINITY, f64::max)
    }
    /// Neg: inside, Zero: on the boundary (exact only), Pos: outside
    pub fn inside(&self, p: V3, k: f64) -> Sg {
        let mut r = Sg::Neg;
        for i in 0..5 {
            match self.g(i, p).sg(k, EPS) {
                Sg::Pos => return Sg::Pos,
                Sg::Ambig => r = Sg::Ambig,
                Sg::Zero => {
                    if r == Sg::Neg {
                        r = Sg::Zero
                    }
                }
                Sg::Neg => {}
            }
        }
        r
    }
}
fn noise(ps: &[V3]) -> f64 {
    K * EPS * ps.iter().map(|p| vmaxabs(*p)).fold(0.0, f64::max)
}
/// The oracle. `exact`: all arithmetic a sensible implementation can do on this scene is free of rounding.
pub fn oracle(a: &Spec, b: &Spec, vic: f64, exact: bool) -> Verdict {
    use Spec::*;
    let k = if exact { 0.0 } else { K };
    match (a, b) {
        (Pt(p), Pt(q)) => {
            let d = vmaxabs(vsub(*p, *q));
            let no = noise(&[*p, *q]);
            if d == 0.0 || d + no <= 0.95 * vic {
                Verdict::Hit(Loc::Near(vec![*p, *q], 0.0))
            } else if d - no >= 1.05 * vic && d > 0.0 {
                Verdict::Miss
            } else {
                unk()
            }
        }
        (Pt(p), Ray(o, d)) => {
            let u = unit3(e3(*d));
            let rel = sub3(e3(*p), e3(*o));
            let t = dot3(rel, u);
            let perp = sub3(rel, scl3(u, t));
            let g = vlen(f3(perp));
            let no = 4.0 * noise(&[*p, *o]);
            if p == o {
                return Verdict::Hit(Loc::Near(vec![*p], 0.0));
            }
            let tf = t.f();
            if g - no >= 1.75 * vic {
                return Verdict::Miss;
            }
            if tf < -2.0 * vic - no {
                return Verdict::Miss;
            }
            if exact && g == 0.0 {
                return if tf >= 0.0 { Verdict::Hit(Loc::Near(vec![*p], vic)) } else { Verdict::Miss };
            }
            if tf > 2.0 * vic + no && g + no <= 0.95 * vic {
                return Verdict::Hit(Loc::Near(vec![*p], vic + no));
            }
            unk()
        }
        (Pt(p), Sph(c, r)) => {
            let rel = sub3(e3(*p), e3(*c));
            match (dot3(rel, rel) - e(*r).sq()).sg(k, EPS) {
                Sg::Neg | Sg::Zero => Verdict::Hit(Loc::Near(vec![*p], 0.0)),
                Sg::Pos => Verdict::Miss,
                _ => unk(),
            }
        }
        (Pt(p), Pln(o, n)) => {
            let u = unit3(e3(*n));
            let t = dot3(u, e3(*p)) - dot3(u, e3(*o));
            let g = t.f().abs();
            let no = t.tol(K, EPS);
            if exact && g == 0.0 || g + no <= 0.95 * vic {
                Verdict::Hit(Loc::Near(vec![*p], 0.0))
            } else if g - no >= 1.05 * vic {
                Verdict::Miss
            } else {
                unk()
            }
        }
        (Pt(p), Bx(c, s)) => {
            let mut r = Sg::Neg;
            for i in 0..3 {
                let x = (e(p[i]) - e(c[i])).abs() - e(*s);
                match x.sg(k / 16.0, EPS) {
                    Sg::Pos => return Verdict::Miss,
                    Sg::Ambig => r = Sg::Ambig,
                    _ => {}
                }
            }
            if r == Sg::Ambig {
                unk()
            } else {
                Verdict::Hit(Loc::Near(vec![*p], 0.0))
            }
        }
        (Pt(p), Pri(v, h)) => match faces(v, *h).inside(*p, k) {
            Sg::Neg | Sg::Zero => Verdict::Hit(Loc::Near(vec![*p], 0.0)),
            Sg::Pos => Verdict::Miss,
            _ => unk(),
        },
        (Ray(oa, da), Ray(ob, db)) => ray_ray(*oa, *da, *ob, *db, vic, exact),
        (Ray(o, d), Sph(c, r)) => {
            let (o, d) = (e3(*o), e3(*d));
            let rel = sub3(o, e3(*c));
            let bb = dot3(rel, d);
            let cc = dot3(rel, rel) - e(*r).sq();
            let dd = dot3(d, d);
            let disc = bb * bb - dd * cc;
            let (sb, sc, sd) = (bb.sg(k, EPS), cc.sg(k, EPS), disc.sg(k, EPS));
            let at = |first: bool| -> Verdict {
                // parameter along the unnormalised direction
                let q = if sd == Sg::Zero { e(0.0) } else { disc.sqrt() };
                let t = (if first { -bb - q } else { -bb + q }) / dd;
                near_e(add3(o, scl3(d, t)), 0.0)
            };
            match sc {
                Sg::Neg => at(false),
                Sg::Pos => match (sb, sd) {
                    (Sg::Pos, _) | (_, Sg::Neg) => Verdict::Miss,
                    (Sg::Zero, _) => Verdict::Miss,
                    (Sg::Neg, Sg::Pos) | (Sg::Neg, Sg::Zero) => at(true),
                    _ => unk(),
                },
                Sg::Zero => Verdict::Hit(Loc::Near(vec![f3(o)], noise(&[f3(o)]))),
                Sg::Ambig => match (sb, sd) {
                    (Sg::Neg, Sg::Pos) => Verdict::Hit(Loc::Free),
                    _ => unk(),
                },
            }
        }
        (Ray(o, d), Pln(off, n)) => {
            let (o, d, n) = (e3(*o), e3(*d), e3(*n));
            let den = dot3(n, d);
            let num = dot3(n, e3(*off)) - dot3(n, o);
            let (sd, sn) = (den.sg(k, EPS), num.sg(k, EPS));
            match (sd, sn) {
                (Sg::Pos, _) => Verdict::Miss,
                (Sg::Neg, Sg::Pos) => Verdict::Miss,
                (Sg::Neg, Sg::Neg) | (Sg::Neg, Sg::Zero) => near_e(add3(o, scl3(d, num / den)), 0.0),
                (Sg::Zero, Sg::Zero) => Verdict::Hit(Loc::Near(vec![f3(o)], 0.0)),
                (Sg::Zero, Sg::Neg) | (Sg::Zero, Sg::Pos) => Verdict::Miss,
                (Sg::Ambig, Sg::Pos) => Verdict::Miss,
                _ => unk(),
            }
        }
        (Sph(c, r), Sph(f, s)) => {
            let rel = sub3(e3(*f), e3(*c));
            match (dot3(rel, rel) - (e(*r) + e(*s)).sq()).sg(k, EPS) {
                Sg::Pos => Verdict::Miss,
                Sg::Neg | Sg::Zero if r + s == 0.0 => near_e(e3(*c), noise(&[*c, *f])),
                // it may be computed from either centre
                Sg::Neg | Sg::Zero => near_e(add3(e3(*c), scl3(rel, e(*r) / (e(*r) + e(*s)))), noise(&[*c, *f])),
                _ => unk(),
            }
        }
        (Sph(c, r), Pln(off, n)) => {
            let (c3, n3) = (e3(*c), e3(*n));
            let t = dot3(n3, c3) - dot3(n3, e3(*off));
            let nn = dot3(n3, n3);
            // |t| <= r |n|
            let lhs = t.abs();
            let rhs = e(*r) * norm3(n3);
            match (lhs - rhs).sg(k, EPS) {
                Sg::Pos => Verdict::Miss,
                Sg::Neg | Sg::Zero => near_e(sub3(c3, scl3(n3, t / nn)), 0.0),
                _ => unk(),
            }
        }
        (Seg(p, q), Pri(v, h)) => seg_prism(*p, *q, v, *h, exact),
        _ => oracle(b, a, vic, exact),
    }
}
fn ray_ray(oa: V3, da: V3, ob: V3, db: V3, vic: f64, exact: bool) -> Verdict {
    let (ua, ub) = (unit3(e3(da)), unit3(e3(db)));
    let d = sub3(e3(ob), e3(oa));
    let v = cross3(ua, ub);
    let vl = vlen(f3(v));
    let no = 4.0 * noise(&[oa, ob]);
    if !exact && no > vic {
        return Verdict::Unk("unjudged:vicinity below rounding");
    }
    if vl < 1e-13 {
        // parallel up to rounding
        let along = dot3(d, ua);
        let perp = vlen(f3(sub3(d, scl3(ua, along))));
        let al = along.f();
        if perp - no >= 1.05 * vic {
            return Verdict::Miss;
        }
        if perp + no > 0.95 * vic {
            return unk();
        }
        if oa == ob {
            return Verdict::Hit(Loc::Near(vec![oa], no + vic));
        }
        if vdot(da, db) > 0.0 {
            return Verdict::Hit(Loc::Near(if al.abs() <= 2.0 * vic + no { vec![oa, ob] } else if al > 0.0 { vec![ob] } else { vec![oa] }, 2.0 * vic + no));
        }
        if al > 2.0 * vic + no {
            return Verdict::Hit(Loc::Near(vec![oa, ob], 2.0 * vic + no));
        }
        if al < -2.0 * vic - no {
            return Verdict::Miss;
        }
        return unk();
    }
    if vl < 1e-3 {
        return Verdict::Unk("unjudged:nearly parallel rays");
    }
    let num = dot3(v, d).f().abs();
    let gap = num / vl;
    let t = dot3(cross3(d, ub), v).f() / (vl * vl);
    let s = dot3(cross3(d, ua), v).f() / (vl * vl);
    let pn = no / (vl * vl) + if exact && gap == 0.0 { 0.0 } else { 2.0 * vic / vl };
    // exactly representable crossing: parameters are exact
    let lo = if exact && gap == 0.0 { 0.0 } else { pn };
    if num - no >= 1.05 * vic || t < -pn || s < -pn || exact && gap == 0.0 && (t < 0.0 || s < 0.0) {
        return Verdict::Miss;
    }
    if gap + no / vl <= 0.95 * vic && t >= lo && s >= lo {
        return Verdict::Hit(Loc::Near(vec![vadd(oa, vscl(f3(ua), t)), vadd(ob, vscl(f3(ub), s))], vic + no / (vl * vl)));
    }
    unk()
}
/// clip p + t (q-p), t in [0,1], against the half spaces moved outward by mu
fn clip(f: &Faces, p: V3, q: V3, mu: f64) -> Option<(f64, f64)> {
    let (mut lo, mut hi) = (0.0f64, 1.0f64);
    for i in 0..5 {
        let (a, b) = (f.d(i, p) - mu, f.d(i, q) - mu);
        if a <= 0.0 && b <= 0.0 {
            continue;
        }
        if a > 0.0 && b > 0.0 {
            return None;
        }
        let t = a / (a - b);
        if a > 0.0 {
            lo = lo.max(t)
        } else {
            hi = hi.min(t)
        }
    }
    if lo <= hi {
        Some((lo, hi))
    } else {
        None
    }
}
fn seg_prism(p: V3, q: V3, v: &[V3; 3], h: f64, exact: bool) -> Verdict {
    let f = faces(v, h);
    let s = Spec::Pri(*v, h).size().max(vmaxabs(p)).max(vmaxabs(q));
    let mu = 1e-9 * s;
    let ins = |x: V3| -> Sg {
        if exact {
            match f.inside(x, 0.0) {
                Sg::Zero => Sg::Neg,
                y => y,
            }
        } else {
            let o = f.out(x);
            if o > mu {
                Sg::Pos
            } else if o < -mu {
                Sg::Neg
            } else {
                Sg::Ambig
            }
        }
    };
    match (ins(p), ins(q)) {
        (Sg::Neg, _) => return Verdict::Hit(Loc::Near(vec![p], mu)),
        (Sg::Pos, Sg::Neg) => return Verdict::Hit(Loc::Near(vec![q], mu)),
        (Sg::Ambig, Sg::Neg) => return Verdict::Hit(Loc::Near(vec![p, q], mu)),
        (i, j) => {
            let relaxed = match clip(&f, p, q, mu) {
                None => return Verdict::Miss,
                Some(x) => x,
            };
            let strict = match clip(&f, p, q, -mu) {
                None => return unk(),
                Some(x) => x,
            };
            let len = vlen(vsub(q, p));
            if i != Sg::Pos || j != Sg::Pos {
                return Verdict::Hit(Loc::Free);
            }
            let slack = mu / len;
            Verdict::Hit(Loc::Seg(p, q, relaxed.0 - slack, strict.0 + slack, 2.0 * mu))
        }
    }
}
/// how far p is from the (solid) shape
pub fn dist(s: &Spec, p: V3) -> f64 {
    match s {
        Spec::Pt(q) => vmaxabs(vsub(p, *q)),
        Spec::Ray(o, d) => {
            let u = vunit(vscl(*d, 1.0 / vmaxabs(*d)));
            let rel = vsub(p, *o);
            let t = vdot(rel, u).max(0.0);
            vlen(vsub(rel, vscl(u, t)))
        }
        Spec::Seg(a, b) => {
            let d = vsub(*b, *a);
            let l2 = vdot(d, d);
            let t = if l2 > 0.0 { (vdot(vsub(p, *a), d) / l2).max(0.0).min(1.0) } else { 0.0 };
            vlen(vsub(p, vadd(*a, vscl(d, t))))
        }
        Spec::Sph(c, r) => (vlen(vsub(p, *c)) - r).max(0.0),
        Spec::Pln(o, n) => vdot(vsub(p, *o), vunit(vscl(*n, 1.0 / vmaxabs(*n)))).abs(),
        Spec::Bx(c, s) => (vmaxabs(vsub(p, *c)) - s).max(0.0),
        Spec::Pri(v, h) => faces(v, *h).out(p).max(0.0),
    }
}
pub type Ans = (bool, Option<V3>);
pub fn ask(a: &dyn IShape, b: &dyn IShape) -> Ans {
    let (h, l) = a.get_intersect(b);
    (h, l.map(|x| x._val))
}
/// compare an answer with the verdict of the oracle
pub fn judge(m: &mut Mon, v: &Verdict, g: &Ans) {
    let sh = |g: &Ans| format!("got {:?}", g);
    m.ok("a location comes exactly with a positive verdict", g.0 == g.1.is_some(), || sh(g));
    match v {
        Verdict::Unk(l) => m.skip(l),
        Verdict::Miss => {
            m.ok("verdict: no intersection", !g.0, || sh(g));
        }
        Verdict::Hit(l) => {
            if !m.ok("verdict: intersection", g.0, || sh(g)) {
                return;
            }
            let p = match g.1 {
                Some(p) => p,
                None => return,
            };
            m.ok("finite location", p.iter().all(|x| x.is_finite()), || sh(g));
            match l {
                Loc::Free => m.skip("unjudged:location"),
                Loc::Near(ps, t) => {
                    m.ok("location", ps.iter().any(|q| vmaxabs(vsub(p, *q)) <= *t + 8.0 * EPS * vmaxabs(*q)), || format!("{} want {:?} within {:e}", sh(g), ps, t));
                }
                Loc::Seg(a, b, lo, hi, t) => {
                    let d = vsub(*b, *a);
                    let l2 = vdot(d, d);
                    let x = vdot(vsub(p, *a), d) / l2;
                    let off = vlen(vsub(p, vadd(*a, vscl(d, x))));
                    m.ok("location where the segment enters", off <= *t && x >= *lo && x <= *hi, || {
                        format!("{}: parameter {} (want {}..{}), off the segment by {:e}", sh(g), x, lo, hi, off)
                    });
                }
            }
        }
    }
}

// ---------------------------------------------------------------- generators
#[derive(Clone, Debug)]
pub struct Scene {
    pub a: Spec,
    pub b: Spec,
    pub exact: bool,
}
/// sign and magnitude of a small relative deviation
fn delta(r: &mut Rng) -> f64 {
    r.sign() * r.logu(-9.0, -0.5)
}
/// factor around 1: clearly below, clearly above, or close to it
fn factor(r: &mut Rng) -> f64 {
    if r.chance(0.03) {
        return r.logu(-6.0, 6.0);
    }
    match r.below(6) {
        0 | 1 => r.uni(0.0, 1.0),
        2 => r.uni(1.0, 3.0),
        3 | 4 => 1.0 + delta(r),
        _ => r.pick(&[0.0, 0.5, 0.99, 1.01, 0.999, 1.001, 1.2, 1.5, 1.7, 2.0]),
    }
}
/// a deviation to be compared with the vicinity
fn off_vic(r: &mut Rng, vic: f64, s: f64) -> f64 {
    r.sign()
        * match r.below(7) {
            0 => 0.0,
            1 => vic * r.uni(0.0, 0.9),
            2 => vic * r.uni(1.1, 3.0),
            3 => vic * r.logu(-3.0, 3.0),
            4 => s * r.logu(-7.0, -1.0),
            5 => vic * r.pick(&[0.5, 0.9, 1.1, 2.0, 5.0]),
            _ => s * r.uni(0.05, 2.0),
        }
}
fn dirn(r: &mut Rng) -> V3 {
    r.dir()
}
fn un(d: V3) -> V3 {
    vunit(vscl(d, 1.0 / vmaxabs(d)))
}
pub struct Sty {
    pub s: f64,
    pub base: V3,
    pub vic: f64,
}
pub fn style(r: &mut Rng, vic: f64) -> Sty {
    let s = match r.below(4) {
        0 | 1 => 1.0,
        2 => r.logu(-1.5, 1.5),
        _ => r.logu(-2.0, 3.0),
    };
    let base = match r.below(6) {
        0 | 1 => [0.0; 3],
        2 | 3 => vscl(r.vec3c(), s * 10.0),
        4 => vscl(r.vec3c(), s * 1000.0),
        _ => vscl(r.vec3c(), 100.0),
    };
    Sty { s, base, vic }
}
pub fn gen_prism(r: &mut Rng, st: &Sty) -> ([V3; 3], f64) {
    let mut far = 1.0;
    loop {
        let u = un(dirn(r));
        let w = r.perp(u);
        far *= 0.9;
        let o = vadd(vscl(st.base, if far > 0.1 { 1.0 } else { far }), vscl(r.vec3c(), st.s * 2.0));
        let mut l1 = st.s * r.logu(-0.7, 0.5);
        let mut l2 = st.s * r.logu(-0.7, 0.5);
        let mut ang = r.uni(0.15, 2.9);
        let mut h = st.s * r.logu(-0.7, 0.7);
        let mut thin = 0.05;
        // any proportion: slivers, needles, plates
        if r.chance(0.15) {
            thin = 1e-7;
            match r.below(4) {
                0 => ang = r.logu(-5.0, -0.5),
                1 => ang = std::f64::consts::PI - r.logu(-5.0, -0.5),
                2 => l1 *= r.logu(-3.0, 3.0),
                _ => l2 *= r.logu(-3.0, 3.0),
            }
        }
        if r.chance(0.1) {
            h = l1 * r.logu(-6.0, 6.0)
        }
        // right, equilateral, isosceles, as high as wide: exactly or almost
        if r.chance(0.2) {
            let nearly = |r: &mut Rng| if r.chance(0.4) { 1.0 } else { 1.0 + delta(r) * 0.9 };
            if r.chance(0.6) {
                l2 = l1 * nearly(r)
            }
            match r.below(3) {
                0 => ang = std::f64::consts::FRAC_PI_2 * nearly(r),
                1 => ang = std::f64::consts::FRAC_PI_3 * nearly(r),
                _ => {}
            }
            if r.chance(0.4) {
                h = l1 * nearly(r)
            }
        }
        let e1 = vscl(u, l1);
        let e2 = vadd(vscl(u, l2 * ang.cos()), vscl(w, l2 * ang.sin()));
        let v = [o, vadd(o, e1), vadd(o, e2)];
        let (d1, d2) = (vsub(v[1], v[0]), vsub(v[2], v[0]));
        let d3 = vsub(v[2], v[1]);
        let c = vlen(vcross(d1, d2));
        let lm = vlen(d1).max(vlen(d2)).max(vlen(d3));
        if c > thin * lm * lm && c > 0.0 {
            let k = r.us(3);
            return ([v[k], v[(k + 1) % 3], v[(k + 2) % 3]], h);
        }
    }
}
/// a point given by barycentric coordinates and height fraction
pub fn prism_pt(v: &[V3; 3], h: f64, bc: V3, f: f64) -> V3 {
    let n = vunit(vcross(vsub(v[1], v[0]), vsub(v[2], v[0])));
    let mut p = vscl(n, h * f);
    for i in 0..3 {
        p = vadd(p, vscl(v[i], bc[i]));
    }
    p
}
fn bary(r: &mut Rng) -> V3 {
    match r.below(8) {
        0..=2 => {
            let (mut x, mut y) = (r.f(), r.f());
            if x + y > 1.0 {
                x = 1.0 - x;
                y = 1.0 - y
            }
            [1.0 - x - y, x, y]
        }
        3 => {
            // just off / on an edge
            let t = r.f();
            let e = if r.chance(0.3) { 0.0 } else { delta(r) };
            let k = r.us(3);
            let mut b = [0.0; 3];
            b[k] = e;
            b[(k + 1) % 3] = t * (1.0 - e);
            b[(k + 2) % 3] = (1.0 - t) * (1.0 - e);
            b
        }
        4 => {
            // close to a vertex
            let (e, g) = (delta(r), delta(r));
            let k = r.us(3);
            let mut b = [0.0; 3];
            b[k] = 1.0 - e - g;
            b[(k + 1) % 3] = e;
            b[(k + 2) % 3] = g;
            b
        }
        5 | 6 => {
            let (x, y) = (r.uni(-1.0, 2.0), r.uni(-1.0, 2.0));
            [1.0 - x - y, x, y]
        }
        _ => {
            // outside exactly one edge, close to it
            let k = r.us(3);
            let e = -r.logu(-4.0, 0.0);
            let t = r.f();
            let mut b = [0.0; 3];
            b[k] = e;
            b[(k + 1) % 3] = t * (1.0 - e);
            b[(k + 2) % 3] = (1.0 - t) * (1.0 - e);
            b
        }
    }
}
fn frac(r: &mut Rng) -> f64 {
    match r.below(6) {
        0..=2 => r.f(),
        3 => delta(r),
        4 => 1.0 + delta(r),
        _ => r.uni(-1.0, 2.0),
    }
}
impl Rng {
    /// components in [-1,1], sometimes with zeros
    pub fn vec3c(&mut self) -> V3 {
        let mut v = [self.uni(-1.0, 1.0), self.uni(-1.0, 1.0), self.uni(-1.0, 1.0)];
        if self.chance(0.15) {
            v[self.us(3)] = 0.0
        }
        v
    }
}
const QUADS: [[i64; 4]; 12] = [
    [1, 2, 2, 3],
    [2, 3, 6, 7],
    [1, 4, 8, 9],
    [4, 4, 7, 9],
    [2, 6, 9, 11],
    [6, 6, 7, 11],
    [3, 4, 12, 13],
    [2, 5, 14, 15],
    [0, 3, 4, 5],
    [0, 5, 12, 13],
    [0, 8, 6, 10],
    [0, 0, 1, 1],
];
/// integer vector of integer length
fn quad(r: &mut Rng) -> (V3, f64) {
    let q = r.pick(&QUADS);
    let mut v = [q[0] as f64, q[1] as f64, q[2] as f64];
    for i in (1..3).rev() {
        v.swap(i, r.us(i + 1))
    }
    for x in v.iter_mut() {
        *x *= r.sign()
    }
    (v, q[3] as f64)
}
fn lat(r: &mut Rng, n: i64) -> V3 {
    [r.int(-n, n) as f64, r.int(-n, n) as f64, r.int(-n, n) as f64]
}
fn axis(r: &mut Rng) -> V3 {
    let mut d = [0.0; 3];
    d[r.us(3)] = r.sign() * r.pick(&[1.0, 1.0, 2.0, 3.0, 0.5]);
    d
}
fn lat_prism(r: &mut Rng) -> ([V3; 3], f64) {
    let k = r.us(3);
    loop {
        let o = lat(r, 5);
        let mut v = [o, o, o];
        for i in 1..3 {
            v[i][(k + 1) % 3] += r.int(-6, 6) as f64;
            v[i][(k + 2) % 3] += r.int(-6, 6) as f64;
        }
        let (d1, d2) = (vsub(v[1], v[0]), vsub(v[2], v[0]));
        let d3 = vsub(v[2], v[1]);
        let c = vlen(vcross(d1, d2));
        let lm = vlen(d1).max(vlen(d2)).max(vlen(d3));
        // a power of two: the unit normal is exact however the division is carried out
        if c > 0.05 * lm * lm && c > 0.0 && c.log2().fract() == 0.0 {
            return (v, r.int(1, 6) as f64);
        }
    }
}
fn scale_spec(s: &Spec, k: f64) -> Spec {
    map(s, &|p| vscl(p, k), &|d| d, k)
}
/// apply a point map, a direction map and a length factor
pub fn map(s: &Spec, p: &dyn Fn(V3) -> V3, d: &dyn Fn(V3) -> V3, k: f64) -> Spec {
    match s {
        Spec::Pt(a) => Spec::Pt(p(*a)),
        Spec::Ray(a, u) => Spec::Ray(p(*a), d(*u)),
        Spec::Sph(c, r) => Spec::Sph(p(*c), r * k),
        Spec::Pln(a, u) => Spec::Pln(p(*a), d(*u)),
        Spec::Bx(c, r) => Spec::Bx(p(*c), r * k),
        Spec::Pri(v, h) => Spec::Pri([p(v[0]), p(v[1]), p(v[2])], h * k),
        Spec::Seg(a, b) => Spec::Seg(p(*a), p(*b)),
    }
}
/// scenes on a small integer lattice (scaled by a power of two): every verdict, touching included, is exact
pub fn exact_scene(r: &mut Rng, pair: (Kd, Kd)) -> (Spec, Spec) {
    let o = lat(r, 6);
    let (a, b) = match pair {
        (Kd::Pt, Kd::Pt) => {
            let mut q = o;
            if r.chance(0.6) {
                q[r.us(3)] += r.int(-2, 2) as f64
            }
            (Spec::Pt(o), Spec::Pt(q))
        }
        (Kd::Pt, Kd::Ray) => {
            let d = axis(r);
            let mut q = vadd(o, vscl(un(d), r.int(-4, 6) as f64));
            if r.chance(0.3) {
                q = vadd(q, lat(r, 1))
            }
            (Spec::Pt(q), Spec::Ray(o, d))
        }
        (Kd::Pt, Kd::Sph) => {
            let (v, l) = quad(r);
            let c = vadd(o, v);
            if r.chance(0.1) {
                // nothing but its centre
                return (Spec::Pt(o), Spec::Sph(if r.chance(0.5) { o } else { c }, 0.0));
            }
            (Spec::Pt(o), Spec::Sph(c, (l + r.pick(&[0.0, 0.0, 1.0, -1.0, 0.5, -0.5])).max(0.5)))
        }
        (Kd::Pt, Kd::Pln) => {
            let n = axis(r);
            let mut t = lat(r, 6);
            for i in 0..3 {
                if n[i] != 0.0 {
                    t[i] = r.pick(&[0.0, 0.0, 1.0, -1.0])
                }
            }
            (Spec::Pt(vadd(o, t)), Spec::Pln(o, n))
        }
        (Kd::Pt, Kd::Bx) => {
            let s = if r.chance(0.1) { 0.0 } else { r.int(1, 5) as f64 };
            let mut p = o;
            for i in 0..3 {
                p[i] += match r.below(4) {
                    0 => s * r.sign(),
                    1 => (s + 1.0) * r.sign(),
                    _ => r.int(-(s as i64), s as i64) as f64,
                };
                if r.chance(0.4) {
                    p[i] = o[i]
                }
            }
            (Spec::Pt(p), Spec::Bx(o, s))
        }
        (Kd::Pt, Kd::Pri) => {
            let (v, h) = lat_prism(r);
            let n = un(vcross(vsub(v[1], v[0]), vsub(v[2], v[0])));
            let i = r.us(3);
            // lattice points near a vertex, an edge midpoint (doubled lattice) or anywhere close
            let mut p = match r.below(4) {
                0 => v[i],
                1 => vscl(vadd(v[i], v[(i + 1) % 3]), 0.5),
                2 => vscl(vadd(vadd(v[i], v[i]), vadd(v[(i + 1) % 3], v[(i + 2) % 3])), 0.25),
                _ => vadd(v[i], lat(r, 5)),
            };
            if r.chance(0.3) {
                p = vadd(p, vscl(lat(r, 1), 0.5));
            }
            let f = r.pick(&[0.0, 1.0, h, h - 0.5, h + 1.0, -1.0, h / 2.0]);
            (Spec::Pt(vadd(p, vscl(n, f))), Spec::Pri(v, h))
        }
        (Kd::Ray, Kd::Ray) => {
            let da = axis(r);
            let mut db = axis(r);
            if r.chance(0.25) {
                db = vscl(da, r.sign())
            }
            let ua = un(da);
            let ub = un(db);
            let x = o;
            let mut oa = vsub(x, vscl(ua, r.int(-3, 5) as f64));
            let ob = vsub(x, vscl(ub, r.int(-3, 5) as f64));
            if r.chance(0.3) {
                oa = vadd(oa, lat(r, 1))
            }
            (Spec::Ray(oa, da), Spec::Ray(ob, db))
        }
        (Kd::Ray, Kd::Sph) => {
            // closest approach w with |w| in {r, leg of a Pythagorean triple, more}
            let d = axis(r);
            let k = (0..3).find(|i| d[*i] != 0.0).unwrap();
            let (x, y, l) = r.pick(&[(3.0, 4.0, 5.0), (5.0, 12.0, 13.0), (8.0, 6.0, 10.0), (0.0, 1.0, 1.0), (0.0, 3.0, 3.0), (0.0, 0.0, 0.0)]);
            let rad: f64 = l;
            let mut w = [0.0; 3];
            match r.below(4) {
                0 => w[(k + 1) % 3] = rad * r.sign(),                                  // tangent
                1 => w[(k + 1 + r.us(2)) % 3] = r.pick(&[x, y]) * r.sign(),            // rational chord
                2 => {
                    w[(k + 1) % 3] = x * r.sign();
                    w[(k + 2) % 3] = y * r.sign();                                     // tangent, oblique
                }
                _ => w[(k + 1) % 3] = (rad + r.pick(&[1.0, -1.0, 0.5])) * r.sign(),
            }
            let t0 = r.pick(&[0.0, x, y, l, -x, -y, -l, 2.0 * l, -2.0 * l, 1.0]);
            let s = vadd(vadd(o, w), vscl(un(d), -t0));
            (Spec::Ray(s, d), Spec::Sph(o, rad))
        }
        (Kd::Ray, Kd::Pln) => {
            let n = axis(r);
            let k = (0..3).find(|i| n[*i] != 0.0).unwrap();
            let mut d = lat(r, 3);
            if r.chance(0.3) {
                d[k] = 0.0
            }
            if d == [0.0; 3] {
                d[(k + 1) % 3] = 1.0
            }
            let mut p = vadd(o, lat(r, 6));
            if r.chance(0.4) {
                p[k] = o[k]
            }
            (Spec::Ray(p, d), Spec::Pln(o, n))
        }
        (Kd::Sph, Kd::Sph) => {
            let (v, l) = quad(r);
            let ra = r.int(1, 2 * l as i64) as f64 / 2.0;
            let rb = (l - ra + r.pick(&[0.0, 0.0, 0.0, 0.5, -0.5, 3.0])).abs().max(0.5);
            match r.below(20) {
                // one within the other, or nothing but a centre
                0 => return (Spec::Sph(o, ra), Spec::Sph(o, r.pick(&[rb, ra, 0.0]))),
                1 => return (Spec::Sph(o, 0.0), Spec::Sph(vadd(o, v), r.pick(&[l, l + 0.5, l - 0.5, 0.0]))),
                2 => return (Spec::Sph(o, 0.0), Spec::Sph(o, 0.0)),
                _ => {}
            }
            (Spec::Sph(o, ra), Spec::Sph(vadd(o, v), rb))
        }
        (Kd::Sph, Kd::Pln) => {
            let n = axis(r);
            let k = (0..3).find(|i| n[*i] != 0.0).unwrap();
            let rad = r.int(0, 6) as f64;
            let mut c = vadd(o, lat(r, 6));
            c[k] = o[k] + r.sign() * (rad + r.pick(&[0.0, 0.0, 0.0, 0.5, -0.5, 2.0]));
            (Spec::Sph(c, rad), Spec::Pln(o, n))
        }
        (Kd::Seg, Kd::Pri) => {
            let (v, h) = lat_prism(r);
            let n = un(vcross(vsub(v[1], v[0]), vsub(v[2], v[0])));
            let pt = |r: &mut Rng| {
                let i = r.us(3);
                let p = match r.below(4) {
                    0 => v[i],
                    1 => vscl(vadd(v[i], v[(i + 1) % 3]), 0.5),
                    2 => vscl(vadd(vadd(v[i], v[i]), vadd(v[(i + 1) % 3], v[(i + 2) % 3])), 0.25),
                    _ => vadd(v[i], lat(r, 5)),
                };
                vadd(p, vscl(n, r.pick(&[0.0, 1.0, h, h / 2.0, h + 1.0, -1.0, -2.0])))
            };
            let p = pt(r);
            let q = if r.chance(0.1) { p } else { pt(r) };
            (Spec::Seg(p, q), Spec::Pri(v, h))
        }
        _ => unreachable!(),
    };
    let k = 2f64.powi(r.int(-3, 3) as i32);
    (scale_spec(&a, k), scale_spec(&b, k))
}
pub fn generic_scene(r: &mut Rng, pair: (Kd, Kd), vic: f64) -> (Spec, Spec) {
    let st = style(r, vic);
    let s = st.s;
    let o = vadd(st.base, vscl(r.vec3c(), s));
    let sz = |r: &mut Rng| if r.chance(0.04) { s * r.logu(-5.0, 5.0) } else { s * r.logu(-1.0, 0.7) };
    // how far to go along something
    let way = |r: &mut Rng| s * if r.chance(0.05) { r.sign() * r.logu(1.0, 6.0) } else { r.uni(-10.0, 10.0) };
    match pair {
        (Kd::Pt, Kd::Pt) => {
            let mut q = o;
            match r.below(3) {
                0 => q[r.us(3)] += off_vic(r, vic, s),
                1 => {
                    for x in q.iter_mut() {
                        *x += off_vic(r, vic, s)
                    }
                }
                _ => q = vadd(q, vscl(r.gdir(), off_vic(r, vic, s))),
            }
            (Spec::Pt(o), Spec::Pt(q))
        }
        (Kd::Pt, Kd::Ray) => {
            let d = dirn(r);
            let u = un(d);
            let t = match r.below(6) {
                0 => 0.0,
                1 => -sz(r),
                2 => vic * r.uni(-5.0, 20.0),
                _ => sz(r) * r.pick(&[1.0, 1.0, 1.0, 10.0, 1e3]),
            };
            let w = r.perp(u);
            let p = vadd(vadd(o, vscl(u, t)), vscl(w, off_vic(r, vic, s)));
            (Spec::Pt(p), Spec::Ray(o, d))
        }
        (Kd::Pt, Kd::Sph) => {
            let rad = sz(r);
            let u = if r.chance(0.3) { un([r.sign(), r.sign(), r.sign()]) } else { un(dirn(r)) };
            (Spec::Pt(vadd(o, vscl(u, rad * factor(r)))), Spec::Sph(o, rad))
        }
        (Kd::Pt, Kd::Pln) => {
            let n = dirn(r);
            let u = un(n);
            let t = vscl(r.perp(u), way(r));
            (Spec::Pt(vadd(vadd(o, t), vscl(u, off_vic(r, vic, s)))), Spec::Pln(o, n))
        }
        (Kd::Pt, Kd::Bx) => {
            let h = sz(r);
            let mut p = o;
            for x in p.iter_mut() {
                *x += h * match r.below(4) {
                    0 => r.sign() * factor(r),
                    _ => r.uni(-1.0, 1.0),
                }
            }
            (Spec::Pt(p), Spec::Bx(o, h))
        }
        (Kd::Pt, Kd::Pri) => {
            let (v, h) = gen_prism(r, &st);
            let p = prism_pt(&v, h, bary(r), frac(r));
            (Spec::Pt(p), Spec::Pri(v, h))
        }
        (Kd::Ray, Kd::Ray) => {
            let da = dirn(r);
            let ua = un(da);
            let p = |r: &mut Rng| match r.below(6) {
                0 => -sz(r),
                1 => 0.0,
                2 => 2.0 * way(r),
                _ => sz(r),
            };
            if r.chance(0.3) {
                // parallel
                let db = vscl(da, r.sign() * r.pick(&[1.0, 2.0, 0.25, 3.0, 0.7]));
                let w = r.perp(ua);
                let ob = vadd(vadd(o, vscl(ua, way(r))), vscl(w, off_vic(r, vic, s)));
                return (Spec::Ray(o, da), Spec::Ray(ob, db));
            }
            let mut db = dirn(r);
            while vlen(vcross(ua, un(db))) < 0.05 {
                db = dirn(r)
            }
            if r.chance(0.25) {
                // a small angle, same or opposite sense
                let k = r.logu(-2.9, -1.0) * r.sign();
                db = vadd(vscl(ua, r.sign()), vscl(r.perp(ua), k));
            }
            if r.chance(0.1) {
                // at a right angle, or almost
                db = vscl(r.perp(ua), r.pos());
                if r.chance(0.6) {
                    db = vadd(db, vscl(ua, delta(r)));
                }
            }
            let ub = un(db);
            let w = un(vcross(ua, ub));
            let oa = vsub(o, vscl(ua, p(r)));
            let ob = vadd(vsub(o, vscl(ub, p(r))), vscl(w, off_vic(r, vic, s)));
            (Spec::Ray(oa, da), Spec::Ray(ob, db))
        }
        (Kd::Ray, Kd::Sph) => {
            let rad = sz(r);
            let d = dirn(r);
            let u = un(d);
            let w = r.perp(u);
            let b = rad * factor(r);
            let half = (rad * rad - b * b).max(0.0).sqrt();
            let t0 = match r.below(8) {
                0 => 0.0,
                1 => half * (1.0 + delta(r)),
                2 => -half * (1.0 + delta(r)),
                3 => r.uni(-1.0, 1.0) * half,
                4 => -(half + sz(r)),
                5 => half + 3.0 * way(r).abs(),
                _ => half + sz(r),
            };
            (Spec::Ray(vadd(vadd(o, vscl(w, b)), vscl(u, -t0)), d), Spec::Sph(o, rad))
        }
        (Kd::Ray, Kd::Pln) => {
            let n = dirn(r);
            let un_ = un(n);
            let mut d = dirn(r);
            match r.below(8) {
                0 => d = vscl(un_, r.sign() * r.logu(-2.0, 2.0)),
                1 => d = vadd(vscl(r.perp(un_), 1.0), vscl(un_, delta(r))),
                2..=5 => {
                    if vdot(d, n) > 0.0 {
                        d = vscl(d, -1.0)
                    }
                }
                _ => {}
            }
            let x = vadd(o, vscl(r.perp(un_), way(r)));
            let t = match r.below(6) {
                0 => s * r.sign() * r.logu(-8.0, -1.0),
                1 => -sz(r),
                _ => sz(r),
            };
            (Spec::Ray(vsub(x, vscl(un(d), t)), d), Spec::Pln(o, n))
        }
        (Kd::Sph, Kd::Sph) => {
            let ra = sz(r);
            let rb = match r.below(10) {
                0 | 1 => s * r.logu(-3.0, 1.0),
                2 => ra * if r.chance(0.4) { 1.0 } else { 1.0 + delta(r) },
                _ => sz(r),
            };
            let u = un(dirn(r));
            let c = vadd(o, vscl(u, (ra + rb) * factor(r)));
            (Spec::Sph(o, ra), Spec::Sph(c, rb))
        }
        (Kd::Sph, Kd::Pln) => {
            let rad = sz(r);
            let n = dirn(r);
            let u = un(n);
            let t = vscl(r.perp(u), way(r));
            (Spec::Sph(vadd(vadd(o, t), vscl(u, r.sign() * rad * factor(r))), rad), Spec::Pln(o, n))
        }
        (Kd::Seg, Kd::Pri) => {
            let (v, h) = gen_prism(r, &st);
            let mut p = prism_pt(&v, h, bary(r), frac(r));
            let mut q = prism_pt(&v, h, bary(r), frac(r));
            match r.below(8) {
                0 | 1 => {
                    // through two points, extended both ways
                    let d = vsub(q, p);
                    let ext = |r: &mut Rng| if r.chance(0.05) { r.logu(0.0, 6.0) } else { r.uni(0.0, 3.0) };
                    let (k, l) = (ext(r), ext(r));
                    p = vsub(p, vscl(d, k));
                    q = vadd(q, vscl(d, l));
                }
                2 => {
                    // aims at q from outside; stops short, at or beyond it
                    let u = r.gdir();
                    p = vadd(q, vscl(u, s * if r.chance(0.05) { r.logu(1.0, 6.0) } else { r.logu(-1.0, 1.0) }));
                    q = vadd(q, vscl(vsub(p, q), r.pick(&[0.5, 0.1, 0.0, -0.5, -3.0])));
                }
                3 => {
                    // parallel to an edge or to the axis
                    let n = vunit(vcross(vsub(v[1], v[0]), vsub(v[2], v[0])));
                    let i = r.us(3);
                    let mut d = if r.chance(0.5) { n } else { vunit(vsub(v[(i + 1) % 3], v[i])) };
                    if r.chance(0.4) {
                        // or almost
                        d = vunit(vadd(d, vscl(r.perp(d), delta(r))));
                    }
                    let l = s * r.logu(-1.0, 1.0);
                    p = vsub(p, vscl(d, l * r.f()));
                    q = vadd(p, vscl(d, l * r.sign()));
                }
                4 => {
                    // along an axis through p
                    let mut d = [0.0; 3];
                    d[r.us(3)] = r.sign();
                    let l = s * r.logu(-1.0, 1.0);
                    p = vsub(p, vscl(d, l * r.f()));
                    q = vadd(p, vscl(d, l * 2.0));
                }
                _ => {}
            }
            (Spec::Seg(p, q), Spec::Pri(v, h))
        }
        _ => unreachable!(),
    }
}
fn anchor(r: &mut Rng, s: &Spec) -> V3 {
    match s {
        Spec::Pt(a) | Spec::Ray(a, _) | Spec::Sph(a, _) | Spec::Pln(a, _) | Spec::Bx(a, _) => *a,
        Spec::Pri(v, _) => v[r.us(3)],
        Spec::Seg(a, b) => r.pick(&[*a, *b]),
    }
}
/// a scene for the pair, with the given vicinity, in random operand order
pub fn scene(r: &mut Rng, pair: (Kd, Kd), vic: f64) -> Scene {
    let exact = r.chance(0.25);
    let (mut a, mut b) = if exact { exact_scene(r, pair) } else { generic_scene(r, pair, vic) };
    // something of the scene at the origin of the coordinates, or next to it
    if r.chance(0.07) {
        let first = r.chance(0.5);
        let q = anchor(r, if first { &a } else { &b });
        let w = if exact || r.chance(0.5) { [0.0; 3] } else { vscl(r.vec3c(), r.logu(-9.0, -1.0)) };
        let q = vsub(q, w);
        a = map(&a, &|p| vsub(p, q), &|d| d, 1.0);
        b = map(&b, &|p| vsub(p, q), &|d| d, 1.0);
    }
    // far from unit scale, where the vicinity plays no role
    if !exact && r.chance(0.06) && !uses_vicinity(pair) {
        let k = r.logu(-9.0, 9.0);
        a = scale_spec(&a, k);
        b = scale_spec(&b, k);
    }
    if r.chance(0.5) {
        std::mem::swap(&mut a, &mut b)
    }
    Scene { a, b, exact }
}
/// two spheres that are more than their centres
pub fn balls(r: &mut Rng) -> Scene {
    loop {
        let s = scene(r, PAIRS[9], VIC);
        if let (Spec::Sph(_, p), Spec::Sph(_, q)) = (&s.a, &s.b) {
            if *p > 0.0 && *q > 0.0 {
                return s;
            }
        }
    }
}
pub fn uses_vicinity(pair: (Kd, Kd)) -> bool {
    matches!(pair, (Kd::Pt, Kd::Pt) | (Kd::Pt, Kd::Ray) | (Kd::Pt, Kd::Pln) | (Kd::Ray, Kd::Ray))
}

/// the vicinity a scene is played with: mostly the initial one
pub fn pick_vic(r: &mut Rng, pair: (Kd, Kd)) -> f64 {
    if uses_vicinity(pair) && r.chance(0.15) {
        r.logu(-8.0, 0.5)
    } else {
        VIC
    }
}

pub fn vary(r: &mut Rng, v: &[f64]) -> Vec<f64> {
    let mut v = v.to_vec();
    let k = r.us(v.len());
    match r.below(5) {
        0 | 1 => v[k] *= 1.0 + r.sign() * r.logu(-15.5, -6.0),
        2 => v[k] = -v[k],
        3 => v[k] = r.val(),
        _ => {
            let j = r.us(v.len());
            v.swap(k, j)
        }
    }
    v
}
/// the same kind of shape with one thing about it changed, mostly by very little
pub fn vary_spec(r: &mut Rng, s: &Spec) -> Spec {
    fn v3(r: &mut Rng, v: V3) -> V3 {
        let w = vary(r, &v);
        [w[0], w[1], w[2]]
    }
    fn v3n(r: &mut Rng, v: V3) -> V3 {
        let w = v3(r, v);
        if vlen(w) > 0.0 {
            w
        } else {
            v
        }
    }
    fn pos(r: &mut Rng, x: f64) -> f64 {
        x * if r.chance(0.5) { 1.0 + r.logu(-15.5, -6.0) } else { r.uni(0.5, 2.0) }
    }
    let one = r.chance(0.5);
    match *s {
        Spec::Pt(p) => Spec::Pt(v3(r, p)),
        Spec::Ray(p, d) if one => Spec::Ray(v3(r, p), d),
        Spec::Ray(p, d) => Spec::Ray(p, v3n(r, d)),
        Spec::Sph(p, x) if one => Spec::Sph(v3(r, p), x),
        Spec::Sph(p, x) => Spec::Sph(p, pos(r, x)),
        Spec::Pln(p, d) if one => Spec::Pln(v3(r, p), d),
        Spec::Pln(p, d) => Spec::Pln(p, v3n(r, d)),
        Spec::Bx(p, x) if one => Spec::Bx(v3(r, p), x),
        Spec::Bx(p, x) => Spec::Bx(p, pos(r, x)),
        Spec::Pri(t, h) if one => Spec::Pri([t[1], t[2], t[0]], h),
        Spec::Pri(t, h) => Spec::Pri(t, pos(r, h)),
        Spec::Seg(a, b) if one => Spec::Seg(v3(r, a), b),
        Spec::Seg(a, b) => Spec::Seg(a, v3(r, b)),
    }
}

/// Builds the shapes of a scene. Every so often they are old hands: asked about other things first, or clones.
/// What they answered on the way can be judged as well; the answer that counts must not depend on any of it.
pub fn build_pair(r: &mut Rng, m: &mut Mon, sa: &Spec, sb: &Spec, vic: f64, judged: bool) -> (Shp, Shp) {
    let (mut a, mut b) = (sa.build(), sb.build());
    if vic != VIC {
        m.ev("another vicinity set");
        m.note(|| format!("vicinity {:?}", vic));
        a.vic(vic * r.sign());
        b.vic(vic * r.sign());
    } else if !uses_vicinity((sa.kind(), sb.kind())) && !uses_vicinity((sb.kind(), sa.kind())) && r.chance(0.15) {
        // these answers do not depend on it
        m.ev("another vicinity set");
        let (x, y) = if r.chance(0.2) { (0.0, 0.0) } else { (r.logu(-9.0, 3.0) * r.sign(), r.logu(-9.0, 3.0) * r.sign()) };
        m.note(|| format!("vicinities {:?} {:?}", x, y));
        a.vic(x);
        b.vic(y);
    }
    if !r.chance(0.2) {
        return (a, b);
    }
    m.ev("shapes that were asked other things before");
    for _ in 0..r.us(3) + 1 {
        match r.below(8) {
            0 => {
                let c = a.clone();
                ask(c.s(), b.s());
                if r.chance(0.5) {
                    a = c
                }
            }
            1 => {
                let c = b.clone();
                ask(a.s(), c.s());
                if r.chance(0.5) {
                    b = c
                }
            }
            2 => {
                let d = r.dir();
                if sa.kind() != Kd::Seg && sb.kind() != Kd::Seg {
                    let _ = (a.s().get_support(&m3(d)), b.s().get_support(&m3(d)));
                }
                let _ = (a.s().get_shape_data(), b.s().get_bound().get_centroid());
            }
            x => {
                let first = x & 1 == 0;
                let o = vary_spec(r, if first { sb } else { sa });
                m.note(|| format!("before: {:?} with {:?}", if first { sa } else { sb }, o));
                let mut os = o.build();
                if vic != VIC {
                    os.vic(vic)
                }
                let (v, g) = if first {
                    (oracle(sa, &o, vic, false), if r.chance(0.5) { ask(a.s(), os.s()) } else { ask(os.s(), a.s()) })
                } else {
                    (oracle(&o, sb, vic, false), if r.chance(0.5) { ask(os.s(), b.s()) } else { ask(b.s(), os.s()) })
                };
                if judged {
                    judge(m, &v, &g);
                }
            }
        }
    }
    (a, b)
}
