//! Shapes: boxes, description, intersection verdicts and locations, supports, GJK, frames, hostility.
use crate::dd::*;
use crate::mon::Mon;
use crate::rng::Rng;
use crate::scenes::*;
use mazth::bound::{Axis, AxisAlignedBBox};
use mazth::i_bound::{BoundType, IBound};
use mazth::i_shape::{IShape, ShapeType};
use mazth::i_vicinity::IVicinity;
use mazth::intersect_gjk::query_intersect;
use mazth::mat::Mat3x1;
use std::cell::Cell;

fn note_scene(m: &mut Mon, s: &Scene) {
    for x in s.a.nums().iter().chain(s.b.nums().iter()) {
        m.h(*x);
    }
    m.note(|| format!("{:?} with {:?}{}", s.a, s.b, if s.exact { " (lattice, exact)" } else { "" }));
}
fn tell(m: &mut Mon, s: &Scene, v: &Verdict) {
    m.ev(if s.exact { "exact lattice scene" } else { "generic scene" });
    m.ev(match v {
        Verdict::Hit(_) => "oracle: intersect",
        Verdict::Miss => "oracle: apart",
        Verdict::Unk(_) => "oracle: boundary",
    });
}
fn verdicts(r: &mut Rng, m: &mut Mon, pairs: &[usize]) {
    let pi = r.pick(pairs);
    let vic = pick_vic(r, PAIRS[pi]);
    let s = scene(r, PAIRS[pi], vic);
    note_scene(m, &s);
    m.ev(PAIR_NAMES[pi]);
    let v = oracle(&s.a, &s.b, vic, s.exact);
    tell(m, &s, &v);
    if let (Spec::Ray(o, d), Spec::Sph(c, q)) | (Spec::Sph(c, q), Spec::Ray(o, d)) = (&s.a, &s.b) {
        let rel = vsub(*o, *c);
        m.ev(if vlen(rel) < *q {
            "origin inside the sphere"
        } else if vdot(rel, *d) > 0.0 {
            "sphere behind the origin"
        } else {
            "sphere ahead of the origin"
        });
    }
    if let Spec::Ray(_, d) = if matches!(s.a, Spec::Ray(..)) { &s.a } else { &s.b } {
        if d.iter().filter(|x| **x == 0.0).count() > 0 {
            m.ev("direction parallel to a coordinate plane");
        }
    }
    let (a, b) = build_pair(r, m, &s.a, &s.b, vic, true);
    let g = ask(a.s(), b.s());
    judge(m, &v, &g);
    if s.a.kind() == s.b.kind() && r.chance(0.1) {
        m.ev("a shape with itself");
        m.note(|| "the first with itself".into());
        let v = oracle(&s.a, &s.a, vic, s.exact);
        let g = ask(a.s(), a.s());
        judge(m, &v, &g);
    }
}
pub fn c18(r: &mut Rng, m: &mut Mon) {
    verdicts(r, m, &[0, 2, 3, 4])
}
pub fn c19(r: &mut Rng, m: &mut Mon) {
    verdicts(r, m, &[1])
}
pub fn c20(r: &mut Rng, m: &mut Mon) {
    verdicts(r, m, &[7])
}
pub fn c21(r: &mut Rng, m: &mut Mon) {
    verdicts(r, m, &[8])
}
pub fn c22(r: &mut Rng, m: &mut Mon) {
    verdicts(r, m, &[6])
}
pub fn c23(r: &mut Rng, m: &mut Mon) {
    verdicts(r, m, &[9, 10])
}
pub fn c24(r: &mut Rng, m: &mut Mon) {
    verdicts(r, m, &[5])
}
pub fn c25(r: &mut Rng, m: &mut Mon) {
    verdicts(r, m, &[11])
}

// ------------------------------------------------------------------ C14
fn iv(r: &mut Rng) -> (f64, f64) {
    let a = r.val();
    let w: f64 = r.pick(&[0.0, 1.0, 0.5]);
    let b = a + w.max(r.logu(-3.0, 3.0) * r.pick(&[0.0, 1.0]));
    match r.below(16) {
        0 => (f64::NEG_INFINITY, b),
        1 => (a, f64::INFINITY),
        2 => (f64::NEG_INFINITY, f64::INFINITY),
        _ => (a, b),
    }
}
fn bx(r: &mut Rng) -> [f64; 6] {
    let (x, y, z) = (iv(r), iv(r), iv(r));
    [x.0, y.0, z.0, x.1, y.1, z.1]
}
fn mkbox(b: &[f64; 6]) -> AxisAlignedBBox {
    AxisAlignedBBox::init(ShapeType::Rect, b)
}
fn bdata(b: &dyn IBound) -> [f64; 6] {
    let d = b.get_bound_data();
    [d[0], d[1], d[2], d[3], d[4], d[5]]
}
pub fn c14(r: &mut Rng, m: &mut Mon) {
    let a = bx(r);
    // the second box: independent, or related to the first axis by axis
    let mut b = bx(r);
    if r.chance(0.7) {
        for i in 0..3 {
            let w = b[i + 3] - b[i];
            let w = if w.is_finite() { w } else { 1.0 };
            match r.below(8) {
                0 => {
                    b[i] = a[i + 3];
                    b[i + 3] = b[i] + w
                }
                1 => {
                    b[i + 3] = a[i];
                    b[i] = b[i + 3] - w
                }
                2 => {
                    b[i] = a[i + 3] + r.logu(-9.0, 0.0) * (1.0 + a[i + 3].abs());
                    b[i + 3] = b[i] + w
                }
                3 => {
                    b[i + 3] = a[i] - r.logu(-9.0, 0.0) * (1.0 + a[i].abs());
                    b[i] = b[i + 3] - w
                }
                4 => {
                    // b inside a on this axis
                    let (l, h) = (a[i].max(-1e4), a[i + 3].min(1e4));
                    if l <= h {
                        b[i] = l + (h - l) * 0.25;
                        b[i + 3] = b[i].max(l + (h - l) * 0.5)
                    }
                }
                5 => {
                    b[i] = a[i] - w;
                    b[i + 3] = a[i + 3] + w
                }
                _ => {
                    b[i] = a[i];
                    b[i + 3] = a[i + 3]
                }
            }
            if b[i].is_nan() || b[i + 3].is_nan() || !(b[i] <= b[i + 3]) {
                b[i] = 0.0;
                b[i + 3] = 1.0;
            }
        }
    }
    m.hs(&a);
    m.hs(&b);
    m.note(|| format!("box {:?} and box {:?}", a, b));
    let (ba, bb) = (mkbox(&a), mkbox(&b));
    m.ok("kind of the bound", matches!(ba.get_type(), BoundType::AxisAlignBox), || "not an axis-aligned box".into());
    m.ok("box data", bdata(&ba) == a && bdata(&bb) == b, || format!("{:?} {:?}", bdata(&ba), bdata(&bb)));
    let want = (0..3).all(|i| a[i] <= b[i + 3] && b[i] <= a[i + 3]);
    let touch = want && (0..3).any(|i| a[i] == b[i + 3] || b[i] == a[i + 3]);
    m.ev(if touch {
        "touching boxes"
    } else if want {
        "overlapping boxes"
    } else {
        "disjoint boxes"
    });
    if !want {
        m.ev(["", "disjoint on one axis only", "disjoint on two axes", "disjoint on three axes"][(0..3).filter(|i| !(a[*i] <= b[*i + 3] && b[*i] <= a[*i + 3])).count()]);
    }
    m.ok("overlap", ba.intersect(&bb) == want, || format!("got {} want {}", !want, want));
    m.ok("overlap asked the other way", bb.intersect(&ba) == want, || format!("got {} want {}", !want, want));
    m.ok("overlap with itself", ba.intersect(&ba), || "a box must overlap itself".into());
    // centre and longest side
    let c = ba.get_centroid();
    for i in 0..3 {
        if a[i].is_finite() && a[i + 3].is_finite() {
            m.near("centre", c[i], (a[i] + a[i + 3]) / 2.0, 4.0 * EPS * (a[i].abs() + a[i + 3].abs()));
        }
    }
    let ext = [a[3] - a[0], a[4] - a[1], a[5] - a[2]];
    let mx = ext.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let (ax, len) = ba.get_longest_axis();
    let k = match ax {
        Axis::X => 0,
        Axis::Y => 1,
        Axis::Z => 2,
    };
    m.ev(["reported longest X", "reported longest Y", "reported longest Z"][k]);
    let tol = if mx.is_finite() { 4.0 * EPS * mx } else { 0.0 };
    m.ok("longest side: axis", ext[k] == mx || (ext[k] - mx).abs() <= tol, || format!("axis {} of extents {:?}", k, ext));
    m.ok("longest side: extent", len == mx || (len - mx).abs() <= tol, || format!("reported {} of extents {:?}", len, ext));
    // unions, several times into the same box
    let mut u = if r.chance(0.5) { mkbox(&bx(r)) } else { AxisAlignedBBox::default() };
    for round in 0..r.us(3) + 1 {
        let n = if r.chance(0.01) { r.us(300) } else { r.us(13) };
        let mut bs: Vec<[f64; 6]> = (0..n).map(|_| bx(r)).collect();
        if n == 2 && r.chance(0.5) {
            bs = vec![a, b];
        }
        let bo: Vec<AxisAlignedBBox> = bs.iter().map(mkbox).collect();
        let mut refs: Vec<&dyn IBound> = bo.iter().map(|x| x as &dyn IBound).collect();
        if n > 0 && r.chance(0.1) {
            // some of them more than once
            for _ in 0..r.us(3) + 1 {
                let x = refs[r.us(n)];
                refs.insert(r.us(refs.len() + 1), x);
            }
        }
        u.get_union(&refs);
        let got = bdata(&u);
        if n == 0 {
            m.ev("union of no boxes");
            continue;
        }
        m.ev(if round > 0 { "union into a used box" } else { "union" });
        let mut want = bs[0];
        for x in &bs {
            for i in 0..3 {
                want[i] = want[i].min(x[i]);
                want[i + 3] = want[i + 3].max(x[i + 3]);
            }
        }
        m.ok("union is the smallest enclosing box", got == want, || format!("union of {:?} is {:?} want {:?}", bs, got, want));
        // another order into the same box
        for i in (1..refs.len()).rev() {
            refs.swap(i, r.us(i + 1))
        }
        u.get_union(&refs);
        m.ok("union in another order", bdata(&u) == want, || format!("{:?} want {:?}", bdata(&u), want));
        // the members overlap the union, and a union with the union changes nothing
        for x in &bo {
            m.ok("union overlaps its members", u.intersect(x) && x.intersect(&u), || "member does not overlap the union".into());
        }
    }
}

// ------------------------------------------------------------------ C15
fn spec(r: &mut Rng, k: Kd) -> Spec {
    let st = style(r, VIC);
    let o = if r.chance(0.3) { r.vec3() } else { vadd(st.base, vscl(r.vec3c(), st.s)) };
    let sz = r.pos() * if r.chance(0.5) { 1.0 } else { st.s };
    match k {
        Kd::Pt => Spec::Pt(o),
        Kd::Ray => Spec::Ray(o, r.dir()),
        Kd::Sph => Spec::Sph(o, if r.chance(0.04) { 0.0 } else { sz }),
        Kd::Pln => Spec::Pln(o, r.dir()),
        Kd::Bx => Spec::Bx(o, if r.chance(0.04) { 0.0 } else { sz }),
        Kd::Pri => {
            if r.chance(0.3) {
                exact_prism(r)
            } else {
                let (v, h) = gen_prism(r, &st);
                Spec::Pri(v, h)
            }
        }
        Kd::Seg => match r.below(8) {
            0..=1 => Spec::Seg(o, r.vec3()),
            2 => Spec::Seg(r.vec3(), o),
            3 if r.chance(0.2) => Spec::Seg(o, o),
            _ => Spec::Seg(o, vadd(o, vscl(r.vec3c(), sz))),
        },
    }
}
fn exact_prism(r: &mut Rng) -> Spec {
    loop {
        if let (_, p @ Spec::Pri(..)) = exact_scene(r, (Kd::Pt, Kd::Pri)) {
            return p;
        }
    }
}
fn kind_ok(k: Kd, t: ShapeType) -> bool {
    match k {
        Kd::Pt => matches!(t, ShapeType::Point),
        Kd::Ray => matches!(t, ShapeType::Ray),
        Kd::Sph => matches!(t, ShapeType::Sphere),
        Kd::Pln => matches!(t, ShapeType::Plane),
        Kd::Bx => matches!(t, ShapeType::Box),
        Kd::Pri => matches!(t, ShapeType::TriPrism),
        Kd::Seg => matches!(t, ShapeType::Line),
    }
}
const KIND_NAMES: [&str; 7] = ["a point", "a ray", "a sphere", "a plane", "a box", "a prism", "a segment"];
pub fn kname(k: Kd) -> &'static str {
    KIND_NAMES[KINDS.iter().position(|x| *x == k).unwrap()]
}
fn verts(v: &[V3; 3], h: f64) -> (E3, Vec<E3>) {
    let (v0, v1, v2) = (e3(v[0]), e3(v[1]), e3(v[2]));
    let n = normal3(v0, v1, v2);
    let l = norm3(n);
    let hn = scl3([n[0] / l, n[1] / l, n[2] / l], e(h));
    (hn, vec![v0, v1, v2, add3(v0, hn), add3(v1, hn), add3(v2, hn)])
}
pub fn c15(r: &mut Rng, m: &mut Mon) {
    let k = r.pick(&KINDS);
    let s = spec(r, k);
    m.hs(&s.nums());
    m.ev(kname(k));
    m.note(|| format!("{:?}", s));
    let sh = s.build();
    let i = sh.s();
    m.ok("kind", kind_ok(k, i.get_type()), || "wrong kind".into());
    let d = i.get_shape_data();
    let b = bdata(i.get_bound());
    m.ok("kind of the bound", matches!(i.get_bound().get_type(), BoundType::AxisAlignBox), || "not a box".into());
    let n = s.nums();
    let inf = f64::INFINITY;
    let mut want = [[e(0.0); 3]; 2];
    let mut infs: [[Option<f64>; 3]; 2] = [[None; 3]; 2];
    match &s {
        Spec::Pt(p) => {
            m.ok("parameters", d == n, || format!("{:?}", d));
            want = [e3(*p), e3(*p)];
        }
        Spec::Sph(c, q) | Spec::Bx(c, q) => {
            m.ok("parameters", d == n, || format!("{:?}", d));
            for j in 0..3 {
                want[0][j] = e(c[j]) - e(*q);
                want[1][j] = e(c[j]) + e(*q);
            }
        }
        Spec::Seg(a, c) => {
            m.ok("parameters", d == n, || format!("{:?}", d));
            for j in 0..3 {
                want[0][j] = e(a[j].min(c[j]));
                want[1][j] = e(a[j].max(c[j]));
            }
        }
        Spec::Ray(o, u) | Spec::Pln(o, u) => {
            m.ok("parameters", d.len() == 6 && d[0..3] == n[0..3], || format!("{:?}", d));
            let w = unit3(e3(*u));
            for j in 0..3 {
                m.num("unit direction or normal", d[3 + j], w[j], 4.0, EPS);
                let ray = k == Kd::Ray;
                want[0][j] = e(o[j]);
                want[1][j] = e(o[j]);
                if !ray || u[j] < 0.0 {
                    infs[0][j] = Some(-inf);
                }
                if !ray || u[j] > 0.0 {
                    infs[1][j] = Some(inf);
                }
            }
        }
        Spec::Pri(v, h) => {
            let (hn, vs) = verts(v, *h);
            m.ok("parameters", d.len() == 12 && d[0..9] == n[0..9], || format!("{:?}", d));
            for j in 0..3 {
                m.num("scaled normal", d[9 + j], hn[j], 512.0, EPS);
            }
            if let Shp::Pri(p) = &sh {
                for q in 0..3 {
                    for j in 0..3 {
                        m.num("second base", p._tri_base2[q][j], vs[3 + q][j], 512.0, EPS);
                        m.ok("first base", p._tri_base[q][j] == v[q][j], || "changed".into());
                    }
                }
            }
            for j in 0..3 {
                let mut lo = vs[0][j];
                let mut hi = vs[0][j];
                let mm = vs.iter().map(|x| x[j].m).fold(0.0, f64::max);
                for x in &vs {
                    if x[j].f() < lo.f() {
                        lo = x[j]
                    }
                    if x[j].f() > hi.f() {
                        hi = x[j]
                    }
                }
                lo.m = mm;
                hi.m = mm;
                want[0][j] = lo;
                want[1][j] = hi;
            }
        }
    }
    for e_ in 0..2 {
        let l = ["lower bound", "upper bound"][e_];
        for j in 0..3 {
            let g = b[3 * e_ + j];
            match infs[e_][j] {
                Some(x) => {
                    m.ev("infinite bound");
                    m.ok(l, g == x, || format!("axis {}: got {} want {}", j, g, x));
                }
                None => {
                    m.num(l, g, want[e_][j], if k == Kd::Pri { 512.0 } else { 2.0 }, EPS);
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C16, C17
pub fn c16(r: &mut Rng, m: &mut Mon) {
    let pi = r.us(12);
    let vic = pick_vic(r, PAIRS[pi]);
    let s = scene(r, PAIRS[pi], vic);
    note_scene(m, &s);
    m.ev(PAIR_NAMES[pi]);
    let v = oracle(&s.a, &s.b, vic, s.exact);
    tell(m, &s, &v);
    let (a, b) = build_pair(r, m, &s.a, &s.b, vic, false);
    let (x, y) = (a.s().get_bound().intersect(b.s().get_bound()), b.s().get_bound().intersect(a.s().get_bound()));
    m.ok("bounding boxes overlap both ways alike", x == y, || format!("{} and {}", x, y));
    let g = ask(a.s(), b.s());
    let h = ask(b.s(), a.s());
    if let Verdict::Unk(l) = v {
        m.skip(l);
        return;
    }
    m.ok("same verdict both ways", g.0 == h.0, || format!("{:?} and {:?}", g, h));
    m.ok("location presence both ways", g.1.is_some() == h.1.is_some(), || format!("{:?} and {:?}", g, h));
    if let (Some(p), Some(q), Verdict::Hit(l)) = (g.1, h.1, &v) {
        let d = vmaxabs(vsub(p, q));
        match l {
            Loc::Near(ps, t) => {
                let ideal = ps.iter().skip(1).map(|x| vmaxabs(vsub(*x, ps[0]))).fold(0.0, f64::max);
                if ideal > 8.0 * vic {
                    m.skip("unjudged:several right locations");
                } else {
                    m.ok("same location both ways", d <= 2.0 * t + ideal + 16.0 * EPS * vmaxabs(p), || format!("{:?} and {:?} differ by {:e}", p, q, d));
                }
            }
            Loc::Seg(a, b, lo, hi, t) => {
                let len = vlen(vsub(*b, *a));
                m.ok("same location both ways", d <= 2.0 * t + (hi - lo) * len, || format!("{:?} and {:?} differ by {:e}", p, q, d));
            }
            Loc::Free => {}
        }
    }
    if let (Spec::Sph(..), Spec::Sph(..)) = (&s.a, &s.b) {
        if gjk_oracle(&s.a, &s.b).is_some() {
            let (p, q) = (query_intersect(a.s(), b.s()), query_intersect(b.s(), a.s()));
            m.ok("convex test both ways", p.is_some() && p == q, || format!("{:?} and {:?}", p, q));
        }
    }
}
pub fn c17(r: &mut Rng, m: &mut Mon) {
    let pi = r.us(12);
    let vic = pick_vic(r, PAIRS[pi]);
    let s = scene(r, PAIRS[pi], vic);
    note_scene(m, &s);
    m.ev(PAIR_NAMES[pi]);
    if let (Spec::Ray(_, d), Spec::Ray(_, f)) = (&s.a, &s.b) {
        let w = vlen(vcross(vunit(*d), vunit(*f)));
        if w > 1e-13 && w < 0.02 {
            m.skip("unjudged:nearly parallel rays");
            return;
        }
    }
    let (a, b) = build_pair(r, m, &s.a, &s.b, vic, false);
    let g = ask(a.s(), b.s());
    m.ok("a location comes exactly with a positive verdict", g.0 == g.1.is_some(), || format!("{:?}", g));
    m.ev(if g.0 { "positive verdict" } else { "negative verdict" });
    if let Some(p) = g.1 {
        if !m.ok("finite location", p.iter().all(|x| x.is_finite()), || format!("{:?}", p)) {
            return;
        }
        let sc = s.a.size().max(s.b.size()).max(vmaxabs(p));
        let mut tol = if uses_vicinity(PAIRS[pi]) { 2.0 * vic } else { 0.0 } + 1e-9 * sc;
        for x in [&s.a, &s.b] {
            if let Spec::Sph(_, q) = x {
                if *q > 0.0 {
                    tol += 64.0 * EPS * sc * sc / q;
                }
            }
        }
        // the crossing of two rays is that much less well determined
        if let (Spec::Ray(_, d), Spec::Ray(_, f)) = (&s.a, &s.b) {
            let w = vlen(vcross(vunit(*d), vunit(*f)));
            if w > 1e-13 {
                tol += 2.0 * vic / w + 1e-9 * sc / (w * w);
            }
        }
        if let (Spec::Ray(_, d), Spec::Pln(_, n)) | (Spec::Pln(_, n), Spec::Ray(_, d)) = (&s.a, &s.b) {
            let w = vdot(vunit(*d), vunit(*n)).abs();
            // far away crossings of nearly parallel rays: only the distance to the ray's line is meaningful
            if w < 1e-6 {
                m.skip("unjudged:grazing ray");
                return;
            }
        }
        for (x, l) in [(&s.a, "location lies on the asked shape"), (&s.b, "location lies on the other shape")] {
            let d = dist(x, p);
            m.ok(l, d <= tol, || format!("{:?} is {:e} away from {:?} (allowed {:e})", p, d, x, tol));
        }
    }
}

// ------------------------------------------------------------------ C26
/// a shape that counts what is asked of it and refuses to go on for ever
pub struct Spy<'a> {
    pub inner: &'a dyn IShape,
    pub calls: &'a Cell<u64>,
    pub limit: u64,
}
impl<'a> Spy<'a> {
    fn tick(&self) {
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() > self.limit {
            panic!("SPY-LIMIT more than {} calls between the shapes", self.limit);
        }
    }
}
impl<'a> IVicinity<f64> for Spy<'a> {
    fn set_vicinity(&mut self, _e: f64) {
        unreachable!()
    }
    fn within_vicinity(&self, a: f64, b: f64) -> bool {
        self.tick();
        self.inner.within_vicinity(a, b)
    }
}
impl<'a> IShape for Spy<'a> {
    fn get_shape_data(&self) -> Vec<f64> {
        self.tick();
        self.inner.get_shape_data()
    }
    fn get_type(&self) -> ShapeType {
        self.tick();
        self.inner.get_type()
    }
    fn get_bound(&self) -> &dyn IBound {
        self.tick();
        self.inner.get_bound()
    }
    fn get_intersect(&self, o: &dyn IShape) -> (bool, Option<Mat3x1<f64>>) {
        self.tick();
        self.inner.get_intersect(o)
    }
    fn get_support(&self, v: &Mat3x1<f64>) -> Option<Mat3x1<f64>> {
        self.tick();
        self.inner.get_support(v)
    }
}
pub fn gjk_oracle(a: &Spec, b: &Spec) -> Option<bool> {
    if let (Spec::Sph(c, r), Spec::Sph(d, s)) = (a, b) {
        if !(*r > 0.0 && *s > 0.0) {
            return None;
        }
        let dist = vlen(f3(sub3(e3(*c), e3(*d))));
        let mg = 1e-9 * (r + s) + 1e-10 * vmaxabs(*c).max(vmaxabs(*d));
        if dist < r + s - mg {
            return Some(true);
        }
        if dist > r + s + mg {
            return Some(false);
        }
    }
    None
}
pub fn c26(r: &mut Rng, m: &mut Mon) {
    let s = match r.below(8) {
        // approach exactly along an axis, or concentric
        0 => {
            let (ra, rb) = (r.pos(), r.pos());
            let mut c = [0.0; 3];
            c[r.us(3)] = r.sign() * (ra + rb) * r.pick(&[0.0, 0.3, 0.5, 0.99, 1.01, 1.5, 3.0, 50.0]);
            let o = if r.chance(0.5) { [0.0; 3] } else { r.vec3() };
            Scene { a: Spec::Sph(o, ra), b: Spec::Sph(vadd(o, c), rb), exact: false }
        }
        1 => {
            // any ratio of radii
            let (ra, rb) = (r.logu(-3.0, 3.0), r.logu(-3.0, 3.0));
            let u = vunit(r.dir());
            let f = r.pick(&[0.1, 0.5, 0.9, 0.999, 1.001, 1.1, 2.0]);
            let o = vscl(r.vec3c(), 10.0);
            Scene { a: Spec::Sph(o, ra), b: Spec::Sph(vadd(o, vscl(u, (ra + rb) * f)), rb), exact: false }
        }
        _ => balls(r),
    };
    note_scene(m, &s);
    let (a, b) = build_pair(r, m, &s.a, &s.b, VIC, false);
    let calls = Cell::new(0);
    let (x, y) = (Spy { inner: a.s(), calls: &calls, limit: 4096 }, Spy { inner: b.s(), calls: &calls, limit: 4096 });
    if r.chance(0.02) {
        m.ev("a shape with itself");
        let g = query_intersect(&x, &x);
        m.ok("a sphere meets itself", g == Some(true), || format!("{:?}", g));
        calls.set(0);
    }
    let g = query_intersect(&x, &y);
    m.ok("an answer is given", g.is_some(), || "None".into());
    let n = calls.get();
    m.ev(match n {
        0..=6 => "decided within 2 support steps",
        7..=8 => "decided in 3 support steps",
        9..=20 => "decided in up to 9 support steps",
        _ => "decided in more than 9 support steps",
    });
    match gjk_oracle(&s.a, &s.b) {
        None => m.skip("unjudged:boundary"),
        Some(w) => {
            m.ev(if w { "oracle: intersect" } else { "oracle: apart" });
            m.ok("convex test agrees with the distance", g == Some(w), || format!("got {:?} want {} after {} calls", g, w, n));
            let h = query_intersect(b.s(), a.s());
            m.ok("convex test, operands swapped", h == Some(w), || format!("got {:?} want {}", h, w));
            let d = ask(a.s(), b.s());
            m.ok("direct test agrees", d.0 == w, || format!("direct {:?} want {}", d, w));
        }
    }
}

// ------------------------------------------------------------------ C27
pub fn c27(r: &mut Rng, m: &mut Mon) {
    let k = r.pick(&[Kd::Sph, Kd::Sph, Kd::Bx, Kd::Bx, Kd::Pri, Kd::Pri, Kd::Pt, Kd::Ray, Kd::Pln]);
    let s = spec(r, k);
    m.hs(&s.nums());
    m.ev(kname(k));
    let mut sh = s.build();
    // directions asked for before: the same object must not remember them
    let n = if r.chance(0.25) { r.us(3) + 2 } else { 1 };
    let mut last = [0.0; 3];
    for i in 0..n {
        if i > 0 {
            m.ev("object asked for another direction before");
            match r.below(4) {
                0 => sh = sh.clone(),
                1 => {
                    let _ = (sh.s().get_bound().get_centroid(), sh.s().get_shape_data());
                }
                _ => {}
            }
        }
        let v = if i > 0 && r.chance(0.6) { near(r, last) } else { way(r, &s) };
        support(m, &s, &sh, k, v);
        last = v;
    }
}
/// a direction not unlike v
fn near(r: &mut Rng, v: V3) -> V3 {
    let l = vmaxabs(v);
    if l == 0.0 {
        return r.dir();
    }
    match r.below(4) {
        0 => vscl(v, -1.0),
        1 => vscl(v, r.logu(-3.0, 3.0)),
        _ => {
            let mut w = vscl(v, 1.0 / l);
            w[r.us(3)] += r.sign() * r.logu(-15.0, 0.0);
            if vlen(w) > 1e-3 {
                vscl(w, l)
            } else {
                v
            }
        }
    }
}
fn way(r: &mut Rng, s: &Spec) -> V3 {
    let zero = r.chance(0.05);
    let mut v = if zero { [0.0; 3] } else { r.dir() };
    if !zero {
        match r.below(6) {
            0 => v = vscl(v, r.logu(-100.0, 100.0) / vmaxabs(v)),
            1 => {
                // perpendicular or parallel to something of the shape
                if let Spec::Pri(p, _) = s {
                    let e1 = vsub(p[1], p[0]);
                    let n = vcross(e1, vsub(p[2], p[0]));
                    v = vscl([e1, n, vcross(e1, n)][r.us(3)], r.sign());
                }
            }
            _ => {}
        }
    }
    v
}
fn support(m: &mut Mon, s: &Spec, sh: &Shp, k: Kd, v: V3) {
    let zero = v == [0.0; 3];
    m.hs(&v);
    m.note(|| format!("{:?} direction {:?}", s, v));
    let g = sh.s().get_support(&m3(v)).map(|x| x._val);
    if k == Kd::Ray || k == Kd::Pln {
        m.ev("unbounded shape");
        m.ok("unbounded shapes have no support", g.is_none(), || format!("{:?}", g));
        return;
    }
    if zero {
        m.ev("zero direction");
        if k != Kd::Pt {
            m.ok("no support in the zero direction", g.is_none(), || format!("{:?}", g));
            return;
        }
    }
    let g = match g {
        Some(g) => g,
        None => {
            m.ok("support exists", false, || "None".into());
            return;
        }
    };
    m.ok("finite support", g.iter().all(|x| x.is_finite()), || format!("{:?}", g));
    if zero {
        m.ok("support of a point is the point", Spec::Pt(g) == *s, || format!("{:?}", g));
        return;
    }
    let u = e3(vscl(v, 1.0 / vmaxabs(v)));
    let reach = dot3(u, e3(g));
    match s {
        Spec::Pt(p) => {
            m.ok("support of a point is the point", g == *p, || format!("{:?}", g));
        }
        Spec::Sph(c, q) => {
            let w = unit3(u);
            for j in 0..3 {
                m.num("support of a sphere", g[j], e(c[j]) + w[j] * e(*q), 16.0, EPS);
            }
        }
        Spec::Bx(c, q) => {
            let far = dot3(u, e3(*c)) + e(*q) * (u[0].abs() + u[1].abs() + u[2].abs());
            m.num("no farther point", reach.f(), E { v: far.v, m: far.m + reach.m }, 16.0, EPS);
            m.near("support belongs to the shape", (vmaxabs(vsub(g, *c)) - q).max(0.0), 0.0, 8.0 * EPS * (vmaxabs(*c) + q));
        }
        Spec::Pri(v, h) => {
            let (_, vs) = verts(v, *h);
            let far = vs.iter().map(|x| dot3(u, *x)).fold(None, |a: Option<E>, x| match a {
                Some(y) if y.f() >= x.f() => Some(y),
                _ => Some(x),
            });
            let far = far.unwrap();
            // in a sliver the second base is known less well than the rest
            let mv = vs.iter().map(|x| dot3(u, *x).m).fold(0.0, |a: f64, b| if b.is_nan() { f64::INFINITY } else { a.max(b) });
            m.num("no farther point", reach.f(), E { v: far.v, m: mv + reach.m }, 512.0, EPS);
            let near = vs.iter().map(|x| vmaxabs(vsub(f3(*x), g))).fold(f64::INFINITY, f64::min);
            let mm = vs.iter().flat_map(|x| x.iter().map(|y| y.m)).fold(0.0, f64::max);
            // a support point may be any point of the far face; being a vertex is not required
            let out = if near <= 512.0 * EPS * mm { 0.0 } else { faces(v, *h).out(g).max(0.0) };
            m.near("support belongs to the shape", out, 0.0, 512.0 * EPS * mm);
        }
        _ => {}
    }
}

// ------------------------------------------------------------------ C28
fn within(sh: &Shp, a: f64, b: f64) -> bool {
    sh.s().within_vicinity(a, b)
}
pub fn c28(r: &mut Rng, m: &mut Mon) {
    let k = r.pick(&KINDS);
    let s = spec(r, k);
    m.ev(kname(k));
    let mut sh = s.build();
    let mut cur = VIC;
    m.note(|| format!("{:?}", s));
    for step in 0..r.us(5) + 2 {
        if step > 0 || r.chance(0.3) {
            match r.below(5) {
                0 => {
                    m.ev("cloned");
                    let old = sh.clone();
                    let e1 = r.logu(-9.0, 1.0);
                    sh.vic(e1);
                    m.ok("a clone keeps its own vicinity", within(&old, 0.0, cur * 0.99) && (cur == 0.0 || !within(&old, 0.0, cur * 1.01)), || format!("after setting the original to {}", e1));
                    sh = old;
                }
                _ => {
                    let e1 = match r.below(8) {
                        0 => 0.0,
                        1 => -r.logu(-9.0, 1.0),
                        6 => r.sign() * r.logu(-30.0, -8.0),
                        7 => r.sign() * r.logu(0.0, 30.0),
                        2 => r.int(1, 5) as f64,
                        _ => r.logu(-9.0, 1.0),
                    };
                    m.note(|| format!("set_vicinity({:?})", e1));
                    m.ev(if e1 < 0.0 {
                        "negative setting"
                    } else if e1 == 0.0 {
                        "zero setting"
                    } else {
                        "positive setting"
                    });
                    m.h(e1);
                    sh.vic(e1);
                    cur = e1.abs();
                }
            }
        } else {
            m.ev("initial vicinity");
        }
        for _ in 0..4 {
            let a = match r.below(3) {
                0 => 0.0,
                1 => r.uni(-2.0, 2.0),
                _ => r.val(),
            };
            let f = r.pick(&[0.0, 0.3, 0.9, 0.999, 1.0, 1.001, 1.1, 2.0, 50.0]);
            let b = a + r.sign() * f * cur + if cur == 0.0 { r.pick(&[0.0, 1e-3, -1e-9]) } else { 0.0 };
            m.hs(&[a, b]);
            let d = (D::new(a) - D::new(b)).f().abs();
            let slack = 4.0 * EPS * (a.abs() + b.abs() + cur);
            let want = if d == 0.0 || d < cur - slack {
                Some(true)
            } else if d > cur + slack {
                Some(false)
            } else {
                None
            };
            let g = within(&sh, a, b);
            match want {
                None => m.skip("unjudged:boundary"),
                Some(w) => {
                    m.ok("numbers within the vicinity", g == w, || format!("{:?} and {:?} with vicinity {:e}: got {}", a, b, cur, g));
                }
            }
            if d == cur && a == 0.0 {
                m.ok("difference equal to the vicinity is accepted", g, || format!("{:?} and {:?} with vicinity {:e}", a, b, cur));
            }
        }
        m.ok("not a number is never within", !within(&sh, f64::NAN, 0.0) && !within(&sh, 0.0, f64::NAN), || "accepted".into());
    }
    // queries that use the tolerance
    let vic = r.logu(-8.0, 0.0);
    let pi = r.pick(&[0usize, 1, 3]);
    m.ev(PAIR_NAMES[pi]);
    let (mut a, mut b) = generic_scene(r, PAIRS[pi], vic);
    if r.chance(0.5) {
        std::mem::swap(&mut a, &mut b)
    }
    let sc = Scene { a, b, exact: false };
    note_scene(m, &sc);
    let v = oracle(&sc.a, &sc.b, vic, false);
    tell(m, &sc, &v);
    let (mut x, mut y) = (sc.a.build(), sc.b.build());
    let sg = r.sign();
    x.vic(vic * sg);
    y.vic(vic);
    m.note(|| format!("vicinity {:?}", vic));
    let g = ask(x.s(), y.s());
    judge(m, &v, &g);
}

// ------------------------------------------------------------------ C30
fn hv(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 | 1 => 0.0,
        2 => r.sign(),
        3 => r.int(-5, 5) as f64,
        4 => r.sign() * r.logu(-30.0, 30.0),
        5 => r.sign() * r.pick(&[1e-30, 1e30, 1e-6, 1e-12, 1e15, 1e-15, 0.9999999e30]),
        6 => -0.0,
        _ => r.val(),
    }
}
fn hpos(r: &mut Rng) -> f64 {
    loop {
        let x = hv(r).abs();
        if x > 0.0 {
            return x;
        }
    }
}
fn h3(r: &mut Rng) -> V3 {
    [hv(r), hv(r), hv(r)]
}
fn hdir(r: &mut Rng) -> V3 {
    loop {
        let d = if r.chance(0.3) { r.dir() } else { h3(r) };
        if d != [0.0; 3] {
            return d;
        }
    }
}
fn hspec(r: &mut Rng, k: Kd, c: V3) -> Spec {
    // share coordinates with the other shape quite often
    let o = if r.chance(0.5) { c } else { h3(r) };
    match k {
        Kd::Pt => Spec::Pt(o),
        Kd::Ray => Spec::Ray(o, hdir(r)),
        Kd::Sph => Spec::Sph(o, if r.chance(0.1) { 0.0 } else { hpos(r) }),
        Kd::Pln => Spec::Pln(o, hdir(r)),
        Kd::Bx => Spec::Bx(o, if r.chance(0.1) { 0.0 } else { hpos(r) }),
        Kd::Pri => {
            let st = Sty { s: r.logu(-12.0, 12.0), base: if r.chance(0.5) { [0.0; 3] } else { vscl(r.vec3c(), r.logu(-12.0, 12.0)) }, vic: VIC };
            for _ in 0..20 {
                let (v, h) = if r.chance(0.5) {
                    gen_prism(r, &st)
                } else if let Spec::Pri(v, h) = exact_prism(r) {
                    (v, h)
                } else {
                    unreachable!()
                };
                let n = vcross(vsub(v[1], v[0]), vsub(v[2], v[0]));
                if vlen(n) > 0.0 {
                    return Spec::Pri(v, if r.chance(0.3) { hpos(r) } else { h });
                }
            }
            exact_prism(r)
        }
        Kd::Seg => {
            let q = if r.chance(0.3) { o } else { h3(r) };
            Spec::Seg(o, q)
        }
    }
}
pub fn c30(r: &mut Rng, m: &mut Mon) {
    let pi = r.us(12);
    let (ka, kb) = PAIRS[pi];
    let c = h3(r);
    let mut s = if r.chance(0.25) {
        scene(r, PAIRS[pi], VIC)
    } else {
        Scene { a: hspec(r, ka, c), b: hspec(r, kb, c), exact: false }
    };
    // points of the prism itself against it
    if let Spec::Pri(v, h) = &s.b {
        if r.chance(0.5) {
            let p = prism_pt(v, *h, r.pick(&[[1.0, 0.0, 0.0], [0.5, 0.5, 0.0], [0.0, 0.0, 1.0], [0.3, 0.3, 0.4]]), r.pick(&[0.0, 1.0, 0.5]));
            s.a = match s.a {
                Spec::Pt(_) => Spec::Pt(p),
                Spec::Seg(_, b) => Spec::Seg(p, if r.chance(0.2) { p } else { b }),
                x => x,
            };
        }
    }
    if r.chance(0.5) {
        std::mem::swap(&mut s.a, &mut s.b)
    }
    note_scene(m, &s);
    m.ev(PAIR_NAMES[pi]);
    if s.a.nums().iter().chain(s.b.nums().iter()).any(|x| *x != 0.0 && (x.abs() > 1e15 || x.abs() < 1e-15)) {
        m.ev("extreme magnitudes");
    }
    let vic = if r.chance(0.1) { r.pick(&[0.0, 1e-30, 1e-3, 1.0, 1e30]) } else { VIC };
    let (a, b) = build_pair(r, m, &s.a, &s.b, vic, false);
    let calls = Cell::new(0);
    let (x, y) = (Spy { inner: a.s(), calls: &calls, limit: 10_000 }, Spy { inner: b.s(), calls: &calls, limit: 10_000 });
    let g = ask(&x, &y);
    m.ok("query answered", true, String::new);
    if let Some(p) = g.1 {
        m.ok("finite location", p.iter().all(|x| x.is_finite()), || format!("{:?}", p));
    }
    if s.a.kind() == s.b.kind() && r.chance(0.1) {
        m.ev("a shape with itself");
        m.note(|| "the first with itself".into());
        let g = ask(&x, &x);
        m.ok("a location comes exactly with a positive verdict", g.0 == g.1.is_some(), || format!("{:?}", g));
    }
    let deep = calls.get() > 8;
    m.ev(if deep { "many calls between the shapes" } else { "few calls between the shapes" });
    m.ok("a location comes exactly with a positive verdict", g.0 == g.1.is_some(), || format!("{:?}", g));
    let o = a.s().get_bound().intersect(b.s().get_bound());
    m.ok("bounds compared", o || !o, String::new);
    for (z, p) in [(&x, &s.a), (&y, &s.b)] {
        if !matches!(p, Spec::Seg(..)) {
            let d = if r.chance(0.1) { [0.0; 3] } else { hdir(r) };
            m.note(|| format!("support of {:?} along {:?}", p, d));
            let q = z.get_support(&m3(d));
            m.ok("support answered", q.is_some() || !matches!(p, Spec::Pt(..)), || "a point has no support".into());
            if q.is_some() {
                m.ev("support point given");
            }
        }
    }
    if let (Spec::Sph(_, p), Spec::Sph(_, q)) = (&s.a, &s.b) {
        if *p > 0.0 && *q > 0.0 {
            calls.set(0);
            let g = query_intersect(&x, &y);
            m.ok("convex test answered", g.is_some(), || "None".into());
            if calls.get() > 20 {
                m.ev("convex test took more than nine steps");
            }
        }
    }
    let mut u = AxisAlignedBBox::default();
    u.get_union(&[a.s().get_bound(), b.s().get_bound()]);
    let _ = u.get_centroid();
    let (_, l) = u.get_longest_axis();
    m.ok("longest side of a union is not negative", !(l < 0.0), || format!("{}", l));
}

// ------------------------------------------------------------------ C31
pub fn c31(r: &mut Rng, m: &mut Mon) {
    let pi = r.us(12);
    let pair = PAIRS[pi];
    let s = scene(r, pair, VIC);
    note_scene(m, &s);
    m.ev(PAIR_NAMES[pi]);
    let has_box = pair.0 == Kd::Bx || pair.1 == Kd::Bx;
    let sc = s.a.size().max(s.b.size());
    let mut kinds: Vec<u64> = vec![0, 1, 2];
    if !has_box {
        kinds.push(3)
    }
    if !uses_vicinity(pair) {
        kinds.push(4)
    }
    let kind = r.pick(&kinds);
    // x -> M x + t, lengths by k; exact when the map only moves numbers around
    let mut mat = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
    let mut t = [0.0; 3];
    let mut k = 1.0;
    let mut pure = true;
    match kind {
        0 => {
            m.ev("axis permutation");
            let p = r.pick(&[[0usize, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]);
            mat = [[0.0; 3]; 3];
            for i in 0..3 {
                mat[i][p[i]] = 1.0
            }
        }
        1 => {
            m.ev("mirroring");
            for i in 0..3 {
                if r.chance(0.5) {
                    mat[i][i] = -1.0
                }
            }
        }
        2 => {
            m.ev("translation");
            if s.exact {
                t = [r.int(-64, 64) as f64, r.int(-64, 64) as f64, r.int(-64, 64) as f64];
            } else {
                pure = false;
                t = vscl(r.vec3c(), sc * r.logu(-1.0, 1.0));
            }
        }
        3 => {
            m.ev("rotation");
            pure = false;
            let a = r.gdir();
            let b = r.perp(a);
            let c = vcross(a, b);
            mat = [a, b, c];
        }
        _ => {
            if r.chance(0.5) {
                m.ev("scaling by a power of two");
                k = 2f64.powi(r.int(-20, 20) as i32);
            } else {
                m.ev("scaling");
                k = r.logu(-5.0, 5.0);
                pure = false;
            }
        }
    }
    let det = vdot(mat[0], vcross(mat[1], mat[2]));
    let lin = |v: V3| -> V3 { [vdot(mat[0], v), vdot(mat[1], v), vdot(mat[2], v)] };
    let pt = |v: V3| vadd(vscl(lin(v), k), t);
    let conv = |x: &Spec| -> Spec {
        let y = map(x, &pt, &lin, k);
        match y {
            Spec::Pri(v, h) if det < 0.0 => Spec::Pri([v[0], v[2], v[1]], h),
            y => y,
        }
    };
    let (ta, tb) = (conv(&s.a), conv(&s.b));
    m.note(|| format!("moved: {:?} with {:?}", ta, tb));
    let v = oracle(&s.a, &s.b, VIC, s.exact && pure);
    // moving by inexact numbers moves the scene by rounding: the moved scene must be clear of contact too
    let w = oracle(&ta, &tb, VIC, s.exact && pure);
    let (v, w) = match (v, w) {
        (Verdict::Unk(l), _) | (_, Verdict::Unk(l)) => {
            m.skip(l);
            return;
        }
        x => x,
    };
    if matches!(v, Verdict::Hit(_)) != matches!(w, Verdict::Hit(_)) {
        m.skip("unjudged:rounding of the motion changed the scene");
        return;
    }
    tell(m, &s, &v);
    let (a, b) = build_pair(r, m, &s.a, &s.b, VIC, false);
    let (c, d) = build_pair(r, m, &ta, &tb, VIC, false);
    let g = ask(a.s(), b.s());
    let h = ask(c.s(), d.s());
    m.ok("same verdict in the moved scene", g.0 == h.0, || format!("{:?} and {:?}", g, h));
    if let (Some(p), Some(q)) = (g.1, h.1) {
        let want = pt(p);
        let far = vmaxabs(vsub(want, q));
        let extra = 1e-9 * (sc * k + vmaxabs(t)) + 64.0 * EPS * vmaxabs(q);
        match (&v, &w) {
            (Verdict::Hit(Loc::Near(ps, t1)), Verdict::Hit(Loc::Near(qs, t2))) => {
                let apart = |ps: &[V3]| ps.iter().skip(1).map(|x| vmaxabs(vsub(*x, ps[0]))).fold(0.0, f64::max);
                let spread = apart(ps).max(apart(qs) / k);
                // how far the rounding of the motion itself moved the right location
                let moved = ps.iter().zip(qs.iter()).map(|(x, y)| vmaxabs(vsub(pt(*x), *y))).fold(0.0, f64::max);
                if spread <= 8.0 * VIC {
                    m.ok("location moves along", far <= 2.0 * (k * (t1 + spread) + t2 + moved) + extra, || format!("{:?} moved to {:?}, got {:?}", p, want, q));
                } else {
                    m.skip("unjudged:several right locations");
                }
            }
            (Verdict::Hit(Loc::Seg(a, b, lo, hi, t1)), Verdict::Hit(Loc::Seg(_, _, lo2, hi2, t2))) => {
                let len = vlen(vsub(*b, *a));
                m.ok("location moves along", far <= 2.0 * (k * t1 + t2) + extra + k * len * ((hi - lo) + (hi2 - lo2) + (lo - lo2).abs() + (hi - hi2).abs()), || {
                    format!("{:?} moved to {:?}, got {:?}", p, want, q)
                });
            }
            _ => m.skip("unjudged:location"),
        }
    }
    if let (Spec::Sph(..), Spec::Sph(..)) = (&s.a, &s.b) {
        if let (Some(x), Some(y)) = (gjk_oracle(&s.a, &s.b), gjk_oracle(&ta, &tb)) {
            if x == y {
                let (p, q) = (query_intersect(a.s(), b.s()), query_intersect(c.s(), d.s()));
                m.ok("convex test in the moved scene", p.is_some() && p == q, || format!("{:?} and {:?}", p, q));
            }
        }
    }
}
