//! C29 (purity: recorded call logs, replayed in other orders, on equal operands and concurrently) and C32 (refusals).
use crate::bridge::*;
use crate::{any_mat, any_quat, any_vec};
use crate::dd::*;
use crate::mon::Mon;
use crate::props::quats::unitq64;
use crate::rng::Rng;
use crate::scenes::*;
use mazth::bound::AxisAlignedBBox;
use mazth::i_bound::IBound;
use mazth::i_shape::ShapeType;
use mazth::intersect_gjk::query_intersect;
use mazth::line::Line3;
use mazth::mat::*;
use mazth::plane::Plane;
use mazth::point::Point3;
use mazth::quat::Quat;
use mazth::ray::Ray3;
use mazth::rbox::RecBox;
use mazth::sphere::Sphere;
use mazth::triprism::TriPrism;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn bits(x: f64) -> u64 {
    if x.is_nan() {
        0x7ff8dead
    } else {
        x.to_bits()
    }
}
fn push(o: &mut Vec<u64>, v: &[f64]) {
    o.extend(v.iter().map(|x| bits(*x)))
}
fn push_opt(o: &mut Vec<u64>, v: Option<Vec<f64>>) {
    match v {
        None => o.push(0xdead),
        Some(v) => push(o, &v),
    }
}
pub trait Alg {
    fn exec(&self, op: u64, i: usize, j: usize, s: f64) -> Vec<u64>;
    fn dump(&self) -> Vec<u64>;
    fn again(&self) -> Box<dyn Alg>;
    /// change one value in place, as its owner may
    fn poke(&mut self, i: usize, j: usize, s: f64);
    /// the values, and putting them back where they were
    fn save(&self) -> Vec<(Vec<f64>, bool)>;
    fn load(&mut self, v: &[(Vec<f64>, bool)]);
}
struct VS<V: VecT>(Vec<V>);
impl<V: VecT + 'static> Alg for VS<V> {
    fn exec(&self, op: u64, i: usize, j: usize, s: f64) -> Vec<u64> {
        let (a, b) = (&self.0[i % self.0.len()], &self.0[j % self.0.len()]);
        let mut o = vec![];
        let l = |v: Option<V>| v.map(|x| x.list());
        match op % 10 {
            0 => push_opt(&mut o, l(a.v_add(b))),
            1 => push_opt(&mut o, l(a.v_sub(b))),
            2 => push_opt(&mut o, l(a.v_mul(b))),
            3 => push_opt(&mut o, l(a.v_div(b))),
            4 => push_opt(&mut o, l(a.v_scale(s))),
            5 => push_opt(&mut o, a.v_dot(b).map(|x| vec![x])),
            6 => push_opt(&mut o, l(a.v_cross(b))),
            7 => push_opt(&mut o, a.v_mag().map(|x| vec![x])),
            8 => push_opt(&mut o, l(a.v_norm())),
            _ => o.push(a.v_eq(b, s.abs()).map(|x| x as u64).unwrap_or(2)),
        }
        o
    }
    fn dump(&self) -> Vec<u64> {
        self.0.iter().flat_map(|x| x.list()).map(bits).collect()
    }
    fn again(&self) -> Box<dyn Alg> {
        Box::new(VS(self.0.iter().map(|x| V::mk(&x.list())).collect()))
    }
    fn poke(&mut self, i: usize, j: usize, s: f64) {
        let n = self.0.len();
        self.0[i % n].put(j % V::N, s);
    }
    fn save(&self) -> Vec<(Vec<f64>, bool)> {
        self.0.iter().map(|x| (x.list(), true)).collect()
    }
    fn load(&mut self, v: &[(Vec<f64>, bool)]) {
        for (x, (l, _)) in self.0.iter_mut().zip(v) {
            *x = V::mk(l)
        }
    }
}
struct MS<M: MatT>(Vec<M>);
impl<M: MatT + 'static> Alg for MS<M> {
    fn exec(&self, op: u64, i: usize, j: usize, s: f64) -> Vec<u64> {
        let (a, b) = (&self.0[i % self.0.len()], &self.0[j % self.0.len()]);
        let mut o = vec![];
        let l = |v: Option<M>| v.map(|x| x.list());
        let v: Vec<f64> = b.list()[0..M::N].to_vec();
        match op % 13 {
            0 => push_opt(&mut o, l(a.m_add(b))),
            1 => push_opt(&mut o, l(a.m_sub(b))),
            2 => push_opt(&mut o, l(a.m_mule(b))),
            3 => push_opt(&mut o, l(a.m_dive(b))),
            4 => push_opt(&mut o, if a.row() == b.row() { l(a.m_mul(b)) } else { None }),
            5 => push_opt(&mut o, a.m_col(&v)),
            6 => push_opt(&mut o, a.m_row(&v)),
            7 => push_opt(&mut o, l(a.m_scale(s))),
            8 => push(&mut o, &[a.m_trace()]),
            9 => push_opt(&mut o, l(a.m_norm())),
            10 => push_opt(&mut o, a.m_sub3().map(|x| x.0)),
            11 => push_opt(&mut o, l(a.m_inv())),
            _ => {
                push(&mut o, &a.m_t().list());
                o.push(a.m_eq(b, s.abs()).map(|x| x as u64).unwrap_or(2));
            }
        }
        o
    }
    fn dump(&self) -> Vec<u64> {
        self.0.iter().flat_map(|x| x.list()).map(bits).chain(self.0.iter().map(|x| x.row() as u64)).collect()
    }
    fn again(&self) -> Box<dyn Alg> {
        Box::new(MS(self.0.iter().map(|x| M::mk(&x.list(), x.row())).collect()))
    }
    fn poke(&mut self, i: usize, j: usize, s: f64) {
        let n = self.0.len();
        if s > 0.0 {
            self.0[i % n].m_tself();
        } else {
            self.0[i % n].put(j % M::N, i % M::N, s);
        }
    }
    fn save(&self) -> Vec<(Vec<f64>, bool)> {
        self.0.iter().map(|x| (x.list(), x.row())).collect()
    }
    fn load(&mut self, v: &[(Vec<f64>, bool)]) {
        for (x, (l, row)) in self.0.iter_mut().zip(v) {
            *x = M::mk(l, *row)
        }
    }
}
struct QS<Q: QuatT>(Vec<Q>);
impl<Q: QuatT + 'static> Alg for QS<Q> {
    fn exec(&self, op: u64, i: usize, j: usize, s: f64) -> Vec<u64> {
        let (a, b) = (&self.0[i % self.0.len()], &self.0[j % self.0.len()]);
        let mut o = vec![];
        let c = b.c();
        let v = [c[0], c[1], c[2]];
        match op % 20 {
            0 => push(&mut o, &a.q_add(*b).c()),
            1 => push(&mut o, &a.q_sub(*b).c()),
            2 => push(&mut o, &a.q_mul(*b).c()),
            3 => push(&mut o, &[a.q_len2(), a.q_len()]),
            4 => push(&mut o, &a.q_norm().c()),
            5 => push(&mut o, &a.q_ln().c()),
            6 => push(&mut o, &a.q_pow(s).c()),
            7 => push(&mut o, &a.q_neg().c()),
            8 => push(&mut o, &a.q_conj().c()),
            9 => push(&mut o, &a.q_scale(s).c()),
            10 => push(&mut o, &a.q_inv().c()),
            11 => push(&mut o, &Q::q_lerp(*a, *b, s).c()),
            12 => push(&mut o, &Q::q_slerp(*a, *b, s).c()),
            13 => push(&mut o, &a.q_to_rot(s > 0.0).list()),
            14 => push(&mut o, &a.q_to_trans(s > 0.0).list()),
            15 => {
                let (x, t) = a.q_to_aa();
                push(&mut o, &x);
                push(&mut o, &[t]);
            }
            16 => push(&mut o, &Q::q_from_rad(v, s).c()),
            17 => push(&mut o, &Q::q_from_deg(v, s).c()),
            18 => push(&mut o, &a.q_rot(v)),
            _ => {
                push(&mut o, &a.q_refl(v));
                push(&mut o, &a.q_par(v));
                push(&mut o, &a.q_ort(v));
            }
        }
        o
    }
    fn dump(&self) -> Vec<u64> {
        self.0.iter().flat_map(|x| x.c()).map(bits).collect()
    }
    fn again(&self) -> Box<dyn Alg> {
        Box::new(QS(self.0.iter().map(|x| Q::mk(x.c())).collect()))
    }
    fn poke(&mut self, i: usize, j: usize, s: f64) {
        let n = self.0.len();
        let mut c = self.0[i % n].c();
        c[j % 4] = s;
        self.0[i % n] = Q::mk(c);
    }
    fn save(&self) -> Vec<(Vec<f64>, bool)> {
        self.0.iter().map(|x| (x.c().to_vec(), true)).collect()
    }
    fn load(&mut self, v: &[(Vec<f64>, bool)]) {
        for (x, (l, _)) in self.0.iter_mut().zip(v) {
            *x = Q::mk([l[0], l[1], l[2], l[3]])
        }
    }
}
struct World {
    specs: Vec<(Spec, Spec)>,
    shapes: Vec<(Shp, Shp)>,
    alg: Vec<Box<dyn Alg>>,
}
/// the crate's values are plain data; sharing them between threads is what the property is about
struct Share<'a>(&'a World);
unsafe impl<'a> Sync for Share<'a> {}
unsafe impl<'a> Send for Share<'a> {}
struct OwnedWorld<'a>(&'a mut World);
unsafe impl<'a> Send for OwnedWorld<'a> {}
impl<'a> OwnedWorld<'a> {
    fn w(&mut self) -> &mut World {
        self.0
    }
}
impl<'a> Share<'a> {
    fn w(&self) -> &World {
        self.0
    }
}
/// the numbers of one value, changed a little or in one place: what a cache with too short a key would confuse
impl World {
    /// changes one of its values in place; only its owner ever does that
    fn mutate(&mut self, r: &mut Rng) -> &'static str {
        if r.chance(0.5) {
            let i = r.us(self.shapes.len());
            let e = r.sign() * r.logu(-12.0, 1.0);
            if r.chance(0.5) {
                self.shapes[i].0.vic(e)
            } else {
                self.shapes[i].1.vic(e)
            }
            "vicinities of other shapes set between the queries"
        } else {
            let i = r.us(self.alg.len());
            let (a, b, s) = (r.us(4), r.us(4), r.uni(-2.0, 2.0));
            self.alg[i].poke(a, b, s);
            "other values changed in place between the queries"
        }
    }
    fn new(r: &mut Rng) -> World {
        let mut specs = vec![];
        for p in PAIRS.iter() {
            let s = if *p == PAIRS[9] { balls(r) } else { scene(r, *p, VIC) };
            specs.push((s.a, s.b));
        }
        // spheres for the convex test, some of them close to contact
        for _ in 0..3 {
            let s = balls(r);
            specs.push((s.a, s.b));
        }
        // almost equal scenes
        for _ in 0..6 {
            let i = r.us(specs.len());
            let (a, b): (Spec, Spec) = specs[i].clone();
            if r.chance(0.5) {
                specs.push((vary_spec(r, &a), b));
            } else {
                specs.push((a, vary_spec(r, &b)));
            }
        }
        let shapes = specs.iter().map(|(a, b)| (a.build(), b.build())).collect();
        let mut alg: Vec<Box<dyn Alg>> = vec![];
        fn vs<V: VecT + 'static>(r: &mut Rng) -> Box<dyn Alg> {
            let mut l: Vec<Vec<f64>> = (0..3).map(|_| r.comps(V::N)).collect();
            l.push(vary(r, &l[0]));
            Box::new(VS::<V>(l.iter().map(|x| V::mk(x)).collect()))
        }
        fn ms<M: MatT + 'static>(r: &mut Rng) -> Box<dyn Alg> {
            let mut l: Vec<Vec<f64>> = (0..3).map(|_| r.comps(M::N * M::N)).collect();
            l.push(vary(r, &l[0]));
            Box::new(MS::<M>(
                l.iter()
                    .map(|x| {
                        let row = r.chance(0.5);
                        M::mk(x, row)
                    })
                    .collect(),
            ))
        }
        fn qs<Q: QuatT + 'static>(r: &mut Rng) -> Box<dyn Alg> {
            let mut l: Vec<Vec<f64>> = vec![];
            while l.len() < 4 {
                let q = if l.len() == 3 { vary(r, &l[0]) } else { unitq64(r).to_vec() };
                let v = [Q::r(q[0]), Q::r(q[1]), Q::r(q[2])];
                if vlen(v) > 1e-3 {
                    l.push(q)
                }
            }
            Box::new(QS::<Q>(l.iter().map(|q| Q::mk([q[0], q[1], q[2], q[3]])).collect()))
        }
        for i in 0..12u64 {
            alg.push(any_vec!(i, vs, r));
        }
        for i in 0..4u64 {
            alg.push(any_mat!(i, ms, r));
        }
        for i in 0..2u64 {
            alg.push(any_quat!(i, qs, r));
        }
        World { specs, shapes, alg }
    }
    /// executes the operation while other values live where its operands were, and puts those back
    fn sublet(&mut self, r: &mut Rng, op: &Op) -> &'static str {
        let l: Vec<usize> = match op {
            Op::Meet(i, _) | Op::Convex(i, _) | Op::Support(i, ..) | Op::Data(i, _) | Op::Within(i, ..) => vec![*i],
            Op::Bounds(i, j) => vec![*i, *j],
            Op::Union(l) => l.clone(),
            Op::Alg(k, _, i, j, _) => {
                let old = self.alg[*k].save();
                let s = r.uni(-2.0, 2.0);
                let which = if r.chance(0.5) { *i } else { *j };
                self.alg[*k].poke(which, r.us(4), s);
                exec(self, op);
                self.alg[*k].load(&old);
                return "other values where the operands were";
            }
        };
        for i in &l {
            let (a, b) = self.specs[*i].clone();
            let k = r.below(3);
            if k != 1 {
                self.shapes[*i].0 = vary_spec(r, &a).build();
            }
            if k != 0 {
                self.shapes[*i].1 = vary_spec(r, &b).build();
            }
        }
        exec(self, op);
        for i in &l {
            let (a, b) = &self.specs[*i];
            self.shapes[*i] = (a.build(), b.build());
        }
        "other shapes where the operands were"
    }
    fn rebuilt(&self) -> World {
        World { specs: self.specs.clone(), shapes: self.specs.iter().map(|(a, b)| (a.build(), b.build())).collect(), alg: self.alg.iter().map(|x| x.again()).collect() }
    }
    fn cloned(&self) -> World {
        World { specs: self.specs.clone(), shapes: self.shapes.clone(), alg: self.alg.iter().map(|x| x.again()).collect() }
    }
    fn dump(&self) -> Vec<String> {
        let mut o: Vec<String> = self.shapes.iter().map(|x| format!("{:?}", x)).collect();
        o.extend(self.alg.iter().map(|x| format!("{:?}", x.dump())));
        o
    }
}
#[derive(Clone, Debug)]
enum Op {
    Meet(usize, bool),
    Bounds(usize, usize),
    Union(Vec<usize>),
    Convex(usize, bool),
    Support(usize, bool, V3),
    Data(usize, bool),
    Within(usize, f64, f64),
    Alg(usize, u64, usize, usize, f64),
}
fn exec(w: &World, op: &Op) -> Vec<u64> {
    let mut o = vec![];
    match op {
        Op::Meet(i, sw) => {
            let (a, b) = &w.shapes[*i];
            let g = if *sw { ask(b.s(), a.s()) } else { ask(a.s(), b.s()) };
            o.push(g.0 as u64);
            push_opt(&mut o, g.1.map(|x| x.to_vec()));
        }
        Op::Bounds(i, j) => {
            let (a, b) = (w.shapes[*i].0.s().get_bound(), w.shapes[*j].1.s().get_bound());
            o.push(a.intersect(b) as u64);
            push(&mut o, &a.get_bound_data()[0..6]);
            push(&mut o, &b.get_centroid());
        }
        Op::Union(l) => {
            let mut u = AxisAlignedBBox::default();
            let v: Vec<&dyn IBound> = l.iter().map(|i| w.shapes[*i].0.s().get_bound()).collect();
            u.get_union(&v);
            push(&mut o, &u.get_bound_data()[0..6]);
            let (_, x) = u.get_longest_axis();
            push(&mut o, &[x]);
        }
        Op::Convex(i, sw) => {
            let (a, b) = &w.shapes[*i];
            let g = if *sw { query_intersect(b.s(), a.s()) } else { query_intersect(a.s(), b.s()) };
            o.push(g.map(|x| x as u64).unwrap_or(2));
        }
        Op::Support(i, sw, d) => {
            let s = if *sw { &w.shapes[*i].1 } else { &w.shapes[*i].0 };
            if !matches!(s, Shp::Seg(_)) {
                push_opt(&mut o, s.s().get_support(&m3(*d)).map(|x| x._val.to_vec()));
            }
        }
        Op::Data(i, sw) => {
            let s = if *sw { &w.shapes[*i].1 } else { &w.shapes[*i].0 };
            push(&mut o, &s.s().get_shape_data());
        }
        Op::Within(i, a, b) => {
            o.push(w.shapes[*i].0.s().within_vicinity(*a, *b) as u64);
        }
        Op::Alg(k, op, i, j, s) => o = w.alg[*k].exec(*op, *i, *j, *s),
    }
    o
}
fn gen_op(r: &mut Rng, w: &World, prev: &[Op]) -> Op {
    let n = w.shapes.len();
    if !prev.is_empty() && r.chance(0.2) {
        // almost the operation before
        return match prev[r.us(prev.len())].clone() {
            Op::Support(i, sw, d) => {
                let v = vary(r, &d);
                let v = if v.iter().all(|x| *x == 0.0) { d.to_vec() } else { v };
                Op::Support(i, sw, [v[0], v[1], v[2]])
            }
            Op::Alg(k, op, i, j, s) => match r.below(3) {
                0 => Op::Alg(k, op, i, j, vary(r, &[s])[0]),
                1 => Op::Alg(k, op, i + 3, j, s),
                _ => Op::Alg(k, op, j, i, s),
            },
            Op::Meet(i, sw) => Op::Meet(i, !sw),
            x => x,
        };
    }
    match r.below(16) {
        0..=5 => Op::Meet(r.us(n), r.chance(0.5)),
        6 => Op::Bounds(r.us(n), r.us(n)),
        7 => Op::Union((0..r.us(4) + 1).map(|_| r.us(n)).collect()),
        8 => Op::Convex(r.pick(&[9, 12, 13, 14]), r.chance(0.5)),
        9 => Op::Support(r.us(n), r.chance(0.5), r.dir()),
        10 => Op::Data(r.us(n), r.chance(0.5)),
        11 => {
            let x = r.f();
            Op::Within(r.us(n), x, x + r.sign() * r.logu(-8.0, 0.5))
        }
        _ => Op::Alg(r.us(w.alg.len()), r.below(260), r.us(4), r.us(4), r.uni(-2.0, 2.0)),
    }
}
fn oname(o: &Op) -> &'static str {
    match o {
        Op::Meet(..) => "intersection queries in logs",
        Op::Bounds(..) | Op::Union(..) => "bound queries in logs",
        Op::Convex(..) => "convex tests in logs",
        Op::Support(..) => "support queries in logs",
        Op::Data(..) | Op::Within(..) => "data and vicinity queries in logs",
        Op::Alg(..) => "algebra operations in logs",
    }
}
fn shuffled(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        v.swap(i, r.us(i + 1))
    }
    v
}
pub fn c29(r: &mut Rng, m: &mut Mon) {
    let w = World::new(r);
    let len = if cfg!(miri) { 12 } else { 48 };
    let mut ops: Vec<Op> = vec![];
    for _ in 0..len {
        let o = gen_op(r, &w, &ops);
        ops.push(o);
    }
    for (a, b) in &w.specs {
        m.hs(&a.nums());
        m.hs(&b.nums());
    }
    m.note(|| format!("log of {} operations, e.g. {:?}", ops.len(), &ops[0..3]));
    let before = w.dump();
    let log: Vec<Vec<u64>> = ops.iter().map(|o| exec(&w, o)).collect();
    for o in &ops {
        m.ev(oname(o));
    }
    let cmp = |m: &mut Mon, label: &'static str, i: usize, g: &Vec<u64>| {
        m.ok(label, *g == log[i], || format!("{:?}: first {:x?}, now {:x?}", ops[i], log[i], g));
    };
    let after = w.dump();
    let unchanged = |m: &mut Mon, label: &'static str, d: &Vec<String>| {
        for (x, y) in before.iter().zip(d.iter()) {
            m.ok(label, x == y, || format!("was {} is {}", x, y));
        }
    };
    unchanged(m, "operands unchanged", &after);
    // the same calls in another order, with other calls between
    let mut other = World::new(r);
    for i in shuffled(r, ops.len()) {
        if r.chance(0.3) {
            let o = gen_op(r, &other, &[]);
            exec(&other, &o);
        }
        if r.chance(0.3) {
            m.ev(other.mutate(r));
        }
        let g = exec(&w, &ops[i]);
        cmp(m, "same answer in another order", i, &g);
    }
    // repeated at once
    for _ in 0..ops.len() / 4 {
        let i = r.us(ops.len());
        for _ in 0..3 {
            let g = exec(&w, &ops[i]);
            cmp(m, "same answer when repeated", i, &g);
        }
    }
    // equal operands
    let c = w.cloned();
    let b = w.rebuilt();
    for i in shuffled(r, ops.len()) {
        let g = exec(&c, &ops[i]);
        cmp(m, "same answer on clones", i, &g);
        let g = exec(&b, &ops[i]);
        cmp(m, "same answer on values built again", i, &g);
    }
    // other tenants at the same addresses
    let mut t = b;
    for i in shuffled(r, ops.len()) {
        m.ev(t.sublet(r, &ops[i]));
        let g = exec(&t, &ops[i]);
        cmp(m, "same answer where other values were before", i, &g);
    }
    // concurrently, sharing the operands
    let n = if cfg!(miri) { 2 } else { 4 };
    let orders: Vec<Vec<usize>> = (0..n).map(|_| shuffled(r, ops.len())).collect();
    let sh = Share(&w);
    // one more thread changes values of its own meanwhile
    let mut side = r.clone();
    let res: Vec<Vec<(usize, Vec<u64>)>> = std::thread::scope(|s| {
        let hs: Vec<_> = orders
            .iter()
            .map(|o| {
                let (sh, ops) = (&sh, &ops);
                s.spawn(move || {
                    let w = sh.w();
                    let mut out = vec![];
                    for i in o {
                        out.push((*i, exec(w, &ops[*i])));
                    }
                    out
                })
            })
            .collect();
        let hm = {
            let (side, other) = (&mut side, OwnedWorld(&mut other));
            s.spawn(move || {
                let mut o = other;
                for _ in 0..if cfg!(miri) { 6 } else { 24 } {
                    o.w().mutate(side);
                    let op = gen_op(side, o.w(), &[]);
                    exec(o.w(), &op);
                }
            })
        };
        hm.join().unwrap_or_else(|e| std::panic::resume_unwind(e));
        hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
    });
    m.ev("concurrent executions of the whole log");
    for t in res {
        for (i, g) in t {
            cmp(m, "same answer concurrently", i, &g);
        }
    }
    unchanged(m, "operands unchanged after sharing", &w.dump());
}

// ------------------------------------------------------------------ C32
fn refused<R>(m: &mut Mon, label: &'static str, what: String, f: impl FnOnce() -> R) {
    m.note(|| what.clone());
    let r = catch_unwind(AssertUnwindSafe(|| {
        f();
    }));
    m.ok(label, r.is_err(), || format!("{} was answered", what));
}
fn accepted<R>(m: &mut Mon, label: &'static str, what: String, f: impl FnOnce() -> R) {
    m.note(|| what.clone());
    let r = catch_unwind(AssertUnwindSafe(|| {
        f();
    }));
    m.ok(label, r.is_ok(), || format!("{} was refused", what));
}
fn list(r: &mut Rng, n: usize) -> Vec<f64> {
    (0..n).map(|i| r.uni(1.0, 2.0) + i as f64).collect()
}
fn wrong(r: &mut Rng, right: usize) -> usize {
    loop {
        let n = match r.below(4) {
            0 => right + 1,
            1 => right.saturating_sub(1),
            2 => right * 2,
            _ => r.us(14),
        };
        if n != right {
            return n;
        }
    }
}
fn c32_vec<V: VecT>(r: &mut Rng, m: &mut Mon) {
    let mut v = V::mk(&list(r, V::N));
    let i = V::N + r.us(4);
    refused(m, "reading a component out of range", format!("{} [{}]", V::NAME, i), || v.at(i));
    refused(m, "writing a component out of range", format!("{} [{}] =", V::NAME, i), || v.put(i, 1.0));
    accepted(m, "components in range", format!("{} [{}]", V::NAME, V::N - 1), || v.at(V::N - 1));
}
fn c32_mat<M: MatT>(r: &mut Rng, m: &mut Mon) {
    let row = r.chance(0.5);
    let gen = |r: &mut Rng| -> Vec<f64> {
        match r.below(5) {
            0 => (0..M::N * M::N).map(|k| if k / M::N == k % M::N { 1.0 } else { 0.0 }).collect(),
            1 => vec![0.0; M::N * M::N],
            2 => {
                let v = r.comps(M::N * M::N);
                (0..M::N * M::N).map(|k| v[(k / M::N).min(k % M::N) * M::N + (k / M::N).max(k % M::N)]).collect()
            }
            _ => r.comps(M::N * M::N),
        }
    };
    let a = M::mk(&gen(r), row);
    let b = M::mk(&gen(r), !row);
    m.hs(&a.list());
    refused(m, "product of different layouts", format!("{} layouts {} and {}", M::NAME, row, !row), || a.m_mul(&b));
    let c = M::mk(&b.list(), row);
    accepted(m, "product of equal layouts", format!("{} layout {}", M::NAME, row), || a.m_mul(&c));
}
fn c32_quat<Q: QuatT>(r: &mut Rng, m: &mut Mon) {
    let z = |r: &mut Rng| if r.chance(0.3) { -0.0 } else { 0.0 };
    let q = [z(r), z(r), z(r), z(r)];
    let w = r.sign() * r.pos();
    let real = Q::mk([z(r), z(r), z(r), w]);
    let t = r.uni(-3.0, 3.0);
    m.hs(&[w, t]);
    match r.below(5) {
        0 => refused(m, "normalising zero", format!("{} {:?}", Q::NAME, q), || Q::mk(q).q_norm()),
        1 => refused(m, "building a unit quaternion from zero", format!("{} {:?}", Q::NAME, q), || Q::q_mk_norm(q)),
        2 => refused(m, "inverting zero", format!("{} {:?}", Q::NAME, q), || Q::mk(q).q_inv()),
        3 => refused(m, "logarithm of a real quaternion", format!("{} {:?}", Q::NAME, real.c()), || real.q_ln()),
        _ => refused(m, "power of a real quaternion", format!("{} {:?} to {}", Q::NAME, real.c(), t), || real.q_pow(t)),
    }
    let g = unitq64(r);
    if vlen([g[0], g[1], g[2]]) > 1e-3 {
        let g = Q::mk(g);
        accepted(m, "proper quaternions are accepted", format!("{} {:?}", Q::NAME, g.c()), || {
            g.q_norm();
            g.q_inv();
            g.q_ln();
            g.q_pow(t)
        });
    }
}
pub fn c32(r: &mut Rng, m: &mut Mon) {
    match r.below(12) {
        0 | 1 => {
            let i = r.u64();
            any_vec!(i, c32_vec, r, m);
            m.h(i as f64);
        }
        2 | 3 => {
            let i = r.u64();
            any_mat!(i, c32_mat, r, m);
        }
        4 | 5 => {
            let i = r.u64();
            any_quat!(i, c32_quat, r, m);
        }
        6 => {
            // bounding boxes
            let ks: [(fn() -> ShapeType, usize, &str); 6] = [
                (|| ShapeType::Point, 3, "point"),
                (|| ShapeType::Ray, 6, "ray"),
                (|| ShapeType::Sphere, 4, "sphere"),
                (|| ShapeType::Plane, 6, "plane"),
                (|| ShapeType::Box, 4, "box"),
                (|| ShapeType::Rect, 6, "rectangle"),
            ];
            let (f, n, name) = r.pick(&ks);
            let k = wrong(r, n);
            let v = list(r, k);
            m.hs(&v);
            refused(m, "bounding box from a list of the wrong length", format!("bound of a {} from {} numbers", name, k), || AxisAlignedBBox::init(f(), &v));
            let v = list(r, n);
            accepted(m, "bounding box from a proper list", format!("bound of a {} from {} numbers", name, n), || AxisAlignedBBox::init(f(), &v));
        }
        7 | 8 => {
            let (n3, n9) = (wrong(r, 3), wrong(r, 9));
            let (a, b, c) = (list(r, 3), list(r, n3), list(r, n9));
            m.hs(&a);
            let l = "shape from a list of the wrong length";
            match r.below(10) {
                0 => refused(m, l, format!("point from {}", n3), || Point3::init(&b)),
                1 => refused(m, l, format!("ray origin from {}", n3), || Ray3::init(&b, &a)),
                2 => refused(m, l, format!("ray direction from {}", n3), || Ray3::init(&a, &b)),
                3 => refused(m, l, format!("sphere from {}", n3), || Sphere::init(&b, 1.0)),
                4 => refused(m, l, format!("plane offset from {}", n3), || Plane::init(&b, &a)),
                5 => refused(m, l, format!("plane normal from {}", n3), || Plane::init(&a, &b)),
                6 => refused(m, l, format!("box from {}", n3), || RecBox::init(&b, 1.0)),
                7 => refused(m, l, format!("segment start from {}", n3), || Line3::init(&b, &a)),
                8 => refused(m, l, format!("segment end from {}", n3), || Line3::init(&a, &b)),
                _ => refused(m, l, format!("prism from {}", n9), || TriPrism::init(&c, 1.0)),
            }
            let p = r.vec3();
            let k = r.pick(&KINDS);
            accepted(m, "shape from proper lists", format!("{:?}", k), || match k {
                Kd::Pri => Spec::Pri([[0.0; 3], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]], 1.0).build(),
                Kd::Pt => Spec::Pt(p).build(),
                Kd::Ray => Spec::Ray(p, [1.0, 2.0, 0.0]).build(),
                Kd::Sph => Spec::Sph(p, 1.0).build(),
                Kd::Pln => Spec::Pln(p, [1.0, 2.0, 0.0]).build(),
                Kd::Bx => Spec::Bx(p, 1.0).build(),
                Kd::Seg => Spec::Seg(p, [0.0; 3]).build(),
            });
        }
        _ => {
            // the convex test with anything but two spheres
            let pi = r.us(12);
            let mut s = scene(r, PAIRS[pi], VIC);
            if r.chance(0.5) {
                // pair one of them with a sphere
                s.a = Spec::Sph(r.vec3(), 1.0);
            }
            if r.chance(0.5) {
                std::mem::swap(&mut s.a, &mut s.b)
            }
            m.hs(&s.a.nums());
            m.hs(&s.b.nums());
            let (a, b) = (s.a.build(), s.b.build());
            if let (Spec::Sph(_, p), Spec::Sph(_, q)) = (&s.a, &s.b) {
                if *p == 0.0 || *q == 0.0 {
                    return;
                }
                accepted(m, "convex test of two spheres", format!("{:?} {:?}", s.a, s.b), || query_intersect(a.s(), b.s()));
            } else {
                refused(m, "convex test of other kinds", format!("{:?} with {:?}", s.a.kind(), s.b.kind()), || query_intersect(a.s(), b.s()));
            }
        }
    }
    let _ = Quat::<f64>::init();
    let _: Mat3<f64> = Mat3::<f64>::iden();
}
