//! C03 layout independence, C04 algebra, C05 inversion, C06 tolerance comparison.
use crate::bridge::*;
use crate::dd::*;
use crate::mon::*;
use crate::rng::*;
use crate::{any_mat, any_vec};

const K: f64 = 64.0;

/// a rotation, possibly scaled or mirrored, as 3x3 or with a translation as 4x4
fn rigid(r: &mut Rng, n: usize) -> Vec<f64> {
    let a = r.gdir();
    let b = r.perp(a);
    let c = vcross(a, b);
    let s = if r.chance(0.5) { 1.0 } else { r.pos() };
    let f = if r.chance(0.2) { -1.0 } else { 1.0 };
    let p = r.vec3();
    let k = r.us(3);
    let rows = [a, b, vscl(c, f)];
    let mut o = vec![0.0; n * n];
    for i in 0..3 {
        for j in 0..3 {
            o[i * n + j] = s * rows[(i + k) % 3][j];
        }
        if n == 4 && r.chance(0.8) {
            o[i * 4 + 3] = p[i];
        }
    }
    if n == 4 {
        o[15] = 1.0;
    }
    o
}
/// almost a matrix of a special kind: identity, rotation, symmetric, skew, diagonal, affine, zero, repeated lines
fn almost(r: &mut Rng, n: usize) -> Vec<f64> {
    let mut l: Vec<f64> = match r.below(8) {
        0 | 1 => (0..n * n).map(|k| if k / n == k % n { 1.0 } else { 0.0 }).collect(),
        2 => rigid(r, n),
        3 | 4 => {
            let f = if r.chance(0.7) { 1.0 } else { -1.0 };
            let mut l = r.comps(n * n);
            for i in 0..n {
                for j in 0..i {
                    l[i * n + j] = f * l[j * n + i];
                }
            }
            l
        }
        5 => (0..n * n).map(|k| if k / n == k % n { r.val() } else { 0.0 }).collect(),
        6 => {
            let mut l = r.comps(n * n);
            let (i, j) = (r.us(n), r.us(n));
            for k in 0..n {
                l[i * n + k] = l[j * n + k];
            }
            l
        }
        _ => {
            let mut l = r.comps(n * n);
            for j in 0..n {
                l[(n - 1) * n + j] = if j == n - 1 { 1.0 } else { 0.0 };
            }
            l
        }
    };
    let d = r.logu(-12.0, -1.0);
    match r.below(5) {
        0 => {}
        1 => {
            let k = r.us(n * n);
            l[k] += d * r.sign();
        }
        2 => {
            let k = r.us(n * n);
            l[k] *= 1.0 + d * r.sign();
        }
        3 => {
            for x in l.iter_mut() {
                *x += d * r.uni(-1.0, 1.0);
            }
        }
        _ => {
            for x in l.iter_mut() {
                *x *= 1.0 + d * r.uni(-1.0, 1.0);
            }
        }
    }
    l
}
fn elems<M: MatT>(r: &mut Rng) -> Vec<f64> {
    let n = M::N * M::N;
    let v: Vec<f64> = match r.below(10) {
        0..=2 => (0..n).map(|_| r.int(-9, 9) as f64).collect(),
        3 => (0..n).map(|i| (i + 1) as f64).collect(),
        4 => {
            // diagonal or triangular
            let low = r.chance(0.5);
            let tri = r.chance(0.5);
            (0..n)
                .map(|i| {
                    let (p, q) = (i / M::N, i % M::N);
                    if p == q || (tri && (p > q) == low) {
                        r.val()
                    } else {
                        0.0
                    }
                })
                .collect()
        }
        5 => {
            // a permutation with signs
            let mut p: Vec<usize> = (0..M::N).collect();
            for i in (1..M::N).rev() {
                p.swap(i, r.us(i + 1));
            }
            (0..n).map(|i| if p[i / M::N] == i % M::N { r.sign() } else { 0.0 }).collect()
        }
        6 => {
            // a single non-zero entry
            let k = r.us(n);
            let x = r.val();
            (0..n).map(|i| if i == k { x } else { 0.0 }).collect()
        }
        7 => (0..n).map(|_| r.uni(-1.0, 1.0)).collect(),
        8 if r.chance(0.5) => rigid(r, M::N),
        9 if r.chance(0.4) => almost(r, M::N),
        _ => r.comps(n),
    };
    v.into_iter().map(|x| M::r(x)).collect()
}
/// entries of all sizes: now and then far from one
fn sized<M: MatT>(r: &mut Rng) -> Vec<f64> {
    let v = elems::<M>(r);
    let lim = if M::EPS > 1e-10 { 9.0 } else { 60.0 };
    match r.below(24) {
        0 => {
            let s = r.logu(-lim, lim);
            v.into_iter().map(|x| M::r(x * s)).collect()
        }
        1 => v.into_iter().map(|x| if r.chance(0.5) { M::r(x * r.logu(-lim, lim)) } else { x }).collect(),
        2 => {
            // on either side of the usual thresholds for being nothing
            let s = 10f64.powi(-r.int(6, 16) as i32);
            v.into_iter().map(|x| if r.chance(0.3) { M::r(x * s) } else { x }).collect()
        }
        _ => v,
    }
}
fn sized_v<M: MatT>(r: &mut Rng, n: usize) -> Vec<f64> {
    let v = r.comps(n);
    let lim = if M::EPS > 1e-10 { 9.0 } else { 60.0 };
    let s = if r.chance(0.06) { r.logu(-lim, lim) } else { 1.0 };
    v.into_iter().map(|x| M::r(x * s)).collect()
}
/// the other operand: independent, or connected with the first
fn other<M: MatT>(r: &mut Rng, a: &M) -> Vec<f64> {
    let l = a.list();
    let n = M::N;
    let v: Vec<f64> = match r.below(24) {
        0 => l,
        1 => (0..n * n).map(|k| l[(k % n) * n + k / n]).collect(),
        2 => l.iter().map(|x| -x).collect(),
        3 => {
            let mut l = l;
            let k = r.us(n * n);
            l[k] = r.val();
            l
        }
        4 => {
            let s = r.val();
            (0..n * n).map(|k| if k / n == k % n { s } else { 0.0 }).collect()
        }
        5 => almost(r, n),
        _ => return sized::<M>(r),
    };
    if v.iter().any(|x| !x.is_finite() || x.abs() > 1e6) {
        return sized::<M>(r);
    }
    v.into_iter().map(|x| M::r(x)).collect()
}
type EM = Vec<E>;
fn em<M: MatT>(a: &M) -> EM {
    a.list().into_iter().map(e).collect()
}
fn at(a: &EM, n: usize, i: usize, j: usize) -> E {
    a[i * n + j]
}
fn emul(a: &EM, b: &EM, n: usize) -> EM {
    let mut o = vec![];
    for i in 0..n {
        for j in 0..n {
            let mut s = e(0.0);
            for k in 0..n {
                s = s + at(a, n, i, k) * at(b, n, k, j);
            }
            o.push(s);
        }
    }
    o
}
fn et(a: &EM, n: usize) -> EM {
    (0..n * n).map(|i| at(a, n, i % n, i / n)).collect()
}
fn minor(a: &EM, n: usize, r: usize, c: usize) -> EM {
    let mut o = vec![];
    for i in 0..n {
        for j in 0..n {
            if i != r && j != c {
                o.push(at(a, n, i, j));
            }
        }
    }
    o
}
fn det(a: &EM, n: usize) -> E {
    if n == 1 {
        return a[0];
    }
    let mut s = e(0.0);
    for j in 0..n {
        let t = at(a, n, 0, j) * det(&minor(a, n, 0, j), n - 1);
        s = if j % 2 == 0 { s + t } else { s - t };
    }
    s
}
/// (determinant, adjugate)
fn adj(a: &EM, n: usize) -> (E, EM) {
    let mut o = vec![e(0.0); n * n];
    for i in 0..n {
        for j in 0..n {
            let d = det(&minor(a, n, i, j), n - 1);
            o[j * n + i] = if (i + j) % 2 == 0 { d } else { -d };
        }
    }
    (det(a, n), o)
}
fn judge<M: MatT>(m: &mut Mon, label: &'static str, got: Option<M>, want: &EM, row: Option<bool>, k: f64) -> Option<M> {
    match got {
        None => {
            m.ok(label, false, || "no value returned".into());
            None
        }
        Some(g) => {
            for i in 0..M::N {
                for j in 0..M::N {
                    m.num(label, g.at(i, j), want[i * M::N + j], k, M::EPS);
                }
            }
            if let Some(row) = row {
                m.ok("result keeps the operand's layout", g.row() == row, || {
                    format!("{}: result row-major={} operand row-major={}", label, g.row(), row)
                });
            }
            Some(g)
        }
    }
}
fn judgev(m: &mut Mon, label: &'static str, got: Option<Vec<f64>>, want: &[E], eps: f64) {
    match got {
        None => {
            m.ok(label, false, || "no value returned".into());
        }
        Some(g) => {
            m.ok(label, g.len() == want.len(), || "wrong size".into());
            for i in 0..want.len().min(g.len()) {
                m.num(label, g[i], want[i], K, eps);
            }
        }
    }
}
fn ecol(a: &EM, v: &[f64], n: usize) -> Vec<E> {
    (0..n)
        .map(|i| {
            let mut s = e(0.0);
            for k in 0..n {
                s = s + at(a, n, i, k) * e(v[k]);
            }
            s
        })
        .collect()
}
fn erow(a: &EM, v: &[f64], n: usize) -> Vec<E> {
    (0..n)
        .map(|j| {
            let mut s = e(0.0);
            for k in 0..n {
                s = s + e(v[k]) * at(a, n, k, j);
            }
            s
        })
        .collect()
}
fn lname(row: bool) -> &'static str {
    if row {
        "row-major"
    } else {
        "column-major"
    }
}
const OPS: [&str; 14] = [
    "plus", "minus", "mul_elem", "div", "mul", "mul (other first)", "mat*col", "row*mat", "scale", "trace", "transpose_self", "transpose", "normalize", "submat",
];
/// the mathematical result of an operation: a matrix, a vector or a number (as 1-vector)
enum Want {
    Mat(EM),
    Vec(Vec<E>),
}
fn want(op: usize, a: &EM, b: &EM, v: &[f64], s: f64, n: usize) -> Option<Want> {
    let z = |f: &dyn Fn(E, E) -> E| -> EM { (0..n * n).map(|i| f(a[i], b[i])).collect() };
    Some(match op {
        0 => Want::Mat(z(&|p, q| p + q)),
        1 => Want::Mat(z(&|p, q| p - q)),
        2 => Want::Mat(z(&|p, q| p * q)),
        3 => {
            if b.iter().any(|x| x.f() == 0.0) {
                return None;
            }
            Want::Mat(z(&|p, q| p / q))
        }
        4 => Want::Mat(emul(a, b, n)),
        5 => Want::Mat(emul(b, a, n)),
        6 => Want::Vec(ecol(a, v, n)),
        7 => Want::Vec(erow(a, v, n)),
        8 => Want::Mat(z(&|p, _| p * e(s))),
        9 => {
            let mut t = e(0.0);
            for i in 0..n {
                t = t + at(a, n, i, i);
            }
            Want::Vec(vec![t])
        }
        10 | 11 => Want::Mat(et(a, n)),
        12 => {
            let l = a[n * n - 1];
            if l.f() == 0.0 {
                return None;
            }
            Want::Mat(z(&|p, _| p / l))
        }
        _ => {
            if n != 4 {
                return None;
            }
            Want::Vec((0..9).map(|i| at(a, 4, i / 3, i % 3)).collect())
        }
    })
}
enum Got<M> {
    Mat(Option<M>),
    Vec(Option<Vec<f64>>),
}
fn run<M: MatT>(op: usize, a: &mut M, b: &M, v: &[f64], s: f64, m: &mut Mon) -> Got<M> {
    if op < 6 && s > 0.0 && a.row() == b.row() && a.list().iter().zip(b.list().iter()).all(|(p, q)| p.to_bits() == q.to_bits()) {
        m.ev("a value with itself");
        let a: &M = a;
        return Got::Mat(match op {
            0 => a.m_add(a),
            1 => a.m_sub(a),
            2 => a.m_mule(a),
            3 => a.m_dive(a),
            _ => a.m_mul(a),
        });
    }
    match op {
        0 => Got::Mat(a.m_add(b)),
        1 => Got::Mat(a.m_sub(b)),
        2 => Got::Mat(a.m_mule(b)),
        3 => Got::Mat(a.m_dive(b)),
        4 => Got::Mat(a.m_mul(b)),
        5 => Got::Mat(b.m_mul(a)),
        6 => Got::Vec(a.m_col(v)),
        7 => Got::Vec(a.m_row(v)),
        8 => Got::Mat(a.m_scale(s)),
        9 => Got::Vec(Some(vec![a.m_trace()])),
        10 => {
            a.m_tself();
            Got::Mat(Some(*a))
        }
        11 => Got::Mat(Some(a.m_t())),
        12 => Got::Mat(a.m_norm()),
        _ => {
            let row = a.row();
            match a.m_sub3() {
                None => Got::Vec(None),
                Some((l, f)) => {
                    m.ok("result keeps the operand's layout", f == row, || format!("3x3 part: row-major={} operand row-major={}", f, row));
                    Got::Vec(Some(l))
                }
            }
        }
    }
}
fn arity2(op: usize) -> bool {
    op <= 5
}
/// build a matrix with the given entries through one of several routes
fn build<M: MatT>(r: &mut Rng, l: &[f64], row: bool, m: &mut Mon) -> M {
    match r.below(4) {
        0 => {
            m.ev("built entry by entry");
            let z: Vec<f64> = l.iter().map(|_| M::r(7.0)).collect();
            let mut x = M::mk(&z, row);
            let mut order: Vec<usize> = (0..l.len()).collect();
            for i in (1..order.len()).rev() {
                order.swap(i, r.us(i + 1));
            }
            for k in order {
                x.put(k / M::N, k % M::N, l[k]);
            }
            x
        }
        1 => {
            m.ev("built as a transpose");
            let t: Vec<f64> = (0..l.len()).map(|k| l[(k % M::N) * M::N + k / M::N]).collect();
            if r.chance(0.5) {
                M::mk(&t, row).m_t()
            } else {
                let mut x = M::mk(&t, row);
                x.m_tself();
                x
            }
        }
        _ => M::mk(l, row),
    }
}
pub fn c03(r: &mut Rng, m: &mut Mon) {
    let i = r.us(4);
    any_mat!(i, c03_t, r, m)
}
fn c03_t<M: MatT>(r: &mut Rng, m: &mut Mon) {
    let n = M::N;
    m.ev(M::NAME);
    let l = sized::<M>(r);
    m.hs(&l);
    m.note(|| format!("{} listing {:?}", M::NAME, l));
    // the listing is what is stored, in both layouts
    let (mut a, mut c) = (M::mk(&l, true), M::mk(&l, false));
    m.ok("layout flag", a.row() && !c.row(), || format!("flags {} {}", a.row(), c.row()));
    for i in 0..n {
        for j in 0..n {
            m.same("entry of listing, row-major", a.at(i, j), l[i * n + j], 0.0);
            m.same("entry of listing, column-major", c.at(i, j), l[i * n + j], 0.0);
        }
    }
    // writing an entry changes that entry only
    let (p, q) = (r.us(n), r.us(n));
    let x = M::r(r.val());
    for w in [&mut a, &mut c] {
        let row = w.row();
        w.put(p, q, x);
        for i in 0..n {
            for j in 0..n {
                let want = if (i, j) == (p, q) { x } else { l[i * n + j] };
                m.same(if row { "write, row-major" } else { "write, column-major" }, w.at(i, j), want, 0.0);
            }
        }
    }
    let steps = 1 + r.us(5);
    let mut l: Vec<f64> = a.list();
    for _ in 0..steps {
        let lb = other::<M>(r, &a);
        let (b, d): (M, M) = (build(r, &lb, true, m), build(r, &lb, false, m));
        let v: Vec<f64> = sized_v::<M>(r, n);
        let s = sized_v::<M>(r, 1)[0];
        m.hs(&lb);
        if r.chance(0.15) {
            // inversion
            let ea: EM = l.iter().map(|x| e(*x)).collect();
            let (dt, ad) = adj(&ea, n);
            if l.iter().all(|x| x.abs() <= if M::EPS > 1e-10 { 1e6 } else { 1e30 }) && dt.f().abs() >= 1e-6 && dt.f().abs() > 1e4 * M::EPS * dt.m {
                m.note(|| format!("inverse of {:?}", l));
                m.ev("op inverse");
                let w: EM = ad.iter().map(|x| *x / dt).collect();
                judge(m, "inverse, row-major", a.m_inv(), &w, Some(true), 512.0);
                judge(m, "inverse, column-major", c.m_inv(), &w, Some(false), 512.0);
            }
            continue;
        }
        let op = r.us(OPS.len());
        let ea: EM = l.iter().map(|x| e(*x)).collect();
        let eb: EM = lb.iter().map(|x| e(*x)).collect();
        let wt = match want(op, &ea, &eb, &v, s, n) {
            Some(w) => w,
            None => continue,
        };
        m.ev(OPS[op]);
        // same-layout operands in both layouts; for elementwise arithmetic also mixed ones
        let mixed = op <= 3 && r.chance(0.4);
        if mixed {
            m.ev("mixed layouts");
        }
        m.note(|| format!("{} mixed={} a={:?} b={:?} v={:?} s={:?}", OPS[op], mixed, l, lb, v, s));
        let (ga, gc) = if mixed {
            (run(op, &mut a, &d, &v, s, m), run(op, &mut c, &b, &v, s, m))
        } else {
            (run(op, &mut a, &b, &v, s, m), run(op, &mut c, &d, &v, s, m))
        };
        match (ga, gc, wt) {
            (Got::Mat(ga), Got::Mat(gc), Want::Mat(w)) => {
                let ra = judge(m, "operation on row-major", ga, &w, Some(true), K);
                let rc = judge(m, "operation on column-major", gc, &w, Some(false), K);
                if let (Some(ra), Some(rc)) = (ra, rc) {
                    a = ra;
                    c = rc;
                }
            }
            (Got::Vec(ga), Got::Vec(gc), Want::Vec(w)) => {
                judgev(m, "operation on row-major", ga, &w, M::EPS);
                judgev(m, "operation on column-major", gc, &w, M::EPS);
            }
            _ => unreachable!(),
        }
        if !m.fails.is_empty() {
            return;
        }
        // keep the two copies identical (they may differ by rounding), writing entries in place
        l = a.list();
        if l.iter().any(|x| !x.is_finite() || x.abs() > if M::EPS > 1e-10 { 1e12 } else { 1e80 }) {
            l = sized::<M>(r);
            a = M::mk(&l, true);
        }
        for i in 0..n {
            for j in 0..n {
                c.put(i, j, l[i * n + j]);
            }
        }
    }
}

pub fn c04(r: &mut Rng, m: &mut Mon) {
    let i = r.us(4);
    any_mat!(i, c04_t, r, m)
}
fn c04_t<M: MatT>(r: &mut Rng, m: &mut Mon) {
    let n = M::N;
    let row = r.chance(0.5);
    m.ev(M::NAME);
    m.ev(lname(row));
    let l = sized::<M>(r);
    m.hs(&l);
    let mut a: M = build(r, &l, row, m);
    m.note(|| format!("{} {} start {:?}", M::NAME, lname(row), l));
    match r.below(12) {
        0 => {
            let id = M::m_iden();
            for i in 0..n {
                for j in 0..n {
                    m.same("identity entries", id.at(i, j), if i == j { 1.0 } else { 0.0 }, 0.0);
                }
            }
            let id: M = if id.row() == row { id } else { M::mk(&id.list(), row) };
            let w = em(&a);
            judge(m, "identity neutral", id.m_mul(&a), &w, Some(row), K);
            judge(m, "identity neutral", a.m_mul(&id), &w, Some(row), K);
        }
        1 => {
            let z = M::m_zero();
            for i in 0..n {
                for j in 0..n {
                    m.same("default is zero", z.at(i, j), 0.0, 0.0);
                }
            }
            m.ok("size", a.m_size() == Some(n * n), || format!("{:?}", a.m_size()));
            m.ok("dot absent", a.m_dot_none(&z), || "a value was returned".into());
            m.ok("cross absent", a.m_cross_none(&z), || "a value was returned".into());
        }
        _ => {}
    }
    let steps = 1 + r.us(7);
    for _ in 0..steps {
        let lb = other::<M>(r, &a);
        let b: M = build(r, &lb, row, m);
        let v: Vec<f64> = sized_v::<M>(r, n);
        let s = sized_v::<M>(r, 1)[0];
        let op = r.us(OPS.len());
        m.hs(&lb);
        m.h(op as f64);
        let ea = em(&a);
        let eb = em(&b);
        let wt = match want(op, &ea, &eb, &v, s, n) {
            Some(w) => w,
            None => continue,
        };
        m.ev(OPS[op]);
        m.note(|| format!("{} a={:?} {}", OPS[op], a.list(), if arity2(op) { format!("b={:?}", lb) } else { format!("v={:?} s={:?}", v, s) }));
        match (run(op, &mut a, &b, &v, s, m), wt) {
            (Got::Mat(g), Want::Mat(w)) => {
                if let Some(g) = judge(m, OPS[op], g, &w, None, K) {
                    a = g;
                }
            }
            (Got::Vec(g), Want::Vec(w)) => judgev(m, OPS[op], g, &w, M::EPS),
            _ => unreachable!(),
        }
        if !m.fails.is_empty() {
            return;
        }
        if a.list().iter().any(|x| !x.is_finite() || x.abs() > if M::EPS > 1e-10 { 1e12 } else { 1e80 }) {
            let l = sized::<M>(r);
            a = M::mk(&l, a.row());
        }
    }
}

pub fn c05(r: &mut Rng, m: &mut Mon) {
    let i = r.us(4);
    any_mat!(i, c05_t, r, m)
}
fn c05_t<M: MatT>(r: &mut Rng, m: &mut Mon) {
    let n = M::N;
    let row = r.chance(0.5);
    m.ev(M::NAME);
    m.ev(lname(row));
    if r.chance(0.2) {
        // exactly singular, small integers: last step makes one line a combination of others
        let mut l: Vec<f64> = (0..n * n).map(|_| r.int(-3, 3) as f64).collect();
        let byrow = r.chance(0.5);
        let ix = |line: usize, k: usize| if byrow { line * n + k } else { k * n + line };
        let t = r.us(n);
        match r.below(4) {
            0 => {
                for k in 0..n {
                    l[ix(t, k)] = 0.0;
                }
            }
            1 => {
                let o = (t + 1 + r.us(n - 1)) % n;
                let f = r.pick(&[1.0, -1.0, 2.0]);
                for k in 0..n {
                    l[ix(t, k)] = f * l[ix(o, k)];
                }
            }
            2 => {
                let o = (t + 1) % n;
                let p = (t + 2) % n;
                let (f, g) = (r.pick(&[1.0, -1.0]), r.pick(&[1.0, -1.0, 2.0]));
                for k in 0..n {
                    l[ix(t, k)] = f * l[ix(o, k)] + g * l[ix(p, k)];
                }
            }
            _ => {
                // outer product: rank one
                let u: Vec<f64> = (0..n).map(|_| r.int(-3, 3) as f64).collect();
                let v: Vec<f64> = (0..n).map(|_| r.int(-3, 3) as f64).collect();
                for k in 0..n * n {
                    l[k] = u[k / n] * v[k % n];
                }
            }
        }
        m.hs(&l);
        m.note(|| format!("{} {} singular {:?}", M::NAME, lname(row), l));
        let a = M::mk(&l, row);
        m.ev("singular");
        m.ok("singular matrix has no inverse", a.m_inv().is_none(), || "an inverse was returned".into());
        return;
    }
    let mut l = elems::<M>(r);
    if r.chance(0.6) {
        // make it likely to be well conditioned
        for i in 0..n {
            l[i * n + i] += r.sign() * r.uni(1.0, 12.0);
        }
        if r.chance(0.3) {
            // affine
            for j in 0..n {
                l[(n - 1) * n + j] = if j == n - 1 { 1.0 } else { 0.0 };
            }
        }
        if r.chance(0.4) {
            let (i, j) = (r.us(n), r.us(n));
            for k in 0..n {
                l.swap(i * n + k, j * n + k);
            }
        }
    } else if r.chance(0.3) {
        let s = r.logu(-1.0, 2.0);
        for x in l.iter_mut() {
            *x *= s;
        }
    }
    let top = if M::EPS > 1e-10 { 1e6 } else { 1e30 };
    if r.chance(0.15) {
        // lines of very different magnitude
        m.ev("graded");
        let lim = if M::EPS > 1e-10 { 3.0 } else { 25.0 };
        let g: Vec<f64> = (0..n).map(|_| r.logu(-lim, lim)).collect();
        let h: Vec<f64> = (0..n).map(|_| if r.chance(0.5) { 1.0 } else { r.logu(-lim, lim) }).collect();
        for k in 0..n * n {
            l[k] *= g[k / n] * h[k % n];
        }
    }
    let l: Vec<f64> = l.into_iter().map(|x| M::r(x)).collect();
    let ea: EM = l.iter().map(|x| e(*x)).collect();
    let (dt, ad) = adj(&ea, n);
    if !(dt.f().abs() >= 1.0001e-6 && dt.f().abs() > 4e3 * M::EPS * dt.m) || l.iter().any(|x| x.abs() > top) {
        m.skip("unjudged: determinant small or ill-conditioned");
        return;
    }
    m.hs(&l);
    m.note(|| format!("{} {} det {:e} of {:?}", M::NAME, lname(row), dt.f(), l));
    m.ev("invertible");
    let a: M = build(r, &l, row, m);
    let w: EM = ad.iter().map(|x| *x / dt).collect();
    let k = 512.0;
    let inv = match judge(m, "inverse entry", a.m_inv(), &w, Some(row), k) {
        None => return,
        Some(i) => i,
    };
    // both products with the operand, computed by the library
    for left in [true, false] {
        let p = if left { inv.m_mul(&a) } else { a.m_mul(&inv) };
        let p = match p {
            None => {
                m.ok("product with inverse", false, || "no value returned".into());
                return;
            }
            Some(p) => p,
        };
        for i in 0..n {
            for j in 0..n {
                let mut tol = 1e-300;
                for q in 0..n {
                    let (x, y) = if left { (i * n + q, q * n + j) } else { (q * n + j, i * n + q) };
                    // x indexes the inverse, y the operand
                    if l[y] != 0.0 {
                        tol += (w[x].m * k + w[x].f().abs() * K) * l[y].abs() * M::EPS;
                    }
                }
                m.near(if left { "inverse * matrix" } else { "matrix * inverse" }, p.at(i, j), if i == j { 1.0 } else { 0.0 }, tol);
            }
        }
    }
    // inverting twice
    let ei = em(&inv);
    let (d2, a2) = adj(&ei, n);
    if d2.f().abs() >= 1.0001e-6 && d2.f().abs() > 4e3 * M::EPS * d2.m {
        m.ev("inverted twice");
        let w2: EM = a2.iter().map(|x| *x / d2).collect();
        let na = l.iter().fold(0.0, |p: f64, x| p.max(x.abs()));
        let ni = inv.list().iter().fold(0.0, |p: f64, x| p.max(x.abs()));
        if let Some(b) = judge(m, "inverse of inverse", inv.m_inv(), &w2, Some(row), k) {
            let cond = na * ni * (n * n) as f64;
            let err = w.iter().fold(0.0, |p: f64, x| p.max(x.m)) / ni.max(1e-300);
            let tol = 2.0 * k * M::EPS * (cond * (err + 1.0) * na * n as f64);
            if tol < 1e-2 * na {
                for i in 0..n {
                    for j in 0..n {
                        m.near("inverting twice is the original", b.at(i, j), l[i * n + j], tol);
                    }
                }
            }
        }
    }
}

pub fn c06(r: &mut Rng, m: &mut Mon) {
    let i = r.us(16);
    if i < 12 {
        any_vec!(i, c06_v, r, m)
    } else {
        any_mat!(i, c06_m, r, m)
    }
}
/// two lists and a tolerance, with the answer if it is decided
fn close_case(r: &mut Rng, n: usize, rnd: &dyn Fn(f64) -> f64, eps: f64, m: &mut Mon) -> (Vec<f64>, Vec<f64>, f64, Option<bool>) {
    let exact = r.chance(0.7);
    let (mut a, mut b, t): (Vec<f64>, Vec<f64>, f64);
    if exact {
        a = (0..n).map(|_| r.int(-512, 512) as f64 / 16.0).collect();
        t = r.pick(&[0.0, 0.0625, 0.125, 0.5, 1.0, 2.0, 3.0, 16.0]);
        b = a.clone();
        for x in b.iter_mut() {
            *x += match r.below(6) {
                0 => t,
                1 => -t,
                2 => t / 2.0,
                3 => -t / 2.0,
                _ => 0.0,
            };
        }
        match r.below(5) {
            0 | 1 | 2 => {
                let k = r.us(n);
                b[k] = a[k] + r.sign() * (t + r.pick(&[0.0625, 0.5, 1.0, 7.0, 100.0]));
            }
            3 => {
                for k in 0..n {
                    if r.chance(0.3) {
                        b[k] = a[k] + r.sign() * (t + r.pick(&[0.0625, 0.5, 1.0, 7.0]));
                    }
                }
            }
            _ => {}
        }
        if r.chance(0.06) {
            let k = r.us(n);
            if r.chance(0.5) {
                a[k] = f64::NAN;
            } else {
                b[k] = f64::NAN;
            }
            if r.chance(0.3) {
                a[k] = f64::NAN;
                b[k] = f64::NAN;
            }
            m.ev("NaN component");
        }
        let mut t = t;
        if r.chance(0.04) {
            // beyond every difference, or below all of them
            t = match r.below(4) {
                0 => f64::INFINITY,
                1 => rnd(r.logu(3.0, if eps > 1e-10 { 18.0 } else { 140.0 })),
                2 => -r.pick(&[0.0625, 0.5, 1.0]),
                _ => f64::MIN_POSITIVE.max(rnd(1e-37)),
            };
            m.ev("extreme tolerance");
        }
        let ans = (0..n).all(|i| (a[i] - b[i]).abs() <= t);
        if r.chance(0.2) {
            // the same at another scale: powers of two keep every difference exact
            let lim = if eps > 1e-10 { 60 } else { 500 };
            let k = 2f64.powi(r.int(-lim, lim) as i32);
            for x in a.iter_mut().chain(b.iter_mut()) {
                *x *= k
            }
            t *= k;
            m.ev("compared at another scale");
        }
        m.ev(if ans { "expected equal" } else { "expected different" });
        (a, b, t, Some(ans))
    } else {
        a = r.comps(n).into_iter().map(|x| rnd(x)).collect();
        t = rnd(r.logu(-6.0, 1.0));
        b = a.iter().map(|x| rnd(x + r.uni(-1.0, 1.0) * t)).collect();
        if r.chance(0.6) {
            let k = r.us(n);
            b[k] = rnd(a[k] + r.sign() * t * (1.0 + r.logu(-6.0, 1.0)));
        }
        let mut ans = Some(true);
        for i in 0..n {
            let d = (a[i] - b[i]).abs();
            let f = 4.0 * eps * (a[i].abs() + b[i].abs() + t);
            if d > t + f {
                ans = Some(false);
                break;
            }
            if d >= t - f {
                ans = None;
            }
        }
        if ans.is_none() && (0..n).any(|i| (a[i] - b[i]).abs() > t + 4.0 * eps * (a[i].abs() + b[i].abs() + t)) {
            ans = Some(false);
        }
        (a, b, t, ans)
    }
}
fn judge_eq(m: &mut Mon, ans: Option<bool>, ab: Option<bool>, ba: Option<bool>) {
    match ans {
        None => m.skip("unjudged: difference at the tolerance"),
        Some(w) => {
            m.ok("comparison", ab == Some(w), || format!("got {:?} want {}", ab, w));
            m.ok("comparison, swapped", ba == Some(w), || format!("got {:?} want {}", ba, w));
        }
    }
}
fn c06_v<V: VecT>(r: &mut Rng, m: &mut Mon) {
    let (a, b, t, ans) = close_case(r, V::N, &|x| V::r(x), V::EPS, m);
    m.ev(V::NAME);
    m.hs(&a);
    m.hs(&b);
    m.h(t);
    m.note(|| format!("{} {:?} vs {:?} tolerance {:?}", V::NAME, a, b, t));
    let (x, y) = (V::mk(&a), V::mk(&b));
    judge_eq(m, ans, x.v_eq(&y, t), y.v_eq(&x, t));
    if a.iter().all(|x| x.is_finite()) {
        m.ok("reflexive", (t < 0.0 || x.v_eq(&x, t) == Some(true)) && x.v_eq(&x, 0.0) == Some(true), || "not equal to itself".into());
    } else if a.iter().any(|x| x.is_nan()) {
        m.ok("not a number differs from itself", x.v_eq(&x, t) == Some(false), || "equal to itself".into());
    }
}
fn c06_m<M: MatT>(r: &mut Rng, m: &mut Mon) {
    let (a, b, t, ans) = close_case(r, M::N * M::N, &|x| M::r(x), M::EPS, m);
    m.ev(M::NAME);
    m.hs(&a);
    m.hs(&b);
    m.h(t);
    let (ra, rb) = (r.chance(0.5), r.chance(0.5));
    m.note(|| format!("{} {:?} ({}) vs {:?} ({}) tolerance {:?}", M::NAME, a, lname(ra), b, lname(rb), t));
    let (x, y) = (M::mk(&a, ra), M::mk(&b, rb));
    if ra != rb {
        m.ev("mixed layouts");
        judge_eq(m, Some(false), x.m_eq(&y, t), y.m_eq(&x, t));
    } else {
        judge_eq(m, ans, x.m_eq(&y, t), y.m_eq(&x, t));
        if a.iter().all(|x| x.is_finite()) {
            m.ok("reflexive", (t < 0.0 || x.m_eq(&x, t) == Some(true)) && x.m_eq(&x, 0.0) == Some(true), || "not equal to itself".into());
        } else if a.iter().any(|x| x.is_nan()) {
            m.ok("not a number differs from itself", x.m_eq(&x, t) == Some(false), || "equal to itself".into());
        }
    }
}
