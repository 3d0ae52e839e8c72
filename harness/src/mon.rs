//! The monitor: counts what was observed, compares it with the oracle, keeps the first deviations.
use crate::dd::*;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Fail {
    pub label: &'static str,
    pub detail: String,
}
#[derive(Default)]
pub struct Mon {
    /// (pointer, len) of the label -> (label, count); merged by content at the end
    pub counts: HashMap<(usize, usize), (&'static str, u64)>,
    pub judged: u64,
    pub ambig: u64,
    pub fails: Vec<Fail>,
    pub record: bool,
    pub notes: Vec<String>,
    pub sig: u64,
    pub total_judged: u64,
    pub total_ambig: u64,
}
impl Mon {
    pub fn start(&mut self) {
        self.judged = 0;
        self.ambig = 0;
        self.sig = 0x1234567;
        self.notes.clear();
    }
    pub fn ev(&mut self, l: &'static str) {
        self.counts.entry((l.as_ptr() as usize, l.len())).or_insert((l, 0)).1 += 1;
    }
    /// mix an input into the signature of the case
    pub fn h(&mut self, x: f64) {
        self.sig = (self.sig ^ x.to_bits()).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
    }
    pub fn hs(&mut self, x: &[f64]) {
        for &v in x {
            self.h(v)
        }
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.record && self.notes.len() < 400 {
            self.notes.push(f())
        }
    }
    pub fn fail(&mut self, label: &'static str, detail: String) {
        if self.fails.len() < 8 {
            self.fails.push(Fail { label, detail })
        }
    }
    pub fn skip(&mut self, l: &'static str) {
        self.ambig += 1;
        self.total_ambig += 1;
        self.ev(l);
    }
    pub fn ok<F: FnOnce() -> String>(&mut self, label: &'static str, cond: bool, f: F) -> bool {
        self.judged += 1;
        self.total_judged += 1;
        self.ev(label);
        if !cond {
            let d = f();
            self.fail(label, d);
        }
        cond
    }
    /// got must equal want up to k*eps*magnitude
    pub fn num(&mut self, label: &'static str, got: f64, want: E, k: f64, eps: f64) -> bool {
        let tol = want.tol(k, eps) + if eps > 1e-10 { 1e-37 } else { 1e-300 };
        // single precision: terms beyond its range overflow although the double-double reference does not
        let over = eps > 1e-10 && want.m.max(want.f().abs()) > 3e38;
        if over || !tol.is_finite() || !want.f().is_finite() {
            self.skip("unjudged:ill-conditioned");
            return true;
        }
        // differences computed in double-double: want may be closer to got than an ulp
        let diff = (D::new(got) - want.v).f().abs();
        self.ok(label, diff <= tol, || format!("got {:e} want {:e} (allowed deviation {:e})", got, want.f(), tol))
    }
    pub fn near(&mut self, label: &'static str, got: f64, want: f64, tol: f64) -> bool {
        if tol.is_nan() && got.is_finite() {
            // the bound itself is not a number (0 * infinity): nothing is known of the deviation
            self.skip("unjudged:ill-conditioned");
            return true;
        }
        self.ok(label, (got - want).abs() <= tol, || format!("got {:e} want {:e} (allowed deviation {:e})", got, want, tol))
    }
    /// single correctly rounded operation: same class, and within 2 ulp when finite
    pub fn same(&mut self, label: &'static str, got: f64, want: f64, eps: f64) -> bool {
        let good = if want.is_nan() {
            got.is_nan()
        } else if want.is_infinite() {
            got == want
        } else {
            let tiny = if eps > 1e-10 { 1e-44 } else { 5e-323 };
            (got - want).abs() <= 2.0 * eps * want.abs() + tiny
        };
        self.ok(label, good, || format!("got {:e} want {:e}", got, want))
    }
    /// single correctly rounded operation: the very same number (the sign of zero and the payload of NaN aside)
    pub fn exact(&mut self, label: &'static str, got: f64, want: f64) -> bool {
        let good = if want.is_nan() { got.is_nan() } else { got == want };
        self.ok(label, good, || format!("got {:e} want exactly {:e}", got, want))
    }
    pub fn merge(&mut self, o: &Mon) {
        for (k, (l, c)) in &o.counts {
            self.counts.entry(*k).or_insert((l, 0)).1 += c;
        }
        self.total_judged += o.total_judged;
        self.total_ambig += o.total_ambig;
    }
    pub fn table(&self) -> Vec<(String, u64)> {
        let mut m: std::collections::BTreeMap<&str, u64> = Default::default();
        for (l, c) in self.counts.values() {
            *m.entry(l).or_insert(0) += c;
        }
        m.into_iter().map(|(a, b)| (a.to_string(), b)).collect()
    }
}
