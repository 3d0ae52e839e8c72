//! Deterministic generator and value distributions. A case is a function of (seed, property, index).
use crate::dd::*;
use std::sync::OnceLock;

/// numeric literals of the source under test (MON_DICT): thresholds and constants are worth meeting exactly and nearly
static DICT: OnceLock<Vec<f64>> = OnceLock::new();
fn dict() -> &'static [f64] {
    DICT.get_or_init(|| {
        std::env::var("MON_DICT")
            .unwrap_or_default()
            .split(',')
            .filter_map(|x| x.trim().parse::<f64>().ok())
            .filter(|x| *x > 0.0 && x.is_finite())
            .collect()
    })
}

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    /// draws made so far
    pub n: u32,
    /// (draw, bit): this one draw comes out with one bit altered
    pub flip: Option<(u32, u32)>,
}
fn sm(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
impl Rng {
    pub fn new(seed: u64, prop: &str, index: u64) -> Rng {
        let mut x = seed.wrapping_mul(0xD1342543DE82EF95) ^ hash_str(prop) ^ index.wrapping_mul(0xA24BAED4963EE407);
        let s = [sm(&mut x), sm(&mut x), sm(&mut x), sm(&mut x)];
        Rng { s, n: 0, flip: None }
    }
    pub fn u64(&mut self) -> u64 {
        let mut r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        if let Some((k, b)) = self.flip {
            if k == self.n {
                r ^= 1 << b
            }
        }
        self.n += 1;
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// uniform in [0,1)
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 * (1.0 / 9007199254740992.0)
    }
    pub fn uni(&mut self, lo: f64, hi: f64) -> f64 {
        let x = self.u64();
        if x & 127 == 0 {
            let y = self.lit() * self.sign();
            if lo <= y && y < hi && y.abs() > 1e-12 * (hi - lo) {
                return y;
            }
        }
        lo + (hi - lo) * ((x >> 11) as f64 * (1.0 / 9007199254740992.0))
    }
    /// a number connected with a literal of the source under test (positive; 1 when there is none)
    pub fn lit(&mut self) -> f64 {
        let d = dict();
        if d.is_empty() {
            return 1.0;
        }
        let x = d[self.us(d.len())];
        let x = match self.below(16) {
            0 => x.sqrt(),
            1 => x * x,
            2 => x.to_radians(),
            3 => x.to_degrees(),
            4 => x.min(1.0).acos(),
            5 => x.sin().abs(),
            6 => x.cos().abs(),
            7 => 1.0 / x,
            8 => (1.0 - x).abs(),
            _ => x,
        };
        match self.below(8) {
            0..=3 => x,
            4 => x * (1.0 + self.sign() * 2f64.powi(-(self.int(1, 52) as i32))),
            5 => x * (1.0 + self.sign() * 2f64.powi(-(self.int(1, 10) as i32))),
            6 => x + self.sign() * 2f64.powi(-(self.int(1, 40) as i32)),
            _ => x * self.int(2, 4) as f64 / 2.0,
        }
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn sign(&mut self) -> f64 {
        if self.u64() & 1 == 0 {
            1.0
        } else {
            -1.0
        }
    }
    /// positive, log-uniform between 10^lo and 10^hi
    pub fn logu(&mut self, lo: f64, hi: f64) -> f64 {
        if self.u64() & 31 == 0 {
            let y = self.lit();
            if y >= 10f64.powf(lo) && y <= 10f64.powf(hi) {
                return y;
            }
        }
        10f64.powf(self.uni(lo, hi))
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.us(xs.len())]
    }
    /// a component value: integers, simple fractions, uniform, several decades, exact zeros, favourites
    pub fn val(&mut self) -> f64 {
        match self.below(21) {
            20 => {
                let y = self.lit() * self.sign();
                if y.abs() >= 1e-6 && y.abs() <= 1e6 {
                    y
                } else {
                    self.sign()
                }
            }
            0..=4 => self.int(-9, 9) as f64,
            5..=6 => self.int(-32, 32) as f64 / 8.0,
            7..=12 => self.uni(-10.0, 10.0),
            13..=15 => self.sign() * self.logu(-3.0, 3.0),
            16 => self.sign() * self.logu(-6.0, 6.0),
            17 => self.uni(-1000.0, 1000.0),
            _ => self.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 1.0 / 3.0, 0.1, 1e-3, -1e-6, 100.0, 12345.678, 3.141592653589793, 1e6, -1e6]),
        }
    }
    /// positive size
    pub fn pos(&mut self) -> f64 {
        match self.below(8) {
            0..=1 => self.int(1, 12) as f64,
            2 => self.int(1, 64) as f64 / 8.0,
            3..=5 => self.uni(0.05, 10.0),
            _ => self.logu(-2.0, 3.0),
        }
    }
    /// components with structure: iid, some zero, repeated, one dominating, ...
    pub fn comps(&mut self, n: usize) -> Vec<f64> {
        let mut v: Vec<f64> = (0..n).map(|_| self.val()).collect();
        match self.below(12) {
            0 => {
                let k = self.us(n);
                for i in 0..n {
                    if i != k {
                        v[i] = 0.0
                    }
                }
            }
            1 => {
                let k = self.us(n);
                v[k] = 0.0
            }
            2 => {
                let k = self.us(n);
                let x = v[k];
                for y in v.iter_mut() {
                    *y = x
                }
            }
            3 => {
                let x = v[0];
                for y in v.iter_mut() {
                    *y = x * [1.0, -1.0][self.us(2)]
                }
            }
            4 => {
                let k = self.us(n);
                v[k] *= 1000.0;
            }
            5 => {
                let s = self.logu(-4.0, 4.0);
                for y in v.iter_mut() {
                    *y *= s
                }
            }
            6 => {
                for y in v.iter_mut() {
                    *y = self.uni(-1.0, 1.0)
                }
            }
            _ => {}
        }
        v
    }
    /// a random unit direction (generic)
    pub fn gdir(&mut self) -> V3 {
        loop {
            let v = [self.uni(-1.0, 1.0), self.uni(-1.0, 1.0), self.uni(-1.0, 1.0)];
            let l = vlen(v);
            if l > 0.05 && l <= 1.0 {
                return vscl(v, 1.0 / l);
            }
        }
    }
    /// a direction of arbitrary length: axes, coordinate planes, diagonals, nearly axis-aligned, generic
    pub fn dir(&mut self) -> V3 {
        let len = match self.below(40) {
            38 => self.lit().max(1e-9).min(1e9),
            39 => self.logu(-60.0, 60.0),
            37 => 1.0 + self.sign() * self.logu(-14.0, -1.0),
            0..=7 => 1.0,
            8..=15 => self.int(1, 9) as f64,
            16..=23 => self.logu(-3.0, 3.0),
            _ => self.uni(0.2, 5.0),
        };
        let d: V3 = match self.below(12) {
            0..=1 => {
                let mut d = [0.0; 3];
                d[self.us(3)] = self.sign();
                d
            }
            2 => {
                let mut d = self.gdir();
                let k = self.us(3);
                d[k] = 0.0;
                if vlen(d) < 1e-3 {
                    d[(k + 1) % 3] = 1.0
                }
                d
            }
            3 => [self.sign(), self.sign(), self.sign()],
            4 => {
                let mut d = [self.sign(), self.sign(), self.sign()];
                d[self.us(3)] = 0.0;
                d
            }
            5 => {
                let mut d = [0.0; 3];
                let k = self.us(3);
                d[k] = self.sign();
                let t = self.logu(-7.0, -1.0) * self.sign();
                d[(k + 1 + self.us(2)) % 3] = t;
                d
            }
            6 => loop {
                let d = [self.int(-4, 4) as f64, self.int(-4, 4) as f64, self.int(-4, 4) as f64];
                if d != [0.0; 3] {
                    break d;
                }
            },
            _ => self.gdir(),
        };
        let mut d = vscl(d, len);
        if self.chance(0.1) {
            // zeros of either sign
            for x in d.iter_mut() {
                if *x == 0.0 && self.chance(0.5) {
                    *x = -*x
                }
            }
        }
        d
    }
    pub fn vec3(&mut self) -> V3 {
        let c = self.comps(3);
        [c[0], c[1], c[2]]
    }
    /// a unit vector perpendicular to n
    pub fn perp(&mut self, n: V3) -> V3 {
        for _ in 0..100_000 {
            let c = vcross(n, self.gdir());
            let l = vlen(c);
            if l > 0.1 * vlen(n) {
                return vscl(c, 1.0 / l);
            }
        }
        panic!("no perpendicular to {:?}", n)
    }
}
