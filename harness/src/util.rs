//! Random numbers, vectors and small helpers. Nothing here depends on the code under test.
use serde::{Deserialize, Serialize};
use std::ops::{Add, AddAssign, Div, Mul, Neg, Sub, SubAssign};

#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut z = seed.wrapping_add(0x9E3779B97F4A7C15);
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            z = z.wrapping_add(0x9E3779B97F4A7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
            *v = x ^ (x >> 31);
        }
        Rng { s }
    }
    /// Independent stream number `n` of `seed`.
    pub fn stream(seed: u64, n: u64) -> Rng {
        let mut r = Rng::new(seed.wrapping_mul(0xD1342543DE82EF95).wrapping_add(n.wrapping_mul(0x2545F4914F6CDD1D)));
        for _ in 0..4 {
            r.u64();
        }
        r
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// Uniform in [0, 1).
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uni(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f()
    }
    pub fn log(&mut self, a: f64, b: f64) -> f64 {
        (self.uni(a.ln(), b.ln())).exp()
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    /// Integer in a..=b.
    pub fn int(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn sign(&mut self) -> f64 {
        if self.chance(0.5) {
            1.
        } else {
            -1.
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn unit(&mut self) -> V3 {
        loop {
            let v = V3(self.uni(-1., 1.), self.uni(-1., 1.), self.uni(-1., 1.));
            let n = v.norm();
            if n > 0.1 && n < 1. {
                return v / n;
            }
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct V3(pub f64, pub f64, pub f64);

pub const Z3: V3 = V3(0., 0., 0.);

impl V3 {
    pub fn dot(self, o: V3) -> f64 {
        self.0 * o.0 + self.1 * o.1 + self.2 * o.2
    }
    pub fn cross(self, o: V3) -> V3 {
        V3(self.1 * o.2 - self.2 * o.1, self.2 * o.0 - self.0 * o.2, self.0 * o.1 - self.1 * o.0)
    }
    pub fn norm2(self) -> f64 {
        self.dot(self)
    }
    pub fn norm(self) -> f64 {
        self.norm2().sqrt()
    }
    pub fn unit(self) -> V3 {
        self / self.norm()
    }
    pub fn finite(self) -> bool {
        self.0.is_finite() && self.1.is_finite() && self.2.is_finite()
    }
}
impl Add for V3 {
    type Output = V3;
    fn add(self, o: V3) -> V3 {
        V3(self.0 + o.0, self.1 + o.1, self.2 + o.2)
    }
}
impl Sub for V3 {
    type Output = V3;
    fn sub(self, o: V3) -> V3 {
        V3(self.0 - o.0, self.1 - o.1, self.2 - o.2)
    }
}
impl Neg for V3 {
    type Output = V3;
    fn neg(self) -> V3 {
        V3(-self.0, -self.1, -self.2)
    }
}
impl Mul<f64> for V3 {
    type Output = V3;
    fn mul(self, k: f64) -> V3 {
        V3(self.0 * k, self.1 * k, self.2 * k)
    }
}
impl Mul<V3> for f64 {
    type Output = V3;
    fn mul(self, v: V3) -> V3 {
        v * self
    }
}
impl Div<f64> for V3 {
    type Output = V3;
    fn div(self, k: f64) -> V3 {
        V3(self.0 / k, self.1 / k, self.2 / k)
    }
}
impl AddAssign for V3 {
    fn add_assign(&mut self, o: V3) {
        *self = *self + o;
    }
}
impl SubAssign for V3 {
    fn sub_assign(&mut self, o: V3) {
        *self = *self - o;
    }
}

/// Rotation matrix.
#[derive(Clone, Copy, Debug)]
pub struct Rot(pub [V3; 3]);

impl Rot {
    pub fn identity() -> Rot {
        Rot([V3(1., 0., 0.), V3(0., 1., 0.), V3(0., 0., 1.)])
    }
    pub fn random(r: &mut Rng) -> Rot {
        let a = r.unit();
        let b = loop {
            let c = r.unit();
            if c.cross(a).norm() > 0.1 {
                break c.cross(a).unit();
            }
        };
        Rot([a, b, a.cross(b)])
    }
    /// About z by angle.
    pub fn z(angle: f64) -> Rot {
        Rot([V3(angle.cos(), -angle.sin(), 0.), V3(angle.sin(), angle.cos(), 0.), V3(0., 0., 1.)])
    }
    pub fn mul(&self, v: V3) -> V3 {
        V3(self.0[0].dot(v), self.0[1].dot(v), self.0[2].dot(v))
    }
}

pub fn hash64(data: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in data.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
