//! X25519 (RFC 7748), the Edwards curve of RFC 8032, and secp256k1 (SEC 2).

use crate::num::{Mod, U256};
use std::sync::OnceLock;

pub fn p25519() -> &'static Mod {
    static T: OnceLock<Mod> = OnceLock::new();
    T.get_or_init(|| Mod::new(U256::hex("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed")))
}
/// order of the base point of the Edwards curve
pub fn l25519() -> &'static Mod {
    static T: OnceLock<Mod> = OnceLock::new();
    T.get_or_init(|| Mod::new(U256::hex("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed")))
}
pub fn p256k1() -> &'static Mod {
    static T: OnceLock<Mod> = OnceLock::new();
    T.get_or_init(|| Mod::new(U256::hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")))
}
pub fn n256k1() -> &'static Mod {
    static T: OnceLock<Mod> = OnceLock::new();
    T.get_or_init(|| Mod::new(U256::hex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")))
}

pub fn clamp(s: &[u8]) -> [u8; 32] {
    let mut k: [u8; 32] = s.try_into().unwrap();
    k[0] &= 248;
    k[31] &= 127;
    k[31] |= 64;
    k
}

/// RFC 7748, section 5
pub fn x25519(k: &[u8], u: &[u8]) -> [u8; 32] {
    let f = p25519();
    let k = U256::le(&clamp(k));
    let mut ub: [u8; 32] = u.try_into().unwrap();
    ub[31] &= 127;
    let x1 = f.red(U256::le(&ub));
    let (mut x2, mut z2, mut x3, mut z3) = (U256::ONE, U256::ZERO, x1, U256::ONE);
    let mut swap = false;
    for t in (0..255).rev() {
        let kt = k.bit(t);
        if swap ^ kt {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
        swap = kt;
        let a = f.add(x2, z2);
        let aa = f.mul(a, a);
        let b = f.sub(x2, z2);
        let bb = f.mul(b, b);
        let e = f.sub(aa, bb);
        let c = f.add(x3, z3);
        let d = f.sub(x3, z3);
        let da = f.mul(d, a);
        let cb = f.mul(c, b);
        let s = f.add(da, cb);
        x3 = f.mul(s, s);
        let s = f.sub(da, cb);
        z3 = f.mul(x1, f.mul(s, s));
        x2 = f.mul(aa, bb);
        z2 = f.mul(e, f.add(aa, f.mul(U256([0, 0, 0, 121665]), e)));
    }
    if swap {
        std::mem::swap(&mut x2, &mut x3);
        std::mem::swap(&mut z2, &mut z3);
    }
    f.mul(x2, f.inv(z2)).to_le()
}

/// A point of the twisted Edwards curve, extended homogeneous coordinates.
#[derive(Clone, Copy, Debug)]
pub struct Ed {
    x: U256,
    y: U256,
    z: U256,
    t: U256,
}

fn ed_d() -> U256 {
    static T: OnceLock<U256> = OnceLock::new();
    *T.get_or_init(|| {
        let f = p25519();
        let num = f.neg(U256([0, 0, 0, 121665]));
        f.mul(num, f.inv(U256([0, 0, 0, 121666])))
    })
}

impl Ed {
    pub fn zero() -> Ed {
        Ed { x: U256::ZERO, y: U256::ONE, z: U256::ONE, t: U256::ZERO }
    }
    pub fn base() -> Ed {
        static T: OnceLock<Ed> = OnceLock::new();
        *T.get_or_init(|| {
            let f = p25519();
            let y = f.mul(U256([0, 0, 0, 4]), f.inv(U256([0, 0, 0, 5])));
            Ed::decode(&y.to_le()).unwrap()
        })
    }
    pub fn add(&self, o: &Ed) -> Ed {
        let f = p25519();
        let a = f.mul(f.sub(self.y, self.x), f.sub(o.y, o.x));
        let b = f.mul(f.add(self.y, self.x), f.add(o.y, o.x));
        let c = f.mul(f.mul(self.t, ed_d()), o.t);
        let c = f.add(c, c);
        let d = f.mul(f.add(self.z, self.z), o.z);
        let (e, ff, g, h) = (f.sub(b, a), f.sub(d, c), f.add(d, c), f.add(b, a));
        Ed { x: f.mul(e, ff), y: f.mul(g, h), z: f.mul(ff, g), t: f.mul(e, h) }
    }
    pub fn neg(&self) -> Ed {
        let f = p25519();
        Ed { x: f.neg(self.x), y: self.y, z: self.z, t: f.neg(self.t) }
    }
    /// multiplication by an integer below 2^256
    pub fn mul(&self, k: U256) -> Ed {
        let mut r = Ed::zero();
        for i in (0..256).rev() {
            r = r.add(&r);
            if k.bit(i) {
                r = r.add(self);
            }
        }
        r
    }
    pub fn encode(&self) -> [u8; 32] {
        let f = p25519();
        let zi = f.inv(self.z);
        let x = f.mul(self.x, zi);
        let mut b = f.mul(self.y, zi).to_le();
        if x.bit(0) {
            b[31] |= 0x80;
        }
        b
    }
    /// None when no x exists for the y. Like the original Ed25519 software it takes y modulo p and
    /// accepts a sign bit on x = 0.
    pub fn decode(b: &[u8]) -> Option<Ed> {
        let f = p25519();
        let mut yb: [u8; 32] = b.try_into().unwrap();
        let sign = yb[31] >> 7 == 1;
        yb[31] &= 127;
        let y = f.red(U256::le(&yb));
        let yy = f.mul(y, y);
        let u = f.sub(yy, U256::ONE);
        let v = f.add(f.mul(ed_d(), yy), U256::ONE);
        let xx = f.mul(u, f.inv(v)); // v is never zero: -1/d is not a square
        // square root for p = 5 mod 8
        let e = U256::hex("0ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffe");
        let mut x = f.pow(xx, e);
        if f.mul(x, x) != xx {
            let i = f.pow(U256([0, 0, 0, 2]), U256::hex("1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffb"));
            x = f.mul(x, i);
        }
        if f.mul(x, x) != xx {
            return None;
        }
        if x.bit(0) != sign {
            x = f.neg(x);
        }
        Some(Ed { x, y, z: U256::ONE, t: f.mul(x, y) })
    }
}

/// A point of secp256k1, affine; None is the point at infinity.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Kp(pub Option<(U256, U256)>);

impl Kp {
    pub fn base() -> Kp {
        Kp(Some((
            U256::hex("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"),
            U256::hex("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8"),
        )))
    }
    pub fn on_curve(x: U256, y: U256) -> bool {
        let f = p256k1();
        x < f.m && y < f.m && f.mul(y, y) == f.add(f.mul(x, f.mul(x, x)), U256([0, 0, 0, 7]))
    }
    pub fn add(self, o: Kp) -> Kp {
        let f = p256k1();
        let ((x1, y1), (x2, y2)) = match (self.0, o.0) {
            (None, _) => return o,
            (_, None) => return self,
            (Some(a), Some(b)) => (a, b),
        };
        let l = if x1 == x2 {
            if y1 != y2 || y1.is_zero() {
                return Kp(None);
            }
            let xx = f.mul(x1, x1);
            f.mul(f.add(f.add(xx, xx), xx), f.inv(f.add(y1, y1)))
        } else {
            f.mul(f.sub(y2, y1), f.inv(f.sub(x2, x1)))
        };
        let x3 = f.sub(f.sub(f.mul(l, l), x1), x2);
        let y3 = f.sub(f.mul(l, f.sub(x1, x3)), y1);
        Kp(Some((x3, y3)))
    }
    /// Double and add, in Jacobian coordinates; `mul_plain` is the same on the affine equations.
    pub fn mul(self, k: U256) -> Kp {
        let Some((px, py)) = self.0 else { return self };
        let f = p256k1();
        // (x, y, z) stands for (x / z^2, y / z^3); z = 0 is infinity. No point has y = 0.
        let double = |(x, y, z): (U256, U256, U256)| {
            let yy = f.mul(y, y);
            let s = f.mul(x, yy);
            let s = f.add(s, s);
            let s = f.add(s, s);
            let xx = f.mul(x, x);
            let m = f.add(f.add(xx, xx), xx);
            let x3 = f.sub(f.mul(m, m), f.add(s, s));
            let mut y4 = f.mul(yy, yy);
            for _ in 0..3 {
                y4 = f.add(y4, y4);
            }
            let yz = f.mul(y, z);
            (x3, f.sub(f.mul(m, f.sub(s, x3)), y4), f.add(yz, yz))
        };
        let mut r = (U256::ONE, U256::ONE, U256::ZERO);
        for i in (0..256).rev() {
            r = double(r);
            if !k.bit(i) {
                continue;
            }
            let (x, y, z) = r;
            if z.is_zero() {
                r = (px, py, U256::ONE);
                continue;
            }
            let zz = f.mul(z, z);
            let u = f.sub(f.mul(px, zz), x);
            let v = f.sub(f.mul(py, f.mul(zz, z)), y);
            r = match (u.is_zero(), v.is_zero()) {
                (true, true) => double(r),
                (true, false) => (U256::ONE, U256::ONE, U256::ZERO),
                _ => {
                    let uu = f.mul(u, u);
                    let uuu = f.mul(uu, u);
                    let xu = f.mul(x, uu);
                    let x3 = f.sub(f.sub(f.mul(v, v), uuu), f.add(xu, xu));
                    (x3, f.sub(f.mul(v, f.sub(xu, x3)), f.mul(y, uuu)), f.mul(z, u))
                }
            };
        }
        if r.2.is_zero() {
            return Kp(None);
        }
        let zi = f.inv(r.2);
        let zz = f.mul(zi, zi);
        Kp(Some((f.mul(r.0, zz), f.mul(r.1, f.mul(zz, zi)))))
    }
    pub fn mul_plain(self, k: U256) -> Kp {
        let mut r = Kp(None);
        for i in (0..256).rev() {
            r = r.add(r);
            if k.bit(i) {
                r = r.add(self);
            }
        }
        r
    }
    /// the point with this x and y parity
    pub fn lift(x: U256, odd: bool) -> Option<Kp> {
        let f = p256k1();
        if x >= f.m {
            return None;
        }
        let yy = f.add(f.mul(x, f.mul(x, x)), U256([0, 0, 0, 7]));
        let e = U256::hex("3fffffffffffffffffffffffffffffffffffffffffffffffffffffffbfffff0c");
        let mut y = f.pow(yy, e);
        if f.mul(y, y) != yy {
            return None;
        }
        if y.bit(0) != odd {
            y = f.neg(y);
        }
        Some(Kp(Some((x, y))))
    }
    pub fn xy(self) -> Option<[u8; 64]> {
        self.0.map(|(x, y)| {
            let mut o = [0; 64];
            o[..32].copy_from_slice(&x.to_be());
            o[32..].copy_from_slice(&y.to_be());
            o
        })
    }
}
