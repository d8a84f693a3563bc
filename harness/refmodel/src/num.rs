//! 256-bit modular arithmetic, slow and plain.

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct U256(pub [u64; 4]); // most significant limb first, so the derived order is numeric

impl U256 {
    pub const ZERO: U256 = U256([0; 4]);
    pub const ONE: U256 = U256([0, 0, 0, 1]);
    pub fn be(b: &[u8]) -> Self {
        assert_eq!(b.len(), 32);
        let mut r = [0; 4];
        for i in 0..4 {
            r[i] = u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        U256(r)
    }
    pub fn le(b: &[u8]) -> Self {
        let mut v = b.to_vec();
        v.reverse();
        Self::be(&v)
    }
    pub fn to_be(self) -> [u8; 32] {
        let mut o = [0; 32];
        for i in 0..4 {
            o[8 * i..8 * i + 8].copy_from_slice(&self.0[i].to_be_bytes());
        }
        o
    }
    pub fn to_le(self) -> [u8; 32] {
        let mut o = self.to_be();
        o.reverse();
        o
    }
    pub fn hex(s: &str) -> Self {
        let s: String = s.chars().filter(|c| !c.is_whitespace() && *c != '_').collect();
        let b: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
        Self::be(&b)
    }
    pub fn bit(&self, i: usize) -> bool {
        self.0[3 - i / 64] >> (i % 64) & 1 == 1
    }
    pub fn is_zero(&self) -> bool {
        *self == Self::ZERO
    }
    pub fn add(self, o: Self) -> (Self, bool) {
        let mut r = [0; 4];
        let mut c = 0u128;
        for i in (0..4).rev() {
            c += u128::from(self.0[i]) + u128::from(o.0[i]);
            r[i] = c as u64;
            c >>= 64;
        }
        (U256(r), c != 0)
    }
    pub fn sub(self, o: Self) -> (Self, bool) {
        let mut r = [0; 4];
        let mut borrow = false;
        for i in (0..4).rev() {
            let (x, b1) = self.0[i].overflowing_sub(o.0[i]);
            let (x, b2) = x.overflowing_sub(u64::from(borrow));
            r[i] = x;
            borrow = b1 || b2;
        }
        (U256(r), borrow)
    }
    fn wide_mul(self, o: Self) -> [u64; 8] {
        let mut r = [0u64; 8];
        for i in (0..4).rev() {
            let mut c = 0u128;
            for j in (0..4).rev() {
                c += u128::from(self.0[i]) * u128::from(o.0[j]) + u128::from(r[i + j + 1]);
                r[i + j + 1] = c as u64;
                c >>= 64;
            }
            r[i] = c as u64;
        }
        r
    }
}

/// A prime modulus. `fold` is 2^256 mod m.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Mod {
    pub m: U256,
    fold: U256,
}

impl Mod {
    pub fn new(m: U256) -> Self {
        // 2^256 mod m by doubling
        let mut r = U256::ONE;
        let md = Mod { m, fold: U256::ZERO };
        for _ in 0..256 {
            r = md.add(r, r);
        }
        Mod { m, fold: r }
    }
    pub fn red(&self, mut x: U256) -> U256 {
        if self.m.0[0] >> 60 == 0 {
            panic!("small modulus");
        }
        while x >= self.m {
            x = x.sub(self.m).0;
        }
        x
    }
    /// a and b reduced
    pub fn add(&self, a: U256, b: U256) -> U256 {
        let (s, c) = a.add(b);
        if c || s >= self.m {
            s.sub(self.m).0
        } else {
            s
        }
    }
    pub fn sub(&self, a: U256, b: U256) -> U256 {
        let (d, b) = a.sub(b);
        if b {
            d.add(self.m).0
        } else {
            d
        }
    }
    pub fn neg(&self, a: U256) -> U256 {
        self.sub(U256::ZERO, a)
    }
    pub fn mul(&self, a: U256, b: U256) -> U256 {
        let mut w = a.wide_mul(b);
        // fold the high half until it is gone
        loop {
            let hi = U256([w[0], w[1], w[2], w[3]]);
            let lo = U256([w[4], w[5], w[6], w[7]]);
            if hi.is_zero() {
                return self.red(lo);
            }
            w = hi.wide_mul(self.fold);
            let mut c = 0u128;
            for i in (0..8).rev() {
                c += u128::from(w[i]) + if i >= 4 { u128::from(lo.0[i - 4]) } else { 0 };
                w[i] = c as u64;
                c >>= 64;
            }
        }
    }
    pub fn pow(&self, a: U256, e: U256) -> U256 {
        let mut r = U256::ONE;
        for i in (0..256).rev() {
            r = self.mul(r, r);
            if e.bit(i) {
                r = self.mul(r, a);
            }
        }
        r
    }
    pub fn inv(&self, a: U256) -> U256 {
        self.pow(a, self.m.sub(U256([0, 0, 0, 2])).0)
    }
}
