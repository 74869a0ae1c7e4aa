//! Independent curve arithmetic in double-double precision (about 31 digits).
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dd(pub f64, pub f64);
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
fn quick(a: f64, b: f64) -> Dd {
    let s = a + b;
    Dd(s, b - (s - a))
}
impl Dd {
    pub const ZERO: Dd = Dd(0.0, 0.0);
    pub const ONE: Dd = Dd(1.0, 0.0);
    pub fn f(x: f64) -> Dd {
        Dd(x, 0.0)
    }
    pub fn u(x: u128) -> Dd {
        // three 43-bit limbs are exact
        let m = (1u128 << 43) - 1;
        let p = (1u64 << 43) as f64;
        (Dd::f((x >> 86) as f64) * Dd::f(p) + Dd::f(((x >> 43) & m) as f64)) * Dd::f(p) + Dd::f((x & m) as f64)
    }
    /// x / 10^dec
    pub fn units(x: u128, dec: u8) -> Dd {
        Dd::u(x) / Dd::u(10u128.pow(dec as u32))
    }
    /// a decimal number
    pub fn dec(s: &str) -> Dd {
        let (a, b) = s.split_once('.').unwrap_or((s, ""));
        let n: u128 = format!("{a}{b}").parse().unwrap();
        Dd::units(n, b.len() as u8)
    }
    pub fn abs(self) -> Dd {
        if self.0 < 0.0 {
            -self
        } else {
            self
        }
    }
    pub fn sqrt(self) -> Dd {
        if self.0 <= 0.0 {
            return Dd::ZERO;
        }
        let x = Dd::f(self.0.sqrt());
        let x = (x + self / x) * Dd::f(0.5);
        (x + self / x) * Dd::f(0.5)
    }
    pub fn to(self) -> f64 {
        self.0 + self.1
    }
    /// in smallest units
    pub fn raw(self, dec: u8) -> Dd {
        self * Dd::u(10u128.pow(dec as u32))
    }
}
impl From<f64> for Dd {
    fn from(x: f64) -> Dd {
        Dd::f(x)
    }
}
impl Neg for Dd {
    type Output = Dd;
    fn neg(self) -> Dd {
        Dd(-self.0, -self.1)
    }
}
impl Add for Dd {
    type Output = Dd;
    fn add(self, o: Dd) -> Dd {
        let (s, e) = two_sum(self.0, o.0);
        let (t, f) = two_sum(self.1, o.1);
        let r = quick(s, e + t);
        quick(r.0, r.1 + f)
    }
}
impl Sub for Dd {
    type Output = Dd;
    fn sub(self, o: Dd) -> Dd {
        self + (-o)
    }
}
impl Mul for Dd {
    type Output = Dd;
    fn mul(self, o: Dd) -> Dd {
        let p = self.0 * o.0;
        let e = self.0.mul_add(o.0, -p);
        quick(p, e + (self.0 * o.1 + self.1 * o.0))
    }
}
impl Div for Dd {
    type Output = Dd;
    fn div(self, o: Dd) -> Dd {
        let q1 = self.0 / o.0;
        let r = self - o * Dd::f(q1);
        let q2 = r.0 / o.0;
        let r = r - o * Dd::f(q2);
        let q3 = r.0 / o.0;
        quick(q1, q2) + Dd::f(q3)
    }
}
impl PartialOrd for Dd {
    fn partial_cmp(&self, o: &Dd) -> Option<Ordering> {
        match self.0.partial_cmp(&o.0) {
            Some(Ordering::Equal) => self.1.partial_cmp(&o.1),
            x => x,
        }
    }
}
/// root of a function that changes sign once on [lo, hi] (f(lo) <= 0 <= f(hi))
pub fn bisect(mut lo: Dd, mut hi: Dd, f: impl Fn(Dd) -> Dd) -> Dd {
    for _ in 0..220 {
        let m = (lo + hi) * Dd::f(0.5);
        if m <= lo || m >= hi {
            break;
        }
        if f(m) <= Dd::ZERO {
            lo = m
        } else {
            hi = m
        }
    }
    (lo + hi) * Dd::f(0.5)
}

/// the same root with the derivative at hand: 50 halvings, then Newton steps kept inside the bracket
pub fn root(mut lo: Dd, mut hi: Dd, f: impl Fn(Dd) -> (Dd, Dd)) -> Dd {
    for _ in 0..50 {
        let m = (lo + hi) * Dd::f(0.5);
        if f(m).0 <= Dd::ZERO {
            lo = m
        } else {
            hi = m
        }
    }
    let mut x = (lo + hi) * Dd::f(0.5);
    for _ in 0..4 {
        let (v, d) = f(x);
        let n = x - v / d;
        // a bracket that is not tight enough for Newton: go on halving
        if !(n >= lo && n <= hi) {
            return bisect(lo, hi, |x| f(x).0);
        }
        x = n;
    }
    x
}

// ---------------------------------------------------------------- StableSwap, two coins; ann = A * n
/// D with Ann*S + D = Ann*D + D^3/(4xy)
pub fn stable_d(ann: Dd, x: Dd, y: Dd) -> Dd {
    if x <= Dd::ZERO || y <= Dd::ZERO {
        return Dd::ZERO;
    }
    let s = x + y;
    let four = Dd::f(4.0);
    root(Dd::ZERO, s * Dd::f(1.000001), |d| {
        let q = d * d / (four * x * y);
        (ann * d + d * q - ann * s - d, ann + Dd::f(3.0) * q - Dd::ONE)
    })
}
/// the other reserve when one is x
pub fn stable_y(ann: Dd, d: Dd, x: Dd) -> Dd {
    // Ann*(x+y) + D - Ann*D - D^3/(4xy) grows in y
    let four = Dd::f(4.0);
    let f = |y: Dd| ann * (x + y) + d - ann * d - d * d * d / (four * x * y);
    let mut hi = d;
    while f(hi) < Dd::ZERO {
        hi = hi * Dd::f(2.0);
    }
    root(Dd::f(1e-40), hi, |y| (f(y), ann + d * d * d / (four * x * y * y)))
}

// ---------------------------------------------------------------- CryptoSwap, two coins
pub fn crypto_d(a: Dd, g: Dd, x: Dd, y: Dd) -> Dd {
    if x <= Dd::ZERO || y <= Dd::ZERO {
        return Dd::ZERO;
    }
    // between the geometric (K=0) and arithmetic (K=inf) invariants
    let lo = Dd::f(2.0) * (x * y).sqrt();
    let hi = x + y;
    root(lo * Dd::f(1.0 - 1e-15), hi * Dd::f(1.0 + 1e-15), |d| {
        let (f, df) = crypto_f_df(a, g, x, y, d, false);
        (-f, -df)
    })
}
pub fn crypto_y(a: Dd, g: Dd, d: Dd, x: Dd) -> Dd {
    // F grows in y around the solution; y lies between D^2/4x (K=0) and D-x (K=inf)
    let p = d * d / (Dd::f(4.0) * x);
    let q = d - x;
    let (lo, hi) = if q < p { (q, p) } else { (p, q) };
    let lo = if lo <= Dd::ZERO { Dd::f(1e-40) } else { lo * Dd::f(1.0 - 1e-15) };
    root(lo, hi * Dd::f(1.0 + 1e-15), |y| crypto_f_df(a, g, x, y, d, true))
}
/// F and its derivative by D (`by_y` false) or by the second balance
fn crypto_f_df(a: Dd, g: Dd, x: Dd, y: Dd, d: Dd, by_y: bool) -> (Dd, Dd) {
    let two = Dd::f(2.0);
    let d2 = d * d;
    let k0 = Dd::f(4.0) * x * y / d2;
    let q = g + Dd::ONE - k0;
    let k = a * k0 * g * g / (q * q);
    let f = k * d * (x + y) + x * y - k * d2 - d2 / Dd::f(4.0);
    // dK/dk0 = K/k0 * (q + 2 k0)/q
    let kk = k / k0 * (q + two * k0) / q;
    let df = if by_y {
        let kp = kk * k0 / y;
        kp * d * (x + y) + k * d + x - kp * d2
    } else {
        let kp = -kk * two * k0 / d;
        kp * d * (x + y) + k * (x + y) - kp * d2 - two * k * d - d / two
    };
    (f, df)
}
/// the iterations with the absolute stopping rule the contract documents: (value, converged)
pub fn crypto_d_iter(a: Dd, g: Dd, x: Dd, y: Dd) -> (Dd, bool) {
    let mut d = Dd::f(2.0) * (x * y).sqrt();
    for _ in 0..64 {
        let (f, df) = crypto_f_df(a, g, x, y, d, false);
        let n = d - f / df;
        if (n - d).abs() <= Dd::f(1e-5) {
            return (n, true);
        }
        d = n;
    }
    (d, false)
}
pub fn crypto_y_iter(a: Dd, g: Dd, d: Dd, x: Dd) -> (Dd, bool) {
    let mut y = d * d / (Dd::f(4.0) * x);
    for _ in 0..64 {
        let (f, df) = crypto_f_df(a, g, x, y, d, true);
        let n = y - f / df;
        if (n - y).abs() <= Dd::f(1e-5) {
            return (n, true);
        }
        y = n;
    }
    (y, false)
}
#[test]
fn check() {
    assert_eq!(Dd::u(u128::MAX).raw(0).to(), u128::MAX as f64);
    let a = Dd::f(40.0);
    let g = Dd::dec("0.000145");
    let d = crypto_d(a, g, Dd::f(100.0), Dd::f(120.0));
    let y = crypto_y(a, g, d, Dd::f(100.0));
    assert!((y - Dd::f(120.0)).abs() < Dd::f(1e-20), "{y:?}");
    let d = stable_d(Dd::f(200.0), Dd::f(100.0), Dd::f(3.0));
    let y = stable_y(Dd::f(200.0), d, Dd::f(100.0));
    assert!((y - Dd::f(3.0)).abs() < Dd::f(1e-20), "{y:?}");
}
