//! Coefficient rings with exact arithmetic and a deterministic generator.
use num::complex::{Complex32, Complex64};
use num::{One, Zero};
use std::fmt::Debug;
use std::ops::{Add, Div, Mul, Neg, Sub};
use tclifford::types::{DivRing, Ring};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        let mut r = Rng(s ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn idx(&mut self, dim: usize) -> usize {
        (self.next() as usize) & ((1usize << dim) - 1)
    }
}

/// A coefficient type with generator. Every listed ring is exact for the small values used here.
pub trait Coef: Ring + Clone + Debug + 'static {
    const NAME: &'static str;
    const COMMUTATIVE: bool;
    fn gen(r: &mut Rng) -> Self;
    fn nonzero(r: &mut Rng) -> Self {
        loop {
            let x = Self::gen(r);
            if !x.is_zero() {
                return x;
            }
        }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn addr(&self, o: &Self) -> Self;
    fn subr(&self, o: &Self) -> Self;
    fn mulr(&self, o: &Self) -> Self;
    fn negr(&self) -> Self;
}

/// operations of the reference: never those of the library's own multivector types
macro_rules! own_ops {
    () => {
        fn addr(&self, o: &Self) -> Self {
            self.clone() + o.clone()
        }
        fn subr(&self, o: &Self) -> Self {
            self.clone() - o.clone()
        }
        fn mulr(&self, o: &Self) -> Self {
            self.clone() * o.clone()
        }
        fn negr(&self) -> Self {
            -self.clone()
        }
    };
}

impl Coef for i64 {
    const NAME: &'static str = "i64";
    const COMMUTATIVE: bool = true;
    fn gen(r: &mut Rng) -> Self {
        match r.below(10) {
            0 => 0,
            1 => 1,
            2 => -1,
            _ => r.int(-9, 9),
        }
    }
    own_ops!();
}
impl Coef for f64 {
    const NAME: &'static str = "f64";
    const COMMUTATIVE: bool = true;
    fn gen(r: &mut Rng) -> Self {
        if r.chance(1, 6) {
            return 0.0;
        }
        r.int(-8, 8) as f64
    }
    own_ops!();
}
impl Coef for f32 {
    const NAME: &'static str = "f32";
    const COMMUTATIVE: bool = true;
    fn gen(r: &mut Rng) -> Self {
        r.int(-4, 4) as f32
    }
    own_ops!();
}
impl Coef for Complex64 {
    const NAME: &'static str = "Complex64";
    const COMMUTATIVE: bool = true;
    fn gen(r: &mut Rng) -> Self {
        match r.below(8) {
            0 => Complex64::new(0., 0.),
            1 => Complex64::new(0., r.int(-5, 5) as f64),
            2 => Complex64::new(r.int(-5, 5) as f64, 0.),
            _ => Complex64::new(r.int(-5, 5) as f64, r.int(-5, 5) as f64),
        }
    }
    own_ops!();
}
impl Coef for Complex32 {
    const NAME: &'static str = "Complex32";
    const COMMUTATIVE: bool = true;
    fn gen(r: &mut Rng) -> Self {
        Complex32::new(r.int(-3, 3) as f32, r.int(-3, 3) as f32)
    }
    own_ops!();
}

/// 2x2 integer matrices: not commutative, with zero divisors.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct M2(pub [i64; 4]);
impl M2 {
    fn mm(&self, o: &M2) -> M2 {
        let (a, b) = (&self.0, &o.0);
        M2([
            a[0].wrapping_mul(b[0]).wrapping_add(a[1].wrapping_mul(b[2])),
            a[0].wrapping_mul(b[1]).wrapping_add(a[1].wrapping_mul(b[3])),
            a[2].wrapping_mul(b[0]).wrapping_add(a[3].wrapping_mul(b[2])),
            a[2].wrapping_mul(b[1]).wrapping_add(a[3].wrapping_mul(b[3])),
        ])
    }
    fn zip(&self, o: &M2, f: impl Fn(i64, i64) -> i64) -> M2 {
        M2([f(self.0[0], o.0[0]), f(self.0[1], o.0[1]), f(self.0[2], o.0[2]), f(self.0[3], o.0[3])])
    }
}
/// Integers modulo a prime: an exact field.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Fp(pub u64);
pub const P: u64 = 1_000_000_007;
impl Fp {
    pub fn inv(&self) -> Fp {
        let (mut b, mut e, mut r) = (self.0, P - 2, 1u64);
        while e > 0 {
            if e & 1 == 1 {
                r = r * b % P;
            }
            b = b * b % P;
            e >>= 1;
        }
        Fp(r)
    }
}
macro_rules! ring_ops {
    ($t:ty, $a:ident, $b:ident, $add:expr, $sub:expr, $mul:expr, $neg:expr) => {
        impl Add for $t {
            type Output = $t;
            fn add(self, o: $t) -> $t {
                let ($a, $b) = (&self, &o);
                $add
            }
        }
        impl<'x> Add<&'x $t> for &'x $t {
            type Output = $t;
            fn add(self, o: &$t) -> $t {
                let ($a, $b) = (self, o);
                $add
            }
        }
        impl Sub for $t {
            type Output = $t;
            fn sub(self, o: $t) -> $t {
                let ($a, $b) = (&self, &o);
                $sub
            }
        }
        impl<'x> Sub<&'x $t> for &'x $t {
            type Output = $t;
            fn sub(self, o: &$t) -> $t {
                let ($a, $b) = (self, o);
                $sub
            }
        }
        impl Mul for $t {
            type Output = $t;
            fn mul(self, o: $t) -> $t {
                let ($a, $b) = (&self, &o);
                $mul
            }
        }
        impl<'x> Mul<&'x $t> for &'x $t {
            type Output = $t;
            fn mul(self, o: &$t) -> $t {
                let ($a, $b) = (self, o);
                $mul
            }
        }
        impl Neg for $t {
            type Output = $t;
            fn neg(self) -> $t {
                let $a = &self;
                $neg
            }
        }
        impl<'x> Neg for &'x $t {
            type Output = $t;
            fn neg(self) -> $t {
                let $a = self;
                $neg
            }
        }
    };
}
ring_ops!(
    M2,
    a,
    b,
    a.zip(b, |x, y| x.wrapping_add(y)),
    a.zip(b, |x, y| x.wrapping_sub(y)),
    a.mm(b),
    M2([a.0[0].wrapping_neg(), a.0[1].wrapping_neg(), a.0[2].wrapping_neg(), a.0[3].wrapping_neg()])
);
ring_ops!(
    Fp,
    a,
    b,
    Fp((a.0 + b.0) % P),
    Fp((a.0 + P - b.0) % P),
    Fp(a.0 * b.0 % P),
    Fp((P - a.0) % P)
);
impl Div for Fp {
    type Output = Fp;
    fn div(self, o: Fp) -> Fp {
        if o.0 == 0 {
            panic!("division by zero in an exact field");
        }
        Fp(self.0 * o.inv().0 % P)
    }
}
impl<'x> Div<&'x Fp> for &'x Fp {
    type Output = Fp;
    fn div(self, o: &Fp) -> Fp {
        *self / *o
    }
}
impl Zero for M2 {
    fn zero() -> Self {
        M2([0; 4])
    }
    fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
}
impl One for M2 {
    fn one() -> Self {
        M2([1, 0, 0, 1])
    }
}
impl Zero for Fp {
    fn zero() -> Self {
        Fp(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for Fp {
    fn one() -> Self {
        Fp(1)
    }
}
impl Coef for M2 {
    const NAME: &'static str = "M2";
    const COMMUTATIVE: bool = false;
    fn gen(r: &mut Rng) -> Self {
        match r.below(8) {
            0 => M2::zero(),
            1 => M2([0, 1, 0, 0]),
            2 => M2([0, 0, 1, 0]),
            3 => M2::one(),
            _ => M2([r.int(-3, 3), r.int(-3, 3), r.int(-3, 3), r.int(-3, 3)]),
        }
    }
    own_ops!();
}
impl Coef for Fp {
    const NAME: &'static str = "Fp";
    const COMMUTATIVE: bool = true;
    fn gen(r: &mut Rng) -> Self {
        match r.below(8) {
            0 => Fp(0),
            1 => Fp(1),
            2 => Fp(P - 1),
            3 => Fp(r.below(20) as u64),
            _ => Fp(r.next() % P),
        }
    }
    own_ops!();
}
/// Quaternions over f64 as coefficients (nested, not commutative, with division).
pub type Q64 = tclifford::quaternion::Quaternion<f64>;
fn q4(q: &Q64) -> [f64; 4] {
    [q.get_by_idx(0), q.get_by_idx(1), q.get_by_idx(2), q.get_by_idx(3)]
}
fn qm(v: [f64; 4]) -> Q64 {
    Q64::zero().set_by_idx(0, v[0]).set_by_idx(1, v[1]).set_by_idx(2, v[2]).set_by_idx(3, v[3])
}
impl Coef for Q64 {
    const NAME: &'static str = "Quaternion<f64>";
    const COMMUTATIVE: bool = false;
    fn gen(r: &mut Rng) -> Self {
        if r.chance(1, 6) {
            return Q64::zero();
        }
        qm([r.int(-3, 3) as f64, r.int(-3, 3) as f64, r.int(-3, 3) as f64, r.int(-3, 3) as f64])
    }
    fn addr(&self, o: &Self) -> Self {
        let (a, b) = (q4(self), q4(o));
        qm([a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]])
    }
    fn subr(&self, o: &Self) -> Self {
        let (a, b) = (q4(self), q4(o));
        qm([a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3]])
    }
    fn mulr(&self, o: &Self) -> Self {
        // e1 = I, e2 = J, e3 = J I (blades are written in descending order)
        let (a, b) = (q4(self), q4(o));
        qm([
            a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + a[1] * b[0] + a[2] * b[3] * qs(2, 3) + a[3] * b[2] * qs(3, 2),
            a[0] * b[2] + a[2] * b[0] + a[1] * b[3] * qs(1, 3) + a[3] * b[1] * qs(3, 1),
            a[0] * b[3] + a[3] * b[0] + a[1] * b[2] * qs(1, 2) + a[2] * b[1] * qs(2, 1),
        ])
    }
    fn negr(&self) -> Self {
        let a = q4(self);
        qm([-a[0], -a[1], -a[2], -a[3]])
    }
}
fn qs(a: usize, b: usize) -> f64 {
    crate::refalg::geo_sign(&[-1, -1], a, b) as f64
}
pub trait Field: Coef + DivRing + Copy {
    fn divr(&self, o: &Self) -> Self {
        self.clone() / o.clone()
    }
}
impl Field for f64 {}
impl Field for Fp {}
impl Field for Complex64 {}
