//! One interface over the library's storage kinds.
use crate::algs::DA;
use crate::refalg::Ref;
use crate::rings::*;
use ndarray::Array1;
use num::{One, Zero};
use std::fmt::Debug;
use std::marker::PhantomData;
use tclifford::types::{DivRing, WedgeProduct};
use tclifford::{ClError, Multivector, SparseMultivector};

pub trait Lib: Sized {
    type T: Coef;
    type A: DA;
    type M: Clone + PartialEq + Debug;
    const KIND: &'static str;
    fn name() -> String {
        format!("{}/{}/{}", Self::A::NAME, Self::T::NAME, Self::KIND)
    }
    fn zero() -> Self::M;
    fn dflt() -> Self::M;
    fn one() -> Self::M;
    fn is_zero(m: &Self::M) -> bool;
    fn from_scalar(c: Self::T) -> Self::M;
    fn from_vector(v: Vec<Self::T>) -> Result<Self::M, ClError>;
    fn from_vector_ref(v: &[Self::T]) -> Result<Self::M, ClError>;
    fn from_indexed(v: Vec<(usize, Self::T)>) -> Result<Self::M, ClError>;
    fn from_indexed_ref(v: &[(usize, Self::T)]) -> Result<Self::M, ClError>;
    fn get(m: &Self::M, i: usize) -> Self::T;
    fn set(m: Self::M, i: usize, c: Self::T) -> Self::M;
    fn scalar_part(m: &Self::M) -> Self::T;
    fn enumerate(m: &Self::M) -> Vec<(usize, Self::T)>;
    fn grade_enumerate(m: &Self::M, g: usize) -> Vec<(usize, Self::T)>;
    fn grade_extract(m: &Self::M, g: usize) -> Self::M;
    fn extract_vector(m: &Self::M) -> Array1<Self::T>;
    /// form: bit 0 = left by reference, bit 1 = right by reference
    fn add(a: &Self::M, b: &Self::M, form: usize) -> Self::M;
    fn sub(a: &Self::M, b: &Self::M, form: usize) -> Self::M;
    fn mul(a: &Self::M, b: &Self::M, form: usize) -> Self::M;
    fn scale(a: &Self::M, c: &Self::T, form: usize) -> Self::M;
    fn neg(a: &Self::M, form: usize) -> Self::M;
    fn naive_mul(a: &Self::M, b: &Self::M) -> Self::M;
    fn naive_wedge(a: &Self::M, b: &Self::M) -> Self::M;
    fn naive_meet(a: &Self::M, b: &Self::M) -> Self::M;
    fn wedge(a: &Self::M, b: &Self::M) -> Self::M;
    fn meet(a: &Self::M, b: &Self::M) -> Self::M;
    fn rev(a: &Self::M) -> Self::M;
    fn flip(a: &Self::M) -> Self::M;
    fn flip_subspace(a: &Self::M, m: usize) -> Self::M;
    fn dual(a: &Self::M) -> Self::M;
    fn undual(a: &Self::M) -> Self::M;
    fn vsdot(a: &Self::M, b: &Self::M) -> Self::T;
    fn vdot(a: &Self::M, b: &Self::M) -> Self::T;
    fn mag2(a: &Self::M) -> Self::T;
    fn pow(a: &Self::M, n: usize) -> Self::M;
    fn to_dense(a: &Self::M) -> Multivector<Self::T, Self::A>;
    fn to_sparse(a: &Self::M) -> SparseMultivector<Self::T, Self::A>;
    fn of_dense(a: &Multivector<Self::T, Self::A>) -> Self::M;
    fn of_sparse(a: &SparseMultivector<Self::T, Self::A>) -> Self::M;
    fn grade_extract_dense(a: &Self::M, g: usize) -> Multivector<Self::T, Self::A>;
    fn grade_extract_sparse(a: &Self::M, g: usize) -> SparseMultivector<Self::T, Self::A>;
    fn can_densify() -> bool {
        Self::A::SIG.len() <= 16
    }

    // ---- glue
    fn from_ref(m: &Ref<Self::T>) -> Self::M {
        let mut r = Self::zero();
        for (i, c) in m {
            r = Self::set(r, *i, c.clone());
        }
        r
    }
    /// compare all coefficients through `get`, and outside the support of `want`
    fn diff(m: &Self::M, want: &Ref<Self::T>) -> Result<(), String> {
        let d = Self::A::SIG.len();
        if d <= 10 {
            for i in 0..(1usize << d) {
                let w = crate::refalg::rget(want, i);
                let g = Self::get(m, i);
                if !g.same(&w) {
                    return Err(format!("coefficient {i:#b}: expected {w:?}, got {g:?}"));
                }
            }
        } else {
            for (i, w) in want {
                let g = Self::get(m, *i);
                if !g.same(w) {
                    return Err(format!("coefficient {i:#b}: expected {w:?}, got {g:?}"));
                }
            }
            for (i, g) in Self::enumerate(m) {
                let w = crate::refalg::rget(want, i);
                if !g.same(&w) {
                    return Err(format!("coefficient {i:#b}: expected {w:?}, got {g:?}"));
                }
            }
        }
        Ok(())
    }
}


pub struct Dense<T, A>(PhantomData<(T, A)>);

pub struct Sparse<T, A>(PhantomData<(T, A)>);

pub struct Quat<T>(PhantomData<T>);

#[macro_export]
macro_rules! four {
    ($a:expr, $b:expr, $f:expr, $op:tt) => {
        match $f & 3 {
            0 => $a.clone() $op $b.clone(),
            1 => $a $op $b.clone(),
            2 => $a.clone() $op $b,
            _ => $a $op $b,
        }
    };
}

macro_rules! lib_body {
    ($mv:ty, $t:ty, $a:ty) => {
        type T = $t;
        type A = $a;
        type M = $mv;
        fn zero() -> $mv {
            <$mv as Zero>::zero()
        }
        fn dflt() -> $mv {
            <$mv as Default>::default()
        }
        fn one() -> $mv {
            <$mv as One>::one()
        }
        fn is_zero(m: &$mv) -> bool {
            Zero::is_zero(m)
        }
        fn from_scalar(c: $t) -> $mv {
            <$mv>::from_scalar(c)
        }
        fn from_vector(v: Vec<$t>) -> Result<$mv, ClError> {
            <$mv>::from_vector(v)
        }
        fn from_vector_ref(v: &[$t]) -> Result<$mv, ClError> {
            <$mv>::from_vector_ref(v.iter())
        }
        fn from_indexed(v: Vec<(usize, $t)>) -> Result<$mv, ClError> {
            <$mv>::from_indexed_iter(v.into_iter())
        }
        fn from_indexed_ref(v: &[(usize, $t)]) -> Result<$mv, ClError> {
            <$mv>::from_indexed_iter_ref(v.iter().map(|(i, c)| (*i, c)))
        }
        fn get(m: &$mv, i: usize) -> $t {
            m.get_by_idx(i)
        }
        fn set(m: $mv, i: usize, c: $t) -> $mv {
            m.set_by_idx(i, c)
        }
        fn scalar_part(m: &$mv) -> $t {
            m.scalar_part()
        }
        fn enumerate(m: &$mv) -> Vec<(usize, $t)> {
            m.coeff_enumerate().map(|(i, c)| (i, c.clone())).collect()
        }
        fn grade_enumerate(m: &$mv, g: usize) -> Vec<(usize, $t)> {
            m.grade_enumerate(g).map(|(i, c)| (i, c.clone())).collect()
        }
        fn grade_extract(m: &$mv, g: usize) -> $mv {
            m.grade_extract(g)
        }
        fn extract_vector(m: &$mv) -> Array1<$t> {
            m.extract_vector()
        }
        fn add(a: &$mv, b: &$mv, form: usize) -> $mv {
            four!(a, b, form, +)
        }
        fn sub(a: &$mv, b: &$mv, form: usize) -> $mv {
            four!(a, b, form, -)
        }
        fn mul(a: &$mv, b: &$mv, form: usize) -> $mv {
            four!(a, b, form, *)
        }
        fn scale(a: &$mv, b: &$t, form: usize) -> $mv {
            four!(a, b, form, *)
        }
        fn neg(a: &$mv, form: usize) -> $mv {
            if form & 1 == 0 {
                -a.clone()
            } else {
                -a
            }
        }
        fn naive_mul(a: &$mv, b: &$mv) -> $mv {
            a.naive_mul_impl(b)
        }
        fn naive_wedge(a: &$mv, b: &$mv) -> $mv {
            a.naive_wedge_impl(b)
        }
        fn naive_meet(a: &$mv, b: &$mv) -> $mv {
            a.naive_meet_impl(b)
        }
        fn rev(a: &$mv) -> $mv {
            a.rev()
        }
        fn flip(a: &$mv) -> $mv {
            a.flip()
        }
        fn flip_subspace(a: &$mv, m: usize) -> $mv {
            a.flip_subspace(m)
        }
        fn dual(a: &$mv) -> $mv {
            a.dual()
        }
        fn undual(a: &$mv) -> $mv {
            a.undual()
        }
        fn vsdot(a: &$mv, b: &$mv) -> $t {
            a.vsdot(b)
        }
        fn vdot(a: &$mv, b: &$mv) -> $t {
            a.vdot(b)
        }
        fn mag2(a: &$mv) -> $t {
            a.mag2()
        }
        fn pow(a: &$mv, n: usize) -> $mv {
            a.pow(n)
        }
        fn to_dense(a: &$mv) -> Multivector<$t, $a> {
            a.to_storage_type()
        }
        fn to_sparse(a: &$mv) -> SparseMultivector<$t, $a> {
            a.to_storage_type()
        }
        fn of_dense(a: &Multivector<$t, $a>) -> $mv {
            a.to_storage_type()
        }
        fn of_sparse(a: &SparseMultivector<$t, $a>) -> $mv {
            a.to_storage_type()
        }
        fn grade_extract_dense(a: &$mv, g: usize) -> Multivector<$t, $a> {
            a.grade_extract_as(g)
        }
        fn grade_extract_sparse(a: &$mv, g: usize) -> SparseMultivector<$t, $a> {
            a.grade_extract_as(g)
        }
    };
}
macro_rules! wedge_own {
    ($mv:ty) => {
        fn wedge(a: &$mv, b: &$mv) -> $mv {
            WedgeProduct::wedge(a, b)
        }
        fn meet(a: &$mv, b: &$mv) -> $mv {
            WedgeProduct::meet(a, b)
        }
    };
}
impl<T: Coef, A: DA + Debug> Lib for Dense<T, A> {
    const KIND: &'static str = "dense";
    lib_body!(Multivector<T, A>, T, A);
    wedge_own!(Multivector<T, A>);
}
impl<T: Coef, A: DA + Debug> Lib for Sparse<T, A> {
    const KIND: &'static str = "sparse";
    lib_body!(SparseMultivector<T, A>, T, A);
    wedge_own!(SparseMultivector<T, A>);
}
type Qt<T> = tclifford::quaternion::Quaternion<T>;
impl DA for tclifford::quaternion::QuaternionAlgebra {
    const NAME: &'static str = "QuaternionAlgebra[--]";
    const SIG: &'static [i8] = &[-1, -1];
}
impl<T: Coef + DivRing + Copy> Lib for Quat<T> {
    const KIND: &'static str = "quaternion";
    lib_body!(Qt<T>, T, tclifford::quaternion::QuaternionAlgebra);
    fn wedge(a: &Qt<T>, b: &Qt<T>) -> Qt<T> {
        a.naive_wedge_impl(b)
    }
    fn meet(a: &Qt<T>, b: &Qt<T>) -> Qt<T> {
        a.naive_meet_impl(b)
    }
}

/// call `$f::<L>(&mut $run)` for every combination of ring, algebra and storage of a list
#[macro_export]
macro_rules! for_libs {
    ($run:ident, $f:ident) => {
        macro_rules! both_i64 {
            ($a:ident) => {
                $f::<Dense<i64, $a>>(&mut $run);
                $f::<Sparse<i64, $a>>(&mut $run);
            };
        }
        macro_rules! both_m2 {
            ($a:ident) => {
                $f::<Dense<M2, $a>>(&mut $run);
                $f::<Sparse<M2, $a>>(&mut $run);
            };
        }
        macro_rules! sparse_i64 {
            ($a:ident) => {
                $f::<Sparse<i64, $a>>(&mut $run);
            };
        }
        for_algs!(some, both_i64);
        for_algs!(@ both_m2 A1m A2p0 A3pm0 A4st A6b A7b);
        for_algs!(big, sparse_i64);
        $f::<Sparse<M2, A33a>>(&mut $run);
        $f::<Dense<i64, A9a>>(&mut $run);
        $f::<Dense<f64, A4pga>>(&mut $run);
        $f::<Sparse<f32, A3mpm>>(&mut $run);
        $f::<Dense<Complex64, A5b>>(&mut $run);
        $f::<Sparse<Complex32, A2pm>>(&mut $run);
        $f::<Dense<Q64, A2pm>>(&mut $run);
        $f::<Sparse<Q64, A3pm0>>(&mut $run);
        $f::<Quat<f64>>(&mut $run);
        $f::<Quat<Fp>>(&mut $run);
        $f::<Quat<Complex64>>(&mut $run);
        $f::<Quat<Q64>>(&mut $run);
    };
}
/// number of random coefficients that keeps the reference affordable
pub fn terms<L: Lib>() -> usize {
    match L::A::SIG.len() {
        0..=5 => 32,
        6 => 24,
        7..=9 => 16,
        _ => 8,
    }
}
/// a multivector through one of the ways of building it, with its reference
pub fn gen_mv<L: Lib>(r: &mut Rng) -> (L::M, Ref<L::T>) {
    let d = L::A::SIG.len();
    let a = crate::refalg::rgen::<L::T>(r, d, terms::<L>());
    let m = match r.below(3) {
        0 => L::from_ref(&a),
        1 => L::from_indexed(a.iter().map(|(i, c)| (*i, c.clone())).collect()).expect("valid pairs rejected"),
        _ => {
            // overwritten and cancelled entries
            let mut m = L::zero();
            for _ in 0..4 {
                m = L::set(m, r.idx(d), L::T::gen(r));
            }
            for (i, _) in L::enumerate(&m) {
                m = L::set(m, i, L::T::zero());
            }
            for (i, c) in a.iter().rev() {
                m = L::set(m, *i, c.clone());
            }
            m
        }
    };
    (m, a)
}

/// a second operand, in half of the cases one related to the first operand
pub fn gen_rel<L: Lib>(r: &mut Rng, ra: &Ref<L::T>) -> (L::M, Ref<L::T>) {
    let d = L::A::SIG.len();
    let full = (1usize << d) - 1;
    let b: Ref<L::T> = match r.below(16) {
        // the same, by construction and by value
        0 | 1 => ra.clone(),
        // the negative
        2 => ra.iter().map(|(i, c)| (*i, c.negr())).collect(),
        // signs of the reversal and of the parity flip
        3 => ra.iter().map(|(i, c)| (*i, if i.count_ones() & 2 != 0 { c.negr() } else { c.clone() })).collect(),
        4 => ra.iter().map(|(i, c)| (*i, if i.count_ones() & 1 != 0 { c.negr() } else { c.clone() })).collect(),
        // complementary blades
        5 => ra.iter().map(|(i, c)| (full ^ *i, c.clone())).collect(),
        // the same blades with other coefficients
        6 => ra.keys().map(|i| (*i, L::T::nonzero(r))).collect(),
        // all but one of the terms, or one more
        7 => {
            let mut b = ra.clone();
            let k = b.keys().next().copied();
            match k {
                Some(k) if r.chance(1, 2) => {
                    b.remove(&k);
                }
                _ => {
                    b.insert(r.idx(d), L::T::nonzero(r));
                }
            }
            b
        }
        _ => return gen_mv::<L>(r),
    };
    let b = crate::refalg::norm(b);
    (L::from_ref(&b), b)
}
