use num::complex::ComplexFloat;
use num::{One, Zero};
use std::fmt::Debug;
use tclifford::{Multivector, SparseMultivector};
use vdriver::*;

fn suite<L: Lib>(run: &mut Run) {
    let sig = L::A::SIG;
    run.group(&format!("products {}", L::name()), 14, |r, k| {
        let (a, ra) = gen_mv::<L>(r);
        let (b, rb) = if k % 2 == 0 {
            gen_rel::<L>(r, &ra)
        } else {
            // same support, other values
            let rb: Ref<L::T> = norm(ra.keys().map(|i| (*i, L::T::gen(r))).collect());
            (L::from_ref(&rb), rb)
        };
        let ctx = || format!("a={ra:?} b={rb:?}");
        let want = rget(&rgeo(sig, &ra, &rb), 0);
        chk!(L::vdot(&a, &b).same(&want), "vdot, {}: expected {want:?}, got {:?}", ctx(), L::vdot(&a, &b));
        let want = ra.iter().fold(L::T::zero(), |s, (i, c)| s.addr(&c.mulr(&rget(&rb, *i))));
        chk!(L::vsdot(&a, &b).same(&want), "vsdot, {}: expected {want:?}, got {:?}", ctx(), L::vsdot(&a, &b));
        let want = rget(&rgeo(sig, &rrev(&ra), &ra), 0);
        chk!(L::mag2(&a).same(&want), "mag2, {}: expected {want:?}, got {:?}", ctx(), L::mag2(&a));
        L::diff(&a, &ra).map_err(|e| format!("left operand changed: {e}"))?;
        L::diff(&b, &rb).map_err(|e| format!("right operand changed: {e}"))
    });
}

macro_rules! norms {
    ($run:ident, $n:expr, $mv:ty, $L:ty, $t:ty) => {
        $run.group(&format!("normalised reverse {}", $n), 10, |r, _| {
            let (a, ra) = gen_mv::<$L>(r);
            let a: $mv = a;
            let m = rget(&rgeo(<$L as Lib>::A::SIG, &rrev(&ra), &ra), 0);
            if !m.is_zero() {
                let want = rmap(&rrev(&ra), |i, c| (i, Field::divr(c, &m)));
                <$L>::diff(&a.revm(), &want).map_err(|e| format!("revm of {ra:?}: {e}"))?;
            }
            Ok(())
        });
    };
}
macro_rules! cnorms {
    ($run:ident, $n:expr, $mv:ty, $L:ty, $t:ty) => {
        $run.group(&format!("conjugated {}", $n), 14, |r, _| {
            let (a, ra) = gen_mv::<$L>(r);
            let a: $mv = a;
            let rc = rmap(&rrev(&ra), |i, c| (i, ComplexFloat::conj(*c)));
            let m: $t = rget(&rgeo(<$L as Lib>::A::SIG, &rc, &ra), 0);
            chk!(a.cmag2() == m, "cmag2 of {ra:?}: expected {m:?}, got {:?}", a.cmag2());
            <$L>::diff(&a.revc(), &rc).map_err(|e| format!("revc of {ra:?}: {e}"))?;
            if !m.is_zero() {
                let want = rmap(&rc, |i, c| (i, *c / m));
                <$L>::diff(&a.revcm(), &want).map_err(|e| format!("revcm of {ra:?}: {e}"))?;
            }
            <$L>::diff(&a, &ra).map_err(|e| format!("operand changed: {e}"))
        });
    };
}
fn field_suite<T: Field, A: DA + Debug>(run: &mut Run) {
    norms!(run, <Dense<T, A>>::name(), Multivector<T, A>, Dense<T, A>, T);
    norms!(run, <Sparse<T, A>>::name(), SparseMultivector<T, A>, Sparse<T, A>, T);
}
fn complex_suite<T: Coef + ComplexFloat + tclifford::types::DivRing, A: DA + Debug>(run: &mut Run) {
    cnorms!(run, <Dense<T, A>>::name(), Multivector<T, A>, Dense<T, A>, T);
    cnorms!(run, <Sparse<T, A>>::name(), SparseMultivector<T, A>, Sparse<T, A>, T);
}

fn main() {
    let mut run = Run::from_args("C11");
    for_libs!(run, suite);
    field_suite::<Fp, A3pm0>(&mut run);
    field_suite::<Fp, A2mm>(&mut run);
    field_suite::<Fp, A6b>(&mut run);
    field_suite::<Fp, A7b>(&mut run);
    complex_suite::<Complex64, A1m>(&mut run);
    complex_suite::<Complex64, A3pm0>(&mut run);
    complex_suite::<Complex64, A4st>(&mut run);
    complex_suite::<Complex64, A5a>(&mut run);
    complex_suite::<Complex64, A6b>(&mut run);
    complex_suite::<f64, A4pga>(&mut run);
    norms!(run, "quaternion Fp", tclifford::quaternion::Quaternion<Fp>, Quat<Fp>, Fp);
    cnorms!(run, "quaternion Complex64", tclifford::quaternion::Quaternion<Complex64>, Quat<Complex64>, Complex64);
    let _ = <f64 as One>::one();
    run.finish();
}
