use num::Zero;
use std::fmt::Debug;
use tclifford::{Multivector, SparseMultivector};
use vdriver::*;

fn suite<L: Lib>(run: &mut Run) {
    let d = L::A::SIG.len();
    run.group(&format!("linear {}", L::name()), 12, |r, k| {
        let (a, ra) = gen_mv::<L>(r);
        let (mut b, mut rb) = gen_rel::<L>(r, &ra);
        if k % 3 == 0 {
            // make some coefficients cancel
            for (i, c) in ra.iter().take(1 + r.below(4)) {
                let c = if r.chance(1, 2) { c.clone() } else { c.negr() };
                b = L::set(b, *i, c.clone());
                rb.insert(*i, c);
            }
            rb = norm(rb);
        }
        let c = if r.chance(1, 5) { L::T::zero() } else { L::T::gen(r) };
        let ctx = || format!("a={ra:?} b={rb:?} c={c:?}");
        for f in 0..4 {
            L::diff(&L::add(&a, &b, f), &radd(&ra, &rb)).map_err(|e| format!("a+b form {f}, {}: {e}", ctx()))?;
            L::diff(&L::sub(&a, &b, f), &rsub(&ra, &rb)).map_err(|e| format!("a-b form {f}, {}: {e}", ctx()))?;
            L::diff(&L::scale(&a, &c, f), &rmap(&ra, |i, x| (i, x.mulr(&c)))).map_err(|e| format!("a*c form {f}, {}: {e}", ctx()))?;
        }
        for f in 0..2 {
            L::diff(&L::neg(&a, f), &rneg(&ra)).map_err(|e| format!("-a form {f}, {}: {e}", ctx()))?;
        }
        let s = L::add(&a, &b, 3);
        chk!(L::is_zero(&s) == radd(&ra, &rb).is_empty(), "is_zero of a+b, {}", ctx());
        chk!(L::is_zero(&a) == ra.is_empty(), "is_zero of a, {}", ctx());
        let z = L::sub(&a, &a, 3);
        chk!(L::is_zero(&z) && z == L::zero(), "a-a is not zero, {}", ctx());
        chk!(L::is_zero(&L::zero()) && L::is_zero(&L::dflt()), "zero is not zero");
        chk!(L::add(&a, &L::zero(), 3) == a && L::add(&L::zero(), &a, 3) == a, "zero is not neutral, {}", ctx());
        // one non-zero coefficient is enough
        let i = r.idx(d);
        let m = L::set(L::zero(), i, L::T::nonzero(r));
        chk!(!L::is_zero(&m), "is_zero with a coefficient at {i:#b}");
        L::diff(&a, &ra).map_err(|e| format!("left operand changed: {e}"))?;
        L::diff(&b, &rb).map_err(|e| format!("right operand changed: {e}"))
    });
}

macro_rules! quotient {
    ($run:ident, $n:expr, $mv:ty, $L:ty, $t:ty) => {
        $run.group(&format!("quotient {}", $n), 10, |r, _| {
            let (a, ra) = gen_mv::<$L>(r);
            let c = <$t as Coef>::nonzero(r);
            let a: $mv = a;
            let want = rmap(&ra, |i, x| (i, Field::divr(x, &c)));
            let q: [$mv; 4] = [&a / &c, &a / c.clone(), a.clone() / &c, a.clone() / c.clone()];
            for (f, q) in q.iter().enumerate() {
                <$L>::diff(q, &want).map_err(|e| format!("a/c form {f}, a={ra:?} c={c:?}: {e}"))?;
            }
            <$L>::diff(&a, &ra)
        });
    };
}
fn div_suite<T: Field + num::Zero, A: DA + Debug>(run: &mut Run) {
    quotient!(run, <Dense<T, A>>::name(), Multivector<T, A>, Dense<T, A>, T);
    quotient!(run, <Sparse<T, A>>::name(), SparseMultivector<T, A>, Sparse<T, A>, T);
}

fn main() {
    let mut run = Run::from_args("C08");
    for_libs!(run, suite);
    div_suite::<Fp, A3pm0>(&mut run);
    div_suite::<Fp, A6a>(&mut run);
    div_suite::<f64, A4pga>(&mut run);
    div_suite::<Complex64, A2pm>(&mut run);
    div_suite::<Complex64, A5b>(&mut run);
    quotient!(run, "quaternion Fp", tclifford::quaternion::Quaternion<Fp>, Quat<Fp>, Fp);
    quotient!(run, "quaternion f64", tclifford::quaternion::Quaternion<f64>, Quat<f64>, f64);
    run.finish();
}
