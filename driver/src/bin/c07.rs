use num::Zero;
use tclifford::Norm;
use vdriver::*;

fn suite<L: Lib>(run: &mut Run) {
    let d = L::A::SIG.len();
    let n = 1usize << d;
    run.group(&format!("history {}", L::name()), 12, |r, _| {
        let mut m = if r.chance(1, 2) { L::zero() } else { L::dflt() };
        let mut want: Ref<L::T> = Ref::new();
        let mut touched: Vec<usize> = vec![0, n - 1, n / 2];
        for step in 0..(10 + r.below(40)) {
            let outside = r.chance(1, 6);
            let i = if outside {
                match r.below(4) {
                    0 => n,
                    1 => n + r.below(5),
                    2 => usize::MAX - r.below(3),
                    _ => n | r.idx(d),
                }
            } else if r.chance(1, 3) && !touched.is_empty() {
                touched[r.below(touched.len())]
            } else {
                r.idx(d)
            };
            let c = if r.chance(1, 3) { L::T::zero() } else { L::T::gen(r) };
            let before: Vec<(usize, L::T)> = touched.iter().map(|k| (*k, L::get(&m, *k))).collect();
            m = L::set(m, i, c.clone());
            if i < n {
                want.insert(i, c.clone());
                touched.push(i);
                chk!(L::get(&m, i).same(&c), "step {step}: wrote {c:?} at {i:#b}, read {:?}", L::get(&m, i));
            } else {
                chk!(L::get(&m, i).same(&L::T::zero()), "step {step}: read {:?} outside the algebra at {i:#b}", L::get(&m, i));
            }
            for (k, v) in before {
                if k != i {
                    chk!(L::get(&m, k).same(&v), "step {step}: write at {i:#b} changed {k:#b} from {v:?} to {:?}", L::get(&m, k));
                }
            }
        }
        let want = norm(want);
        L::diff(&m, &want).map_err(|e| format!("after writes {want:?}: {e}"))?;
        for i in [n, n + 1, n + 7, usize::MAX, usize::MAX >> 1, n | 1] {
            if i >= n {
                chk!(L::get(&m, i).same(&L::T::zero()), "read {:?} outside the algebra at {i:#b}", L::get(&m, i));
            }
        }
        // enumeration
        let e = L::enumerate(&m);
        let mut seen = std::collections::BTreeSet::new();
        for (i, c) in &e {
            chk!(*i < n, "enumerated index {i:#b} outside");
            chk!(seen.insert(*i), "index {i:#b} enumerated twice");
            chk!(c.same(&rget(&want, *i)), "enumerated {c:?} at {i:#b}, coefficient is {:?}", rget(&want, *i));
        }
        for i in want.keys() {
            chk!(seen.contains(i), "coefficient {i:#b} not enumerated");
        }
        chk!(L::scalar_part(&m).same(&rget(&want, 0)), "scalar part {:?}", L::scalar_part(&m));
        Ok(())
    });
    run.group(&format!("equality {}", L::name()), 10, |r, _| {
        let (a, ra) = gen_mv::<L>(r);
        let b = L::from_ref(&ra);
        chk!(a == b, "equal coefficients compare unequal: {a:?} {b:?}");
        chk!(b == a, "equal coefficients compare unequal: {b:?} {a:?}");
        let i = r.idx(d);
        let mut c = L::T::gen(r);
        if c.same(&rget(&ra, i)) {
            c = c.addr(&<L::T as num::One>::one());
        }
        let b2 = L::set(b.clone(), i, c.clone());
        chk!(!(a == b2) && !(b2 == a), "multivectors differing at {i:#b} compare equal: {a:?} {b2:?}");
        let z = L::set(a.clone(), i, L::T::zero());
        chk!((a == z) == rget(&ra, i).same(&L::T::zero()), "comparison with zeroed coefficient {i:#b}");
        let cl = a.clone();
        chk!(cl == a, "clone differs");
        let cl = L::set(cl, i, c);
        chk!(L::get(&a, i).same(&rget(&ra, i)) && cl != a, "clone shares coefficients");
        Ok(())
    });
    run.group(&format!("conversion {}", L::name()), 8, |r, _| {
        let (a, ra) = gen_mv::<L>(r);
        let s = L::to_sparse(&a);
        for (i, c) in &ra {
            chk!(s.get_by_idx(*i).same(c), "to sparse: coefficient {i:#b}");
        }
        for (i, c) in s.coeff_enumerate() {
            chk!(c.same(&rget(&ra, i)), "to sparse: coefficient {i:#b}");
        }
        L::diff(&L::of_sparse(&s), &ra).map_err(|e| format!("from sparse: {e}"))?;
        if L::can_densify() {
            let s = L::to_dense(&a);
            for (i, c) in &ra {
                chk!(s.get_by_idx(*i).same(c), "to dense: coefficient {i:#b}");
            }
            for (i, c) in s.coeff_enumerate() {
                chk!(c.same(&rget(&ra, i)), "to dense: coefficient {i:#b}");
            }
            L::diff(&L::of_dense(&s), &ra).map_err(|e| format!("from dense: {e}"))?;
        }
        L::diff(&a, &ra).map_err(|e| format!("operand changed: {e}"))
    });
}

macro_rules! approx {
    ($run:ident, $($L:ty),*) => { $(
        $run.group(&format!("closeness {}", <$L as Lib>::name()), 12, |r, _| {
            let d = <<$L as Lib>::A as DA>::SIG.len();
            let (a, ra) = gen_mv::<$L>(r);
            let mut b = <$L as Lib>::from_ref(&ra);
            for _ in 0..r.below(4) {
                let i = r.idx(d);
                let e = [0.25, 0.5, -1., 1., 3., -1024.][r.below(6)];
                let v = rget(&ra, i) + e;
                b = <$L as Lib>::set(b, i, v);
            }
            let mut worst = 0f64;
            for i in 0..1usize << d {
                worst = worst.max((<$L as Lib>::get(&a, i) - <$L as Lib>::get(&b, i)).norm());
            }
            for p in [0.125, 0.25, 0.375, 0.5, 1., 1.5, 3., 4., 1024., 1e9] {
                chk!(a.approx_eq(&b, p) == (worst < p), "a={a:?} b={b:?} differ by at most {worst}, precision {p}: {}", a.approx_eq(&b, p));
                chk!(b.approx_eq(&a, p) == (worst < p), "b={b:?} a={a:?} differ by at most {worst}, precision {p}: {}", b.approx_eq(&a, p));
            }
            Ok(())
        });
    )* };
}

/// sparse multivectors that store zero coefficients, which only an in-place filter can leave behind
fn stored_zeros<A: DA + std::fmt::Debug>(run: &mut Run) {
    type L<A> = Sparse<i64, A>;
    run.group(&format!("stored zeros {}", A::NAME), 10, |r, _| {
        let d = A::SIG.len();
        let (a, ra) = gen_mv::<L<A>>(r);
        let mut b = a.clone();
        let mut extra = std::collections::BTreeSet::new();
        for _ in 0..1 + r.below(4) {
            let i = r.idx(d);
            if !ra.contains_key(&i) {
                b = b.set_by_idx(i, 7);
                extra.insert(i);
            }
        }
        b.filter_inplace(|i, c| {
            if extra.contains(i) {
                *c = 0;
            }
            true
        });
        L::<A>::diff(&b, &ra).map_err(|e| format!("zeroed {extra:?} in place of {ra:?}: {e}"))?;
        chk!(a == b && b == a, "a={a:?} and b={b:?} with stored zeros compare unequal");
        chk!(b.is_zero() == ra.is_empty(), "is_zero of {b:?}");
        let i = r.idx(d);
        let v = rget(&ra, i);
        let c = a.clone().set_by_idx(i, v + 1);
        chk!(c != b && b != c, "b={b:?} with stored zeros and c={c:?} differing at {i:#b} compare equal");
        let z = a.clone().set_by_idx(i, 0);
        chk!((z == b) == (v == 0) && (b == z) == (v == 0), "b={b:?} with stored zeros compared with {z:?}");
        L::<A>::diff(&(&b + &a), &radd(&ra, &ra)).map_err(|e| format!("sum with stored zeros: {e}"))?;
        let s = b.to_dense();
        for k in 0..1usize << d {
            chk!(s.get_by_idx(k) == rget(&ra, k), "to dense with stored zeros: coefficient {k:#b}");
        }
        Ok(())
    });
}

fn main() {
    let mut run = Run::from_args("C07");
    for_libs!(run, suite);
    stored_zeros::<A2pm>(&mut run);
    stored_zeros::<A3pm0>(&mut run);
    stored_zeros::<A5a>(&mut run);
    approx!(run, Dense<f64, A2mm>, Dense<f64, A5b>, Dense<Complex64, A4st>, Sparse<f64, A3ppp>, Sparse<Complex64, A5m>, Quat<f64>, Quat<Complex64>);
    run.finish();
}
