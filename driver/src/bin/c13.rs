use ndarray::{Array1, Array2};
use num::{One, Zero};
use std::fmt::Debug;
use tclifford::clifft::clifft;
use tclifford::{FFTRepr, Multivector};
use vdriver::*;

fn suite<A: DA + Debug>(run: &mut Run) {
    type L<A> = Dense<Complex64, A>;
    run.group(&format!("operations {}", A::NAME), 8, |r, _| {
        let (a, ra) = gen_mv::<L<A>>(r);
        let (b, rb) = gen_rel::<L<A>>(r, &ra);
        let c = <Complex64 as Coef>::gen(r);
        let x = r.int(-5, 5) as f64;
        let (fa, fb) = (a.fft(), b.fft());
        let ctx = || format!("a={ra:?} b={rb:?} c={c:?} x={x}");
        let want = rgeo(A::SIG, &ra, &rb);
        let check = |f: &FFTRepr<A>, want: &Ref<Complex64>, what: &str| -> R {
            let m: Multivector<Complex64, A> = f.ifft();
            L::<A>::diff(&m, want).map_err(|e| format!("{what}, {}: {e}", ctx()))?;
            // the result is the representation itself, not only something that transforms back alike
            chk!(*f == L::<A>::from_ref(want).fft(), "{what}, {}: not the representation of the result", ctx());
            Ok(())
        };
        for f in 0..4 {
            check(&four!((&fa), (&fb), f, *), &want, "product")?;
            check(&four!((&fa), (&fb), f, +), &radd(&ra, &rb), "sum")?;
            check(&four!((&fa), (&fb), f, -), &rsub(&ra, &rb), "difference")?;
            check(&four!((&fa), (&c), f, *), &rmap(&ra, |i, v| (i, v * c)), "complex scaling")?;
            check(&four!((&fa), (&x), f, *), &rmap(&ra, |i, v| (i, v * x)), "real scaling")?;
        }
        check(&(-&fa), &rneg(&ra), "negation")?;
        check(&(-fa.clone()), &rneg(&ra), "negation")?;
        for p in [1., 2., -4., 0.5] {
            check(&(&fa / p), &rmap(&ra, |i, v| (i, v / p)), "real division")?;
            let z = Complex64::new(0., p);
            check(&(&fa / z), &rmap(&ra, |i, v| (i, v / z)), "complex division")?;
        }
        let small = L::<A>::from_ref(&ra.iter().take(3).map(|(i, v)| (*i, *v)).collect());
        let rs: Ref<Complex64> = ra.iter().take(3).map(|(i, v)| (*i, *v)).collect();
        let mut want = rscalar(Complex64::one());
        for n in 0..5 {
            check(&small.fft().pow(n), &want, "power")?;
            want = rgeo(A::SIG, &want, &rs);
        }
        let (z, o) = (FFTRepr::<A>::zero(), FFTRepr::<A>::one());
        check(&z, &Ref::new(), "zero")?;
        check(&o, &rscalar(Complex64::one()), "one")?;
        chk!(z.is_zero() && !o.is_zero() && fa.is_zero() == ra.is_empty(), "is_zero, {}", ctx());
        // closeness: every entry of the difference below the precision
        let mut v = fa.clone().into_array3();
        let k = r.below(v.len());
        let e = [0., 0.5, -2.][r.below(3)];
        // the norm of the difference is 5/4 of its larger part
        let turn = r.below(3);
        let z = [Complex64::new(0., e), Complex64::new(0.75 * e, e), Complex64::new(-e, 0.75 * e)][turn];
        let e = if turn == 0 { e } else { 1.25 * e };
        *v.iter_mut().nth(k).unwrap() += z;
        let fc = FFTRepr::<A>::from_array3(v).map_err(|e| format!("{e:?}"))?;
        for p in [0.25, 0.5, 0.5625, 0.75, 1., 2., 2.25, 2.75, 4.] {
            chk!(fa.approx_eq(&fc, p) == (e.abs() < p), "representations differing by {e} at entry {k}, precision {p}, {}", ctx());
        }
        L::<A>::diff(&a, &ra)
    });
}

fn main() {
    let mut run = Run::from_args("C13");
    macro_rules! m {
        ($a:ident) => {
            suite::<$a>(&mut run);
        };
    }
    for_algs!(dense, m);
    for d in 1..=9usize {
        run.group(&format!("generator relations dim {d}"), 1, |_, _| {
            let side = 1usize << ((d + 1) / 2);
            let id = Array2::<Complex64>::eye(side);
            let e: Vec<Array2<Complex64>> = (0..d)
                .map(|g| clifft(Array1::from_shape_fn(1usize << d, |i| if i == 1 << g { 1.0f64 } else { 0. }).view()).unwrap())
                .collect();
            for i in 0..d {
                for j in 0..d {
                    let s = e[i].dot(&e[j]) + e[j].dot(&e[i]);
                    let want = if i == j { &id * Complex64::new(2., 0.) } else { &id * Complex64::new(0., 0.) };
                    chk!(s == want, "generators {i} and {j} of dim {d}: {s:?}");
                }
            }
            Ok(())
        });
        run.group(&format!("array products dim {d}"), 4, |r, _| {
            let n = 1usize << d;
            let gen = |r: &mut Rng| -> Ref<Complex64> { rgen(r, d, 20) };
            let (a, b) = (gen(r), gen(r));
            let arr = |x: &Ref<Complex64>| Array1::from_shape_fn(n, |i| rget(x, i));
            let sig = vec![1i8; d];
            let p = rgeo(&sig, &a, &b);
            let l = clifft(arr(&a).view()).unwrap().dot(&clifft(arr(&b).view()).unwrap());
            chk!(l == clifft(arr(&p).view()).unwrap(), "clifft(a) clifft(b) != clifft(ab), a={a:?} b={b:?}");
            Ok(())
        });
    }
    run.finish();
}
