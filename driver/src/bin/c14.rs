use ndarray::{Array1, Array2};
use num::{One, Zero};
use std::fmt::Debug;
use tclifford::algebra::NonDegenerate;
use tclifford::clifft::{clifft, iclifft, imaginary_flip, parity_flip, reversal};
use tclifford::{ClError, FFTRepr, Multivector};
use vdriver::*;

fn suite<A: DA + Debug>(run: &mut Run) {
    type L<A> = Dense<Complex64, A>;
    run.group(&format!("involutions {}", A::NAME), 10, |r, _| {
        let (a, ra) = gen_mv::<L<A>>(r);
        let f = a.fft();
        let chkrep = |f: &FFTRepr<A>, want: &Ref<Complex64>, what: &str| -> R {
            let m: Multivector<Complex64, A> = f.ifft();
            L::<A>::diff(&m, want).map_err(|e| format!("{what} of {ra:?}: {e}"))?;
            chk!(*f == L::<A>::from_ref(want).fft(), "{what} of {ra:?} is not the representation");
            Ok(())
        };
        chkrep(&f.rev(), &rrev(&ra), "rev")?;
        chkrep(&f.flip(), &rflip(&ra, usize::MAX), "flip")?;
        chk!(f.ntrace() == rget(&ra, 0), "ntrace of {ra:?}: {:?}", f.ntrace());
        chk!(f.trace() == rget(&ra, 0) * f.shape().1 as f64, "trace of {ra:?}: {:?}", f.trace());
        let want = rget(&rgeo(A::SIG, &rrev(&ra), &ra), 0);
        chk!(f.mag2() == want, "mag2 of the representation of {ra:?}: expected {want:?}, got {:?}", f.mag2());
        chk!(a.mag2() == want, "mag2 of {ra:?}");
        chkrep(&f, &ra, "operand")
    });
}
fn half<A: DA + Debug + NonDegenerate>(run: &mut Run) {
    type L<A> = Dense<Complex64, A>;
    run.group(&format!("half spin {}", A::NAME), 6, |r, k| {
        let (_, ra) = gen_mv::<L<A>>(r);
        let ra: Ref<Complex64> = ra.into_iter().filter(|(i, _)| k % 3 == 0 || i.count_ones() % 2 == 0).collect();
        let f = L::<A>::from_ref(&ra).fft();
        let m = f.clone().into_array2();
        let n = m.dim().0;
        let (e, o) = f.into_half_spin_repr();
        let ev: Vec<usize> = (0..n).filter(|i| i.count_ones() % 2 == 0).collect();
        let od: Vec<usize> = (0..n).filter(|i| i.count_ones() % 2 == 1).collect();
        chk_eq!(e.dim(), (ev.len(), ev.len()), "even block shape");
        chk_eq!(o.dim(), (od.len(), od.len()), "odd block shape");
        for i in 0..n / 2 {
            for j in 0..n / 2 {
                chk_eq!(e[(i, j)], m[(ev[i], ev[j])], "even block at {i},{j}");
                chk_eq!(o[(i, j)], m[(od[i], od[j])], "odd block at {i},{j}");
            }
        }
        let back = FFTRepr::<A>::from_array2(m.clone()).map_err(|e| format!("from_array2: {e:?}"))?;
        chk!(back.into_array2() == m, "from_array2/into_array2");
        Ok(())
    });
}

fn main() {
    let mut run = Run::from_args("C14");
    macro_rules! m {
        ($a:ident) => {
            suite::<$a>(&mut run);
        };
    }
    for_algs!(dense, m);
    macro_rules! h {
        ($a:ident) => {
            half::<$a>(&mut run);
        };
    }
    for_algs!(@ h A1p A1m A2pm A2mm A3ppp A3mpm A4st A4split A5b A5m A6split A6b A7a A8p);
    for d in [0usize, 2, 4, 6, 8] {
        run.group(&format!("matrices dim {d}"), 8, |r, _| {
            let s = 1usize << (d / 2);
            let m = Array2::from_shape_fn((s, s), |_| <Complex64 as Coef>::gen(r));
            let a = iclifft(m.view()).unwrap();
            let ra: Ref<Complex64> = norm(a.iter().enumerate().map(|(i, c)| (i, *c)).collect());
            let arr = |x: &Ref<Complex64>| Array1::from_shape_fn(1usize << d, |i| rget(x, i));
            let odd = 0xAAAA_AAAA_AAAA_AAAAusize;
            chk!(parity_flip(m.view()) == clifft(arr(&rflip(&ra, usize::MAX)).view()).unwrap(), "parity_flip of {m:?}");
            let i = imaginary_flip(m.view()).map_err(|e| format!("imaginary_flip rejected: {e:?}"))?;
            chk!(i == clifft(arr(&rflip(&ra, odd)).view()).unwrap(), "imaginary_flip of {m:?}");
            let v = reversal(m.view()).map_err(|e| format!("reversal rejected: {e:?}"))?;
            chk!(v == clifft(arr(&rrev(&ra)).view()).unwrap(), "reversal of {m:?}");
            // real coefficients
            let mf = Array2::from_shape_fn((s, s), |_| <f64 as Coef>::gen(r));
            let mc = mf.map(|x| Complex64::new(*x, 0.));
            let i2 = imaginary_flip(mf.view()).unwrap();
            chk!(i2.map(|x| Complex64::new(*x, 0.)) == imaginary_flip(mc.view()).unwrap(), "real imaginary_flip");
            Ok(())
        });
    }
    run.group("shapes", 1, |r, _| {
        for h in 0..10usize {
            for w in 0..10usize {
                let ok = h == w && h != 0 && h & (h - 1) == 0;
                let m = Array2::from_shape_fn((h, w), |_| <f64 as Coef>::gen(r));
                let p = parity_flip(m.view());
                chk_eq!(p.dim(), (h, w), "parity_flip shape");
                for i in 0..h {
                    for j in 0..w {
                        let want = if (i.count_ones() + j.count_ones()) % 2 == 1 { -m[(i, j)] } else { m[(i, j)] };
                        chk_eq!(p[(i, j)], want, "parity_flip {h}x{w} at {i},{j}");
                    }
                }
                for x in [imaginary_flip(m.view()), reversal(m.view())] {
                    chk!(x.is_ok() == ok && (ok || x == Err(ClError::InvalidShape)), "matrix {h}x{w}: {x:?}");
                }
            }
        }
        Ok(())
    });
    let _ = (Complex64::one(), Complex64::zero());
    run.finish();
}
