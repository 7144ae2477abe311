use ndarray::{Array1, Array2, Array3};
use std::fmt::Debug;
use tclifford::clifft::{clifft, iclifft, iclifft_into};
use tclifford::types::{FromComplex, IntoComplex64};
use tclifford::{ClError, FFTRepr, Multivector};
use vdriver::*;

fn cgen(r: &mut Rng) -> Complex64 {
    <Complex64 as Coef>::gen(r)
}
fn mv_roundtrip<T: Coef + FromComplex + IntoComplex64, A: DA + Debug>(run: &mut Run) {
    run.group(&format!("multivector {}", Dense::<T, A>::name()), 8, |r, k| {
        let d = A::d();
        let (a, ra) = if k == 0 {
            let ra: Ref<T> = (0..(1usize << d)).map(|i| (i, T::nonzero(r))).collect();
            (Dense::<T, A>::from_ref(&ra), ra)
        } else {
            gen_mv::<Dense<T, A>>(r)
        };
        let f = a.fft();
        let b: Multivector<T, A> = f.ifft();
        Dense::<T, A>::diff(&b, &ra).map_err(|e| format!("ifft(fft(a)), a={ra:?}: {e}"))?;
        Dense::<T, A>::diff(&a, &ra).map_err(|e| format!("operand changed: {e}"))?;
        let nn = A::SIG.iter().filter(|x| **x != 0).count();
        chk_eq!(f.shape(), (1usize << (d - nn), 1usize << ((nn + 1) / 2), 1usize << ((nn + 1) / 2)), "shape");
        Ok(())
    });
    run.group(&format!("representation {}", A::NAME), 4, |r, _| {
        let d = A::d();
        let nn = A::SIG.iter().filter(|x| **x != 0).count();
        let (w, s) = (1usize << (d - nn), 1usize << ((nn + 1) / 2));
        if nn % 2 == 0 {
            let arr = Array3::from_shape_fn((w, s, s), |_| cgen(r));
            let f = FFTRepr::<A>::from_array3(arr.clone()).map_err(|e| format!("valid shape rejected: {e:?}"))?;
            let m: Multivector<Complex64, A> = f.ifft();
            chk!(m.fft().into_array3() == arr, "fft(ifft(M)) != M for {arr:?}");
        }
        for bad in [(w, s, s + 1), (w, s + 1, s), (w + 1, s, s), (w * 2, s, s), (0, s, s), (w, 0, 0), (w, 2 * s, 2 * s), (w, s * s, 1), (1, w * s, s)] {
            if bad != (w, s, s) {
                let x = FFTRepr::<A>::from_array3(Array3::zeros(bad));
                chk!(matches!(x, Err(ClError::InvalidShape)), "shape {bad:?} accepted");
            }
        }
        Ok(())
    });
}

fn main() {
    let mut run = Run::from_args("C12");
    for dim in 0..=10usize {
        run.group(&format!("array dim {dim}"), 8, |r, k| {
            let n = 1usize << dim;
            let full = 1usize << (dim + dim % 2);
            let side = 1usize << ((dim + 1) / 2);
            let a: Array1<Complex64> = Array1::from_shape_fn(n, |_| cgen(r));
            let a = if k == 1 { Array1::from_shape_fn(n, |i| if i == n - 1 { Complex64::new(1., 2.) } else { Complex64::new(0., 0.) }) } else { a };
            let m = clifft(a.view()).map_err(|e| format!("valid array rejected: {e:?}"))?;
            chk_eq!(m.dim(), (side, side), "matrix shape");
            let b = iclifft(m.view()).map_err(|e| format!("valid matrix rejected: {e:?}"))?;
            chk_eq!(b.len(), full, "array length");
            for i in 0..full {
                let want = if i < n { a[i] } else { Complex64::new(0., 0.) };
                chk_eq!(b[i], want, "iclifft(clifft(a)) at {i:#b}");
            }
            let mut dst = Array1::from_elem(full, Complex64::new(7., 7.));
            iclifft_into(m.view(), dst.view_mut()).map_err(|e| format!("valid matrix rejected: {e:?}"))?;
            chk!(dst == b, "iclifft_into differs from iclifft");
            // other coefficient types
            let f: Array1<f64> = a.map(|c| c.re);
            let m2 = clifft(f.view()).map_err(|e| format!("{e:?}"))?;
            let c: Array1<Complex64> = a.map(|c| Complex64::new(c.re, 0.));
            chk!(m2 == clifft(c.view()).unwrap(), "real and complex transforms differ");
            // matrices
            let m: Array2<Complex64> = Array2::from_shape_fn((side, side), |_| cgen(r));
            let a = iclifft(m.view()).map_err(|e| format!("valid matrix rejected: {e:?}"))?;
            chk!(clifft(a.view()).map_err(|e| format!("{e:?}"))? == m, "clifft(iclifft(m)) != m for {m:?}");
            let t = m.t();
            let a = iclifft(t).map_err(|e| format!("valid matrix rejected: {e:?}"))?;
            chk!(clifft(a.view()).map_err(|e| format!("{e:?}"))? == t, "clifft(iclifft(m^T)) != m^T");
            Ok(())
        });
    }
    run.group("invalid arrays", 1, |_, _| {
        for n in 0..200usize {
            let a = Array1::<f64>::zeros(n);
            let ok = n != 0 && n & (n - 1) == 0;
            let x = clifft(a.view());
            chk!(x.is_ok() == ok && (ok || x == Err(ClError::InvalidShape)), "array of length {n}: {:?}", x.map(|m| m.dim()));
        }
        Ok(())
    });
    run.group("invalid matrices", 1, |_, _| {
        for r in 0..20usize {
            for c in 0..20usize {
                let ok = r == c && r != 0 && r & (r - 1) == 0;
                let x = iclifft(Array2::zeros((r, c)).view());
                chk!(x.is_ok() == ok && (ok || x == Err(ClError::InvalidShape)), "matrix {r}x{c}: {:?}", x.map(|m| m.len()));
                for l in [0usize, 1, 2, 4, 16, 17, r * c, r * c + 1] {
                    let mut d = Array1::zeros(l);
                    let x = iclifft_into(Array2::zeros((r, c)).view(), d.view_mut());
                    let ok = ok && l == r * c;
                    chk!(x.is_ok() == ok && (ok || x == Err(ClError::InvalidShape)), "matrix {r}x{c} into {l}: {x:?}");
                }
            }
        }
        Ok(())
    });
    macro_rules! m {
        ($a:ident) => {
            mv_roundtrip::<f64, $a>(&mut run);
            mv_roundtrip::<Complex64, $a>(&mut run);
        };
    }
    for_algs!(dense, m);
    mv_roundtrip::<f32, A3pm0>(&mut run);
    mv_roundtrip::<Complex32, A4st>(&mut run);
    mv_roundtrip::<Complex32, A5a>(&mut run);
    mv_roundtrip::<Complex64, A10a>(&mut run);
    run.finish();
}
