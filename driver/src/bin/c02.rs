use tclifford::algebra::{ClAlgebra, ClAlgebraBase, ClBasis};
use tclifford::declare_algebra;
use tclifford::{FFTRepr, Multivector, SparseMultivector};
use vdriver::*;

fn masks<A: DA>() -> R {
    let s = A::SIG;
    let m = |v: i8| -> usize { (0..s.len()).filter(|i| s[*i] == v).map(|i| 1usize << i).sum() };
    chk_eq!(A::dim(), s.len(), "{} dim", A::NAME);
    chk_eq!(A::real_mask(), m(1), "{} real_mask", A::NAME);
    chk_eq!(A::imag_mask(), m(-1), "{} imag_mask", A::NAME);
    chk_eq!(A::proj_mask(), m(0), "{} proj_mask", A::NAME);
    chk_eq!(A::real_dim(), s.iter().filter(|x| **x == 1).count(), "{} real_dim", A::NAME);
    chk_eq!(A::imag_dim(), s.iter().filter(|x| **x == -1).count(), "{} imag_dim", A::NAME);
    chk_eq!(A::proj_dim(), s.iter().filter(|x| **x == 0).count(), "{} proj_dim", A::NAME);
    Ok(())
}

fn basis<A, const D: usize>(dense: bool) -> R
where
    A: DA + ClBasis<D> + std::fmt::Debug,
{
    let s = A::SIG;
    chk_eq!(D, s.len(), "{} basis length", A::NAME);
    chk_eq!(<A as ClBasis<D>>::signature().to_vec(), s.to_vec(), "{} signature", A::NAME);
    let f: Vec<f64> = s.iter().map(|x| *x as f64).collect();
    chk_eq!(<A as ClBasis<D>>::signaturef().to_vec(), f, "{} signaturef", A::NAME);
    let e: [SparseMultivector<i64, A>; D] = <A as ClBasis<D>>::basis_sparse::<i64>();
    for i in 0..D {
        chk_eq!(e[i].coeff_enumerate().map(|(k, c)| (k, *c)).collect::<Vec<_>>(), vec![(1usize << i, 1i64)], "{} sparse basis vector {i}", A::NAME);
        let q = &e[i] * &e[i];
        chk_eq!(q.get_by_idx(0), s[i] as i64, "{} square of basis vector {i}", A::NAME);
    }
    if dense {
        let e: [Multivector<i64, A>; D] = Multivector::<i64, A>::basis();
        for i in 0..D {
            for k in 0..(1usize << D) {
                chk_eq!(e[i].get_by_idx(k), (k == 1usize << i) as i64, "{} dense basis vector {i} at {k}", A::NAME);
            }
            let q = &e[i] * &e[i];
            for k in 0..(1usize << D) {
                chk_eq!(q.get_by_idx(k), if k == 0 { s[i] as i64 } else { 0 }, "{} square of basis vector {i} at {k}", A::NAME);
            }
        }
        if D <= 6 {
            let e: [FFTRepr<A>; D] = FFTRepr::<A>::basis();
            for i in 0..D {
                let q: Multivector<f64, A> = (&e[i] * &e[i]).ifft();
                for k in 0..(1usize << D) {
                    chk_eq!(q.get_by_idx(k), if k == 0 { s[i] as f64 } else { 0. }, "{} square of transformed basis vector {i} at {k}", A::NAME);
                }
            }
        }
    }
    Ok(())
}

fn indices<A: DA>() -> R {
    if A::d() <= 12 {
        let v: Vec<usize> = A::index_iter().collect();
        chk_eq!(v.len(), 1usize << A::d(), "{} number of indices", A::NAME);
        let mut seen = vec![false; v.len()];
        for i in v {
            chk!(i < seen.len() && !seen[i], "{} index {i:#b} repeated or outside", A::NAME);
            seen[i] = true;
        }
    } else {
        let mut it = A::index_iter();
        for i in 0..1000 {
            chk_eq!(it.next(), Some(i), "{} index {i}", A::NAME);
        }
        let (lo, hi) = A::index_iter().size_hint();
        chk!(lo <= 1usize << A::d() && hi.map(|h| h >= 1usize << A::d()).unwrap_or(true), "{} size of index range {lo} {hi:?}", A::NAME);
    }
    Ok(())
}

macro_rules! all_sigs {
    ($run:ident) => {};
    ($run:ident $n:ident [$($s:tt),+] ; $($rest:tt)*) => {
        {
            vdriver::alg!($n, $($s),+);
            $run.group(&format!("signature {}", <$n as DA>::NAME), 1, |_, _| {
                masks::<$n>()?;
                indices::<$n>()?;
                basis::<$n, { [$(stringify!($s)),+].len() }>(true)
            });
        }
        all_sigs!($run $($rest)*);
    };
}

fn main() {
    let mut run = Run::from_args("C02");
    include!("../sigs.in");
    macro_rules! m {
        ($a:ident) => {
            run.group(&format!("masks {}", $a::NAME), 1, |_, _| masks::<$a>());
            run.group(&format!("indices {}", $a::NAME), 1, |_, _| indices::<$a>());
        };
    }
    for_algs!(dense, m);
    for_algs!(big, m);
    macro_rules! b {
        ($($a:ident $d:literal $f:literal),*) => { $( run.group(&format!("basis {}", $a::NAME), 1, |_, _| basis::<$a, $d>($f)); )* };
    }
    b!(A5a 5 true, A5b 5 true, A6a 6 true, A6split 6 true, A7a 7 true, A7b 7 true, A8p 8 true, A8a 8 true, A9a 9 true, A10a 10 true,
       A16a 16 false, A20a 20 false, A33a 33 false, A40a 40 false, A62a 62 false, A63a 63 false);
    // other forms of the declaration macro
    run.group("declaration forms", 1, |_, _| {
        declare_algebra!(P0, [+, -, 0]);
        declare_algebra!(P1, [-, +, 0], ["a", "b", "c"]);
        declare_algebra!(pub(crate) P2, [-, -, +], ["a", "b", "c"]);
        declare_algebra!(pub P3, [0, 0], ["u", "v"]);
        chk_eq!((P0::dim(), P0::real_mask(), P0::imag_mask(), P0::proj_mask()), (3, 1, 2, 4), "private automatic names");
        chk_eq!((P1::dim(), P1::real_mask(), P1::imag_mask(), P1::proj_mask()), (3, 2, 1, 4), "private given names");
        chk_eq!((P2::dim(), P2::real_mask(), P2::imag_mask(), P2::proj_mask()), (3, 4, 3, 0), "crate visibility");
        chk_eq!((P3::dim(), P3::real_mask(), P3::imag_mask(), P3::proj_mask()), (2, 0, 0, 3), "public");
        chk_eq!(P1::signature(), [-1, 1, 0], "signature");
        for (i, n) in ["a", "b", "c"].iter().enumerate() {
            chk_eq!(P1::axis_name(i), n.to_string(), "axis name");
        }
        Ok(())
    });
    macro_rules! derived {
        ($a:ident) => {
            run.group(&format!("derived {}", $a::NAME), 1, |_, _| {
                // the fast representation uses the derived algebras: null generators keep their order
                let d = $a::d();
                let nn = $a::SIG.iter().filter(|x| **x != 0).count();
                for g in 0..d {
                    let m = Multivector::<f64, $a>::default().set_by_idx(1 << g, 1.0);
                    let r = m.fft();
                    let (w, side, _) = r.shape();
                    chk_eq!(w, 1usize << (d - nn), "{} number of null blades", $a::NAME);
                    chk_eq!(side, 1usize << ((nn + 1) / 2), "{} matrix side", $a::NAME);
                    for k in 0..w {
                        let zero = r.view().index_axis(ndarray::Axis(0), k).iter().all(|c| c.re == 0. && c.im == 0.);
                        let want = if g < nn { k == 0 } else { k == 1usize << (g - nn) };
                        chk_eq!(!zero, want, "{} generator {g} uses null blade {k}", $a::NAME);
                    }
                    let back: Multivector<f64, $a> = r.ifft();
                    chk!(back == m, "{} generator {g} does not survive the transform", $a::NAME);
                }
                Ok(())
            });
        };
    }
    for_algs!(dense, derived);
    run.finish();
}
