use std::fmt::Debug;
use tclifford::algebra::PGAlgebra;
use tclifford::pga::PGAMV;
use tclifford::types::WedgeProduct;
use tclifford::{ClError, Multivector, SparseMultivector};
use vdriver::*;

alg!(P1, +, 0);
alg!(P2, +, +, 0);
alg!(P3, +, +, +, 0);
alg!(P4, +, +, +, +, 0);
alg!(P5, +, +, +, +, +, 0);
alg!(P6, +, +, +, +, +, +, 0);

fn close(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-9 * (1. + y.abs()))
}
fn coords(r: &mut Rng, n: usize) -> Vec<f64> {
    let k = r.below(5);
    (0..n)
        .map(|_| match k {
            0 => 0.,
            1 => r.int(-3, 3) as f64,
            2 => r.int(-1000, 1000) as f64 / 8.,
            3 => {
                if r.chance(1, 2) {
                    0.
                } else {
                    r.int(-50, 50) as f64
                }
            }
            _ => r.int(-9999, 9999) as f64 / 1000.,
        })
        .collect()
}

macro_rules! pga {
    ($run:ident, $mv:ty, $a:ident, $n:literal, $kind:literal) => {{
        type M = $mv;
        let name = format!("{} {}", $a::NAME, $kind);
        $run.group(&format!("points {name}"), 20, |r, k| {
            let c = if k == 0 { vec![0.; $n] } else { coords(r, $n) };
            let p = M::pga_point(c.clone()).map_err(|e| format!("point {c:?} rejected: {e:?}"))?;
            chk!(close(&p.pga_extract_point(), &c), "point {c:?} extracts as {:?}", p.pga_extract_point());
            let s = p.clone() * -2.5;
            chk!(close(&s.pga_extract_point(), &c), "scaled point {c:?} extracts as {:?}", s.pga_extract_point());
            // grade of a point and orientation: positive multiple of the dual of the homogeneous vector
            let mut h = c.clone();
            h.push(1.);
            let hv = M::from_vector(h).unwrap().dual();
            let f = p.get_by_idx(M::from_vector([vec![0.; $n], vec![1.]].concat()).unwrap().dual().coeff_enumerate().find(|(_, c)| **c != 0.).unwrap().0)
                / hv.get_by_idx(M::from_vector([vec![0.; $n], vec![1.]].concat()).unwrap().dual().coeff_enumerate().find(|(_, c)| **c != 0.).unwrap().0);
            chk!(f > 0., "point {c:?} has factor {f}");
            chk!((hv * f).approx_eq(&p, 1e-9), "point {c:?} is not a positive multiple of the dual of its homogeneous vector");
            Ok(())
        });
        $run.group(&format!("hyperplanes {name}"), 20, |r, _| {
            let mut q = coords(r, $n + 1);
            if q.iter().all(|x| *x == 0.) {
                q[0] = 1.;
            }
            let h = M::pga_hyperplane(q.clone()).map_err(|e| format!("hyperplane {q:?} rejected: {e:?}"))?;
            let i = q.iter().position(|x| *x != 0.).unwrap();
            let f = h.get_by_idx(1 << i) / q[i];
            chk!(f > 0., "hyperplane {q:?} has factor {f}");
            for j in 0..(1usize << ($n + 1)) {
                let want = if j.count_ones() == 1 { q[j.trailing_zeros() as usize] * f } else { 0. };
                chk!((h.get_by_idx(j) - want).abs() < 1e-9, "hyperplane {q:?} coefficient {j:#b}: {}", h.get_by_idx(j));
            }
            // incidence with a point
            let c = coords(r, $n);
            let p = M::pga_point(c.clone()).unwrap();
            let val: f64 = (0..$n).map(|j| q[j] * c[j]).sum::<f64>() + q[$n];
            let w = h.wedge(&p);
            let zero = w.approx_eq(&(w.clone() * 0.), 1e-10 * (1. + val.abs()));
            if val == 0. {
                chk!(zero, "point {c:?} on plane {q:?} but wedge is {w:?}");
            } else if val.abs() > 1e-3 {
                chk!(!w.approx_eq(&(w.clone() * 0.), 1e-12), "point {c:?} off plane {q:?} but wedge vanishes");
            }
            // a point constructed to be on the plane
            if let Some(j) = (0..$n).find(|j| q[*j] != 0.) {
                let mut c = c;
                let rest: f64 = (0..$n).filter(|k| *k != j).map(|k| q[k] * c[k]).sum::<f64>() + q[$n];
                c[j] = -rest / q[j];
                let p = M::pga_point(c.clone()).unwrap();
                let w = h.wedge(&p);
                chk!(w.approx_eq(&(w.clone() * 0.), 1e-8), "point {c:?} on plane {q:?} but wedge is {w:?}");
            }
            Ok(())
        });
        $run.group(&format!("translations {name}"), 20, |r, k| {
            let t = if k == 0 { vec![0.; $n] } else { coords(r, $n) };
            let c = coords(r, $n);
            let m = M::pga_translation(t.clone()).map_err(|e| format!("translation {t:?} rejected: {e:?}"))?;
            let p = M::pga_point(c.clone()).unwrap();
            let q = m.rev() * &p * &m;
            let want: Vec<f64> = c.iter().zip(&t).map(|(a, b)| a + b).collect();
            chk!(close(&q.pga_extract_point(), &want), "point {c:?} moved by {t:?} extracts as {:?}", q.pga_extract_point());
            Ok(())
        });
        $run.group(&format!("wrong lengths {name}"), 1, |r, _| {
            for len in 0..($n + 4) {
                let v: Vec<f64> = (0..len).map(|_| r.int(1, 5) as f64).collect();
                let p = M::pga_point(v.clone());
                let h = M::pga_hyperplane(v.clone());
                let t = M::pga_translation(v.clone());
                chk!(p.is_ok() == (len == $n), "point with {len} of {} coordinates: {p:?}", $n);
                chk!(h.is_ok() == (len == $n + 1), "hyperplane with {len} of {} coefficients: {h:?}", $n + 1);
                chk!(t.is_ok() == (len == $n), "translation with {len} of {} coordinates: {t:?}", $n);
                for e in [p.err(), h.err(), t.err()] {
                    chk!(e.is_none() || e == Some(ClError::InvalidShape) || e == Some(ClError::IndexOutOfBounds), "error {e:?}");
                }
            }
            Ok(())
        });
        fn needs<A: PGAlgebra<$n> + Debug>() {}
        needs::<$a>();
    }};
}

fn main() {
    let mut run = Run::from_args("C18");
    pga!(run, Multivector<f64, P1>, P1, 1, "dense");
    pga!(run, Multivector<f64, P2>, P2, 2, "dense");
    pga!(run, Multivector<f64, P3>, P3, 3, "dense");
    pga!(run, Multivector<f64, P4>, P4, 4, "dense");
    pga!(run, Multivector<f64, P5>, P5, 5, "dense");
    pga!(run, Multivector<f64, P6>, P6, 6, "dense");
    pga!(run, SparseMultivector<f64, P1>, P1, 1, "sparse");
    pga!(run, SparseMultivector<f64, P2>, P2, 2, "sparse");
    pga!(run, SparseMultivector<f64, P3>, P3, 3, "sparse");
    pga!(run, SparseMultivector<f64, P4>, P4, 4, "sparse");
    pga!(run, SparseMultivector<f64, P6>, P6, 6, "sparse");
    run.finish();
}
