use ndarray::Array2;
use num::{One, Zero};
use std::fmt::Debug;
use tclifford::algebra::NonDegenerate;
use tclifford::{FFTRepr, Multivector};
use vdriver::*;

/// is the determinant of a Gaussian-integer matrix zero? decided modulo two primes that split in Z[i]
fn singular(m: &Array2<Complex64>) -> bool {
    [998_244_353u128, 1_000_000_009].iter().all(|p| {
        let p = *p;
        let pw = |mut b: u128, mut e: u128| {
            let mut r = 1;
            while e > 0 {
                if e & 1 == 1 {
                    r = r * b % p;
                }
                b = b * b % p;
                e >>= 1;
            }
            r
        };
        let i = (2..).map(|g| pw(g, (p - 1) / 4)).find(|x| x * x % p == p - 1).unwrap();
        let r = |x: f64| (x as i128).rem_euclid(p as i128) as u128;
        let n = m.dim().0;
        let mut w: Vec<Vec<u128>> = m.rows().into_iter().map(|v| v.iter().map(|c| (r(c.re) + r(c.im) * i) % p).collect()).collect();
        for k in 0..n {
            match (k..n).find(|j| w[*j][k] != 0) {
                None => return true,
                Some(j) => w.swap(j, k),
            }
            let inv = pw(w[k][k], p - 2);
            for j in k + 1..n {
                let f = w[j][k] * inv % p;
                for c in k..n {
                    w[j][c] = (w[j][c] + (p - f) * w[k][c]) % p;
                }
            }
        }
        false
    })
}

fn verify<A: DA + Debug + NonDegenerate>(f: &FFTRepr<A>, what: &str) -> R {
    let m = f.clone().into_array2();
    let d = singular(&m);
    match f.inv() {
        Some(g) => {
            if d {
                // rounding may leave a tiny pivot; a result for a singular element must not pretend to be exact
                chk!(!(g.clone() * f).approx_eq(&FFTRepr::<A>::one(), 1e-6), "inverse reported for the singular element {what}");
                return Ok(());
            }
            let big = g.view().iter().fold(1f64, |s, c| s.max(c.norm()));
            let tol = 1e-9 * big * m.iter().fold(1f64, |s, c| s.max(c.norm()));
            chk!((g.clone() * f).approx_eq(&FFTRepr::<A>::one(), tol), "inv(a)*a != 1 for {what}: {:?}", g.clone() * f);
            chk!((f * g.clone()).approx_eq(&FFTRepr::<A>::one(), tol), "a*inv(a) != 1 for {what}");
        }
        None => chk!(d, "no inverse reported for the invertible element {what}"),
    }
    Ok(())
}

fn suite<A: DA + Debug + NonDegenerate>(run: &mut Run) {
    type L<A> = Dense<f64, A>;
    run.group(&format!("elements {}", A::NAME), 25, |r, k| {
        let d = A::d();
        let ra: Ref<f64> = match k % 5 {
            0 => (0..1usize << d).map(|i| (i, r.int(-1, 1) as f64)).collect(),
            1 => (0..d).map(|i| (1usize << i, r.int(-1, 1) as f64)).collect(),
            2 => (0..2).map(|_| (r.idx(d), 1.0)).collect(),
            3 => (0..3).map(|_| (r.idx(d), r.int(-2, 2) as f64)).collect(),
            _ => rgen(r, d, 16),
        };
        let ra = norm(ra);
        let f = L::<A>::from_ref(&ra).fft();
        verify::<A>(&f, &format!("{ra:?}"))
    });
    run.group(&format!("generators {}", A::NAME), 1, |_, _| {
        for i in 0..(1usize << A::d().min(6)) {
            let ra = Ref::from([(i, 1.0)]);
            let f = L::<A>::from_ref(&ra).fft();
            verify::<A>(&f, &format!("{ra:?}"))?;
            let g: Multivector<f64, A> = f.inv().ok_or("no inverse of a blade")?.ifft();
            let want = Ref::from([(i, geo_sign(A::SIG, i, i) as f64)]);
            L::<A>::diff(&g, &want).map_err(|e| format!("inverse of blade {i:#b}: {e}"))?;
        }
        verify::<A>(&FFTRepr::<A>::zero(), "zero")?;
        verify::<A>(&FFTRepr::<A>::one(), "one")
    });
}
fn matrices<A: DA + Debug + NonDegenerate>(run: &mut Run) {
    let n = 1usize << (A::d() / 2);
    run.group(&format!("matrices {}", A::NAME), 60, |r, k| {
        // many zeros, so that every pivoting path occurs
        let m = Array2::from_shape_fn((n, n), |(i, j)| match k % 4 {
            0 => Complex64::new(r.int(0, 1) as f64, 0.),
            1 => Complex64::new(if r.chance(2, 3) { 0. } else { r.int(-1, 1) as f64 }, if r.chance(3, 4) { 0. } else { r.int(-1, 1) as f64 }),
            2 => Complex64::new(if i < j { 0. } else { r.int(-2, 2) as f64 }, 0.),
            _ => Complex64::new(r.int(-1, 1) as f64, r.int(-1, 1) as f64),
        });
        let f = FFTRepr::<A>::from_array2(m.clone()).map_err(|e| format!("{e:?}"))?;
        verify::<A>(&f, &format!("{m:?}"))
    });
    // columns scaled by powers of two: the inverse only has its rows scaled back
    run.group(&format!("scaled columns {}", A::NAME), 20, |r, k| {
        let m = Array2::from_shape_fn((n, n), |(i, j)| match k % 3 {
            0 if i == j => Complex64::new([1., -1., 2., -2.][r.below(4)], 0.),
            0 => Complex64::new(if i > j { 0. } else { r.int(-2, 2) as f64 }, 0.),
            1 => Complex64::new(if r.chance(1, 2) { 0. } else { r.int(-1, 1) as f64 }, 0.),
            _ => Complex64::new(r.int(-1, 1) as f64, r.int(-1, 1) as f64),
        });
        if singular(&m) {
            return Ok(());
        }
        let range = 60;
        let all = r.int(-150, 150);
        let e: Vec<f64> = (0..n).map(|_| 2f64.powi((all + r.int(-range, range)) as i32)).collect();
        let s = Array2::from_shape_fn((n, n), |(i, j)| m[(i, j)] * e[j]);
        let f = FFTRepr::<A>::from_array2(s.clone()).map_err(|x| format!("{x:?}"))?;
        let g = f.inv().ok_or_else(|| format!("no inverse reported for the invertible matrix {s:?}"))?.into_array2();
        let x = Array2::from_shape_fn((n, n), |(i, j)| g[(i, j)] * e[i]);
        let tol = 1e-9 * x.iter().fold(1f64, |a, c| a.max(c.norm())) * 4.;
        for p in [m.dot(&x), x.dot(&m)] {
            for ((i, j), c) in p.indexed_iter() {
                let want = if i == j { 1. } else { 0. };
                chk!((c - want).norm() < tol, "inverse of {s:?} is off at ({i},{j}): {c}");
            }
        }
        Ok(())
    });
    run.group(&format!("permutations {}", A::NAME), 12, |r, _| {
        let mut p: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            p.swap(i, r.below(i + 1));
        }
        let mut m = Array2::<Complex64>::zeros((n, n));
        for i in 0..n {
            m[(i, p[i])] = Complex64::new(r.int(1, 3) as f64, 0.);
            if r.chance(1, 3) {
                m[(i, r.below(n))] += Complex64::new(1., 0.);
            }
        }
        let f = FFTRepr::<A>::from_array2(m.clone()).map_err(|e| format!("{e:?}"))?;
        verify::<A>(&f, &format!("{m:?}"))
    });
    // every 0/1 matrix of side 4 is too many; every one of side 2 and a fixed family of side 4
    if n <= 4 {
        let count = if n == 4 { 1usize << 12 } else { 1usize << (n * n) };
        run.group(&format!("small matrices {}", A::NAME), 1, |_, _| {
            for k in 0..count {
                let bits = k.wrapping_mul(if n == 4 { 0x9E5 } else { 1 });
                let m = Array2::from_shape_fn((n, n), |(i, j)| Complex64::new(((bits >> (i * n + j)) & 1) as f64, 0.));
                let f = FFTRepr::<A>::from_array2(m.clone()).map_err(|e| format!("{e:?}"))?;
                verify::<A>(&f, &format!("{m:?}"))?;
            }
            Ok(())
        });
    }
}

fn main() {
    let mut run = Run::from_args("C15");
    macro_rules! h {
        ($a:ident) => {
            suite::<$a>(&mut run);
        };
    }
    for_algs!(@ h A1p A1m A2pm A2mp A2mm A3ppp A3mpm A4st A4split A5b A5m A6split A6b A7a A8p);
    macro_rules! m {
        ($a:ident) => {
            matrices::<$a>(&mut run);
        };
    }
    for_algs!(@ m A2pm A4split A6b A8p);
    let _ = (Complex64::one(), Complex64::zero());
    run.finish();
}
