use num::complex::Complex64;
use num::One;
use tclifford::{Multivector, SparseMultivector};
use vdriver::*;

type C = Complex64;
type V = Vec<C>;

/// the product of coefficient vectors, straight from the signs of blades
fn prod(sg: &[Vec<i8>], a: &V, b: &V) -> V {
    let mut r = vec![C::new(0., 0.); a.len()];
    for (i, x) in a.iter().enumerate().filter(|(_, x)| x.norm_sqr() != 0.) {
        for (j, y) in b.iter().enumerate() {
            r[i ^ j] += x * y * (sg[i][j] as f64);
        }
    }
    r
}
fn signs(sig: &[i8]) -> Vec<Vec<i8>> {
    let n = 1usize << sig.len();
    (0..n).map(|i| (0..n).map(|j| geo_sign(sig, i, j)).collect()).collect()
}
fn size(a: &V) -> f64 {
    a.iter().map(|c| c.norm()).sum()
}
/// the power series of x / 2^s up to far below the rounding error, squared s times
fn reference(sg: &[Vec<i8>], x: &V) -> V {
    let (mut s, mut k) = (0, 1.0);
    while size(x) * k > 0.25 {
        s += 1;
        k *= 0.5;
    }
    let y: V = x.iter().map(|c| c * k).collect();
    let mut r = vec![C::new(0., 0.); x.len()];
    r[0] = C::new(1., 0.);
    for i in (1..=22).rev() {
        r = prod(sg, &y, &r).iter().map(|c| c / (i as f64)).collect();
        r[0] += 1.0;
    }
    for _ in 0..s {
        r = prod(sg, &r, &r);
    }
    r
}
fn close(what: &str, x: &V, got: &V, want: &V, tol: f64) -> R {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        // not a number is not close either
        if !((g - w).norm() <= tol) {
            let xs: Vec<(usize, C)> = x.iter().copied().enumerate().filter(|(_, c)| c.norm() != 0.).collect();
            return Err(format!("{what} of {xs:?}: coefficient {i:#b}: expected {w}, got {g} (tolerance {tol:e})"));
        }
    }
    Ok(())
}
fn unit(r: &mut Rng) -> f64 {
    r.int(-1000, 1000) as f64 / 1000.
}
/// every way of taking the exponential of x
fn all<A: DA + std::fmt::Debug>(x: &V, want: &V, tol: f64) -> R {
    let n = x.len();
    let vec = |f: &dyn Fn(usize) -> C| (0..n).map(f).collect::<V>();
    let d = Multivector::<C, A>::from_indexed_iter(x.iter().copied().enumerate()).unwrap();
    let e = d.exp();
    close("exp (dense, complex)", x, &vec(&|i| e.get_by_idx(i)), want, tol)?;
    let s = SparseMultivector::<C, A>::from_indexed_iter(x.iter().copied().enumerate().filter(|(_, c)| c.norm() != 0.)).unwrap();
    let e = s.exp();
    close("exp (sparse, complex)", x, &vec(&|i| e.get_by_idx(i)), want, tol)?;
    let e = d.fft().exp().ifft::<C>();
    close("exp (fast, complex)", x, &vec(&|i| e.get_by_idx(i)), want, tol)?;
    if x.iter().all(|c| c.im == 0.) {
        let d = Multivector::<f64, A>::from_indexed_iter(x.iter().map(|c| c.re).enumerate()).unwrap();
        let e = d.exp();
        close("exp (dense, real)", x, &vec(&|i| C::from(e.get_by_idx(i))), want, tol)?;
        let s = SparseMultivector::<f64, A>::from_indexed_iter(x.iter().map(|c| c.re).enumerate().filter(|(_, c)| *c != 0.)).unwrap();
        let e = s.exp();
        close("exp (sparse, real)", x, &vec(&|i| C::from(e.get_by_idx(i))), want, tol)?;
        let e = d.fft().exp().ifft::<f64>();
        close("exp (fast, real)", x, &vec(&|i| C::from(e.get_by_idx(i))), want, tol)?;
        chk!(s.coeff_enumerate().all(|(i, c)| C::from(*c) == x[i]), "operand changed");
    }
    Ok(())
}
fn zeros(n: usize) -> V {
    vec![C::new(0., 0.); n]
}
/// room for rounding: the number of factors times the size the result may have
fn room(x: &V) -> f64 {
    1e-13 * (1. + size(x)) * size(x).exp()
}

fn suite<A: DA + std::fmt::Debug>(run: &mut Run) {
    let sig = A::SIG;
    let (d, n) = (sig.len(), 1usize << sig.len());
    run.group(&format!("multiples of blades {}", A::NAME), 4, |r, k| {
        // closed forms: cosine and sine, hyperbolic, or linear
        let i = r.idx(d);
        let t = match k % 4 {
            0 => unit(r),
            1 => unit(r) * 10.,
            2 => r.int(-20, 20) as f64,
            _ => unit(r) * 1e-3,
        };
        let mut x = zeros(n);
        x[i] = C::from(t);
        let mut want = zeros(n);
        if i == 0 {
            want[0] = C::from(t.exp());
        } else {
            let (c, s) = match geo_sign(sig, i, i) {
                1 => (t.cosh(), t.sinh()),
                -1 => (t.cos(), t.sin()),
                _ => (1., t),
            };
            want[0] = C::from(c);
            want[i] = C::from(s);
        }
        let top = want.iter().map(|c| c.norm()).fold(1., f64::max);
        all::<A>(&x, &want, 1e-13 * (1. + t.abs()) * top)?;
        // the same along the imaginary direction
        let x: V = x.iter().map(|c| c * C::i()).collect();
        let mut want = zeros(n);
        if i == 0 {
            want[0] = C::new(t.cos(), t.sin());
        } else {
            let (c, s) = match geo_sign(sig, i, i) {
                1 => (t.cos(), t.sin()),
                -1 => (t.cosh(), t.sinh()),
                _ => (1., t),
            };
            want[0] = C::from(c);
            want[i] = C::i() * s;
        }
        let top = want.iter().map(|c| c.norm()).fold(1., f64::max);
        all::<A>(&x, &want, 1e-13 * (1. + t.abs()) * top)
    });
    run.group(&format!("large arguments {}", A::NAME), 4, |r, k| {
        // rotations by and nilpotent elements of a size of several hundreds or thousands
        let mut x = zeros(n);
        let mut want = zeros(n);
        want[0] = C::from(1.);
        let t = [260., 300., 512., 1000., 2500., 70000.][r.below(6)] + unit(r);
        let i = r.idx(d);
        if k % 2 == 0 && sig[d - 1] == 0 {
            // blades sharing a null generator annihilate each other
            x[i | 1 << (d - 1)] = C::from(t);
            x[r.idx(d) | 1 << (d - 1)] = C::from(-t / 2.);
            for j in 0..n {
                want[j] += x[j];
            }
        } else if geo_sign(sig, i, i) == -1 {
            x[i] = C::from(t);
            want[0] = C::from(t.cos());
            want[i] = C::from(t.sin());
        } else if geo_sign(sig, i, i) == 1 && i != 0 {
            x[i] = C::i() * t;
            want[0] = C::from(t.cos());
            want[i] = C::i() * t.sin();
        }
        all::<A>(&x, &want, 1e-11 * (1. + t))
    });
    run.group(&format!("multiples of idempotents {}", A::NAME), 4, |r, k| {
        // commuting blades with square one: the product of the (1 + b) is 2^k times a projection
        let sg = signs(sig);
        let mut bs: Vec<usize> = vec![];
        for _ in 0..200 {
            let b = r.below(n);
            let span = |v: &Vec<usize>| {
                let mut s = vec![0usize];
                for b in v {
                    let t: Vec<usize> = s.iter().map(|x| x ^ b).collect();
                    s.extend(t);
                }
                s
            };
            if sg[b][b] == 1 && bs.iter().all(|c| sg[b][*c] == sg[*c][b] && sg[b][*c] != 0) && !span(&bs).contains(&b) {
                bs.push(b);
            }
        }
        let mut p = zeros(n);
        p[0] = C::from(1.);
        for b in &bs {
            let mut f = zeros(n);
            f[0] = C::from(1.);
            f[*b] = C::from(if r.chance(1, 2) { 1. } else { -1. });
            p = prod(&sg, &p, &f);
        }
        let w = (1usize << bs.len()) as f64;
        let c = if k % 2 == 0 { 1. } else { unit(r) };
        let x: V = p.iter().map(|y| y * c).collect();
        let mut want: V = p.iter().map(|y| y * ((c * w).exp() - 1.) / w).collect();
        want[0] += 1.;
        let top = want.iter().map(|c| c.norm()).fold(1., f64::max);
        all::<A>(&x, &want, 2e-12 * w * (1. + c.abs() * w) * top)
    });
    if d <= 7 {
        run.group(&format!("sums of blades {}", A::NAME), 4, |r, k| {
            let sg = signs(sig);
            let mut x = zeros(n);
            let terms = if k % 2 == 0 { 3 } else { n.min(24) };
            for _ in 0..terms {
                let c = if r.chance(1, 2) { C::from(unit(r)) } else { C::new(unit(r), unit(r)) };
                x[r.below(n)] = c * if k % 2 == 0 { 2. } else { 4. / terms as f64 };
            }
            if k % 4 < 2 {
                for c in x.iter_mut() {
                    c.im = 0.;
                }
            }
            all::<A>(&x, &reference(&sg, &x), room(&x))
        });
    }
}

fn main() {
    let mut run = Run::from_args("C19");
    run.group("zero", 1, |_, _| {
        let z = Multivector::<f64, A3pm0>::default();
        chk!(z.exp() == Multivector::<f64, A3pm0>::one(), "exp of zero is {:?}", z.exp());
        chk!(z.fft().exp().ifft::<f64>() == Multivector::<f64, A3pm0>::one(), "exp of the fast zero");
        Ok(())
    });
    macro_rules! m {
        ($a:ident) => {
            suite::<$a>(&mut run);
        };
    }
    for_algs!(some, m);
    for_algs!(tiny, m);
    suite::<A6split>(&mut run);
    suite::<A8p>(&mut run);
    run.finish();
}
