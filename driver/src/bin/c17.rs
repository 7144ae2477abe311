use num::{One, Zero};
use tclifford::quaternion::Quaternion;
use vdriver::*;

fn units<T: Field>(run: &mut Run) {
    type Q<T> = Quaternion<T>;
    run.group(&format!("units {}", T::NAME), 1, |_, _| {
        let (i, j, k) = (Q::<T>::i(), Q::<T>::j(), Q::<T>::k());
        let m = -Q::<T>::one();
        chk!(i * i == m && j * j == m && k * k == m, "squares of units");
        chk!(i * j * k == m, "i*j*k = {:?}", i * j * k);
        chk!(i * j == k && j * k == i && k * i == j, "cyclic products");
        chk!(j * i == -k && k * j == -i && i * k == -j, "reversed products");
        for (n, q) in [("i", i), ("j", j), ("k", k)] {
            let nz = (0..4).filter(|x| !q.get_by_idx(*x).is_zero()).count();
            chk!(nz == 1 && q.get_by_idx(0).is_zero(), "unit {n} is {q:?}");
        }
        Ok(())
    });
    run.group(&format!("conjugate {}", T::NAME), 20, |r, _| {
        let (a, ra) = gen_mv::<Quat<T>>(r);
        let (b, rb) = gen_rel::<Quat<T>>(r, &ra);
        let want = rmap(&ra, |i, c| (i, if i == 0 { c.clone() } else { c.negr() }));
        Quat::<T>::diff(&a.conj(), &want).map_err(|e| format!("conj of {ra:?}: {e}"))?;
        if T::COMMUTATIVE {
            chk!((a * b).conj() == b.conj() * a.conj(), "conj(ab) != conj(b) conj(a), a={ra:?} b={rb:?}");
        }
        let n = ra.values().fold(T::zero(), |s, c| s.addr(&c.mulr(c)));
        Quat::<T>::diff(&(a * a.conj()), &rscalar(n)).map_err(|e| format!("a conj(a), a={ra:?}: {e}"))?;
        Quat::<T>::diff(&a, &ra)
    });
}

macro_rules! division {
    ($run:ident, $n:expr, $L:ty, $exact:expr) => {
        $run.group(&format!("division {}", $n), 20, |r, _| {
            let (a, ra) = gen_mv::<$L>(r);
            let (b, rb) = gen_rel::<$L>(r, &ra);
            let n = rget(&rgeo(<$L as Lib>::A::SIG, &rb, &rrev(&rflip(&rb, usize::MAX))), 0);
            if n.is_zero() {
                return Ok(());
            }
            let qs = [&a / &b, &a / b.clone(), a.clone() / &b, a.clone() / b.clone()];
            for (f, q) in qs.iter().enumerate() {
                let back = q * &b;
                if $exact {
                    <$L>::diff(&back, &ra).map_err(|e| format!("(a/b)*b form {f}, a={ra:?} b={rb:?}: {e}"))?;
                } else {
                    chk!(back.approx_eq_by(&a), "(a/b)*b form {f}, a={ra:?} b={rb:?}: {back:?}");
                }
            }
            <$L>::diff(&a, &ra).map_err(|e| format!("left operand changed: {e}"))?;
            <$L>::diff(&b, &rb).map_err(|e| format!("right operand changed: {e}"))
        });
    };
}
trait Approx {
    fn approx_eq_by(&self, o: &Self) -> bool;
}
macro_rules! approx {
    ($($t:ty),*) => { $( impl Approx for $t { fn approx_eq_by(&self, o: &Self) -> bool { self.approx_eq(o, 1e-9) } } )* };
}
type Qd<T> = Quaternion<T>;
macro_rules! exact {
    ($($t:ty),*) => { $( impl Approx for $t { fn approx_eq_by(&self, o: &Self) -> bool { self == o } } )* };
}
approx!(Qd<f64>, Qd<Complex64>, tclifford::Multivector<f64, A2mm>, tclifford::SparseMultivector<f64, A2mm>, tclifford::Multivector<f64, A1m>, tclifford::SparseMultivector<Complex64, A1m>);
exact!(Qd<Fp>, tclifford::Multivector<Fp, A2mm>, tclifford::SparseMultivector<Fp, A2mm>, tclifford::Multivector<Fp, A1m>, tclifford::SparseMultivector<Fp, A1m>);

fn main() {
    let mut run = Run::from_args("C17");
    units::<f64>(&mut run);
    units::<Fp>(&mut run);
    units::<Complex64>(&mut run);
    run.group("units over quaternions", 1, |_, _| {
        type Q = Quaternion<Q64>;
        let (i, j, k, m) = (Q::i(), Q::j(), Q::k(), -Q::one());
        chk!(i * i == m && j * j == m && k * k == m && i * j * k == m, "nested units");
        Ok(())
    });
    run.group("norm", 40, |r, k| {
        // Pythagorean parts: the root is exact
        let q = [[1, 2, 2, 4], [1, 1, 1, 1], [2, 4, 5, 6], [0, 0, 3, 4], [0, 0, 0, 7], [0, 0, 0, 0], [1, 3, 3, 9], [2, 3, 6, 0]][k as usize % 8];
        let n = q.iter().map(|x| x * x).sum::<i64>() as f64;
        let mut p = q;
        for i in (1..4).rev() {
            p.swap(i, r.below(i + 1));
        }
        let s = [1., -1., 0.25, 1024.][r.below(4)];
        let mut a = Quaternion::<f64>::zero();
        let mut b = Quaternion::<Complex64>::zero();
        for i in 0..4 {
            let v = p[i] as f64 * s * [1., -1.][r.below(2)];
            a = a.set_by_idx(i, v);
            b = b.set_by_idx(i, if r.chance(1, 2) { Complex64::new(v, 0.) } else { Complex64::new(0., v) });
        }
        let want = n.sqrt() * f64::abs(s);
        chk!((tclifford::Norm::norm(&a) - want).abs() <= 1e-12 * want, "norm of {a:?} is {}", tclifford::Norm::norm(&a));
        chk!((tclifford::Norm::norm(&b) - want).abs() <= 1e-12 * want, "norm of {b:?} is {}", tclifford::Norm::norm(&b));
        Ok(())
    });
    division!(run, "quaternion Fp", Quat<Fp>, true);
    division!(run, "quaternion f64", Quat<f64>, false);
    division!(run, "quaternion Complex64", Quat<Complex64>, false);
    division!(run, "dense [--] Fp", Dense<Fp, A2mm>, true);
    division!(run, "sparse [--] Fp", Sparse<Fp, A2mm>, true);
    division!(run, "dense [-] Fp", Dense<Fp, A1m>, true);
    division!(run, "sparse [-] Fp", Sparse<Fp, A1m>, true);
    division!(run, "dense [--] f64", Dense<f64, A2mm>, false);
    division!(run, "sparse [--] f64", Sparse<f64, A2mm>, false);
    division!(run, "dense [-] f64", Dense<f64, A1m>, false);
    division!(run, "sparse [-] Complex64", Sparse<Complex64, A1m>, false);
    run.finish();
}
