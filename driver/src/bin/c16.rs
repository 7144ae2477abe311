use num::One;
use tclifford::Multivector;
use vdriver::*;

fn suite<L: Lib>(run: &mut Run) {
    let sig = L::A::SIG;
    run.group(&format!("powers {}", L::name()), 6, |r, _| {
        let d = sig.len();
        let float = ["f32", "Complex32", "Complex64", "f64", "Quaternion<f64>", "i64"].contains(&L::T::NAME);
        let top = if float { 5 } else { 14 };
        let ra: Ref<L::T> = rgen(r, d, if d > 6 { 3 } else { 5 });
        let ra: Ref<L::T> = ra.into_iter().take(6).map(|(i, c)| (i, c)).collect();
        let a = L::from_ref(&ra);
        let mut want = rscalar(<L::T as One>::one());
        for n in 0..top {
            L::diff(&L::pow(&a, n), &want).map_err(|e| format!("power {n} of {ra:?}: {e}"))?;
            want = rgeo(sig, &want, &ra);
            if want.len() > 300 {
                break;
            }
        }
        let (m, n) = (r.below(4), r.below(4));
        if ra.len() <= 4 {
            let l = L::mul(&L::pow(&a, m), &L::pow(&a, n), 3);
            chk!(l == L::pow(&a, m + n), "a^{m} a^{n} != a^{} for {ra:?}", m + n);
        }
        L::diff(&a, &ra).map_err(|e| format!("operand changed: {e}"))
    });
    run.group(&format!("large exponents {}", L::name()), 2, |r, _| {
        // signed blades: powers are known for every exponent
        let d = sig.len();
        let i = r.idx(d);
        let one = <L::T as One>::one();
        let a = L::set(L::zero(), i, one.clone());
        let s = geo_sign(sig, i, i);
        for n in [15usize, 16, 17, 31, 32, 33, 63, 100, 127, 128, 255, 1000, 1023, 65537, usize::MAX, usize::MAX - 1] {
            let want = if i == 0 {
                rscalar(one.clone())
            } else {
                let sg = if s == 1 || (s == -1 && (n / 2) % 2 == 0) { 1 } else { s };
                norm(Ref::from([(if n % 2 == 0 { 0 } else { i }, sgn(sg, &one))]))
            };
            L::diff(&L::pow(&a, n), &want).map_err(|e| format!("power {n} of blade {i:#b}: {e}"))?;
        }
        Ok(())
    });
}
fn fft<A: DA + std::fmt::Debug>(run: &mut Run) {
    run.group(&format!("fast powers {}", A::NAME), 6, |r, _| {
        let ra: Ref<f64> = rgen(r, A::d(), 4).into_iter().take(4).map(|(i, c): (usize, f64)| (i, c.signum() * (c.abs() % 4.))).collect();
        let a = Dense::<f64, A>::from_ref(&ra);
        let f = a.fft();
        let mut want = rscalar(1.0);
        for n in 0..8 {
            let p: Multivector<f64, A> = f.pow(n).ifft();
            Dense::<f64, A>::diff(&p, &want).map_err(|e| format!("power {n} of the representation of {ra:?}: {e}"))?;
            want = rgeo(A::SIG, &want, &ra);
        }
        Ok(())
    });
}

fn main() {
    let mut run = Run::from_args("C16");
    for_libs!(run, suite);
    suite::<Dense<Fp, A3pm0>>(&mut run);
    suite::<Dense<Fp, A6a>>(&mut run);
    macro_rules! m {
        ($a:ident) => {
            fft::<$a>(&mut run);
        };
    }
    for_algs!(some, m);
    run.finish();
}
