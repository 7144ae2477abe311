use tclifford::algebra::ClAlgebra;
use tclifford::types::Sign;
use vdriver::*;

fn val(s: Sign) -> i8 {
    match s {
        Sign::Null => 0,
        Sign::Plus => 1,
        Sign::Minus => -1,
    }
}

fn pair<A: DA>(a: usize, b: usize) -> R {
    let sig = A::SIG;
    chk_eq!(val(A::blade_geo_product_sign(a, b)), geo_sign(sig, a, b), "{} geo sign of {a:#b} {b:#b}", A::NAME);
    chk_eq!(val(A::blade_wedge_product_sign(a, b)), wedge_sign(a, b), "{} wedge sign of {a:#b} {b:#b}", A::NAME);
    chk_eq!(val(A::ac_product_sign(a, b)), ac_sign(a, b), "{} ac sign of {a:#b} {b:#b}", A::NAME);
    chk_eq!(val(A::ac_negated_product_sign(a, b)), -ac_sign(a, b), "{} negated ac sign of {a:#b} {b:#b}", A::NAME);
    Ok(())
}

fn all_pairs<A: DA>() -> R {
    for a in 0..=A::full() {
        for b in 0..=A::full() {
            pair::<A>(a, b)?;
        }
    }
    Ok(())
}

fn sampled<A: DA>(r: &mut Rng) -> R {
    let d = A::d();
    for _ in 0..60 {
        let k = 1 + r.below(d);
        let pick = |r: &mut Rng| match r.below(8) {
            0 => A::full(),
            1 => 1usize << r.below(d),
            2 => A::full() ^ (1usize << r.below(d)),
            3 => r.idx(d) & r.idx(d) & r.idx(d),
            4 => r.idx(k),
            5 => A::full() ^ r.idx(k),
            6 => (1usize << r.below(d)) | (1usize << (d - 1)),
            _ => r.idx(d),
        };
        let (a, b) = (pick(r), pick(r));
        pair::<A>(a, b)?;
        pair::<A>(b, a)?;
        pair::<A>(a, a)?;
    }
    Ok(())
}

fn main() {
    let mut run = Run::from_args("C01");
    run.group("sign-multiplication", 1, |_, _| {
        for x in [Sign::Null, Sign::Plus, Sign::Minus] {
            for y in [Sign::Null, Sign::Plus, Sign::Minus] {
                chk_eq!(val(x * y), val(x) * val(y), "{x:?} * {y:?}");
            }
        }
        Ok(())
    });
    macro_rules! small {
        ($a:ident) => {
            if $a::d() <= 8 {
                run.group(&format!("all-pairs {}", $a::NAME), 1, |_, _| all_pairs::<$a>());
            } else {
                run.group(&format!("pairs {}", $a::NAME), 20, |r, _| sampled::<$a>(r));
            }
        };
    }
    macro_rules! large {
        ($a:ident) => {
            run.group(&format!("pairs {}", $a::NAME), 20, |r, _| sampled::<$a>(r));
            // every generator against every pair of generators
            run.group(&format!("generators {}", $a::NAME), 1, |_, _| {
                for i in 0..$a::d() {
                    for j in 0..$a::d() {
                        pair::<$a>(1 << i, 1 << j)?;
                        pair::<$a>((1 << i) | (1 << j), 1 << i)?;
                        pair::<$a>(1 << i, (1 << i) | (1 << j))?;
                        pair::<$a>($a::full() ^ (1 << i), (1 << i) | (1 << j))?;
                    }
                }
                Ok(())
            });
        };
    }
    for_algs!(dense, small);
    for_algs!(big, large);
    run.finish();
}
