use tclifford::ClError;
use vdriver::*;

fn suite<L: Lib>(run: &mut Run) {
    let d = L::A::SIG.len();
    let n = 1usize << d;
    run.group(&format!("scalar {}", L::name()), 5, |r, _| {
        let c = L::T::gen(r);
        L::diff(&L::from_scalar(c.clone()), &rscalar(c)).map_err(|e| format!("from_scalar: {e}"))?;
        L::diff(&L::one(), &rscalar(<L::T as num::One>::one())).map_err(|e| format!("one: {e}"))
    });
    run.group(&format!("vector {}", L::name()), 16, |r, k| {
        let len = match k % 8 {
            0 => 0,
            1 => d - 1,
            2 => d + 1,
            3 => d + 2 + r.below(70),
            4 => r.below(d + 1),
            _ => d,
        };
        let v: Vec<L::T> = (0..len).map(|_| L::T::gen(r)).collect();
        for (how, m) in [("from_vector", L::from_vector(v.clone())), ("from_vector_ref", L::from_vector_ref(&v))] {
            if len != d {
                chk!(matches!(m, Err(ClError::InvalidShape)), "{how} with {len} of {d} entries: {m:?}");
                continue;
            }
            let m = m.map_err(|e| format!("{how} rejected {d} entries: {e:?}"))?;
            let want: Ref<L::T> = norm(v.iter().enumerate().map(|(i, c)| (1usize << i, c.clone())).collect());
            L::diff(&m, &want).map_err(|e| format!("{how} of {v:?}: {e}"))?;
            let x = L::extract_vector(&m);
            chk!(x.len() == d && x.iter().zip(&v).all(|(p, q)| p.same(q)), "extract_vector after {how} of {v:?}: {x:?}");
        }
        Ok(())
    });
    run.group(&format!("extract {}", L::name()), 5, |r, _| {
        let (a, ra) = gen_mv::<L>(r);
        let x = L::extract_vector(&a);
        chk_eq!(x.len(), d, "length of the extracted vector");
        for i in 0..d {
            chk!(x[i].same(&rget(&ra, 1 << i)), "extract_vector of {ra:?} at {i}: {:?}", x[i]);
        }
        L::diff(&a, &ra).map_err(|e| format!("operand changed: {e}"))
    });
    run.group(&format!("pairs {}", L::name()), 16, |r, k| {
        let mut v: Vec<(usize, L::T)> = vec![];
        for _ in 0..r.below(20) {
            let i = if r.chance(1, 3) && !v.is_empty() { v[r.below(v.len())].0 } else { r.idx(d) };
            let c = if r.chance(1, 4) { <L::T as num::Zero>::zero() } else { L::T::gen(r) };
            v.push((i, c));
        }
        v.push((n - 1, L::T::gen(r)));
        let bad = k % 3 == 0;
        if bad {
            let i = match r.below(5) {
                0 => n,
                1 => n + 1,
                2 => usize::MAX,
                3 => n | r.idx(d),
                _ => n << (r.below(64 - d)),
            };
            let at = r.below(v.len() + 1);
            let c = if r.chance(1, 3) { <L::T as num::Zero>::zero() } else { L::T::gen(r) };
            v.insert(at, (i.max(n), c));
        }
        for (how, m) in [("from_indexed_iter", L::from_indexed(v.clone())), ("from_indexed_iter_ref", L::from_indexed_ref(&v))] {
            if bad {
                chk!(matches!(m, Err(ClError::IndexOutOfBounds)), "{how} of {v:?}: {m:?}");
                continue;
            }
            let m = m.map_err(|e| format!("{how} rejected {v:?}: {e:?}"))?;
            let want: Ref<L::T> = norm(v.iter().cloned().collect());
            L::diff(&m, &want).map_err(|e| format!("{how} of {v:?}: {e}"))?;
        }
        Ok(())
    });
}

fn main() {
    let mut run = Run::from_args("C10");
    for_libs!(run, suite);
    run.finish();
}
