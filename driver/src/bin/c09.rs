use num::Zero;
use std::collections::BTreeSet;
use std::fmt::Debug;
use tclifford::algebra::ClAlgebra;
use tclifford::{Multivector, SparseMultivector};
use vdriver::*;

fn binom(n: usize, k: usize) -> usize {
    if k > n {
        return 0;
    }
    let mut r = 1u128;
    for i in 0..k {
        r = r * (n - i) as u128 / (i + 1) as u128;
        if r > 1 << 60 {
            return usize::MAX;
        }
    }
    r as usize
}
fn grade_of(g: usize, d: usize, r: &mut Rng) -> usize {
    match g % 5 {
        0 => r.below(d + 1),
        1 => d + 1 + r.below(3),
        2 => match r.below(4) {
            0 => usize::MAX,
            1 => usize::MAX - 1,
            2 => 1usize << 63,
            _ => (1usize << 32) + r.below(d + 1),
        },
        _ => r.below(d + 1),
    }
}

fn indices<A: DA>(run: &mut Run) {
    let d = A::d();
    let mut gs: Vec<usize> = (0..=d + 3).collect();
    gs.extend([64, 65, usize::MAX, usize::MAX - 1, 1usize << 63, (1usize << 63) - 1, 1usize << 32, (1usize << 32) + 1, (1 << 32) + d]);
    run.group(&format!("grade indices {}", A::NAME), 1, |_, _| {
        for g in gs.iter() {
            let total = binom(d, *g);
            let limit = 200_000usize;
            let mut seen = BTreeSet::new();
            for i in A::grade_index_iter(*g).take(limit) {
                chk!(i < 1usize << d, "grade {g}: index {i:#b} outside");
                chk_eq!(word(i).len(), *g, "grade {g}: weight of {i:#b}");
                chk!(seen.insert(i), "grade {g}: index {i:#b} repeated");
                if total > limit && seen.len() > 5000 {
                    break;
                }
            }
            if total <= limit {
                chk_eq!(seen.len(), total, "grade {g}: number of indices");
                let mut it = A::grade_index_iter(*g);
                for _ in 0..total {
                    it.next();
                }
                chk!(it.next().is_none() && it.next().is_none(), "grade {g}: iterator restarts");
            }
        }
        Ok(())
    });
}

fn suite<L: Lib>(run: &mut Run) {
    let d = L::A::SIG.len();
    run.group(&format!("grade parts {}", L::name()), 15, |r, k| {
        let (a, ra) = gen_mv::<L>(r);
        let g = grade_of(k as usize, d, r);
        if d > 12 && L::KIND == "dense" {
            return Ok(());
        }
        let want: Ref<L::T> = ra.iter().filter(|(i, _)| word(**i).len() == g).map(|(i, c)| (*i, c.clone())).collect();
        let mut seen = BTreeSet::new();
        for (i, c) in L::grade_enumerate(&a, g) {
            chk!(word(i).len() == g && i < 1usize << d, "grade_enumerate({g}) reports index {i:#b}");
            chk!(seen.insert(i), "grade_enumerate({g}) repeats index {i:#b}");
            chk!(c.same(&rget(&ra, i)), "grade_enumerate({g}) reports {c:?} at {i:#b}, a={ra:?}");
        }
        for i in want.keys() {
            chk!(seen.contains(i), "grade_enumerate({g}) misses {i:#b}, a={ra:?}");
        }
        L::diff(&L::grade_extract(&a, g), &want).map_err(|e| format!("grade_extract({g}) of {ra:?}: {e}"))?;
        let s = L::grade_extract_sparse(&a, g);
        for (i, c) in s.coeff_enumerate() {
            chk!(c.same(&rget(&want, i)), "grade_extract_as sparse({g}): {c:?} at {i:#b}");
        }
        for (i, c) in &want {
            chk!(s.get_by_idx(*i).same(c), "grade_extract_as sparse({g}) at {i:#b}");
        }
        if L::can_densify() {
            let s = L::grade_extract_dense(&a, g);
            for (i, c) in s.coeff_enumerate() {
                chk!(c.same(&rget(&want, i)), "grade_extract_as dense({g}): {c:?} at {i:#b}");
            }
            for (i, c) in &want {
                chk!(s.get_by_idx(*i).same(c), "grade_extract_as dense({g}) at {i:#b}");
            }
        }
        L::diff(&a, &ra).map_err(|e| format!("operand changed: {e}"))
    });
}

fn filters<T: Coef, A: DA + Debug>(run: &mut Run, dense: bool) {
    let d = A::d();
    run.group(&format!("filters {}", Sparse::<T, A>::name()), 15, |r, k| {
        type L<T, A> = Sparse<T, A>;
        let (a, ra) = gen_mv::<L<T, A>>(r);
        let a: SparseMultivector<T, A> = a;
        let n = r.below(4);
        let gs: Vec<usize> = (0..n).map(|j| grade_of(k as usize + j, d, r)).collect();
        let want: Ref<T> = ra.iter().filter(|(i, _)| gs.contains(&word(**i).len())).map(|(i, c)| (*i, c.clone())).collect();
        L::<T, A>::diff(&a.grades_extract(&gs), &want).map_err(|e| format!("grades_extract({gs:?}) of {ra:?}: {e}"))?;
        let mut b = a.clone();
        b.retain_grades(&gs);
        L::<T, A>::diff(&b, &want).map_err(|e| format!("retain_grades({gs:?}) of {ra:?}: {e}"))?;
        chk!(b == a.grades_extract(&gs), "retain_grades and grades_extract differ");
        let (m, x) = (r.idx(d), T::gen(r));
        let want: Ref<T> = ra.iter().filter(|(i, c)| **i & m != 0 || c.same(&&x)).map(|(i, c)| (*i, c.clone())).collect();
        L::<T, A>::diff(&a.clone().filtered(|i, c| *i & m != 0 || *c == x), &want).map_err(|e| format!("filtered of {ra:?}: {e}"))?;
        let mut b = a.clone();
        b.filter_inplace(|i, c| *i & m != 0 || *c == x);
        L::<T, A>::diff(&b, &want).map_err(|e| format!("filter_inplace of {ra:?}: {e}"))?;
        chk!(a.coeff_count() == ra.len(), "coeff_count of {ra:?}: {}", a.coeff_count());
        L::<T, A>::diff(&a, &ra)
    });
    if dense {
        run.group(&format!("filters {}", Dense::<T, A>::name()), 15, |r, _| {
            type L<T, A> = Dense<T, A>;
            let (a, ra) = gen_mv::<L<T, A>>(r);
            let a: Multivector<T, A> = a;
            let (m, x) = (r.idx(d), T::gen(r));
            let want: Ref<T> = ra.iter().filter(|(i, c)| **i & m != 0 || c.same(&&x)).map(|(i, c)| (*i, c.clone())).collect();
            L::<T, A>::diff(&a.filter(|i, c| i & m != 0 || *c == x), &want).map_err(|e| format!("filter of {ra:?}: {e}"))?;
            L::<T, A>::diff(&a.filter(|_, _| true), &ra)?;
            L::<T, A>::diff(&a.filter(|_, _| false), &Ref::new())?;
            L::<T, A>::diff(&a, &ra)
        });
    }
    let _ = T::zero();
}

fn main() {
    let mut run = Run::from_args("C09");
    macro_rules! m {
        ($a:ident) => {
            indices::<$a>(&mut run);
        };
    }
    for_algs!(dense, m);
    for_algs!(big, m);
    for_libs!(run, suite);
    filters::<i64, A1z>(&mut run, true);
    filters::<i64, A3pm0>(&mut run, true);
    filters::<M2, A4st>(&mut run, true);
    filters::<i64, A6a>(&mut run, true);
    filters::<i64, A9a>(&mut run, true);
    filters::<i64, A20a>(&mut run, false);
    filters::<i64, A40a>(&mut run, false);
    filters::<i64, A63a>(&mut run, false);
    run.finish();
}
