use vdriver::*;

fn suite<L: Lib>(run: &mut Run) {
    run.group(&format!("wedge {}", L::name()), 14, |r, _| {
        let (a, ra) = gen_mv::<L>(r);
        let (b, rb) = gen_rel::<L>(r, &ra);
        let want = rwedge(&ra, &rb);
        L::diff(&L::wedge(&a, &b), &want).map_err(|e| format!("wedge of a={ra:?} b={rb:?}: {e}"))?;
        L::diff(&L::naive_wedge(&a, &b), &want).map_err(|e| format!("naive wedge of a={ra:?} b={rb:?}: {e}"))?;
        L::diff(&a, &ra).map_err(|e| format!("left operand changed: {e}"))?;
        L::diff(&b, &rb).map_err(|e| format!("right operand changed: {e}"))?;
        Ok(())
    });
    run.group(&format!("vectors {}", L::name()), 2, |r, _| {
        let d = L::A::SIG.len();
        let mut m = L::one();
        let mut rm = rscalar(<L::T as num::One>::one());
        for _ in 0..4 {
            let mut v = Ref::new();
            for _ in 0..3 {
                v.insert(1usize << r.below(d), L::T::gen(r));
            }
            let v = norm(v);
            m = L::wedge(&m, &L::from_ref(&v));
            rm = rwedge(&rm, &v);
            L::diff(&m, &rm).map_err(|e| format!("iterated wedge: {e}"))?;
        }
        Ok(())
    });
}

fn main() {
    let mut run = Run::from_args("C04");
    for_libs!(run, suite);
    macro_rules! more {
        ($a:ident) => {
            suite::<Dense<M2, $a>>(&mut run);
        };
    }
    for_algs!(@ more A5a A6a A6z A8p A9a A10a);
    run.finish();
}
