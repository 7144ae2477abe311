use vdriver::*;

fn suite<L: Lib>(run: &mut Run) {
    let d = L::A::SIG.len();
    run.group(&format!("dual {}", L::name()), 10, |r, _| {
        let (a, ra) = gen_mv::<L>(r);
        let du = L::dual(&a);
        let un = L::undual(&a);
        L::diff(&du, &rdual(d, &ra)).map_err(|e| format!("dual of {ra:?}: {e}"))?;
        L::diff(&un, &rundual(d, &ra)).map_err(|e| format!("undual of {ra:?}: {e}"))?;
        L::diff(&L::undual(&du), &ra).map_err(|e| format!("undual of dual of {ra:?}: {e}"))?;
        L::diff(&L::dual(&un), &ra).map_err(|e| format!("dual of undual of {ra:?}: {e}"))?;
        L::diff(&a, &ra).map_err(|e| format!("operand changed: {e}"))
    });
    run.group(&format!("meet {}", L::name()), 12, |r, _| {
        let (a, ra) = gen_mv::<L>(r);
        let (b, rb) = gen_rel::<L>(r, &ra);
        let (x, rx, y, ry) = if r.chance(1, 2) {
            (L::dual(&a), rdual(d, &ra), L::undual(&b), rundual(d, &rb))
        } else {
            (a, ra, b, rb)
        };
        let want = rundual(d, &rwedge(&rdual(d, &rx), &rdual(d, &ry)));
        L::diff(&L::meet(&x, &y), &want).map_err(|e| format!("meet of a={rx:?} b={ry:?}: {e}"))?;
        L::diff(&L::naive_meet(&x, &y), &want).map_err(|e| format!("naive meet of a={rx:?} b={ry:?}: {e}"))?;
        let m = L::undual(&L::wedge(&L::dual(&x), &L::dual(&y)));
        L::diff(&m, &want).map_err(|e| format!("undual of wedge of duals of a={rx:?} b={ry:?}: {e}"))?;
        L::diff(&x, &rx).map_err(|e| format!("left operand changed: {e}"))?;
        L::diff(&y, &ry).map_err(|e| format!("right operand changed: {e}"))
    });
}

fn main() {
    let mut run = Run::from_args("C05");
    for_libs!(run, suite);
    macro_rules! more {
        ($a:ident) => {
            suite::<Dense<M2, $a>>(&mut run);
        };
    }
    for_algs!(@ more A5a A6a A6z A8p A9a);
    run.finish();
}
