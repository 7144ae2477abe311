use vdriver::*;

fn suite<L: Lib>(run: &mut Run) {
    let d = L::A::SIG.len();
    let sig = L::A::SIG;
    run.group(&format!("signs {}", L::name()), 10, |r, _| {
        let (a, ra) = gen_mv::<L>(r);
        let mask = match r.below(6) {
            0 => 0,
            1 => usize::MAX,
            2 => 1usize << r.below(d),
            3 => r.next() as usize,
            _ => r.idx(d),
        };
        L::diff(&L::rev(&a), &rrev(&ra)).map_err(|e| format!("rev of {ra:?}: {e}"))?;
        L::diff(&L::flip(&a), &rflip(&ra, usize::MAX)).map_err(|e| format!("flip of {ra:?}: {e}"))?;
        L::diff(&L::flip_subspace(&a, mask), &rflip(&ra, mask)).map_err(|e| format!("flip_subspace({mask:#b}) of {ra:?}: {e}"))?;
        L::diff(&L::rev(&L::rev(&a)), &ra).map_err(|e| format!("rev twice: {e}"))?;
        L::diff(&L::flip(&L::flip(&a)), &ra).map_err(|e| format!("flip twice: {e}"))?;
        L::diff(&L::flip_subspace(&L::flip_subspace(&a, mask), mask), &ra).map_err(|e| format!("flip_subspace twice: {e}"))?;
        L::diff(&a, &ra).map_err(|e| format!("operand changed: {e}"))
    });
    run.group(&format!("each blade {}", L::name()), 1, |r, _| {
        let n = if d <= 8 { 1usize << d } else { 120 };
        for k in 0..n {
            let i = if d <= 8 { k } else { r.idx(d) };
            let c = L::T::nonzero(r);
            let m = L::set(L::zero(), i, c.clone());
            let ra = Ref::from([(i, c)]);
            L::diff(&L::rev(&m), &rrev(&ra)).map_err(|e| format!("rev of {ra:?}: {e}"))?;
            L::diff(&L::flip(&m), &rflip(&ra, usize::MAX)).map_err(|e| format!("flip of {ra:?}: {e}"))?;
        }
        Ok(())
    });
    run.group(&format!("morphisms {}", L::name()), 2, |r, _| {
        let (a, ra) = gen_mv::<L>(r);
        let (b, rb) = gen_rel::<L>(r, &ra);
        let mask = r.idx(d);
        let p = rgeo(sig, &ra, &rb);
        let ctx = || format!("a={ra:?} b={rb:?}");
        let w = rwedge(&ra, &rb);
        L::diff(&L::mul(&L::flip(&a), &L::flip(&b), 3), &rflip(&p, usize::MAX)).map_err(|e| format!("flip a * flip b, {}: {e}", ctx()))?;
        L::diff(&L::wedge(&L::flip_subspace(&a, mask), &L::flip_subspace(&b, mask)), &rflip(&w, mask)).map_err(|e| format!("flips and wedge, {}: {e}", ctx()))?;
        L::diff(&L::mul(&L::flip_subspace(&a, mask), &L::flip_subspace(&b, mask), 3), &rflip(&p, mask)).map_err(|e| format!("flips and product, {}: {e}", ctx()))?;
        if L::T::COMMUTATIVE {
            L::diff(&L::mul(&L::rev(&b), &L::rev(&a), 3), &rrev(&p)).map_err(|e| format!("rev b * rev a, {}: {e}", ctx()))?;
        }
        Ok(())
    });
}

fn main() {
    let mut run = Run::from_args("C06");
    for_libs!(run, suite);
    run.finish();
}
