use vdriver::*;

fn suite<L: Lib>(run: &mut Run) {
    let sig = L::A::SIG;
    run.group(&format!("product {}", L::name()), 12, |r, _| {
        let (a, ra) = gen_mv::<L>(r);
        let (b, rb) = gen_rel::<L>(r, &ra);
        let want = rgeo(sig, &ra, &rb);
        for form in 0..4 {
            let p = L::mul(&a, &b, form);
            L::diff(&p, &want).map_err(|e| format!("a*b (form {form}), a={ra:?} b={rb:?}: {e}"))?;
        }
        L::diff(&L::naive_mul(&a, &b), &want).map_err(|e| format!("naive a*b, a={ra:?} b={rb:?}: {e}"))?;
        L::diff(&a, &ra).map_err(|e| format!("left operand changed: {e}"))?;
        L::diff(&b, &rb).map_err(|e| format!("right operand changed: {e}"))?;
        L::diff(&L::mul(&L::one(), &a, 3), &ra).map_err(|e| format!("1*a, a={ra:?}: {e}"))?;
        L::diff(&L::mul(&a, &L::one(), 3), &ra).map_err(|e| format!("a*1, a={ra:?}: {e}"))?;
        Ok(())
    });
    run.group(&format!("laws {}", L::name()), 3, |r, _| {
        let (a, ra) = gen_mv::<L>(r);
        let (b, rb) = gen_rel::<L>(r, &ra);
        let (c, rc) = gen_mv::<L>(r);
        let l = L::mul(&L::mul(&a, &b, 3), &c, 3);
        let q = L::mul(&a, &L::mul(&b, &c, 3), 3);
        chk!(l == q, "(ab)c != a(bc) for a={ra:?} b={rb:?} c={rc:?}: {l:?} vs {q:?}");
        let l = L::mul(&L::add(&a, &b, 3), &c, 3);
        let q = L::add(&L::mul(&a, &c, 3), &L::mul(&b, &c, 3), 3);
        chk!(l == q, "(a+b)c != ac+bc for a={ra:?} b={rb:?} c={rc:?}");
        let l = L::mul(&c, &L::add(&a, &b, 3), 3);
        let q = L::add(&L::mul(&c, &a, 3), &L::mul(&c, &b, 3), 3);
        chk!(l == q, "c(a+b) != ca+cb for a={ra:?} b={rb:?} c={rc:?}");
        Ok(())
    });
    run.group(&format!("relations {}", L::name()), 1, |_, _| {
        let one = <L::T as num::One>::one();
        let d = sig.len();
        for i in 0..d {
            for j in 0..d {
                if d > 20 && (i * 7 + j) % 5 != 0 && i != j {
                    continue;
                }
                let a = L::set(L::zero(), 1 << i, one.clone());
                let b = L::set(L::zero(), 1 << j, one.clone());
                let s = L::add(&L::mul(&a, &b, 3), &L::mul(&b, &a, 3), 3);
                let mut want = Ref::new();
                if i == j {
                    want.insert(0, sgn(sig[i], &one.addr(&one)));
                }
                L::diff(&s, &norm(want)).map_err(|e| format!("e{i} e{j} + e{j} e{i}: {e}"))?;
            }
        }
        Ok(())
    });
}

fn main() {
    let mut run = Run::from_args("C03");
    for_libs!(run, suite);
    run.finish();
}
