// ---- the fast transform and the involutions
pub proof fn l_bits_top(k: int, t: usize, mask: usize)
    requires
        t < 63,
        0 <= k < (1usize << t),
    ensures
        flips((k + (1usize << t)) as usize, mask) == if bit(mask, t as nat) {
            opp(flips(k as usize, mask))
        } else {
            flips(k as usize, mask)
        },
        pc((k + (1usize << t)) as usize) == pc(k as usize) + 1,
        0 <= k + (1usize << t) <= usize::MAX,
{
    let h = 1usize << t;
    let x = k as usize;
    l_addtop(x, t);
    l_cnt_sum(x, h, 64);
    assert(x & h == 0) by (bit_vector)
        requires
            x < (1usize << t),
            h == (1usize << t),
            t < 63,
    ;
    l_pc_zero(64);
    l_inv_one(t, t, 64);
    assert((x ^ h) & mask == (x & mask) ^ (h & mask)) by (bit_vector);
    l_cnt_xor(x & mask, h & mask, 64);
    assert(h & mask == if ((mask >> t) & 1) == 1 { h } else { 0 }) by (bit_vector)
        requires
            h == (1usize << t),
            t < 63,
    ;
}

// sign of a blade when only the odd generators are flipped, and when products are reversed as well
pub open spec fn trs(k: int) -> Sign {
    smul(revs(k as usize), flips(k as usize, alt()))
}

pub open spec fn trv<T: Ring>(a: Seq<T>) -> Seq<T> {
    Seq::new(a.len(), |k: int| sg(trs(k), a[k]))
}

pub proof fn l_revs_step(x: usize, y: usize)
    requires
        pc(y) == pc(x) + 1,
    ensures
        revs(y) == smul(pm(odd(pc(x))), revs(x)),
{
}

pub proof fn l_sign_quart(l: int, s: int, n: nat)
    requires
        1 <= n,
        2 * n <= 62,
        0 <= s < 4,
        0 <= l < p2((2 * n - 2) as nat),
    ensures
        ({
            let k = l + qo(p2((2 * n - 2) as nat), s);
            &&& flips(k as usize, alt()) == if s >= 2 { opp(flips(l as usize, alt())) } else { flips(l as usize, alt()) }
            &&& trs(k) == if s == 0 || s == 3 { trs(l) } else if s == 1 { smul(par(l), trs(l)) } else { opp(smul(par(l), trs(l))) }
        }),
{
    let t = (2 * n - 2) as usize;
    let u = (t + 1) as usize;
    l_p2(t as nat);
    l_p2(u as nat);
    let q = p2(t as nat) as int;
    assert(p2(u as nat) == 2 * q);
    l_bits_top(l, t, alt());
    l_bits_top(l, u, alt());
    l_bits_top(l + q, u, alt());
    assert(((0xAAAA_AAAA_AAAA_AAAAusize >> t) & 1) == (t & 1)) by (bit_vector)
        requires
            t < 63,
    ;
    assert(((0xAAAA_AAAA_AAAA_AAAAusize >> u) & 1) == (u & 1)) by (bit_vector)
        requires
            u < 63,
    ;
    assert(t & 1 == t % 2) by (bit_vector);
    assert(u & 1 == u % 2) by (bit_vector);
    assert(t % 2 == 0);
    l_par_top(l, t);
}

pub proof fn l_flip_quart<T: Ring>(a: Seq<T>, n: nat, s: int)
    requires
        sqlen(a.len(), n),
        n > 0,
        0 <= s < 4,
    ensures
        quart(flipv(a, alt()), s) == sgv(if s >= 2 { Sign::Minus } else { Sign::Plus }, flipv(quart(a, s), alt())),
        quart(trv(a), s) == if s == 0 || s == 3 { trv(quart(a, s)) } else { sgv(if s == 1 { Sign::Plus } else { Sign::Minus }, alv(trv(quart(a, s)))) },
{
    l_sq(a.len(), n);
    let q = a.len() / 4;
    let e = if s >= 2 { Sign::Minus } else { Sign::Plus };
    let r = sgv(e, flipv(quart(a, s), alt()));
    let w = if s == 0 || s == 3 { trv(quart(a, s)) } else { sgv(if s == 1 { Sign::Plus } else { Sign::Minus }, alv(trv(quart(a, s)))) };
    assert(quart(flipv(a, alt()), s).len() == q);
    assert(quart(trv(a), s).len() == q);
    assert forall|l: int| 0 <= l < q implies quart(flipv(a, alt()), s)[l] == r[l] && quart(trv(a), s)[l] == w[l] by {
        l_sign_quart(l, s, n);
        let x = a[qo(q, s) + l];
        assert(quart(a, s)[l] == x);
        sg_props(Sign::Minus, flips(l as usize, alt()), x, x);
        sg_props(par(l), trs(l), x, x);
        sg_props(Sign::Minus, smul(par(l), trs(l)), x, x);
    }
    assert(quart(flipv(a, alt()), s) =~= r);
    assert(quart(trv(a), s) =~= w);
}

pub proof fn l_flip_lin<T: Ring>(a: Seq<T>, b: Seq<T>, e: Sign, mask: usize)
    requires
        a.len() == b.len(),
    ensures
        flipv(vadd(a, b), mask) == vadd(flipv(a, mask), flipv(b, mask)),
        flipv(sgv(e, a), mask) == sgv(e, flipv(a, mask)),
        flipv(flipv(a, mask), mask) == a,
        trv(vadd(a, b)) == vadd(trv(a), trv(b)),
        trv(sgv(e, a)) == sgv(e, trv(a)),
        trv(trv(a)) == a,
{
    assert forall|i: int| 0 <= i < a.len() implies flipv(vadd(a, b), mask)[i] == vadd(flipv(a, mask), flipv(b, mask))[i] && flipv(sgv(e, a), mask)[i] == sgv(
        e,
        flipv(a, mask),
    )[i] && flipv(flipv(a, mask), mask)[i] == a[i] && trv(vadd(a, b))[i] == vadd(trv(a), trv(b))[i] && trv(sgv(e, a))[i] == sgv(e, trv(a))[i] && trv(trv(a))[i] == a[i] by {
        let g = flips(i as usize, mask);
        sg_props(g, e, a[i], b[i]);
        sg_props(e, g, a[i], b[i]);
        sg_props(g, g, a[i], b[i]);
        let h = trs(i);
        sg_props(h, e, a[i], b[i]);
        sg_props(e, h, a[i], b[i]);
        sg_props(h, h, a[i], b[i]);
    }
    assert(flipv(vadd(a, b), mask) =~= vadd(flipv(a, mask), flipv(b, mask)));
    assert(flipv(sgv(e, a), mask) =~= sgv(e, flipv(a, mask)));
    assert(flipv(flipv(a, mask), mask) =~= a);
    assert(trv(vadd(a, b)) =~= vadd(trv(a), trv(b)));
    assert(trv(sgv(e, a)) =~= sgv(e, trv(a)));
    assert(trv(trv(a)) =~= a);
}

// the four blocks of a transform are transforms
pub open spec fn blk<T: Ring>(c: Seq<T>, s: int, t: int) -> Seq<T> {
    if s == t {
        let x = vadd(quart(c, 0), sgv(if s == 0 { Sign::Plus } else { Sign::Minus }, quart(c, 3)));
        if s == 0 { x } else { alv(x) }
    } else {
        let x = vadd(quart(c, 1), sgv(if s == 0 { Sign::Plus } else { Sign::Minus }, quart(c, 2)));
        if s == 0 { alv(x) } else { x }
    }
}

pub proof fn l_cl_blk<T: Ring>(c: Seq<T>, n: nat, i: int, j: int)
    requires
        sqlen(c.len(), n),
        n > 0,
        0 <= i < p2(n),
        0 <= j < p2(n),
    ensures
        ({
            let h = p2((n - 1) as nat);
            cl(c, n, i, j) == cl(blk(c, if i < h { 0 } else { 1 }, if j < h { 0 } else { 1 }), (n - 1) as nat, lw(i, h), lw(j, h))
        }),
{
    let p = (n - 1) as nat;
    let h = p2(p);
    l_sq(c.len(), n);
    let (i2, j2) = (lw(i, h), lw(j, h));
    let (c0, c1, c2, c3) = (quart(c, 0), quart(c, 1), quart(c, 2), quart(c, 3));
    let e = if i < h { Sign::Plus } else { Sign::Minus };
    let (x, y, u) = if (i < h) == (j < h) { (c0, c3, sgv(e, c3)) } else { (c1, c2, sgv(e, c2)) };
    l_cl_sg(y, e, p, i2, j2);
    l_cl_add(x, u, p, i2, j2);
    l_cl_alpha(vadd(x, u), p, i2, j2);
    T::sub_def(cl(x, p, i2, j2), cl(y, p, i2, j2));
}

// flipping the odd generators: the block automorphism of the matrices
pub proof fn th_beta<T: Ring>(c: Seq<T>, n: nat, i: int, j: int)
    requires
        sqlen(c.len(), n),
        0 <= i < p2(n),
        0 <= j < p2(n),
    ensures
        beta(clm(c, n), n, i, j) == cl(flipv(c, alt()), n, i, j),
    decreases n,
{
    l_p2(0);
    if n == 0 {
        l_pc_zero(64);
        assert(0usize & 0xAAAA_AAAA_AAAA_AAAAusize == 0) by (bit_vector);
    } else {
        let p = (n - 1) as nat;
        let h = p2(p);
        let g = h as int;
        l_sq(c.len(), n);
        let (i2, j2) = (lw(i, h), lw(j, h));
        let (s, t) = (if i < h { 1int } else { 0int }, if j < h { 1int } else { 0int });
        assert(0 * g == 0 && 1 * g == g);
        let b = blk(c, s, t);
        l_alv_lin(b, b, Sign::Plus);
        let m = alm(shm(clm(c, n), g, s, t));
        assert forall|k: int, l: int| vin2(k, l, h, h) implies #[trigger] m(k, l) == clm(alv(b), p)(k, l) by {
            l_cl_blk(c, n, k + s * g, l + t * g);
            l_cl_alpha(b, p, k, l);
        }
        l_beta_eq1(m, clm(alv(b), p), p, i2, j2);
        th_beta(alv(b), p, i2, j2);
        let f = flipv(c, alt());
        l_cl_blk(f, n, i, j);
        // flip(alv(blk(c, s, t))) is the opposite block of the flipped coefficients
        let (c0, c1, c2, c3) = (quart(c, 0), quart(c, 1), quart(c, 2), quart(c, 3));
        l_flip_quart(c, n, 0);
        l_flip_quart(c, n, 1);
        l_flip_quart(c, n, 2);
        l_flip_quart(c, n, 3);
        let e = if s == 0 { Sign::Plus } else { Sign::Minus };
        let eo = if s == 0 { Sign::Minus } else { Sign::Plus };
        let (x, y) = if s == t { (c0, c3) } else { (c1, c2) };
        let v = vadd(x, sgv(e, y));
        l_alv_lin(v, v, Sign::Plus);
        l_flip_lin(x, sgv(e, y), Sign::Plus, alt());
        l_flip_lin(y, y, e, alt());
        let (fx, fy) = (flipv(x, alt()), flipv(y, alt()));
        l_ng_ng(fy);
        l_ng_ng(fx);
        assert(sgv(eo, sgv(Sign::Minus, fy)) =~= sgv(e, fy)) by {
            l_ng_ng(fy);
            assert(sgv(Sign::Plus, ng(fy)) =~= ng(fy));
        }
        assert(flipv(v, alt()) == vadd(fx, sgv(e, fy)));
        l_flip_alv(v);
        assert(blk(f, 1 - s, 1 - t) =~= flipv(alv(b), alt()));
    }
}

pub proof fn l_flip_alv<T: Ring>(v: Seq<T>)
    ensures
        flipv(alv(v), alt()) == alv(flipv(v, alt())),
        trv(alv(v)) == alv(trv(v)),
{
    assert forall|k: int| 0 <= k < v.len() implies flipv(alv(v), alt())[k] == alv(flipv(v, alt()))[k] && trv(alv(v))[k] == alv(trv(v))[k] by {
        sg_props(par(k), flips(k as usize, alt()), v[k], v[k]);
        sg_props(flips(k as usize, alt()), par(k), v[k], v[k]);
        sg_props(par(k), trs(k), v[k], v[k]);
        sg_props(trs(k), par(k), v[k], v[k]);
    }
    assert(flipv(alv(v), alt()) =~= alv(flipv(v, alt())));
    assert(trv(alv(v)) =~= alv(trv(v)));
}

// transposition reverses products and flips the odd generators
pub proof fn th_transpose<T: Ring>(c: Seq<T>, n: nat, i: int, j: int)
    requires
        sqlen(c.len(), n),
        0 <= i < p2(n),
        0 <= j < p2(n),
    ensures
        cl(c, n, j, i) == cl(trv(c), n, i, j),
    decreases n,
{
    l_p2(0);
    if n == 0 {
        l_pc_zero(64);
        assert(0usize & 0xAAAA_AAAA_AAAA_AAAAusize == 0) by (bit_vector);
    } else {
        let p = (n - 1) as nat;
        let h = p2(p);
        l_sq(c.len(), n);
        let (i2, j2) = (lw(i, h), lw(j, h));
        let (s, t) = (if i < h { 0int } else { 1int }, if j < h { 0int } else { 1int });
        l_cl_blk(c, n, j, i);
        l_cl_blk(trv(c), n, i, j);
        th_transpose(blk(c, t, s), p, i2, j2);
        l_flip_quart(c, n, 0);
        l_flip_quart(c, n, 1);
        l_flip_quart(c, n, 2);
        l_flip_quart(c, n, 3);
        let (c0, c1, c2, c3) = (quart(c, 0), quart(c, 1), quart(c, 2), quart(c, 3));
        let (x, y) = if s == t { (c0, c3) } else { (c1, c2) };
        let e = if t == 0 { Sign::Plus } else { Sign::Minus };
        let eo = if t == 0 { Sign::Minus } else { Sign::Plus };
        let v = vadd(x, sgv(e, y));
        l_flip_alv(v);
        l_flip_lin(x, sgv(e, y), e, alt());
        l_flip_lin(y, y, e, alt());
        let (tx, ty) = (trv(x), trv(y));
        assert(trv(v) == vadd(tx, sgv(e, ty)));
        if s != t {
            // quarters of trv(c): alv(tx) and -alv(ty)
            let (ax, ay) = (alv(tx), alv(ty));
            l_ng_ng(ay);
            l_ng_ng(ax);
            assert(sgv(eo, sgv(Sign::Minus, ay)) =~= sgv(e, ay)) by {
                l_ng_ng(ng(ay));
            }
            l_alv_lin(tx, sgv(e, ty), e);
            l_alv_lin(ty, ty, e);
            let w = vadd(ax, sgv(e, ay));
            assert(w == alv(trv(v)));
            l_alv_lin(trv(v), trv(v), e);
            assert(blk(trv(c), s, t) == if s == 0 { alv(w) } else { w });
            assert(trv(blk(c, t, s)) == if t == 0 { alv(trv(v)) } else { trv(v) });
        }
        assert(blk(trv(c), s, t) =~= trv(blk(c, t, s)));
    }
}

// reversal: the block automorphism of the transpose
pub proof fn th_reversal<T: Ring>(c: Seq<T>, n: nat, i: int, j: int)
    requires
        sqlen(c.len(), n),
        0 <= i < p2(n),
        0 <= j < p2(n),
    ensures
        beta(trm(clm(c, n)), n, i, j) == cl(revv(c), n, i, j),
{
    assert forall|k: int, l: int| vin2(k, l, p2(n), p2(n)) implies #[trigger] trm(clm(c, n))(k, l) == clm(trv(c), n)(k, l) by {
        th_transpose(c, n, k, l);
    }
    l_beta_eq1(trm(clm(c, n)), clm(trv(c), n), n, i, j);
    th_beta(trv(c), n, i, j);
    assert forall|k: int| 0 <= k < c.len() implies flipv(trv(c), alt())[k] == revv(c)[k] by {
        sg_props(flips(k as usize, alt()), trs(k), c[k], c[k]);
    }
    assert(flipv(trv(c), alt()) =~= revv(c));
}

// ---- the trace
pub open spec fn tpow<T: Ring>(n: nat) -> T
    decreases n,
{
    if n == 0 {
        T::o()
    } else {
        T::a(tpow((n - 1) as nat), tpow((n - 1) as nat))
    }
}

pub open spec fn tr<T: Ring>(m: spec_fn(int, int) -> T, h: nat) -> T {
    sum(|i: int| m(i, i), h)
}

pub proof fn th_trace<T: Ring>(c: Seq<T>, n: nat)
    requires
        sqlen(c.len(), n),
    ensures
        tr(clm(c, n), p2(n)) == T::m(tpow(n), c[0]),
    decreases n,
{
    l_p2(0);
    T::mul_one(c[0]);
    let f = |i: int| clm(c, n)(i, i);
    if n == 0 {
        r_zero(c[0]);
        assert(sum(f, 1) == T::a(sum(f, 0), f(0)));
    } else {
        let p = (n - 1) as nat;
        let h = p2(p);
        l_sq(c.len(), n);
        let (x, y) = (quart(c, 0), quart(c, 3));
        let (a, b) = (blk(c, 0, 0), blk(c, 1, 1));
        let fa = |i: int| clm(a, p)(i, i);
        let fb = |i: int| clm(b, p)(i, i);
        assert forall|i: int| 0 <= i < h implies #[trigger] f(i) == fa(i) by {
            l_cl_blk(c, n, i, i);
        }
        let g = |i: int| f(h + i);
        assert forall|i: int| 0 <= i < h implies #[trigger] g(i) == fb(i) by {
            l_cl_blk(c, n, h + i, h + i);
        }
        sum_split(f, g, h, h);
        assert(p2(n) == h + h);
        sum_eq(f, fa, h);
        sum_eq(g, fb, h);
        th_trace(a, p);
        th_trace(b, p);
        l_pc_zero(64);
        let k = tpow::<T>(p);
        let (x0, y0) = (x[0], y[0]);
        assert(x0 == c[0]);
        assert(a[0] == T::a(x0, y0));
        l_par_zero();
        assert(b[0] == T::a(x0, T::n(y0)));
        T::dist_l(k, x0, y0);
        T::dist_l(k, x0, T::n(y0));
        r_mul_neg(k, y0);
        let (kx, ky) = (T::m(k, x0), T::m(k, y0));
        r_add4(kx, ky, kx, T::n(ky));
        T::add_neg(ky);
        r_zero(T::a(kx, kx));
        T::dist_r(k, k, x0);
    }
}
