// ---- the transform of complex coefficients, every generator squaring to plus one
pub open spec fn ft(c: Seq<Complex64>, i: int, j: int) -> Complex64 {
    cl(ipx(c), upn(c.len()), i, j)
}

pub open spec fn ftm(c: Seq<Complex64>) -> spec_fn(int, int) -> Complex64 {
    |i: int, j: int| ft(c, i, j)
}

pub open spec fn upl(d: usize) -> nat {
    ((d + 1) / 2) as nat
}

pub proof fn l_upl(c: nat, d: usize)
    requires
        dimlen(c, d),
        d <= 62,
    ensures
        lgn(c) == d,
        upn(c) == upl(d),
        2 * upl(d) <= 62,
        sqlen(p2(2 * upl(d)), upl(d)),
        c == p2(d as nat),
        c <= p2(2 * upl(d)),
        d % 2 == 0 ==> p2(2 * upl(d)) == c,
        d % 2 == 1 ==> p2(2 * upl(d)) == 2 * c,
{
    l_lgn(c, d);
    l_p2(d as nat);
    l_p2_mono(d as nat, 2 * upl(d));
    if d % 2 == 0 {
        assert(2 * upl(d) == d);
    } else {
        assert(2 * upl(d) == d + 1);
    }
}

pub proof fn l_tocv(c: Seq<Complex64>)
    ensures
        tocv(c) == c,
{
    assert(tocv(c) =~= c);
}

pub proof fn l_ipx<T: IntoComplex64>(c: Seq<T>)
    ensures
        ipx(c) == tw(zx(tocv(c), p2(2 * upn(c.len()))), alt(), true),
{
    let n = p2(2 * upn(c.len()));
    assert forall|k: int| 0 <= k < n implies ipx(c)[k] == tw(zx(tocv(c), n), alt(), true)[k] by {
        r_mul_zero(ip(iw(k)));
    }
    assert(ipx(c) =~= tw(zx(tocv(c), n), alt(), true));
}

pub proof fn l_zx_same<T: Ring>(c: Seq<T>)
    ensures
        zx(c, c.len()) == c,
{
    assert(zx(c, c.len()) =~= c);
}

// ---- the transform and its inverse
pub proof fn th_ft_back(c: Seq<Complex64>, d: usize)
    requires
        dimlen(c.len(), d),
        d <= 62,
    ensures
        iicl(ftm(c), upl(d)) == zx(c, p2(2 * upl(d))),
{
    l_upl(c.len(), d);
    l_ipx(c);
    l_tocv(c);
    l_ctwo();
    let n = upl(d);
    let z = zx(c, p2(2 * n));
    let w = ipx(c);
    l_tw_inv(z, alt(), true);
    assert(tw(w, alt(), false) == z);
    assert(w.len() == p2(2 * n));
    assert forall|k: int| 0 <= k < p2(2 * n) implies iicl(ftm(c), n)[k] == z[k] by {
        assert forall|i: int, j: int| 0 <= i < p2(n) && 0 <= j < p2(n) implies #[trigger] ftm(c)(i, j) == clm(w, n)(i, j) by {}
        l_icl_eq(ftm(c), clm(w, n), n, k);
        th_inv_of_fwd(w, n, k);
        assert(tw(w, alt(), false)[k] == z[k]);
    }
    assert(iicl(ftm(c), n) =~= z);
}

pub proof fn th_ft_forth(m: spec_fn(int, int) -> Complex64, n: nat, i: int, j: int)
    requires
        2 * n <= 62,
        0 <= i < p2(n),
        0 <= j < p2(n),
    ensures
        ft(iicl(m, n), i, j) == m(i, j),
{
    let c = iicl(m, n);
    let d = (2 * n) as usize;
    l_p2(2 * n);
    l_upl(c.len(), d);
    l_ipx(c);
    l_tocv(c);
    l_zx_same(c);
    l_ctwo();
    let w = iclv(m, n);
    assert(c =~= tw(w, alt(), false));
    l_tw_inv(w, alt(), false);
    assert(ipx(c) == w);
    th_fwd_of_inv(m, n, i, j);
}

// ---- products
pub proof fn l_altsig(n: nat)
    requires
        2 * n <= 62,
    ensures
        altsig(alt(), 0, n),
{
    assert forall|t: usize| t < 2 * n implies #[trigger] gsq(t, alt(), 0) == if t % 2 == 1 {
        Sign::Minus
    } else {
        Sign::Plus
    } by {
        assert(((0usize >> t) & 1) == 0) by (bit_vector);
        assert((((0xAAAA_AAAA_AAAA_AAAAusize >> t) & 1) == 1) == (t % 2 == 1)) by (bit_vector)
            requires
                t < 62,
        ;
    }
}

pub proof fn l_zx_mul<T: Ring>(a: Seq<T>, b: Seq<T>, im: usize, pr: usize, d: usize)
    requires
        dimlen(a.len(), d),
        b.len() == a.len(),
        d <= 62,
    ensures
        zx(prod(a, b, im, pr), p2(2 * upl(d))) == prod(zx(a, p2(2 * upl(d))), zx(b, p2(2 * upl(d))), im, pr),
{
    l_upl(a.len(), d);
    if d % 2 == 0 {
        l_zx_same(a);
        l_zx_same(b);
        l_zx_same(prod(a, b, im, pr));
    } else {
        l_zx_prod(a, b, im, pr, d);
    }
}

pub proof fn th_ft_hom(a: Seq<Complex64>, b: Seq<Complex64>, d: usize, i: int, j: int)
    requires
        dimlen(a.len(), d),
        b.len() == a.len(),
        d <= 62,
        0 <= i < p2(upl(d)),
        0 <= j < p2(upl(d)),
    ensures
        ft(prod(a, b, 0, 0), i, j) == mm(ftm(a), ftm(b), p2(upl(d)), i, j),
{
    let n = upl(d);
    let z = p2(2 * n);
    l_upl(a.len(), d);
    l_p2(2 * n);
    let p = prod(a, b, 0, 0);
    l_ipx(a);
    l_ipx(b);
    l_ipx(p);
    l_tocv(a);
    l_tocv(b);
    l_tocv(p);
    l_zx_mul(a, b, 0, 0, d);
    th_tw(zx(a, z), zx(b, z), alt(), true, 0, 0, (2 * n) as usize);
    assert(0 ^ alt() == alt()) by {
        assert(0usize ^ 0xAAAA_AAAA_AAAA_AAAAusize == 0xAAAA_AAAA_AAAA_AAAAusize) by (bit_vector);
    }
    l_altsig(n);
    th_hom(ipx(a), ipx(b), alt(), 0, n, i, j);
    assert forall|k: int| 0 <= k < p2(n) implies #[trigger] ftm(a)(i, k) == clm(ipx(a), n)(i, k) by {}
    assert forall|k: int| 0 <= k < p2(n) implies #[trigger] ftm(b)(k, j) == clm(ipx(b), n)(k, j) by {}
    l_mm_eq(ftm(a), ftm(b), clm(ipx(a), n), clm(ipx(b), n), p2(n), i, j);
}

// ---- linear maps and involutions
pub proof fn l_ipx_lin(a: Seq<Complex64>, b: Seq<Complex64>, s: Sign, x: Complex64)
    requires
        a.len() == b.len(),
    ensures
        ipx(vadd(a, b)) == vadd(ipx(a), ipx(b)),
        ipx(sgv(s, a)) == sgv(s, ipx(a)),
        ipx(scaler(a, x)) == scaler(ipx(a), x),
        ipx(alv(a)) == alv(ipx(a)),
        ipx(flipv(a, alt())) == flipv(ipx(a), alt()),
        ipx(revv(a)) == revv(ipx(a)),
{
    let n = p2(2 * upn(a.len()));
    assert forall|k: int| 0 <= k < n implies ipx(vadd(a, b))[k] == vadd(ipx(a), ipx(b))[k] by {
        let u = ip(iw(k));
        let z = Complex64::z();
        if k < a.len() {
            Complex64::dist_r(a[k], b[k], u);
            Complex64::mul_assoc(a[k], x, u);
            l_ccomm(x, u);
            Complex64::mul_assoc(a[k], u, x);
        } else {
            r_zero(z);
            r_mul_zero(x);
        }
    }
    assert forall|k: int| 0 <= k < n implies ipx(scaler(a, x))[k] == scaler(ipx(a), x)[k] by {
        let u = ip(iw(k));
        let z = Complex64::z();
        if k < a.len() {
            Complex64::dist_r(a[k], b[k], u);
            Complex64::mul_assoc(a[k], x, u);
            l_ccomm(x, u);
            Complex64::mul_assoc(a[k], u, x);
        } else {
            r_zero(z);
            r_mul_zero(x);
        }
    }
    assert forall|k: int| 0 <= k < n implies ipx(sgv(s, a))[k] == sgv(s, ipx(a))[k] by {
        let g = s;
        if k < a.len() {
            sg_props(g, g, a[k], ip(iw(k)));
        } else {
            sg_props(g, g, Complex64::z(), Complex64::z());
        }
    }
    assert forall|k: int| 0 <= k < n implies ipx(alv(a))[k] == alv(ipx(a))[k] by {
        let g = par(k);
        if k < a.len() {
            sg_props(g, g, a[k], ip(iw(k)));
        } else {
            sg_props(g, g, Complex64::z(), Complex64::z());
        }
    }
    assert forall|k: int| 0 <= k < n implies ipx(flipv(a, alt()))[k] == flipv(ipx(a), alt())[k] by {
        let g = flips(k as usize, alt());
        if k < a.len() {
            sg_props(g, g, a[k], ip(iw(k)));
        } else {
            sg_props(g, g, Complex64::z(), Complex64::z());
        }
    }
    assert forall|k: int| 0 <= k < n implies ipx(revv(a))[k] == revv(ipx(a))[k] by {
        let g = revs(k as usize);
        if k < a.len() {
            sg_props(g, g, a[k], ip(iw(k)));
        } else {
            sg_props(g, g, Complex64::z(), Complex64::z());
        }
    }
    assert(ipx(vadd(a, b)) =~= vadd(ipx(a), ipx(b)));
    assert(ipx(sgv(s, a)) =~= sgv(s, ipx(a)));
    assert(ipx(scaler(a, x)) =~= scaler(ipx(a), x));
    assert(ipx(alv(a)) =~= alv(ipx(a)));
    assert(ipx(flipv(a, alt())) =~= flipv(ipx(a), alt()));
    assert(ipx(revv(a)) =~= revv(ipx(a)));
}

pub proof fn th_ft_lin(a: Seq<Complex64>, b: Seq<Complex64>, s: Sign, x: Complex64, d: usize, i: int, j: int)
    requires
        dimlen(a.len(), d),
        b.len() == a.len(),
        d <= 62,
        0 <= i < p2(upl(d)),
        0 <= j < p2(upl(d)),
    ensures
        ft(vadd(a, b), i, j) == Complex64::a(ft(a, i, j), ft(b, i, j)),
        ft(sgv(s, a), i, j) == sg(s, ft(a, i, j)),
        ft(scaler(a, x), i, j) == Complex64::m(ft(a, i, j), x),
        ft(alv(a), i, j) == sg(ap(i, j), ft(a, i, j)),
{
    let n = upl(d);
    l_upl(a.len(), d);
    l_ipx_lin(a, b, s, x);
    l_cl_add(ipx(a), ipx(b), n, i, j);
    l_cl_sg(ipx(a), s, n, i, j);
    l_cl_scale(ipx(a), x, n, i, j);
    l_cl_alpha(ipx(a), n, i, j);
}

pub proof fn th_ft_inv(a: Seq<Complex64>, d: usize, i: int, j: int)
    requires
        dimlen(a.len(), d),
        d <= 62,
        0 <= i < p2(upl(d)),
        0 <= j < p2(upl(d)),
    ensures
        beta(ftm(a), upl(d), i, j) == ft(flipv(a, alt()), i, j),
        beta(trm(ftm(a)), upl(d), i, j) == ft(revv(a), i, j),
{
    let n = upl(d);
    l_upl(a.len(), d);
    l_ipx_lin(a, a, Sign::Plus, Complex64::o());
    th_beta(ipx(a), n, i, j);
    th_reversal(ipx(a), n, i, j);
    let m = clm(ipx(a), n);
    assert forall|k: int, l: int| vin2(k, l, p2(n), p2(n)) implies #[trigger] ftm(a)(k, l) == m(k, l) by {}
    assert forall|k: int, l: int| vin2(k, l, p2(n), p2(n)) implies #[trigger] trm(ftm(a))(k, l) == trm(m)(k, l) by {}
    l_beta_eq1(ftm(a), m, n, i, j);
    l_beta_eq1(trm(ftm(a)), trm(m), n, i, j);
}

pub proof fn th_ft_trace(a: Seq<Complex64>, d: usize)
    requires
        dimlen(a.len(), d),
        d <= 62,
    ensures
        tr(ftm(a), p2(upl(d))) == Complex64::m(tpow(upl(d)), a[0]),
{
    let n = upl(d);
    l_upl(a.len(), d);
    l_p2(d as nat);
    th_trace(ipx(a), n);
    let (f, g) = (|i: int| ftm(a)(i, i), |i: int| clm(ipx(a), n)(i, i));
    assert forall|i: int| 0 <= i < p2(n) implies #[trigger] f(i) == g(i) by {}
    sum_eq(f, g, p2(n));
    l_pc_zero(64);
    assert(0usize & 0xAAAA_AAAA_AAAA_AAAAusize == 0) by (bit_vector);
    l_ip(0, 0);
    Complex64::mul_one(a[0]);
    assert(ipx(a)[0] == a[0]);
}
