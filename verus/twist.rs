// ---- generators rescaled by i, zero extension
pub open spec fn ips(e: bool, k: int) -> Complex64 {
    if e {
        ip(k)
    } else {
        ip(-k)
    }
}

// every generator of the mask multiplied by i (or divided by it)
pub open spec fn tw(a: Seq<Complex64>, mask: usize, e: bool) -> Seq<Complex64> {
    Seq::new(a.len(), |k: int| Complex64::m(a[k], ips(e, pc(k as usize & mask) as int)))
}

pub proof fn l_cnt_sum(a: usize, b: usize, n: nat)
    requires
        n <= 64,
    ensures
        cnt(a, n) + cnt(b, n) == cnt(a ^ b, n) + 2 * cnt(a & b, n),
    decreases n,
{
    if n > 0 {
        let p = (n - 1) as nat;
        l_cnt_sum(a, b, p);
        let t = p as usize;
        assert(((((a ^ b) >> t) & 1) == 1) == ((((a >> t) & 1) == 1) != (((b >> t) & 1) == 1))) by (bit_vector);
        assert(((((a & b) >> t) & 1) == 1) == ((((a >> t) & 1) == 1) && (((b >> t) & 1) == 1))) by (bit_vector);
    }
}

#[verifier::spinoff_prover]
pub proof fn l_mod4(j: int, k: int)
    ensures
        k % 2 == 0 ==> (j + 2 * k) % 4 == j % 4,
        k % 2 != 0 ==> (j + 2 * k) % 4 == if j % 4 < 2 {
            j % 4 + 2
        } else {
            j % 4 - 2
        },
{
    let (q, r) = (k / 2, k % 2);
    let (s, t) = (j / 4, j % 4);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, 2);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(j, 4);
    if r == 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(j + 2 * k, 4, s + q, t);
    } else if t < 2 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(j + 2 * k, 4, s + q, t + 2);
    } else {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(j + 2 * k, 4, s + q + 1, t - 2);
    }
}

pub proof fn l_ip_shift(j: int, k: int)
    ensures
        ip(j + 2 * k) == if k % 2 == 0 {
            ip(j)
        } else {
            Complex64::n(ip(j))
        },
{
    l_mod4(j, k);
    let (t, u, r) = (j % 4, (j + 2 * k) % 4, k % 2);
    assert(0 <= t < 4);
    assert(ip(j + 2 * k) == if u == 0 { cx(1real, 0real) } else if u == 1 { cx(0real, 1real) } else if u == 2 { cx(-1real, 0real) } else { cx(0real, -1real) });
    assert(ip(j) == if t == 0 { cx(1real, 0real) } else if t == 1 { cx(0real, 1real) } else if t == 2 { cx(-1real, 0real) } else { cx(0real, -1real) });
}

#[verifier::spinoff_prover]
pub proof fn l_ips(e: bool, j: int, k: int)
    ensures
        Complex64::m(ips(e, j), ips(e, k)) == ips(e, j + k),
        Complex64::m(ips(e, j), ips(!e, j)) == Complex64::o(),
        ips(e, 0) == Complex64::o(),
        ips(e, j + 2 * k) == if k % 2 == 0 {
            ips(e, j)
        } else {
            Complex64::n(ips(e, j))
        },
{
    hide(ip);
    if e {
        l_ip(j, k);
        l_ip_shift(j, k);
    } else {
        l_ip(-j, -k);
        l_ip_shift(-j, -k);
        assert(-j + -k == -(j + k));
        assert(-(-j) == j);
        assert(-j + 2 * (-k) == -(j + 2 * k));
    }
}

pub proof fn l_tw_sign(x: usize, y: usize, mask: usize, im: usize, pr: usize, e: bool)
    ensures
        ({
            let u = ips(e, pc(x & mask) as int);
            let v = ips(e, pc(y & mask) as int);
            let w = ips(e, pc((x ^ y) & mask) as int);
            sg(geos(x, y, im ^ mask, pr), Complex64::m(u, v)) == sg(geos(x, y, im, pr), w)
        }),
{
    let p = pc(x & y & mask);
    let (px, py, pxy) = (pc(x & mask) as int, pc(y & mask) as int, pc((x ^ y) & mask) as int);
    l_cnt_sum(x & mask, y & mask, 64);
    assert((x & mask) ^ (y & mask) == (x ^ y) & mask) by (bit_vector);
    assert((x & mask) & (y & mask) == x & y & mask) by (bit_vector);
    assert(px + py == pxy + 2 * p);
    l_ips(e, px, py);
    l_ips(e, pxy, p as int);
    l_cnt_xor(x & y & im, x & y & mask, 64);
    assert((x & y & im) ^ (x & y & mask) == x & y & (im ^ mask)) by (bit_vector);
    let w = ips(e, pxy);
    r_neg(w);
}

pub proof fn th_tw(a: Seq<Complex64>, b: Seq<Complex64>, mask: usize, e: bool, im: usize, pr: usize, d: usize)
    requires
        dimlen(a.len(), d),
        b.len() == a.len(),
    ensures
        tw(prod(a, b, im, pr), mask, e) == prod(tw(a, mask, e), tw(b, mask, e), im ^ mask, pr),
        tw(tw(a, mask, e), mask, !e) == a,
{
    let n = a.len();
    let (ta, tb) = (tw(a, mask, e), tw(b, mask, e));
    l_ctwo();
    assert forall|k: int| 0 <= k < n implies #[trigger] tw(prod(a, b, im, pr), mask, e)[k] == pk(ta, tb, im ^ mask, pr, k) by {
        let w = ips(e, pc(k as usize & mask) as int);
        let f = pterm(a, b, im, pr, k);
        let g = pterm(ta, tb, im ^ mask, pr, k);
        assert forall|i: int| 0 <= i < n implies #[trigger] g(i) == Complex64::m(f(i), w) by {
            l_xr(i, k, n, d);
            let j = xr(i, k);
            let (x, y, z) = (i as usize, j as usize, k as usize);
            assert(x ^ y == z) by (bit_vector)
                requires
                    y == x ^ z,
            ;
            l_tw_sign(x, y, mask, im, pr, e);
            let u = ips(e, pc(x & mask) as int);
            let v = ips(e, pc(y & mask) as int);
            let (s1, s2) = (gs(i, j, im ^ mask, pr), gs(i, j, im, pr));
            let ab = Complex64::m(a[i], b[j]);
            let uv = Complex64::m(u, v);
            // (a u)(b v) = (a b)(u v)
            Complex64::mul_assoc(a[i], u, Complex64::m(b[j], v));
            Complex64::mul_assoc(u, b[j], v);
            l_ccomm(u, b[j]);
            Complex64::mul_assoc(b[j], u, v);
            Complex64::mul_assoc(a[i], b[j], uv);
            assert(Complex64::m(ta[i], tb[j]) == Complex64::m(ab, uv));
            sg_props(s1, s1, ab, uv);
            sg_props(s2, s2, ab, w);
        }
        sum_mul_r(f, w, g, n);
    }
    assert(tw(prod(a, b, im, pr), mask, e) =~= prod(ta, tb, im ^ mask, pr));
    l_tw_inv(a, mask, e);
}

pub proof fn l_tw_inv(a: Seq<Complex64>, mask: usize, e: bool)
    ensures
        tw(tw(a, mask, e), mask, !e) == a,
{
    assert forall|k: int| 0 <= k < a.len() implies tw(tw(a, mask, e), mask, !e)[k] == a[k] by {
        let p = pc(k as usize & mask) as int;
        l_ips(e, p, p);
        Complex64::mul_assoc(a[k], ips(e, p), ips(!e, p));
        Complex64::mul_one(a[k]);
    }
    assert(tw(tw(a, mask, e), mask, !e) =~= a);
}

pub proof fn l_tw_add(a: Seq<Complex64>, b: Seq<Complex64>, mask: usize, e: bool)
    requires
        a.len() == b.len(),
    ensures
        tw(vadd(a, b), mask, e) == vadd(tw(a, mask, e), tw(b, mask, e)),
{
    assert forall|k: int| 0 <= k < a.len() implies tw(vadd(a, b), mask, e)[k] == vadd(tw(a, mask, e), tw(b, mask, e))[k] by {
        Complex64::dist_r(a[k], b[k], ips(e, pc(k as usize & mask) as int));
    }
    assert(tw(vadd(a, b), mask, e) =~= vadd(tw(a, mask, e), tw(b, mask, e)));
}

pub proof fn l_tw_sg(a: Seq<Complex64>, s: Sign, mask: usize, e: bool)
    ensures
        tw(sgv(s, a), mask, e) == sgv(s, tw(a, mask, e)),
{
    assert forall|k: int| 0 <= k < a.len() implies tw(sgv(s, a), mask, e)[k] == sgv(s, tw(a, mask, e))[k] by {
        let u = ips(e, pc(k as usize & mask) as int);
        sg_props(s, s, a[k], u);
    }
    assert(tw(sgv(s, a), mask, e) =~= sgv(s, tw(a, mask, e)));
}

pub proof fn l_tw_scale(a: Seq<Complex64>, c: Complex64, mask: usize, e: bool)
    ensures
        tw(scaler(a, c), mask, e) == scaler(tw(a, mask, e), c),
{
    assert forall|k: int| 0 <= k < a.len() implies tw(scaler(a, c), mask, e)[k] == scaler(tw(a, mask, e), c)[k] by {
        let u = ips(e, pc(k as usize & mask) as int);
        Complex64::mul_assoc(a[k], c, u);
        l_ccomm(c, u);
        Complex64::mul_assoc(a[k], u, c);
    }
    assert(tw(scaler(a, c), mask, e) =~= scaler(tw(a, mask, e), c));
}

// ---- zero extension
pub open spec fn zx<T: Ring>(a: Seq<T>, n: nat) -> Seq<T> {
    Seq::new(n, |k: int| if k < a.len() { a[k] } else { T::z() })
}

pub open spec fn zv<T: Ring>(n: nat) -> Seq<T> {
    Seq::new(n, |k: int| T::z())
}

pub proof fn l_zv_prod<T: Ring>(a: Seq<T>, im: usize, pr: usize, d: usize)
    requires
        dimlen(a.len(), d),
    ensures
        prod(a, zv::<T>(a.len()), im, pr) == zv::<T>(a.len()),
        prod(zv::<T>(a.len()), a, im, pr) == zv::<T>(a.len()),
        alv(zv::<T>(a.len())) == zv::<T>(a.len()),
        forall|s: Sign| #[trigger] sgv(s, zv::<T>(a.len())) == zv::<T>(a.len()),
        vadd(a, zv::<T>(a.len())) == a,
        vadd(zv::<T>(a.len()), a) == a,
{
    let n = a.len();
    let z = zv::<T>(n);
    assert forall|k: int| 0 <= k < n implies #[trigger] pk(a, z, im, pr, k) == T::z() && pk(z, a, im, pr, k) == T::z() by {
        assert forall|i: int| 0 <= i < n implies #[trigger] pterm(a, z, im, pr, k)(i) == T::z() by {
            l_xr(i, k, n, d);
            r_mul_zero(a[i]);
            sg_props(gs(i, xr(i, k), im, pr), Sign::Plus, T::z(), T::z());
        }
        sum_zero(pterm(a, z, im, pr, k), n);
        assert forall|i: int| 0 <= i < n implies #[trigger] pterm(z, a, im, pr, k)(i) == T::z() by {
            l_xr(i, k, n, d);
            r_mul_zero(a[xr(i, k)]);
            sg_props(gs(i, xr(i, k), im, pr), Sign::Plus, T::z(), T::z());
        }
        sum_zero(pterm(z, a, im, pr, k), n);
    }
    assert(prod(a, z, im, pr) =~= z);
    assert(prod(z, a, im, pr) =~= z);
    r_neg(T::z());
    assert(alv(z) =~= z);
    assert forall|s: Sign| #[trigger] sgv(s, z) == z by {
        assert(sgv(s, z) =~= z);
    }
    assert forall|i: int| 0 <= i < n implies #[trigger] vadd(a, z)[i] == a[i] && vadd(z, a)[i] == a[i] by {
        r_zero(a[i]);
    }
    assert(vadd(a, z) =~= a);
    assert(vadd(z, a) =~= a);
}

pub proof fn l_zx_halves<T: Ring>(a: Seq<T>, d: usize)
    requires
        dimlen(a.len(), d),
        d < 63,
    ensures
        dimlen((2 * a.len()) as nat, (d + 1) as usize),
        lo(zx(a, (2 * a.len()) as nat)) == a,
        hi(zx(a, (2 * a.len()) as nat)) == zv::<T>(a.len()),
{
    assert((1usize << ((d + 1) as usize)) == mul(2, 1usize << d) && (1usize << d) <= 0x4000_0000_0000_0000) by (bit_vector)
        requires
            d < 63,
    ;
    let x = zx(a, (2 * a.len()) as nat);
    assert(lo(x) =~= a);
    assert(hi(x) =~= zv::<T>(a.len()));
}

#[verifier::spinoff_prover]
pub proof fn l_zx_prod<T: Ring>(a: Seq<T>, b: Seq<T>, im: usize, pr: usize, d: usize)
    requires
        dimlen(a.len(), d),
        b.len() == a.len(),
        d < 63,
    ensures
        ({
            let n = (2 * a.len()) as nat;
            zx(prod(a, b, im, pr), n) == prod(zx(a, n), zx(b, n), im, pr)
        }),
{
    hide(pk);
    let n = (2 * a.len()) as nat;
    let (x, y) = (zx(a, n), zx(b, n));
    l_zx_halves(a, d);
    l_zx_halves(b, d);
    let p = prod(x, y, im, pr);
    l_pair(x, y, im, pr, (d + 1) as usize);
    let z = zv::<T>(a.len());
    l_zv_prod(a, im, pr, d);
    l_zv_prod(b, im, pr, d);
    l_zv_prod(alv(a), im, pr, d);
    l_zv_prod(alv(z), im, pr, d);
    l_zv_prod(prod(a, b, im, pr), im, pr, d);
    let e = gsq(d, im, pr);
    assert(prod(alv(z), z, im, pr) == z);
    assert(sgv(e, z) == z);
    assert(lo(p) == prod(a, b, im, pr));
    assert(hi(p) == z);
    let r = zx(prod(a, b, im, pr), n);
    assert forall|k: int| 0 <= k < n implies r[k] == p[k] by {
        if k < a.len() {
            assert(lo(p)[k] == p[k]);
        } else {
            assert(hi(p)[k - a.len()] == p[k]);
        }
    }
    assert(r =~= p);
}

// null generators above the blades at hand do not matter
pub proof fn l_prod_pr<T: Ring>(a: Seq<T>, b: Seq<T>, im: usize, im2: usize, pr: usize, pr2: usize, d: usize)
    requires
        dimlen(a.len(), d),
        b.len() == a.len(),
        forall|x: usize| x < (1usize << d) ==> #[trigger] (x & pr) == x & pr2,
        forall|x: usize| x < (1usize << d) ==> #[trigger] (x & im) == x & im2,
    ensures
        prod(a, b, im, pr) == prod(a, b, im2, pr2),
{
    let n = a.len();
    assert forall|k: int| 0 <= k < n implies #[trigger] pk(a, b, im, pr, k) == pk(a, b, im2, pr2, k) by {
        assert forall|i: int| 0 <= i < n implies #[trigger] pterm(a, b, im, pr, k)(i) == pterm(a, b, im2, pr2, k)(i) by {
            l_xr(i, k, n, d);
            let (x, y) = (i as usize, xr(i, k) as usize);
            let w = x & y;
            assert(x & y <= x) by (bit_vector);
            assert(w & pr == w & pr2);
            assert(w & im == w & im2);
        }
        sum_eq(pterm(a, b, im, pr, k), pterm(a, b, im2, pr2, k), n);
    }
    assert(prod(a, b, im, pr) =~= prod(a, b, im2, pr2));
}
