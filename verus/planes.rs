// ---- null generators: one transformed plane for every null blade
pub open spec fn plane<T>(c: Seq<T>, k: usize, w: int) -> Seq<T> {
    c.subrange(w * p2(k as nat), w * p2(k as nat) + p2(k as nat))
}

pub open spec fn rp(c: Seq<Complex64>, k: usize, w: int, i: int, j: int) -> Complex64 {
    ft(plane(c, k, w), i, j)
}

pub open spec fn rpm(c: Seq<Complex64>, k: usize) -> spec_fn(int, int, int) -> Complex64 {
    |w: int, i: int, j: int| rp(c, k, w, i, j)
}

pub open spec fn pl<T>(x: spec_fn(int, int, int) -> T, w: int) -> spec_fn(int, int) -> T {
    |i: int, j: int| x(w, i, j)
}

pub open spec fn shw<T>(x: spec_fn(int, int, int) -> T, q: int) -> spec_fn(int, int, int) -> T {
    |w: int, i: int, j: int| x(w + q, i, j)
}

pub open spec fn a3(w: int, i: int, j: int) -> Sign {
    smul(par(w), ap(i, j))
}

pub open spec fn al3<T: Ring>(x: spec_fn(int, int, int) -> T) -> spec_fn(int, int, int) -> T {
    |w: int, i: int, j: int| sg(a3(w, i, j), x(w, i, j))
}

pub open spec fn vin3(w: int, i: int, j: int, p: nat, r: nat, c: nat) -> bool {
    0 <= w < p && 0 <= i < r && 0 <= j < c
}

// the product of two representations
pub open spec fn wm<T: Ring>(x: spec_fn(int, int, int) -> T, y: spec_fn(int, int, int) -> T, s: nat, h: nat, w: int, i: int, j: int) -> T
    decreases s,
{
    if s == 0 {
        mm(pl(x, 0), pl(y, 0), h, i, j)
    } else {
        let r = (s - 1) as nat;
        let q = p2(r) as int;
        if w < q {
            wm(x, y, r, h, w, i, j)
        } else {
            T::a(wm(shw(x, q), y, r, h, w - q, i, j), wm(al3(x), shw(y, q), r, h, w - q, i, j))
        }
    }
}

pub open spec fn same3<T>(x: spec_fn(int, int, int) -> T, u: spec_fn(int, int, int) -> T, p: nat, h: nat) -> bool {
    forall|w: int, i: int, j: int| vin3(w, i, j, p, h, h) ==> #[trigger] x(w, i, j) == u(w, i, j)
}

pub proof fn l_wm_eq<T: Ring>(
    x: spec_fn(int, int, int) -> T,
    y: spec_fn(int, int, int) -> T,
    u: spec_fn(int, int, int) -> T,
    v: spec_fn(int, int, int) -> T,
    s: nat,
    h: nat,
    w: int,
    i: int,
    j: int,
)
    requires
        same3(x, u, p2(s), h),
        same3(y, v, p2(s), h),
        vin3(w, i, j, p2(s), h, h),
    ensures
        wm(x, y, s, h, w, i, j) == wm(u, v, s, h, w, i, j),
    decreases s,
{
    l_p2(s);
    if s == 0 {
        assert forall|k: int| 0 <= k < h implies #[trigger] pl(x, 0)(i, k) == pl(u, 0)(i, k) by {
            assert(vin3(0, i, k, p2(s), h, h));
            assert(x(0, i, k) == u(0, i, k));
        }
        assert forall|k: int| 0 <= k < h implies #[trigger] pl(y, 0)(k, j) == pl(v, 0)(k, j) by {
            assert(vin3(0, k, j, p2(s), h, h));
            assert(y(0, k, j) == v(0, k, j));
        }
        l_mm_eq(pl(x, 0), pl(y, 0), pl(u, 0), pl(v, 0), h, i, j);
    } else {
        let r = (s - 1) as nat;
        let q = p2(r) as int;
        assert(p2(s) == 2 * p2(r));
        assert(same3(x, u, p2(r), h)) by {
            assert forall|w: int, i: int, j: int| vin3(w, i, j, p2(r), h, h) implies #[trigger] x(w, i, j) == u(w, i, j) by {
                assert(vin3(w, i, j, p2(s), h, h));
            }
        }
        assert(same3(y, v, p2(r), h)) by {
            assert forall|w: int, i: int, j: int| vin3(w, i, j, p2(r), h, h) implies #[trigger] y(w, i, j) == v(w, i, j) by {
                assert(vin3(w, i, j, p2(s), h, h));
            }
        }
        if w < q {
            l_wm_eq(x, y, u, v, r, h, w, i, j);
        } else {
            assert(same3(shw(x, q), shw(u, q), p2(r), h)) by {
                assert forall|w: int, i: int, j: int| vin3(w, i, j, p2(r), h, h) implies #[trigger] shw(x, q)(w, i, j) == shw(u, q)(w, i, j) by {
                    assert(vin3(w + q, i, j, p2(s), h, h));
                    assert(x(w + q, i, j) == u(w + q, i, j));
                }
            }
            assert(same3(shw(y, q), shw(v, q), p2(r), h)) by {
                assert forall|w: int, i: int, j: int| vin3(w, i, j, p2(r), h, h) implies #[trigger] shw(y, q)(w, i, j) == shw(v, q)(w, i, j) by {
                    assert(vin3(w + q, i, j, p2(s), h, h));
                    assert(y(w + q, i, j) == v(w + q, i, j));
                }
            }
            assert(same3(al3(x), al3(u), p2(r), h)) by {
                assert forall|w: int, i: int, j: int| vin3(w, i, j, p2(r), h, h) implies #[trigger] al3(x)(w, i, j) == al3(u)(w, i, j) by {
                    assert(x(w, i, j) == u(w, i, j));
                }
            }
            l_wm_eq(shw(x, q), y, shw(u, q), v, r, h, w - q, i, j);
            l_wm_eq(al3(x), shw(y, q), al3(u), shw(v, q), r, h, w - q, i, j);
        }
    }
}

// planes of halves
pub proof fn l_plane<T>(c: Seq<T>, k: usize, d: usize, w: int)
    requires
        dimlen(c.len(), d),
        k <= d <= 62,
        0 <= w < p2((d - k) as nat),
    ensures
        dimlen(plane(c, k, w).len(), k),
        plane(c, k, w).len() == p2(k as nat),
        0 <= w * p2(k as nat),
        w * p2(k as nat) + p2(k as nat) <= c.len(),
        k == d ==> plane(c, k, w) == c,
        k < d ==> dimlen(lo(c).len(), (d - 1) as usize) && hi(c).len() == lo(c).len(),
        k < d ==> plane(c, k, w) == if w < p2((d - k - 1) as nat) {
            plane(lo(c), k, w)
        } else {
            plane(hi(c), k, w - p2((d - k - 1) as nat))
        },
{
    let (s, kk) = ((d - k) as nat, p2(k as nat));
    l_p2(k as nat);
    l_p2(d as nat);
    l_p2(s);
    l_p2_add(s, k as nat);
    let n = p2(s) as int;
    let g = kk as int;
    assert(w * g + g <= n * g && 0 <= w * g) by (nonlinear_arith)
        requires
            0 <= w < n,
            g >= 1,
    ;
    if k == d {
        assert(w == 0);
        assert(0 * g == 0);
        assert(plane(c, k, w) =~= c);
    } else {
        l_half(c.len(), d);
        let q = p2((s - 1) as nat) as int;
        assert(n == 2 * q);
        assert(2 * (q * g) == (2 * q) * g) by (nonlinear_arith);
        assert(c.len() / 2 == q * g);
        if w < q {
            assert(w * g + g <= q * g) by (nonlinear_arith)
                requires
                    0 <= w < q,
                    g >= 1,
            ;
            assert(plane(c, k, w) =~= plane(lo(c), k, w));
        } else {
            assert((w - q) * g == w * g - q * g) by (nonlinear_arith);
            assert(q * g <= w * g) by (nonlinear_arith)
                requires
                    q <= w,
                    g >= 1,
            ;
            assert(plane(c, k, w) =~= plane(hi(c), k, w - q));
        }
    }
}

pub proof fn l_rp_lin(a: Seq<Complex64>, b: Seq<Complex64>, e: Sign, x: Complex64, k: usize, d: usize, w: int, i: int, j: int)
    requires
        dimlen(a.len(), d),
        b.len() == a.len(),
        k <= d <= 62,
        vin3(w, i, j, p2((d - k) as nat), p2(upl(k)), p2(upl(k))),
    ensures
        rp(vadd(a, b), k, w, i, j) == Complex64::a(rp(a, k, w, i, j), rp(b, k, w, i, j)),
        rp(sgv(e, a), k, w, i, j) == sg(e, rp(a, k, w, i, j)),
        rp(scaler(a, x), k, w, i, j) == Complex64::m(rp(a, k, w, i, j), x),
{
    l_plane(a, k, d, w);
    l_plane(b, k, d, w);
    let (u, v) = (plane(a, k, w), plane(b, k, w));
    assert(plane(vadd(a, b), k, w) =~= vadd(u, v));
    assert(plane(sgv(e, a), k, w) =~= sgv(e, u));
    assert(plane(scaler(a, x), k, w) =~= scaler(u, x));
    th_ft_lin(u, v, e, x, k, i, j);
}

pub proof fn l_alv_halves<T: Ring>(a: Seq<T>, d: usize)
    requires
        dimlen(a.len(), d),
        d >= 1,
    ensures
        lo(alv(a)) == alv(lo(a)),
        hi(alv(a)) == sgv(Sign::Minus, alv(hi(a))),
{
    l_pair(a, a, 0, 0, d);
}

// the grade involution
pub proof fn th_rp_alpha(a: Seq<Complex64>, k: usize, d: usize, w: int, i: int, j: int)
    requires
        dimlen(a.len(), d),
        k <= d <= 62,
        vin3(w, i, j, p2((d - k) as nat), p2(upl(k)), p2(upl(k))),
    ensures
        rp(alv(a), k, w, i, j) == sg(a3(w, i, j), rp(a, k, w, i, j)),
    decreases d,
{
    l_plane(a, k, d, w);
    l_plane(alv(a), k, d, w);
    if k == d {
        l_p2(0);
        l_par_zero();
        th_ft_lin(a, a, Sign::Plus, Complex64::o(), k, i, j);
    } else {
        let e = (d - 1) as usize;
        let r = (d - k - 1) as nat;
        let q = p2(r) as int;
        l_alv_halves(a, d);
        l_p2(r);
        if w < q {
            th_rp_alpha(lo(a), k, e, w, i, j);
        } else {
            let b = hi(a);
            th_rp_alpha(b, k, e, w - q, i, j);
            l_rp_lin(alv(b), alv(b), Sign::Minus, Complex64::o(), k, e, w - q, i, j);
            l_par_top(w - q, r as usize);
            let y = rp(b, k, w - q, i, j);
            sg_props(Sign::Minus, a3(w - q, i, j), y, y);
        }
    }
}

pub proof fn l_sgv_null<T: Ring>(a: Seq<T>, b: Seq<T>)
    requires
        a.len() == b.len(),
    ensures
        vadd(a, sgv(Sign::Null, b)) == a,
{
    assert forall|i: int| 0 <= i < a.len() implies vadd(a, sgv(Sign::Null, b))[i] == a[i] by {
        r_zero(a[i]);
    }
    assert(vadd(a, sgv(Sign::Null, b)) =~= a);
}

// the null generators are the ones from k on
pub open spec fn nulls(pr: usize, k: usize, d: usize) -> bool {
    forall|t: usize| t < d ==> #[trigger] bit(pr, t as nat) == (t >= k)
}

pub proof fn l_nulls_base<T: Ring>(a: Seq<T>, b: Seq<T>, pr: usize, d: usize)
    requires
        dimlen(a.len(), d),
        d <= 62,
        b.len() == a.len(),
        nulls(pr, d, d),
    ensures
        prod(a, b, 0, pr) == prod(a, b, 0, 0),
{
    assert forall|x: usize| x < (1usize << d) implies #[trigger] (x & pr) == x & 0usize by {
        assert forall|t: nat| t < 64 implies bit(x & pr, t) == bit(x & 0usize, t) by {
            let u = t as usize;
            if t < d {
                assert(bit(pr, u as nat) == (u >= d));
                assert(((pr >> u) & 1) != 1 ==> (((x & pr) >> u) & 1) == 0) by (bit_vector);
            } else {
                assert((((x & pr) >> u) & 1) == 0) by (bit_vector)
                    requires
                        x < (1usize << d),
                        u >= d,
                        u < 64,
                        d <= 62,
                ;
            }
            assert((((x & 0usize) >> u) & 1) == 0) by (bit_vector);
        }
        l_bit_ext(x & pr, x & 0usize);
    }
    l_prod_pr(a, b, 0, 0, pr, 0, d);
}

// the product of representations represents the product
pub proof fn th_wm(a: Seq<Complex64>, b: Seq<Complex64>, pr: usize, k: usize, d: usize, w: int, i: int, j: int)
    requires
        dimlen(a.len(), d),
        b.len() == a.len(),
        k <= d <= 62,
        nulls(pr, k, d),
        vin3(w, i, j, p2((d - k) as nat), p2(upl(k)), p2(upl(k))),
    ensures
        rp(prod(a, b, 0, pr), k, w, i, j) == wm(rpm(a, k), rpm(b, k), (d - k) as nat, p2(upl(k)), w, i, j),
    decreases d,
{
    let h = p2(upl(k));
    let p = prod(a, b, 0, pr);
    let (x, y) = (rpm(a, k), rpm(b, k));
    l_plane(a, k, d, w);
    l_plane(b, k, d, w);
    l_plane(p, k, d, w);
    if k == d {
        l_p2(0);
        l_nulls_base(a, b, pr, d);
        th_ft_hom(a, b, k, i, j);
        assert forall|l: int| 0 <= l < h implies #[trigger] pl(x, 0)(i, l) == ftm(a)(i, l) by {}
        assert forall|l: int| 0 <= l < h implies #[trigger] pl(y, 0)(l, j) == ftm(b)(l, j) by {}
        l_mm_eq(pl(x, 0), pl(y, 0), ftm(a), ftm(b), h, i, j);
    } else {
        let e = (d - 1) as usize;
        let r = (d - k - 1) as nat;
        let q = p2(r) as int;
        assert(p2((r + 1) as nat) == 2 * p2(r));
        let (a0, a1, b0, b1) = (lo(a), hi(a), lo(b), hi(b));
        assert(nulls(pr, k, e));
        l_pair(a, b, 0, pr, d);
        assert(bit(pr, e as nat));
        l_sgv_null(prod(a0, b0, 0, pr), prod(alv(a1), b1, 0, pr));
        assert(same3(rpm(a0, k), x, p2(r), h)) by {
            assert forall|w: int, i: int, j: int| vin3(w, i, j, p2(r), h, h) implies #[trigger] rpm(a0, k)(w, i, j) == x(w, i, j) by {
                l_plane(a, k, d, w);
            }
        }
        assert(same3(rpm(b0, k), y, p2(r), h)) by {
            assert forall|w: int, i: int, j: int| vin3(w, i, j, p2(r), h, h) implies #[trigger] rpm(b0, k)(w, i, j) == y(w, i, j) by {
                l_plane(b, k, d, w);
            }
        }
        if w < q {
            th_wm(a0, b0, pr, k, e, w, i, j);
            l_wm_eq(rpm(a0, k), rpm(b0, k), x, y, r, h, w, i, j);
        } else {
            let v = w - q;
            assert(same3(rpm(a1, k), shw(x, q), p2(r), h)) by {
                assert forall|w: int, i: int, j: int| vin3(w, i, j, p2(r), h, h) implies #[trigger] rpm(a1, k)(w, i, j) == shw(x, q)(w, i, j) by {
                    l_plane(a, k, d, w + q);
                    assert(w + q - q == w);
                }
            }
            assert(same3(rpm(b1, k), shw(y, q), p2(r), h)) by {
                assert forall|w: int, i: int, j: int| vin3(w, i, j, p2(r), h, h) implies #[trigger] rpm(b1, k)(w, i, j) == shw(y, q)(w, i, j) by {
                    l_plane(b, k, d, w + q);
                    assert(w + q - q == w);
                }
            }
            assert(same3(rpm(alv(a0), k), al3(x), p2(r), h)) by {
                assert forall|w: int, i: int, j: int| vin3(w, i, j, p2(r), h, h) implies #[trigger] rpm(alv(a0), k)(w, i, j) == al3(x)(w, i, j) by {
                    th_rp_alpha(a0, k, e, w, i, j);
                    l_plane(a, k, d, w);
                }
            }
            th_wm(a1, b0, pr, k, e, v, i, j);
            th_wm(alv(a0), b1, pr, k, e, v, i, j);
            l_wm_eq(rpm(a1, k), rpm(b0, k), shw(x, q), y, r, h, v, i, j);
            l_wm_eq(rpm(alv(a0), k), rpm(b1, k), al3(x), shw(y, q), r, h, v, i, j);
            let (f, g) = (prod(alv(a0), b1, 0, pr), prod(a1, b0, 0, pr));
            l_rp_lin(f, g, Sign::Plus, Complex64::o(), k, e, v, i, j);
            Complex64::add_comm(rp(f, k, v, i, j), rp(g, k, v, i, j));
            assert(hi(p) == vadd(f, g));
        }
    }
}

// ---- reversal
pub open spec fn rvs(w: int, i: int, j: int) -> Sign {
    let g = pc(w as usize) % 4;
    if g == 0 {
        Sign::Plus
    } else if g == 1 {
        ap(i, j)
    } else if g == 2 {
        Sign::Minus
    } else {
        opp(ap(i, j))
    }
}

pub proof fn l_rev_halves<T: Ring>(a: Seq<T>, d: usize)
    requires
        dimlen(a.len(), d),
        1 <= d <= 62,
    ensures
        lo(revv(a)) == revv(lo(a)),
        hi(revv(a)) == alv(revv(hi(a))),
{
    l_half(a.len(), d);
    let t = (d - 1) as usize;
    let h = (1usize << t) as int;
    assert(lo(revv(a)) =~= revv(lo(a)));
    assert forall|l: int| 0 <= l < h implies hi(revv(a))[l] == alv(revv(hi(a)))[l] by {
        l_bits_top(l, t, 0);
        l_revs_step(l as usize, (l + h) as usize);
        let x = a[l + h];
        sg_props(par(l), revs(l as usize), x, x);
    }
    assert(hi(revv(a)) =~= alv(revv(hi(a))));
}

pub open spec fn rp_rev_holds(a: Seq<Complex64>, k: usize, w: int, i: int, j: int) -> bool {
    rp(revv(a), k, w, i, j) == sg(rvs(w, i, j), beta(trm(pl(rpm(a, k), w)), upl(k), i, j))
}

proof fn l_rp_rev_base(a: Seq<Complex64>, k: usize, w: int, i: int, j: int)
    requires
        dimlen(a.len(), k),
        k <= 62,
        vin3(w, i, j, p2(0), p2(upl(k)), p2(upl(k))),
    ensures
        rp_rev_holds(a, k, w, i, j),
{
    hide(ft);
    hide(beta);
    l_plane(a, k, k, w);
    l_plane(revv(a), k, k, w);
    let n = upl(k);
    let h = p2(n);
    l_p2(0);
    l_pc_zero(64);
    th_ft_inv(a, k, i, j);
    let (m, u) = (trm(pl(rpm(a, k), w)), trm(ftm(a)));
    assert forall|s: int, t: int| vin2(s, t, h, h) implies #[trigger] m(s, t) == u(s, t) by {}
    l_beta_eq1(m, u, n, i, j);
    assert(w == 0);
    assert(rvs(0, i, j) == Sign::Plus);
}

proof fn l_rp_rev_lo(a: Seq<Complex64>, k: usize, d: usize, w: int, i: int, j: int)
    requires
        dimlen(a.len(), d),
        k < d <= 62,
        vin3(w, i, j, p2((d - k - 1) as nat), p2(upl(k)), p2(upl(k))),
        rp_rev_holds(lo(a), k, w, i, j),
    ensures
        rp_rev_holds(a, k, w, i, j),
{
    let n = upl(k);
    let h = p2(n);
    let r = (d - k - 1) as nat;
    l_p2(r);
    l_plane(a, k, d, w);
    l_plane(revv(a), k, d, w);
    l_rev_halves(a, d);
    let (m, u) = (trm(pl(rpm(a, k), w)), trm(pl(rpm(lo(a), k), w)));
    assert forall|s: int, t: int| vin2(s, t, h, h) implies #[trigger] m(s, t) == u(s, t) by {}
    l_beta_eq1(m, u, n, i, j);
}

proof fn l_rp_rev_hi(a: Seq<Complex64>, k: usize, d: usize, w: int, i: int, j: int)
    requires
        dimlen(a.len(), d),
        k < d <= 62,
        p2((d - k - 1) as nat) <= w,
        vin3(w, i, j, p2((d - k) as nat), p2(upl(k)), p2(upl(k))),
        rp_rev_holds(hi(a), k, w - p2((d - k - 1) as nat), i, j),
    ensures
        rp_rev_holds(a, k, w, i, j),
{
    let n = upl(k);
    let h = p2(n);
    let e = (d - 1) as usize;
    let r = (d - k - 1) as nat;
    l_p2(r);
    l_plane(a, k, d, w);
    l_plane(revv(a), k, d, w);
    l_rev_halves(a, d);
    let b = hi(a);
    let v = w - p2(r);
    th_rp_alpha(revv(b), k, e, v, i, j);
    let (m, u) = (trm(pl(rpm(a, k), w)), trm(pl(rpm(b, k), v)));
    assert forall|s: int, t: int| vin2(s, t, h, h) implies #[trigger] m(s, t) == u(s, t) by {}
    l_beta_eq1(m, u, n, i, j);
    l_bits_top(v, r as usize, 0);
    let y = beta(m, n, i, j);
    sg_props(a3(v, i, j), rvs(v, i, j), y, y);
    assert(smul(a3(v, i, j), rvs(v, i, j)) == rvs(w, i, j));
}

pub proof fn th_rp_rev(a: Seq<Complex64>, k: usize, d: usize, w: int, i: int, j: int)
    requires
        dimlen(a.len(), d),
        k <= d <= 62,
        vin3(w, i, j, p2((d - k) as nat), p2(upl(k)), p2(upl(k))),
    ensures
        rp(revv(a), k, w, i, j) == sg(rvs(w, i, j), beta(trm(pl(rpm(a, k), w)), upl(k), i, j)),
    decreases d,
{
    if k == d {
        l_rp_rev_base(a, k, w, i, j);
    } else {
        let e = (d - 1) as usize;
        let r = (d - k - 1) as nat;
        l_p2(r);
        l_half(a.len(), d);
        if w < p2(r) {
            th_rp_rev(lo(a), k, e, w, i, j);
            l_rp_rev_lo(a, k, d, w, i, j);
        } else {
            th_rp_rev(hi(a), k, e, w - p2(r), i, j);
            l_rp_rev_hi(a, k, d, w, i, j);
        }
    }
}

// ---- the scalar part
pub proof fn th_rp_trace(a: Seq<Complex64>, k: usize, d: usize)
    requires
        dimlen(a.len(), d),
        k <= d <= 62,
    ensures
        tr(pl(rpm(a, k), 0), p2(upl(k))) == Complex64::m(tpow(upl(k)), a[0]),
{
    let h = p2(upl(k));
    l_p2((d - k) as nat);
    l_plane(a, k, d, 0);
    let c = plane(a, k, 0);
    th_ft_trace(c, k);
    let (f, g) = (|i: int| pl(rpm(a, k), 0)(i, i), |i: int| ftm(c)(i, i));
    assert forall|i: int| 0 <= i < h implies #[trigger] f(i) == g(i) by {}
    sum_eq(f, g, h);
    l_p2(k as nat);
    assert(0 * p2(k as nat) == 0);
    assert(c[0] == a[0]);
}

// ---- one
pub proof fn l_cl_zero<T: Ring>(n: nat, i: int, j: int)
    requires
        2 * n <= 62,
    ensures
        cl(zv::<T>(p2(2 * n)), n, i, j) == T::z(),
    decreases n,
{
    let c = zv::<T>(p2(2 * n));
    l_p2(2 * n);
    if n > 0 {
        l_sq(c.len(), n);
        let m = (n - 1) as nat;
        let h = p2(m);
        let z = zv::<T>(p2(2 * m));
        assert forall|s: int| 0 <= s < 4 implies #[trigger] quart(c, s) == z by {
            assert(quart(c, s) =~= z);
        }
        let (k, l) = (lw(i, h), lw(j, h));
        l_cl_zero::<T>(m, k, l);
        r_zero(T::z());
        T::sub_def(T::z(), T::z());
        r_neg(T::z());
        assert(quart(c, 0) == z && quart(c, 1) == z && quart(c, 2) == z && quart(c, 3) == z);
    }
}

pub proof fn l_cl_unit<T: Ring>(c: Seq<T>, n: nat, i: int, j: int)
    requires
        sqlen(c.len(), n),
        0 <= i < p2(n),
        0 <= j < p2(n),
        c[0] == T::o(),
        forall|k: int| 1 <= k < c.len() ==> #[trigger] c[k] == T::z(),
    ensures
        cl(c, n, i, j) == if i == j {
            T::o()
        } else {
            T::z()
        },
    decreases n,
{
    l_p2(0);
    if n > 0 {
        l_sq(c.len(), n);
        let m = (n - 1) as nat;
        let h = p2(m);
        let z = zv::<T>(p2(2 * m));
        assert(quart(c, 1) =~= z);
        assert(quart(c, 2) =~= z);
        assert(quart(c, 3) =~= z);
        let (k, l) = (lw(i, h), lw(j, h));
        l_cl_zero::<T>(m, k, l);
        l_cl_unit(quart(c, 0), m, k, l);
        let x = cl(quart(c, 0), m, k, l);
        r_zero(x);
        r_zero(T::z());
        r_neg(T::z());
        T::sub_def(x, T::z());
        T::sub_def(T::z(), T::z());
        if i >= h && j >= h {
            if k == l {
                let (a, b) = (k as usize, l as usize);
                assert(a ^ a == 0) by (bit_vector);
                l_par_zero();
            }
        }
    }
}

pub proof fn th_ft_unit(c: Seq<Complex64>, d: usize, i: int, j: int)
    requires
        dimlen(c.len(), d),
        d <= 62,
        0 <= i < p2(upl(d)),
        0 <= j < p2(upl(d)),
        c[0] == Complex64::o(),
        forall|k: int| 1 <= k < c.len() ==> #[trigger] c[k] == Complex64::z(),
    ensures
        ft(c, i, j) == if i == j {
            Complex64::o()
        } else {
            Complex64::z()
        },
{
    l_upl(c.len(), d);
    let w = ipx(c);
    l_pc_zero(64);
    l_p2(d as nat);
    assert(0usize & 0xAAAA_AAAA_AAAA_AAAAusize == 0) by (bit_vector);
    l_ip(0, 0);
    Complex64::mul_one(Complex64::o());
    assert(w[0] == Complex64::o());
    assert forall|k: int| 1 <= k < w.len() implies #[trigger] w[k] == Complex64::z() by {
        if k < c.len() {
            assert(c[k] == Complex64::z());
            r_mul_zero(ip(iw(k)));
        }
    }
    l_cl_unit(w, upl(d), i, j);
}

pub proof fn th_ft_zero(d: usize, i: int, j: int)
    requires
        d <= 62,
        0 <= i < p2(upl(d)),
        0 <= j < p2(upl(d)),
    ensures
        ft(zv::<Complex64>(p2(d as nat)), i, j) == Complex64::z(),
{
    l_p2(d as nat);
    let c = zv::<Complex64>(p2(d as nat));
    l_upl(c.len(), d);
    assert forall|k: int| 0 <= k < p2(2 * upl(d)) implies ipx(c)[k] == Complex64::z() by {
        r_mul_zero(ip(iw(k)));
    }
    assert(ipx(c) =~= zv::<Complex64>(p2(2 * upl(d))));
    l_cl_zero::<Complex64>(upl(d), i, j);
}

pub proof fn th_rp_one(c: Seq<Complex64>, k: usize, d: usize, w: int, i: int, j: int)
    requires
        dimlen(c.len(), d),
        k <= d <= 62,
        vin3(w, i, j, p2((d - k) as nat), p2(upl(k)), p2(upl(k))),
        forall|l: int| 1 <= l < c.len() ==> #[trigger] c[l] == Complex64::z(),
    ensures
        c[0] == Complex64::o() ==> rp(c, k, w, i, j) == if w == 0 && i == j {
            Complex64::o()
        } else {
            Complex64::z()
        },
        c[0] == Complex64::z() ==> rp(c, k, w, i, j) == Complex64::z(),
{
    l_plane(c, k, d, w);
    l_p2(k as nat);
    let g = p2(k as nat) as int;
    let u = plane(c, k, w);
    if w == 0 {
        assert(0 * g == 0);
        assert(u[0] == c[0]);
        assert forall|l: int| 1 <= l < u.len() implies #[trigger] u[l] == Complex64::z() by {
            assert(u[l] == c[l]);
        }
        if c[0] == Complex64::o() {
            th_ft_unit(u, k, i, j);
        }
    } else {
        assert(w * g >= 1) by (nonlinear_arith)
            requires
                w >= 1,
                g >= 1,
        ;
        assert forall|l: int| 0 <= l < u.len() implies #[trigger] u[l] == Complex64::z() by {
            assert(u[l] == c[l + w * g]);
        }
    }
    if u[0] == Complex64::z() {
        assert(u =~= zv::<Complex64>(p2(k as nat)));
        th_ft_zero(k, i, j);
    }
}

// ---- back to coefficients
pub open spec fn backv(x: spec_fn(int, int, int) -> Complex64, n: nat, planes: nat) -> Seq<Complex64> {
    Seq::new(planes * p2(2 * n), |l: int| iicl(pl(x, l / (p2(2 * n) as int)), n)[l % (p2(2 * n) as int)])
}

pub proof fn th_rp_back(c: Seq<Complex64>, x: spec_fn(int, int, int) -> Complex64, k: usize, d: usize, l: int)
    requires
        dimlen(c.len(), d),
        k <= d <= 62,
        same3(x, rpm(c, k), p2((d - k) as nat), p2(upl(k))),
        0 <= l < c.len(),
    ensures
        ({
            let g = p2(k as nat) as int;
            let z = p2(2 * upl(k)) as int;
            let i = (l / g) * z + l % g;
            &&& 0 <= i < p2((d - k) as nat) * z
            &&& backv(x, upl(k), p2((d - k) as nat))[i] == c[l]
        }),
{
    let n = upl(k);
    let g = p2(k as nat) as int;
    let z = p2(2 * n) as int;
    let w = l / g;
    let t = l % g;
    let s = (d - k) as nat;
    let m = p2(s) as int;
    let i = w * z + t;
    l_p2(k as nat);
    l_p2(d as nat);
    l_p2_add(s, k as nat);
    assert(c.len() == m * g);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(l, g);
    assert(l == w * g + t && 0 <= t < g && 0 <= w < m) by (nonlinear_arith)
        requires
            l == g * w + t,
            0 <= t < g,
            0 <= l < m * g,
    ;
    l_plane(c, k, d, w);
    let u = plane(c, k, w);
    l_upl(u.len(), k);
    assert(g <= z);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, z, w, t);
    assert(0 <= i < m * z) by (nonlinear_arith)
        requires
            i == w * z + t,
            0 <= t < z,
            0 <= w < m,
            z >= 1,
    ;
    th_ft_back(u, k);
    let h = p2(n);
    assert forall|a: int, b: int| vin2(a, b, h, h) implies #[trigger] pl(x, w)(a, b) == ftm(u)(a, b) by {
        assert(vin3(w, a, b, p2(s), h, h));
        assert(x(w, a, b) == rpm(c, k)(w, a, b));
    }
    l_iclv_eq(pl(x, w), ftm(u), n);
    assert(iicl(pl(x, w), n) =~= iicl(ftm(u), n)) by {
        assert forall|b: int| 0 <= b < p2(2 * n) implies iicl(pl(x, w), n)[b] == iicl(ftm(u), n)[b] by {
            assert(iclv(pl(x, w), n)[b] == iclv(ftm(u), n)[b]);
        }
    }
    assert(zx(u, p2(2 * n))[t] == u[t]);
    assert(u[t] == c[l]);
}
