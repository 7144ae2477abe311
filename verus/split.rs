// ---- products by halves: a = a0 + e a1 with e the highest generator
pub proof fn l_inv_top(x: usize, t: usize, n: nat)
    requires
        t < 63,
        x < (1usize << t),
        n <= 64,
    ensures
        inv(x, 1usize << t, n) == (n > t && odd(cnt(x, t as nat))),
        !inv(1usize << t, x, n),
        bit(1usize << t, t as nat),
    decreases n,
{
    l_inv_one(t, t, 64);
    assert(((1usize << t) >> t) & 1 == 1) by (bit_vector)
        requires
            t < 63,
    ;
    if n > 0 {
        let m = (n - 1) as nat;
        l_inv_top(x, t, m);
        let k = m as usize;
        assert((((1usize << t) >> k) & 1 == 1) == (k == t)) by (bit_vector)
            requires
                k < 64,
                t < 63,
        ;
        l_inv_one(t, t, m);
        if m >= t {
            l_hi(x, t as nat, m);
        }
    }
}

// square of the generator t
pub open spec fn gsq(t: usize, im: usize, pr: usize) -> Sign {
    if bit(pr, t as nat) {
        Sign::Null
    } else if bit(im, t as nat) {
        Sign::Minus
    } else {
        Sign::Plus
    }
}

pub proof fn l_gs_top(x: usize, y: usize, t: usize, im: usize, pr: usize)
    requires
        t < 63,
        x < (1usize << t),
        y < (1usize << t),
    ensures
        ({
            let h = 1usize << t;
            &&& geos(x, (y + h) as usize, im, pr) == smul(flips(x, allnull()), geos(x, y, im, pr))
            &&& geos((x + h) as usize, y, im, pr) == geos(x, y, im, pr)
            &&& geos((x + h) as usize, (y + h) as usize, im, pr) == smul(
                gsq(t, im, pr),
                smul(flips(x, allnull()), geos(x, y, im, pr)),
            )
        }),
{
    let h = 1usize << t;
    l_and_all(x);
    let (xh, yh) = (x ^ h, y ^ h);
    l_addtop(x, t);
    l_addtop(y, t);
    l_inv_xor(x, h, y, 64);
    l_inv_xor(y, h, x, 64);
    l_inv_xor(x, h, yh, 64);
    l_inv_xor(y, h, h, 64);
    l_inv_top(x, t, 64);
    l_inv_top(y, t, 64);
    l_inv_one(t, t, 64);
    l_cnt_hi(x, t as nat, 64);
    assert(x & (y ^ h) == x & y && (x ^ h) & y == x & y) by (bit_vector)
        requires
            h == 1usize << t,
            x < h,
            y < h,
            t < 63,
    ;
    assert((x ^ h) & (y ^ h) & im == (x & y & im) ^ (h & im)) by (bit_vector)
        requires
            h == 1usize << t,
            x < h,
            y < h,
            t < 63,
    ;
    assert((x ^ h) & (y ^ h) & pr != 0 <==> ((x & y & pr) != 0 || (pr >> t) & 1 == 1)) by (bit_vector)
        requires
            h == 1usize << t,
            x < h,
            y < h,
            t < 63,
    ;
    l_cnt_xor(x & y & im, h & im, 64);
    l_inv_zero(0, 64);
    assert((h & im) == if ((im >> t) & 1) == 1 { h } else { 0usize }) by (bit_vector)
        requires
            h == 1usize << t,
            t < 63,
    ;
}

pub proof fn l_addtop(x: usize, t: usize)
    requires
        t < 63,
        x < (1usize << t),
    ensures
        x + (1usize << t) == x ^ (1usize << t),
        x + (1usize << t) <= usize::MAX,
        (1usize << t) > 0,
{
    assert((1usize << t) > 0 && (1usize << t) <= 0x4000_0000_0000_0000) by (bit_vector)
        requires
            t < 63,
    ;
    assert(add(x, 1usize << t) == x ^ (1usize << t)) by (bit_vector)
        requires
            t < 63,
            x < (1usize << t),
    ;
}

pub open spec fn lo<T>(a: Seq<T>) -> Seq<T> {
    a.subrange(0, (a.len() / 2) as int)
}

pub open spec fn hi<T>(a: Seq<T>) -> Seq<T> {
    a.subrange((a.len() / 2) as int, a.len() as int)
}

pub open spec fn sgv<T: Ring>(s: Sign, a: Seq<T>) -> Seq<T> {
    Seq::new(a.len(), |i: int| sg(s, a[i]))
}

pub proof fn l_half(n: nat, d: usize)
    requires
        dimlen(n, d),
        d >= 1,
    ensures
        n / 2 == 1usize << ((d - 1) as usize),
        n == 2 * (n / 2),
        dimlen(n / 2, (d - 1) as usize),
{
    let t = (d - 1) as usize;
    assert((1usize << d) == mul(2, 1usize << t) && (1usize << t) <= 0x4000_0000_0000_0000) by (bit_vector)
        requires
            1 <= d <= 63,
            t == d - 1,
    ;
}

pub proof fn l_xr_top(i: int, k: int, t: usize)
    requires
        t < 63,
        0 <= i < (1usize << t),
        0 <= k < (1usize << t),
    ensures
        ({
            let h = (1usize << t) as int;
            &&& 0 <= xr(i, k) < h
            &&& xr(i + h, k) == xr(i, k) + h
            &&& xr(i, k + h) == xr(i, k) + h
            &&& xr(i + h, k + h) == xr(i, k)
        }),
{
    let h = 1usize << t;
    let (x, y) = (i as usize, k as usize);
    l_xr(i, k, h as nat, t);
    l_addtop(x, t);
    l_addtop(y, t);
    l_addtop(x ^ y, t);
    assert((x ^ h) ^ y == (x ^ y) ^ h && x ^ (y ^ h) == (x ^ y) ^ h && (x ^ h) ^ (y ^ h) == x ^ y) by (bit_vector);
}

pub proof fn th_split<T: Ring>(a: Seq<T>, b: Seq<T>, im: usize, pr: usize, d: usize)
    requires
        dimlen(a.len(), d),
        b.len() == a.len(),
        d >= 1,
    ensures
        lo(prod(a, b, im, pr)) == vadd(
            prod(lo(a), lo(b), im, pr),
            sgv(gsq((d - 1) as usize, im, pr), prod(flipv(hi(a), allnull()), hi(b), im, pr)),
        ),
        hi(prod(a, b, im, pr)) == vadd(prod(flipv(lo(a), allnull()), hi(b), im, pr), prod(hi(a), lo(b), im, pr)),
{
    let n = a.len();
    let h = n / 2;
    let t = (d - 1) as usize;
    l_half(n, d);
    let (a0, a1, b0, b1) = (lo(a), hi(a), lo(b), hi(b));
    let (f0, f1) = (flipv(a0, allnull()), flipv(a1, allnull()));
    let e = gsq(t, im, pr);
    let p = prod(a, b, im, pr);
    assert forall|k: int| 0 <= k < h implies #[trigger] lo(p)[k] == T::a(
        pk(a0, b0, im, pr, k),
        sg(e, pk(f1, b1, im, pr, k)),
    ) by {
        let f = pterm(a, b, im, pr, k);
        let g = |i: int| f(h + i);
        sum_split(f, g, h, h);
        assert forall|i: int| 0 <= i < h implies #[trigger] f(i) == pterm(a0, b0, im, pr, k)(i) by {
            l_xr_top(i, k, t);
        }
        sum_eq(f, pterm(a0, b0, im, pr, k), h);
        assert forall|i: int| 0 <= i < h implies #[trigger] g(i) == sg(e, pterm(f1, b1, im, pr, k)(i)) by {
            l_xr_top(i, k, t);
            let j = xr(i, k);
            l_gs_top(i as usize, j as usize, t, im, pr);
            let fl = flips(i as usize, allnull());
            let s = gs(i, j, im, pr);
            assert(a[h + i] == a1[i] && b[h + j] == b1[j]);
            sg_props(fl, fl, a1[i], b1[j]);
            let m = T::m(a1[i], b1[j]);
            sg_props(s, fl, m, m);
            sg_props(e, smul(s, fl), m, m);
        }
        sum_sg(pterm(f1, b1, im, pr, k), e, g, h);
    }
    assert(lo(p) =~= vadd(prod(a0, b0, im, pr), sgv(e, prod(f1, b1, im, pr))));
    assert forall|k: int| 0 <= k < h implies #[trigger] hi(p)[k] == T::a(
        pk(f0, b1, im, pr, k),
        pk(a1, b0, im, pr, k),
    ) by {
        let f = pterm(a, b, im, pr, h + k);
        let g = |i: int| f(h + i);
        sum_split(f, g, h, h);
        assert forall|i: int| 0 <= i < h implies #[trigger] f(i) == pterm(f0, b1, im, pr, k)(i) by {
            l_xr_top(i, k, t);
            let j = xr(i, k);
            l_gs_top(i as usize, j as usize, t, im, pr);
            let fl = flips(i as usize, allnull());
            let s = gs(i, j, im, pr);
            assert(a[i] == a0[i] && b[h + j] == b1[j]);
            sg_props(fl, fl, a0[i], b1[j]);
            let m = T::m(a0[i], b1[j]);
            sg_props(s, fl, m, m);
        }
        sum_eq(f, pterm(f0, b1, im, pr, k), h);
        assert forall|i: int| 0 <= i < h implies #[trigger] g(i) == pterm(a1, b0, im, pr, k)(i) by {
            l_xr_top(i, k, t);
            let j = xr(i, k);
            l_gs_top(i as usize, j as usize, t, im, pr);
            assert(a[h + i] == a1[i] && b[j] == b0[j]);
        }
        sum_eq(g, pterm(a1, b0, im, pr, k), h);
    }
    assert(hi(p) =~= vadd(prod(f0, b1, im, pr), prod(a1, b0, im, pr)));
}

pub proof fn th_wedge_split<T: Ring>(a: Seq<T>, b: Seq<T>, d: usize)
    requires
        dimlen(a.len(), d),
        b.len() == a.len(),
        d >= 1,
    ensures
        lo(wprod(a, b)) == wprod(lo(a), lo(b)),
        hi(wprod(a, b)) == vadd(wprod(hi(a), lo(b)), wprod(flipv(lo(a), allnull()), hi(b))),
        wprod(a, b) == lo(wprod(a, b)) + hi(wprod(a, b)),
{
    th_split(a, b, 0, allnull(), d);
    l_half(a.len(), d);
    let t = (d - 1) as usize;
    assert((0xffff_ffff_ffff_ffffusize >> t) & 1 == 1) by (bit_vector)
        requires
            t < 63,
    ;
    let p = wprod(lo(a), lo(b));
    let q = prod(flipv(hi(a), allnull()), hi(b), 0, allnull());
    assert forall|k: int| 0 <= k < p.len() implies #[trigger] lo(wprod(a, b))[k] == p[k] by {
        r_zero(p[k]);
    }
    assert(lo(wprod(a, b)) =~= p);
    let u = wprod(hi(a), lo(b));
    let v = wprod(flipv(lo(a), allnull()), hi(b));
    assert forall|k: int| 0 <= k < u.len() implies #[trigger] hi(wprod(a, b))[k] == T::a(u[k], v[k]) by {
        T::add_comm(u[k], v[k]);
    }
    assert(hi(wprod(a, b)) =~= vadd(u, v));
    assert(wprod(a, b) =~= lo(wprod(a, b)) + hi(wprod(a, b)));
}

pub open spec fn ispow(n: nat) -> bool {
    exists|d: usize| dimlen(n, d)
}

pub open spec fn lgn(n: nat) -> usize {
    choose|d: usize| dimlen(n, d)
}

pub proof fn l_pow_half(n: nat)
    requires
        ispow(n),
        n != 1,
    ensures
        dimlen(n, lgn(n)),
        lgn(n) >= 1,
        ispow(n / 2),
        n == 2 * (n / 2),
        n / 2 >= 1,
        n <= usize::MAX,
{
    let d = lgn(n);
    if d == 0 {
        assert((1usize << 0usize) == 1) by (bit_vector);
    }
    l_half(n, d);
    assert((1usize << d) > 0) by (bit_vector)
        requires
            d <= 63,
    ;
    assert(dimlen(n / 2, (d - 1) as usize));
}

pub proof fn l_wprod_one<T: Ring>(a: Seq<T>, b: Seq<T>)
    requires
        a.len() == 1,
        b.len() == 1,
    ensures
        wprod(a, b) == seq![T::m(a[0], b[0])],
{
    assert(0usize ^ 0 == 0) by (bit_vector);
    l_gs_unit(0, 0, allnull());
    let f = pterm(a, b, 0, allnull(), 0);
    reveal_with_fuel(sum, 2);
    assert(sum(f, 1) == T::a(sum(f, 0), f(0)));
    r_zero(f(0));
    assert(wprod(a, b) =~= seq![T::m(a[0], b[0])]);
}
