// ---- the fast transform turns products into matrix products
pub open spec fn mm<T: Ring>(x: spec_fn(int, int) -> T, y: spec_fn(int, int) -> T, h: nat, i: int, j: int) -> T {
    sum(|k: int| T::m(x(i, k), y(k, j)), h)
}

pub proof fn l_mm_eq<T: Ring>(
    x: spec_fn(int, int) -> T,
    y: spec_fn(int, int) -> T,
    u: spec_fn(int, int) -> T,
    w: spec_fn(int, int) -> T,
    h: nat,
    i: int,
    j: int,
)
    requires
        forall|k: int| 0 <= k < h ==> #[trigger] x(i, k) == u(i, k),
        forall|k: int| 0 <= k < h ==> #[trigger] y(k, j) == w(k, j),
    ensures
        mm(x, y, h, i, j) == mm(u, w, h, i, j),
{
    let f = |k: int| T::m(x(i, k), y(k, j));
    let g = |k: int| T::m(u(i, k), w(k, j));
    assert forall|k: int| 0 <= k < h implies #[trigger] f(k) == g(k) by {
        assert(x(i, k) == u(i, k) && y(k, j) == w(k, j));
    }
    sum_eq(f, g, h);
}

pub proof fn l_ap_mul(i: int, k: int, j: int, t: usize)
    requires
        t < 63,
        0 <= i < (1usize << t),
        0 <= j < (1usize << t),
        0 <= k < (1usize << t),
    ensures
        smul(ap(i, k), ap(k, j)) == ap(i, j),
{
    let (x, y, w) = (i as usize, k as usize, j as usize);
    l_xr(i, k, (1usize << t) as nat, t);
    l_xr(k, j, (1usize << t) as nat, t);
    assert((x ^ y) ^ (y ^ w) == x ^ w) by (bit_vector);
    l_cnt_xor(x ^ y, y ^ w, 64);
}

pub open spec fn alm<T: Ring>(x: spec_fn(int, int) -> T) -> spec_fn(int, int) -> T {
    |i: int, j: int| sg(ap(i, j), x(i, j))
}

// parity is multiplicative on matrices
pub proof fn l_mm_alpha<T: Ring>(x: spec_fn(int, int) -> T, y: spec_fn(int, int) -> T, h: nat, i: int, j: int, t: usize)
    requires
        t < 63,
        h == (1usize << t),
        0 <= i < h,
        0 <= j < h,
    ensures
        mm(alm(x), alm(y), h, i, j) == sg(ap(i, j), mm(x, y, h, i, j)),
{
    let f = |k: int| T::m(x(i, k), y(k, j));
    let g = |k: int| T::m(alm(x)(i, k), alm(y)(k, j));
    assert forall|k: int| 0 <= k < h implies #[trigger] g(k) == sg(ap(i, j), f(k)) by {
        l_ap_mul(i, k, j, t);
        let (s, e) = (ap(i, k), ap(k, j));
        sg_props(s, e, x(i, k), sg(e, y(k, j)));
        sg_props(e, e, x(i, k), y(k, j));
        sg_props(s, e, f(k), f(k));
    }
    sum_sg(f, ap(i, j), g, h);
}

// sums over two blocks
pub proof fn l_mm_blocks<T: Ring>(x: spec_fn(int, int) -> T, y: spec_fn(int, int) -> T, h: nat, i: int, j: int)
    ensures
        mm(x, y, 2 * h, i, j) == T::a(
            mm(x, y, h, i, j),
            mm(|a: int, b: int| x(a, b + h), |a: int, b: int| y(a + h, b), h, i, j),
        ),
{
    let f = |k: int| T::m(x(i, k), y(k, j));
    let (x1, y1) = (|a: int, b: int| x(a, b + h), |a: int, b: int| y(a + h, b));
    let g = |k: int| T::m(x1(i, k), y1(k, j));
    assert forall|k: int| 0 <= k < h implies #[trigger] g(k) == f(h + k) by {
        assert(k + h == h + k);
    }
    sum_split(f, g, h, h);
    assert((2 * h) as nat == h + h);
}

pub proof fn l_prod_sg<T: Ring>(a: Seq<T>, b: Seq<T>, e: Sign, im: usize, pr: usize, d: usize)
    requires
        dimlen(a.len(), d),
        b.len() == a.len(),
    ensures
        prod(sgv(e, a), b, im, pr) == sgv(e, prod(a, b, im, pr)),
        prod(a, sgv(e, b), im, pr) == sgv(e, prod(a, b, im, pr)),
{
    let n = a.len();
    let p = prod(a, b, im, pr);
    assert forall|k: int| 0 <= k < n implies #[trigger] pk(sgv(e, a), b, im, pr, k) == sg(e, pk(a, b, im, pr, k)) by {
        assert forall|i: int| 0 <= i < n implies #[trigger] pterm(sgv(e, a), b, im, pr, k)(i) == sg(e, pterm(a, b, im, pr, k)(i)) by {
            let s = gs(i, xr(i, k), im, pr);
            let y = b[xr(i, k)];
            sg_props(e, s, a[i], y);
            sg_props(s, e, T::m(a[i], y), y);
            sg_props(e, s, T::m(a[i], y), y);
        }
        sum_sg(pterm(a, b, im, pr, k), e, pterm(sgv(e, a), b, im, pr, k), n);
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] pk(a, sgv(e, b), im, pr, k) == sg(e, pk(a, b, im, pr, k)) by {
        assert forall|i: int| 0 <= i < n implies #[trigger] pterm(a, sgv(e, b), im, pr, k)(i) == sg(e, pterm(a, b, im, pr, k)(i)) by {
            l_xr(i, k, n, d);
            let s = gs(i, xr(i, k), im, pr);
            let y = b[xr(i, k)];
            sg_props(e, s, a[i], y);
            sg_props(s, e, T::m(a[i], y), y);
            sg_props(e, s, T::m(a[i], y), y);
        }
        sum_sg(pterm(a, b, im, pr, k), e, pterm(a, sgv(e, b), im, pr, k), n);
    }
    assert(prod(sgv(e, a), b, im, pr) =~= sgv(e, p));
    assert(prod(a, sgv(e, b), im, pr) =~= sgv(e, p));
}

pub proof fn l_bil4<T: Ring>(x: Seq<T>, y: Seq<T>, u: Seq<T>, v: Seq<T>, im: usize, pr: usize, d: usize)
    requires
        dimlen(x.len(), d),
        y.len() == x.len(),
        u.len() == x.len(),
        v.len() == x.len(),
    ensures
        prod(vadd(x, y), vadd(u, v), im, pr) == vadd(
            vadd(prod(x, u, im, pr), prod(x, v, im, pr)),
            vadd(prod(y, u, im, pr), prod(y, v, im, pr)),
        ),
{
    th_bilinear(x, y, vadd(u, v), im, pr, d);
    th_bilinear(x, u, v, im, pr, d);
    th_bilinear(y, u, v, im, pr, d);
}

pub proof fn r_mix<T: Ring>(x1: T, x2: T, x3: T, x4: T, y1: T, y2: T, y3: T, y4: T)
    ensures
        T::a(T::a(T::a(x1, y1), T::a(y2, x2)), T::a(T::a(x3, y3), T::a(y4, x4))) == T::a(
            T::a(T::a(x1, x3), T::a(x4, x2)),
            T::a(T::a(y1, y3), T::a(y4, y2)),
        ),
{
    T::add_comm(y2, x2);
    T::add_comm(y4, x4);
    r_add4(x1, y1, x2, y2);
    r_add4(x3, y3, x4, y4);
    r_add4(T::a(x1, x2), T::a(y1, y2), T::a(x3, x4), T::a(y3, y4));
    r_add4(x1, x2, x3, x4);
    T::add_comm(x2, x4);
    r_add4(y1, y2, y3, y4);
    T::add_comm(y2, y4);
}

pub proof fn l_alv<T: Ring>(a: Seq<T>)
    ensures
        alv(a) == flipv(a, allnull()),
{
    assert forall|i: int| 0 <= i < a.len() implies alv(a)[i] == flipv(a, allnull())[i] by {
        l_and_all(i as usize);
    }
    assert(alv(a) =~= flipv(a, allnull()));
}

pub proof fn l_alv_lin<T: Ring>(a: Seq<T>, b: Seq<T>, e: Sign)
    requires
        a.len() == b.len(),
    ensures
        alv(vadd(a, b)) == vadd(alv(a), alv(b)),
        alv(sgv(e, a)) == sgv(e, alv(a)),
        alv(alv(a)) == a,
        alv(a).len() == a.len(),
{
    assert forall|i: int| 0 <= i < a.len() implies alv(vadd(a, b))[i] == vadd(alv(a), alv(b))[i] && alv(sgv(e, a))[i] == sgv(e, alv(a))[i]
        && alv(alv(a))[i] == a[i] by {
        let g = par(i);
        sg_props(g, e, a[i], b[i]);
        sg_props(e, g, a[i], b[i]);
        sg_props(g, g, a[i], b[i]);
    }
    assert(alv(vadd(a, b)) =~= vadd(alv(a), alv(b)));
    assert(alv(sgv(e, a)) =~= sgv(e, alv(a)));
    assert(alv(alv(a)) =~= a);
}

// the generators alternate: even ones square to 1, odd ones to -1
pub open spec fn altsig(im: usize, pr: usize, n: nat) -> bool {
    forall|t: usize| t < 2 * n ==> #[trigger] gsq(t, im, pr) == if t % 2 == 1 {
        Sign::Minus
    } else {
        Sign::Plus
    }
}

// a product of halves, the top generator squaring to e
pub proof fn l_pair<T: Ring>(a: Seq<T>, b: Seq<T>, im: usize, pr: usize, d: usize)
    requires
        dimlen(a.len(), d),
        b.len() == a.len(),
        d >= 1,
    ensures
        ({
            let e = gsq((d - 1) as usize, im, pr);
            let (a0, a1, b0, b1) = (lo(a), hi(a), lo(b), hi(b));
            &&& lo(prod(a, b, im, pr)) == vadd(prod(a0, b0, im, pr), sgv(e, prod(alv(a1), b1, im, pr)))
            &&& hi(prod(a, b, im, pr)) == vadd(prod(alv(a0), b1, im, pr), prod(a1, b0, im, pr))
            &&& lo(alv(a)) == alv(a0)
            &&& hi(alv(a)) == sgv(Sign::Minus, alv(a1))
        }),
{
    th_split(a, b, im, pr, d);
    l_half(a.len(), d);
    l_alv(hi(a));
    l_alv(lo(a));
    let h = a.len() / 2;
    assert(lo(alv(a)) =~= alv(lo(a)));
    let r = sgv(Sign::Minus, alv(hi(a)));
    assert forall|i: int| 0 <= i < h implies hi(alv(a))[i] == r[i] by {
        l_par_top(i, (d - 1) as usize);
        let x = a[h + i];
        assert(hi(a)[i] == x);
        sg_props(Sign::Minus, par(i), x, x);
    }
    assert(hi(alv(a)) =~= r);
}

pub proof fn l_quarts<T>(a: Seq<T>, n: nat)
    requires
        sqlen(a.len(), n),
        n > 0,
    ensures
        quart(a, 0) == lo(lo(a)),
        quart(a, 1) == hi(lo(a)),
        quart(a, 2) == lo(hi(a)),
        quart(a, 3) == hi(hi(a)),
        dimlen(a.len(), (2 * n) as usize),
        dimlen(lo(a).len(), (2 * n - 1) as usize),
        dimlen(quart(a, 0).len(), (2 * n - 2) as usize),
        hi(a).len() == lo(a).len(),
        forall|s: int| 0 <= s < 4 ==> (#[trigger] quart(a, s)).len() == a.len() / 4,
{
    l_sq(a.len(), n);
    l_p2(2 * n);
    assert(quart(a, 0) =~= lo(lo(a)));
    assert(quart(a, 1) =~= hi(lo(a)));
    assert(quart(a, 2) =~= lo(hi(a)));
    assert(quart(a, 3) =~= hi(hi(a)));
}

pub open spec fn ng<T: Ring>(a: Seq<T>) -> Seq<T> {
    sgv(Sign::Minus, a)
}

pub proof fn l_ng_ng<T: Ring>(a: Seq<T>)
    ensures
        ng(ng(a)) == a,
        sgv(Sign::Plus, a) == a,
{
    assert forall|i: int| 0 <= i < a.len() implies ng(ng(a))[i] == a[i] by {
        r_neg(a[i]);
    }
    assert(ng(ng(a)) =~= a);
    assert(sgv(Sign::Plus, a) =~= a);
}

pub proof fn l_ng_add<T: Ring>(a: Seq<T>, b: Seq<T>)
    requires
        a.len() == b.len(),
    ensures
        ng(vadd(a, b)) == vadd(ng(a), ng(b)),
{
    assert forall|i: int| 0 <= i < a.len() implies ng(vadd(a, b))[i] == vadd(ng(a), ng(b))[i] by {
        r_neg_add(a[i], b[i]);
    }
    assert(ng(vadd(a, b)) =~= vadd(ng(a), ng(b)));
}

pub proof fn l_mixv<T: Ring>(x1: Seq<T>, x2: Seq<T>, x3: Seq<T>, x4: Seq<T>, y1: Seq<T>, y2: Seq<T>, y3: Seq<T>, y4: Seq<T>)
    requires
        x2.len() == x1.len(),
        x3.len() == x1.len(),
        x4.len() == x1.len(),
        y1.len() == x1.len(),
        y2.len() == x1.len(),
        y3.len() == x1.len(),
        y4.len() == x1.len(),
    ensures
        vadd(vadd(vadd(x1, y1), vadd(y2, x2)), vadd(vadd(x3, y3), vadd(y4, x4))) == vadd(
            vadd(vadd(x1, x3), vadd(x4, x2)),
            vadd(vadd(y1, y3), vadd(y4, y2)),
        ),
{
    let l = vadd(vadd(vadd(x1, y1), vadd(y2, x2)), vadd(vadd(x3, y3), vadd(y4, x4)));
    let r = vadd(vadd(vadd(x1, x3), vadd(x4, x2)), vadd(vadd(y1, y3), vadd(y4, y2)));
    assert forall|i: int| 0 <= i < x1.len() implies l[i] == r[i] by {
        r_mix(x1[i], x2[i], x3[i], x4[i], y1[i], y2[i], y3[i], y4[i]);
    }
    assert(l =~= r);
}

// quarters of a product
pub proof fn l_quad<T: Ring>(a: Seq<T>, b: Seq<T>, im: usize, pr: usize, n: nat)
    requires
        sqlen(a.len(), n),
        n > 0,
        b.len() == a.len(),
        altsig(im, pr, n),
    ensures
        ({
            let p = prod(a, b, im, pr);
            let (a0, a1, a2, a3) = (quart(a, 0), quart(a, 1), quart(a, 2), quart(a, 3));
            let (b0, b1, b2, b3) = (quart(b, 0), quart(b, 1), quart(b, 2), quart(b, 3));
            let n_ = |x: Seq<T>, y: Seq<T>| prod(x, y, im, pr);
            let t_ = |x: Seq<T>, y: Seq<T>| prod(alv(x), y, im, pr);
            &&& quart(p, 0) == vadd(vadd(n_(a0, b0), t_(a1, b1)), vadd(ng(t_(a2, b2)), n_(a3, b3)))
            &&& quart(p, 1) == vadd(vadd(t_(a0, b1), n_(a1, b0)), vadd(ng(n_(a2, b3)), t_(a3, b2)))
            &&& quart(p, 2) == vadd(vadd(t_(a0, b2), ng(n_(a1, b3))), vadd(n_(a2, b0), t_(a3, b1)))
            &&& quart(p, 3) == vadd(vadd(n_(a0, b3), ng(t_(a1, b2))), vadd(t_(a2, b1), n_(a3, b0)))
        }),
{
    let p = prod(a, b, im, pr);
    let d = (2 * n) as usize;
    let (d1, d2) = ((2 * n - 1) as usize, (2 * n - 2) as usize);
    l_quarts(a, n);
    l_quarts(b, n);
    l_quarts(p, n);
    let (a0, a1, a2, a3) = (quart(a, 0), quart(a, 1), quart(a, 2), quart(a, 3));
    let (b0, b1, b2, b3) = (quart(b, 0), quart(b, 1), quart(b, 2), quart(b, 3));
    assert(gsq(d1, im, pr) == Sign::Minus);
    assert(gsq(d2, im, pr) == Sign::Plus);
    let (la, ha, lb, hb) = (lo(a), hi(a), lo(b), hi(b));
    l_pair(a, b, im, pr, d);
    // lo(p) = la lb - ~ha hb;  hi(p) = ~la hb + ha lb
    l_pair(la, lb, im, pr, d1);
    l_pair(ha, lb, im, pr, d1);
    l_pair(alv(ha), hb, im, pr, d1);
    l_pair(alv(la), hb, im, pr, d1);
    let (p1, p2, p3, p4) = (prod(la, lb, im, pr), prod(alv(ha), hb, im, pr), prod(alv(la), hb, im, pr), prod(ha, lb, im, pr));
    assert(lo(vadd(p1, ng(p2))) =~= vadd(lo(p1), ng(lo(p2))));
    assert(hi(vadd(p1, ng(p2))) =~= vadd(hi(p1), ng(hi(p2))));
    assert(lo(vadd(p3, p4)) =~= vadd(lo(p3), lo(p4)));
    assert(hi(vadd(p3, p4)) =~= vadd(hi(p3), hi(p4)));
    // parts of ~ha = (~a2, -~a3), ~la = (~a0, -~a1)
    l_alv_lin(alv(a3), a3, Sign::Minus);
    l_alv_lin(alv(a1), a1, Sign::Minus);
    l_alv_lin(a0, a0, Sign::Minus);
    l_alv_lin(a1, a1, Sign::Minus);
    l_alv_lin(a2, a2, Sign::Minus);
    l_alv_lin(a3, a3, Sign::Minus);
    l_prod_sg(a3, b3, Sign::Minus, im, pr, d2);
    l_prod_sg(a1, b3, Sign::Minus, im, pr, d2);
    l_prod_sg(alv(a3), b2, Sign::Minus, im, pr, d2);
    l_prod_sg(alv(a1), b2, Sign::Minus, im, pr, d2);
    l_ng_ng(prod(alv(a1), b1, im, pr));
    l_ng_ng(prod(alv(a3), b1, im, pr));
    l_ng_ng(ng(prod(a3, b3, im, pr)));
    l_ng_ng(ng(prod(a1, b3, im, pr)));
    l_ng_ng(prod(alv(alv(a2)), b3, im, pr));
    l_ng_ng(prod(a3, b3, im, pr));
    l_ng_ng(prod(alv(a3), b2, im, pr));
    l_ng_add(prod(alv(a2), b2, im, pr), ng(prod(a3, b3, im, pr)));
    l_ng_add(prod(a2, b3, im, pr), ng(prod(alv(a3), b2, im, pr)));
}

pub proof fn l_quad_sums<T: Ring>(a: Seq<T>, b: Seq<T>, im: usize, pr: usize, n: nat)
    requires
        sqlen(a.len(), n),
        n > 0,
        b.len() == a.len(),
        altsig(im, pr, n),
    ensures
        ({
            let p = prod(a, b, im, pr);
            let (ua, va) = (vadd(quart(a, 0), quart(a, 3)), vadd(quart(a, 1), quart(a, 2)));
            let (wa, za) = (vadd(quart(a, 1), ng(quart(a, 2))), vadd(quart(a, 0), ng(quart(a, 3))));
            let (ub, vb) = (vadd(quart(b, 0), quart(b, 3)), vadd(quart(b, 1), quart(b, 2)));
            let (wb, zb) = (vadd(quart(b, 1), ng(quart(b, 2))), vadd(quart(b, 0), ng(quart(b, 3))));
            &&& vadd(quart(p, 0), quart(p, 3)) == vadd(prod(ua, ub, im, pr), prod(alv(va), wb, im, pr))
            &&& vadd(quart(p, 0), ng(quart(p, 3))) == vadd(prod(za, zb, im, pr), prod(alv(wa), vb, im, pr))
            &&& vadd(quart(p, 1), quart(p, 2)) == vadd(prod(alv(ua), vb, im, pr), prod(va, zb, im, pr))
            &&& vadd(quart(p, 1), ng(quart(p, 2))) == vadd(prod(alv(za), wb, im, pr), prod(wa, ub, im, pr))
        }),
{
    let d2 = (2 * n - 2) as usize;
    l_quad(a, b, im, pr, n);
    l_quarts(a, n);
    l_quarts(b, n);
    let (a0, a1, a2, a3) = (quart(a, 0), quart(a, 1), quart(a, 2), quart(a, 3));
    let (b0, b1, b2, b3) = (quart(b, 0), quart(b, 1), quart(b, 2), quart(b, 3));
    let (t0, t1, t2, t3) = (alv(a0), alv(a1), alv(a2), alv(a3));
    let n_ = |x: Seq<T>, y: Seq<T>| prod(x, y, im, pr);
    l_alv_lin(a1, a2, Sign::Minus);
    l_alv_lin(a0, a3, Sign::Minus);
    l_alv_lin(a2, a1, Sign::Minus);
    l_alv_lin(a3, a0, Sign::Minus);
    l_alv_lin(a1, ng(a2), Sign::Minus);
    l_alv_lin(a0, ng(a3), Sign::Minus);
    // u u + ~v w
    l_bil4(a0, a3, b0, b3, im, pr, d2);
    l_bil4(t1, t2, b1, ng(b2), im, pr, d2);
    l_prod_sg(t1, b2, Sign::Minus, im, pr, d2);
    l_prod_sg(t2, b2, Sign::Minus, im, pr, d2);
    l_mixv(n_(a0, b0), n_(a3, b3), n_(a0, b3), n_(a3, b0), n_(t1, b1), ng(n_(t2, b2)), ng(n_(t1, b2)), n_(t2, b1));
    // z z + ~w v
    l_bil4(a0, ng(a3), b0, ng(b3), im, pr, d2);
    l_bil4(t1, ng(t2), b1, b2, im, pr, d2);
    l_prod_sg(a0, b3, Sign::Minus, im, pr, d2);
    l_prod_sg(a3, b0, Sign::Minus, im, pr, d2);
    l_prod_sg(ng(a3), b3, Sign::Minus, im, pr, d2);
    l_prod_sg(a3, b3, Sign::Minus, im, pr, d2);
    l_prod_sg(t2, b1, Sign::Minus, im, pr, d2);
    l_ng_ng(n_(a3, b3));
    l_ng_ng(n_(t1, b2));
    l_ng_add(vadd(n_(a0, b3), ng(n_(t1, b2))), vadd(n_(t2, b1), n_(a3, b0)));
    l_ng_add(n_(a0, b3), ng(n_(t1, b2)));
    l_ng_add(n_(t2, b1), n_(a3, b0));
    l_mixv(n_(a0, b0), n_(a3, b3), ng(n_(a0, b3)), ng(n_(a3, b0)), n_(t1, b1), ng(n_(t2, b2)), n_(t1, b2), ng(n_(t2, b1)));
    // ~u v + v z
    l_bil4(t0, t3, b1, b2, im, pr, d2);
    l_bil4(a1, a2, b0, ng(b3), im, pr, d2);
    l_prod_sg(a1, b3, Sign::Minus, im, pr, d2);
    l_prod_sg(a2, b3, Sign::Minus, im, pr, d2);
    l_mixv(n_(t0, b1), n_(t3, b2), n_(t0, b2), n_(t3, b1), n_(a1, b0), ng(n_(a2, b3)), ng(n_(a1, b3)), n_(a2, b0));
    // ~z w + w u
    l_bil4(t0, ng(t3), b1, ng(b2), im, pr, d2);
    l_bil4(a1, ng(a2), b0, b3, im, pr, d2);
    l_prod_sg(t0, b2, Sign::Minus, im, pr, d2);
    l_prod_sg(t3, b1, Sign::Minus, im, pr, d2);
    l_prod_sg(ng(t3), b2, Sign::Minus, im, pr, d2);
    l_prod_sg(t3, b2, Sign::Minus, im, pr, d2);
    l_prod_sg(a2, b0, Sign::Minus, im, pr, d2);
    l_ng_ng(n_(t3, b2));
    l_ng_ng(n_(a1, b3));
    l_ng_add(vadd(n_(t0, b2), ng(n_(a1, b3))), vadd(n_(a2, b0), n_(t3, b1)));
    l_ng_add(n_(t0, b2), ng(n_(a1, b3)));
    l_ng_add(n_(a2, b0), n_(t3, b1));
    l_mixv(n_(t0, b1), n_(t3, b2), ng(n_(t0, b2)), ng(n_(t3, b1)), n_(a1, b0), ng(n_(a2, b3)), n_(a1, b3), ng(n_(a2, b0)));
}

// the four blocks of the matrix of c
pub proof fn l_cl_blocks<T: Ring>(c: Seq<T>, n: nat, i: int, j: int)
    requires
        sqlen(c.len(), n),
        n > 0,
        0 <= i < p2((n - 1) as nat),
        0 <= j < p2((n - 1) as nat),
    ensures
        ({
            let m = (n - 1) as nat;
            let h = p2(m);
            let (u, v) = (vadd(quart(c, 0), quart(c, 3)), vadd(quart(c, 1), quart(c, 2)));
            let (w, z) = (vadd(quart(c, 1), ng(quart(c, 2))), vadd(quart(c, 0), ng(quart(c, 3))));
            &&& cl(c, n, i, j) == cl(u, m, i, j)
            &&& cl(c, n, i, j + h) == sg(ap(i, j), cl(v, m, i, j))
            &&& cl(c, n, i + h, j) == cl(w, m, i, j)
            &&& cl(c, n, i + h, j + h) == sg(ap(i, j), cl(z, m, i, j))
        }),
{
    let m = (n - 1) as nat;
    l_sq(c.len(), n);
    let (c0, c1, c2, c3) = (quart(c, 0), quart(c, 1), quart(c, 2), quart(c, 3));
    l_cl_add(c0, c3, m, i, j);
    l_cl_add(c1, c2, m, i, j);
    l_cl_add(c1, ng(c2), m, i, j);
    l_cl_add(c0, ng(c3), m, i, j);
    l_cl_sg(c2, Sign::Minus, m, i, j);
    l_cl_sg(c3, Sign::Minus, m, i, j);
    T::sub_def(cl(c1, m, i, j), cl(c2, m, i, j));
    T::sub_def(cl(c0, m, i, j), cl(c3, m, i, j));
}

pub proof fn th_hom<T: Ring>(a: Seq<T>, b: Seq<T>, im: usize, pr: usize, n: nat, i: int, j: int)
    requires
        sqlen(a.len(), n),
        b.len() == a.len(),
        altsig(im, pr, n),
        0 <= i < p2(n),
        0 <= j < p2(n),
    ensures
        cl(prod(a, b, im, pr), n, i, j) == mm(clm(a, n), clm(b, n), p2(n), i, j),
    decreases n, 0int,
{
    let p = prod(a, b, im, pr);
    l_p2(0);
    if n == 0 {
        assert(0usize ^ 0 == 0) by (bit_vector);
        l_gs_unit(0, im, pr);
        let f = pterm(a, b, im, pr, 0);
        let g = |k: int| T::m(clm(a, n)(i, k), clm(b, n)(k, j));
        sum_eq(f, g, 1);
    } else {
        let m = (n - 1) as nat;
        let h = p2(m);
        l_sq(a.len(), n);
        l_p2(m);
        l_quarts(a, n);
        l_quarts(b, n);
        l_quarts(p, n);
        l_quad_sums(a, b, im, pr, n);
        assert(altsig(im, pr, m));
        let (ua, va) = (vadd(quart(a, 0), quart(a, 3)), vadd(quart(a, 1), quart(a, 2)));
        let (wa, za) = (vadd(quart(a, 1), ng(quart(a, 2))), vadd(quart(a, 0), ng(quart(a, 3))));
        let (ub, vb) = (vadd(quart(b, 0), quart(b, 3)), vadd(quart(b, 1), quart(b, 2)));
        let (wb, zb) = (vadd(quart(b, 1), ng(quart(b, 2))), vadd(quart(b, 0), ng(quart(b, 3))));
        let (i2, j2) = (lw(i, h), lw(j, h));
        l_cl_blocks(p, n, i2, j2);
        let (x, y) = (clm(a, n), clm(b, n));
        let (x1, y1) = (|r: int, c: int| x(r, c + h), |r: int, c: int| y(r + h, c));
        l_mm_blocks(x, y, h, i, j);
        let g = ap(i2, j2);
        assert forall|k: int| 0 <= k < h implies #[trigger] x(i, k) == if i < h { cl(ua, m, i2, k) } else { cl(wa, m, i2, k) } by {
            l_cl_blocks(a, n, i2, k);
        }
        assert forall|k: int| 0 <= k < h implies #[trigger] x1(i, k) == if i < h { sg(ap(i2, k), cl(va, m, i2, k)) } else { sg(ap(i2, k), cl(za, m, i2, k)) } by {
            l_cl_blocks(a, n, i2, k);
        }
        assert forall|k: int| 0 <= k < h implies #[trigger] y(k, j) == if j < h { cl(ub, m, k, j2) } else { sg(ap(k, j2), cl(vb, m, k, j2)) } by {
            l_cl_blocks(b, n, k, j2);
        }
        assert forall|k: int| 0 <= k < h implies #[trigger] y1(k, j) == if j < h { cl(wb, m, k, j2) } else { sg(ap(k, j2), cl(zb, m, k, j2)) } by {
            l_cl_blocks(b, n, k, j2);
        }
        l_hom_mm(ua, va, wa, za, ub, vb, wb, zb, im, pr, m, i2, j2);
        l_mm_shift(x, y, x1, y1, ua, va, wa, za, ub, vb, wb, zb, m, i, j);
    }
}

// products of the blocks, for one level down
pub proof fn l_hom_mm<T: Ring>(
    ua: Seq<T>,
    va: Seq<T>,
    wa: Seq<T>,
    za: Seq<T>,
    ub: Seq<T>,
    vb: Seq<T>,
    wb: Seq<T>,
    zb: Seq<T>,
    im: usize,
    pr: usize,
    m: nat,
    i: int,
    j: int,
)
    requires
        sqlen(ua.len(), m),
        va.len() == ua.len(),
        wa.len() == ua.len(),
        za.len() == ua.len(),
        ub.len() == ua.len(),
        vb.len() == ua.len(),
        wb.len() == ua.len(),
        zb.len() == ua.len(),
        altsig(im, pr, m),
        0 <= i < p2(m),
        0 <= j < p2(m),
    ensures
        ({
            let h = p2(m);
            let c = |s: Seq<T>| cl(s, m, i, j);
            let g = ap(i, j);
            &&& c(vadd(prod(ua, ub, im, pr), prod(alv(va), wb, im, pr))) == T::a(
                mm(clm(ua, m), clm(ub, m), h, i, j),
                mm(alm(clm(va, m)), clm(wb, m), h, i, j),
            )
            &&& sg(g, c(vadd(prod(za, zb, im, pr), prod(alv(wa), vb, im, pr)))) == T::a(
                mm(clm(wa, m), alm(clm(vb, m)), h, i, j),
                mm(alm(clm(za, m)), alm(clm(zb, m)), h, i, j),
            )
            &&& sg(g, c(vadd(prod(alv(ua), vb, im, pr), prod(va, zb, im, pr)))) == T::a(
                mm(clm(ua, m), alm(clm(vb, m)), h, i, j),
                mm(alm(clm(va, m)), alm(clm(zb, m)), h, i, j),
            )
            &&& c(vadd(prod(alv(za), wb, im, pr), prod(wa, ub, im, pr))) == T::a(
                mm(clm(wa, m), clm(ub, m), h, i, j),
                mm(alm(clm(za, m)), clm(wb, m), h, i, j),
            )
        }),
    decreases m, 1int,
{
    let h = p2(m);
    let g = ap(i, j);
    l_p2(m);
    let t = m as usize;
    // u u + ~v w
    l_cl_add(prod(ua, ub, im, pr), prod(alv(va), wb, im, pr), m, i, j);
    th_hom(ua, ub, im, pr, m, i, j);
    th_hom(alv(va), wb, im, pr, m, i, j);
    l_clm_alpha(va, wb, m, i, j);
    // z z + ~w v
    l_cl_add(prod(za, zb, im, pr), prod(alv(wa), vb, im, pr), m, i, j);
    th_hom(za, zb, im, pr, m, i, j);
    th_hom(alv(wa), vb, im, pr, m, i, j);
    l_clm_alpha(wa, vb, m, i, j);
    l_mm_alpha(clm(za, m), clm(zb, m), h, i, j, t);
    l_mm_alpha(alm(clm(wa, m)), clm(vb, m), h, i, j, t);
    l_alm_alm(clm(wa, m), alm(clm(vb, m)), h, i, j);
    sg_props(g, g, cl(prod(za, zb, im, pr), m, i, j), cl(prod(alv(wa), vb, im, pr), m, i, j));
    T::add_comm(mm(clm(wa, m), alm(clm(vb, m)), h, i, j), mm(alm(clm(za, m)), alm(clm(zb, m)), h, i, j));
    // ~u v + v z
    l_cl_add(prod(alv(ua), vb, im, pr), prod(va, zb, im, pr), m, i, j);
    th_hom(alv(ua), vb, im, pr, m, i, j);
    th_hom(va, zb, im, pr, m, i, j);
    l_clm_alpha(ua, vb, m, i, j);
    l_mm_alpha(alm(clm(ua, m)), clm(vb, m), h, i, j, t);
    l_mm_alpha(clm(va, m), clm(zb, m), h, i, j, t);
    l_alm_alm(clm(ua, m), alm(clm(vb, m)), h, i, j);
    sg_props(g, g, cl(prod(alv(ua), vb, im, pr), m, i, j), cl(prod(va, zb, im, pr), m, i, j));
    // ~z w + w u
    l_cl_add(prod(alv(za), wb, im, pr), prod(wa, ub, im, pr), m, i, j);
    th_hom(alv(za), wb, im, pr, m, i, j);
    th_hom(wa, ub, im, pr, m, i, j);
    l_clm_alpha(za, wb, m, i, j);
    T::add_comm(mm(clm(wa, m), clm(ub, m), h, i, j), mm(alm(clm(za, m)), clm(wb, m), h, i, j));
}

pub proof fn l_clm_alpha<T: Ring>(a: Seq<T>, b: Seq<T>, m: nat, i: int, j: int)
    requires
        sqlen(a.len(), m),
        0 <= i < p2(m),
        0 <= j < p2(m),
    ensures
        mm(clm(alv(a), m), clm(b, m), p2(m), i, j) == mm(alm(clm(a, m)), clm(b, m), p2(m), i, j),
{
    assert forall|k: int| 0 <= k < p2(m) implies #[trigger] clm(alv(a), m)(i, k) == alm(clm(a, m))(i, k) by {
        l_cl_alpha(a, m, i, k);
    }
    l_mm_eq(clm(alv(a), m), clm(b, m), alm(clm(a, m)), clm(b, m), p2(m), i, j);
}

pub proof fn l_alm_alm<T: Ring>(x: spec_fn(int, int) -> T, y: spec_fn(int, int) -> T, h: nat, i: int, j: int)
    ensures
        mm(alm(alm(x)), y, h, i, j) == mm(x, y, h, i, j),
{
    assert forall|k: int| 0 <= k < h implies #[trigger] alm(alm(x))(i, k) == x(i, k) by {
        let g = ap(i, k);
        sg_props(g, g, x(i, k), x(i, k));
    }
    l_mm_eq(alm(alm(x)), y, x, y, h, i, j);
}

pub proof fn l_mm_shift<T: Ring>(
    x: spec_fn(int, int) -> T,
    y: spec_fn(int, int) -> T,
    x1: spec_fn(int, int) -> T,
    y1: spec_fn(int, int) -> T,
    ua: Seq<T>,
    va: Seq<T>,
    wa: Seq<T>,
    za: Seq<T>,
    ub: Seq<T>,
    vb: Seq<T>,
    wb: Seq<T>,
    zb: Seq<T>,
    m: nat,
    i: int,
    j: int,
)
    requires
        forall|k: int| 0 <= k < p2(m) ==> #[trigger] x(i, k) == if i < p2(m) { cl(ua, m, lw(i, p2(m)), k) } else { cl(wa, m, lw(i, p2(m)), k) },
        forall|k: int| 0 <= k < p2(m) ==> #[trigger] x1(i, k) == if i < p2(m) { sg(ap(lw(i, p2(m)), k), cl(va, m, lw(i, p2(m)), k)) } else { sg(ap(lw(i, p2(m)), k), cl(za, m, lw(i, p2(m)), k)) },
        forall|k: int| 0 <= k < p2(m) ==> #[trigger] y(k, j) == if j < p2(m) { cl(ub, m, k, lw(j, p2(m))) } else { sg(ap(k, lw(j, p2(m))), cl(vb, m, k, lw(j, p2(m)))) },
        forall|k: int| 0 <= k < p2(m) ==> #[trigger] y1(k, j) == if j < p2(m) { cl(wb, m, k, lw(j, p2(m))) } else { sg(ap(k, lw(j, p2(m))), cl(zb, m, k, lw(j, p2(m)))) },
    ensures
        ({
            let h = p2(m);
            let (i2, j2) = (lw(i, h), lw(j, h));
            let xl = if i < h { clm(ua, m) } else { clm(wa, m) };
            let xr_ = alm(if i < h { clm(va, m) } else { clm(za, m) });
            let yl = if j < h { clm(ub, m) } else { alm(clm(vb, m)) };
            let yr = if j < h { clm(wb, m) } else { alm(clm(zb, m)) };
            &&& mm(x, y, h, i, j) == mm(xl, yl, h, i2, j2)
            &&& mm(x1, y1, h, i, j) == mm(xr_, yr, h, i2, j2)
        }),
{
    let h = p2(m);
    let (i2, j2) = (lw(i, h), lw(j, h));
    let xl = if i < h { clm(ua, m) } else { clm(wa, m) };
    let xr_ = alm(if i < h { clm(va, m) } else { clm(za, m) });
    let yl = if j < h { clm(ub, m) } else { alm(clm(vb, m)) };
    let yr = if j < h { clm(wb, m) } else { alm(clm(zb, m)) };
    let f = |k: int| T::m(x(i, k), y(k, j));
    let g = |k: int| T::m(xl(i2, k), yl(k, j2));
    assert forall|k: int| 0 <= k < h implies #[trigger] f(k) == g(k) by {
        assert(x(i, k) == xl(i2, k));
        assert(y(k, j) == yl(k, j2));
    }
    sum_eq(f, g, h);
    let f1 = |k: int| T::m(x1(i, k), y1(k, j));
    let g1 = |k: int| T::m(xr_(i2, k), yr(k, j2));
    assert forall|k: int| 0 <= k < h implies #[trigger] f1(k) == g1(k) by {
        assert(x1(i, k) == xr_(i2, k));
        assert(y1(k, j) == yr(k, j2));
    }
    sum_eq(f1, g1, h);
}
