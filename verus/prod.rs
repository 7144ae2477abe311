// ---- blade indices
pub open spec fn xr(i: int, j: int) -> int {
    ((i as usize) ^ (j as usize)) as int
}

pub open spec fn gs(i: int, j: int, im: usize, pr: usize) -> Sign {
    geos(i as usize, j as usize, im, pr)
}

pub open spec fn allnull() -> usize {
    0xffff_ffff_ffff_ffff
}

pub open spec fn dimlen(n: nat, d: usize) -> bool {
    d <= 63 && n == (1usize << d)
}

pub proof fn l_xr(i: int, j: int, n: nat, d: usize)
    requires
        dimlen(n, d),
        0 <= i < n,
        0 <= j < n,
    ensures
        0 <= xr(i, j) < n,
        xr(i, xr(i, j)) == j,
        xr(xr(i, j), j) == i,
        xr(i, j) == xr(j, i),
{
    let (x, y) = (i as usize, j as usize);
    assert((1usize << d) > 0) by (bit_vector)
        requires
            d <= 63,
    ;
    assert(x ^ y < (1usize << d)) by (bit_vector)
        requires
            x < (1usize << d),
            y < (1usize << d),
            d <= 63,
    ;
    assert(x ^ (x ^ y) == y && (x ^ y) ^ y == x && x ^ y == y ^ x) by (bit_vector);
}

pub proof fn l_xr_inj(i: int, j: int, k: int, n: nat, d: usize)
    requires
        dimlen(n, d),
        0 <= i < n,
        0 <= j < n,
        0 <= k < n,
    ensures
        (xr(i, k) == j) == (k == xr(i, j)),
{
    let (x, y, w) = (i as usize, j as usize, k as usize);
    assert((x ^ w == y) == (w == x ^ y)) by (bit_vector);
}

// ---- the product of two coefficient vectors
pub open spec fn pterm<T: Ring>(a: Seq<T>, b: Seq<T>, im: usize, pr: usize, k: int) -> spec_fn(
    int,
) -> T {
    |i: int| sg(gs(i, xr(i, k), im, pr), T::m(a[i], b[xr(i, k)]))
}

pub open spec fn pk<T: Ring>(a: Seq<T>, b: Seq<T>, im: usize, pr: usize, k: int) -> T {
    sum(pterm(a, b, im, pr, k), a.len())
}

pub open spec fn prod<T: Ring>(a: Seq<T>, b: Seq<T>, im: usize, pr: usize) -> Seq<T> {
    Seq::new(a.len(), |k: int| pk(a, b, im, pr, k))
}

pub proof fn l_prod_zero<T: Ring>(n: nat, b: Seq<T>, im: usize, pr: usize)
    ensures
        prod(zeros::<T>(n), b, im, pr) == zeros::<T>(n),
{
    let a = zeros::<T>(n);
    assert forall|k: int| 0 <= k < n implies prod(a, b, im, pr)[k] == T::z() by {
        assert forall|i: int| 0 <= i < n implies #[trigger] pterm(a, b, im, pr, k)(i) == T::z() by {
            r_mul_zero(b[xr(i, k)]);
            sg_props(gs(i, xr(i, k), im, pr), Sign::Plus, T::z(), T::z());
        }
        sum_zero(pterm(a, b, im, pr, k), n);
    }
    assert(prod(a, b, im, pr) =~= a);
}

// one more coefficient in the left factor
pub proof fn l_prod_upd<T: Ring>(a: Seq<T>, b: Seq<T>, im: usize, pr: usize, i: int, x: T, k: int)
    requires
        0 <= i < a.len(),
        a[i] == T::z(),
    ensures
        pk(a.update(i, x), b, im, pr, k) == T::a(
            pk(a, b, im, pr, k),
            sg(gs(i, xr(i, k), im, pr), T::m(x, b[xr(i, k)])),
        ),
{
    let f = pterm(a, b, im, pr, k);
    let g = pterm(a.update(i, x), b, im, pr, k);
    r_mul_zero(b[xr(i, k)]);
    sg_props(gs(i, xr(i, k), im, pr), Sign::Plus, T::z(), T::z());
    sum_point(f, g, a.len(), i);
}

// state of a double loop over stored coefficients: `base` holds the product of the finished
// left part, `i, x` is the current left coefficient and `bm` the finished right part
pub open spec fn inner_ok<T: Ring>(r: Seq<T>, base: Seq<T>, i: int, x: T, bm: Seq<T>, im: usize, pr: usize) -> bool {
    &&& r.len() == base.len()
    &&& forall|k: int|
        0 <= k < r.len() ==> #[trigger] r[k] == T::a(
            base[k],
            sg(gs(i, xr(i, k), im, pr), T::m(x, bm[xr(i, k)])),
        )
}

pub proof fn l_inner_start<T: Ring>(base: Seq<T>, i: int, x: T, n: nat, d: usize, im: usize, pr: usize)
    requires
        base.len() == n,
        dimlen(n, d),
        0 <= i < n,
    ensures
        inner_ok(base, base, i, x, zeros::<T>(n), im, pr),
{
    assert forall|k: int| 0 <= k < n implies #[trigger] base[k] == T::a(
        base[k],
        sg(gs(i, xr(i, k), im, pr), T::m(x, zeros::<T>(n)[xr(i, k)])),
    ) by {
        l_xr(i, k, n, d);
        r_mul_zero(x);
        sg_props(gs(i, xr(i, k), im, pr), Sign::Plus, T::z(), T::z());
        r_zero(base[k]);
    }
}

pub proof fn l_inner_step<T: Ring>(
    r: Seq<T>,
    r2: Seq<T>,
    base: Seq<T>,
    i: int,
    x: T,
    bm: Seq<T>,
    j: int,
    y: T,
    d: usize,
    im: usize,
    pr: usize,
)
    requires
        inner_ok(r, base, i, x, bm, im, pr),
        dimlen(r.len(), d),
        bm.len() == r.len(),
        0 <= i < r.len(),
        0 <= j < r.len(),
        bm[j] == T::z(),
        r2 == match gs(i, j, im, pr) {
            Sign::Null => r,
            Sign::Plus => r.update(xr(i, j), T::a(r[xr(i, j)], T::m(x, y))),
            Sign::Minus => r.update(xr(i, j), T::s(r[xr(i, j)], T::m(x, y))),
        },
    ensures
        inner_ok(r2, base, i, x, bm.update(j, y), im, pr),
{
    let p = xr(i, j);
    let n = r.len();
    l_xr(i, j, n, d);
    let b2 = bm.update(j, y);
    assert forall|k: int| 0 <= k < n implies #[trigger] r2[k] == T::a(
        base[k],
        sg(gs(i, xr(i, k), im, pr), T::m(x, b2[xr(i, k)])),
    ) by {
        l_xr(i, k, n, d);
        l_xr_inj(i, j, k, n, d);
        assert(r[k] == T::a(base[k], sg(gs(i, xr(i, k), im, pr), T::m(x, bm[xr(i, k)]))));
        if k == p {
            r_mul_zero(x);
            sg_props(gs(i, j, im, pr), Sign::Plus, T::z(), T::z());
            r_zero(base[k]);
            T::sub_def(base[k], T::m(x, y));
        }
    }
}

pub proof fn l_inner_end<T: Ring>(
    r: Seq<T>,
    am: Seq<T>,
    b: Seq<T>,
    i: int,
    x: T,
    im: usize,
    pr: usize,
)
    requires
        inner_ok(r, prod(am, b, im, pr), i, x, b, im, pr),
        r.len() == am.len(),
        0 <= i < r.len(),
        am[i] == T::z(),
    ensures
        r == prod(am.update(i, x), b, im, pr),
{
    assert forall|k: int| 0 <= k < r.len() implies #[trigger] r[k] == prod(
        am.update(i, x),
        b,
        im,
        pr,
    )[k] by {
        l_prod_upd(am, b, im, pr, i, x, k);
    }
    assert(r =~= prod(am.update(i, x), b, im, pr));
}
