// ---- what follows from the coefficient formula of the product
pub proof fn l_bit_xor(x: usize, y: usize, i: nat)
    ensures
        bit(x ^ y, i) == (bit(x, i) != bit(y, i)),
        bit(x & y, i) == (bit(x, i) && bit(y, i)),
{
    if i < 64 {
        let k = i as usize;
        assert((((x ^ y) >> k) & 1 == 1) == (((x >> k) & 1 == 1) != ((y >> k) & 1 == 1))) by (bit_vector)
            requires
                k < 64,
        ;
        assert((((x & y) >> k) & 1 == 1) == (((x >> k) & 1 == 1) && ((y >> k) & 1 == 1))) by (bit_vector)
            requires
                k < 64,
        ;
    }
}

pub proof fn l_cnt_xor(x: usize, y: usize, n: nat)
    ensures
        odd(cnt(x ^ y, n)) == (odd(cnt(x, n)) != odd(cnt(y, n))),
    decreases n,
{
    if n > 0 {
        l_cnt_xor(x, y, (n - 1) as nat);
        l_bit_xor(x, y, (n - 1) as nat);
    }
}

pub proof fn l_inv_xor(x: usize, y: usize, w: usize, n: nat)
    ensures
        inv(x ^ y, w, n) == (inv(x, w, n) != inv(y, w, n)),
        inv(w, x ^ y, n) == (inv(w, x, n) != inv(w, y, n)),
    decreases n,
{
    if n > 0 {
        l_inv_xor(x, y, w, (n - 1) as nat);
        l_bit_xor(x, y, (n - 1) as nat);
        l_cnt_xor(x, y, (n - 1) as nat);
    }
}

pub proof fn l_inv_zero(x: usize, n: nat)
    ensures
        !inv(x, 0, n),
        !inv(0, x, n),
        cnt(0, n) == 0,
    decreases n,
{
    if n > 0 {
        l_inv_zero(x, (n - 1) as nat);
        let k = (n - 1) as usize;
        if n <= 64 {
            assert((0usize >> k) & 1 == 0) by (bit_vector)
                requires
                    k < 64,
            ;
        }
    }
}

// the sign is a 2-cocycle: this is associativity on blades
pub proof fn l_cocycle(x: usize, y: usize, w: usize, im: usize, pr: usize)
    ensures
        smul(geos(x ^ y, w, im, pr), geos(x, y, im, pr)) == smul(geos(x, y ^ w, im, pr), geos(y, w, im, pr)),
{
    assert((((x ^ y) & w & pr) != 0 || (x & y & pr) != 0) == ((x & (y ^ w) & pr) != 0 || (y & w & pr) != 0))
        by (bit_vector);
    l_inv_xor(x, y, w, 64);
    l_inv_xor(y, w, x, 64);
    let (p, q, s) = (x & w & im, y & w & im, x & y & im);
    l_cnt_xor(p, q, 64);
    l_cnt_xor(s, p, 64);
    assert((x ^ y) & w & im == p ^ q) by (bit_vector)
        requires
            p == x & w & im,
            q == y & w & im,
    ;
    assert(x & (y ^ w) & im == s ^ p) by (bit_vector)
        requires
            p == x & w & im,
            s == x & y & im,
    ;
}

pub proof fn l_gs_unit(x: usize, im: usize, pr: usize)
    ensures
        geos(0, x, im, pr) == Sign::Plus,
        geos(x, 0, im, pr) == Sign::Plus,
{
    assert(0usize & x & pr == 0 && x & 0usize & pr == 0 && 0usize & x & im == 0 && x & 0usize & im == 0) by (bit_vector);
    l_inv_zero(x, 64);
}

// renaming the summation index by XOR
pub proof fn sum_xr<T: Ring>(f: spec_fn(int) -> T, g: spec_fn(int) -> T, j: int, n: nat, d: usize)
    requires
        dimlen(n, d),
        0 <= j < n,
        forall|i: int| 0 <= i < n ==> #[trigger] g(i) == f(xr(i, j)),
    ensures
        sum(f, n) == sum(g, n),
{
    let h = |i: int, p: int|
        if p == xr(i, j) {
            f(p)
        } else {
            T::z()
        };
    let row = |i: int| sum(|p: int| h(i, p), n);
    let col = |p: int| sum(|i: int| h(i, p), n);
    assert forall|i: int| 0 <= i < n implies #[trigger] row(i) == g(i) by {
        l_xr(i, j, n, d);
        sum_single(|p: int| h(i, p), n, xr(i, j));
    }
    assert forall|p: int| 0 <= p < n implies #[trigger] col(p) == f(p) by {
        l_xr(p, j, n, d);
        let c = |i: int| h(i, p);
        assert forall|i: int| 0 <= i < n && i != xr(p, j) implies #[trigger] c(i) == T::z() by {
            l_xr(i, j, n, d);
        }
        sum_single(c, n, xr(p, j));
    }
    sum_eq(row, g, n);
    sum_eq(col, f, n);
    sum_swap(h, n, n);
}

pub proof fn l_xr_assoc(i: int, j: int, k: int, n: nat, d: usize)
    requires
        dimlen(n, d),
        0 <= i < n,
        0 <= j < n,
        0 <= k < n,
    ensures
        xr(xr(i, j), k) == xr(i, xr(j, k)),
        xr(i, j) == xr(j, i),
        0 <= xr(i, j) < n,
{
    l_xr(i, j, n, d);
    l_xr(j, k, n, d);
    let (x, y, w) = (i as usize, j as usize, k as usize);
    assert((x ^ y) ^ w == x ^ (y ^ w)) by (bit_vector);
}

pub proof fn th_assoc<T: Ring>(a: Seq<T>, b: Seq<T>, c: Seq<T>, im: usize, pr: usize, d: usize)
    requires
        dimlen(a.len(), d),
        b.len() == a.len(),
        c.len() == a.len(),
    ensures
        prod(prod(a, b, im, pr), c, im, pr) == prod(a, prod(b, c, im, pr), im, pr),
{
    let n = a.len();
    let ab = prod(a, b, im, pr);
    let bc = prod(b, c, im, pr);
    assert forall|k: int| 0 <= k < n implies #[trigger] pk(ab, c, im, pr, k) == pk(a, bc, im, pr, k) by {
        // term (i, j) of the left-hand side
        let h = |i: int, j: int|
            sg(
                smul(gs(i, xr(i, k), im, pr), gs(j, xr(j, i), im, pr)),
                T::m(T::m(a[j], b[xr(j, i)]), c[xr(i, k)]),
            );
        let row = |i: int| sum(|j: int| h(i, j), n);
        let col = |j: int| sum(|i: int| h(i, j), n);
        assert forall|i: int| 0 <= i < n implies #[trigger] pterm(ab, c, im, pr, k)(i) == row(i) by {
            l_xr(i, k, n, d);
            let ck = c[xr(i, k)];
            let s = gs(i, xr(i, k), im, pr);
            let f = pterm(a, b, im, pr, i);
            let f2 = |j: int| T::m(f(j), ck);
            let f3 = |j: int| sg(s, f2(j));
            sum_mul_r(f, ck, f2, n);
            sum_sg(f2, s, f3, n);
            let hi = |j: int| h(i, j);
            assert forall|j: int| 0 <= j < n implies #[trigger] f3(j) == hi(j) by {
                let t = gs(j, xr(j, i), im, pr);
                let m = T::m(a[j], b[xr(j, i)]);
                sg_props(t, t, m, ck);
                sg_props(s, t, T::m(m, ck), ck);
            }
            sum_eq(f3, hi, n);
        }
        sum_eq(pterm(ab, c, im, pr, k), row, n);
        sum_swap(h, n, n);
        assert forall|j: int| 0 <= j < n implies #[trigger] pterm(a, bc, im, pr, k)(j) == col(j) by {
            l_xr(j, k, n, d);
            let q = xr(j, k);
            let s = gs(j, q, im, pr);
            let f = pterm(b, c, im, pr, q);
            let f2 = |l: int| T::m(a[j], f(l));
            let f3 = |l: int| sg(s, f2(l));
            sum_mul_l(f, a[j], f2, n);
            sum_sg(f2, s, f3, n);
            let g = |i: int| h(i, j);
            assert forall|i: int| 0 <= i < n implies #[trigger] g(i) == f3(xr(i, j)) by {
                let l = xr(i, j);
                l_xr_assoc(i, j, k, n, d);
                l_xr_assoc(j, i, k, n, d);
                l_xr_assoc(l, j, k, n, d);
                l_xr(i, j, n, d);
                l_xr(i, k, n, d);
                l_xr(l, q, n, d);
                assert(xr(l, q) == xr(i, k));
                let t = gs(l, xr(i, k), im, pr);
                let bl = b[l];
                let ck = c[xr(i, k)];
                sg_props(t, t, T::m(bl, ck), a[j]);
                sg_props(t, t, a[j], T::m(bl, ck));
                T::mul_assoc(a[j], bl, ck);
                sg_props(s, t, T::m(a[j], T::m(bl, ck)), ck);
                let (x, y, w) = (j as usize, l as usize, xr(i, k) as usize);
                l_cocycle(x, y, w, im, pr);
                let (ii, jj, kk) = (i as usize, j as usize, k as usize);
                assert(jj ^ (ii ^ jj) == ii && (ii ^ jj) ^ (ii ^ kk) == jj ^ kk) by (bit_vector);
                assert(f3(l) == sg(smul(s, t), T::m(a[j], T::m(bl, ck))));
            }
            sum_xr(f3, g, j, n, d);
        }
        sum_eq(pterm(a, bc, im, pr, k), col, n);
    }
    assert(prod(ab, c, im, pr) =~= prod(a, bc, im, pr));
}

pub proof fn th_bilinear<T: Ring>(a: Seq<T>, b: Seq<T>, c: Seq<T>, im: usize, pr: usize, d: usize)
    requires
        dimlen(a.len(), d),
        b.len() == a.len(),
        c.len() == a.len(),
    ensures
        prod(vadd(a, b), c, im, pr) == vadd(prod(a, c, im, pr), prod(b, c, im, pr)),
        prod(a, vadd(b, c), im, pr) == vadd(prod(a, b, im, pr), prod(a, c, im, pr)),
{
    let n = a.len();
    assert forall|k: int| 0 <= k < n implies #[trigger] pk(vadd(a, b), c, im, pr, k) == T::a(
        pk(a, c, im, pr, k),
        pk(b, c, im, pr, k),
    ) by {
        assert forall|i: int| 0 <= i < n implies #[trigger] pterm(vadd(a, b), c, im, pr, k)(i) == T::a(
            pterm(a, c, im, pr, k)(i),
            pterm(b, c, im, pr, k)(i),
        ) by {
            let ck = c[xr(i, k)];
            let s = gs(i, xr(i, k), im, pr);
            T::dist_r(a[i], b[i], ck);
            sg_props(s, s, T::m(a[i], ck), T::m(b[i], ck));
        }
        sum_add(pterm(a, c, im, pr, k), pterm(b, c, im, pr, k), pterm(vadd(a, b), c, im, pr, k), n);
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] pk(a, vadd(b, c), im, pr, k) == T::a(
        pk(a, b, im, pr, k),
        pk(a, c, im, pr, k),
    ) by {
        assert forall|i: int| 0 <= i < n implies #[trigger] pterm(a, vadd(b, c), im, pr, k)(i) == T::a(
            pterm(a, b, im, pr, k)(i),
            pterm(a, c, im, pr, k)(i),
        ) by {
            l_xr(i, k, n, d);
            let (x, y) = (b[xr(i, k)], c[xr(i, k)]);
            let s = gs(i, xr(i, k), im, pr);
            T::dist_l(a[i], x, y);
            sg_props(s, s, T::m(a[i], x), T::m(a[i], y));
        }
        sum_add(pterm(a, b, im, pr, k), pterm(a, c, im, pr, k), pterm(a, vadd(b, c), im, pr, k), n);
    }
    assert(prod(vadd(a, b), c, im, pr) =~= vadd(prod(a, c, im, pr), prod(b, c, im, pr)));
    assert(prod(a, vadd(b, c), im, pr) =~= vadd(prod(a, b, im, pr), prod(a, c, im, pr)));
}

// one coefficient only
pub open spec fn blade<T: Ring>(n: nat, i: int, x: T) -> Seq<T> {
    zeros::<T>(n).update(i, x)
}

// the product with a single term on either side
pub proof fn l_blade_mul<T: Ring>(b: Seq<T>, im: usize, pr: usize, p: int, x: T, d: usize)
    requires
        dimlen(b.len(), d),
        0 <= p < b.len(),
    ensures
        forall|k: int|
            0 <= k < b.len() ==> #[trigger] prod(blade(b.len(), p, x), b, im, pr)[k] == sg(
                gs(p, xr(p, k), im, pr),
                T::m(x, b[xr(p, k)]),
            ),
        forall|k: int|
            0 <= k < b.len() ==> #[trigger] prod(b, blade(b.len(), p, x), im, pr)[k] == sg(
                gs(xr(p, k), p, im, pr),
                T::m(b[xr(p, k)], x),
            ),
{
    let n = b.len();
    let e = blade(n, p, x);
    assert forall|k: int| 0 <= k < n implies #[trigger] prod(e, b, im, pr)[k] == sg(
        gs(p, xr(p, k), im, pr),
        T::m(x, b[xr(p, k)]),
    ) by {
        let f = pterm(e, b, im, pr, k);
        assert forall|i: int| 0 <= i < n && i != p implies #[trigger] f(i) == T::z() by {
            r_mul_zero(b[xr(i, k)]);
            sg_props(gs(i, xr(i, k), im, pr), Sign::Plus, T::z(), T::z());
        }
        sum_single(f, n, p);
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] prod(b, e, im, pr)[k] == sg(
        gs(xr(p, k), p, im, pr),
        T::m(b[xr(p, k)], x),
    ) by {
        let f = pterm(b, e, im, pr, k);
        l_xr(p, k, n, d);
        assert forall|i: int| 0 <= i < n && i != xr(p, k) implies #[trigger] f(i) == T::z() by {
            l_xr(i, k, n, d);
            if xr(i, k) == p {
                l_xr(k, i, n, d);
            }
            r_mul_zero(b[i]);
            sg_props(gs(i, xr(i, k), im, pr), Sign::Plus, T::z(), T::z());
        }
        sum_single(f, n, xr(p, k));
    }
}

pub proof fn th_unit<T: Ring>(b: Seq<T>, im: usize, pr: usize, d: usize)
    requires
        dimlen(b.len(), d),
    ensures
        prod(onev(b.len()), b, im, pr) == b,
        prod(b, onev(b.len()), im, pr) == b,
{
    let n = b.len();
    assert((1usize << d) > 0) by (bit_vector)
        requires
            d <= 63,
    ;
    l_blade_mul(b, im, pr, 0, T::o(), d);
    let e = blade(n, 0, T::o());
    assert forall|k: int| 0 <= k < n implies #[trigger] prod(e, b, im, pr)[k] == b[k] && prod(b, e, im, pr)[k]
        == b[k] by {
        let kk = k as usize;
        assert(0usize ^ kk == kk) by (bit_vector);
        l_gs_unit(kk, im, pr);
        T::mul_one(b[k]);
    }
    assert(prod(e, b, im, pr) =~= b);
    assert(prod(b, e, im, pr) =~= b);
}

// a single bit is at the right of no pair with itself
pub proof fn l_inv_one(p: usize, q: usize, n: nat)
    requires
        p < 64,
        q < 64,
        n <= 64,
    ensures
        inv(1usize << p, 1usize << q, n) == (p < q < n),
        cnt(1usize << p, n) == if p < n { 1nat } else { 0 },
    decreases n,
{
    if n > 0 {
        l_inv_one(p, q, (n - 1) as nat);
        let k = (n - 1) as usize;
        assert((((1usize << q) >> k) & 1 == 1) == (k == q)) by (bit_vector)
            requires
                k < 64,
                q < 64,
        ;
        assert((((1usize << p) >> k) & 1 == 1) == (k == p)) by (bit_vector)
            requires
                k < 64,
                p < 64,
        ;
    }
}

// generators square to their declared values and distinct generators anticommute
pub proof fn th_generators<T: Ring>(p: usize, q: usize, n: nat, im: usize, pr: usize, d: usize)
    requires
        dimlen(n, d),
        p < d,
        q < d,
    ensures
        ({
            let e = |i: usize| blade(n, (1usize << i) as int, T::o());
            &&& prod(e(p), e(p), im, pr) == blade(
                n,
                0,
                sg(
                    if bit(pr, p as nat) {
                        Sign::Null
                    } else if bit(im, p as nat) {
                        Sign::Minus
                    } else {
                        Sign::Plus
                    },
                    T::o(),
                ),
            )
            &&& p != q ==> prod(e(p), e(q), im, pr) == vneg(prod(e(q), e(p), im, pr))
        }),
{
    let e = |i: usize| blade(n, (1usize << i) as int, T::o());
    let (x, y) = (1usize << p, 1usize << q);
    assert(x < (1usize << d)) by (bit_vector)
        requires
            x == 1usize << p,
            p < d,
            d <= 63,
    ;
    assert(y < (1usize << d)) by (bit_vector)
        requires
            y == 1usize << q,
            q < d,
            d <= 63,
    ;
    l_blade_mul(e(p), im, pr, x as int, T::o(), d);
    l_blade_mul(e(q), im, pr, x as int, T::o(), d);
    T::mul_one(T::o());
    r_mul_zero(T::o());
    l_inv_one(p, p, 64);
    l_inv_one(p, q, 64);
    l_inv_one(q, p, 64);
    // squares
    let s = gs(x as int, x as int, im, pr);
    assert(x & x == x && x ^ x == 0) by (bit_vector);
    l_inv_zero(0, 64);
    assert((x & pr != 0) == (((pr >> p) & 1) == 1)) by (bit_vector)
        requires
            x == 1usize << p,
            p < 64,
    ;
    assert((x & im) == if ((im >> p) & 1) == 1 { x } else { 0usize }) by (bit_vector)
        requires
            x == 1usize << p,
            p < 64,
    ;
    let sq = if bit(pr, p as nat) {
        Sign::Null
    } else if bit(im, p as nat) {
        Sign::Minus
    } else {
        Sign::Plus
    };
    assert(s == sq);
    let ep = blade(n, x as int, T::o());
    let eq = blade(n, y as int, T::o());
    assert(e(p) == ep && e(q) == eq && ep.len() == n && eq.len() == n);
    assert forall|k: int| 0 <= k < n implies #[trigger] prod(ep, ep, im, pr)[k] == blade(n, 0, sg(s, T::o()))[k] by {
        let kk = k as usize;
        l_xr(x as int, k, n, d);
        assert((x ^ kk == x) == (kk == 0)) by (bit_vector);
        assert(ep[xr(x as int, k)] == if k == 0 { T::o() } else { T::z() });
        assert(prod(ep, ep, im, pr)[k] == sg(gs(x as int, xr(x as int, k), im, pr), T::m(T::o(), ep[xr(x as int, k)])));
        sg_props(gs(x as int, xr(x as int, k), im, pr), Sign::Plus, T::z(), T::z());
    }
    assert(prod(e(p), e(p), im, pr) =~= blade(n, 0, sg(s, T::o())));
    if p != q {
        assert(x & y == 0 && y & x == 0 && x != y) by (bit_vector)
            requires
                x == 1usize << p,
                y == 1usize << q,
                p < 64,
                q < 64,
                p != q,
        ;
        assert(0usize & im == 0 && 0usize & pr == 0) by (bit_vector);
        assert forall|k: int| 0 <= k < n implies #[trigger] prod(ep, eq, im, pr)[k] == vneg(prod(eq, ep, im, pr))[k] by {
            let kk = k as usize;
            l_xr(x as int, k, n, d);
            assert(prod(ep, eq, im, pr)[k] == sg(gs(x as int, xr(x as int, k), im, pr), T::m(T::o(), eq[xr(x as int, k)])));
            assert(prod(eq, ep, im, pr)[k] == sg(gs(xr(x as int, k), x as int, im, pr), T::m(eq[xr(x as int, k)], T::o())));
            let j = x ^ kk;
            assert((x ^ kk == y) == (kk == x ^ y)) by (bit_vector);
            r_neg(T::o());
            r_neg(T::z());
            sg_props(gs(x as int, j as int, im, pr), Sign::Plus, T::z(), T::z());
            sg_props(gs(j as int, x as int, im, pr), Sign::Plus, T::z(), T::z());
        }
        assert(prod(e(p), e(q), im, pr) =~= vneg(prod(e(q), e(p), im, pr)));
    }
}

// ---- involutions
pub proof fn th_flip<T: Ring>(a: Seq<T>, b: Seq<T>, mask: usize, im: usize, pr: usize, d: usize)
    requires
        dimlen(a.len(), d),
        b.len() == a.len(),
    ensures
        flipv(flipv(a, mask), mask) == a,
        flipv(prod(a, b, im, pr), mask) == prod(flipv(a, mask), flipv(b, mask), im, pr),
{
    let n = a.len();
    assert forall|i: int| 0 <= i < n implies #[trigger] flipv(flipv(a, mask), mask)[i] == a[i] by {
        r_neg(a[i]);
    }
    assert(flipv(flipv(a, mask), mask) =~= a);
    let fa = flipv(a, mask);
    let fb = flipv(b, mask);
    assert forall|k: int| 0 <= k < n implies #[trigger] flipv(prod(a, b, im, pr), mask)[k] == pk(fa, fb, im, pr, k) by {
        let sk = flips(k as usize, mask);
        let f = pterm(a, b, im, pr, k);
        let g = pterm(fa, fb, im, pr, k);
        assert forall|i: int| 0 <= i < n implies #[trigger] g(i) == sg(sk, f(i)) by {
            l_xr(i, k, n, d);
            let j = xr(i, k);
            let (ii, jj, kk) = (i as usize, j as usize, k as usize);
            assert((ii & mask) ^ (jj & mask) == kk & mask) by (bit_vector)
                requires
                    jj == ii ^ kk,
            ;
            l_cnt_xor(ii & mask, jj & mask, 64);
            let (si, sj) = (flips(ii, mask), flips(jj, mask));
            let s = gs(i, j, im, pr);
            let m = T::m(a[i], b[j]);
            sg_props(si, si, a[i], sg(sj, b[j]));
            sg_props(sj, sj, b[j], b[j]);
            sg_props(sj, sj, a[i], b[j]);
            sg_props(si, sj, m, m);
            sg_props(s, smul(si, sj), m, m);
            sg_props(sk, s, m, m);
        }
        sum_sg(f, sk, g, n);
    }
    assert(flipv(prod(a, b, im, pr), mask) =~= prod(fa, fb, im, pr));
}

pub proof fn l_rev_inv(x: usize, n: nat)
    ensures
        (cnt(x, n) % 4 >= 2) == inv(x, x, n),
    decreases n,
{
    if n > 0 {
        l_rev_inv(x, (n - 1) as nat);
        let c = cnt(x, (n - 1) as nat);
        assert(((c + 1) % 4 >= 2) == ((c % 4 >= 2) != odd(c))) by (nonlinear_arith);
    }
}

// reversing the factors of a product of blades
pub proof fn l_rev_sign(x: usize, y: usize, im: usize, pr: usize)
    ensures
        smul(revs(x ^ y), geos(x, y, im, pr)) == smul(geos(y, x, im, pr), smul(revs(x), revs(y))),
{
    l_rev_inv(x, 64);
    l_rev_inv(y, 64);
    l_rev_inv(x ^ y, 64);
    l_inv_xor(x, y, x ^ y, 64);
    l_inv_xor(x, y, x, 64);
    l_inv_xor(x, y, y, 64);
    assert(x & y == y & x) by (bit_vector);
}

pub proof fn th_rev<T: Ring>(a: Seq<T>, b: Seq<T>, im: usize, pr: usize, d: usize)
    requires
        dimlen(a.len(), d),
        b.len() == a.len(),
    ensures
        revv(revv(a)) == a,
        comm::<T>() ==> revv(prod(a, b, im, pr)) == prod(revv(b), revv(a), im, pr),
{
    let n = a.len();
    assert forall|i: int| 0 <= i < n implies #[trigger] revv(revv(a))[i] == a[i] by {
        r_neg(a[i]);
    }
    assert(revv(revv(a)) =~= a);
    if comm::<T>() {
        let (ra, rb) = (revv(a), revv(b));
        assert forall|k: int| 0 <= k < n implies #[trigger] revv(prod(a, b, im, pr))[k] == pk(rb, ra, im, pr, k) by {
            let sk = revs(k as usize);
            let f = pterm(a, b, im, pr, k);
            let f2 = |i: int| sg(sk, f(i));
            let g = pterm(rb, ra, im, pr, k);
            sum_sg(f, sk, f2, n);
            assert forall|i: int| 0 <= i < n implies #[trigger] f2(i) == g(xr(i, k)) by {
                l_xr(i, k, n, d);
                let j = xr(i, k);
                let (ii, jj, kk) = (i as usize, j as usize, k as usize);
                assert(ii ^ jj == kk && jj ^ kk == ii) by (bit_vector)
                    requires
                        jj == ii ^ kk,
                ;
                l_rev_sign(ii, jj, im, pr);
                let m = T::m(a[i], b[j]);
                assert(T::m(b[j], a[i]) == m);
                let (si, sj) = (revs(ii), revs(jj));
                sg_props(sj, si, b[j], sg(si, a[i]));
                sg_props(si, si, b[j], a[i]);
                sg_props(sj, si, m, m);
                let s = gs(i, j, im, pr);
                let t = gs(j, i, im, pr);
                sg_props(sk, s, m, m);
                sg_props(t, smul(sj, si), m, m);
            }
            sum_xr(g, f2, k, n, d);
        }
        assert(revv(prod(a, b, im, pr)) =~= prod(rb, ra, im, pr));
    }
}

// ---- duals
pub open spec fn cpl(i: int, n: nat) -> int {
    xr(i, n - 1)
}

pub open spec fn dualv<T: Ring>(a: Seq<T>) -> Seq<T> {
    Seq::new(a.len(), |k: int| sg(wedges(k as usize, cpl(k, a.len()) as usize), a[cpl(k, a.len())]))
}

pub open spec fn undualv<T: Ring>(a: Seq<T>) -> Seq<T> {
    Seq::new(a.len(), |k: int| sg(wedges(cpl(k, a.len()) as usize, k as usize), a[cpl(k, a.len())]))
}

pub open spec fn meetv<T: Ring>(a: Seq<T>, b: Seq<T>) -> Seq<T> {
    undualv(wprod(dualv(a), dualv(b)))
}

pub proof fn l_cpl(i: int, n: nat, d: usize)
    requires
        dimlen(n, d),
        0 <= i < n,
    ensures
        0 <= cpl(i, n) < n,
        cpl(cpl(i, n), n) == i,
        (i as usize) & (cpl(i, n) as usize) == 0,
        (cpl(i, n) as usize) & (i as usize) == 0,
        wedges(i as usize, cpl(i, n) as usize) != Sign::Null,
        wedges(cpl(i, n) as usize, i as usize) != Sign::Null,
        !(i as usize) & ((n - 1) as usize) == cpl(i, n),
        ((n - 1) as usize) & !(i as usize) == cpl(i, n),
{
    let m = (n - 1) as usize;
    let x = i as usize;
    l_xr(i, n - 1, n, d);
    assert((1usize << d) > 0) by (bit_vector)
        requires
            d <= 63,
    ;
    assert(x & (x ^ m) == 0 && (x ^ m) & x == 0 && !x & m == x ^ m && m & !x == x ^ m) by (bit_vector)
        requires
            d <= 63,
            m == (1usize << d) - 1,
            x <= m,
            (1usize << d) > 0,
    ;
}

pub proof fn th_dual<T: Ring>(a: Seq<T>, d: usize)
    requires
        dimlen(a.len(), d),
    ensures
        undualv(dualv(a)) == a,
        dualv(undualv(a)) == a,
{
    let n = a.len();
    assert forall|k: int| 0 <= k < n implies #[trigger] undualv(dualv(a))[k] == a[k] && dualv(undualv(a))[k] == a[k] by {
        l_cpl(k, n, d);
        r_neg(a[k]);
    }
    assert(undualv(dualv(a)) =~= a);
    assert(dualv(undualv(a)) =~= a);
}

// what the dual does to one blade, and what (dual ^ blade) is
pub proof fn th_dual_blade<T: Ring>(n: nat, p: int, x: T, d: usize)
    requires
        dimlen(n, d),
        0 <= p < n,
    ensures
        wprod(dualv(blade(n, p, T::o())), blade(n, p, x)) == blade(n, n - 1, x),
        wprod(blade(n, p, x), undualv(blade(n, p, T::o()))) == blade(n, n - 1, x),
{
    let q = cpl(p, n);
    l_cpl(p, n, d);
    let s = wedges(q as usize, p as usize);
    let t = wedges(p as usize, q as usize);
    l_dual_upd(zeros::<T>(n), p, T::o(), d);
    l_dual_zero::<T>(n, d);
    l_blade_mul(blade(n, p, x), 0, allnull(), q, sg(s, T::o()), d);
    l_blade_mul(blade(n, p, x), 0, allnull(), q, sg(t, T::o()), d);
    let u = blade(n, q, sg(s, T::o()));
    let w = blade(n, q, sg(t, T::o()));
    let bx = blade(n, p, x);
    assert forall|k: int|
        #![trigger wprod(u, bx)[k]]
        #![trigger wprod(bx, w)[k]]
        0 <= k < n implies wprod(u, bx)[k] == blade(n, n - 1, x)[k] && wprod(bx, w)[k] == blade(n, n - 1, x)[k] by {
        l_xr(q, k, n, d);
        l_xr_inj(q, p, k, n, d);
        l_xr(p, n - 1, n, d);
        l_xr(q, p, n, d);
        l_xr(p, q, n, d);
        let (pp, mm) = (p as usize, (n - 1) as usize);
        assert((pp ^ mm) ^ pp == mm) by (bit_vector);
        assert(xr(q, p) == n - 1);
        assert(bx[xr(q, k)] == if k == n - 1 { x } else { T::z() });
        l_wedges(q as usize, p as usize);
        l_wedges(p as usize, q as usize);
        let kk = xr(q, k);
        sg_props(gs(q, kk, 0, allnull()), s, T::z(), T::z());
        sg_props(gs(kk, q, 0, allnull()), s, T::z(), T::z());
        r_mul_zero(sg(s, T::o()));
        r_mul_zero(sg(t, T::o()));
        sg_props(s, s, T::o(), x);
        sg_props(t, t, x, T::o());
        T::mul_one(x);
        sg_props(s, s, x, x);
        sg_props(t, t, x, x);
    }
    assert(wprod(blade(n, q, sg(s, T::o())), blade(n, p, x)) =~= blade(n, n - 1, x));
    assert(wprod(blade(n, p, x), blade(n, q, sg(t, T::o()))) =~= blade(n, n - 1, x));
}

pub proof fn l_dual_zero<T: Ring>(n: nat, d: usize)
    requires
        dimlen(n, d),
    ensures
        dualv(zeros::<T>(n)) == zeros::<T>(n),
        undualv(zeros::<T>(n)) == zeros::<T>(n),
{
    r_neg(T::z());
    let e = zeros::<T>(n);
    assert forall|k: int| 0 <= k < n implies #[trigger] dualv(e)[k] == T::z() && undualv(e)[k] == T::z() by {
        l_cpl(k, n, d);
    }
    assert(dualv(e) =~= e);
    assert(undualv(e) =~= e);
}

pub proof fn l_dual_upd<T: Ring>(a: Seq<T>, i: int, x: T, d: usize)
    requires
        dimlen(a.len(), d),
        0 <= i < a.len(),
    ensures
        dualv(a.update(i, x)) == dualv(a).update(
            cpl(i, a.len()),
            sg(wedges(cpl(i, a.len()) as usize, i as usize), x),
        ),
        undualv(a.update(i, x)) == undualv(a).update(
            cpl(i, a.len()),
            sg(wedges(i as usize, cpl(i, a.len()) as usize), x),
        ),
{
    let n = a.len();
    let p = cpl(i, n);
    l_cpl(i, n, d);
    let a2 = a.update(i, x);
    assert forall|k: int| 0 <= k < n implies #[trigger] dualv(a2)[k] == dualv(a).update(
        p,
        sg(wedges(p as usize, i as usize), x),
    )[k] by {
        l_cpl(k, n, d);
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] undualv(a2)[k] == undualv(a).update(
        p,
        sg(wedges(i as usize, p as usize), x),
    )[k] by {
        l_cpl(k, n, d);
    }
    assert(dualv(a2) =~= dualv(a).update(p, sg(wedges(p as usize, i as usize), x)));
    assert(undualv(a2) =~= undualv(a).update(p, sg(wedges(i as usize, p as usize), x)));
}

// one step of the double loop of the regressive product, seen through the dual
pub proof fn l_meet_step<T: Ring>(r: Seq<T>, r2: Seq<T>, i: int, x: T, j: int, y: T, s: Sign, d: usize)
    requires
        dimlen(r.len(), d),
        0 <= i < r.len(),
        0 <= j < r.len(),
        ({
            let n = r.len();
            let (ci, cj) = (cpl(i, n), cpl(j, n));
            let q = xr(i, j);
            let p = cpl(q, n);
            &&& s == smul(
                smul(
                    smul(wedges(ci as usize, cj as usize), wedges(ci as usize, i as usize)),
                    wedges(cj as usize, j as usize),
                ),
                wedges(q as usize, p as usize),
            )
            &&& r2 == match s {
                Sign::Null => r,
                Sign::Plus => r.update(p, T::a(r[p], T::m(x, y))),
                Sign::Minus => r.update(p, T::s(r[p], T::m(x, y))),
            }
        }),
    ensures
        ({
            let n = r.len();
            let (ci, cj) = (cpl(i, n), cpl(j, n));
            let q = xr(ci, cj);
            let xx = sg(wedges(ci as usize, i as usize), x);
            let yy = sg(wedges(cj as usize, j as usize), y);
            &&& dualv(r2) == match gs(ci, cj, 0, allnull()) {
                Sign::Null => dualv(r),
                Sign::Plus => dualv(r).update(q, T::a(dualv(r)[q], T::m(xx, yy))),
                Sign::Minus => dualv(r).update(q, T::s(dualv(r)[q], T::m(xx, yy))),
            }
        }),
{
    let n = r.len();
    let (ci, cj) = (cpl(i, n), cpl(j, n));
    let q = xr(i, j);
    let p = cpl(q, n);
    l_cpl(i, n, d);
    l_cpl(j, n, d);
    l_xr(i, j, n, d);
    l_cpl(q, n, d);
    l_cpl(p, n, d);
    let (ii, jj, mm) = (i as usize, j as usize, (n - 1) as usize);
    assert((ii ^ mm) ^ (jj ^ mm) == ii ^ jj) by (bit_vector);
    assert(xr(ci, cj) == q);
    l_wedges(ci as usize, cj as usize);
    let w2 = wedges(ci as usize, i as usize);
    let w3 = wedges(cj as usize, j as usize);
    let w4 = wedges(q as usize, p as usize);
    let m = T::m(x, y);
    sg_props(w2, w3, x, sg(w3, y));
    sg_props(w3, w3, x, y);
    sg_props(w2, w3, m, m);
    r_neg(m);
    assert(dualv(r)[q] == sg(w4, r[p]));
    T::sub_def(r[p], m);
    T::sub_def(dualv(r)[q], T::m(sg(w2, x), sg(w3, y)));
    sg_props(w4, w4, r[p], m);
    sg_props(w4, w4, r[p], T::n(m));
    l_dual_upd(r, p, T::a(r[p], m), d);
    l_dual_upd(r, p, T::s(r[p], m), d);
    assert(T::m(sg(w2, x), sg(w3, y)) == sg(smul(w2, w3), m));
}

// ---- inner products
pub open spec fn dots<T: Ring>(a: Seq<T>, b: Seq<T>) -> T {
    sum(|i: int| T::m(a[i], b[i]), a.len())
}

pub proof fn l_dots_zero<T: Ring>(n: nat, b: Seq<T>)
    ensures
        dots(zeros::<T>(n), b) == T::z(),
{
    let f = |i: int| T::m(zeros::<T>(n)[i], b[i]);
    assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == T::z() by {
        r_mul_zero(b[i]);
    }
    sum_zero(f, n);
}

pub proof fn l_dots_upd<T: Ring>(a: Seq<T>, b: Seq<T>, i: int, x: T)
    requires
        0 <= i < a.len(),
        a[i] == T::z(),
    ensures
        dots(a.update(i, x), b) == T::a(dots(a, b), T::m(x, b[i])),
{
    r_mul_zero(b[i]);
    sum_point(|k: int| T::m(a[k], b[k]), |k: int| T::m(a.update(i, x)[k], b[k]), a.len(), i);
}

// scalar part of a product
pub open spec fn sdot<T: Ring>(a: Seq<T>, b: Seq<T>, im: usize, pr: usize) -> T {
    pk(a, b, im, pr, 0)
}

pub proof fn l_sdot_upd<T: Ring>(a: Seq<T>, b: Seq<T>, im: usize, pr: usize, i: int, x: T)
    requires
        0 <= i < a.len() <= usize::MAX,
        a[i] == T::z(),
    ensures
        sdot(a.update(i, x), b, im, pr) == match gs(i, i, im, pr) {
            Sign::Null => sdot(a, b, im, pr),
            Sign::Plus => T::a(sdot(a, b, im, pr), T::m(x, b[i])),
            Sign::Minus => T::s(sdot(a, b, im, pr), T::m(x, b[i])),
        },
{
    let k = i as usize;
    assert(k ^ 0usize == k) by (bit_vector);
    l_prod_upd(a, b, im, pr, i, x, 0);
    r_zero(sdot(a, b, im, pr));
    T::sub_def(sdot(a, b, im, pr), T::m(x, b[i]));
}

pub open spec fn cjv<T: ComplexFloat>(a: Seq<T>) -> Seq<T> {
    Seq::new(a.len(), |i: int| T::cj(a[i]))
}

pub open spec fn divv<T: DivRing>(a: Seq<T>, c: T) -> Seq<T> {
    Seq::new(a.len(), |i: int| dv(a[i], c))
}

// ---- powers
pub open spec fn powv<T: Ring>(a: Seq<T>, n: nat, im: usize, pr: usize) -> Seq<T>
    decreases n,
{
    if n == 0 {
        onev(a.len())
    } else {
        prod(powv(a, (n - 1) as nat, im, pr), a, im, pr)
    }
}

pub proof fn l_powv_len<T: Ring>(a: Seq<T>, n: nat, im: usize, pr: usize)
    ensures
        powv(a, n, im, pr).len() == a.len(),
    decreases n,
{
    if n > 0 {
        l_powv_len(a, (n - 1) as nat, im, pr);
    }
}

pub proof fn th_pow_add<T: Ring>(a: Seq<T>, m: nat, n: nat, im: usize, pr: usize, d: usize)
    requires
        dimlen(a.len(), d),
    ensures
        prod(powv(a, m, im, pr), powv(a, n, im, pr), im, pr) == powv(a, m + n, im, pr),
    decreases n,
{
    l_powv_len(a, m, im, pr);
    if n == 0 {
        th_unit(powv(a, m, im, pr), im, pr, d);
    } else {
        let k = (n - 1) as nat;
        l_powv_len(a, k, im, pr);
        th_pow_add(a, m, k, im, pr, d);
        th_assoc(powv(a, m, im, pr), powv(a, k, im, pr), a, im, pr, d);
        assert((m + n - 1) as nat == m + k);
    }
}

pub proof fn l_pow_one<T: Ring>(a: Seq<T>, im: usize, pr: usize, d: usize)
    requires
        dimlen(a.len(), d),
    ensures
        powv(a, 1, im, pr) == a,
{
    th_unit(a, im, pr, d);
    assert(powv(a, 1, im, pr) == prod(powv(a, 0, im, pr), a, im, pr));
}

// all products of powers of one element
pub proof fn th_pow_add_all<T: Ring>(a: Seq<T>, im: usize, pr: usize, d: usize)
    requires
        dimlen(a.len(), d),
    ensures
        powv(a, 1, im, pr) == a,
        forall|m: nat, n: nat| #[trigger]
            prod(powv(a, m, im, pr), powv(a, n, im, pr), im, pr) == powv(a, m + n, im, pr),
{
    l_pow_one(a, im, pr, d);
    assert forall|m: nat, n: nat| #[trigger]
        prod(powv(a, m, im, pr), powv(a, n, im, pr), im, pr) == powv(a, m + n, im, pr) by {
        th_pow_add(a, m, n, im, pr, d);
    }
}
