// ---- vectors and sums, as far as src/pga.rs uses them
pub trait VVec<X>: Sized {
    spec fn vs(&self) -> Seq<X>;

    fn v_iter<'a>(&'a self) -> (r: CIter<&'a X>)
        ensures
            r.pos() == 0,
            r.all().len() == self.vs().len(),
            forall|i: int| #![trigger r.all()[i]] 0 <= i < r.all().len() ==> *r.all()[i] == self.vs()[i],
    ;

    fn v_into_iter(self) -> (r: CIter<X>)
        ensures
            r.pos() == 0,
            r.all() == self.vs(),
    ;
}

impl<X> VVec<X> for Vec<X> {
    open spec fn vs(&self) -> Seq<X> {
        self@
    }

    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: CIter<&'a X>) {
        unimplemented!()
    }

    fn v_into_iter(self) -> (r: CIter<X>) {
        CIter::v_from(self)
    }
}

// [T; N]::map
pub trait VArrMap<X, const N: usize>: Sized {
    spec fn asq(self) -> Seq<X>;

    fn v_amap<Y, F: Fn(X) -> Y>(self, f: F) -> (r: [Y; N])
        requires
            forall|i: int| 0 <= i < N ==> call_requires(f, (#[trigger] self.asq()[i],)),
        ensures
            forall|i: int| 0 <= i < N ==> call_ensures(f, (self.asq()[i],), #[trigger] r@[i]),
    ;
}

impl<X, const N: usize> VArrMap<X, N> for [X; N] {
    open spec fn asq(self) -> Seq<X> {
        self@
    }

    #[verifier::external_body]
    fn v_amap<Y, F: Fn(X) -> Y>(self, f: F) -> (r: [Y; N]) {
        unimplemented!()
    }
}

impl<X> CIter<X> {
    pub fn v_collect(self) -> (r: Vec<X>)
        requires
            self.pos() == 0,
        ensures
            r@ == self.all(),
    {
        let mut it = self;
        let mut r: Vec<X> = Vec::new();
        while it.has_next()
            invariant
                it.all() == self.all(),
                0 <= it.pos() <= it.all().len(),
                r@ == it.all().take(it.pos()),
            decreases it.all().len() - it.pos(),
        {
            let x = it.take_next();
            r.push(x);
            proof {
                assert(r@ =~= it.all().take(it.pos()));
            }
        }
        proof {
            assert(r@ =~= self.all());
        }
        r
    }
}

pub open spec fn sumall(s: Seq<F64>) -> F64 {
    sum(|i: int| s[i], s.len())
}

impl CIter<F64> {
    pub fn v_sum<S>(self) -> (r: F64)
        requires
            self.pos() == 0,
        ensures
            r == sumall(self.all()),
    {
        let mut it = self;
        let mut r: F64 = F64::zero();
        let ghost f = |i: int| self.all()[i];
        while it.has_next()
            invariant
                it.all() == self.all(),
                0 <= it.pos() <= it.all().len(),
                f == (|i: int| self.all()[i]),
                r == sum(f, it.pos() as nat),
            decreases it.all().len() - it.pos(),
        {
            let x = it.take_next();
            r = r + x;
        }
        r
    }
}

impl<'a, 'b> Mul<&'b F64> for &'a F64 {
    type Output = F64;

    #[verifier::external_body]
    fn mul(self, o: &'b F64) -> F64 {
        *self * *o
    }
}

impl<'a, 'b> MulSpecImpl<&'b F64> for &'a F64 {
    open spec fn obeys_mul_spec() -> bool {
        true
    }

    open spec fn mul_req(self, o: &'b F64) -> bool {
        true
    }

    open spec fn mul_spec(self, o: &'b F64) -> F64 {
        fl(self.v@ * o.v@)
    }
}

// ---- points, hyperplanes and translations of projective geometric algebra
pub open spec fn pgb(j: int) -> int {
    (1usize << (j as usize)) as int
}

// the generator j together with the null generator s
pub open spec fn pge(j: int, s: usize) -> int {
    ((1usize << s) | (1usize << (j as usize))) as int
}

pub open spec fn sqsum(c: Seq<F64>) -> F64 {
    sum(|i: int| F64::m(c[i], c[i]), c.len())
}

pub open spec fn magn(c: Seq<F64>) -> F64 {
    fl(rsqrt(sqsum(c).v@))
}

// homogeneous coordinates
pub open spec fn hom(c: Seq<F64>) -> Seq<F64> {
    c.push(F64::o())
}

pub open spec fn pointv(c: Seq<F64>, n: nat) -> Seq<F64> {
    divv(dualv(vecv(hom(c), hom(c).len() as int, n)), magn(hom(c)))
}

pub open spec fn planev(c: Seq<F64>, n: nat) -> Seq<F64> {
    divv(vecv(c, c.len() as int, n), magn(c))
}

pub open spec fn mpairs(c: Seq<F64>, s: usize) -> Seq<(usize, F64)> {
    Seq::new(c.len(), |i: int| (pge(i, s) as usize, dv(c[i], fl(2real))))
}

pub open spec fn motv(c: Seq<F64>, s: usize, n: nat) -> Seq<F64> {
    place(mpairs(c, s), c.len() as int, n).update(0, F64::o())
}

pub open spec fn xcoord(y: Seq<F64>, s: usize, j: int) -> F64 {
    dv(dualv(y)[pgb(j)], dualv(y)[pgb(s as int)])
}

// ---- lemmas
pub proof fn l_cnt_pow(j: usize, n: nat)
    requires
        j < 64,
    ensures
        cnt(1usize << j, n) == if n > j { 1nat } else { 0 },
    decreases n,
{
    if n > 0 {
        l_cnt_pow(j, (n - 1) as nat);
        l_bit_const(j, (n - 1) as nat);
    }
}

pub proof fn l_cnt_low(s: usize, n: nat)
    requires
        s < 64,
    ensures
        cnt(sub1(1usize << s), n) == if n > s { s as nat } else { n },
    decreases n,
{
    if n > 0 {
        l_cnt_low(s, (n - 1) as nat);
        l_bit_const(s, (n - 1) as nat);
    }
}

pub proof fn l_inv_pow(x: usize, j: usize, n: nat)
    requires
        j < 64,
    ensures
        inv(x, 1usize << j, n) == (n > j && odd(cnt(x, j as nat))),
        n > j ==> cnt(x, n) >= cnt(x, j as nat + 1),
        inv(1usize << j, x, n) == (n > j && odd((cnt(x, n) - cnt(x, j as nat + 1)) as nat)),
    decreases n,
{
    if n > 0 {
        l_inv_pow(x, j, (n - 1) as nat);
        l_bit_const(j, (n - 1) as nat);
        l_cnt_pow(j, (n - 1) as nat);
    }
}

// the complement of generator j among d generators
pub proof fn l_cobit(j: usize, d: usize)
    requires
        j < d <= 63,
    ensures
        0 <= cpl(pgb(j as int), (1usize << d) as nat) < (1usize << d),
        cpl(cpl(pgb(j as int), (1usize << d) as nat), (1usize << d) as nat) == pgb(j as int),
        0 < pgb(j as int) < (1usize << d),
        wedges(cpl(pgb(j as int), (1usize << d) as nat) as usize, pgb(j as int) as usize) == pm(odd(j as nat)),
        wedges(pgb(j as int) as usize, cpl(pgb(j as int), (1usize << d) as nat) as usize) == pm(
            odd((d - 1 - j) as nat),
        ),
        j == d - 1 ==> cpl(pgb(j as int), (1usize << d) as nat) == sub1(1usize << j),
        j < d - 1 ==> cpl(pgb(j as int), (1usize << d) as nat) == (sub1(1usize << (d - 1) as usize) ^ (1usize << j) ^ (
        1usize << (d - 1) as usize)),
{
    let n = (1usize << d) as nat;
    let b = 1usize << j;
    let m = sub1(1usize << d);
    assert(0 < b && b < (1usize << d)) by (bit_vector)
        requires
            b == 1usize << j,
            j < d,
            d <= 63,
    ;
    let i = pgb(j as int);
    l_cpl(i, n, d);
    let c = cpl(i, n) as usize;
    assert(c == b ^ m);
    l_cnt_low(d, j as nat);
    l_cnt_low(d, j as nat + 1);
    l_cnt_low(d, 64);
    l_cnt_pow(j, j as nat);
    l_inv_pow(c, j, 64);
    l_inv_pow(b, j, 64);
    l_inv_pow(m, j, 64);
    l_cnt_pow(j, j as nat + 1);
    l_cnt_pow(j, 64);
    l_inv_xor(b, m, b, 64);
    if j == d - 1 {
        assert(m == (1usize << d) - 1);
        assert(1usize << d > 0 && 1usize << j > 0) by (bit_vector)
            requires
                j < d,
                d <= 63,
        ;
        assert((1usize << j) ^ ((1usize << d) - 1) as usize == (1usize << j) - 1) by (bit_vector)
            requires
                d <= 63,
                d >= 1,
                j == d - 1,
        ;
    } else {
        let s = (d - 1) as usize;
        assert(1usize << d > 0 && 1usize << s > 0) by (bit_vector)
            requires
                s < d,
                d <= 63,
        ;
        assert((1usize << j) ^ ((1usize << d) - 1) as usize == ((1usize << s) - 1) as usize ^ (1usize << j) ^ (1usize
            << s)) by (bit_vector)
            requires
                d <= 63,
                d >= 1,
                s == d - 1,
                j < s,
        ;
    }
}

pub proof fn l_pgb_inj(i: usize, j: usize)
    requires
        i < 64,
        j < 64,
        i != j,
    ensures
        pgb(i as int) != pgb(j as int),
{
    assert((1usize << i) != (1usize << j)) by (bit_vector)
        requires
            i < 64,
            j < 64,
            i != j,
    ;
}

pub proof fn l_vecv<T: Ring>(c: Seq<T>, p: int, n: nat, d: usize)
    requires
        dimlen(n, d),
        0 <= p <= d,
        p <= c.len(),
    ensures
        vecv(c, p, n).len() == n,
        forall|j: int| 0 <= j < p ==> vecv(c, p, n)[#[trigger] pgb(j)] == c[j],
        forall|k: int|
            0 <= k < n && (forall|j: int| 0 <= j < p ==> k != #[trigger] pgb(j)) ==> #[trigger] vecv(c, p, n)[k]
                == T::z(),
    decreases p,
{
    if p > 0 {
        l_vecv(c, p - 1, n, d);
        l_cobit((p - 1) as usize, d);
        assert(pgb(p - 1) == (1usize << ((p - 1) as usize)));
        assert forall|j: int| 0 <= j < p implies vecv(c, p, n)[#[trigger] pgb(j)] == c[j] by {
            if j < p - 1 {
                l_pgb_inj(j as usize, (p - 1) as usize);
                l_cobit(j as usize, d);
                assert(vecv(c, p - 1, n)[pgb(j)] == c[j]);
            }
        }
    }
}

pub proof fn l_sq_pos(c: Seq<F64>, n: nat)
    requires
        n <= c.len(),
    ensures
        sum(|i: int| F64::m(c[i], c[i]), n).v@ >= 0real,
        (exists|i: int| 0 <= i < n && #[trigger] c[i] != F64::z()) ==> sum(|i: int| F64::m(c[i], c[i]), n).v@ > 0real,
    decreases n,
{
    if n > 0 {
        let k = (n - 1) as nat;
        l_sq_pos(c, k);
        let x = c[k as int].v@;
        assert(x * x >= 0real) by (nonlinear_arith);
        if c[k as int] != F64::z() {
            assert(x != 0real) by {
                if x == 0real {
                    assert(c[k as int] == fl(x));
                }
            }
            assert(x * x > 0real) by (nonlinear_arith)
                requires
                    x != 0real,
            ;
        } else if exists|i: int| 0 <= i < n && #[trigger] c[i] != F64::z() {
            let i = choose|i: int| 0 <= i < n && #[trigger] c[i] != F64::z();
            assert(0 <= i < k && c[i] != F64::z());
        }
    }
}

pub proof fn l_magn(c: Seq<F64>, i: int)
    requires
        0 <= i < c.len(),
        c[i] != F64::z(),
    ensures
        magn(c).v@ > 0real,
{
    l_sq_pos(c, c.len());
    let x = sqsum(c).v@;
    assert(x > 0real);
    ax_sqrt(x);
    let y = rsqrt(x);
    if y == 0real {
        assert(y * y == 0real);
    }
}

pub proof fn l_hom(c: Seq<F64>)
    ensures
        magn(hom(c)).v@ > 0real,
{
    l_magn(hom(c), c.len() as int);
}

// the dual of a vector: coefficient j sits on the complement of generator j
pub proof fn l_dualvec<T: Ring>(c: Seq<T>, n: nat, d: usize)
    requires
        dimlen(n, d),
        c.len() == d,
    ensures
        dualv(vecv(c, d as int, n)).len() == n,
        forall|j: int|
            0 <= j < d ==> dualv(vecv(c, d as int, n))[cpl(#[trigger] pgb(j), n)] == sg(pm(odd(j as nat)), c[j]),
        forall|k: int|
            0 <= k < n && (forall|j: int| 0 <= j < d ==> k != cpl(#[trigger] pgb(j), n)) ==> #[trigger] dualv(
                vecv(c, d as int, n),
            )[k] == T::z(),
{
    let v = vecv(c, d as int, n);
    l_vecv(c, d as int, n, d);
    assert forall|j: int| 0 <= j < d implies dualv(v)[cpl(#[trigger] pgb(j), n)] == sg(pm(odd(j as nat)), c[j]) by {
        l_cobit(j as usize, d);
    }
    assert forall|k: int|
        0 <= k < n && (forall|j: int| 0 <= j < d ==> k != cpl(#[trigger] pgb(j), n)) implies #[trigger] dualv(v)[k]
        == T::z() by {
        l_cpl(k, n, d);
        assert forall|j: int| 0 <= j < d implies cpl(k, n) != #[trigger] pgb(j) by {
            l_cobit(j as usize, d);
        }
        assert(v[cpl(k, n)] == T::z());
        r_neg(T::z());
    }
}

// reading coordinates back
pub proof fn l_xcoord(y: Seq<F64>, s: usize, j: int, x: F64, w: F64)
    requires
        s <= 62,
        0 <= j < s,
        dimlen(y.len(), (s + 1) as usize),
        y[cpl(pgb(j), y.len())] == sg(pm(odd(j as nat)), x),
        y[cpl(pgb(s as int), y.len())] == sg(pm(odd(s as nat)), w),
        w != F64::z(),
    ensures
        xcoord(y, s, j) == dv(x, w),
{
    let d = (s + 1) as usize;
    l_cobit(j as usize, d);
    l_cobit(s, d);
    let (p, q) = (x.v@, w.v@);
    assert(q != 0real) by {
        if q == 0real {
            assert(w == fl(q));
        }
    }
    let r = rinv(q);
    let r2 = rinv(-q);
    l_rinv(q);
    l_rinv(-q);
    assert(r2 == -r) by (nonlinear_arith)
        requires
            q != 0real,
            q * r == 1real,
            (-q) * r2 == 1real,
    ;
    assert((-p) * (-r) == p * r) by (nonlinear_arith);
}

pub proof fn th_extract(c: Seq<F64>, s: usize, n: nat, j: int)
    requires
        s <= 62,
        c.len() == s,
        dimlen(n, (s + 1) as usize),
        0 <= j < s,
    ensures
        xcoord(pointv(c, n), s, j) == c[j],
{
    let y = pointv(c, n);
    let h = hom(c);
    let m = magn(h);
    l_hom(c);
    let d = (s + 1) as usize;
    l_dualvec(h, n, d);
    let x = dv(c[j], m);
    let w = dv(F64::o(), m);
    l_cobit(j as usize, d);
    l_cobit(s, d);
    assert(h[j] == c[j]);
    assert(h[s as int] == F64::o());
    l_sgdiv(pm(odd(j as nat)), c[j], m);
    l_sgdiv(pm(odd(s as nat)), F64::o(), m);
    assert(y[cpl(pgb(j), n)] == sg(pm(odd(j as nat)), x));
    assert(y[cpl(pgb(s as int), n)] == sg(pm(odd(s as nat)), w));
    l_quot(c[j], m);
    l_xcoord(y, s, j, x, w);
}

pub proof fn l_sgdiv(t: Sign, x: F64, m: F64)
    ensures
        dv(sg(t, x), m) == sg(t, dv(x, m)),
{
    let (p, r) = (x.v@, rinv(m.v@));
    assert((-p) * r == -(p * r)) by (nonlinear_arith);
    assert(0real * r == 0real) by (nonlinear_arith);
}

pub proof fn l_quot(x: F64, m: F64)
    requires
        m.v@ != 0real,
    ensures
        dv(F64::o(), m) != F64::z(),
        dv(dv(x, m), dv(F64::o(), m)) == x,
{
    let (p, q) = (x.v@, m.v@);
    let r = rinv(q);
    l_rinv(q);
    assert(r != 0real) by {
        if r == 0real {
            assert(q * r == 0real) by (nonlinear_arith)
                requires
                    r == 0real,
            ;
        }
    }
    assert(1real * r == r);
    assert(dv(F64::o(), m) == fl(r));
    let u = rinv(r);
    l_rinv(r);
    assert((p * r) * u == p) by (nonlinear_arith)
        requires
            r * u == 1real,
    ;
    assert(F64::z().v@ == 0real);
}

// ---- incidence: a hyperplane and a point
pub proof fn sum_powers<T: Ring>(f: spec_fn(int) -> T, g: spec_fn(int) -> T, d: usize)
    requires
        d <= 63,
        forall|k: int|
            0 <= k < (1usize << d) && (forall|j: int| 0 <= j < d ==> k != #[trigger] pgb(j)) ==> #[trigger] f(k)
                == T::z(),
        forall|j: int| 0 <= j < d ==> #[trigger] g(j) == f(pgb(j)),
    ensures
        sum(f, (1usize << d) as nat) == sum(g, d as nat),
    decreases d,
{
    if d == 0 {
        assert(1usize << 0usize == 1) by (bit_vector);
        assert(f(0) == T::z());
        assert(sum(f, 1) == T::a(sum(f, 0), f(0)));
        r_zero(T::z());
    } else {
        let e = (d - 1) as usize;
        let m = (1usize << e) as nat;
        assert((1usize << d) == (1usize << e) + (1usize << e) && (1usize << e) > 0) by (bit_vector)
            requires
                d <= 63,
                d >= 1,
                e == d - 1,
        ;
        assert forall|k: int|
            0 <= k < (1usize << e) && (forall|j: int| 0 <= j < e ==> k != #[trigger] pgb(j)) implies #[trigger] f(k)
            == T::z() by {
            assert(pgb(e as int) == m);
            assert forall|j: int| 0 <= j < d implies k != #[trigger] pgb(j) by {
                if j == e {
                }
            }
        }
        sum_powers(f, g, e);
        let h = |i: int| f(m + i);
        sum_split(f, h, m, m);
        assert forall|i: int| 0 <= i < m && i != 0 implies #[trigger] h(i) == T::z() by {
            assert forall|j: int| 0 <= j < d implies m + i != #[trigger] pgb(j) by {
                if j < e {
                    l_cobit(j as usize, e);
                } else {
                    assert(pgb(j) == m);
                }
            }
        }
        sum_single(h, m, 0);
        assert(pgb(e as int) == m);
        assert(h(0) == g(e as int));
    }
}

pub open spec fn incid(ec: Seq<F64>, c: Seq<F64>) -> F64 {
    sum(|i: int| F64::m(ec[i], hom(c)[i]), ec.len())
}

// the only coefficient of plane ^ point is a non-zero multiple of the equation's value at the point
pub proof fn th_incidence(ec: Seq<F64>, c: Seq<F64>, s: usize, n: nat)
    requires
        s <= 62,
        c.len() == s,
        ec.len() == s + 1,
        dimlen(n, (s + 1) as usize),
        exists|i: int| 0 <= i < ec.len() && #[trigger] ec[i] != F64::z(),
    ensures
        magn(ec).v@ > 0real,
        wprod(planev(ec, n), pointv(c, n)) == zeros::<F64>(n) <==> incid(ec, c) == F64::z(),
{
    let i0 = choose|i: int| 0 <= i < ec.len() && #[trigger] ec[i] != F64::z();
    l_magn(ec, i0);
    l_hom(c);
    let h = hom(c);
    let d = (s + 1) as usize;
    let (m1, m2) = (magn(ec), magn(h));
    let (r1, r2) = (rinv(m1.v@), rinv(m2.v@));
    l_rinv(m1.v@);
    l_rinv(m2.v@);
    let a = planev(ec, n);
    let b = pointv(c, n);
    l_vecv(ec, d as int, n, d);
    l_dualvec(h, n, d);
    let e = pm(odd(s as nat));
    let w = fl(if odd(s as nat) { -(r1 * r2) } else { r1 * r2 });
    assert forall|k: int| 0 <= k < n implies #[trigger] wprod(a, b)[k] == (if k == n - 1 {
        F64::m(incid(ec, c), w)
    } else {
        F64::z()
    }) by {
        let f = pterm(a, b, 0, allnull(), k);
        let g = |j: int| f(pgb(j));
        assert forall|i: int|
            0 <= i < (1usize << d) && (forall|j: int| 0 <= j < d ==> i != #[trigger] pgb(j)) implies #[trigger] f(i)
            == F64::z() by {
            assert(vecv(ec, d as int, n)[i] == F64::z());
            r_mul_zero(F64::iv(m1));
            assert(a[i] == F64::z());
            r_mul_zero(b[xr(i, k)]);
            sg_props(gs(i, xr(i, k), 0, allnull()), Sign::Plus, F64::z(), F64::z());
        }
        sum_powers(f, g, d);
        if k == n - 1 {
            let t = |i: int| F64::m(ec[i], h[i]);
            assert forall|j: int| 0 <= j < d implies #[trigger] g(j) == F64::m(t(j), w) by {
                l_cobit(j as usize, d);
                l_wedges(pgb(j) as usize, cpl(pgb(j), n) as usize);
                assert(xr(pgb(j), k) == cpl(pgb(j), n));
                let (x, y) = (ec[j].v@, h[j].v@);
                assert(vecv(ec, d as int, n)[pgb(j)] == ec[j]);
                assert(a[pgb(j)] == fl(x * r1));
                l_sgdiv(pm(odd(j as nat)), h[j], m2);
                assert(b[cpl(pgb(j), n)] == sg(pm(odd(j as nat)), fl(y * r2)));
                l_inc_real(x, y, r1, r2);
            }
            sum_mul_r(t, w, g, d as nat);
        } else {
            assert forall|j: int| 0 <= j < d implies #[trigger] g(j) == F64::z() by {
                let i = pgb(j);
                l_cobit(j as usize, d);
                l_xr(i, k, n, d);
                let q = xr(i, k);
                if exists|l: int| 0 <= l < d && q == cpl(#[trigger] pgb(l), n) {
                    let l = choose|l: int| 0 <= l < d && q == cpl(#[trigger] pgb(l), n);
                    l_cobit(l as usize, d);
                    if l == j {
                        assert(xr(i, q) == k);
                        l_xr(i, n - 1, n, d);
                        assert(k == n - 1);
                    }
                    let (u, v, jj, ll) = (1usize << (j as usize), 1usize << (l as usize), j as usize, l as usize);
                    let mm = (n - 1) as usize;
                    assert((1usize << d) > 0) by (bit_vector)
                        requires
                            d <= 63,
                    ;
                    assert(u & (v ^ mm) & 0xffff_ffff_ffff_ffff != 0) by (bit_vector)
                        requires
                            u == 1usize << jj,
                            v == 1usize << ll,
                            jj != ll,
                            jj < d,
                            ll < d,
                            d <= 63,
                            mm == (1usize << d) - 1,
                            (1usize << d) > 0,
                    ;
                    assert(gs(i, q, 0, allnull()) == Sign::Null);
                } else {
                    assert(dualv(vecv(h, d as int, n))[q] == F64::z());
                    r_mul_zero(F64::iv(m2));
                    assert(b[q] == F64::z());
                    r_mul_zero(a[i]);
                    sg_props(gs(i, q, 0, allnull()), Sign::Plus, F64::z(), F64::z());
                }
            }
            sum_zero(g, d as nat);
        }
    }
    assert((1usize << d) > 0) by (bit_vector)
        requires
            d <= 63,
    ;
    let p = incid(ec, c).v@;
    let q = w.v@;
    assert(r1 != 0real && r2 != 0real) by {
        if r1 == 0real {
            assert(m1.v@ * r1 == 0real) by (nonlinear_arith)
                requires
                    r1 == 0real,
            ;
        }
        if r2 == 0real {
            assert(m2.v@ * r2 == 0real) by (nonlinear_arith)
                requires
                    r2 == 0real,
            ;
        }
    }
    assert(r1 * r2 != 0real) by (nonlinear_arith)
        requires
            r1 != 0real,
            r2 != 0real,
    ;
    assert(q != 0real);
    assert((p * q == 0real) == (p == 0real)) by (nonlinear_arith)
        requires
            q != 0real,
    ;
    if incid(ec, c) == F64::z() {
        assert(wprod(a, b) =~= zeros::<F64>(n));
    }
    if wprod(a, b) == zeros::<F64>(n) {
        assert(wprod(a, b)[n - 1] == F64::z());
        assert(p == 0real);
        assert(incid(ec, c) == fl(p));
    }
}

pub proof fn l_inc_real(x: real, y: real, p: real, q: real)
    ensures
        (x * p) * (y * q) == (x * y) * (p * q),
        (x * p) * (-(y * q)) == (x * y) * (-(p * q)),
        -((x * p) * (y * q)) == (x * y) * (-(p * q)),
        -((x * p) * (-(y * q))) == (x * y) * (p * q),
{
    assert((x * p) * (y * q) == (x * y) * (p * q)) by (nonlinear_arith);
    let (u, v, w, t) = (x * p, y * q, x * y, p * q);
    assert(u * (-v) == -(u * v)) by (nonlinear_arith);
    assert(w * (-t) == -(w * t)) by (nonlinear_arith);
}

// ---- translations
pub proof fn l_pge(j: usize, s: usize)
    requires
        j < s,
        s <= 62,
    ensures
        pge(j as int, s) == ((1usize << j) ^ (1usize << s)) as int,
        (1usize << s) < pge(j as int, s) < (1usize << (s + 1) as usize),
        (1usize << j) < (1usize << s),
        (pge(j as int, s) as usize) & (1usize << s) != 0,
        revs(pge(j as int, s) as usize) == Sign::Minus,
        revs(0) == Sign::Plus,
{
    let (a, b) = (1usize << j, 1usize << s);
    let d = (s + 1) as usize;
    assert((b | a) == (a ^ b) && b < (b | a) && (b | a) < (1usize << d) && (b | a) & b != 0 && a & b == 0 && a < b) by (bit_vector)
        requires
            a == 1usize << j,
            b == 1usize << s,
            j < s,
            s <= 62,
            d == s + 1,
    ;
    l_cnt_xor2(a, b, 64);
    l_cnt_pow(j, 64);
    l_cnt_pow(s, 64);
    l_inv_zero(0, 64);
}

pub proof fn l_cnt_xor2(a: usize, b: usize, n: nat)
    requires
        a & b == 0,
    ensures
        cnt(a ^ b, n) == cnt(a, n) + cnt(b, n),
    decreases n,
{
    if n > 0 {
        l_cnt_xor2(a, b, (n - 1) as nat);
        l_bit_xor(a, b, (n - 1) as nat);
        l_bit_or(a, b, (n - 1) as nat);
        if n <= 64 {
            l_bit_const(0, (n - 1) as nat);
        }
    }
}

pub proof fn l_motplace(c: Seq<F64>, s: usize, p: int, n: nat)
    requires
        s <= 62,
        c.len() == s,
        0 <= p <= s,
        dimlen(n, (s + 1) as usize),
    ensures
        place(mpairs(c, s), p, n).len() == n,
        forall|j: int| 0 <= j < p ==> place(mpairs(c, s), p, n)[#[trigger] pge(j, s)] == dv(c[j], fl(2real)),
        forall|k: int|
            0 <= k < n && (forall|j: int| 0 <= j < p ==> k != #[trigger] pge(j, s)) ==> #[trigger] place(
                mpairs(c, s),
                p,
                n,
            )[k] == F64::z(),
    decreases p,
{
    if p > 0 {
        l_motplace(c, s, p - 1, n);
        l_pge((p - 1) as usize, s);
        assert(mpairs(c, s)[p - 1].0 == pge(p - 1, s));
        assert forall|j: int| 0 <= j < p implies place(mpairs(c, s), p, n)[#[trigger] pge(j, s)] == dv(
            c[j],
            fl(2real),
        ) by {
            if j < p - 1 {
                l_pge(j as usize, s);
                l_pge_inj(j as usize, (p - 1) as usize, s);
            }
        }
    }
}

pub proof fn l_pge_inj(i: usize, j: usize, s: usize)
    requires
        i < s,
        j < s,
        s <= 62,
        i != j,
    ensures
        pge(i as int, s) != pge(j as int, s),
{
    assert(((1usize << s) | (1usize << i)) != ((1usize << s) | (1usize << j))) by (bit_vector)
        requires
            i < s,
            j < s,
            s <= 62,
            i != j,
    ;
}

pub proof fn sum_two<T: Ring>(f: spec_fn(int) -> T, n: nat, p: int, q: int)
    requires
        0 <= p < n,
        0 <= q < n,
        p != q,
        forall|i: int| 0 <= i < n && i != p && i != q ==> #[trigger] f(i) == T::z(),
    ensures
        sum(f, n) == T::a(f(p), f(q)),
{
    let g = |i: int| if i == q { T::z() } else { f(i) };
    sum_single(g, n, p);
    sum_point(g, f, n, q);
}

// a motor's coefficients: 1, half the direction on generator j and the null generator, zero elsewhere;
// stated for a sign e on the second kind (the reverse has the opposite one)
pub open spec fn ismot(t: Seq<F64>, c: Seq<F64>, s: usize, e: Sign) -> bool {
    &&& dimlen(t.len(), (s + 1) as usize)
    &&& t[0] == F64::o()
    &&& forall|j: int| 0 <= j < s ==> t[#[trigger] pge(j, s)] == sg(e, dv(c[j], fl(2real)))
    &&& forall|k: int|
        0 < k < t.len() && (forall|j: int| 0 <= j < s ==> k != #[trigger] pge(j, s)) ==> #[trigger] t[k] == F64::z()
}

pub proof fn l_motv(c: Seq<F64>, s: usize, n: nat)
    requires
        s <= 62,
        c.len() == s,
        dimlen(n, (s + 1) as usize),
    ensures
        ismot(motv(c, s, n), c, s, Sign::Plus),
        ismot(revv(motv(c, s, n)), c, s, Sign::Minus),
{
    l_motplace(c, s, s as int, n);
    let t = motv(c, s, n);
    let d = (s + 1) as usize;
    assert((1usize << d) > 0) by (bit_vector)
        requires
            d <= 63,
    ;
    assert forall|j: int| 0 <= j < s implies t[#[trigger] pge(j, s)] == dv(c[j], fl(2real)) && revv(t)[pge(j, s)]
        == sg(Sign::Minus, dv(c[j], fl(2real))) by {
        l_pge(j as usize, s);
        assert((1usize << s) > 0) by (bit_vector)
            requires
                s <= 62,
        ;
    }
    l_inv_zero(0, 64);
    assert(revs(0) == Sign::Plus);
    assert forall|k: int|
        0 < k < n && (forall|j: int| 0 <= j < s ==> k != #[trigger] pge(j, s)) implies #[trigger] revv(t)[k]
        == F64::z() by {
        assert(t[k] == F64::z());
        sg_props(revs(k as usize), Sign::Plus, F64::z(), F64::z());
    }
}

pub proof fn l_term_zero(a: F64, b: F64, t: Sign)
    ensures
        t == Sign::Null || a == F64::z() || b == F64::z() ==> sg(t, F64::m(a, b)) == F64::z(),
{
    r_mul_zero(a);
    r_mul_zero(b);
    sg_props(t, Sign::Plus, F64::z(), F64::z());
}

// k below the null generator: a motor on either side leaves the coefficient alone
pub proof fn l_mot_low(t: Seq<F64>, c: Seq<F64>, s: usize, e: Sign, x: Seq<F64>, k: int)
    requires
        s <= 62,
        c.len() == s,
        ismot(t, c, s, e),
        x.len() == t.len(),
        0 <= k < (1usize << s),
    ensures
        prod(t, x, 0, 1usize << s)[k] == x[k],
        prod(x, t, 0, 1usize << s)[k] == x[k],
{
    let n = t.len();
    let pr = 1usize << s;
    let d = (s + 1) as usize;
    assert((1usize << s) < (1usize << d)) by (bit_vector)
        requires
            s <= 62,
            d == s + 1,
    ;
    let f = pterm(t, x, 0, pr, k);
    let g = pterm(x, t, 0, pr, k);
    let kk = k as usize;
    assert(kk & pr == 0) by (bit_vector)
        requires
            pr == 1usize << s,
            kk < pr,
            s <= 62,
    ;
    l_xr(0, k, n, d);
    l_xr(k, k, n, d);
    assert(0usize ^ kk == kk && kk ^ kk == 0) by (bit_vector);
    l_gs_unit(kk, 0, pr);
    F64::mul_one(x[k]);
    assert forall|i: int| 0 <= i < n && i != 0 implies #[trigger] f(i) == F64::z() by {
        let ii = i as usize;
        l_term_zero(t[i], x[xr(i, k)], gs(i, xr(i, k), 0, pr));
        if ii & pr != 0 {
            assert(ii & (ii ^ kk) & pr != 0) by (bit_vector)
                requires
                    ii & pr != 0,
                    kk & pr == 0,
                    pr == 1usize << s,
                    s <= 62,
            ;
        } else {
            assert forall|j: int| 0 <= j < s implies i != #[trigger] pge(j, s) by {
                l_pge(j as usize, s);
            }
            assert(t[i] == F64::z());
        }
    }
    sum_single(f, n, 0);
    assert forall|i: int| 0 <= i < n && i != k implies #[trigger] g(i) == F64::z() by {
        let ii = i as usize;
        let q = xr(i, k);
        let qq = q as usize;
        l_xr(i, k, n, d);
        l_xr_inj(i, 0, k, n, d);
        assert(ii ^ 0 == ii) by (bit_vector);
        assert(q != 0);
        l_term_zero(x[i], t[q], gs(i, q, 0, pr));
        if ii & pr != 0 {
            assert(ii & (ii ^ kk) & pr != 0) by (bit_vector)
                requires
                    ii & pr != 0,
                    kk & pr == 0,
                    pr == 1usize << s,
                    s <= 62,
            ;
        } else {
            assert((ii ^ kk) & pr == 0) by (bit_vector)
                requires
                    ii & pr == 0,
                    kk & pr == 0,
            ;
            assert forall|j: int| 0 <= j < s implies q != #[trigger] pge(j, s) by {
                l_pge(j as usize, s);
            }
            assert(t[q] == F64::z());
        }
    }
    sum_single(g, n, k);
}

// signs of the two mixed products
pub proof fn l_mot_signs(j: usize, s: usize)
    requires
        j < s,
        s <= 62,
    ensures
        gs(sub1(1usize << s) as int, pge(j as int, s), 0, 1usize << s) == pm(odd(j as nat) != odd(s as nat)),
        gs(pge(j as int, s), sub1(1usize << s) as int, 0, 1usize << s) == pm(odd(j as nat) == odd(s as nat)),
        sub1(1usize << s) < (1usize << s),
        (1usize << s) < (1usize << (s + 1) as usize),
{
    let p = sub1(1usize << s);
    let (a, b) = (1usize << j, 1usize << s);
    let d = (s + 1) as usize;
    assert(b > 0 && b < (1usize << d)) by (bit_vector)
        requires
            b == 1usize << s,
            s <= 62,
            d == s + 1,
    ;
    l_pge(j, s);
    let e = pge(j as int, s) as usize;
    assert(p & e & b == 0 && e & p & b == 0 && p & e & 0 == 0 && e & p & 0 == 0) by (bit_vector)
        requires
            p == b - 1,
            b > 0,
            b == 1usize << s,
            s <= 62,
    ;
    l_inv_zero(0, 64);
    l_inv_xor(a, b, p, 64);
    l_inv_pow(p, j, 64);
    l_inv_pow(p, s, 64);
    l_cnt_low(s, j as nat);
    l_cnt_low(s, j as nat + 1);
    l_cnt_low(s, s as nat);
    l_cnt_low(s, s as nat + 1);
    l_cnt_low(s, 64);
}

// x is a point: its coefficients below the null generator vanish except for the one on all other generators
pub open spec fn ispoint(x: Seq<F64>, s: usize) -> bool {
    &&& dimlen(x.len(), (s + 1) as usize)
    &&& forall|k: int| 0 <= k < (1usize << s) && k != sub1(1usize << s) ==> #[trigger] x[k] == F64::z()
}

pub proof fn l_mot_high(t: Seq<F64>, c: Seq<F64>, s: usize, e: Sign, x: Seq<F64>, j: int)
    requires
        s <= 62,
        c.len() == s,
        ismot(t, c, s, e),
        ispoint(x, s),
        x.len() == t.len(),
        0 <= j < s,
    ensures
        ({
            let k = cpl(pgb(j), x.len());
            let p = sub1(1usize << s) as int;
            let h = sg(e, dv(c[j], fl(2real)));
            &&& prod(t, x, 0, 1usize << s)[k] == F64::a(
                x[k],
                sg(pm(odd(j as nat) == odd(s as nat)), F64::m(h, x[p])),
            )
            &&& prod(x, t, 0, 1usize << s)[k] == F64::a(
                x[k],
                sg(pm(odd(j as nat) != odd(s as nat)), F64::m(x[p], h)),
            )
        }),
{
    let n = t.len();
    let pr = 1usize << s;
    let d = (s + 1) as usize;
    let k = cpl(pgb(j), n);
    let p = sub1(1usize << s) as int;
    let jj = j as usize;
    l_cobit(jj, d);
    l_mot_signs(jj, s);
    l_pge(jj, s);
    let ej = pge(j, s);
    let (kk, pp, ee) = (k as usize, p as usize, ej as usize);
    let b = 1usize << jj;
    assert(kk == pp ^ b ^ pr);
    assert(ee == b ^ pr);
    assert(ee ^ (pp ^ b ^ pr) == pp && pp ^ (pp ^ b ^ pr) == ee) by (bit_vector)
        requires
            ee == b ^ pr,
    ;
    assert(xr(ej, k) == p);
    assert(xr(p, k) == ej);
    let f = pterm(t, x, 0, pr, k);
    let g = pterm(x, t, 0, pr, k);
    l_xr(0, k, n, d);
    assert(0usize ^ kk == kk && kk ^ kk == 0) by (bit_vector);
    l_gs_unit(kk, 0, pr);
    F64::mul_one(x[k]);
    assert(b > 0 && b < pr) by (bit_vector)
        requires
            b == 1usize << jj,
            jj < s,
            s <= 62,
            pr == 1usize << s,
    ;
    assert(kk & pr != 0 && kk >= pr) by (bit_vector)
        requires
            kk == pp ^ b ^ pr,
            pp < pr,
            b < pr,
            pr == 1usize << s,
            s <= 62,
    ;
    assert forall|i: int| 0 <= i < n && i != 0 && i != ej implies #[trigger] f(i) == F64::z() by {
        l_term_zero(t[i], x[xr(i, k)], gs(i, xr(i, k), 0, pr));
        if exists|l: int| 0 <= l < s && i == #[trigger] pge(l, s) {
            let l = choose|l: int| 0 <= l < s && i == #[trigger] pge(l, s);
            l_pge(l as usize, s);
            let (ii, c2) = (i as usize, 1usize << (l as usize));
            assert(ii ^ kk < pr) by (bit_vector)
                requires
                    kk == pp ^ b ^ pr,
                    ii == c2 ^ pr,
                    c2 < pr,
                    pp < pr,
                    b < pr,
                    pr == 1usize << s,
                    s <= 62,
            ;
            l_xr_inj(i, p, k, n, d);
            l_xr_inj(ej, p, k, n, d);
            l_xr(i, p, n, d);
            l_xr(ej, p, n, d);
            assert(xr(i, k) != p);
            assert(x[xr(i, k)] == F64::z());
        } else {
            assert(t[i] == F64::z());
        }
    }
    sum_two(f, n, 0, ej);
    assert forall|i: int| 0 <= i < n && i != k && i != p implies #[trigger] g(i) == F64::z() by {
        let q = xr(i, k);
        l_xr(i, k, n, d);
        l_xr_inj(i, 0, k, n, d);
        let ii = i as usize;
        assert(ii ^ 0 == ii) by (bit_vector);
        l_term_zero(x[i], t[q], gs(i, q, 0, pr));
        if exists|l: int| 0 <= l < s && q == #[trigger] pge(l, s) {
            let l = choose|l: int| 0 <= l < s && q == #[trigger] pge(l, s);
            l_pge(l as usize, s);
            let (qq, c2) = (q as usize, 1usize << (l as usize));
            assert(qq ^ kk < pr) by (bit_vector)
                requires
                    kk == pp ^ b ^ pr,
                    qq == c2 ^ pr,
                    c2 < pr,
                    pp < pr,
                    b < pr,
                    pr == 1usize << s,
                    s <= 62,
            ;
            assert(xr(q, k) == i);
            assert(i < pr);
            assert(x[i] == F64::z());
        } else {
            assert(t[q] == F64::z());
        }
    }
    sum_two(g, n, k, p);
}

// a motor's sandwich moves a point by the motor's direction
pub proof fn th_translate(c: Seq<F64>, v: Seq<F64>, s: usize, n: nat, j: int)
    requires
        s <= 62,
        c.len() == s,
        v.len() == s,
        dimlen(n, (s + 1) as usize),
        0 <= j < s,
    ensures
        xcoord(
            prod(prod(revv(motv(v, s, n)), pointv(c, n), 0, 1usize << s), motv(v, s, n), 0, 1usize << s),
            s,
            j,
        ) == F64::a(c[j], v[j]),
{
    let pr = 1usize << s;
    let d = (s + 1) as usize;
    let t = motv(v, s, n);
    let u = revv(t);
    l_motv(v, s, n);
    let x = pointv(c, n);
    let h = hom(c);
    let m = magn(h);
    l_hom(c);
    l_dualvec(h, n, d);
    l_cobit(j as usize, d);
    l_cobit(s, d);
    let p = sub1(pr) as int;
    let k = cpl(pgb(j), n);
    l_mot_signs(j as usize, s);
    assert forall|i: int| 0 <= i < pr && i != p implies #[trigger] x[i] == F64::z() by {
        assert forall|l: int| 0 <= l < d implies i != cpl(#[trigger] pgb(l), n) by {
            l_cobit(l as usize, d);
            if l < s {
                let (b, pp, ll) = (1usize << (l as usize), sub1(pr), l as usize);
                assert(pp ^ b ^ pr >= pr) by (bit_vector)
                    requires
                        b == 1usize << ll,
                        ll < s,
                        s <= 62,
                        pr == 1usize << s,
                        pp < pr,
                ;
            }
        }
        assert(dualv(vecv(h, d as int, n))[i] == F64::z());
        r_mul_zero(F64::iv(m));
    }
    let z = prod(u, x, 0, pr);
    assert forall|i: int| 0 <= i < pr implies #[trigger] z[i] == x[i] by {
        l_mot_low(u, v, s, Sign::Minus, x, i);
    }
    let y = prod(z, t, 0, pr);
    l_mot_low(t, v, s, Sign::Plus, z, p);
    l_mot_high(u, v, s, Sign::Minus, x, j);
    l_mot_high(t, v, s, Sign::Plus, z, j);
    // values
    let half = dv(v[j], fl(2real));
    let w = dv(F64::o(), m);
    let cj = dv(c[j], m);
    assert(h[j] == c[j] && h[s as int] == F64::o());
    l_sgdiv(pm(odd(j as nat)), c[j], m);
    l_sgdiv(pm(odd(s as nat)), F64::o(), m);
    assert(x[k] == sg(pm(odd(j as nat)), cj));
    assert(x[p] == sg(pm(odd(s as nat)), w));
    let moved = F64::a(cj, F64::m(v[j], w));
    l_mot_half(v[j].v@, w.v@);
    assert(y[p] == x[p]);
    assert(y[k] == sg(pm(odd(j as nat)), moved));
    l_quot(c[j], m);
    l_xcoord(y, s, j, moved, w);
    // (c/m + v w) / w == c + v with w = 1/m
    let ww = w.v@;
    assert(ww != 0real) by {
        if ww == 0real {
            assert(w == fl(ww));
        }
    }
    l_rinv(ww);
    let (cc, vv, iw) = (cj.v@, v[j].v@, rinv(ww));
    assert((cc + vv * ww) * iw == cc * iw + vv) by (nonlinear_arith)
        requires
            ww * iw == 1real,
    ;
    assert(dv(moved, w) == F64::a(dv(cj, w), v[j]));
}

pub proof fn l_mot_half(v: real, w: real)
    ensures
        ({
            let h = v * rinv(2real);
            &&& h * w + w * h == v * w
            &&& (-h) * w == -(h * w)
            &&& h * (-w) == -(h * w)
            &&& (-h) * (-w) == h * w
            &&& w * h == h * w
            &&& (-w) * h == -(h * w)
        }),
{
    let r = rinv(2real);
    l_rinv(2real);
    assert(r + r == 1real);
    let h = v * r;
    assert(h + h == v) by (nonlinear_arith)
        requires
            r + r == 1real,
            h == v * r,
    ;
    assert(h * w + w * h == v * w) by (nonlinear_arith)
        requires
            h + h == v,
    ;
    assert((-h) * w == -(h * w)) by (nonlinear_arith);
    assert(h * (-w) == -(h * w)) by (nonlinear_arith);
    assert((-h) * (-w) == h * w) by (nonlinear_arith);
    assert(w * h == h * w) by (nonlinear_arith);
    assert((-w) * h == -(h * w)) by (nonlinear_arith);
}
