// ---- the exponential series: truncated sums, factorials, sums of norms
pub open spec fn nsum<T: Norm>(v: Seq<T>, n: int) -> real
    decreases n,
{
    if n <= 0 {
        0real
    } else {
        nsum(v, n - 1) + v[n - 1].nrm()
    }
}

pub proof fn l_nsum_upd<T: Norm>(v: Seq<T>, i: int, c: T, n: int)
    requires
        0 <= i < v.len(),
        v[i] == T::z(),
        0 <= n <= v.len(),
    ensures
        nsum(v.update(i, c), n) == nsum(v, n) + if i < n { c.nrm() } else { 0real },
    decreases n,
{
    T::norm_law(T::z());
    if n > 0 {
        l_nsum_upd(v, i, c, n - 1);
    }
}

pub proof fn l_nsum_zero<T: Norm>(v: Seq<T>, n: int)
    requires
        0 <= n <= v.len(),
        forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == T::z(),
    ensures
        nsum(v, n) == 0real,
    decreases n,
{
    T::norm_law(T::z());
    if n > 0 {
        l_nsum_zero(v, n - 1);
    }
}

// 1 / n!
pub open spec fn ifct(n: nat) -> real
    decreases n,
{
    if n == 0 {
        1real
    } else {
        ifct((n - 1) as nat) * rinv(n as int as real)
    }
}

// 1 / 2^n
pub open spec fn hlf(n: nat) -> real
    decreases n,
{
    if n == 0 {
        1real
    } else {
        hlf((n - 1) as nat) / 2real
    }
}

pub proof fn l_hlf(n: nat, m: nat)
    requires
        n <= m,
    ensures
        0real < hlf(m) <= hlf(n),
    decreases m,
{
    if n < m {
        l_hlf(n, (m - 1) as nat);
    } else if n > 0 {
        l_hlf((n - 1) as nat, (m - 1) as nat);
    }
}

pub proof fn l_ifct(n: nat)
    requires
        n >= 1,
    ensures
        0real < ifct(n) <= hlf((n - 1) as nat),
    decreases n,
{
    l_hlf(0, (n - 1) as nat);
    if n > 1 {
        l_ifct((n - 1) as nat);
        let (x, r, m) = (ifct((n - 1) as nat), rinv(n as int as real), n as int as real);
        l_rinv(m);
        assert(0real < r <= 1real / 2real) by (nonlinear_arith)
            requires
                m * r == 1real,
                m >= 2real,
        ;
        assert(0real < x * r <= x / 2real) by (nonlinear_arith)
            requires
                0real < r <= 1real / 2real,
                x > 0real,
        ;
    } else {
        assert(ifct(0) == 1real);
        l_rinv(1real);
    }
}

// while a factor 1/n! exceeds the machine epsilon, n is small
pub proof fn l_cut(n: nat)
    requires
        ifct(n) > hlf(52),
    ensures
        n <= 53,
{
    if n > 53 {
        l_ifct(n);
        l_hlf(52, (n - 1) as nat);
    }
}

// real numbers as coefficients
pub trait VFromF64: Ring {
    spec fn fr(x: real) -> Self;

    fn v_from(x: F64) -> (r: Self)
        ensures
            r == Self::fr(x.v@),
    ;
}

// 1 + y + y^2/2! + ... + y^k/k!, the factors of a real number x as elements of the ring being g(x)
pub open spec fn ser<T: Ring>(y: Seq<T>, k: nat, g: spec_fn(real) -> T, im: usize, pr: usize) -> Seq<T>
    decreases k,
{
    if k == 0 {
        onev(y.len())
    } else {
        vadd(ser(y, (k - 1) as nat, g, im, pr), scaler(powv(y, k, im, pr), g(ifct(k))))
    }
}

pub proof fn l_ser_len<T: Ring>(y: Seq<T>, k: nat, g: spec_fn(real) -> T, im: usize, pr: usize)
    ensures
        ser(y, k, g, im, pr).len() == y.len(),
    decreases k,
{
    if k > 0 {
        l_ser_len(y, (k - 1) as nat, g, im, pr);
    }
}

// r is the m-th power of the series of x / m cut off after the power k, where m is at least b and 1/k! is at most the machine epsilon
pub open spec fn expat<T: Ring>(r: Seq<T>, x: Seq<T>, b: real, g: spec_fn(real) -> T, im: usize, pr: usize, m: nat, k: nat) -> bool {
    m >= 1 && b <= m as int as real && ifct(k) <= hlf(52) && r == powv(ser(scaler(x, g(rinv(m as int as real))), k, g, im, pr), m, im, pr)
}

pub open spec fn expof<T: Ring>(r: Seq<T>, x: Seq<T>, b: real, g: spec_fn(real) -> T, im: usize, pr: usize) -> bool {
    exists|m: nat, k: nat| #[trigger] expat(r, x, b, g, im, pr, m, k)
}

pub open spec fn frf<T: VFromF64>() -> spec_fn(real) -> T {
    |x: real| T::fr(x)
}

// ---- what exp uses of f64
pub fn v_eps() -> (r: F64)
    ensures
        r == fl(hlf(52)),
{
    F64 { v: Ghost(hlf(52)) }
}

impl F64 {
    #[verifier::external_body]
    pub fn max(self, o: F64) -> (r: F64)
        ensures
            r == if self.v@ >= o.v@ { self } else { o },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn powi(self, n: i32) -> (r: F64)
        ensures
            n == 2 ==> r == fl(self.v@ * self.v@),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn ceil(self) -> (r: F64)
        ensures
            exists|n: int| r == #[trigger] fl(n as real) && n as real - 1real < self.v@ <= n as real,
    {
        unimplemented!()
    }
}

#[verifier::external_body]
pub fn v_to_usize(x: F64) -> (r: usize)
    ensures
        forall|n: int| 0 <= n <= usize::MAX && x == #[trigger] fl(n as real) ==> r == n,
{
    unimplemented!()
}
