// ---- exact stand-ins for f64 and num_complex::Complex64: real and complex numbers without rounding.
// No arithmetic is assumed: the ring laws are proved below. Comparisons and the square root are assumed to be
// the ones of the real numbers.
#[derive(Copy)]
pub struct F64 {
    pub v: Ghost<real>,
}

impl ::core::clone::Clone for F64 {
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        *self
    }
}

impl Clone for F64 {
    fn v_clone(&self) -> (r: Self) {
        *self
    }
}

pub open spec fn fl(x: real) -> F64 {
    F64 { v: Ghost(x) }
}

pub fn v_f64(n: i64) -> (r: F64)
    ensures
        r == fl(n as int as real),
{
    F64 { v: Ghost(n as int as real) }
}

// a literal with a fraction
pub fn v_f64r(x: Ghost<real>) -> (r: F64)
    ensures
        r == fl(x@),
{
    F64 { v: x }
}

impl Add for F64 {
    type Output = F64;

    #[verifier::external_body]
    fn add(self, o: F64) -> F64 {
        F64 { v: Ghost(self.v@ + o.v@) }
    }
}

impl AddSpecImpl for F64 {
    open spec fn obeys_add_spec() -> bool {
        true
    }

    open spec fn add_req(self, o: F64) -> bool {
        true
    }

    open spec fn add_spec(self, o: F64) -> F64 {
        fl(self.v@ + o.v@)
    }
}

impl Sub for F64 {
    type Output = F64;

    #[verifier::external_body]
    fn sub(self, o: F64) -> F64 {
        F64 { v: Ghost(self.v@ - o.v@) }
    }
}

impl SubSpecImpl for F64 {
    open spec fn obeys_sub_spec() -> bool {
        true
    }

    open spec fn sub_req(self, o: F64) -> bool {
        true
    }

    open spec fn sub_spec(self, o: F64) -> F64 {
        fl(self.v@ - o.v@)
    }
}

impl Mul for F64 {
    type Output = F64;

    #[verifier::external_body]
    fn mul(self, o: F64) -> F64 {
        F64 { v: Ghost(self.v@ * o.v@) }
    }
}

impl MulSpecImpl for F64 {
    open spec fn obeys_mul_spec() -> bool {
        true
    }

    open spec fn mul_req(self, o: F64) -> bool {
        true
    }

    open spec fn mul_spec(self, o: F64) -> F64 {
        fl(self.v@ * o.v@)
    }
}

pub open spec fn rinv(x: real) -> real {
    1real / x
}

impl Div for F64 {
    type Output = F64;

    #[verifier::external_body]
    fn div(self, o: F64) -> F64 {
        F64 { v: Ghost(self.v@ * rinv(o.v@)) }
    }
}

impl DivSpecImpl for F64 {
    open spec fn obeys_div_spec() -> bool {
        true
    }

    open spec fn div_req(self, o: F64) -> bool {
        true
    }

    open spec fn div_spec(self, o: F64) -> F64 {
        fl(self.v@ * rinv(o.v@))
    }
}

impl Neg for F64 {
    type Output = F64;

    #[verifier::external_body]
    fn neg(self) -> F64 {
        F64 { v: Ghost(-self.v@) }
    }
}

impl NegSpecImpl for F64 {
    open spec fn obeys_neg_spec() -> bool {
        true
    }

    open spec fn neg_req(self) -> bool {
        true
    }

    open spec fn neg_spec(self) -> F64 {
        fl(-self.v@)
    }
}

impl Ring for F64 {
    open spec fn z() -> F64 {
        fl(0real)
    }

    open spec fn o() -> F64 {
        fl(1real)
    }

    open spec fn a(x: F64, y: F64) -> F64 {
        fl(x.v@ + y.v@)
    }

    open spec fn s(x: F64, y: F64) -> F64 {
        fl(x.v@ - y.v@)
    }

    open spec fn m(x: F64, y: F64) -> F64 {
        fl(x.v@ * y.v@)
    }

    open spec fn n(x: F64) -> F64 {
        fl(-x.v@)
    }

    fn zero() -> F64 {
        proof {
            let _g = F64::z();
        }
        F64 { v: Ghost(0real) }
    }

    fn one() -> F64 {
        proof {
            let _g = F64::o();
        }
        F64 { v: Ghost(1real) }
    }

    #[verifier::external_body]
    fn is_zero(&self) -> bool {
        unimplemented!()
    }

    fn ref_add(&self, y: &F64) -> F64 {
        *self + *y
    }

    fn ref_sub(&self, y: &F64) -> F64 {
        *self - *y
    }

    fn ref_mul(&self, y: &F64) -> F64 {
        *self * *y
    }

    fn ref_neg(&self) -> F64 {
        F64 { v: Ghost(-self.v@) }
    }

    #[verifier::external_body]
    fn eq(&self, y: &F64) -> bool {
        unimplemented!()
    }

    proof fn ops() {
    }

    proof fn add_comm(x: F64, y: F64) {
    }

    proof fn add_assoc(x: F64, y: F64, w: F64) {
    }

    proof fn add_zero(x: F64) {
    }

    proof fn add_neg(x: F64) {
    }

    proof fn sub_def(x: F64, y: F64) {
    }

    proof fn mul_assoc(x: F64, y: F64, w: F64) {
        let (a, b, c) = (x.v@, y.v@, w.v@);
        assert((a * b) * c == a * (b * c)) by (nonlinear_arith);
    }

    proof fn mul_one(x: F64) {
    }

    proof fn dist_l(x: F64, y: F64, w: F64) {
        let (a, b, c) = (x.v@, y.v@, w.v@);
        assert(a * (b + c) == a * b + a * c) by (nonlinear_arith);
    }

    proof fn dist_r(x: F64, y: F64, w: F64) {
        let (a, b, c) = (x.v@, y.v@, w.v@);
        assert((a + b) * c == a * c + b * c) by (nonlinear_arith);
    }
}

pub proof fn l_rinv(x: real)
    requires
        x != 0real,
    ensures
        x * rinv(x) == 1real,
        rinv(x) * x == 1real,
{
    assert(x * (1real / x) == 1real) by (nonlinear_arith)
        requires
            x != 0real,
    ;
    let r = rinv(x);
    assert(x * r == r * x) by (nonlinear_arith);
}

impl DivRing for F64 {
    open spec fn iv(x: F64) -> F64 {
        fl(rinv(x.v@))
    }

    fn ref_div(&self, y: &F64) -> F64 {
        *self / *y
    }

    proof fn divops() {
    }

    proof fn inv_law(x: F64) {
        l_rinv(x.v@);
    }
}

// ---- complex numbers
#[derive(Copy)]
pub struct Complex64 {
    pub re: F64,
    pub im: F64,
}

impl ::core::clone::Clone for Complex64 {
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        *self
    }
}

impl Clone for Complex64 {
    fn v_clone(&self) -> (r: Self) {
        *self
    }
}

pub open spec fn cx(re: real, im: real) -> Complex64 {
    Complex64 { re: fl(re), im: fl(im) }
}

pub open spec fn re(x: Complex64) -> real {
    x.re.v@
}

pub open spec fn im(x: Complex64) -> real {
    x.im.v@
}

pub open spec fn cnorm2(x: Complex64) -> real {
    re(x) * re(x) + im(x) * im(x)
}

// (a c -+ b d) e, multiplied out
pub proof fn rm3(a: real, c: real, e: real, b: real, d: real)
    ensures
        (a * c - b * d) * e == a * (c * e) - b * (d * e),
        (a * c + b * d) * e == a * (c * e) + b * (d * e),
{
    let (x, y) = (a * c, b * d);
    assert((x - y) * e == x * e - y * e) by (nonlinear_arith);
    assert((x + y) * e == x * e + y * e) by (nonlinear_arith);
    assert((a * c) * e == a * (c * e)) by (nonlinear_arith);
    assert((b * d) * e == b * (d * e)) by (nonlinear_arith);
}

pub proof fn rd3(a: real, u: real, v: real, w: real, x: real)
    ensures
        a * (u - v) == a * u - a * v,
        a * (w + x) == a * w + a * x,
{
    assert(a * (u - v) == a * u - a * v) by (nonlinear_arith);
    assert(a * (w + x) == a * w + a * x) by (nonlinear_arith);
}

impl Ring for Complex64 {
    open spec fn z() -> Complex64 {
        cx(0real, 0real)
    }

    open spec fn o() -> Complex64 {
        cx(1real, 0real)
    }

    open spec fn a(x: Complex64, y: Complex64) -> Complex64 {
        cx(re(x) + re(y), im(x) + im(y))
    }

    open spec fn s(x: Complex64, y: Complex64) -> Complex64 {
        cx(re(x) - re(y), im(x) - im(y))
    }

    open spec fn m(x: Complex64, y: Complex64) -> Complex64 {
        cx(re(x) * re(y) - im(x) * im(y), re(x) * im(y) + im(x) * re(y))
    }

    open spec fn n(x: Complex64) -> Complex64 {
        cx(-re(x), -im(x))
    }

    fn zero() -> Complex64 {
        proof {
            let _g = Complex64::z();
        }
        Complex64 { re: F64::zero(), im: F64::zero() }
    }

    fn one() -> Complex64 {
        proof {
            let _g = Complex64::o();
        }
        Complex64 { re: F64::one(), im: F64::zero() }
    }

    fn is_zero(&self) -> bool {
        self.re.is_zero() && self.im.is_zero()
    }

    fn ref_add(&self, y: &Complex64) -> Complex64 {
        *self + *y
    }

    fn ref_sub(&self, y: &Complex64) -> Complex64 {
        *self - *y
    }

    fn ref_mul(&self, y: &Complex64) -> Complex64 {
        *self * *y
    }

    fn ref_neg(&self) -> Complex64 {
        Complex64 { re: F64 { v: Ghost(-self.re.v@) }, im: F64 { v: Ghost(-self.im.v@) } }
    }

    fn eq(&self, y: &Complex64) -> bool {
        Ring::eq(&self.re, &y.re) && Ring::eq(&self.im, &y.im)
    }

    proof fn ops() {
    }

    proof fn add_comm(x: Complex64, y: Complex64) {
    }

    proof fn add_assoc(x: Complex64, y: Complex64, w: Complex64) {
    }

    proof fn add_zero(x: Complex64) {
    }

    proof fn add_neg(x: Complex64) {
    }

    proof fn sub_def(x: Complex64, y: Complex64) {
    }

    proof fn mul_assoc(x: Complex64, y: Complex64, w: Complex64) {
        let (a, b, c, d, e, f) = (re(x), im(x), re(y), im(y), re(w), im(w));
        rm3(a, c, e, b, d);
        rm3(a, c, f, b, d);
        rm3(a, d, f, b, c);
        rm3(a, d, e, b, c);
        rd3(a, c * e, d * f, c * f, d * e);
        rd3(b, c * e, d * f, c * f, d * e);
    }

    proof fn mul_one(x: Complex64) {
    }

    proof fn dist_l(x: Complex64, y: Complex64, w: Complex64) {
        let (a, b, c, d, e, f) = (re(x), im(x), re(y), im(y), re(w), im(w));
        assert(a * (c + e) - b * (d + f) == (a * c - b * d) + (a * e - b * f)) by (nonlinear_arith);
        assert(a * (d + f) + b * (c + e) == (a * d + b * c) + (a * f + b * e)) by (nonlinear_arith);
    }

    proof fn dist_r(x: Complex64, y: Complex64, w: Complex64) {
        let (a, b, c, d, e, f) = (re(x), im(x), re(y), im(y), re(w), im(w));
        assert((a + c) * e - (b + d) * f == (a * e - b * f) + (c * e - d * f)) by (nonlinear_arith);
        assert((a + c) * f + (b + d) * e == (a * f + b * e) + (c * f + d * e)) by (nonlinear_arith);
    }
}

impl Add for Complex64 {
    type Output = Complex64;

    #[verifier::external_body]
    fn add(self, o: Complex64) -> Complex64 {
        Complex64 { re: self.re + o.re, im: self.im + o.im }
    }
}

impl AddSpecImpl for Complex64 {
    open spec fn obeys_add_spec() -> bool {
        true
    }

    open spec fn add_req(self, o: Complex64) -> bool {
        true
    }

    open spec fn add_spec(self, o: Complex64) -> Complex64 {
        cx(re(self) + re(o), im(self) + im(o))
    }
}

impl Sub for Complex64 {
    type Output = Complex64;

    #[verifier::external_body]
    fn sub(self, o: Complex64) -> Complex64 {
        Complex64 { re: self.re - o.re, im: self.im - o.im }
    }
}

impl SubSpecImpl for Complex64 {
    open spec fn obeys_sub_spec() -> bool {
        true
    }

    open spec fn sub_req(self, o: Complex64) -> bool {
        true
    }

    open spec fn sub_spec(self, o: Complex64) -> Complex64 {
        cx(re(self) - re(o), im(self) - im(o))
    }
}

impl<'a, 'b> Sub<&'b Complex64> for &'a Complex64 {
    type Output = Complex64;

    #[verifier::external_body]
    fn sub(self, o: &'b Complex64) -> Complex64 {
        *self - *o
    }
}

impl<'a, 'b> SubSpecImpl<&'b Complex64> for &'a Complex64 {
    open spec fn obeys_sub_spec() -> bool {
        true
    }

    open spec fn sub_req(self, o: &'b Complex64) -> bool {
        true
    }

    open spec fn sub_spec(self, o: &'b Complex64) -> Complex64 {
        Complex64::s(*self, *o)
    }
}

impl Mul for Complex64 {
    type Output = Complex64;

    #[verifier::external_body]
    fn mul(self, o: Complex64) -> Complex64 {
        Complex64 { re: self.re * o.re - self.im * o.im, im: self.re * o.im + self.im * o.re }
    }
}

impl MulSpecImpl for Complex64 {
    open spec fn obeys_mul_spec() -> bool {
        true
    }

    open spec fn mul_req(self, o: Complex64) -> bool {
        true
    }

    open spec fn mul_spec(self, o: Complex64) -> Complex64 {
        cx(re(self) * re(o) - im(self) * im(o), re(self) * im(o) + im(self) * re(o))
    }
}

impl<'a> Mul<&'a Complex64> for Complex64 {
    type Output = Complex64;

    #[verifier::external_body]
    fn mul(self, o: &'a Complex64) -> Complex64 {
        Complex64 { re: self.re * o.re - self.im * o.im, im: self.re * o.im + self.im * o.re }
    }
}

impl<'a> MulSpecImpl<&'a Complex64> for Complex64 {
    open spec fn obeys_mul_spec() -> bool {
        true
    }

    open spec fn mul_req(self, o: &'a Complex64) -> bool {
        true
    }

    open spec fn mul_spec(self, o: &'a Complex64) -> Complex64 {
        cx(re(self) * re(*o) - im(self) * im(*o), re(self) * im(*o) + im(self) * re(*o))
    }
}

impl Neg for Complex64 {
    type Output = Complex64;

    #[verifier::external_body]
    fn neg(self) -> Complex64 {
        Complex64 { re: F64 { v: Ghost(-self.re.v@) }, im: F64 { v: Ghost(-self.im.v@) } }
    }
}

impl NegSpecImpl for Complex64 {
    open spec fn obeys_neg_spec() -> bool {
        true
    }

    open spec fn neg_req(self) -> bool {
        true
    }

    open spec fn neg_spec(self) -> Complex64 {
        cx(-re(self), -im(self))
    }
}

pub open spec fn civ(x: Complex64) -> Complex64 {
    cx(re(x) * rinv(cnorm2(x)), -(im(x) * rinv(cnorm2(x))))
}

impl Div for Complex64 {
    type Output = Complex64;

    #[verifier::external_body]
    fn div(self, o: Complex64) -> Complex64 {
        let d = o.re * o.re + o.im * o.im;
        let i = Complex64 { re: o.re / d, im: F64 { v: Ghost(-(o.im.v@ * rinv(d.v@))) } };
        self * i
    }
}

impl DivSpecImpl for Complex64 {
    open spec fn obeys_div_spec() -> bool {
        true
    }

    open spec fn div_req(self, o: Complex64) -> bool {
        true
    }

    open spec fn div_spec(self, o: Complex64) -> Complex64 {
        Complex64::m(self, civ(o))
    }
}

pub proof fn l_cnorm2(x: Complex64)
    ensures
        cnorm2(x) >= 0real,
        (cnorm2(x) == 0real) == (x == Complex64::z()),
{
    let (a, b) = (re(x), im(x));
    assert(a * a >= 0real) by (nonlinear_arith);
    assert(b * b >= 0real) by (nonlinear_arith);
    if cnorm2(x) == 0real {
        assert(a == 0real) by (nonlinear_arith)
            requires
                a * a == 0real,
        ;
        assert(b == 0real) by (nonlinear_arith)
            requires
                b * b == 0real,
        ;
    }
}

impl DivRing for Complex64 {
    open spec fn iv(x: Complex64) -> Complex64 {
        civ(x)
    }

    fn ref_div(&self, y: &Complex64) -> Complex64 {
        *self / *y
    }

    proof fn divops() {
    }

    proof fn inv_law(x: Complex64) {
        l_cnorm2(x);
        let d = cnorm2(x);
        l_rinv(d);
        let r = rinv(d);
        let (a, b) = (re(x), im(x));
        assert(a * (a * r) - b * (-(b * r)) == (a * a + b * b) * r) by (nonlinear_arith);
        assert(a * (-(b * r)) + b * (a * r) == 0real) by (nonlinear_arith);
        assert((a * r) * a - (-(b * r)) * b == (a * a + b * b) * r) by (nonlinear_arith);
        assert((a * r) * b + (-(b * r)) * a == 0real) by (nonlinear_arith);
    }
}

pub proof fn l_ccomm(x: Complex64, y: Complex64)
    ensures
        Complex64::m(x, y) == Complex64::m(y, x),
{
    let (a, b, c, d) = (re(x), im(x), re(y), im(y));
    assert(a * c == c * a && b * d == d * b && a * d == d * a && b * c == c * b) by (nonlinear_arith);
}

pub proof fn l_ctwo()
    ensures
        two::<Complex64>() != Complex64::z(),
        comm::<Complex64>(),
{
    assert forall|x: Complex64, y: Complex64| #[trigger] Complex64::m(x, y) == Complex64::m(y, x) by {
        l_ccomm(x, y);
    }
}

// ---- powers of i
pub open spec fn ip(k: int) -> Complex64 {
    if k % 4 == 0 {
        cx(1real, 0real)
    } else if k % 4 == 1 {
        cx(0real, 1real)
    } else if k % 4 == 2 {
        cx(-1real, 0real)
    } else {
        cx(0real, -1real)
    }
}

pub proof fn l_ip(j: int, k: int)
    ensures
        Complex64::m(ip(j), ip(k)) == ip(j + k),
        ip(0) == Complex64::o(),
        Complex64::m(ip(j), ip(-j)) == Complex64::o(),
        ip(2) == Complex64::n(Complex64::o()),
{
    let (a, b) = (j % 4, k % 4);
    assert((j + k) % 4 == if a + b >= 4 { a + b - 4 } else { a + b });
    assert((-j) % 4 == if a == 0 { 0 } else { 4 - a });
    let (x, y) = (ip(j), ip(k));
    l_quad_unit(re(x), im(x), re(y), im(y));
    let w = ip(-j);
    l_quad_unit(re(x), im(x), re(w), im(w));
}

// products of numbers out of -1, 0, 1
pub open spec fn r01(x: real) -> bool {
    x == 0real || x == 1real || x == -1real
}

pub proof fn l_r01(a: real, b: real)
    requires
        r01(a),
        r01(b),
    ensures
        a * b == if a == 0real || b == 0real {
            0real
        } else if a == b {
            1real
        } else {
            -1real
        },
{
    if a == 0real {
        assert(a * b == 0real) by (nonlinear_arith) requires a == 0real;
    } else if a == 1real {
        assert(a * b == b) by (nonlinear_arith) requires a == 1real;
    } else {
        assert(a * b == -b) by (nonlinear_arith) requires a == -1real;
    }
}

pub proof fn l_quad_unit(a: real, b: real, c: real, d: real)
    requires
        r01(a),
        r01(b),
        r01(c),
        r01(d),
    ensures
        ({
            let p = |x: real, y: real| if x == 0real || y == 0real { 0real } else if x == y { 1real } else { -1real };
            a * c == p(a, c) && b * d == p(b, d) && a * d == p(a, d) && b * c == p(b, c)
        }),
{
    l_r01(a, c);
    l_r01(b, d);
    l_r01(a, d);
    l_r01(b, c);
}

impl Complex64 {
    pub fn from<X: VReal>(x: X) -> (r: Complex64)
        ensures
            r == cx(x.rv(), 0real),
    {
        Complex64 { re: x.vf(), im: v_f64(0) }
    }

    pub fn new(re: F64, im: F64) -> (r: Complex64)
        ensures
            r == (Complex64 { re, im }),
    {
        Complex64 { re, im }
    }
}

// what converts to f64 without a change of value: integers (see the bound on their use), f32 and f64 itself
pub trait VReal: Sized {
    spec fn rv(self) -> real;

    fn vf(self) -> (r: F64)
        ensures
            r == fl(self.rv()),
    ;
}

impl VReal for usize {
    open spec fn rv(self) -> real {
        self as int as real
    }

    fn vf(self) -> F64 {
        F64 { v: Ghost(self as int as real) }
    }
}

impl VReal for i32 {
    open spec fn rv(self) -> real {
        self as int as real
    }

    fn vf(self) -> F64 {
        F64 { v: Ghost(self as int as real) }
    }
}

impl VReal for F32 {
    open spec fn rv(self) -> real {
        self.v@
    }

    fn vf(self) -> F64 {
        F64 { v: self.v }
    }
}

impl VReal for F64 {
    open spec fn rv(self) -> real {
        self.v@
    }

    fn vf(self) -> F64 {
        self
    }
}

impl<'a> VReal for &'a F64 {
    open spec fn rv(self) -> real {
        self.v@
    }

    fn vf(self) -> F64 {
        *self
    }
}

pub fn v_to_f64<X: VReal>(x: X) -> (r: F64)
    ensures
        r == fl(x.rv()),
{
    x.vf()
}

pub fn v_to_f32(x: F64) -> (r: F32)
    ensures
        r.v == x.v,
{
    F32 { v: x.v }
}

// a real number as a complex one
pub open spec fn rc(x: F64) -> Complex64 {
    cx(x.v@, 0real)
}

impl<'a> Mul<Complex64> for &'a Complex64 {
    type Output = Complex64;

    #[verifier::external_body]
    fn mul(self, o: Complex64) -> Complex64 {
        *self * o
    }
}

impl<'a> MulSpecImpl<Complex64> for &'a Complex64 {
    open spec fn obeys_mul_spec() -> bool {
        true
    }

    open spec fn mul_req(self, o: Complex64) -> bool {
        true
    }

    open spec fn mul_spec(self, o: Complex64) -> Complex64 {
        Complex64::m(*self, o)
    }
}

impl<'a> Div<Complex64> for &'a Complex64 {
    type Output = Complex64;

    #[verifier::external_body]
    fn div(self, o: Complex64) -> Complex64 {
        *self / o
    }
}

impl<'a> DivSpecImpl<Complex64> for &'a Complex64 {
    open spec fn obeys_div_spec() -> bool {
        true
    }

    open spec fn div_req(self, o: Complex64) -> bool {
        true
    }

    open spec fn div_spec(self, o: Complex64) -> Complex64 {
        Complex64::m(*self, civ(o))
    }
}

impl<'a, 'b> Mul<&'b Complex64> for &'a Complex64 {
    type Output = Complex64;

    #[verifier::external_body]
    fn mul(self, o: &'b Complex64) -> Complex64 {
        *self * *o
    }
}

impl<'a, 'b> MulSpecImpl<&'b Complex64> for &'a Complex64 {
    open spec fn obeys_mul_spec() -> bool {
        true
    }

    open spec fn mul_req(self, o: &'b Complex64) -> bool {
        true
    }

    open spec fn mul_spec(self, o: &'b Complex64) -> Complex64 {
        Complex64::m(*self, *o)
    }
}

impl<'a, 'b> Div<&'b Complex64> for &'a Complex64 {
    type Output = Complex64;

    #[verifier::external_body]
    fn div(self, o: &'b Complex64) -> Complex64 {
        *self / *o
    }
}

impl<'a, 'b> DivSpecImpl<&'b Complex64> for &'a Complex64 {
    open spec fn obeys_div_spec() -> bool {
        true
    }

    open spec fn div_req(self, o: &'b Complex64) -> bool {
        true
    }

    open spec fn div_spec(self, o: &'b Complex64) -> Complex64 {
        Complex64::m(*self, civ(*o))
    }
}

impl<'a> Mul<F64> for &'a Complex64 {
    type Output = Complex64;

    #[verifier::external_body]
    fn mul(self, o: F64) -> Complex64 {
        v_scale(*self, o)
    }
}

impl<'a> MulSpecImpl<F64> for &'a Complex64 {
    open spec fn obeys_mul_spec() -> bool {
        true
    }

    open spec fn mul_req(self, o: F64) -> bool {
        true
    }

    open spec fn mul_spec(self, o: F64) -> Complex64 {
        Complex64::m(*self, rc(o))
    }
}

impl<'a> Div<F64> for &'a Complex64 {
    type Output = Complex64;

    #[verifier::external_body]
    fn div(self, o: F64) -> Complex64 {
        v_unscale(*self, o)
    }
}

impl<'a> DivSpecImpl<F64> for &'a Complex64 {
    open spec fn obeys_div_spec() -> bool {
        true
    }

    open spec fn div_req(self, o: F64) -> bool {
        true
    }

    open spec fn div_spec(self, o: F64) -> Complex64 {
        Complex64::m(*self, rc(F64::iv(o)))
    }
}

impl<'a, 'b> Mul<&'b F64> for &'a Complex64 {
    type Output = Complex64;

    #[verifier::external_body]
    fn mul(self, o: &'b F64) -> Complex64 {
        v_scale(*self, *o)
    }
}

impl<'a, 'b> MulSpecImpl<&'b F64> for &'a Complex64 {
    open spec fn obeys_mul_spec() -> bool {
        true
    }

    open spec fn mul_req(self, o: &'b F64) -> bool {
        true
    }

    open spec fn mul_spec(self, o: &'b F64) -> Complex64 {
        Complex64::m(*self, rc(*o))
    }
}

impl<'a, 'b> Div<&'b F64> for &'a Complex64 {
    type Output = Complex64;

    #[verifier::external_body]
    fn div(self, o: &'b F64) -> Complex64 {
        v_unscale(*self, *o)
    }
}

impl<'a, 'b> DivSpecImpl<&'b F64> for &'a Complex64 {
    open spec fn obeys_div_spec() -> bool {
        true
    }

    open spec fn div_req(self, o: &'b F64) -> bool {
        true
    }

    open spec fn div_spec(self, o: &'b F64) -> Complex64 {
        Complex64::m(*self, rc(F64::iv(*o)))
    }
}

impl Div<F64> for Complex64 {
    type Output = Complex64;

    #[verifier::external_body]
    fn div(self, o: F64) -> Complex64 {
        v_unscale(self, o)
    }
}

impl DivSpecImpl<F64> for Complex64 {
    open spec fn obeys_div_spec() -> bool {
        true
    }

    open spec fn div_req(self, o: F64) -> bool {
        true
    }

    open spec fn div_spec(self, o: F64) -> Complex64 {
        Complex64::m(self, rc(F64::iv(o)))
    }
}

pub fn v_scale(x: Complex64, o: F64) -> (r: Complex64)
    ensures
        r == Complex64::m(x, rc(o)),
{
    proof {
        let (p, q, s) = (re(x), im(x), o.v@);
        assert(p * 0real == 0real && q * 0real == 0real) by (nonlinear_arith);
    }
    Complex64 { re: x.re * o, im: x.im * o }
}

pub fn v_unscale(x: Complex64, o: F64) -> (r: Complex64)
    ensures
        r == Complex64::m(x, rc(F64::iv(o))),
{
    proof {
        let (p, q, s) = (re(x), im(x), rinv(o.v@));
        assert(p * 0real == 0real && q * 0real == 0real) by (nonlinear_arith);
    }
    Complex64 { re: x.re / o, im: x.im / o }
}

// ---- order and square root
impl vstd::std_specs::cmp::PartialEqSpecImpl for F64 {
    open spec fn obeys_eq_spec() -> bool {
        true
    }

    open spec fn eq_spec(&self, o: &F64) -> bool {
        self.v@ == o.v@
    }
}

impl ::core::cmp::PartialEq for F64 {
    #[verifier::external_body]
    fn eq(&self, o: &F64) -> bool {
        unimplemented!()
    }
}

impl vstd::std_specs::cmp::PartialOrdSpecImpl for F64 {
    open spec fn obeys_partial_cmp_spec() -> bool {
        true
    }

    open spec fn partial_cmp_spec(&self, o: &F64) -> Option<::core::cmp::Ordering> {
        if self.v@ < o.v@ {
            Some(::core::cmp::Ordering::Less)
        } else if self.v@ == o.v@ {
            Some(::core::cmp::Ordering::Equal)
        } else {
            Some(::core::cmp::Ordering::Greater)
        }
    }
}

impl ::core::cmp::PartialOrd for F64 {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &F64) -> Option<::core::cmp::Ordering> {
        unimplemented!()
    }
}

pub uninterp spec fn rsqrt(x: real) -> real;

#[verifier::external_body]
pub proof fn ax_sqrt(x: real)
    requires
        x >= 0real,
    ensures
        rsqrt(x) >= 0real,
        rsqrt(x) * rsqrt(x) == x,
{
}

impl F64 {
    pub fn sqrt(self) -> (r: F64)
        ensures
            r == fl(rsqrt(self.v@)),
    {
        F64 { v: Ghost(rsqrt(self.v@)) }
    }
}

// the absolute value
pub trait Norm: Ring {
    spec fn nrm(&self) -> real;

    fn norm(&self) -> (r: F64)
        ensures
            r == fl(self.nrm()),
    ;

    proof fn norm_law(x: Self)
        ensures
            x.nrm() >= 0real,
            (x.nrm() == 0real) == (x == Self::z()),
            Self::z() != Self::o(),
    ;
}

impl Norm for Complex64 {
    open spec fn nrm(&self) -> real {
        rsqrt(cnorm2(*self))
    }

    fn norm(&self) -> F64 {
        (self.re * self.re + self.im * self.im).sqrt()
    }

    proof fn norm_law(x: Complex64) {
        l_cnorm2(x);
        ax_sqrt(cnorm2(x));
        let q = rsqrt(cnorm2(x));
        assert((q == 0real) == (q * q == 0real)) by (nonlinear_arith);
    }
}

// ---- f32 and Complex32 as far as the conversions use them; a conversion keeps the value (no rounding)
#[derive(Copy)]
pub struct F32 {
    pub v: Ghost<real>,
}

impl ::core::clone::Clone for F32 {
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        *self
    }
}

#[derive(Copy)]
pub struct Complex32 {
    pub re: F32,
    pub im: F32,
}

impl ::core::clone::Clone for Complex32 {
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        *self
    }
}
