@@ blade signs: src/types.rs, src/precomputed.rs, src/algebra.rs
@module types types.rs C01 C03
@raw
pub type IndexType = usize;
@type Sign
#[derive(Clone, Copy)]
@raw
pub open spec fn sval(s: Sign) -> int { match s { Sign::Null => 0, Sign::Plus => 1, Sign::Minus => -1 } }
impl MulSpecImpl<Sign> for Sign {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: Sign) -> bool { true }
    open spec fn mul_spec(self, rhs: Sign) -> Sign { arbitrary() }
}
@impl Mul for Sign
@sub ops::Mul =>> Mul
@fn mul
@ensures
    sval(r) == sval(self) * sval(rhs), r == smul(self, rhs),
@entry
    proof { lemma_sign_mul(self, rhs); }
@raw
proof fn lemma_sign_mul(a: Sign, b: Sign)
    ensures -1 <= sval(a) * sval(b) <= 1, sval(a) * sval(b) == sval(smul(a, b)), (a as i8) as int == sval(a), (b as i8) as int == sval(b)
{
    let (x, y) = (sval(a), sval(b));
    assert(1 * y == y && 0 * y == 0 && -1 * y == -y) by (nonlinear_arith);
    assert(x * 0 == 0) by (nonlinear_arith);
    assert(-1 <= x * y <= 1) by (nonlinear_arith) requires -1 <= x <= 1, -1 <= y <= 1;
}

@module precomputed precomputed.rs C01
@const AC_PRODUCT_SIGNS table
  AC_PRODUCT_SIGNS@.len() == 7,
  forall|d: int| 0 <= d < 7 ==> (#[trigger] AC_PRODUCT_SIGNS@[d])@ == AC_PRODUCT_SIGNS_tab()[d],
@raw
pub open spec fn row_ok(row: Seq<u64>, d: nat, a: nat, b: nat) -> bool
    decreases b
{
    b == 0 || (((row[a as int] >> ((b - 1) as u64)) & 1 == 1) == inv(a as usize, (b - 1) as usize, d) && row_ok(row, d, a, (b - 1) as nat))
}
pub open spec fn rows_ok(row: Seq<u64>, d: nat, n: nat, a: nat) -> bool
    decreases a
{
    a == 0 || (row_ok(row, d, (a - 1) as nat, n) && rows_ok(row, d, n, (a - 1) as nat))
}
pub proof fn lemma_row(row: Seq<u64>, d: nat, a: nat, n: nat, b: nat)
    requires row_ok(row, d, a, n), b < n
    ensures ((row[a as int] >> (b as u64)) & 1 == 1) == inv(a as usize, b as usize, d)
    decreases n
{ if b < n - 1 { lemma_row(row, d, a, (n - 1) as nat, b); } }
pub proof fn lemma_rows(row: Seq<u64>, d: nat, n: nat, m: nat, a: nat, b: nat)
    requires rows_ok(row, d, n, m), a < m, b < n
    ensures ((row[a as int] >> (b as u64)) & 1 == 1) == inv(a as usize, b as usize, d)
    decreases m
{ if a < m - 1 { lemma_rows(row, d, n, (m - 1) as nat, a, b); } else { lemma_row(row, d, a, n, b); } }
@raw C01
pub proof fn lemma_table_computed()
    ensures
        AC_PRODUCT_SIGNS_tab().len() == 7,
        AC_PRODUCT_SIGNS_tab()[1].len() == 2,
        AC_PRODUCT_SIGNS_tab()[2].len() == 4,
        AC_PRODUCT_SIGNS_tab()[3].len() == 8,
        AC_PRODUCT_SIGNS_tab()[4].len() == 16,
        AC_PRODUCT_SIGNS_tab()[5].len() == 32,
        AC_PRODUCT_SIGNS_tab()[6].len() == 64,
        rows_ok(AC_PRODUCT_SIGNS_tab()[1], 1, 2, 2),
        rows_ok(AC_PRODUCT_SIGNS_tab()[2], 2, 4, 4),
        rows_ok(AC_PRODUCT_SIGNS_tab()[3], 3, 8, 8),
        rows_ok(AC_PRODUCT_SIGNS_tab()[4], 4, 16, 16),
        rows_ok(AC_PRODUCT_SIGNS_tab()[5], 5, 32, 32),
        rows_ok(AC_PRODUCT_SIGNS_tab()[6], 6, 64, 64),
{
    assert(AC_PRODUCT_SIGNS_tab().len() == 7) by (compute_only);
    assert(AC_PRODUCT_SIGNS_tab()[1].len() == 2) by (compute_only);
    assert(AC_PRODUCT_SIGNS_tab()[2].len() == 4) by (compute_only);
    assert(AC_PRODUCT_SIGNS_tab()[3].len() == 8) by (compute_only);
    assert(AC_PRODUCT_SIGNS_tab()[4].len() == 16) by (compute_only);
    assert(AC_PRODUCT_SIGNS_tab()[5].len() == 32) by (compute_only);
    assert(AC_PRODUCT_SIGNS_tab()[6].len() == 64) by (compute_only);
    assert(rows_ok(AC_PRODUCT_SIGNS_tab()[1], 1, 2, 2)) by (compute_only);
    assert(rows_ok(AC_PRODUCT_SIGNS_tab()[2], 2, 4, 4)) by (compute_only);
    assert(rows_ok(AC_PRODUCT_SIGNS_tab()[3], 3, 8, 8)) by (compute_only);
    assert(rows_ok(AC_PRODUCT_SIGNS_tab()[4], 4, 16, 16)) by (compute_only);
    assert(rows_ok(AC_PRODUCT_SIGNS_tab()[5], 5, 32, 32)) by (compute_only);
    assert(rows_ok(AC_PRODUCT_SIGNS_tab()[6], 6, 64, 64)) by (compute_only);
}
pub proof fn lemma_table(d: usize, a: usize, b: usize)
    requires 1 <= d <= 6, a < (1usize << d), b < (1usize << d)
    ensures
        AC_PRODUCT_SIGNS_tab().len() == 7,
        a < AC_PRODUCT_SIGNS_tab()[d as int].len(),
        b < 64,
        ((AC_PRODUCT_SIGNS_tab()[d as int][a as int] >> (b as u64)) & 1 == 1) == inv(a, b, 64),
{
    lemma_table_computed();
    assert((1usize << 1) == 2 && (1usize << 2) == 4 && (1usize << 3) == 8 && (1usize << 4) == 16 && (1usize << 5) == 32 && (1usize << 6) == 64) by (bit_vector);
    l_inv_hi(a, b, d as nat, 64);
    let n = (1usize << d) as nat;
    lemma_rows(AC_PRODUCT_SIGNS_tab()[d as int], d as nat, n, n, a as nat, b as nat);
}

@module algebra algebra.rs C01
@raw
pub open spec fn alg<A: ClAlgebraBase>() -> bool {
    A::ok()
}
pub open spec fn N<A: ClAlgebraBase>() -> usize { (1usize << A::sdim()) }
// the number of non-null generators
pub open spec fn nn<A: ClAlgebraBase>() -> usize { pc(A::sreal() | A::simag()) as usize }
@trait ClAlgebraBase
@sub ClAlgebraBase =>> ClAlgebraBase: Sized
    spec fn ok() -> bool;
    spec fn sdim() -> usize;
    spec fn sreal() -> usize;
    spec fn simag() -> usize;
    spec fn sproj() -> usize;
    spec fn sname(n: int) -> Seq<char>;
    proof fn wf()
        requires Self::ok()
        ensures
            1 <= Self::sdim() <= 63,
            Self::sreal() & Self::simag() == 0,
            Self::sreal() & Self::sproj() == 0,
            Self::simag() & Self::sproj() == 0,
            Self::sreal() | Self::simag() | Self::sproj() == sub1(1usize << Self::sdim()),
            pc(Self::sreal() | Self::simag()) <= Self::sdim(),
            Self::sreal() | Self::simag() == sub1(1usize << (pc(Self::sreal() | Self::simag()) as usize));
@fn dim
@requires
    Self::ok(),
@ensures
    r == Self::sdim(),
@fn real_mask
@requires
    Self::ok(),
@ensures
    r == Self::sreal(),
@fn imag_mask
@requires
    Self::ok(),
@ensures
    r == Self::simag(),
@fn proj_mask
@requires
    Self::ok(),
@ensures
    r == Self::sproj(),
@fn axis_name
@props C20
@requires
    Self::ok(), n < Self::sdim(),
@ensures
    r.s() == Self::sname(n as int),
@fn real_dim
@addprops C02
@requires
    Self::ok(),
@ensures
    r == pc(Self::sreal()),
@fn imag_dim
@addprops C02
@requires
    Self::ok(),
@ensures
    r == pc(Self::simag()),
@fn proj_dim
@addprops C02
@requires
    Self::ok(),
@ensures
    r == pc(Self::sproj()),
@end
@raw
// the label of a blade: the names of its generators in descending order, and in ascending order
pub open spec fn label<A: ClAlgebraBase>(idx: usize) -> Seq<char> {
    joined(nmdesc(idx, |i: int| A::sname(i), A::sdim() as nat), "^"@)
}
pub open spec fn label_rev<A: ClAlgebraBase>(idx: usize) -> Seq<char> {
    joined(nmasc(idx, |i: int| A::sname(i), A::sdim() as nat), "^"@)
}
@trait ClAlgebra
@fn blade_label
@props C20
@requires
    Self::ok(),
@ensures
    r.s() == label::<Self>(idx),
@fn blade_label_rev
@props C20
@requires
    Self::ok(),
@ensures
    r.s() == label_rev::<Self>(idx),
@fn ac_product_sign
@requires
    Self::ok(), a < N::<Self>(), b < N::<Self>(),
@ensures
    r == acs(a, b),
@fn ac_negated_product_sign
@requires
    Self::ok(), a < N::<Self>(), b < N::<Self>(),
@ensures
    r == pm(!inv(a, b, 64)),
@fn blade_wedge_product_sign
@requires
    Self::ok(), a < N::<Self>(), b < N::<Self>(),
@ensures
    r == wedges(a, b),
@fn blade_geo_product_sign
@requires
    Self::ok(), a < N::<Self>(), b < N::<Self>(),
@ensures
    r == geos(a, b, Self::simag(), Self::sproj()),
@fn index_iter
@addprops C02
@requires
    Self::ok(),
@ensures
    r.pos() == 0,
    r.all() == Seq::new(N::<Self>() as nat, |i: int| i as usize),
@fn grade_index_iter
@props C09
@requires
    Self::ok(),
@ensures
    r.pos() == 0,
    r.all() == gall(Self::sdim() as int, weight as nat),
@end
@fn ac_product_sign
@requires
    1 <= dim <= 63, a < (1usize << dim), b < (1usize << dim),
@ensures
    r == acs(a, b),
@loop 0
@inv
    1 <= dim <= 63, a < (1usize << dim), b < (1usize << dim),
    it0.all() == Seq::new((dim - 1) as nat, |i: int| (dim - 1 - i) as usize),
    transpositions == ovdown(a, b, (dim - it0.pos()) as nat, dim as nat, 64),
    transpositions <= 64 * it0.pos(),
@begin
    proof { l_ov_cnt(a, b, s, 64); }
@after
    proof {
        l_ovdown_sum(a, b, 1, dim as nat, 64);
        l_count_sign(a, b, dim as nat);
        assert(transpositions & 1 == 0 <==> transpositions % 2 == 0) by (bit_vector);
    }
@impl ClAlgebra for AB
@fn blade_label
@props C20
@closure 0
|p: &usize| -> (b: bool)
  requires *p < 64,
  ensures b == (idx & (1usize << *p) != 0),
@closure 1
|p: usize| -> (t: String)
  requires AB::ok(), p < AB::sdim(),
  ensures t.s() == AB::sname(p as int),
@entry
    proof { broadcast use b_sel; AB::wf(); }
@exit
    proof {
        let nm = |i: int| AB::sname(i);
        let m = jsrc(r);
        let f = iprev::<String, usize>(m);
        let s = isrc::<usize, usize>(f);
        let d = AB::sdim() as nat;
        assert forall|i: int| 0 <= i < f.fl().len() implies #[trigger] f.fl()[i] == bit(idx, (d - 1 - i) as nat) by { l_bit_at(idx, s[i]); }
        assert forall|j: int| 0 <= j < texts(m.all()).len() implies #[trigger] texts(m.all())[j] == nm(sel(s, f.fl())[j] as int) by {
            assert(m.all()[j].s() == AB::sname(f.all()[j] as int));
        }
        l_desc(idx, nm, d, s, f.fl(), texts(m.all()));
        l_from(idx, nm, d, 0);
        assert(nmfrom(idx, nm, d, 0) + nmdesc(idx, nm, 0) =~= nmfrom(idx, nm, d, 0));
    }
@fn blade_label_rev
@props C20
@closure 0
|p: &usize| -> (b: bool)
  requires *p < 64,
  ensures b == (idx & (1usize << *p) != 0),
@closure 1
|p: usize| -> (t: String)
  requires AB::ok(), p < AB::sdim(),
  ensures t.s() == AB::sname(p as int),
@entry
    proof { broadcast use b_sel; AB::wf(); }
@exit
    proof {
        let nm = |i: int| AB::sname(i);
        let m = jsrc(r);
        let f = iprev::<String, usize>(m);
        let s = isrc::<usize, usize>(f);
        let d = AB::sdim() as nat;
        assert forall|i: int| 0 <= i < f.fl().len() implies #[trigger] f.fl()[i] == bit(idx, i as nat) by { l_bit_at(idx, s[i]); }
        assert forall|j: int| 0 <= j < texts(m.all()).len() implies #[trigger] texts(m.all())[j] == nm(sel(s, f.fl())[j] as int) by {
            assert(m.all()[j].s() == AB::sname(f.all()[j] as int));
        }
        l_asc(idx, nm, s, f.fl(), texts(m.all()));
    }
@fn ac_product_sign
@entry
    proof {
        AB::wf();
        if AB::sdim() <= 6 { lemma_table(AB::sdim(), a, b); }
        let t = AC_PRODUCT_SIGNS_tab()[AB::sdim() as int][a as int] >> (b as u64);
        assert(t & 1 == 0 || t & 1 == 1) by (bit_vector);
    }
@fn ac_negated_product_sign
@entry
    proof {
        AB::wf();
        if AB::sdim() <= 6 { lemma_table(AB::sdim(), a, b); }
        let t = AC_PRODUCT_SIGNS_tab()[AB::sdim() as int][a as int] >> (b as u64);
        assert(t & 1 == 0 || t & 1 == 1) by (bit_vector);
    }
@fn blade_wedge_product_sign
@fn blade_geo_product_sign
@fn index_iter
@addprops C02
@entry
    proof { AB::wf(); }
@fn grade_index_iter
@props C09
@sub index_utils::grade_iter(AB::dim(), weight) =>> grade_iter(AB::dim(), weight).v_iter()
@entry
    proof { AB::wf(); }
