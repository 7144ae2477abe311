@@ declare_algebra!: src/algebra.rs macros and ClBasis
@module declare algebra.rs C02
@raw
pub enum Tok { Plus, Minus, Null }
// how often k occurs among the first n tokens
pub open spec fn occ(t: Seq<Tok>, k: Tok, n: int) -> nat
    decreases n
{
    if n <= 0 { 0 } else { occ(t, k, n - 1) + if t[n - 1] == k { 1nat } else { 0nat } }
}
// the null generators come last
pub open spec fn nulls_last(t: Seq<Tok>) -> bool {
    forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() && t[i] == Tok::Null ==> t[j] == Tok::Null
}
pub open spec fn all_null(t: Seq<Tok>) -> bool {
    forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == Tok::Null
}
// bit p of m says whether token p - s is k
pub open spec fn masks(m: usize, s: int, t: Seq<Tok>, k: Tok) -> bool {
    forall|p: nat| p < 64 ==> #[trigger] bit(m, p) == (s <= p < s + t.len() && t[p - s] == k)
}
@macrofn produce_mask_internal_plus value
@macrofn produce_mask_internal_minus value
@macrofn produce_mask_internal_null value
@macrofn produce_mask_plus value
@macrofn produce_mask_minus value
@macrofn produce_mask_null value
@macrofn count_items value
@macrofn order_check_end accept
@macrofn order_check accept
@macrofn impl_pga marker
@macrofn impl_split_signature marker
@macrofn impl_non_degenerate marker
@macrofn impl_complex_or_quaternionic marker
@macrofn impl_algebra_base decl
@raw C02
pub proof fn l_count(t: Seq<Tok>)
    requires t.len() <= 64
    ensures m_count_items(t) == t.len()
    decreases t.len()
{
    if t.len() >= 2 { l_count(t.subrange(1, t.len() as int)); }
}
pub proof fn l_masks_one(m: usize, s: usize, t: Seq<Tok>, k: Tok)
    requires t.len() == 1, s < 64, m == if t[0] == k { 1usize << s } else { 0usize << s }
    ensures masks(m, s as int, t, k)
{
    assert forall|p: nat| p < 64 implies #[trigger] bit(m, p) == (s <= p < s + t.len() && t[p - s] == k) by { l_bit_const(s, p); }
}
pub proof fn l_masks_step(m: usize, w: usize, s: usize, t: Seq<Tok>, k: Tok)
    requires t.len() >= 2, s + t.len() <= 64, masks(w, s + 1, t.subrange(1, t.len() as int), k),
        m == (if t[0] == k { 1usize << s } else { 0usize << s }) | w
    ensures masks(m, s as int, t, k)
{
    assert forall|p: nat| p < 64 implies #[trigger] bit(m, p) == (s <= p < s + t.len() && t[p - s] == k) by {
        l_bit_const(s, p);
        l_bit_or(if t[0] == k { 1usize << s } else { 0usize << s }, w, p);
    }
}
pub proof fn l_mask_plus(s: usize, t: Seq<Tok>)
    requires 1 <= t.len(), s + t.len() <= 64
    ensures masks(m_produce_mask_internal_plus(s, t), s as int, t, Tok::Plus)
    decreases t.len()
{
    let m = m_produce_mask_internal_plus(s, t);
    if t.len() == 1 { l_masks_one(m, s, t, Tok::Plus); }
    else {
        let u = t.subrange(1, t.len() as int);
        l_mask_plus((s + 1) as usize, u);
        l_masks_step(m, m_produce_mask_internal_plus((s + 1) as usize, u), s, t, Tok::Plus);
    }
}
pub proof fn l_mask_minus(s: usize, t: Seq<Tok>)
    requires 1 <= t.len(), s + t.len() <= 64
    ensures masks(m_produce_mask_internal_minus(s, t), s as int, t, Tok::Minus)
    decreases t.len()
{
    let m = m_produce_mask_internal_minus(s, t);
    if t.len() == 1 { l_masks_one(m, s, t, Tok::Minus); }
    else {
        let u = t.subrange(1, t.len() as int);
        l_mask_minus((s + 1) as usize, u);
        l_masks_step(m, m_produce_mask_internal_minus((s + 1) as usize, u), s, t, Tok::Minus);
    }
}
pub proof fn l_mask_null(s: usize, t: Seq<Tok>)
    requires 1 <= t.len(), s + t.len() <= 64
    ensures masks(m_produce_mask_internal_null(s, t), s as int, t, Tok::Null)
    decreases t.len()
{
    let m = m_produce_mask_internal_null(s, t);
    if t.len() == 1 { l_masks_one(m, s, t, Tok::Null); }
    else {
        let u = t.subrange(1, t.len() as int);
        l_mask_null((s + 1) as usize, u);
        l_masks_step(m, m_produce_mask_internal_null((s + 1) as usize, u), s, t, Tok::Null);
    }
}
pub proof fn l_order_end(t: Seq<Tok>)
    ensures m_order_check_end(t) == all_null(t)
    decreases t.len()
{
    if t.len() >= 2 {
        let u = t.subrange(1, t.len() as int);
        l_order_end(u);
        if all_null(u) && t[0] == Tok::Null { assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == Tok::Null by { if i > 0 { assert(u[i - 1] == t[i]); } } }
        if all_null(t) { assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] == Tok::Null by { assert(t[i + 1] == u[i]); } }
        assert(m_order_check_end(t) == (t[0] == Tok::Null && m_order_check_end(u)));
    } else if t.len() == 1 { assert(m_order_check_end(t) == (t[0] == Tok::Null)); }
}
pub proof fn l_order(t: Seq<Tok>)
    requires t.len() >= 1
    ensures m_order_check(t) == nulls_last(t)
    decreases t.len()
{
    if t.len() >= 2 {
        let u = t.subrange(1, t.len() as int);
        l_order(u);
        l_order_end(u);
        if t[0] == Tok::Null {
            assert(m_order_check(t) == m_order_check_end(u));
            if all_null(u) { assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() && t[i] == Tok::Null implies t[j] == Tok::Null by { assert(u[j - 1] == t[j]); } }
            if nulls_last(t) { assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] == Tok::Null by { assert(t[0] == Tok::Null); assert(t[i + 1] == u[i]); } }
        } else {
            assert(m_order_check(t) == m_order_check(u));
            if nulls_last(u) { assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() && t[i] == Tok::Null implies t[j] == Tok::Null by { if i > 0 { assert(u[i - 1] == t[i] && u[j - 1] == t[j]); } } }
            if nulls_last(t) { assert forall|i: int, j: int| #![trigger u[i], u[j]] 0 <= i < j < u.len() && u[i] == Tok::Null implies u[j] == Tok::Null by { assert(t[i + 1] == u[i] && t[j + 1] == u[j]); } }
        }
    }
}
// counts of set bits are counts of tokens
pub proof fn l_occ(m: usize, t: Seq<Tok>, k: Tok, n: nat)
    requires masks(m, 0, t, k), t.len() <= 64, n <= 64
    ensures cnt(m, n) == occ(t, k, if n <= t.len() { n as int } else { t.len() as int })
    decreases n
{
    if n > 0 { l_occ(m, t, k, (n - 1) as nat); assert(bit(m, (n - 1) as nat) == (n - 1 < t.len() && t[n - 1] == k)); }
}
// what the masks of a declared algebra satisfy
pub open spec fn declared(t: Seq<Tok>, d: usize, re: usize, im: usize, pr: usize) -> bool {
    &&& d == t.len()
    &&& masks(re, 0, t, Tok::Plus)
    &&& masks(im, 0, t, Tok::Minus)
    &&& masks(pr, 0, t, Tok::Null)
}
pub proof fn th_declared(t: Seq<Tok>)
    requires t.len() >= 1, m_order_check(t), t.len() <= 63
    ensures
        declared(t, decl_dim(t), decl_real_mask(t), decl_imag_mask(t), decl_proj_mask(t)),
        decl_basis_dim(t) == t.len(),
        decl_fits(t) == (t.len() <= 63),
        nulls_last(t),
{
    l_count(t);
    l_order(t);
    l_mask_plus(0, t);
    l_mask_minus(0, t);
    l_mask_null(0, t);
}
// the consequences every algebra is assumed to have (ClAlgebraBase::wf)
pub proof fn th_masks(t: Seq<Tok>, d: usize, re: usize, im: usize, pr: usize)
    requires 1 <= t.len() <= 63, nulls_last(t), declared(t, d, re, im, pr)
    ensures
        re & im == 0, re & pr == 0, im & pr == 0,
        re | im | pr == sub1(1usize << d),
        pc(re) == occ(t, Tok::Plus, t.len() as int), pc(im) == occ(t, Tok::Minus, t.len() as int), pc(pr) == occ(t, Tok::Null, t.len() as int),
        pc(re | im) <= d,
        re | im == sub1(1usize << (pc(re | im) as usize)),
{
    l_occ(re, t, Tok::Plus, 64); l_occ(im, t, Tok::Minus, 64); l_occ(pr, t, Tok::Null, 64);
    assert forall|i: nat| i < 64 implies #[trigger] bit(re & im, i) == bit(0, i) by { l_bit_or(re, im, i); l_bit_const(0, i); }
    l_bit_ext(re & im, 0);
    assert forall|i: nat| i < 64 implies #[trigger] bit(re & pr, i) == bit(0, i) by { l_bit_or(re, pr, i); l_bit_const(0, i); }
    l_bit_ext(re & pr, 0);
    assert forall|i: nat| i < 64 implies #[trigger] bit(im & pr, i) == bit(0, i) by { l_bit_or(im, pr, i); l_bit_const(0, i); }
    l_bit_ext(im & pr, 0);
    assert forall|i: nat| i < 64 implies #[trigger] bit(re | im | pr, i) == bit(sub1(1usize << d), i) by { l_bit_or(re | im, pr, i); l_bit_or(re, im, i); l_bit_const(d, i); }
    l_bit_ext(re | im | pr, sub1(1usize << d));
    let e = nnull(t, t.len() as int) as usize;
    l_nnull(t, t.len() as int);
    assert forall|i: nat| i < 64 implies #[trigger] bit(re | im, i) == bit(sub1(1usize << e), i) by { l_bit_or(re, im, i); l_bit_const(e, i); }
    l_bit_ext(re | im, sub1(1usize << e));
    l_ones(e, 64);
}
// where the null generators begin
pub open spec fn nnull(t: Seq<Tok>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else if t[n - 1] == Tok::Null { nnull(t, n - 1) } else { n }
}
pub proof fn l_nnull(t: Seq<Tok>, n: int)
    requires nulls_last(t), 0 <= n <= t.len(), n < t.len() ==> t[n] == Tok::Null
    ensures 0 <= nnull(t, n) <= n, forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i] == Tok::Null) == (i >= nnull(t, n))
    decreases n
{
    if n > 0 {
        if t[n - 1] == Tok::Null { l_nnull(t, n - 1); }
        else {
            assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] == Tok::Null) == (i >= n) by {
                if i < n - 1 && t[i] == Tok::Null { assert(t[n - 1] == Tok::Null); }
                if i > n { assert(t[n] == Tok::Null); }
            }
        }
    }
}
pub proof fn l_ones(e: usize, n: nat)
    requires e < 64, n <= 64
    ensures cnt(sub1(1usize << e), n) == if n <= e { n } else { e as nat }
    decreases n
{
    if n > 0 { l_ones(e, (n - 1) as nat); l_bit_const(e, (n - 1) as nat); }
}
// which optional traits a signature gets
pub proof fn th_nondeg(t: Seq<Tok>)
    requires t.len() >= 1
    ensures m_impl_non_degenerate(t) == (forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != Tok::Null)
    decreases t.len()
{
    if t.len() >= 2 {
        let u = t.subrange(1, t.len() as int);
        th_nondeg(u);
        let n = forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != Tok::Null;
        let k = forall|i: int| 0 <= i < u.len() ==> #[trigger] u[i] != Tok::Null;
        if t[0] != Tok::Null && k { assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != Tok::Null by { if i > 0 { assert(u[i - 1] == t[i]); } } }
        if n { assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] != Tok::Null by { assert(t[i + 1] == u[i]); } assert(t[0] != Tok::Null); }
        assert(m_impl_non_degenerate(t) == (t[0] != Tok::Null && m_impl_non_degenerate(u)));
    } else { assert(m_impl_non_degenerate(t) == (t[0] != Tok::Null)); }
}
pub open spec fn alternating(t: Seq<Tok>) -> bool {
    t.len() % 2 == 0 && t.len() >= 2 && forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == if i % 2 == 0 { Tok::Plus } else { Tok::Minus }
}
pub proof fn th_split_sig(t: Seq<Tok>)
    requires t.len() >= 1
    ensures m_impl_split_signature(t) == alternating(t)
    decreases t.len()
{
    if t.len() >= 3 {
        let u = t.subrange(2, t.len() as int);
        th_split_sig(u);
        if t[0] == Tok::Plus && t[1] == Tok::Minus && alternating(u) {
            assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == if i % 2 == 0 { Tok::Plus } else { Tok::Minus } by { if i >= 2 { assert(u[i - 2] == t[i]); } }
        }
        if alternating(t) { assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] == if i % 2 == 0 { Tok::Plus } else { Tok::Minus } by { assert(t[i + 2] == u[i]); } assert(t[0] == Tok::Plus && t[1] == Tok::Minus); }
        assert(m_impl_split_signature(t) == (t[0] == Tok::Plus && t[1] == Tok::Minus && m_impl_split_signature(u)));
    } else if t.len() == 2 {
        assert(m_impl_split_signature(t) == (t[0] == Tok::Plus && t[1] == Tok::Minus));
        if alternating(t) { assert(t[0] == Tok::Plus && t[1] == Tok::Minus); }
    }
}
pub proof fn th_other_traits(t: Seq<Tok>)
    requires 1 <= t.len() <= 63
    ensures
        m_impl_complex_or_quaternionic(t) == (t == seq![Tok::Minus] || t == seq![Tok::Minus, Tok::Minus]),
        m_impl_pga(t) == (t.len() >= 2 && t[t.len() - 1] == Tok::Null && forall|i: int| 0 <= i < t.len() - 1 ==> t[i] == Tok::Plus),
        decl_pga_dim(t) == t.len() - 1,
{
    l_count(t);
    if m_impl_complex_or_quaternionic(t) { assert(t =~= seq![Tok::Minus] || t =~= seq![Tok::Minus, Tok::Minus]); }
}
// [-] and [-,-] are the division algebras
pub proof fn th_isdiv(t: Seq<Tok>)
    requires 1 <= t.len() <= 63, m_impl_complex_or_quaternionic(t)
    ensures isdiv(decl_dim(t), decl_imag_mask(t), decl_proj_mask(t))
{
    th_other_traits(t);
    if t == seq![Tok::Minus] {
        assert(decl_dim(seq![Tok::Minus]) == 1) by (compute);
        assert(decl_imag_mask(seq![Tok::Minus]) == 1) by (compute);
        assert(decl_proj_mask(seq![Tok::Minus]) == 0) by (compute);
    } else {
        assert(decl_dim(seq![Tok::Minus, Tok::Minus]) == 2) by (compute);
        assert(decl_imag_mask(seq![Tok::Minus, Tok::Minus]) == 3) by (compute);
        assert(decl_proj_mask(seq![Tok::Minus, Tok::Minus]) == 0) by (compute);
    }
}
pub proof fn l_mask_bits()
    ensures
        forall|n: usize, m: usize| n < 64 ==> (#[trigger] ((1usize << n) & m) != 0) == bit(m, n as nat),
{
    assert forall|n: usize, m: usize| n < 64 implies (#[trigger] ((1usize << n) & m) != 0) == bit(m, n as nat) by {
        assert((((1usize << n) & m) != 0) == ((m >> n) & 1 == 1)) by (bit_vector) requires n < 64;
    }
}
pub proof fn l_shl_lt()
    ensures forall|n: usize, d: usize| n < d <= 63 ==> #[trigger] (1usize << n) < #[trigger] (1usize << d),
{
    assert forall|n: usize, d: usize| n < d <= 63 implies #[trigger] (1usize << n) < #[trigger] (1usize << d) by {
        assert((1usize << n) < (1usize << d)) by (bit_vector) requires n < d <= 63;
    }
}
@type SplitSignature
@type NonDegenerate
@type PGAlgebra
@type ComplexAlgebra
@type QuaternionicAlgebra
@type DivisionAlgebra
@fn make_array
@sub std::mem::MaybeUninit::<[T; N]>::uninit() =>> VUninit::<T, N>::uninit()
@sub .as_mut_ptr().cast::<T>().wrapping_add(i).write(f(i)) =>> .v_write(i, f(i))
@sub unsafe { =>> {
@requires
    forall|i: usize| i < N ==> call_requires(f, (i,)),
@ensures
    forall|i: int| 0 <= i < N ==> call_ensures(f, (i as usize,), #[trigger] r@[i]),
@loop 0
@inv
    ret.c().len() == N,
    forall|j: usize| j < N ==> call_requires(f, (j,)),
    forall|j: int| 0 <= j < i ==> (#[trigger] ret.c()[j]).is_some() && call_ensures(f, (j as usize,), ret.c()[j].unwrap()),
@trait ClBasis
@fn basis
@addprops C10
@free Self_: ClAlgebra, const DIM: usize
@requires
    Self_::ok(), DIM == Self_::sdim(),
@ensures
    forall|i: int| 0 <= i < DIM ==> (#[trigger] r@[i]).wf() && r@[i].v() == blade(N::<Self_>() as nat, (1usize << (i as usize)) as int, T::o()),
@entry
    proof { Self_::wf(); l_shl_lt(); }
@closure 0
|p: usize| -> (b: Multivector<T, Self_>)
  requires p < DIM, DIM == Self_::sdim(), Self_::ok(), DIM <= 63,
  ensures b.wf(), b.v() == blade(N::<Self_>() as nat, (1usize << p) as int, T::o()),
@fn basis_sparse
@addprops C10
@free Self_: ClAlgebra, const DIM: usize
@requires
    Self_::ok(), DIM == Self_::sdim(),
@ensures
    forall|i: int| 0 <= i < DIM ==> (#[trigger] r@[i]).wf() && r@[i].v() == blade(N::<Self_>() as nat, (1usize << (i as usize)) as int, T::o()),
@entry
    proof { Self_::wf(); l_shl_lt(); }
@closure 0
|p: usize| -> (b: SparseMultivector<T, Self_>)
  requires p < DIM, DIM == Self_::sdim(), Self_::ok(), DIM <= 63,
  ensures b.wf(), b.v() == blade(N::<Self_>() as nat, (1usize << p) as int, T::o()),
@fn signature
@requires
    Self::ok(), DIM == Self::sdim(),
@ensures
    forall|i: int| 0 <= i < DIM ==> #[trigger] r@[i] == if bit(Self::sreal(), i as nat) { 1int } else if bit(Self::simag(), i as nat) { -1int } else { 0int },
@entry
    proof { Self::wf(); l_mask_bits(); }
@closure 0
|p: usize| -> (b: i8)
  requires p < DIM, DIM == Self::sdim(), Self::ok(), DIM <= 63,
  ensures b == if bit(Self::sreal(), p as nat) { 1int } else if bit(Self::simag(), p as nat) { -1int } else { 0int },
@fn signaturef
@free Self_: ClAlgebra, const DIM: usize
@requires
    Self_::ok(), DIM == Self_::sdim(),
@ensures
    forall|i: int| 0 <= i < DIM ==> #[trigger] r@[i] == if bit(Self_::sreal(), i as nat) { fl(1real) } else if bit(Self_::simag(), i as nat) { fl(-1real) } else { fl(0real) },
@entry
    proof { Self_::wf(); l_mask_bits(); }
@closure 0
|p: usize| -> (b: F64)
  requires p < DIM, DIM == Self_::sdim(), Self_::ok(), DIM <= 63,
  ensures b == if bit(Self_::sreal(), p as nat) { fl(1real) } else if bit(Self_::simag(), p as nat) { fl(-1real) } else { fl(0real) },
@end
