@@ generator names and the textual form of multivectors: src/algebra.rs, src/lib.rs
@module names algebra.rs C20
@expandwith axis_name_func [+], ["@@AXES"]
@fn axis_name
@sub ["@@AXES"] =>> axes
@sub fn axis_name(n: usize) =>> pub fn axis_name_given<const K: usize>(axes: [&str; K], n: usize)
@requires
    n < K,
@ensures
    r.s() == axes@[n as int]@,
@module names algebra.rs C20
@expandwith axis_name_func [+], []
@fn axis_name
@sub fn axis_name(n: usize) =>> pub fn axis_name_auto(n: usize)
@ensures
    r.s() == "e"@ + dec(n as nat),
@entry
    proof { broadcast use ax_mkstring; }
@module shown lib.rs C20
@expand impl_formatting
@raw
// one term of a shown multivector
pub open spec fn tm<T: Ring, A: ClAlgebra>(sh: spec_fn(T, Params) -> Seq<char>, p: Params, i: usize, c: T) -> Seq<char> {
    let d = if fp_alt(p) { sg(revs(i), c) } else { c };
    term(sh(d, p), fp_plus(p) || hasc(sh(d, fp_plain()), '+', '-'), if fp_alt(p) { label_rev::<A>(i) } else { label::<A>(i) })
}
pub open spec fn tms<T: Ring, A: ClAlgebra>(sh: spec_fn(T, Params) -> Seq<char>, p: Params, q: Seq<(usize, &T)>) -> Seq<Seq<char>> {
    Seq::new(q.len(), |j: int| tm::<T, A>(sh, p, q[j].0, *q[j].1))
}
// the non-zero terms separated by plus signs, or the zero coefficient
pub open spec fn shown_as<T: Ring, A: ClAlgebra>(sh: spec_fn(T, Params) -> Seq<char>, p: Params, q: Seq<(usize, &T)>) -> Seq<char> {
    if q.len() == 0 { sh(T::z(), p) } else { joined(tms::<T, A>(sh, p, q), " + "@) }
}
pub open spec fn mvwrote<T: Ring, A: ClAlgebra>(sh: spec_fn(T, Params) -> Seq<char>, v: Seq<T>, f0: Formatter, f1: Formatter, r: FmtResult) -> bool {
    r is Ok ==> exists|s: Seq<(usize, &T)>| #[trigger] enums(s, v) && f1.out() == f0.out() + shown_as::<T, A>(sh, f0.params(), nz(s, s.len() as int))
}
pub proof fn l_tms_push<T: Ring, A: ClAlgebra>(sh: spec_fn(T, Params) -> Seq<char>, p: Params, q: Seq<(usize, &T)>, x: (usize, &T))
    ensures
        tms::<T, A>(sh, p, q.push(x)) == tms::<T, A>(sh, p, q).push(tm::<T, A>(sh, p, x.0, *x.1)),
{
    assert(tms::<T, A>(sh, p, q.push(x)) =~= tms::<T, A>(sh, p, q).push(tm::<T, A>(sh, p, x.0, *x.1)));
}
@impl Display for MultivectorBase
@sub Display for MultivectorBase =>> MultivectorBase
@fn fmt
@sub fn fmt =>> pub fn fmt_display
@sub std::fmt::Formatter<'_> =>> Formatter<'_>
@sub std::fmt::Result =>> FmtResult
@requires
    self.wf(),
@ensures
    mvwrote::<T, A>(|c: T, p: Params| c.dtext(p), self.v(), *old(f), *final(f), r),
@entry
    hide(joined); hide(label); hide(label_rev); hide(hasc); hide(enums);
    let ghost sh = |c: T, p: Params| c.dtext(p);
    let ghost p0 = f.params();
    let ghost o0 = f.out();
@loop 0
@inv
    self.wf(), enums(it0.all(), self.v()), f.params() == p0,
    sh == (|c: T, p: Params| c.dtext(p)),
    first == (nz(it0.all(), it0.pos()).len() == 0),
    f.out() == o0 + joined(tms::<T, A>(sh, p0, nz(it0.all(), it0.pos())), " + "@),
@endbody
    proof {
        let (s, k) = (it0.all(), it0.pos() - 1);
        let q = nz(s, k);
        l_tms_push::<T, A>(sh, p0, q, s[k]);
        l_joined_push(tms::<T, A>(sh, p0, q), " + "@, tm::<T, A>(sh, p0, idx, *coeff));
        let d = if fp_alt(p0) { sg(revs(idx), *coeff) } else { *coeff };
        l_written(o0, joined(tms::<T, A>(sh, p0, q), " + "@), q.len() > 0, " + "@, sh(d, p0), fp_plus(p0) || hasc(sh(d, fp_plain()), '+', '-'),
            if fp_alt(p0) { label_rev::<A>(idx) } else { label::<A>(idx) }, f.out());
    }
@before
    proof { reveal(joined); assert(o0 + Seq::<char>::empty() =~= o0); assert(tms::<T, A>(sh, p0, nz(it0.all(), 0)) =~= Seq::<Seq<char>>::empty()); }
@after
    proof { reveal(joined); assert(o0 + Seq::<char>::empty() =~= o0); assert(tms::<T, A>(sh, p0, Seq::empty()) =~= Seq::<Seq<char>>::empty()); }
@end
@impl LowerExp for MultivectorBase
@sub LowerExp for MultivectorBase =>> MultivectorBase
@fn fmt
@sub fn fmt =>> pub fn fmt_lower
@sub std::fmt::Formatter<'_> =>> Formatter<'_>
@sub std::fmt::Result =>> FmtResult
@requires
    self.wf(),
@ensures
    mvwrote::<T, A>(|c: T, p: Params| c.etext(p), self.v(), *old(f), *final(f), r),
@entry
    hide(joined); hide(label); hide(label_rev); hide(hasc); hide(enums);
    let ghost sh = |c: T, p: Params| c.etext(p);
    let ghost p0 = f.params();
    let ghost o0 = f.out();
@loop 0
@inv
    self.wf(), enums(it0.all(), self.v()), f.params() == p0,
    sh == (|c: T, p: Params| c.etext(p)),
    first == (nz(it0.all(), it0.pos()).len() == 0),
    f.out() == o0 + joined(tms::<T, A>(sh, p0, nz(it0.all(), it0.pos())), " + "@),
@endbody
    proof {
        let (s, k) = (it0.all(), it0.pos() - 1);
        let q = nz(s, k);
        l_tms_push::<T, A>(sh, p0, q, s[k]);
        l_joined_push(tms::<T, A>(sh, p0, q), " + "@, tm::<T, A>(sh, p0, idx, *coeff));
        let d = if fp_alt(p0) { sg(revs(idx), *coeff) } else { *coeff };
        l_written(o0, joined(tms::<T, A>(sh, p0, q), " + "@), q.len() > 0, " + "@, sh(d, p0), fp_plus(p0) || hasc(sh(d, fp_plain()), '+', '-'),
            if fp_alt(p0) { label_rev::<A>(idx) } else { label::<A>(idx) }, f.out());
    }
@before
    proof { reveal(joined); assert(o0 + Seq::<char>::empty() =~= o0); assert(tms::<T, A>(sh, p0, nz(it0.all(), 0)) =~= Seq::<Seq<char>>::empty()); }
@after
    proof { reveal(joined); assert(o0 + Seq::<char>::empty() =~= o0); assert(tms::<T, A>(sh, p0, Seq::empty()) =~= Seq::<Seq<char>>::empty()); }
@end
@impl UpperExp for MultivectorBase
@sub UpperExp for MultivectorBase =>> MultivectorBase
@fn fmt
@sub fn fmt =>> pub fn fmt_upper
@sub std::fmt::Formatter<'_> =>> Formatter<'_>
@sub std::fmt::Result =>> FmtResult
@requires
    self.wf(),
@ensures
    mvwrote::<T, A>(|c: T, p: Params| c.utext(p), self.v(), *old(f), *final(f), r),
@entry
    hide(joined); hide(label); hide(label_rev); hide(hasc); hide(enums);
    let ghost sh = |c: T, p: Params| c.utext(p);
    let ghost p0 = f.params();
    let ghost o0 = f.out();
@loop 0
@inv
    self.wf(), enums(it0.all(), self.v()), f.params() == p0,
    sh == (|c: T, p: Params| c.utext(p)),
    first == (nz(it0.all(), it0.pos()).len() == 0),
    f.out() == o0 + joined(tms::<T, A>(sh, p0, nz(it0.all(), it0.pos())), " + "@),
@endbody
    proof {
        let (s, k) = (it0.all(), it0.pos() - 1);
        let q = nz(s, k);
        l_tms_push::<T, A>(sh, p0, q, s[k]);
        l_joined_push(tms::<T, A>(sh, p0, q), " + "@, tm::<T, A>(sh, p0, idx, *coeff));
        let d = if fp_alt(p0) { sg(revs(idx), *coeff) } else { *coeff };
        l_written(o0, joined(tms::<T, A>(sh, p0, q), " + "@), q.len() > 0, " + "@, sh(d, p0), fp_plus(p0) || hasc(sh(d, fp_plain()), '+', '-'),
            if fp_alt(p0) { label_rev::<A>(idx) } else { label::<A>(idx) }, f.out());
    }
@before
    proof { reveal(joined); assert(o0 + Seq::<char>::empty() =~= o0); assert(tms::<T, A>(sh, p0, nz(it0.all(), 0)) =~= Seq::<Seq<char>>::empty()); }
@after
    proof { reveal(joined); assert(o0 + Seq::<char>::empty() =~= o0); assert(tms::<T, A>(sh, p0, Seq::empty()) =~= Seq::<Seq<char>>::empty()); }
@end
