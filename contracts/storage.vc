@@ coefficient storages: src/index_utils.rs, src/coeff_storage.rs
@module index_utils index_utils.rs C09 C07
@type GradeIter
@impl GradeIter
@fn refresh
@ret r
@requires
    ginv(*old(self)), -900 <= len <= 63,
    old(self).subiter is Some ==> len >= old(self).weight - 164,
@ensures
    ginv(*final(self)), final(self).weight == old(self).weight, final(self).pos == len - 1,
    grest(*final(self)) == gall(len as int, old(self).weight as nat),
@decreases *old(self)
@end
@impl Iterator for GradeIter
@sub std::iter::Iterator for GradeIter =>> GradeIter
@fn next
@sub Option<Self::Item> =>> Option<IndexType>
@ret r
@requires
    ginv(*old(self)),
@ensures
    ginv(*final(self)), final(self).weight == old(self).weight, final(self).pos <= old(self).pos,
    grest(*old(self)).len() == 0 ==> r is None && grest(*final(self)).len() == 0,
    grest(*old(self)).len() > 0 ==> r == Some(grest(*old(self))[0]) && grest(*final(self)) == grest(*old(self)).subrange(1, grest(*old(self)).len() as int),
@decreases old(self).weight, old(self).pos + 1000
@hook beforecall as_mut 0
    proof {
        let sub = *self.subiter->0;
        assert(grest(*self) == gtop(grest(sub), self.pos as int) + gall(self.pos as int, self.weight as nat));
        assert(grest(*self) =~= grest(*old(self)));
    }
    let ghost sub0 = grest(*self.subiter->0);
    let ghost pos0 = self.pos as int;
    let ghost all0 = grest(*self);
@exit
    proof {
        if sub0.len() > 0 {
            assert(all0[0] == gtop(sub0, pos0)[0]);
            assert(grest(*self) =~= all0.subrange(1, all0.len() as int));
        }
    }
@end
@fn grade_iter
@requires
    len <= 63,
@ensures
    ginv(r), r.pos == len - 1, r.weight == weight, r.subiter is None,
    grest(r) == gall(len as int, weight as nat),
@raw
impl GradeIter {
    // an iterator driven to its end: next() until None
    pub fn v_iter(self) -> (r: CIter<usize>)
        requires ginv(self),
        ensures r.pos() == 0, r.all() == grest(self),
    {
        let mut g = self;
        let mut v: Vec<usize> = Vec::new();
        loop
            invariant ginv(g), v@ + grest(g) == grest(self),
            decreases grest(g).len(),
        {
            let ghost before = grest(g);
            let ghost vb = v@;
            match g.next() {
                None => {
                    proof { assert(v@ + grest(g) =~= v@); }
                    return CIter::v_from(v);
                }
                Some(x) => {
                    v.push(x);
                    proof { assert(v@ + grest(g) =~= vb + before); }
                }
            }
        }
    }
    pub fn map<Y, F: Fn(usize) -> Y>(self, f: F) -> (r: CIter<Y>)
        requires
            ginv(self),
            forall|i: int| 0 <= i < grest(self).len() ==> call_requires(f, (#[trigger] grest(self)[i],)),
        ensures
            r.pos() == 0,
            isrc::<Y, usize>(r) == grest(self),
            r.all().len() == grest(self).len(),
            forall|i: int|
                #![trigger r.all()[i]]
                0 <= i < grest(self).len() ==> call_ensures(f, (grest(self)[i],), r.all()[i]),
    { self.v_iter().map(f) }
}

@module coeff_storage coeff_storage.rs C07 C08 C09
@raw
pub open spec fn dpow(dim: usize) -> nat { (1usize << dim) as nat }
@trait CoeffStorage
@sub CoeffStorage<T> =>> CoeffStorage<T: Ring>
    spec fn v(&self) -> Seq<T>;
    spec fn wf(&self) -> bool;
    spec fn dim_ok(dim: usize) -> bool;
    proof fn eq_law(&self, o: &Self)
        ensures
            self.wf() && o.wf() && self.v().len() == o.v().len() ==> self.eq_req(o),
            self.wf() && o.wf() && self.v().len() == o.v().len() ==> self.eqs(o) == (self.v() == o.v());
@fn new
@requires
    Self::dim_ok(dim), dim <= 63,
@ensures
    r.wf(), r.v() == zeros::<T>(dpow(dim)),
@fn get_by_idx
@requires
    self.wf(),
@ensures
    r == if idx < self.v().len() { self.v()[idx as int] } else { T::z() },
@fn set_by_idx
@requires
    old(self).wf(),
@ensures
    final(self).wf(),
    final(self).v() == if idx < old(self).v().len() { old(self).v().update(idx as int, value) } else { old(self).v() },
@fn coeff_enumerate
@requires
    self.wf(),
@ensures
    r.pos() == 0, enums(r.all(), self.v()),
@fn coeff_enumerate_mut
@requires
    old(self).wf(),
@ensures
    final(self).wf(),
    r.pos() == 0, menums(r.all(), old(self).v(), final(self).v()),
@fn grade_enumerate
@requires
    self.wf(),
@ensures
    r.pos() == 0, genums(r.all(), self.v(), grade as nat),
@fn add
@requires
    self.wf(), rhs.wf(), self.v().len() == rhs.v().len(),
@ensures
    r.wf(), r.v() == vadd(self.v(), rhs.v()),
@fn sub
@requires
    self.wf(), rhs.wf(), self.v().len() == rhs.v().len(),
@ensures
    r.wf(), r.v() == vsub(self.v(), rhs.v()),
@end
@type ArrayStorage
@derive_clone ArrayStorage
@impl CoeffStorage for ArrayStorage
    open spec fn v(&self) -> Seq<T> { self.array.v() }
    open spec fn wf(&self) -> bool { self.dim <= 63 && self.array.v().len() == dpow(self.dim) }
    open spec fn dim_ok(dim: usize) -> bool { dim <= 63 }
    proof fn eq_law(&self, o: &Self) { }
@fn new
@fn get_by_idx
@index
@fn set_by_idx
@index
@fn coeff_enumerate
@closure 0
|p: &(usize, &'a T)| -> (b: bool)
  ensures b == (*p.1 != T::z()),
@exit
    proof { l_enum_filter(isrc(r), r.fl(), self.array.v()); }
@fn coeff_enumerate_mut
@closure 0
|p: &(usize, &'a mut T)| -> (b: bool)
  ensures b == (mcur(p) != T::z()),
@exit
    proof { l_menum_filter(isrc(r), r.fl(), old(self).array.v()); }
@fn grade_enumerate
@index
@entry
    proof { l_gall(self.dim as int, grade as nat); }
@exit
    proof { l_genum(isrc(r), r.all(), self.array.v(), self.dim, grade as nat); }
@closure 0
|p: usize| -> (q: (usize, &'a T))
  requires p < self.array.v().len(),
  ensures q.0 == p, *q.1 == self.array.v()[p as int],
@fn add
@fn sub
@end
@impl ArrayStorage
@fn array_view
@props C12 C15
@ensures
    r.v() == self.array.v(),
@fn array_view_mut
@props C12 C15
@ensures
    r.v() == old(self).array.v(), r.fin() == final(self).array.v(), r.fin().len() == r.v().len(), final(self).dim == old(self).dim,
@fn from_array
@props C10
@requires
    a.v().len() >= 1,
@ensures
    r is Ok ==> r->Ok_0.array == a && r->Ok_0.dim <= 63 && a.v().len() == dpow(r->Ok_0.dim),
    r is Err ==> forall|d: usize| d <= 63 ==> a.v().len() != #[trigger] dpow(d),
@hook let dim 0
    proof {
        let n = a.v().len() as usize;
        assert forall|d: usize| d <= 63 && n == #[trigger] dpow(d) implies d == dim by {
            let k = dim;
            assert(d == k) by (bit_vector) requires d <= 63, k < 64, n == 1usize << d, n >> k == 1;
        }
    }
@end
@impl PartialEq for ArrayStorage
@sub T: PartialEq =>> T: Ring
    open spec fn eq_req(&self, o: &Self) -> bool { true }
    open spec fn eqs(&self, o: &Self) -> bool { self.array.v() == o.array.v() }
@fn eq
@sub self.array == other.array =>> self.array.eq(&other.array)
@type SparseStorage
@derive_clone SparseStorage
@raw
pub open spec fn mseq<T: Ring>(m: Map<usize, T>, n: nat) -> Seq<T> {
    Seq::new(n, |i: int| if m.dom().contains(i as usize) { m[i as usize] } else { T::z() })
}
pub open spec fn spwf<T>(s: &SparseStorage<T>) -> bool {
    s.dim <= 63 && s.size == dpow(s.dim) && forall|k: usize| #[trigger] s.coeffs.m().dom().contains(k) ==> k < s.size
}
@impl CoeffStorage for SparseStorage
    open spec fn v(&self) -> Seq<T> { mseq(self.coeffs.m(), self.size as nat) }
    open spec fn wf(&self) -> bool { spwf(self) }
    open spec fn dim_ok(dim: usize) -> bool { dim <= 63 }
    proof fn eq_law(&self, o: &Self) { }
@fn new
@exit
    proof { assert(r.v() =~= zeros::<T>(dpow(dim))); }
@fn get_by_idx
@fn set_by_idx
@exit
    proof { assert(final(self).v() =~= if idx < old(self).v().len() { old(self).v().update(idx as int, value) } else { old(self).v() }); }
@fn coeff_enumerate
@closure 0
|p: (&'a usize, &'a T)| -> (q: (usize, &'a T))
  ensures q.0 == *p.0, q.1 == p.1,
@exit
    proof { l_map_enum(isrc::<(usize, &T), (&usize, &T)>(r), r.all(), self.coeffs.m(), self.size as nat); }
@fn coeff_enumerate_mut
@closure 0
|p: (&'a usize, &'a mut T)| -> (q: (usize, &'a mut T))
  ensures q.0 == *p.0, mref(q.1) == mref(p.1), mfin(q.1) == mfin(p.1),
@exit
    proof { l_map_menum(isrc::<(usize, &mut T), (&usize, &mut T)>(r), r.all(), old(self).coeffs.m(), old(self).size as nat); }
@fn grade_enumerate
@closure 0
|p: &(usize, &'a T)| -> (b: bool)
  ensures b == (pc(p.0) == grade),
@exit
    proof { l_enum_grade(isrc(r), r.fl(), self.v(), grade as nat); }
@fn add
@loop 0
@inv
    ret.wf(), ret.v().len() == self.v().len(), enums(it0.all(), self.v()), self.wf(),
    ret.v() == msk(it0.all(), it0.pos(), self.v()),
@before
    proof { l_msk_start(it0.all(), self.v()); }
@begin
    proof { l_msk_step(it0.all(), it0.pos() - 1, self.v()); }
@after
    proof { l_msk_end(it0.all(), self.v()); }
@loop 1
@inv
    ret.wf(), enums(it1.all(), rhs.v()), self.wf(), rhs.wf(), self.v().len() == rhs.v().len(),
    ret.v() == vadd(self.v(), msk(it1.all(), it1.pos(), rhs.v())),
@before
    proof { l_vadd_start(it1.all(), self.v(), rhs.v()); }
@begin
    proof { l_vadd_step(it1.all(), it1.pos() - 1, self.v(), rhs.v()); }
@after
    proof { l_msk_end(it1.all(), rhs.v()); }
@fn sub
@loop 0
@inv
    ret.wf(), ret.v().len() == self.v().len(), enums(it0.all(), self.v()), self.wf(),
    ret.v() == msk(it0.all(), it0.pos(), self.v()),
@before
    proof { l_msk_start(it0.all(), self.v()); }
@begin
    proof { l_msk_step(it0.all(), it0.pos() - 1, self.v()); }
@after
    proof { l_msk_end(it0.all(), self.v()); }
@loop 1
@inv
    ret.wf(), enums(it1.all(), rhs.v()), self.wf(), rhs.wf(), self.v().len() == rhs.v().len(),
    ret.v() == vsub(self.v(), msk(it1.all(), it1.pos(), rhs.v())),
@before
    proof { l_vsub_start(it1.all(), self.v(), rhs.v()); }
@begin
    proof { l_vsub_step(it1.all(), it1.pos() - 1, self.v(), rhs.v()); }
@after
    proof { l_msk_end(it1.all(), rhs.v()); }
@end
@impl PartialEq for SparseStorage
    open spec fn eq_req(&self, o: &Self) -> bool { spwf(self) && spwf(o) && self.size == o.size }
    open spec fn eqs(&self, o: &Self) -> bool { mseq(self.coeffs.m(), self.size as nat) == mseq(o.coeffs.m(), o.size as nat) }
@fn eq
@closure 0
|p: (usize, &T)| -> (b: bool)
  requires other.wf(),
  ensures b == ((if p.0 < other.v().len() { other.v()[p.0 as int] } else { T::z() }) == *p.1),
@closure 1
|p: (usize, &T)| -> (b: bool)
  requires self.wf(),
  ensures b == ((if p.0 < self.v().len() { self.v()[p.0 as int] } else { T::z() }) == *p.1),
@exit
    proof { if r { assert(self.v() =~= other.v()); } }
