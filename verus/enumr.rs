// ---- enumerations of coefficients
pub open spec fn enums<T: Ring>(s: Seq<(usize, &T)>, v: Seq<T>) -> bool {
    &&& forall|j: int|
        0 <= j < s.len() ==> (#[trigger] s[j]).0 < v.len() && *s[j].1 == v[s[j].0 as int]
    &&& distinct(s)
    &&& forall|i: int|
        0 <= i < v.len() && #[trigger] v[i] != T::z() ==> done(s, s.len() as int, i)
}

pub open spec fn distinct<X>(s: Seq<(usize, X)>) -> bool {
    forall|j: int, k: int|
        0 <= j < k < s.len() ==> (#[trigger] s[j]).0 != (#[trigger] s[k]).0
}

// index i occurs among the first p pairs
pub open spec fn done<X>(s: Seq<(usize, X)>, p: int, i: int) -> bool {
    exists|j: int| 0 <= j < p && (#[trigger] s[j]).0 == i
}

// w at the indices of the first p pairs, zero elsewhere
pub open spec fn msk<T: Ring, X>(s: Seq<(usize, X)>, p: int, w: Seq<T>) -> Seq<T> {
    Seq::new(
        w.len(),
        |i: int|
            if done(s, p, i) {
                w[i]
            } else {
                T::z()
            },
    )
}

pub open spec fn zeros<T: Ring>(n: nat) -> Seq<T> {
    Seq::new(n, |i: int| T::z())
}

pub proof fn l_done_step<X>(s: Seq<(usize, X)>, p: int, i: int)
    requires
        0 <= p < s.len(),
    ensures
        done(s, p + 1, i) == (done(s, p, i) || s[p].0 == i),
        distinct(s) ==> !done(s, p, s[p].0 as int),
{
    if done(s, p + 1, i) {
        let j = choose|j: int| 0 <= j < p + 1 && (#[trigger] s[j]).0 == i;
        if j < p {
            assert(done(s, p, i));
        }
    }
    if done(s, p, i) {
        let j = choose|j: int| 0 <= j < p && (#[trigger] s[j]).0 == i;
        assert(0 <= j < p + 1);
    }
    if s[p].0 == i {
        assert(0 <= p < p + 1 && s[p].0 == i);
    }
}

pub open spec fn inrange<X>(s: Seq<(usize, X)>, n: nat) -> bool {
    forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).0 < n
}

pub proof fn l_msk_start<T: Ring, X>(s: Seq<(usize, X)>, w: Seq<T>)
    ensures
        msk(s, 0, w) == zeros::<T>(w.len()),
{
    assert(msk(s, 0, w) =~= zeros::<T>(w.len()));
}

pub proof fn l_mstep<T: Ring, X>(s: Seq<(usize, X)>, p: int, w: Seq<T>)
    requires
        distinct(s),
        0 <= p < s.len(),
        s[p].0 < w.len(),
    ensures
        msk(s, p, w)[s[p].0 as int] == T::z(),
        msk(s, p + 1, w) == msk(s, p, w).update(s[p].0 as int, w[s[p].0 as int]),
{
    let i = s[p].0 as int;
    l_done_step(s, p, i);
    assert forall|k: int| 0 <= k < w.len() implies msk(s, p + 1, w)[k] == msk(s, p, w).update(
        i,
        w[i],
    )[k] by {
        l_done_step(s, p, k);
    }
    assert(msk(s, p + 1, w) =~= msk(s, p, w).update(i, w[i]));
}

pub proof fn l_mend<T: Ring, U: Ring>(s: Seq<(usize, &U)>, v: Seq<U>, w: Seq<T>)
    requires
        enums(s, v),
        w.len() == v.len(),
        forall|i: int| 0 <= i < v.len() && #[trigger] v[i] == U::z() ==> w[i] == T::z(),
    ensures
        msk(s, s.len() as int, w) == w,
{
    assert forall|i: int| 0 <= i < v.len() implies msk(s, s.len() as int, w)[i] == w[i] by {
        if v[i] != U::z() {
            assert(done(s, s.len() as int, i));
        }
    }
    assert(msk(s, s.len() as int, w) =~= w);
}

pub proof fn l_msk_step<T: Ring>(s: Seq<(usize, &T)>, p: int, v: Seq<T>)
    requires
        enums(s, v),
        0 <= p < s.len(),
    ensures
        s[p].0 < v.len(),
        *s[p].1 == v[s[p].0 as int],
        msk(s, p, v)[s[p].0 as int] == T::z(),
        msk(s, p + 1, v) == msk(s, p, v).update(s[p].0 as int, *s[p].1),
{
    l_mstep(s, p, v);
}

pub proof fn l_msk_end<T: Ring>(s: Seq<(usize, &T)>, v: Seq<T>)
    requires
        enums(s, v),
    ensures
        msk(s, s.len() as int, v) == v,
{
    l_mend(s, v, v);
}

// ---- enumerations of one grade
pub open spec fn genums<T: Ring>(s: Seq<(usize, &T)>, v: Seq<T>, g: nat) -> bool {
    &&& forall|j: int|
        0 <= j < s.len() ==> (#[trigger] s[j]).0 < v.len() && *s[j].1 == v[s[j].0 as int] && pc(s[j].0) == g
    &&& distinct(s)
    &&& forall|i: int|
        0 <= i < v.len() && #[trigger] v[i] != T::z() && pc(i as usize) == g ==> done(s, s.len() as int, i)
}

pub open spec fn gpart<T: Ring>(v: Seq<T>, g: nat) -> Seq<T> {
    Seq::new(
        v.len(),
        |i: int|
            if pc(i as usize) == g {
                v[i]
            } else {
                T::z()
            },
    )
}

pub proof fn l_gend<T: Ring>(s: Seq<(usize, &T)>, v: Seq<T>, g: nat)
    requires
        genums(s, v, g),
    ensures
        msk(s, s.len() as int, gpart(v, g)) == gpart(v, g),
{
    let w = gpart(v, g);
    assert forall|i: int| 0 <= i < v.len() implies msk(s, s.len() as int, w)[i] == w[i] by {
        if v[i] != T::z() && pc(i as usize) == g {
            assert(done(s, s.len() as int, i));
        }
    }
    assert(msk(s, s.len() as int, w) =~= w);
}

// a filtered enumeration of all indices
pub proof fn l_enum_filter<T: Ring>(s: Seq<(usize, &T)>, fl: Seq<bool>, v: Seq<T>)
    requires
        fl.len() == s.len(),
        s.len() == v.len(),
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i].0 == i && *s[i].1 == v[i],
        forall|i: int| 0 <= i < s.len() && v[i] != T::z() ==> #[trigger] fl[i],
    ensures
        enums(sel(s, fl), v),
{
    l_selidx(fl);
    let r = sel(s, fl);
    let ix = selidx(fl);
    assert forall|i: int| 0 <= i < v.len() && #[trigger] v[i] != T::z() implies done(r, r.len() as int, i) by {
        assert(fl[i]);
        assert(ix.contains(i));
        let j = choose|j: int| 0 <= j < ix.len() && ix[j] == i;
        assert(r[j].0 == i);
    }
    assert forall|j: int, k: int| 0 <= j < k < r.len() implies (#[trigger] r[j]).0 != (#[trigger] r[k]).0 by {
        assert(ix[j] < ix[k]);
        assert(s[ix[j]].0 == ix[j]);
        assert(s[ix[k]].0 == ix[k]);
    }
    assert forall|j: int| 0 <= j < r.len() implies (#[trigger] r[j]).0 < v.len() && *r[j].1 == v[r[j].0 as int] by {
        assert(s[ix[j]].0 == ix[j]);
    }
}

// an enumeration restricted to one grade
pub proof fn l_enum_grade<T: Ring>(s: Seq<(usize, &T)>, fl: Seq<bool>, v: Seq<T>, g: nat)
    requires
        enums(s, v),
        fl.len() == s.len(),
        forall|i: int| #![trigger fl[i]] 0 <= i < s.len() ==> fl[i] == (pc(s[i].0) == g),
    ensures
        genums(sel(s, fl), v, g),
{
    l_selidx(fl);
    let r = sel(s, fl);
    let ix = selidx(fl);
    assert forall|i: int| 0 <= i < v.len() && #[trigger] v[i] != T::z() && pc(i as usize) == g implies done(r, r.len() as int, i) by {
        assert(done(s, s.len() as int, i));
        let q = choose|q: int| 0 <= q < s.len() && (#[trigger] s[q]).0 == i;
        assert(s[q].0 as int == i);
        assert(s[q].0 == i as usize);
        assert(fl[q]);
        assert(ix.contains(q));
        let j = choose|j: int| 0 <= j < ix.len() && ix[j] == q;
        assert(r[j].0 == i);
    }
    assert forall|j: int, k: int| 0 <= j < k < r.len() implies (#[trigger] r[j]).0 != (#[trigger] r[k]).0 by {
        assert(ix[j] < ix[k]);
    }
}

// ---- mutable enumerations: old values v, final values w
#[verifier::prophetic]
pub open spec fn menums<T: Ring>(s: Seq<(usize, &mut T)>, v: Seq<T>, w: Seq<T>) -> bool {
    &&& w.len() == v.len()
    &&& forall|j: int|
        #![trigger s[j]]
        0 <= j < s.len() ==> s[j].0 < v.len() && *s[j].1 == v[s[j].0 as int] && *final(s[j].1) == w[s[j].0 as int]
    &&& distinct(s)
    &&& forall|i: int| #![trigger v[i]] #![trigger w[i]]
        0 <= i < v.len() ==> done(s, s.len() as int, i) || (v[i] == T::z() && w[i] == v[i])
}

pub open spec fn mcur<T>(p: &(usize, &mut T)) -> T {
    *p.1
}

pub proof fn l_menum_filter<T: Ring>(s: Seq<(usize, &mut T)>, fl: Seq<bool>, v: Seq<T>)
    requires
        fl.len() == s.len(),
        s.len() == v.len(),
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i].0 == i && *s[i].1 == v[i],
        forall|i: int| 0 <= i < s.len() && v[i] != T::z() ==> #[trigger] fl[i],
        forall|i: int| 0 <= i < s.len() && !(#[trigger] fl[i]) ==> has_resolved(s[i]),
    ensures
        forall|w: Seq<T>|
            w.len() == v.len() && (forall|i: int|
                #![trigger w[i]]
                0 <= i < s.len() ==> *final(s[i].1) == w[i]) ==> #[trigger] menums(sel(s, fl), v, w),
{
    l_selidx(fl);
    let r = sel(s, fl);
    let ix = selidx(fl);
    assert forall|w: Seq<T>|
        w.len() == v.len() && (forall|i: int|
            #![trigger w[i]]
            0 <= i < s.len() ==> *final(s[i].1) == w[i]) implies #[trigger] menums(sel(s, fl), v, w) by {
        assert forall|i: int| #![trigger v[i]] #![trigger w[i]] 0 <= i < v.len() implies done(r, r.len() as int, i) || (v[i] == T::z() && w[i]
            == v[i]) by {
            assert(*final(s[i].1) == w[i]);
            assert(*s[i].1 == v[i]);
            if fl[i] {
                assert(ix.contains(i));
                let j = choose|j: int| 0 <= j < ix.len() && ix[j] == i;
                assert(r[j] == s[i]);
                assert(r[j].0 == i);
            } else {
                assert(has_resolved(s[i]));
                assert(has_resolved(s[i].1));
            }
        }
        assert forall|j: int, k: int| 0 <= j < k < r.len() implies (#[trigger] r[j]).0 != (#[trigger] r[k]).0 by {
            assert(ix[j] < ix[k]);
            assert(s[ix[j]].0 == ix[j]);
            assert(s[ix[k]].0 == ix[k]);
        }
        assert forall|j: int| #![trigger r[j]] 0 <= j < r.len() implies r[j].0 < v.len() && *r[j].1 == v[r[j].0 as int]
            && *final(r[j].1) == w[r[j].0 as int] by {
            assert(s[ix[j]].0 == ix[j]);
        }
    }
}

pub proof fn l_genum<T: Ring>(g: Seq<usize>, r: Seq<(usize, &T)>, v: Seq<T>, dim: usize, w: nat)
    requires
        dim <= 63,
        g == gall(dim as int, w),
        v.len() == (1usize << dim),
        r.len() == g.len(),
        forall|j: int| #![trigger r[j]] 0 <= j < r.len() ==> r[j].0 == g[j] && *r[j].1 == v[g[j] as int],
    ensures
        genums(r, v, w),
{
    l_gall(dim as int, w);
    assert forall|i: int| 0 <= i < v.len() && #[trigger] v[i] != T::z() && pc(i as usize) == w implies done(r, r.len() as int, i) by {
        assert(g.contains(i as usize));
        let j = choose|j: int| 0 <= j < g.len() && g[j] == i as usize;
        assert(r[j].0 == i);
    }
}

pub proof fn l_vadd_start<T: Ring>(s: Seq<(usize, &T)>, v: Seq<T>, w: Seq<T>)
    requires
        v.len() == w.len(),
    ensures
        vadd(v, msk(s, 0, w)) == v,
{
    assert forall|i: int| 0 <= i < v.len() implies vadd(v, msk(s, 0, w))[i] == v[i] by {
        r_zero(v[i]);
    }
    assert(vadd(v, msk(s, 0, w)) =~= v);
}

pub proof fn l_vsub_start<T: Ring>(s: Seq<(usize, &T)>, v: Seq<T>, w: Seq<T>)
    requires
        v.len() == w.len(),
    ensures
        vsub(v, msk(s, 0, w)) == v,
{
    assert forall|i: int| 0 <= i < v.len() implies vsub(v, msk(s, 0, w))[i] == v[i] by {
        r_zero(v[i]);
        r_neg(T::z());
        T::sub_def(v[i], T::z());
    }
    assert(vsub(v, msk(s, 0, w)) =~= v);
}

pub proof fn l_vadd_step<T: Ring>(s: Seq<(usize, &T)>, p: int, v: Seq<T>, w: Seq<T>)
    requires
        v.len() == w.len(),
        enums(s, w),
        0 <= p < s.len(),
    ensures
        s[p].0 < v.len(),
        vadd(v, msk(s, p, w))[s[p].0 as int] == v[s[p].0 as int],
        vadd(v, msk(s, p + 1, w)) == vadd(v, msk(s, p, w)).update(s[p].0 as int, T::a(v[s[p].0 as int], *s[p].1)),
{
    l_msk_step(s, p, w);
    r_zero(v[s[p].0 as int]);
    assert(vadd(v, msk(s, p + 1, w)) =~= vadd(v, msk(s, p, w)).update(s[p].0 as int, T::a(v[s[p].0 as int], *s[p].1)));
}

pub proof fn l_vsub_step<T: Ring>(s: Seq<(usize, &T)>, p: int, v: Seq<T>, w: Seq<T>)
    requires
        v.len() == w.len(),
        enums(s, w),
        0 <= p < s.len(),
    ensures
        s[p].0 < v.len(),
        vsub(v, msk(s, p, w))[s[p].0 as int] == v[s[p].0 as int],
        vsub(v, msk(s, p + 1, w)) == vsub(v, msk(s, p, w)).update(s[p].0 as int, T::s(v[s[p].0 as int], *s[p].1)),
{
    l_msk_step(s, p, w);
    let x = v[s[p].0 as int];
    r_zero(x);
    r_neg(T::z());
    T::sub_def(x, T::z());
    assert(vsub(v, msk(s, p + 1, w)) =~= vsub(v, msk(s, p, w)).update(s[p].0 as int, T::s(x, *s[p].1)));
}

pub proof fn l_map_enum<T: Ring>(s: Seq<(&usize, &T)>, r: Seq<(usize, &T)>, m: Map<usize, T>, n: nat)
    requires
        n <= usize::MAX,
        s.len() == r.len(),
        forall|k: usize| #[trigger] m.dom().contains(k) ==> k < n,
        forall|j: int| #![trigger r[j]] 0 <= j < r.len() ==> r[j].0 == *s[j].0 && r[j].1 == s[j].1,
        forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> m.dom().contains(*s[j].0) && *s[j].1 == m[*s[j].0],
        forall|j: int, k: int| 0 <= j < k < s.len() ==> *(#[trigger] s[j]).0 != *(#[trigger] s[k]).0,
        forall|k: usize| #[trigger] m.dom().contains(k) ==> exists|j: int| 0 <= j < s.len() && *(#[trigger] s[j]).0 == k,
    ensures
        enums(r, mseq(m, n)),
{
    let v = mseq(m, n);
    assert forall|i: int| 0 <= i < v.len() && #[trigger] v[i] != T::z() implies done(r, r.len() as int, i) by {
        assert(m.dom().contains(i as usize));
        let j = choose|j: int| 0 <= j < s.len() && *(#[trigger] s[j]).0 == i as usize;
        assert(r[j].0 == i);
    }
    assert forall|j: int, k: int| 0 <= j < k < r.len() implies (#[trigger] r[j]).0 != (#[trigger] r[k]).0 by {
        assert(*s[j].0 != *s[k].0);
    }
}

pub proof fn l_map_menum<T: Ring>(s: Seq<(&usize, &mut T)>, r: Seq<(usize, &mut T)>, m: Map<usize, T>, n: nat)
    requires
        n <= usize::MAX,
        s.len() == r.len(),
        forall|k: usize| #[trigger] m.dom().contains(k) ==> k < n,
        forall|j: int| #![trigger r[j]] 0 <= j < r.len() ==> r[j].0 == *s[j].0 && *r[j].1 == *s[j].1 && *final(r[j].1) == *final(s[j].1),
        forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> m.dom().contains(*s[j].0) && *s[j].1 == m[*s[j].0],
        forall|j: int, k: int| 0 <= j < k < s.len() ==> *(#[trigger] s[j]).0 != *(#[trigger] s[k]).0,
        forall|k: usize| #[trigger] m.dom().contains(k) ==> exists|j: int| 0 <= j < s.len() && *(#[trigger] s[j]).0 == k,
    ensures
        forall|m2: Map<usize, T>|
            m2.dom() == m.dom() && (forall|j: int|
                #![trigger s[j]]
                0 <= j < s.len() ==> *final(s[j].1) == m2[*s[j].0]) ==> #[trigger] menums(r, mseq(m, n), mseq(m2, n)),
{
    let v = mseq(m, n);
    assert forall|m2: Map<usize, T>|
        m2.dom() == m.dom() && (forall|j: int|
            #![trigger s[j]]
            0 <= j < s.len() ==> *final(s[j].1) == m2[*s[j].0]) implies #[trigger] menums(r, mseq(m, n), mseq(m2, n)) by {
        let w = mseq(m2, n);
        assert forall|i: int| #![trigger v[i]] #![trigger w[i]] 0 <= i < v.len() implies done(r, r.len() as int, i) || (v[i] == T::z() && w[i]
            == v[i]) by {
            if m.dom().contains(i as usize) {
                let j = choose|j: int| 0 <= j < s.len() && *(#[trigger] s[j]).0 == i as usize;
                assert(r[j].0 == i);
            }
        }
        assert forall|j: int, k: int| 0 <= j < k < r.len() implies (#[trigger] r[j]).0 != (#[trigger] r[k]).0 by {
            assert(*s[j].0 != *s[k].0);
        }
        assert forall|j: int| #![trigger r[j]] 0 <= j < r.len() implies r[j].0 < v.len() && *r[j].1 == v[r[j].0 as int]
            && *final(r[j].1) == w[r[j].0 as int] by {
            assert(m.dom().contains(*s[j].0));
        }
    }
}

pub open spec fn mref<T>(p: &mut T) -> T {
    *p
}

#[verifier::prophetic]
pub open spec fn mfin<T>(p: &mut T) -> T {
    *final(p)
}

// the enumeration of all positions of a fixed-size array
pub proof fn l_arr_enum<T: Ring>(s: Seq<(usize, &T)>, v: Seq<T>)
    requires
        s.len() == v.len(),
        v.len() <= usize::MAX,
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i].0 == i && *s[i].1 == v[i],
    ensures
        enums(s, v),
{
    assert forall|i: int| 0 <= i < v.len() && #[trigger] v[i] != T::z() implies done(s, s.len() as int, i) by {
        assert(s[i].0 == i);
    }
}

pub proof fn l_arr_menum<T: Ring>(s: Seq<(usize, &mut T)>, v: Seq<T>)
    requires
        s.len() == v.len(),
        v.len() <= usize::MAX,
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i].0 == i && *s[i].1 == v[i],
    ensures
        forall|w: Seq<T>|
            w.len() == v.len() && (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> *final(s[i].1) == w[i]) ==> #[trigger] menums(s, v, w),
{
    assert forall|w: Seq<T>|
        w.len() == v.len() && (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> *final(s[i].1) == w[i]) implies #[trigger] menums(s, v, w) by {
        assert forall|i: int| #![trigger v[i]] #![trigger w[i]] 0 <= i < v.len() implies done(s, s.len() as int, i) || (v[i] == T::z() && w[i] == v[i]) by {
            assert(s[i].0 == i);
        }
    }
}
