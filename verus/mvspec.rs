// ---- what the operations on multivectors mean, on coefficient vectors
pub open spec fn onev<T: Ring>(n: nat) -> Seq<T> {
    zeros::<T>(n).update(0, T::o())
}

pub open spec fn vneg<T: Ring>(a: Seq<T>) -> Seq<T> {
    Seq::new(a.len(), |i: int| T::n(a[i]))
}

pub open spec fn scaler<T: Ring>(a: Seq<T>, c: T) -> Seq<T> {
    Seq::new(a.len(), |i: int| T::m(a[i], c))
}

pub open spec fn wprod<T: Ring>(a: Seq<T>, b: Seq<T>) -> Seq<T> {
    prod(a, b, 0, allnull())
}

// the first n entries of s on the generators
pub open spec fn vecv<T: Ring>(s: Seq<T>, n: int, size: nat) -> Seq<T>
    decreases n,
{
    if n <= 0 {
        zeros::<T>(size)
    } else {
        vecv(s, n - 1, size).update((1usize << ((n - 1) as usize)) as int, s[n - 1])
    }
}

// the first p pairs of s, later ones replacing earlier ones
pub open spec fn place<T: Ring>(s: Seq<(usize, T)>, p: int, size: nat) -> Seq<T>
    decreases p,
{
    if p <= 0 {
        zeros::<T>(size)
    } else {
        place(s, p - 1, size).update(s[p - 1].0 as int, s[p - 1].1)
    }
}

pub open spec fn drf<T>(s: Seq<&T>) -> Seq<T> {
    Seq::new(s.len(), |i: int| *s[i])
}

pub open spec fn pdrf<T>(s: Seq<(usize, &T)>) -> Seq<(usize, T)> {
    Seq::new(s.len(), |i: int| (s[i].0, *s[i].1))
}

pub open spec fn revs(i: usize) -> Sign {
    pm(pc(i) % 4 >= 2)
}

pub open spec fn revv<T: Ring>(a: Seq<T>) -> Seq<T> {
    Seq::new(a.len(), |i: int| sg(revs(i as usize), a[i]))
}

pub open spec fn flips(i: usize, mask: usize) -> Sign {
    pm(odd(pc(i & mask)))
}

pub open spec fn flipv<T: Ring>(a: Seq<T>, mask: usize) -> Seq<T> {
    Seq::new(a.len(), |i: int| sg(flips(i as usize, mask), a[i]))
}

pub proof fn l_cc_comm<T: Ring>(a: Seq<T>)
    ensures
        revv(flipv(a, allnull())) == flipv(revv(a), allnull()),
{
    assert(revv(flipv(a, allnull())) =~= flipv(revv(a), allnull()));
}

pub proof fn l_and_all(i: usize)
    ensures
        i & allnull() == i,
{
    assert(i & 0xffff_ffff_ffff_ffffusize == i) by (bit_vector);
}

pub proof fn l_wedges(a: usize, b: usize)
    ensures
        geos(a, b, 0, allnull()) == wedges(a, b),
{
    let c = a & b;
    l_and_all(a & b);
    assert(c & 0usize == 0) by (bit_vector);
    l_pc_zero(64);
}

pub proof fn l_place<T: Ring>(t: Seq<(usize, T)>, p: int, w: Seq<T>)
    requires
        0 <= p <= t.len(),
        distinct(t),
        inrange(t, w.len()),
        forall|j: int| #![trigger t[j]] 0 <= j < t.len() ==> t[j].1 == w[t[j].0 as int],
    ensures
        place(t, p, w.len()) == msk(t, p, w),
    decreases p,
{
    if p == 0 {
        l_msk_start(t, w);
    } else {
        l_place(t, p - 1, w);
        l_mstep(t, p - 1, w);
    }
}

// a mapped enumeration: every pair keeps its index and takes the coefficient w has there
pub open spec fn mapped<T: Ring>(it: CIter<(usize, T)>, v: Seq<T>, w: Seq<T>) -> bool {
    let s = isrc::<(usize, T), (usize, &T)>(it);
    &&& enums(s, v)
    &&& it.all().len() == s.len()
    &&& forall|j: int|
        0 <= j < s.len() ==> (#[trigger] it.all()[j]).0 == s[j].0 && it.all()[j].1 == w[s[j].0 as int]
}

pub proof fn l_mapped<T: Ring>(v: Seq<T>, w: Seq<T>, n: nat)
    requires
        v.len() == n,
        w.len() == n,
        forall|i: int| 0 <= i < n && #[trigger] v[i] == T::z() ==> w[i] == T::z(),
    ensures
        forall|it: CIter<(usize, T)>|
            mapped(it, v, w) ==> #[trigger] inrange(it.all(), n) && place(it.all(), it.all().len() as int, n) == w,
{
    assert forall|it: CIter<(usize, T)>| mapped(it, v, w) implies #[trigger] inrange(it.all(), n) && place(
        it.all(),
        it.all().len() as int,
        n,
    ) == w by {
        let s = isrc::<(usize, T), (usize, &T)>(it);
        let t = it.all();
        assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).0 < n && t[j].1 == w[t[j].0 as int] by {
            assert(s[j].0 < n);
        }
        assert forall|j: int, k: int| 0 <= j < k < t.len() implies (#[trigger] t[j]).0 != (#[trigger] t[k]).0 by {
            assert(s[j].0 != s[k].0);
        }
        l_place(t, t.len() as int, w);
        l_mend(s, v, w);
        assert forall|i: int| 0 <= i < n implies done(t, t.len() as int, i) == done(s, s.len() as int, i) by {
            if done(s, s.len() as int, i) {
                let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == i;
                assert(t[j].0 == i);
            }
            if done(t, t.len() as int, i) {
                let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == i;
                assert(s[j].0 == i);
            }
        }
        assert(msk(t, t.len() as int, w) =~= msk(s, s.len() as int, w));
    }
}

// the same with coefficients of another ring
pub open spec fn mapped2<T: Ring, U: Ring>(it: CIter<(usize, U)>, v: Seq<T>, w: Seq<U>) -> bool {
    let s = isrc::<(usize, U), (usize, &T)>(it);
    &&& enums(s, v)
    &&& it.all().len() == s.len()
    &&& forall|j: int|
        0 <= j < s.len() ==> (#[trigger] it.all()[j]).0 == s[j].0 && it.all()[j].1 == w[s[j].0 as int]
}

pub proof fn l_mapped2<T: Ring, U: Ring>(v: Seq<T>, w: Seq<U>, n: nat)
    requires
        v.len() == n,
        w.len() == n,
        forall|i: int| 0 <= i < n && #[trigger] v[i] == T::z() ==> w[i] == U::z(),
    ensures
        forall|it: CIter<(usize, U)>|
            mapped2(it, v, w) ==> #[trigger] inrange(it.all(), n) && place(it.all(), it.all().len() as int, n) == w,
{
    assert forall|it: CIter<(usize, U)>| mapped2(it, v, w) implies #[trigger] inrange(it.all(), n) && place(
        it.all(),
        it.all().len() as int,
        n,
    ) == w by {
        let s = isrc::<(usize, U), (usize, &T)>(it);
        let t = it.all();
        assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).0 < n && t[j].1 == w[t[j].0 as int] by {
            assert(s[j].0 < n);
        }
        assert forall|j: int, k: int| 0 <= j < k < t.len() implies (#[trigger] t[j]).0 != (#[trigger] t[k]).0 by {
            assert(s[j].0 != s[k].0);
        }
        l_place(t, t.len() as int, w);
        l_mend(s, v, w);
        assert forall|i: int| 0 <= i < n implies done(t, t.len() as int, i) == done(s, s.len() as int, i) by {
            if done(s, s.len() as int, i) {
                let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == i;
                assert(t[j].0 == i);
            }
            if done(t, t.len() as int, i) {
                let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == i;
                assert(s[j].0 == i);
            }
        }
        assert(msk(t, t.len() as int, w) =~= msk(s, s.len() as int, w));
    }
}

// an enumeration with some indices dropped and the others renumbered
pub open spec fn renumbered<T: Ring>(it: CIter<(usize, T)>, v: Seq<T>, g: spec_fn(usize) -> Option<usize>) -> bool {
    let s = isrc::<(usize, T), (usize, &T)>(it);
    let o = iopt(it);
    &&& enums(s, v)
    &&& o.len() == s.len()
    &&& it.all() == Seq::new(selidx(somes(o)).len(), |j: int| o[selidx(somes(o))[j]]->0)
    &&& forall|i: int|
        #![trigger o[i]]
        0 <= i < s.len() ==> (o[i] is Some == g(s[i].0) is Some) && (o[i] is Some ==> (o[i]->0).0 == g(s[i].0)->0 && (o[i]->0).1 == *s[i].1)
}

pub proof fn l_renumbered<T: Ring>(v: Seq<T>, w: Seq<T>, g: spec_fn(usize) -> Option<usize>, h: spec_fn(usize) -> usize)
    requires
        v.len() <= usize::MAX,
        w.len() <= usize::MAX,
        forall|i: usize| i < v.len() && (#[trigger] g(i)) is Some ==> g(i)->0 < w.len() && h(g(i)->0) == i,
        forall|k: usize| k < w.len() ==> (#[trigger] h(k)) < v.len() && g(h(k)) == Some(k) && w[k as int] == v[h(k) as int],
    ensures
        forall|it: CIter<(usize, T)>|
            renumbered(it, v, g) ==> #[trigger] inrange(it.all(), w.len()) && place(it.all(), it.all().len() as int, w.len()) == w,
{
    assert forall|it: CIter<(usize, T)>| renumbered(it, v, g) implies #[trigger] inrange(it.all(), w.len()) && place(
        it.all(),
        it.all().len() as int,
        w.len(),
    ) == w by {
        let s = isrc::<(usize, T), (usize, &T)>(it);
        let o = iopt(it);
        let fl = somes(o);
        l_selidx(fl);
        let ix = selidx(fl);
        let t = it.all();
        assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).0 < w.len() && t[j].1 == w[t[j].0 as int] && g(s[ix[j]].0) == Some(t[j].0) by {
            let i = ix[j];
            assert(o[i] is Some);
            assert(s[i].0 < v.len());
            let k = g(s[i].0)->0;
            assert(h(k) == s[i].0);
            assert(w[k as int] == v[h(k) as int]);
        }
        assert forall|j: int, k: int| 0 <= j < k < t.len() implies (#[trigger] t[j]).0 != (#[trigger] t[k]).0 by {
            assert(ix[j] < ix[k]);
            assert(s[ix[j]].0 != s[ix[k]].0);
            assert(h(t[j].0) == s[ix[j]].0 && h(t[k].0) == s[ix[k]].0);
        }
        l_place(t, t.len() as int, w);
        let r = msk(t, t.len() as int, w);
        assert forall|k: int| 0 <= k < w.len() implies r[k] == w[k] by {
            let i = h(k as usize);
            assert(w[k] == v[i as int]);
            if v[i as int] != T::z() {
                assert(done(s, s.len() as int, i as int));
                let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == i;
                assert(g(i) == Some(k as usize));
                assert(o[j] is Some);
                assert(fl[j]);
                assert(ix.contains(j));
                let q = choose|q: int| 0 <= q < ix.len() && ix[q] == j;
                assert(t[q].0 == k);
            }
        }
        assert(r =~= w);
    }
}

// a filtered enumeration: r keeps the coefficient at i exactly if the flag of its pair is set
pub open spec fn keptat<T: Ring>(s: Seq<(usize, &T)>, fl: Seq<bool>, x: T, y: T, i: int) -> bool {
    (x == T::z() && y == T::z()) || (exists|j: int|
        #![trigger fl[j]]
        0 <= j < s.len() && s[j].0 == i && y == if fl[j] {
            x
        } else {
            T::z()
        })
}

pub open spec fn kept<T: Ring>(s: Seq<(usize, &T)>, fl: Seq<bool>, v: Seq<T>, r: Seq<T>) -> bool {
    &&& r.len() == v.len()
    &&& forall|i: int| #![trigger r[i]] 0 <= i < v.len() ==> keptat(s, fl, v[i], r[i], i)
}

pub proof fn l_kept<T: Ring>(s: Seq<(usize, &T)>, fl: Seq<bool>, v: Seq<T>)
    requires
        enums(s, v),
        fl.len() == s.len(),
    ensures
        inrange(sel(s, fl), v.len()),
        kept(s, fl, v, place(pdrf(sel(s, fl)), sel(s, fl).len() as int, v.len())),
{
    l_selidx(fl);
    let ix = selidx(fl);
    let q = sel(s, fl);
    let t = pdrf(q);
    assert forall|j: int| 0 <= j < q.len() implies (#[trigger] q[j]).0 < v.len() && *q[j].1 == v[q[j].0 as int] by {
        assert(s[ix[j]].0 < v.len());
    }
    assert forall|j: int, k: int| 0 <= j < k < t.len() implies (#[trigger] t[j]).0 != (#[trigger] t[k]).0 by {
        assert(ix[j] < ix[k]);
        assert(s[ix[j]].0 != s[ix[k]].0);
    }
    assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).0 < v.len() && t[j].1 == v[t[j].0 as int] by {
        assert(q[j].0 < v.len());
    }
    l_place(t, t.len() as int, v);
    let r = place(t, t.len() as int, v.len());
    assert(t.len() == q.len());
    assert forall|i: int| #![trigger r[i]] 0 <= i < v.len() implies keptat(s, fl, v[i], r[i], i) by {
        if done(t, t.len() as int, i) {
            let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == i;
            assert(fl[ix[j]] && s[ix[j]].0 == i);
        } else if v[i] != T::z() {
            assert(done(s, s.len() as int, i));
            let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == i;
            if fl[j] {
                assert(ix.contains(j));
                let k = choose|k: int| 0 <= k < ix.len() && ix[k] == j;
                assert(t[k].0 == i);
            }
            assert(!fl[j]);
        }
    }
    assert(r.len() == v.len());
    assert(kept(s, fl, v, r));
}

pub proof fn l_filtered<T: Ring>(v: Seq<T>)
    ensures
        forall|it: CIter<(usize, &T)>|
            enums(isrc::<(usize, &T), (usize, &T)>(it), v) && it.fl().len() == isrc::<(usize, &T), (usize, &T)>(it).len()
                && it.all() == sel(isrc::<(usize, &T), (usize, &T)>(it), it.fl()) ==> #[trigger] inrange(it.all(), v.len()) && kept(
                isrc::<(usize, &T), (usize, &T)>(it),
                it.fl(),
                v,
                place(pdrf(it.all()), it.all().len() as int, v.len()),
            ),
{
    assert forall|it: CIter<(usize, &T)>|
        enums(isrc::<(usize, &T), (usize, &T)>(it), v) && it.fl().len() == isrc::<(usize, &T), (usize, &T)>(it).len() && it.all()
            == sel(isrc::<(usize, &T), (usize, &T)>(it), it.fl()) implies #[trigger] inrange(it.all(), v.len()) && kept(
        isrc::<(usize, &T), (usize, &T)>(it),
        it.fl(),
        v,
        place(pdrf(it.all()), it.all().len() as int, v.len()),
    ) by {
        l_kept(isrc::<(usize, &T), (usize, &T)>(it), it.fl(), v);
    }
}

// the coefficients whose grade is listed
pub open spec fn gsel<T: Ring>(v: Seq<T>, g: Seq<usize>) -> Seq<T> {
    Seq::new(
        v.len(),
        |i: int|
            if g.contains(pc(i as usize) as usize) {
                v[i]
            } else {
                T::z()
            },
    )
}

pub proof fn l_par()
    ensures
        forall|k: u32| #[trigger] (k & 1) == k % 2,
{
    assert forall|k: u32| #[trigger] (k & 1) == k % 2 by {
        assert(k & 1 == k % 2) by (bit_vector);
    }
}
