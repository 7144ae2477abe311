// ---- stand-ins for ndarray, std collections
#[derive(Clone, Copy)]
pub struct Axis(pub usize);

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Array1<T> {
    v: Vec<T>,
}

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VData1<T> {
    v: Vec<T>,
}

impl<T> VData1<T> {
    pub uninterp spec fn v(&self) -> Seq<T>;
}

pub struct ArrayView1<'a, T> {
    pub r: &'a VData1<T>,
}

impl<'a, T> ::core::clone::Clone for ArrayView1<'a, T> {
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        *self
    }
}

impl<'a, T> ::core::marker::Copy for ArrayView1<'a, T> {

}

pub struct ArrayViewMut1<'a, T> {
    pub r: &'a mut VData1<T>,
}

impl<T> Clone for Array1<T> {
    #[verifier::external_body]
    fn v_clone(&self) -> (r: Self) {
        unimplemented!()
    }
}

impl<T> Array1<T> {
    pub uninterp spec fn v(&self) -> Seq<T>;

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures
            r == self.v().len(),
            r <= isize::MAX,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn v_at(&self, i: usize) -> (r: &T)
        requires
            i < self.v().len(),
        ensures
            *r == self.v()[i as int],
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn v_set(&mut self, i: usize, x: T)
        requires
            i < old(self).v().len(),
        ensures
            final(self).v() == old(self).v().update(i as int, x),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn indexed_iter<'a>(&'a self) -> (r: CIter<(usize, &'a T)>)
        ensures
            r.pos() == 0,
            r.all().len() == self.v().len(),
            self.v().len() <= usize::MAX,
            forall|i: int|
                #![trigger r.all()[i]]
                0 <= i < self.v().len() ==> r.all()[i].0 == i && *r.all()[i].1 == self.v()[i],
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn indexed_iter_mut<'a>(&'a mut self) -> (r: CIter<(usize, &'a mut T)>)
        ensures
            r.pos() == 0,
            r.all().len() == old(self).v().len(),
            final(self).v().len() == old(self).v().len(),
            old(self).v().len() <= usize::MAX,
            forall|i: int|
                #![trigger r.all()[i]]
                #![trigger final(self).v()[i]]
                0 <= i < old(self).v().len() ==> r.all()[i].0 == i && *r.all()[i].1 == old(self).v()[i]
                    && *final(r.all()[i].1) == final(self).v()[i],
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: CIter<&'a T>)
        ensures
            r.pos() == 0,
            r.all().len() == self.v().len(),
            self.v().len() <= usize::MAX,
            forall|i: int|
                #![trigger r.all()[i]]
                0 <= i < self.v().len() ==> *r.all()[i] == self.v()[i],
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn view<'a>(&'a self) -> (r: ArrayView1<'a, T>)
        ensures
            r.v() == self.v(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn view_mut<'a>(&'a mut self) -> (r: ArrayViewMut1<'a, T>)
        ensures
            r.v() == old(self).v(),
            r.fin() == final(self).v(),
            r.fin().len() == r.v().len(),
    {
        unimplemented!()
    }
}

impl<T: Ring> Array1<T> {
    #[verifier::external_body]
    pub fn zeros(n: usize) -> (r: Self)
        ensures
            r.v() == zeros::<T>(n as nat),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn eq(&self, o: &Self) -> (b: bool)
        ensures
            b == (self.v() == o.v()),
    {
        unimplemented!()
    }
}

pub open spec fn vadd<T: Ring>(a: Seq<T>, b: Seq<T>) -> Seq<T> {
    Seq::new(a.len(), |i: int| T::a(a[i], b[i]))
}

pub open spec fn vsub<T: Ring>(a: Seq<T>, b: Seq<T>) -> Seq<T> {
    Seq::new(a.len(), |i: int| T::s(a[i], b[i]))
}

impl<'a, 'b, T: Ring> Add<&'b Array1<T>> for &'a Array1<T> {
    type Output = Array1<T>;

    #[verifier::external_body]
    fn add(self, rhs: &'b Array1<T>) -> (r: Array1<T>)
        ensures
            r.v() == vadd(self.v(), rhs.v()),
    {
        unimplemented!()
    }
}

impl<'a, 'b, T: Ring> AddSpecImpl<&'b Array1<T>> for &'a Array1<T> {
    open spec fn obeys_add_spec() -> bool {
        false
    }

    open spec fn add_req(self, rhs: &'b Array1<T>) -> bool {
        self.v().len() == rhs.v().len()
    }

    open spec fn add_spec(self, rhs: &'b Array1<T>) -> Array1<T> {
        arbitrary()
    }
}

impl<'a, 'b, T: Ring> Sub<&'b Array1<T>> for &'a Array1<T> {
    type Output = Array1<T>;

    #[verifier::external_body]
    fn sub(self, rhs: &'b Array1<T>) -> (r: Array1<T>)
        ensures
            r.v() == vsub(self.v(), rhs.v()),
    {
        unimplemented!()
    }
}

impl<'a, 'b, T: Ring> SubSpecImpl<&'b Array1<T>> for &'a Array1<T> {
    open spec fn obeys_sub_spec() -> bool {
        false
    }

    open spec fn sub_req(self, rhs: &'b Array1<T>) -> bool {
        self.v().len() == rhs.v().len()
    }

    open spec fn sub_spec(self, rhs: &'b Array1<T>) -> Array1<T> {
        arbitrary()
    }
}

impl<'a, T> ArrayView1<'a, T> {
    pub open spec fn v(&self) -> Seq<T> {
        self.r.v()
    }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures
            r == self.v().len(),
            r <= isize::MAX,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn v_at(&self, i: usize) -> (r: &T)
        requires
            i < self.v().len(),
        ensures
            *r == self.v()[i as int],
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn split_at(self, ax: Axis, n: usize) -> (r: (ArrayView1<'a, T>, ArrayView1<'a, T>))
        requires
            ax.0 == 0,
            n <= self.v().len(),
        ensures
            r.0.v() == self.v().subrange(0, n as int),
            r.1.v() == self.v().subrange(n as int, self.v().len() as int),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn iter(&self) -> (r: CIter<&'a T>)
        ensures
            r.pos() == 0,
            r.all().len() == self.v().len(),
            self.v().len() <= usize::MAX,
            forall|i: int|
                #![trigger r.all()[i]]
                0 <= i < self.v().len() ==> *r.all()[i] == self.v()[i],
    {
        unimplemented!()
    }
}

impl<'a, T> ArrayViewMut1<'a, T> {
    pub open spec fn v(&self) -> Seq<T> {
        (*self.r).v()
    }

    #[verifier::prophetic]
    pub open spec fn fin(&self) -> Seq<T> {
        (*final(self.r)).v()
    }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures
            r == self.v().len(),
            r <= isize::MAX,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn v_at(&self, i: usize) -> (r: &T)
        requires
            i < self.v().len(),
        ensures
            *r == self.v()[i as int],
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn v_set(&mut self, i: usize, x: T)
        requires
            i < old(self).v().len(),
        ensures
            final(self).v() == old(self).v().update(i as int, x),
            final(self).fin() == old(self).fin(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn view_mut<'b>(&'b mut self) -> (r: ArrayViewMut1<'b, T>)
        ensures
            r.v() == old(self).v(),
            r.fin() == final(self).v(),
            r.fin().len() == r.v().len(),
            final(self).fin() == old(self).fin(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn split_at(self, ax: Axis, n: usize) -> (r: (ArrayViewMut1<'a, T>, ArrayViewMut1<'a, T>))
        requires
            ax.0 == 0,
            n <= self.v().len(),
        ensures
            r.0.v() == self.v().subrange(0, n as int),
            r.1.v() == self.v().subrange(n as int, self.v().len() as int),
            r.0.fin().len() == r.0.v().len(),
            r.1.fin().len() == r.1.v().len(),
            self.fin() == r.0.fin() + r.1.fin(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn indexed_iter<'b>(&'b self) -> (r: CIter<(usize, &'b T)>)
        ensures
            r.pos() == 0,
            r.all().len() == self.v().len(),
            self.v().len() <= usize::MAX,
            forall|i: int|
                #![trigger r.all()[i]]
                0 <= i < self.v().len() ==> r.all()[i].0 == i && *r.all()[i].1 == self.v()[i],
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn indexed_iter_mut<'b>(&'b mut self) -> (r: CIter<(usize, &'b mut T)>)
        ensures
            r.pos() == 0,
            r.all().len() == old(self).v().len(),
            final(self).v().len() == old(self).v().len(),
            final(self).fin() == old(self).fin(),
            old(self).v().len() <= usize::MAX,
            forall|i: int|
                #![trigger r.all()[i]]
                #![trigger final(self).v()[i]]
                0 <= i < old(self).v().len() ==> r.all()[i].0 == i && *r.all()[i].1 == old(self).v()[i]
                    && *final(r.all()[i].1) == final(self).v()[i],
    {
        unimplemented!()
    }
}

// ---- hash map
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> {
    k: Vec<K>,
    v: Vec<V>,
}

impl<K, V> Clone for HashMap<K, V> {
    #[verifier::external_body]
    fn v_clone(&self) -> (r: Self) {
        unimplemented!()
    }
}

impl<K, V> HashMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<K, V>;

    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures
            r.m() == Map::<K, V>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>)
        ensures
            r is Some == self.m().dom().contains(*k),
            r is Some ==> *r->0 == self.m()[*k],
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures
            r == self.m().dom().contains(*k),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures
            r == (self.m() == Map::<K, V>::empty()),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn remove(&mut self, k: &K)
        ensures
            final(self).m() == old(self).m().remove(*k),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V)
        ensures
            final(self).m() == old(self).m().insert(k, v),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures
            r == self.m().dom().len(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: CIter<(&'a K, &'a V)>)
        ensures
            r.pos() == 0,
            forall|j: int|
                #![trigger r.all()[j]]
                0 <= j < r.all().len() ==> self.m().dom().contains(*r.all()[j].0) && *r.all()[j].1
                    == self.m()[*r.all()[j].0],
            forall|j: int, k: int|
                0 <= j < k < r.all().len() ==> *(#[trigger] r.all()[j]).0 != *(#[trigger] r.all()[k]).0,
            forall|k: K| #[trigger]
                self.m().dom().contains(k) ==> exists|j: int|
                    0 <= j < r.all().len() && *(#[trigger] r.all()[j]).0 == k,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn iter_mut<'a>(&'a mut self) -> (r: CIter<(&'a K, &'a mut V)>)
        ensures
            r.pos() == 0,
            final(self).m().dom() == old(self).m().dom(),
            forall|j: int|
                #![trigger r.all()[j]]
                0 <= j < r.all().len() ==> old(self).m().dom().contains(*r.all()[j].0) && *r.all()[j].1
                    == old(self).m()[*r.all()[j].0] && *final(r.all()[j].1) == final(self).m()[*r.all()[j].0],
            forall|j: int, k: int|
                0 <= j < k < r.all().len() ==> *(#[trigger] r.all()[j]).0 != *(#[trigger] r.all()[k]).0,
            forall|k: K| #[trigger]
                old(self).m().dom().contains(k) ==> exists|j: int|
                    0 <= j < r.all().len() && *(#[trigger] r.all()[j]).0 == k,
    {
        unimplemented!()
    }

    // predicates of `retain` are restricted to ones that look at the entry without changing it
    #[verifier::external_body]
    pub fn retain<F: Fn(&K, &V) -> bool>(&mut self, f: F)
        requires
            forall|k: K| #[trigger]
                old(self).m().dom().contains(k) ==> call_requires(f, (&k, &old(self).m()[k])),
        ensures
            forall|k: K| #[trigger]
                final(self).m().dom().contains(k) ==> old(self).m().dom().contains(k)
                    && final(self).m()[k] == old(self).m()[k] && call_ensures(
                    f,
                    (&k, &old(self).m()[k]),
                    true,
                ),
            forall|k: K| #[trigger]
                old(self).m().dom().contains(k) && !final(self).m().dom().contains(k)
                    ==> call_ensures(f, (&k, &old(self).m()[k]), false),
    {
        unimplemented!()
    }
}
