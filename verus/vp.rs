pub use core::ops::{Add, Sub, Mul, Neg, Div};
pub use core::marker::PhantomData;
pub use vstd::std_specs::ops::*;

// ---------------------------------------------------------------- control flow
#[verifier::external_body]
pub fn v_unreachable<X>() -> (r: X)
    requires false,
{
    unimplemented!()
}

#[verifier::external_body]
pub fn v_debug_assert(b: bool)
    requires b,
{
    unimplemented!()
}

// ---------------------------------------------------------------- integers
pub assume_specification[ u8::count_ones ](x: u8) -> (r: u32)
    ensures
        r == pc(x as usize),
        r <= 64,
;

pub assume_specification[ u16::count_ones ](x: u16) -> (r: u32)
    ensures
        r == pc(x as usize),
        r <= 64,
;

pub assume_specification[ u32::count_ones ](x: u32) -> (r: u32)
    ensures
        r == pc(x as usize),
        r <= 64,
;

pub assume_specification[ u64::count_ones ](x: u64) -> (r: u32)
    ensures
        r == pc(x as usize),
        r <= 64,
;

pub assume_specification[ usize::count_ones ](x: usize) -> (r: u32)
    ensures
        r == pc(x),
        r <= 64,
;

pub trait VInteger: Sized {
    spec fn val(&self) -> nat;

    fn is_even(&self) -> (b: bool)
        ensures
            b == !odd(self.val()),
    ;

    fn is_odd(&self) -> (b: bool)
        ensures
            b == odd(self.val()),
    ;
}

impl VInteger for u32 {
    open spec fn val(&self) -> nat {
        *self as nat
    }

    fn is_even(&self) -> (b: bool) {
        proof {
            let _g = self.val();
        }
        *self % 2 == 0
    }

    fn is_odd(&self) -> (b: bool) {
        proof {
            let _g = self.val();
        }
        *self % 2 == 1
    }
}

impl VInteger for usize {
    open spec fn val(&self) -> nat {
        *self as nat
    }

    fn is_even(&self) -> (b: bool) {
        proof {
            let _g = self.val();
        }
        *self % 2 == 0
    }

    fn is_odd(&self) -> (b: bool) {
        proof {
            let _g = self.val();
        }
        *self % 2 == 1
    }
}

// ---------------------------------------------------------------- iterators
#[verifier::external_body]
#[verifier::accept_recursive_types(X)]
pub struct CIter<X> {
    v: Vec<X>,
}

impl<X> CIter<X> {
    pub uninterp spec fn all(&self) -> Seq<X>;

    pub uninterp spec fn pos(&self) -> int;

    #[verifier::external_body]
    pub fn has_next(&self) -> (b: bool)
        ensures
            b == (self.pos() < self.all().len()),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn take_next(&mut self) -> (r: X)
        requires
            0 <= old(self).pos() < old(self).all().len(),
        ensures
            r == old(self).all()[old(self).pos()],
            final(self).all() == old(self).all(),
            final(self).pos() == old(self).pos() + 1,
    {
        unimplemented!()
    }
}

// ghost provenance of an iterator: the sequence an adaptor was applied to, and the answers of its closure
pub uninterp spec fn isrc<Y, X>(r: CIter<Y>) -> Seq<X>;

pub uninterp spec fn iprev<Y, X>(r: CIter<Y>) -> CIter<X>;

pub uninterp spec fn iopt<Y>(r: CIter<Y>) -> Seq<Option<Y>>;

impl<X> CIter<X> {
    // which elements a filter kept
    pub uninterp spec fn fl(&self) -> Seq<bool>;

    #[verifier::external_body]
    pub fn v_from(v: Vec<X>) -> (r: CIter<X>)
        ensures
            r.pos() == 0,
            r.all() == v@,
    {
        unimplemented!()
    }

    pub fn into_iter(self) -> (r: CIter<X>)
        ensures
            r == self,
    {
        self
    }

    #[verifier::external_body]
    pub fn map<Y, F: Fn(X) -> Y>(self, f: F) -> (r: CIter<Y>)
        requires
            self.pos() == 0,
            forall|i: int|
                0 <= i < self.all().len() ==> call_requires(f, (#[trigger] self.all()[i],)),
        ensures
            r.pos() == 0,
            isrc::<Y, X>(r) == self.all(),
            iprev::<Y, X>(r) == self,
            r.all().len() == self.all().len(),
            forall|i: int|
                #![trigger r.all()[i]]
                0 <= i < self.all().len() ==> call_ensures(f, (self.all()[i],), r.all()[i]),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn filter<F: Fn(&X) -> bool>(self, f: F) -> (r: CIter<X>)
        requires
            self.pos() == 0,
            forall|i: int|
                0 <= i < self.all().len() ==> call_requires(f, (&#[trigger] self.all()[i],)),
        ensures
            r.pos() == 0,
            isrc::<X, X>(r) == self.all(),
            r.fl().len() == self.all().len(),
            r.all() == sel(self.all(), r.fl()),
            forall|i: int|
                #![trigger r.fl()[i]]
                0 <= i < r.fl().len() ==> call_ensures(f, (&self.all()[i],), r.fl()[i]) && (!r.fl()[i]
                    ==> has_resolved(self.all()[i])),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn filter_map<Y, F: Fn(X) -> Option<Y>>(self, f: F) -> (r: CIter<Y>)
        requires
            self.pos() == 0,
            forall|i: int|
                0 <= i < self.all().len() ==> call_requires(f, (#[trigger] self.all()[i],)),
        ensures
            r.pos() == 0,
            isrc::<Y, X>(r) == self.all(),
            iopt(r).len() == self.all().len(),
            r.all() == Seq::new(
                selidx(somes(iopt(r))).len(),
                |j: int| iopt(r)[selidx(somes(iopt(r)))[j]]->0,
            ),
            forall|i: int|
                #![trigger iopt(r)[i]]
                0 <= i < iopt(r).len() ==> call_ensures(f, (self.all()[i],), iopt(r)[i]),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn v_all<F: Fn(X) -> bool>(self, f: F) -> (b: bool)
        requires
            self.pos() == 0,
            forall|i: int|
                0 <= i < self.all().len() ==> call_requires(f, (#[trigger] self.all()[i],)),
        ensures
            b ==> forall|i: int|
                0 <= i < self.all().len() ==> call_ensures(f, (#[trigger] self.all()[i],), true),
            !b ==> exists|i: int|
                0 <= i < self.all().len() && call_ensures(f, (#[trigger] self.all()[i],), false),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn enumerate(self) -> (r: CIter<(usize, X)>)
        requires
            self.pos() == 0,
        ensures
            r.pos() == 0,
            r.all().len() == self.all().len(),
            self.all().len() <= usize::MAX,
            forall|i: int|
                #![trigger r.all()[i]]
                0 <= i < self.all().len() ==> r.all()[i] == (i as usize, self.all()[i]),
    {
        unimplemented!()
    }
}

impl<'a, T: Clone> CIter<&'a T> {
    #[verifier::external_body]
    pub fn v_cloned(self) -> (r: CIter<T>)
        requires
            self.pos() == 0,
        ensures
            r.pos() == 0,
            r.all().len() == self.all().len(),
            forall|i: int|
                #![trigger r.all()[i]]
                0 <= i < self.all().len() ==> r.all()[i] == *self.all()[i],
    {
        unimplemented!()
    }
}

pub trait VCloned<T> {
    spec fn cl(self) -> Option<T>;

    fn v_cloned(self) -> (r: Option<T>) where Self: Sized
        ensures
            r == self.cl(),
    ;
}

impl<'a, T: Clone> VCloned<T> for Option<&'a T> {
    open spec fn cl(self) -> Option<T> {
        match self {
            Some(x) => Some(*x),
            None => None,
        }
    }

    fn v_cloned(self) -> (r: Option<T>) {
        assert(self.cl() == self.cl());
        match self {
            Some(x) => Some(x.v_clone()),
            None => None,
        }
    }
}

// indices of the true entries, in order
pub open spec fn selidx(fl: Seq<bool>) -> Seq<int>
    decreases fl.len(),
{
    if fl.len() == 0 {
        Seq::empty()
    } else if fl.last() {
        selidx(fl.drop_last()).push(fl.len() - 1)
    } else {
        selidx(fl.drop_last())
    }
}

pub open spec fn sel<X>(s: Seq<X>, fl: Seq<bool>) -> Seq<X> {
    Seq::new(selidx(fl).len(), |j: int| s[selidx(fl)[j]])
}

pub open spec fn somes<Y>(os: Seq<Option<Y>>) -> Seq<bool> {
    Seq::new(os.len(), |i: int| os[i] is Some)
}

pub proof fn l_selidx(fl: Seq<bool>)
    ensures
        selidx(fl).len() <= fl.len(),
        forall|j: int| 0 <= j < selidx(fl).len() ==> 0 <= #[trigger] selidx(fl)[j] < fl.len() && fl[selidx(fl)[j]],
        forall|j: int, k: int| 0 <= j < k < selidx(fl).len() ==> #[trigger] selidx(fl)[j] < #[trigger] selidx(fl)[k],
        forall|i: int| 0 <= i < fl.len() && #[trigger] fl[i] ==> selidx(fl).contains(i),
    decreases fl.len(),
{
    if fl.len() > 0 {
        let d = fl.drop_last();
        l_selidx(d);
        assert forall|i: int| 0 <= i < fl.len() && #[trigger] fl[i] implies selidx(fl).contains(i) by {
            if i < fl.len() - 1 {
                assert(d[i]);
                assert(selidx(d).contains(i));
                let j = choose|j: int| 0 <= j < selidx(d).len() && selidx(d)[j] == i;
                assert(selidx(fl)[j] == i);
            } else {
                assert(selidx(fl)[selidx(fl).len() - 1] == i);
            }
        }
        assert forall|j: int| 0 <= j < selidx(fl).len() implies 0 <= #[trigger] selidx(fl)[j] < fl.len() && fl[selidx(fl)[j]] by {
            if j < selidx(d).len() {
                assert(selidx(fl)[j] == selidx(d)[j]);
                assert(fl[selidx(d)[j]] == d[selidx(d)[j]]);
            }
        }
    }
}

#[verifier::external_body]
pub fn v_range(a: usize, b: usize) -> (r: CIter<usize>)
    ensures
        r.pos() == 0,
        r.all() == Seq::new(
            if a <= b {
                (b - a) as nat
            } else {
                0
            },
            |i: int| (a + i) as usize,
        ),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn v_range_rev(a: usize, b: usize) -> (r: CIter<usize>)
    ensures
        r.pos() == 0,
        r.all() == Seq::new(
            if a <= b {
                (b - a) as nat
            } else {
                0
            },
            |i: int| (b - 1 - i) as usize,
        ),
{
    unimplemented!()
}

pub trait VIlog2 {
    spec fn lg_ok(&self, r: u32) -> bool;

    fn v_ilog2(self) -> (r: u32) where Self: Sized
        ensures
            self.lg_ok(r),
    ;
}

impl VIlog2 for usize {
    open spec fn lg_ok(&self, r: u32) -> bool {
        r < 64 && (*self > 0 ==> (1usize << (r as usize)) <= *self && (*self >> (r as usize)) == 1)
    }

    #[verifier::external_body]
    fn v_ilog2(self) -> (r: u32) {
        self.ilog2()
    }
}

pub trait VContains {
    fn v_contains(&self, x: &usize) -> bool;
}

impl VContains for [usize] {
    #[verifier::external_body]
    fn v_contains(&self, x: &usize) -> (b: bool)
        ensures
            b == self@.contains(*x),
    {
        unimplemented!()
    }
}

// ---- fixed-size arrays
pub trait VArr<T> {
    spec fn vat(&self, i: int) -> T;

    fn v_at(&self, i: usize) -> (r: &T)
        requires
            i < 4,
        ensures
            *r == self.vat(i as int),
    ;

    fn v_iter<'a>(&'a self) -> CIter<&'a T>;

    fn v_iter_mut<'a>(&'a mut self) -> CIter<&'a mut T>;
}

impl<T> VArr<T> for [T; 4] {
    open spec fn vat(&self, i: int) -> T {
        self@[i]
    }

    fn v_at(&self, i: usize) -> (r: &T) {
        &self[i]
    }

    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: CIter<&'a T>)
        ensures
            r.pos() == 0,
            r.all().len() == 4,
            forall|i: int| #![trigger r.all()[i]] 0 <= i < 4 ==> *r.all()[i] == self@[i],
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn v_iter_mut<'a>(&'a mut self) -> (r: CIter<&'a mut T>)
        ensures
            r.pos() == 0,
            r.all().len() == 4,
            forall|i: int|
                #![trigger r.all()[i]]
                #![trigger final(self)@[i]]
                0 <= i < 4 ==> *r.all()[i] == old(self)@[i] && *final(r.all()[i]) == final(self)@[i],
    {
        unimplemented!()
    }
}

pub trait VEq {
    spec fn veq(&self, o: &Self) -> bool;

    fn v_eq(&self, o: &Self) -> (b: bool)
        ensures
            b == self.veq(o),
    ;
}

impl<T: Ring> VEq for [T; 4] {
    open spec fn veq(&self, o: &Self) -> bool {
        self@ == o@
    }

    #[verifier::external_body]
    fn v_eq(&self, o: &Self) -> (b: bool) {
        unimplemented!()
    }
}

impl<T: Clone> Clone for [T; 4] {
    #[verifier::external_body]
    fn v_clone(&self) -> (r: Self) {
        unimplemented!()
    }
}

// ---- MaybeUninit<[T; N]>: slots written through the pointer to the first element
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VUninit<T, const N: usize> {
    p: core::marker::PhantomData<T>,
}

impl<T, const N: usize> VUninit<T, N> {
    // the slots written so far
    pub uninterp spec fn c(&self) -> Seq<Option<T>>;

    #[verifier::external_body]
    pub fn uninit() -> (r: Self)
        ensures
            r.c() == Seq::new(N as nat, |i: int| None::<T>),
    {
        unimplemented!()
    }

    // a write outside of the array would be undefined behaviour
    #[verifier::external_body]
    pub fn v_write(&mut self, i: usize, x: T)
        requires
            i < N,
        ensures
            final(self).c() == old(self).c().update(i as int, Some(x)),
    {
        unimplemented!()
    }

    // reading a slot that has not been written would be undefined behaviour
    #[verifier::external_body]
    pub fn assume_init(self) -> (r: [T; N])
        requires
            forall|i: int| 0 <= i < N ==> (#[trigger] self.c()[i]).is_some(),
        ensures
            forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == self.c()[i].unwrap(),
    {
        unimplemented!()
    }
}

// std::iter::zip
#[verifier::external_body]
pub fn zip<X, Y>(a: CIter<X>, b: CIter<Y>) -> (r: CIter<(X, Y)>)
    requires
        a.pos() == 0,
        b.pos() == 0,
    ensures
        r.pos() == 0,
        r.all().len() == if a.all().len() <= b.all().len() {
            a.all().len()
        } else {
            b.all().len()
        },
        forall|i: int| #![trigger r.all()[i]] #![trigger a.all()[i]] 0 <= i < r.all().len() ==> r.all()[i] == (a.all()[i], b.all()[i]),
{
    unimplemented!()
}
