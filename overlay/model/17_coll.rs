// ---------------------------------------------------------------------------------------------
// Collections and iterators of std used by the merger and the sorter
// ---------------------------------------------------------------------------------------------
pub mod coll {
use super::*;
use core::cmp::Ordering;
use super::lex::*;
use vstd::std_specs::cmp::{OrdSpec, PartialEqSpec};

// ------------------------------------------------------------------------------- orderings
pub open spec fn lex_ord(a: Seq<u8>, b: Seq<u8>) -> Ordering { if a == b { Ordering::Equal } else if lex_lt(a, b) { Ordering::Less } else { Ordering::Greater } }
pub use super::stdx::ord_rev as rev;
pub open spec fn int_ord(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub broadcast axiom fn ax_rslice_ord_obeys()
    ensures #[trigger] <&[u8] as OrdSpec>::obeys_cmp_spec();
pub broadcast axiom fn ax_rslice_ord(a: &&[u8], b: &&[u8])
    ensures (#[trigger] OrdSpec::cmp_spec(a, b)) == lex_ord(a@, b@);
pub broadcast axiom fn ax_ordering_eq_obeys()
    ensures #[trigger] <Ordering as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn ax_ordering_eq(a: Ordering, b: Ordering)
    ensures (#[trigger] PartialEqSpec::eq_spec(&a, &b)) == (a == b);
pub broadcast group orderings { ax_rslice_ord_obeys, ax_rslice_ord, ax_ordering_eq_obeys, ax_ordering_eq }

/// core::cmp::{Ord, PartialOrd, PartialEq, Eq}; the heap requires that they agree and give a total order
pub trait Ord: Sized {
    /// the value may be compared
    spec fn ok(&self) -> bool;
    spec fn ord(&self, o: &Self) -> Ordering;
    proof fn lawful(a: &Self, b: &Self, c: &Self)
        requires a.ok(), b.ok(), c.ok(),
        ensures
            b.ord(a) == rev(a.ord(b)),
            !(a.ord(b) is Greater) && !(b.ord(c) is Greater) ==> !(a.ord(c) is Greater);
    fn cmp(&self, other: &Self) -> (r: Ordering)
        requires self.ok(), other.ok(),
        ensures r == self.ord(other);
}
pub trait PartialEq: Ord {
    fn eq(&self, other: &Self) -> (r: bool)
        requires self.ok(), other.ok(),
        ensures r == (self.ord(other) is Equal);
}
pub trait Eq: PartialEq {}
pub trait PartialOrd: Ord {
    fn partial_cmp(&self, other: &Self) -> (r: Option<Ordering>)
        requires self.ok(), other.ok(),
        ensures r == Some(self.ord(other));
}

pub open spec fn all_ok<T: Ord>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ok() }
/// `s[t]` is a greatest element
pub open spec fn is_top<T: Ord>(s: Seq<T>, t: int) -> bool {
    0 <= t < s.len() && forall|i: int| 0 <= i < s.len() ==> !((#[trigger] s[i]).ord(&s[t]) is Greater)
}

/// std::collections::BinaryHeap: its elements, in some order
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct BinaryHeap<T> { x: Vec<T> }
impl<T> View for BinaryHeap<T> {
    type V = Seq<T>;
    uninterp spec fn view(&self) -> Seq<T>;
}
/// where the heap has its greatest element
pub uninterp spec fn top<T>(h: BinaryHeap<T>) -> int;
pub broadcast axiom fn ax_top<T: Ord>(h: BinaryHeap<T>)
    ensures all_ok(h@) && h@.len() > 0 ==> is_top(h@, #[trigger] top(h));

impl<T: PartialOrd + Eq> BinaryHeap<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Seq::<T>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T)
        requires x.ok(), all_ok(old(self)@),
        ensures final(self)@ == old(self)@.push(x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<T>)
        requires all_ok(old(self)@),
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[top(*old(self))]) && final(self)@ == old(self)@.remove(top(*old(self))),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&T>)
        ensures
            self@.len() == 0 ==> r is None,
            self@.len() > 0 ==> r == Some(&self@[top(*self)]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == Seq::<T>::empty(),
    { unimplemented!() }
}

// ------------------------------------------------------------------------------- iterators
/// an iterator: what it has left to give. Adaptors are applied at once, which is the same as the lazy ones
/// of std for functions without effects.
pub struct It<T> { pub v: Vec<T> }
impl<T> View for It<T> {
    type V = Seq<T>;
    open spec fn view(&self) -> Seq<T> { self.v@ }
}
pub open spec fn enumerated<T>(s: Seq<T>) -> Seq<(usize, T)> { Seq::new(s.len(), |i: int| (i as usize, s[i])) }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
/// the values present
pub open spec fn somes<T>(s: Seq<Option<T>>) -> Seq<T>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else if s.last() is Some { somes(s.drop_last()).push(s.last()->Some_0) } else { somes(s.drop_last()) }
}
pub broadcast proof fn b_somes_all<T>(s: Seq<Option<T>>)
    ensures (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some) ==> (#[trigger] somes(s)).len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] somes(s)[i] == s[i]->Some_0,
    decreases s.len(),
{
    if s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some {
        let p = s.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]) is Some by { assert(p[i] == s[i]); }
        b_somes_all(p);
        assert(s[s.len() - 1] is Some);
    }
}
/// `r` are the results of `f` on `s`
pub open spec fn results<A, B, F: Fn(A) -> B>(f: F, s: Seq<A>, r: Seq<B>) -> bool {
    r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> f.ensures((s[i],), #[trigger] r[i])
}
pub open spec fn callable<A, B, F: Fn(A) -> B>(f: F, s: Seq<A>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],))
}
pub trait FromIt<T>: Sized {
    spec fn made(self, s: Seq<T>) -> bool;
    fn from_it(x: It<T>) -> (r: Self)
        ensures r.made(x@);
}
impl<T> FromIt<T> for Vec<T> {
    open spec fn made(self, s: Seq<T>) -> bool { self@ == s }
    fn from_it(x: It<T>) -> (r: Vec<T>) { x.v }
}
/// the first failure, or all results
impl<T, E> FromIt<core::result::Result<T, E>> for core::result::Result<Vec<T>, E> {
    open spec fn made(self, s: Seq<core::result::Result<T, E>>) -> bool {
        match self {
            Ok(v) => v@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == core::result::Result::<T, E>::Ok(v@[i]),
            Err(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == core::result::Result::<T, E>::Err(e),
        }
    }
    fn from_it(x: It<core::result::Result<T, E>>) -> (r: core::result::Result<Vec<T>, E>) {
        let ghost s = x@;
        let mut it = x;
        let mut v: Vec<T> = Vec::new();
        while it.v.len() > 0
            invariant s == x@, v@.len() <= s.len(), it@ == s.skip(v@.len() as int), forall|i: int| 0 <= i < v@.len() ==> #[trigger] s[i] == core::result::Result::<T, E>::Ok(v@[i]),
            decreases it@.len(),
        {
            let ghost n = v@.len() as int;
            assert(it@[0] == s[n]);
            match it.v.remove(0) {
                Ok(y) => { v.push(y); }
                Err(e) => {
                    let r: core::result::Result<Vec<T>, E> = Err(e);
                    proof { assert(s[n] == core::result::Result::<T, E>::Err(r->Err_0)); assert(n < s.len()); assert(r.made(s)); }
                    return r;
                }
            }
            assert(it@ =~= s.skip(n + 1));
        }
        Ok(v)
    }
}
impl<T> It<T> {
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    {
        if self.v.len() == 0 { None } else {
            let r = self.v.remove(0);
            assert(self@ =~= old(self)@.skip(1));
            Some(r)
        }
    }
    pub fn enumerate(self) -> (r: It<(usize, T)>)
        ensures r@ == enumerated(self@),
    {
        let ghost s = self@;
        let mut it = self;
        let mut v: Vec<(usize, T)> = Vec::new();
        let mut i: usize = 0;
        let n = it.v.len();
        while it.v.len() > 0
            invariant i <= s.len(), s.len() == n, it@ == s.skip(i as int), v@ == enumerated(s).take(i as int),
            decreases it@.len(),
        {
            let x = it.v.remove(0);
            v.push((i, x));
            i += 1;
            assert(it@ =~= s.skip(i as int));
            assert(v@ =~= enumerated(s).take(i as int));
        }
        assert(v@ =~= enumerated(s));
        It { v }
    }
    pub fn chain(self, o: It<T>) -> (r: It<T>)
        ensures r@ == self@ + o@,
    {
        let mut a = self;
        let mut b = o;
        a.v.append(&mut b.v);
        a
    }
    pub fn map<B, F: Fn(T) -> B>(self, f: F) -> (r: It<B>)
        requires callable(f, self@),
        ensures results(f, self@, r@),
    {
        let ghost s = self@;
        let mut it = self;
        let mut v: Vec<B> = Vec::new();
        while it.v.len() > 0
            invariant callable(f, s), v@.len() <= s.len(), it@ == s.skip(v@.len() as int), results(f, s.take(v@.len() as int), v@),
            decreases it@.len(),
        {
            let ghost n = v@.len() as int;
            assert(it@[0] == s[n]);
            let x = it.v.remove(0);
            v.push(f(x));
            assert(it@ =~= s.skip(n + 1));
            assert(s.take(n + 1) =~= s.take(n).push(s[n]));
        }
        assert(s.take(v@.len() as int) =~= s);
        It { v }
    }
    pub fn filter_map<B, F: Fn(T) -> Option<B>>(self, f: F) -> (r: It<B>)
        requires callable(f, self@),
        ensures exists|o: Seq<Option<B>>| #[trigger] results(f, self@, o) && r@ == somes(o),
    {
        let ghost s = self@;
        let mut it = self;
        let mut v: Vec<B> = Vec::new();
        let ghost mut o: Seq<Option<B>> = Seq::empty();
        while it.v.len() > 0
            invariant callable(f, s), o.len() <= s.len(), it@ == s.skip(o.len() as int), results(f, s.take(o.len() as int), o), v@ == somes(o),
            decreases it@.len(),
        {
            let ghost n = o.len() as int;
            assert(it@[0] == s[n]);
            let x = it.v.remove(0);
            let y = f(x);
            proof {
                let o1 = o.push(y);
                assert(o1.drop_last() =~= o);
                o = o1;
            }
            if let Some(y) = y { v.push(y); }
            assert(it@ =~= s.skip(n + 1));
            assert(s.take(n + 1) =~= s.take(n).push(s[n]));
        }
        assert(s.take(o.len() as int) =~= s);
        It { v }
    }
    pub fn collect<C: FromIt<T>>(self) -> (r: C)
        ensures r.made(self@),
    { C::from_it(self) }
}
pub fn once<T>(x: T) -> (r: It<T>)
    ensures r@ == seq![x],
{
    let mut v = Vec::new();
    v.push(x);
    assert(v@ =~= seq![x]);
    It { v }
}
/// `.iter()`
pub trait ItIter<T> {
    spec fn iview(&self) -> Seq<T>;
    fn it_iter<'a>(&'a self) -> (r: It<&'a T>)
        ensures r@ == refs(self.iview());
}
impl<T> ItIter<T> for [T] {
    open spec fn iview(&self) -> Seq<T> { self@ }
    fn it_iter<'a>(&'a self) -> (r: It<&'a T>)
    {
        let s = self;
        let mut v: Vec<&'a T> = Vec::new();
        let mut i: usize = 0;
        while i < s.len()
            invariant i <= s@.len(), v@ == refs(s@).take(i as int),
            decreases s@.len() - i,
        {
            v.push(&s[i]);
            i += 1;
            assert(v@ =~= refs(s@).take(i as int));
        }
        assert(v@ =~= refs(s@));
        It { v }
    }
}
impl<T> ItIter<T> for Vec<T> {
    open spec fn iview(&self) -> Seq<T> { self@ }
    fn it_iter<'a>(&'a self) -> (r: It<&'a T>) { self.as_slice().it_iter() }
}
pub fn it_into_iter<T>(s: Vec<T>) -> (r: It<T>)
    ensures r@ == s@,
{ It { v: s } }
pub fn it_drain<T>(s: &mut Vec<T>) -> (r: It<T>)
    ensures r@ == old(s)@, final(s)@ == Seq::<T>::empty(),
{
    let mut v = Vec::new();
    v.append(s);
    assert(v@ =~= old(s)@);
    It { v }
}

/// core::iter::{IntoIterator, Extend}
pub trait IntoIterator: Sized {
    type Item;
    spec fn items(self) -> Seq<Self::Item>;
    fn into_vec(self) -> (r: Vec<Self::Item>)
        ensures r@ == self.items();
}
impl<T> IntoIterator for Vec<T> {
    type Item = T;
    open spec fn items(self) -> Seq<T> { self@ }
    fn into_vec(self) -> (r: Vec<T>) { self }
}
impl<T> IntoIterator for It<T> {
    type Item = T;
    open spec fn items(self) -> Seq<T> { self@ }
    fn into_vec(self) -> (r: Vec<T>) { self.v }
}
pub trait Extend<A> {
    spec fn has(&self) -> Seq<A>;
    /// nothing else changed
    spec fn kept(&self, o: &Self) -> bool;
    fn extend<T: IntoIterator<Item = A>>(&mut self, iter: T)
        ensures final(self).has() == old(self).has() + iter.items(), final(self).kept(old(self));
}
impl<A> Extend<A> for Vec<A> {
    open spec fn has(&self) -> Seq<A> { self@ }
    open spec fn kept(&self, o: &Self) -> bool { true }
    fn extend<T: IntoIterator<Item = A>>(&mut self, iter: T)
    {
        let mut v = iter.into_vec();
        self.append(&mut v);
    }
}
/// `c.extend(x)`
pub fn coll_extend<A, C: Extend<A>, T: IntoIterator<Item = A>>(c: &mut C, x: T)
    ensures final(c).has() == old(c).has() + x.items(), final(c).kept(old(c)),
{ c.extend(x) }
} // mod coll
