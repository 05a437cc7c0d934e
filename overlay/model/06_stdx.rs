// ---------------------------------------------------------------------------------------------
// More of std, by its documentation: not used by the current tree, so that a change which uses
// them is decided and not set aside. Everything here is trusted, and nothing here is used unless
// the code calls it.
// ---------------------------------------------------------------------------------------------
pub mod stdx {
use super::*;
use core::cmp::Ordering;

pub assume_specification<T: Copy> [Option::<&T>::copied] (o: Option<&T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or] (o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->Some_0,)),
    ensures match o { Some(x) => f.ensures((x,), r), None => r == d };
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U> [Option::<T>::map_or_else] (o: Option<T>, d: D, f: F) -> (r: U)
    requires match o { Some(x) => f.requires((x,)), None => d.requires(()) },
    ensures match o { Some(x) => f.ensures((x,), r), None => d.ensures((), r) };
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and] (o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->Some_0,)),
    ensures match o { Some(x) => f.ensures((x,), r), None => !r };
pub assume_specification<T, P: FnOnce(&T) -> bool> [Option::<T>::filter] (o: Option<T>, p: P) -> (r: Option<T>)
    requires o is Some ==> p.requires((&o->Some_0,)),
    ensures match o { Some(x) => (r == o && p.ensures((&x,), true)) || (r is None && p.ensures((&x,), false)), None => r is None };
pub assume_specification<T> [Option::<T>::or] (o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some { o } else { p });
pub assume_specification<T, U> [Option::<T>::and] (o: Option<T>, p: Option<U>) -> (r: Option<U>)
    ensures r == (if o is Some { p } else { None });
pub assume_specification<T, F: FnOnce() -> Option<T>> [Option::<T>::or_else] (o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> f.requires(()),
    ensures match o { Some(x) => r == o, None => f.ensures((), r) };
pub assume_specification<T, U> [Option::<T>::zip] (o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (match (o, p) { (Some(a), Some(b)) => Some((a, b)), _ => None });
pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, x: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(x);
pub assume_specification<T, E> [Option::<core::result::Result<T, E>>::transpose] (o: Option<core::result::Result<T, E>>) -> (r: core::result::Result<Option<T>, E>)
    ensures r == (match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) });
pub assume_specification<T, E> [core::result::Result::<Option<T>, E>::transpose] (o: core::result::Result<Option<T>, E>) -> (r: Option<core::result::Result<T, E>>)
    ensures r == (match o { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) });
pub assume_specification<T, E, U, F: FnOnce(T) -> core::result::Result<U, E>> [core::result::Result::<T, E>::and_then] (o: core::result::Result<T, E>, f: F) -> (r: core::result::Result<U, E>)
    requires o is Ok ==> f.requires((o->Ok_0,)),
    ensures match o { Ok(x) => f.ensures((x,), r), Err(e) => r == core::result::Result::<U, E>::Err(e) };
pub assume_specification<T, E> [core::result::Result::<T, E>::unwrap_or] (o: core::result::Result<T, E>, d: T) -> (r: T)
    ensures r == (match o { Ok(x) => x, Err(_) => d });
pub assume_specification<T> [bool::then_some] (b: bool, x: T) -> (r: Option<T>)
    ensures r == (if b { Some(x) } else { None });

pub assume_specification<T> [core::mem::replace] (a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;
pub uninterp spec fn default_of<T>() -> T;
pub broadcast axiom fn ax_default_vec<T>()
    ensures (#[trigger] default_of::<Vec<T>>())@ == Seq::<T>::empty();
pub broadcast axiom fn ax_default_none<T>()
    ensures #[trigger] default_of::<Option<T>>() == None::<T>;
pub broadcast axiom fn ax_default_usize()
    ensures #[trigger] default_of::<usize>() == 0;
pub broadcast axiom fn ax_default_u64()
    ensures #[trigger] default_of::<u64>() == 0;
pub broadcast axiom fn ax_default_bool()
    ensures !#[trigger] default_of::<bool>();
pub broadcast group defaults { ax_default_vec, ax_default_none, ax_default_usize, ax_default_u64, ax_default_bool }
pub assume_specification<T: Default> [core::mem::take] (a: &mut T) -> (r: T)
    ensures r == *old(a), *final(a) == default_of::<T>();

pub assume_specification<T> [<[T]>::split_last] (s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures
        s@.len() == 0 ==> r is None,
        s@.len() > 0 ==> r is Some && *r.unwrap().0 == s@.last() && (*r.unwrap().1)@ == s@.drop_last(),
;
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], i: usize, j: usize)
    requires i < old(s)@.len(), j < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int]);
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();

pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize)
    requires b > 0,
    ensures r == (a as int + b - 1) / (b as int);
pub assume_specification [u64::div_ceil] (a: u64, b: u64) -> (r: u64)
    requires b > 0,
    ensures r == (a as int + b - 1) / (b as int);
pub assume_specification [usize::next_multiple_of] (a: usize, b: usize) -> (r: usize)
    requires b > 0, a as int + (if a as int % b as int == 0 { 0 } else { b as int - a as int % b as int }) <= usize::MAX,
    ensures r as int == a as int + (if a as int % b as int == 0 { 0 } else { b as int - a as int % b as int });

pub assume_specification [u8::max_value] () -> (r: u8) ensures r == u8::MAX;
pub assume_specification [u32::max_value] () -> (r: u32) ensures r == u32::MAX;
pub assume_specification [u64::max_value] () -> (r: u64) ensures r == u64::MAX;
pub assume_specification [usize::max_value] () -> (r: usize) ensures r == usize::MAX;

pub open spec fn ord_rev(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub assume_specification [Ordering::reverse] (o: Ordering) -> (r: Ordering) ensures r == ord_rev(o);
pub assume_specification [Ordering::then] (o: Ordering, p: Ordering) -> (r: Ordering) ensures r == (if o is Equal { p } else { o });
pub assume_specification<F: FnOnce() -> Ordering> [Ordering::then_with] (o: Ordering, f: F) -> (r: Ordering)
    requires o is Equal ==> f.requires(()),
    ensures if o is Equal { f.ensures((), r) } else { r == o };
pub assume_specification [Ordering::is_lt] (o: Ordering) -> (r: bool) ensures r == (o is Less);
pub assume_specification [Ordering::is_le] (o: Ordering) -> (r: bool) ensures r == !(o is Greater);
pub assume_specification [Ordering::is_gt] (o: Ordering) -> (r: bool) ensures r == (o is Greater);
pub assume_specification [Ordering::is_ge] (o: Ordering) -> (r: bool) ensures r == !(o is Less);
pub assume_specification [Ordering::is_eq] (o: Ordering) -> (r: bool) ensures r == (o is Equal);
pub assume_specification [Ordering::is_ne] (o: Ordering) -> (r: bool) ensures r == !(o is Equal);
} // mod stdx
