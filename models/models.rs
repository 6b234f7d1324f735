//! Behaviour of the std combinators the analysed code uses, as plain Rust.
//! Compiled by the same driver; the engine substitutes these bodies for the std calls.
//! `opaque()` is an unknown value, `unknown()` an unknown branch.
#![allow(dead_code, unused, clippy::all)]

use core::ops::ControlFlow;
use core::cmp::Ordering;

pub fn opaque<T>() -> T { loop {} }
pub fn unknown() -> bool { loop {} }
pub fn elem<C: ?Sized, T>(_c: &C) -> T { loop {} }
pub fn push_into<C, T>(_c: &mut C, _t: T) { loop {} }
pub fn new_collection<C>() -> C { loop {} }

pub fn scope1<S: ?Sized, C, R, F: FnOnce(C) -> R>(_s: &S, f: F) -> R { f(opaque()) }

// ---------------------------------------------------------------- Option
pub fn opt_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn opt_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn opt_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn opt_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn opt_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn opt_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn opt_unwrap_or_default<T: Default>(o: Option<T>) -> T { match o { Some(x) => x, None => T::default() } }
pub fn opt_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn opt_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn opt_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn opt_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn opt_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => { if f(&x) { Some(x) } else { None } } None => None } }
pub fn opt_or<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => p } }
pub fn opt_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn opt_as_ref<T>(o: &Option<T>) -> Option<&T> { match o { Some(x) => Some(x), None => None } }
pub fn opt_as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match o { Some(x) => Some(x), None => None } }
pub fn opt_as_deref<T: core::ops::Deref>(o: &Option<T>) -> Option<&T::Target> { match o { Some(x) => Some(&**x), None => None } }
pub fn opt_as_deref_mut<T: core::ops::DerefMut>(o: &mut Option<T>) -> Option<&mut T::Target> { match o { Some(x) => Some(&mut **x), None => None } }
pub fn opt_copied<T: Copy>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
pub fn opt_unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => panic!() } }
pub fn opt_is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn opt_is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn opt_take<T>(o: &mut Option<T>) -> Option<T> { core::mem::replace(o, None) }
pub fn opt_replace<T>(o: &mut Option<T>, v: T) -> Option<T> { core::mem::replace(o, Some(v)) }
pub fn opt_insert<T>(o: &mut Option<T>, v: T) -> &mut T { *o = Some(v); match o { Some(x) => x, None => loop {} } }
pub fn opt_get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T { if let None = o { *o = Some(f()); } match o { Some(x) => x, None => loop {} } }
pub fn opt_get_or_insert<T>(o: &mut Option<T>, v: T) -> &mut T { if let None = o { *o = Some(v); } match o { Some(x) => x, None => loop {} } }
pub fn opt_zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> { match o { Some(x) => match p { Some(y) => Some((x, y)), None => None }, None => None } }
pub fn opt_flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn opt_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => { f(&x); Some(x) } None => None } }
pub fn opt_xor<T>(o: Option<T>, p: Option<T>) -> Option<T> { match (o, p) { (Some(a), None) => Some(a), (None, Some(b)) => Some(b), _ => None } }
pub fn opt_take_if<T, F: FnOnce(&mut T) -> bool>(o: &mut Option<T>, f: F) -> Option<T> { let r = match o { Some(x) => f(x), None => false }; if r { core::mem::replace(o, None) } else { None } }
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, v: T) -> Option<T> { if b { Some(v) } else { None } }
pub fn opt_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> { match o { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) } }

// ---------------------------------------------------------------- Result
pub fn res_map<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn res_map_err<T, E, U, F: FnOnce(E) -> U>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn res_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn res_or_else<T, E, U, F: FnOnce(E) -> Result<T, U>>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn res_ok<T, E>(o: Result<T, E>) -> Option<T> { match o { Ok(x) => Some(x), Err(_) => None } }
pub fn res_err<T, E>(o: Result<T, E>) -> Option<E> { match o { Ok(_) => None, Err(e) => Some(e) } }
pub fn res_unwrap_or<T, E>(o: Result<T, E>, d: T) -> T { match o { Ok(x) => x, Err(_) => d } }
pub fn res_unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T { match o { Ok(x) => x, Err(e) => f(e) } }
pub fn res_unwrap_or_default<T: Default, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => T::default() } }
pub fn res_map_or<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U { match o { Ok(x) => f(x), Err(_) => d } }
pub fn res_map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(o: Result<T, E>, d: D, f: F) -> U { match o { Ok(x) => f(x), Err(e) => d(e) } }
pub fn res_is_ok<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => true, Err(_) => false } }
pub fn res_is_err<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => false, Err(_) => true } }
pub fn res_is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(x) => f(x), Err(_) => false } }
pub fn res_is_err_and<T, E, F: FnOnce(E) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(_) => false, Err(e) => f(e) } }
pub fn res_unwrap<T, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => panic!() } }
pub fn res_inspect_err<T, E, F: FnOnce(&E)>(o: Result<T, E>, f: F) -> Result<T, E> { match o { Ok(x) => Ok(x), Err(e) => { f(&e); Err(e) } } }
pub fn res_inspect<T, E, F: FnOnce(&T)>(o: Result<T, E>, f: F) -> Result<T, E> { match o { Ok(x) => { f(&x); Ok(x) } Err(e) => Err(e) } }
pub fn res_as_ref<T, E>(o: &Result<T, E>) -> Result<&T, &E> { match o { Ok(x) => Ok(x), Err(e) => Err(e) } }
pub fn res_as_mut<T, E>(o: &mut Result<T, E>) -> Result<&mut T, &mut E> { match o { Ok(x) => Ok(x), Err(e) => Err(e) } }

// ---------------------------------------------------------------- ?
pub fn res_branch<T, E>(o: Result<T, E>) -> ControlFlow<Result<core::convert::Infallible, E>, T> { match o { Ok(x) => ControlFlow::Continue(x), Err(e) => ControlFlow::Break(Err(e)) } }
pub fn opt_branch<T>(o: Option<T>) -> ControlFlow<Option<core::convert::Infallible>, T> { match o { Some(x) => ControlFlow::Continue(x), None => ControlFlow::Break(None) } }

// ---------------------------------------------------------------- cmp::Ordering
pub fn ord_then(a: Ordering, b: Ordering) -> Ordering { match a { Ordering::Equal => b, x => x } }
pub fn ord_then_with<F: FnOnce() -> Ordering>(a: Ordering, f: F) -> Ordering { match a { Ordering::Equal => f(), x => x } }
pub fn ord_is_lt(a: Ordering) -> bool { match a { Ordering::Less => true, _ => false } }
pub fn ord_is_le(a: Ordering) -> bool { match a { Ordering::Greater => false, _ => true } }
pub fn ord_is_gt(a: Ordering) -> bool { match a { Ordering::Greater => true, _ => false } }
pub fn ord_is_ge(a: Ordering) -> bool { match a { Ordering::Less => false, _ => true } }
pub fn ord_is_eq(a: Ordering) -> bool { match a { Ordering::Equal => true, _ => false } }
pub fn ord_is_ne(a: Ordering) -> bool { match a { Ordering::Equal => false, _ => true } }
pub fn ord_reverse(a: Ordering) -> Ordering { match a { Ordering::Less => Ordering::Greater, Ordering::Greater => Ordering::Less, x => x } }

// ---------------------------------------------------------------- iterator adaptors
pub struct Map<I, F> { it: I, f: F }
pub struct Filter<I, F> { it: I, f: F }
pub struct FilterMap<I, F> { it: I, f: F }
pub struct Inspect<I, F> { it: I, f: F }
pub struct Copied<I> { it: I }
pub struct TakeWhile<I, F> { it: I, f: F, done: bool }
pub struct MapWhile<I, F> { it: I, f: F }
pub struct SkipWhile<I, F> { it: I, f: F, started: bool }
pub struct Chain<I, J> { a: I, b: J, first: bool }
pub struct Zip<I, J> { a: I, b: J }
pub struct ByRef<'a, I> { it: &'a mut I }
pub struct OptIter<T> { o: Option<T> }
pub struct ResIter<T, E> { o: Result<T, E>, done: bool }

pub struct Take<I> { it: I, n: usize }
pub struct Skip<I> { it: I, n: usize }
pub fn it_take<I>(it: I, n: usize) -> Take<I> { Take { it, n } }
pub fn it_skip<I>(it: I, n: usize) -> Skip<I> { Skip { it, n } }
impl<I: Iterator> Iterator for Take<I> { type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { if self.n == 0 { return None; } self.n -= 1; self.it.next() } }
impl<I: Iterator> Iterator for Skip<I> { type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { loop { if self.n == 0 { break; } self.n -= 1; match self.it.next() { Some(_) => {} None => return None } } self.it.next() } }
pub fn it_map<I, F>(it: I, f: F) -> Map<I, F> { Map { it, f } }
pub fn it_filter<I, F>(it: I, f: F) -> Filter<I, F> { Filter { it, f } }
pub fn it_filter_map<I, F>(it: I, f: F) -> FilterMap<I, F> { FilterMap { it, f } }
pub fn it_inspect<I, F>(it: I, f: F) -> Inspect<I, F> { Inspect { it, f } }
pub fn it_copied<I>(it: I) -> Copied<I> { Copied { it } }
pub fn it_take_while<I, F>(it: I, f: F) -> TakeWhile<I, F> { TakeWhile { it, f, done: false } }
pub fn it_map_while<I, F>(it: I, f: F) -> MapWhile<I, F> { MapWhile { it, f } }
pub fn it_skip_while<I, F>(it: I, f: F) -> SkipWhile<I, F> { SkipWhile { it, f, started: false } }
pub fn it_chain<I, J: IntoIterator>(a: I, b: J) -> Chain<I, J::IntoIter> { Chain { a, b: b.into_iter(), first: true } }
pub fn it_zip<I, J: IntoIterator>(a: I, b: J) -> Zip<I, J::IntoIter> { Zip { a, b: b.into_iter() } }

impl<I: Iterator, U, F: FnMut(I::Item) -> U> Iterator for Map<I, F> { type Item = U;
    fn next(&mut self) -> Option<U> { match self.it.next() { Some(x) => Some((self.f)(x)), None => None } } }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for Filter<I, F> { type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { loop { match self.it.next() { Some(x) => { if (self.f)(&x) { return Some(x); } } None => return None } } } }
impl<I: Iterator, U, F: FnMut(I::Item) -> Option<U>> Iterator for FilterMap<I, F> { type Item = U;
    fn next(&mut self) -> Option<U> { loop { match self.it.next() { Some(x) => { if let Some(y) = (self.f)(x) { return Some(y); } } None => return None } } } }
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> { type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { match self.it.next() { Some(x) => { (self.f)(&x); Some(x) } None => None } } }
impl<'a, T: 'a + Copy, I: Iterator<Item = &'a T>> Iterator for Copied<I> { type Item = T;
    fn next(&mut self) -> Option<T> { match self.it.next() { Some(x) => Some(*x), None => None } } }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, F> { type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { if self.done { return None; } match self.it.next() { Some(x) => { if (self.f)(&x) { Some(x) } else { self.done = true; None } } None => None } } }
impl<I: Iterator, U, F: FnMut(I::Item) -> Option<U>> Iterator for MapWhile<I, F> { type Item = U;
    fn next(&mut self) -> Option<U> { match self.it.next() { Some(x) => (self.f)(x), None => None } } }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for SkipWhile<I, F> { type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { loop { match self.it.next() { Some(x) => { if self.started { return Some(x); } if !(self.f)(&x) { self.started = true; return Some(x); } } None => return None } } } }
impl<I: Iterator, J: Iterator<Item = I::Item>> Iterator for Chain<I, J> { type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { if self.first { match self.a.next() { Some(x) => return Some(x), None => { self.first = false; } } } self.b.next() } }
impl<I: Iterator, J: Iterator> Iterator for Zip<I, J> { type Item = (I::Item, J::Item);
    fn next(&mut self) -> Option<(I::Item, J::Item)> { match self.a.next() { Some(x) => match self.b.next() { Some(y) => Some((x, y)), None => None }, None => None } } }
impl<T> Iterator for OptIter<T> { type Item = T;
    fn next(&mut self) -> Option<T> { core::mem::replace(&mut self.o, None) } }
pub fn opt_into_iter<T>(o: Option<T>) -> OptIter<T> { OptIter { o } }
pub fn res_into_iter<T, E>(o: Result<T, E>) -> OptIter<T> { match o { Ok(x) => OptIter { o: Some(x) }, Err(_) => OptIter { o: None } } }

// ---------------------------------------------------------------- iterator consumers
pub fn it_for_each<I: Iterator, F: FnMut(I::Item)>(it: I, mut f: F) { let mut it = it; loop { match it.next() { Some(x) => f(x), None => break } } }
pub fn it_try_for_each_res<T, E, I: Iterator<Item = T>, F: FnMut(T) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> { loop { match it.next() { Some(x) => { match f(x) { Ok(()) => {} Err(e) => return Err(e) } } None => return Ok(()) } } }
pub fn it_try_for_each_opt<T, I: Iterator<Item = T>, F: FnMut(T) -> Option<()>>(it: &mut I, mut f: F) -> Option<()> { loop { match it.next() { Some(x) => { match f(x) { Some(()) => {} None => return None } } None => return Some(()) } } }
pub fn it_fold<B, I: Iterator, F: FnMut(B, I::Item) -> B>(it: I, init: B, mut f: F) -> B { let mut it = it; let mut a = init; loop { match it.next() { Some(x) => { a = f(a, x); } None => return a } } }
pub fn it_try_fold_res<B, E, I: Iterator, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> { let mut a = init; loop { match it.next() { Some(x) => { match f(a, x) { Ok(v) => { a = v; } Err(e) => return Err(e) } } None => return Ok(a) } } }
pub fn it_try_fold_opt<B, I: Iterator, F: FnMut(B, I::Item) -> Option<B>>(it: &mut I, init: B, mut f: F) -> Option<B> { let mut a = init; loop { match it.next() { Some(x) => { match f(a, x) { Some(v) => { a = v; } None => return None } } None => return Some(a) } } }
pub fn it_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { loop { match it.next() { Some(x) => { if f(x) { return true; } } None => return false } } }
pub fn it_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { loop { match it.next() { Some(x) => { if !f(x) { return false; } } None => return true } } }
pub fn it_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> { loop { match it.next() { Some(x) => { if f(&x) { return Some(x); } } None => return None } } }
pub fn it_find_map<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> { loop { match it.next() { Some(x) => { if let Some(y) = f(x) { return Some(y); } } None => return None } } }
pub fn it_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> { let mut n: usize = opaque(); loop { match it.next() { Some(x) => { if f(x) { return Some(opaque()); } } None => return None } } }
pub fn it_count<I: Iterator>(it: I) -> usize { let mut it = it; loop { match it.next() { Some(_) => {} None => return opaque() } } }
pub fn it_min_by_key<I: Iterator, K: Ord, F: FnMut(&I::Item) -> K>(it: I, mut f: F) -> Option<I::Item> { let mut it = it; let mut best = match it.next() { Some(x) => x, None => return None }; loop { match it.next() { Some(x) => { if f(&x) < f(&best) { best = x; } } None => return Some(best) } } }
pub fn it_max_by_key<I: Iterator, K: Ord, F: FnMut(&I::Item) -> K>(it: I, mut f: F) -> Option<I::Item> { let mut it = it; let mut best = match it.next() { Some(x) => x, None => return None }; loop { match it.next() { Some(x) => { if f(&x) >= f(&best) { best = x; } } None => return Some(best) } } }
pub fn it_min_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> Ordering>(it: I, mut f: F) -> Option<I::Item> { let mut it = it; let mut best = match it.next() { Some(x) => x, None => return None }; loop { match it.next() { Some(x) => { if let Ordering::Greater = f(&best, &x) { best = x; } } None => return Some(best) } } }
pub fn it_max_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> Ordering>(it: I, mut f: F) -> Option<I::Item> { let mut it = it; let mut best = match it.next() { Some(x) => x, None => return None }; loop { match it.next() { Some(x) => { match f(&best, &x) { Ordering::Greater => {} _ => { best = x; } } } None => return Some(best) } } }
pub fn it_min<I: Iterator>(it: I) -> Option<I::Item> where I::Item: Ord { let mut it = it; let mut best = match it.next() { Some(x) => x, None => return None }; loop { match it.next() { Some(x) => { if x < best { best = x; } } None => return Some(best) } } }
pub fn it_max<I: Iterator>(it: I) -> Option<I::Item> where I::Item: Ord { let mut it = it; let mut best = match it.next() { Some(x) => x, None => return None }; loop { match it.next() { Some(x) => { if x >= best { best = x; } } None => return Some(best) } } }
pub fn it_collect<I: Iterator, C>(it: I) -> C { let mut it = it; let mut c = new_collection::<C>(); loop { match it.next() { Some(x) => push_into(&mut c, x), None => return c } } }
pub fn it_collect_res<T, E, I: Iterator<Item = Result<T, E>>, C>(it: I) -> Result<C, E> { let mut it = it; let mut c = new_collection::<C>(); loop { match it.next() { Some(Ok(x)) => push_into(&mut c, x), Some(Err(e)) => return Err(e), None => return Ok(c) } } }
pub fn it_collect_opt<T, I: Iterator<Item = Option<T>>, C>(it: I) -> Option<C> { let mut it = it; let mut c = new_collection::<C>(); loop { match it.next() { Some(Some(x)) => push_into(&mut c, x), Some(None) => return None, None => return Some(c) } } }
pub fn coll_extend<C, I: IntoIterator>(c: &mut C, it: I) { let mut it = it.into_iter(); loop { match it.next() { Some(x) => push_into(c, x), None => return } } }
pub fn coll_retain1<C, T, F: FnMut(T) -> bool>(c: &mut C, mut f: F) { loop { if unknown() { break; } let k = f(elem(c)); retained(c, k); } }
pub fn coll_retain2<C, K, T, F: FnMut(K, T) -> bool>(c: &mut C, mut f: F) { loop { if unknown() { break; } let k = f(elem(c), elem(c)); retained(c, k); } }
pub fn retained<C>(_c: &mut C, _keep: bool) { loop {} }
// entries
pub fn ho0<R, F: FnMut() -> R, T>(mut f: F) -> T { loop { if unknown() { break; } f(); } opaque() }
pub fn ho1<A, R, F: FnMut(A) -> R, T>(mut f: F) -> T { loop { if unknown() { break; } f(opaque()); } opaque() }
pub fn ho2<A, B, R, F: FnMut(A, B) -> R, T>(mut f: F) -> T { loop { if unknown() { break; } f(opaque(), opaque()); } opaque() }
pub fn ho3<A, B, C, R, F: FnMut(A, B, C) -> R, T>(mut f: F) -> T { loop { if unknown() { break; } f(opaque(), opaque(), opaque()); } opaque() }
// called at most once
pub fn once0<R, F: FnOnce() -> R, T>(f: F) -> T { if unknown() { f(); } opaque() }

pub fn pord_lt<A: PartialOrd<B>, B>(a: &A, b: &B) -> bool { match a.partial_cmp(b) { Some(core::cmp::Ordering::Less) => true, _ => false } }
pub fn pord_gt<A: PartialOrd<B>, B>(a: &A, b: &B) -> bool { match a.partial_cmp(b) { Some(core::cmp::Ordering::Greater) => true, _ => false } }
pub fn pord_le<A: PartialOrd<B>, B>(a: &A, b: &B) -> bool { match a.partial_cmp(b) { Some(core::cmp::Ordering::Greater) | None => false, _ => true } }
pub fn pord_ge<A: PartialOrd<B>, B>(a: &A, b: &B) -> bool { match a.partial_cmp(b) { Some(core::cmp::Ordering::Less) | None => false, _ => true } }
pub fn opt_expect<T>(o: Option<T>, _m: &str) -> T { match o { Some(x) => x, None => panic!() } }
pub fn res_expect<T, E>(o: Result<T, E>, _m: &str) -> T { match o { Ok(x) => x, Err(_) => panic!() } }
