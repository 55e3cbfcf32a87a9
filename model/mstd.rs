//! Models of standard-library combinators, as plain Rust. These bodies are
//! extracted by the same driver and inlined by the analyzer in place of the
//! real ones; `prim_*` functions are interpreted by the analyzer itself.
#![allow(dead_code, unused, non_snake_case, unreachable_code, clippy::all)]

pub fn prim_len<S: ?Sized>(_s: &S) -> usize { loop {} }
pub fn prim_elem<S: ?Sized, T>(_s: &S, _i: usize) -> T { loop {} }
pub fn prim_eref<S: ?Sized, T: ?Sized>(_s: &S, _i: usize) -> &T { loop {} }
pub fn prim_emut<S: ?Sized, T>(_s: &mut S, _i: usize) -> &mut T { loop {} }
/// clone of a value: the value
pub fn prim_deref<R, T>(_r: R) -> T { loop {} }
pub fn prim_empty<C>() -> C { loop {} }
pub fn prim_put<C, T>(_c: &mut C, _x: T, _k: usize) { loop {} }
pub fn prim_pos<I: ?Sized>(_i: &I) -> usize { loop {} }
pub fn prim_mmap<S: ?Sized, T>(_s: &mut S, _i: usize) -> T { loop {} }
pub struct ValsMut<I> { pub it: I }
pub struct OptIter<T> { pub o: Option<T> }
pub struct EnumCnt<I> { pub it: I, pub n: usize }
pub fn ValsMut_next<I: Iterator<Item = (K, V)>, K, V>(it: &mut ValsMut<I>) -> Option<V> { match it.it.next() { Some((_, v)) => Some(v), None => None } }
pub fn prim_default<T>() -> T { loop {} }
pub fn prim_iter<C, I>(_c: C) -> I { loop {} }
pub fn prim_split<X, A, B, V, D, R>(_x: &mut X, _a: &A, _b: &B, _v: V, _d: D) -> R { loop {} }
pub fn prim_panic() -> ! { loop {} }
pub fn prim_emap<S: ?Sized, T>(_s: &mut S, _i: usize) -> T { loop {} }
pub fn prim_lt<T>(_a: &T, _b: &T) -> bool { loop {} }
pub fn prim_eq<T, U>(_a: &T, _b: &U) -> bool { loop {} }

// ---- iterators ----
pub struct SliceIter<'a, S: ?Sized> { pub s: &'a S, pub i: usize, pub n: usize }
pub struct SliceIterMut<'a, S: ?Sized> { pub s: &'a mut S, pub i: usize, pub n: usize }
pub struct SeqIter<S> { pub s: S, pub i: usize, pub n: usize }
pub struct MapIterMut<'a, S: ?Sized> { pub s: &'a mut S, pub i: usize, pub n: usize }
pub struct Rev<I> { pub it: I }
pub struct Map<I, F> { pub it: I, pub f: F }
pub struct Filter<I, F> { pub it: I, pub f: F }
pub struct FilterMap<I, F> { pub it: I, pub f: F }
pub struct FlatMap<I, F, J> { pub it: I, pub f: F, pub front: Option<J>, pub back: Option<J> }
pub struct Flatten<I, J> { pub it: I, pub front: Option<J>, pub back: Option<J> }
pub struct Chain<A, B> { pub a: Option<A>, pub b: Option<B> }
pub struct ZipEq<A, B> { pub a: A, pub b: B }
pub struct Zip<A, B> { pub a: A, pub b: B }
pub struct Enumerate<I> { pub it: I, pub n: usize }
pub struct Skip<I> { pub it: I, pub n: usize }
pub struct Take<I> { pub it: I, pub n: usize }
pub struct Cloned<I> { pub it: I }
pub struct Peekable<I, T> { pub it: I, pub peeked: Option<Option<T>> }
pub struct TakeWhile<I, F> { pub it: I, pub f: F, pub done: bool }
pub struct SkipWhile<I, F> { pub it: I, pub f: F, pub started: bool }
pub struct MapWhile<I, F> { pub it: I, pub f: F }
pub struct Inspect<I, F> { pub it: I, pub f: F }
pub struct Scan<I, F, S> { pub it: I, pub f: F, pub st: S }
pub struct FromFn<F> { pub f: F }
pub struct Successors<F, T> { pub f: F, pub nx: Option<T> }
pub struct Repeat<T> { pub x: T }
pub struct RepeatWith<F> { pub f: F }
pub struct StepBy<I> { pub it: I, pub step: usize, pub first: bool }
pub struct Fuse<I> { pub it: Option<I> }

pub fn SliceIter_next<'a, S: ?Sized, T: 'a>(it: &mut SliceIter<'a, S>) -> Option<&'a T> {
  if it.i < it.n { let i = it.i; it.i = i + 1; Some(prim_eref(it.s, i)) } else { None }
}
pub fn SliceIter_next_back<'a, S: ?Sized, T: 'a>(it: &mut SliceIter<'a, S>) -> Option<&'a T> {
  if it.i < it.n { let n = it.n - 1; it.n = n; Some(prim_eref(it.s, n)) } else { None }
}
pub fn SliceIterMut_next<'a, S: ?Sized, T: 'a>(it: &mut SliceIterMut<'a, S>) -> Option<&'a mut T> {
  if it.i < it.n { let i = it.i; it.i = i + 1; Some(prim_emap(it.s, i)) } else { None }
}
pub fn SliceIterMut_next_back<'a, S: ?Sized, T: 'a>(it: &mut SliceIterMut<'a, S>) -> Option<&'a mut T> {
  if it.i < it.n { let n = it.n - 1; it.n = n; Some(prim_emap(it.s, n)) } else { None }
}
pub fn MapIterMut_next<'a, S: ?Sized, T: 'a>(it: &mut MapIterMut<'a, S>) -> Option<T> {
  if it.i < it.n { let i = it.i; it.i = i + 1; Some(prim_mmap(it.s, i)) } else { None }
}
pub fn SeqIter_next<S, T>(it: &mut SeqIter<S>) -> Option<T> {
  if it.i < it.n { let i = it.i; it.i = i + 1; Some(prim_elem(&it.s, i)) } else { None }
}
pub fn SeqIter_next_back<S, T>(it: &mut SeqIter<S>) -> Option<T> {
  if it.i < it.n { let n = it.n - 1; it.n = n; Some(prim_elem(&it.s, n)) } else { None }
}
pub fn Rev_next<I: DoubleEndedIterator>(it: &mut Rev<I>) -> Option<I::Item> { it.it.next_back() }
pub fn Rev_next_back<I: DoubleEndedIterator>(it: &mut Rev<I>) -> Option<I::Item> { it.it.next() }
pub fn Map_next<I: Iterator, F: FnMut(I::Item) -> R, R>(it: &mut Map<I, F>) -> Option<R> {
  match it.it.next() { Some(x) => Some((it.f)(x)), None => None }
}
pub fn Map_next_back<I: DoubleEndedIterator, F: FnMut(I::Item) -> R, R>(it: &mut Map<I, F>) -> Option<R> {
  match it.it.next_back() { Some(x) => Some((it.f)(x)), None => None }
}
pub fn Filter_next<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut Filter<I, F>) -> Option<I::Item> {
  while let Some(x) = it.it.next() { if (it.f)(&x) { return Some(x); } }
  None
}
pub fn Filter_next_back<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool>(it: &mut Filter<I, F>) -> Option<I::Item> {
  while let Some(x) = it.it.next_back() { if (it.f)(&x) { return Some(x); } }
  None
}
pub fn FilterMap_next<I: Iterator, F: FnMut(I::Item) -> Option<R>, R>(it: &mut FilterMap<I, F>) -> Option<R> {
  while let Some(x) = it.it.next() { if let Some(y) = (it.f)(x) { return Some(y); } }
  None
}
pub fn FilterMap_next_back<I: DoubleEndedIterator, F: FnMut(I::Item) -> Option<R>, R>(it: &mut FilterMap<I, F>) -> Option<R> {
  while let Some(x) = it.it.next_back() { if let Some(y) = (it.f)(x) { return Some(y); } }
  None
}
pub fn FlatMap_next<I: Iterator, F: FnMut(I::Item) -> U, U, J: Iterator>(it: &mut FlatMap<I, F, J>) -> Option<J::Item> {
  loop {
    if let Some(j) = &mut it.front {
      if let Some(x) = j.next() { return Some(x); }
      it.front = None;
    }
    match it.it.next() {
      Some(x) => { it.front = Some(prim_iter((it.f)(x))); }
      None => return None,
    }
  }
}
pub fn Flatten_next<I: Iterator, J: Iterator>(it: &mut Flatten<I, J>) -> Option<J::Item> {
  loop {
    if let Some(j) = &mut it.front {
      if let Some(x) = j.next() { return Some(x); }
      it.front = None;
    }
    match it.it.next() {
      Some(x) => { it.front = Some(prim_iter(x)); }
      None => return None,
    }
  }
}
pub fn Chain_next<A: Iterator, B: Iterator<Item = A::Item>>(it: &mut Chain<A, B>) -> Option<A::Item> {
  if let Some(a) = &mut it.a {
    if let Some(x) = a.next() { return Some(x); }
    it.a = None;
  }
  match &mut it.b { Some(b) => b.next(), None => None }
}
pub fn Chain_next_back<A: DoubleEndedIterator, B: DoubleEndedIterator<Item = A::Item>>(it: &mut Chain<A, B>) -> Option<A::Item> {
  if let Some(b) = &mut it.b {
    if let Some(x) = b.next_back() { return Some(x); }
    it.b = None;
  }
  match &mut it.a { Some(a) => a.next_back(), None => None }
}
pub fn Zip_next<A: Iterator, B: Iterator>(it: &mut Zip<A, B>) -> Option<(A::Item, B::Item)> {
  match it.a.next() {
    Some(x) => match it.b.next() { Some(y) => Some((x, y)), None => None },
    None => None,
  }
}
pub fn ZipEq_next<A: Iterator, B: Iterator>(it: &mut ZipEq<A, B>) -> Option<(A::Item, B::Item)> {
  match it.a.next() {
    Some(x) => match it.b.next() { Some(y) => Some((x, y)), None => None },
    None => None,
  }
}
// both sides have the same length
pub fn ZipEq_next_back<A: DoubleEndedIterator, B: DoubleEndedIterator>(it: &mut ZipEq<A, B>) -> Option<(A::Item, B::Item)> {
  match it.a.next_back() {
    Some(x) => match it.b.next_back() { Some(y) => Some((x, y)), None => None },
    None => None,
  }
}
pub fn Enumerate_next<I: Iterator>(it: &mut Enumerate<I>) -> Option<(usize, I::Item)> {
  let n = prim_pos(&it.it) + it.n;
  match it.it.next() { Some(x) => Some((n, x)), None => None }
}
pub fn EnumCnt_next<I: Iterator>(it: &mut EnumCnt<I>) -> Option<(usize, I::Item)> {
  match it.it.next() { Some(x) => { let n = it.n; it.n = n + 1; Some((n, x)) } None => None }
}
pub fn Enumerate_next_back<I: DoubleEndedIterator>(it: &mut Enumerate<I>) -> Option<(usize, I::Item)> {
  let len = prim_pos(&it.it) + it.n + prim_len(&it.it);
  match it.it.next_back() { Some(x) => Some((len - 1, x)), None => None }
}
pub fn Skip_next<I: Iterator>(it: &mut Skip<I>) -> Option<I::Item> {
  while it.n > 0 {
    it.n -= 1;
    if it.it.next().is_none() { return None; }
  }
  it.it.next()
}
pub fn Take_next<I: Iterator>(it: &mut Take<I>) -> Option<I::Item> {
  if it.n > 0 { it.n -= 1; it.it.next() } else { None }
}
pub fn Cloned_next<I: Iterator, T>(it: &mut Cloned<I>) -> Option<T> {
  match it.it.next() { Some(x) => Some(prim_deref(x)), None => None }
}
pub fn Cloned_next_back<I: DoubleEndedIterator, T>(it: &mut Cloned<I>) -> Option<T> {
  match it.it.next_back() { Some(x) => Some(prim_deref(x)), None => None }
}
pub fn Peekable_next<I: Iterator>(it: &mut Peekable<I, I::Item>) -> Option<I::Item> {
  match it.peeked.take() { Some(x) => x, None => it.it.next() }
}
pub fn peekable_peek<I: Iterator>(it: &mut Peekable<I, I::Item>) -> Option<&I::Item> {
  if it.peeked.is_none() { it.peeked = Some(it.it.next()); }
  match &it.peeked { Some(Some(x)) => Some(x), _ => None }
}
pub fn peekable_next_if<I: Iterator, F: FnOnce(&I::Item) -> bool>(it: &mut Peekable<I, I::Item>, f: F) -> Option<I::Item> {
  match Peekable_next(it) {
    Some(x) => if f(&x) { Some(x) } else { it.peeked = Some(Some(x)); None },
    None => { it.peeked = Some(None); None }
  }
}
pub fn TakeWhile_next<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut TakeWhile<I, F>) -> Option<I::Item> {
  if it.done { return None; }
  match it.it.next() {
    Some(x) => if (it.f)(&x) { Some(x) } else { it.done = true; None },
    None => None,
  }
}
pub fn SkipWhile_next<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut SkipWhile<I, F>) -> Option<I::Item> {
  if it.started { return it.it.next(); }
  while let Some(x) = it.it.next() {
    if !(it.f)(&x) { it.started = true; return Some(x); }
  }
  None
}
pub fn MapWhile_next<I: Iterator, F: FnMut(I::Item) -> Option<R>, R>(it: &mut MapWhile<I, F>) -> Option<R> {
  match it.it.next() { Some(x) => (it.f)(x), None => None }
}
pub fn Inspect_next<I: Iterator, F: FnMut(&I::Item)>(it: &mut Inspect<I, F>) -> Option<I::Item> {
  match it.it.next() { Some(x) => { (it.f)(&x); Some(x) } None => None }
}
pub fn Scan_next<I: Iterator, S, F: FnMut(&mut S, I::Item) -> Option<R>, R>(it: &mut Scan<I, F, S>) -> Option<R> {
  match it.it.next() { Some(x) => (it.f)(&mut it.st, x), None => None }
}
pub fn FromFn_next<F: FnMut() -> Option<R>, R>(it: &mut FromFn<F>) -> Option<R> { (it.f)() }
pub fn Successors_next<F: FnMut(&T) -> Option<T>, T>(it: &mut Successors<F, T>) -> Option<T> {
  match it.nx.take() { Some(x) => { it.nx = (it.f)(&x); Some(x) } None => None }
}
pub fn Repeat_next<T>(it: &mut Repeat<T>) -> Option<T> { Some(prim_deref(&it.x)) }
pub fn RepeatWith_next<F: FnMut() -> T, T>(it: &mut RepeatWith<F>) -> Option<T> { Some((it.f)()) }
pub fn Fuse_next<I: Iterator>(it: &mut Fuse<I>) -> Option<I::Item> {
  match &mut it.it { Some(i) => match i.next() { Some(x) => Some(x), None => { it.it = None; None } }, None => None }
}
pub struct RangeT { pub start: usize, pub end: usize }
pub fn Range_next(it: &mut std::ops::Range<usize>) -> Option<usize> {
  if it.start < it.end { let i = it.start; it.start = i + 1; Some(i) } else { None }
}
pub fn Range_next_back(it: &mut std::ops::Range<usize>) -> Option<usize> {
  if it.start < it.end { let i = it.end - 1; it.end = i; Some(i) } else { None }
}
pub struct RangeInc { pub a: usize, pub b: usize, pub done: bool }
pub fn RangeInc_next(it: &mut RangeInc) -> Option<usize> {
  if it.done { return None; }
  if it.a < it.b { let i = it.a; it.a = i + 1; Some(i) }
  else if it.a == it.b { it.done = true; Some(it.a) }
  else { None }
}
pub struct RangeFromT { pub a: usize }
pub fn RangeFromT_next(it: &mut RangeFromT) -> Option<usize> { let i = it.a; it.a = i + 1; Some(i) }
pub fn OptIter_next<T>(it: &mut OptIter<T>) -> Option<T> { it.o.take() }
pub fn OptIter_next_back<T>(it: &mut OptIter<T>) -> Option<T> { it.o.take() }

// ---- consumers (it is any iterator value) ----
pub fn it_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
  while let Some(x) = it.next() { if f(x) { return true; } }
  false
}
pub fn it_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
  while let Some(x) = it.next() { if !f(x) { return false; } }
  true
}
pub fn it_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
  while let Some(x) = it.next() { if f(&x) { return Some(x); } }
  None
}
pub fn it_rfind<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
  while let Some(x) = it.next_back() { if f(&x) { return Some(x); } }
  None
}
pub fn it_find_map<I: Iterator, R, F: FnMut(I::Item) -> Option<R>>(it: &mut I, mut f: F) -> Option<R> {
  while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } }
  None
}
pub fn it_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
  let mut n = 0;
  while let Some(x) = it.next() { if f(x) { return Some(n); } n += 1; }
  None
}
pub fn it_rposition<I: DoubleEndedIterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
  let mut n: usize = prim_len(it);
  while let Some(x) = it.next_back() { n -= 1; if f(x) { return Some(n); } }
  None
}
pub fn it_nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> {
  while let Some(x) = it.next() { if n == 0 { return Some(x); } n -= 1; }
  None
}
pub fn it_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
  while let Some(x) = it.next() { f(x); }
}
pub fn it_try_for_each<I: Iterator, F: FnMut(I::Item) -> Result<(), E>, E>(it: &mut I, mut f: F) -> Result<(), E> {
  while let Some(x) = it.next() { match f(x) { Ok(()) => {} Err(e) => return Err(e) } }
  Ok(())
}
pub fn it_try_fold<I: Iterator, A, F: FnMut(A, I::Item) -> Result<A, E>, E>(it: &mut I, init: A, mut f: F) -> Result<A, E> {
  let mut a = init;
  while let Some(x) = it.next() { match f(a, x) { Ok(b) => { a = b; } Err(e) => return Err(e) } }
  Ok(a)
}
pub fn it_fold<I: Iterator, A, F: FnMut(A, I::Item) -> A>(mut it: I, init: A, mut f: F) -> A {
  let mut a = init;
  while let Some(x) = it.next() { a = f(a, x); }
  a
}
pub fn it_rfold<I: DoubleEndedIterator, A, F: FnMut(A, I::Item) -> A>(mut it: I, init: A, mut f: F) -> A {
  let mut a = init;
  while let Some(x) = it.next_back() { a = f(a, x); }
  a
}
pub fn it_reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
  let mut a = match it.next() { Some(x) => x, None => return None };
  while let Some(x) = it.next() { a = f(a, x); }
  Some(a)
}
pub fn it_count<I: Iterator>(mut it: I) -> usize {
  let mut n = 0;
  while let Some(_) = it.next() { n += 1; }
  n
}
pub fn it_last<I: Iterator>(mut it: I) -> Option<I::Item> {
  let mut r = None;
  while let Some(x) = it.next() { r = Some(x); }
  r
}
pub fn it_sum<I: Iterator<Item = usize>>(mut it: I) -> usize {
  let mut n = 0;
  while let Some(x) = it.next() { n += x; }
  n
}
pub fn it_max<I: Iterator>(mut it: I) -> Option<I::Item> {
  let mut a = match it.next() { Some(x) => x, None => return None };
  while let Some(x) = it.next() { if !prim_lt(&x, &a) { a = x; } }
  Some(a)
}
pub fn it_min<I: Iterator>(mut it: I) -> Option<I::Item> {
  let mut a = match it.next() { Some(x) => x, None => return None };
  while let Some(x) = it.next() { if prim_lt(&x, &a) { a = x; } }
  Some(a)
}
pub fn it_collect<I: Iterator, C>(mut it: I, mut c: C, k: usize) -> C {
  while let Some(x) = it.next() { prim_put(&mut c, x, k); }
  c
}
pub fn lang_split<X, A, B, I: Iterator, V, D, R>(x: &mut X, a: &A, b: &B, it: I, v: V, k: usize, d: D) -> R {
  let v = it_collect(it, v, k);
  prim_split(x, a, b, v, d)
}
pub fn it_collect_opt<I: Iterator<Item = Option<T>>, T, C>(mut it: I, mut c: C, k: usize) -> Option<C> {
  while let Some(x) = it.next() { match x { Some(y) => prim_put(&mut c, y, k), None => return None } }
  Some(c)
}
pub fn it_collect_res<I: Iterator<Item = Result<T, E>>, T, E, C>(mut it: I, mut c: C, k: usize) -> Result<C, E> {
  while let Some(x) = it.next() { match x { Ok(y) => prim_put(&mut c, y, k), Err(e) => return Err(e) } }
  Ok(c)
}
pub fn it_extend<I: Iterator, C>(c: &mut C, mut it: I, k: usize) {
  while let Some(x) = it.next() { prim_put(c, x, k); }
}
pub fn it_partition<I: Iterator, F: FnMut(&I::Item) -> bool, C>(mut it: I, mut f: F, mut a: C, mut b: C, k: usize) -> (C, C) {
  while let Some(x) = it.next() { if f(&x) { prim_put(&mut a, x, k); } else { prim_put(&mut b, x, k); } }
  (a, b)
}
pub fn it_try_fold_opt<I: Iterator, A, F: FnMut(A, I::Item) -> Option<A>>(it: &mut I, init: A, mut f: F) -> Option<A> {
  let mut a = init;
  while let Some(x) = it.next() { match f(a, x) { Some(b) => { a = b; } None => return None } }
  Some(a)
}
pub fn it_eq<I: Iterator, J: Iterator>(mut a: I, mut b: J) -> bool {
  loop {
    match a.next() {
      Some(x) => match b.next() { Some(y) => if !prim_eq(&x, &y) { return false; }, None => return false },
      None => return b.next().is_none(),
    }
  }
}
pub fn vec_retain<T, F: FnMut(&T) -> bool, I: Iterator<Item = T>, C>(mut it: I, mut f: F, mut c: C, k: usize) -> C {
  while let Some(x) = it.next() { if f(&x) { prim_put(&mut c, x, k); } }
  c
}
pub fn vec_resize_with<C, T, F: FnMut() -> T>(c: &mut C, n: usize, mut f: F) {
  while prim_len(c) < n { prim_put(c, f(), 0); }
}

// ---- Option / Result ----
pub fn opt_map<T, R, F: FnOnce(T) -> R>(o: Option<T>, f: F) -> Option<R> { match o { Some(x) => Some(f(x)), None => None } }
pub fn opt_and_then<T, R, F: FnOnce(T) -> Option<R>>(o: Option<T>, f: F) -> Option<R> { match o { Some(x) => f(x), None => None } }
pub fn opt_and<T, R>(o: Option<T>, p: Option<R>) -> Option<R> { match o { Some(_) => p, None => None } }
pub fn opt_or<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => p } }
pub fn opt_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn opt_xor<T>(o: Option<T>, p: Option<T>) -> Option<T> {
  match (o, p) { (Some(x), None) => Some(x), (None, Some(y)) => Some(y), _ => None }
}
pub fn opt_unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => prim_panic() } }
pub fn opt_expect<T>(o: Option<T>, m: &str) -> T { match o { Some(x) => x, None => prim_panic() } }
pub fn opt_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn opt_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn opt_unwrap_or_default<T>(o: Option<T>) -> T { match o { Some(x) => x, None => prim_default() } }
pub fn opt_map_or<T, R, F: FnOnce(T) -> R>(o: Option<T>, d: R, f: F) -> R { match o { Some(x) => f(x), None => d } }
pub fn opt_map_or_else<T, R, D: FnOnce() -> R, F: FnOnce(T) -> R>(o: Option<T>, d: D, f: F) -> R { match o { Some(x) => f(x), None => d() } }
pub fn opt_is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn opt_is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn opt_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn opt_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn opt_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn opt_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn opt_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
pub fn opt_take<T>(o: &mut Option<T>) -> Option<T> { std::mem::replace(o, None) }
pub fn opt_replace<T>(o: &mut Option<T>, x: T) -> Option<T> { std::mem::replace(o, Some(x)) }
pub fn opt_insert<T>(o: &mut Option<T>, x: T) -> &mut T { *o = Some(x); match o { Some(x) => x, None => prim_panic() } }
pub fn opt_get_or_insert<T>(o: &mut Option<T>, x: T) -> &mut T { if let None = o { *o = Some(x); } match o { Some(x) => x, None => prim_panic() } }
pub fn opt_get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T { if let None = o { *o = Some(f()); } match o { Some(x) => x, None => prim_panic() } }
pub fn opt_as_ref<T>(o: &Option<T>) -> Option<&T> { match o { Some(x) => Some(x), None => None } }
pub fn opt_as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match o { Some(x) => Some(x), None => None } }
pub fn opt_cloned<R, T>(o: Option<R>) -> Option<T> { match o { Some(x) => Some(prim_deref(x)), None => None } }
pub fn opt_zip<A, B>(a: Option<A>, b: Option<B>) -> Option<(A, B)> { match a { Some(x) => match b { Some(y) => Some((x, y)), None => None }, None => None } }
pub fn opt_flatten<A>(a: Option<Option<A>>) -> Option<A> { match a { Some(x) => x, None => None } }
pub fn opt_transpose<A, E>(a: Option<Result<A, E>>) -> Result<Option<A>, E> { match a { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
pub fn opt_inspect<A, F: FnOnce(&A)>(a: Option<A>, f: F) -> Option<A> { if let Some(x) = &a { f(x); } a }

pub fn res_map<T, E, R, F: FnOnce(T) -> R>(o: Result<T, E>, f: F) -> Result<R, E> { match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn res_map_err<T, E, R, F: FnOnce(E) -> R>(o: Result<T, E>, f: F) -> Result<T, R> { match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn res_and_then<T, E, R, F: FnOnce(T) -> Result<R, E>>(o: Result<T, E>, f: F) -> Result<R, E> { match o { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn res_or_else<T, E, R, F: FnOnce(E) -> Result<T, R>>(o: Result<T, E>, f: F) -> Result<T, R> { match o { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn res_unwrap<T, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => prim_panic() } }
pub fn res_expect<T, E>(o: Result<T, E>, m: &str) -> T { match o { Ok(x) => x, Err(_) => prim_panic() } }
pub fn res_unwrap_err<T, E>(o: Result<T, E>) -> E { match o { Ok(_) => prim_panic(), Err(e) => e } }
pub fn res_unwrap_or<T, E>(o: Result<T, E>, d: T) -> T { match o { Ok(x) => x, Err(_) => d } }
pub fn res_unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T { match o { Ok(x) => x, Err(e) => f(e) } }
pub fn res_unwrap_or_default<T, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => prim_default() } }
pub fn res_map_or<T, E, R, F: FnOnce(T) -> R>(o: Result<T, E>, d: R, f: F) -> R { match o { Ok(x) => f(x), Err(_) => d } }
pub fn res_map_or_else<T, E, R, D: FnOnce(E) -> R, F: FnOnce(T) -> R>(o: Result<T, E>, d: D, f: F) -> R { match o { Ok(x) => f(x), Err(e) => d(e) } }
pub fn res_ok<T, E>(o: Result<T, E>) -> Option<T> { match o { Ok(x) => Some(x), Err(_) => None } }
pub fn res_err<T, E>(o: Result<T, E>) -> Option<E> { match o { Ok(_) => None, Err(e) => Some(e) } }
pub fn res_is_ok<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => true, Err(_) => false } }
pub fn res_is_err<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => false, Err(_) => true } }
pub fn res_is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(x) => f(x), Err(_) => false } }
pub fn res_as_ref<T, E>(o: &Result<T, E>) -> Result<&T, &E> { match o { Ok(x) => Ok(x), Err(e) => Err(e) } }
pub fn res_inspect_err<T, E, F: FnOnce(&E)>(o: Result<T, E>, f: F) -> Result<T, E> { if let Err(e) = &o { f(e); } o }
pub fn res_or<T, E, R>(o: Result<T, E>, p: Result<T, R>) -> Result<T, R> { match o { Ok(x) => Ok(x), Err(_) => p } }
pub fn res_and<T, E, R>(o: Result<T, E>, p: Result<R, E>) -> Result<R, E> { match o { Ok(_) => p, Err(e) => Err(e) } }
pub fn opt_try<T>(o: Option<T>) -> std::ops::ControlFlow<Option<T>, T> { match o { Some(x) => std::ops::ControlFlow::Continue(x), None => std::ops::ControlFlow::Break(None) } }
pub fn res_try<T, E>(o: Result<T, E>) -> std::ops::ControlFlow<Result<T, E>, T> { match o { Ok(x) => std::ops::ControlFlow::Continue(x), Err(e) => std::ops::ControlFlow::Break(Err(e)) } }

pub fn bool_then<R, F: FnOnce() -> R>(b: bool, f: F) -> Option<R> { if b { Some(f()) } else { None } }
pub fn bool_then_some<R>(b: bool, x: R) -> Option<R> { if b { Some(x) } else { None } }

// ---- slices / Vec ----
pub fn slice_get<S: ?Sized, T>(s: &S, i: usize) -> Option<&T> { if i < prim_len(s) { Some(prim_eref(s, i)) } else { None } }
pub fn slice_get_mut<S: ?Sized, T>(s: &mut S, i: usize) -> Option<&mut T> { if i < prim_len(s) { Some(prim_emut(s, i)) } else { None } }
pub fn slice_first<S: ?Sized, T>(s: &S) -> Option<&T> { if 0 < prim_len(s) { Some(prim_eref(s, 0)) } else { None } }
pub fn slice_first_mut<S: ?Sized, T>(s: &mut S) -> Option<&mut T> { if 0 < prim_len(s) { Some(prim_emut(s, 0)) } else { None } }
pub fn slice_last<S: ?Sized, T>(s: &S) -> Option<&T> { let n = prim_len(s); if 0 < n { Some(prim_eref(s, n - 1)) } else { None } }
pub fn slice_last_mut<S: ?Sized, T>(s: &mut S) -> Option<&mut T> { let n = prim_len(s); if 0 < n { Some(prim_emut(s, n - 1)) } else { None } }

pub fn checked_sub(a: usize, b: usize) -> Option<usize> { if b <= a { Some(a - b) } else { None } }
pub fn saturating_sub(a: usize, b: usize) -> usize { if b <= a { a - b } else { 0 } }
pub fn int_min(a: usize, b: usize) -> usize { if b < a { b } else { a } }
pub fn int_max(a: usize, b: usize) -> usize { if a < b { b } else { a } }
pub fn abs_diff(a: usize, b: usize) -> usize { if a < b { b - a } else { a - b } }

// ordering
pub fn ord_then<F>(o: std::cmp::Ordering, p: std::cmp::Ordering) -> std::cmp::Ordering { match o { std::cmp::Ordering::Equal => p, o => o } }
pub fn ord_then_with<F: FnOnce() -> std::cmp::Ordering>(o: std::cmp::Ordering, f: F) -> std::cmp::Ordering { match o { std::cmp::Ordering::Equal => f(), o => o } }
pub fn ord_reverse(o: std::cmp::Ordering) -> std::cmp::Ordering { match o { std::cmp::Ordering::Less => std::cmp::Ordering::Greater, std::cmp::Ordering::Greater => std::cmp::Ordering::Less, std::cmp::Ordering::Equal => std::cmp::Ordering::Equal } }

// map entries
pub struct Entry<'a, M, K> { pub m: &'a mut M, pub k: K }
