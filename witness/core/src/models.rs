//! Bodies standing for standard-library functions whose own MIR is not available to the
//! analysis.  They are never run: the analyser interprets their MIR in place of a call.
#![allow(missing_docs, clippy::all)]

pub trait It: Sized {
    type Item;
    fn next(&mut self) -> Option<Self::Item>;

    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, None)
    }
    fn take(self, n: usize) -> Take<Self> {
        Take { iter: self, n }
    }
    fn skip(self, n: usize) -> Skip<Self> {
        Skip { iter: self, n }
    }
    fn map<B, F: FnMut(Self::Item) -> B>(self, f: F) -> Map<Self, F> {
        Map { iter: self, f }
    }
    fn filter<F: FnMut(&Self::Item) -> bool>(self, f: F) -> Filter<Self, F> {
        Filter { iter: self, f }
    }
    fn filter_map<B, F: FnMut(Self::Item) -> Option<B>>(self, f: F) -> FilterMap<Self, F> {
        FilterMap { iter: self, f }
    }
    fn take_while<F: FnMut(&Self::Item) -> bool>(self, f: F) -> TakeWhile<Self, F> {
        TakeWhile { iter: self, f, done: false }
    }
    fn map_while<B, F: FnMut(Self::Item) -> Option<B>>(self, f: F) -> MapWhile<Self, F> {
        MapWhile { iter: self, f }
    }
    fn enumerate(self) -> Enumerate<Self> {
        Enumerate { iter: self, count: 0 }
    }
    fn zip<U: It>(self, o: U) -> Zip<Self, U> {
        Zip { a: self, b: o }
    }
    fn chain<U: It<Item = Self::Item>>(self, o: U) -> Chain<Self, U> {
        Chain { a: Some(self), b: o }
    }
    fn cloned(self) -> Cloned<Self> {
        Cloned { iter: self }
    }
    fn copied(self) -> Copied<Self> {
        Copied { iter: self }
    }
    fn fuse(self) -> Fuse<Self> {
        Fuse { iter: Some(self) }
    }
    fn peekable(self) -> Peekable<Self> {
        Peekable { iter: self, peeked: None }
    }
    fn by_ref(&mut self) -> &mut Self {
        self
    }
    fn all<F: FnMut(Self::Item) -> bool>(&mut self, mut f: F) -> bool {
        loop {
            match self.next() {
                None => return true,
                Some(x) => {
                    if !f(x) {
                        return false;
                    }
                }
            }
        }
    }
    fn any<F: FnMut(Self::Item) -> bool>(&mut self, mut f: F) -> bool {
        loop {
            match self.next() {
                None => return false,
                Some(x) => {
                    if f(x) {
                        return true;
                    }
                }
            }
        }
    }
    fn find<F: FnMut(&Self::Item) -> bool>(&mut self, mut f: F) -> Option<Self::Item> {
        loop {
            match self.next() {
                None => return None,
                Some(x) => {
                    if f(&x) {
                        return Some(x);
                    }
                }
            }
        }
    }
    fn find_map<B, F: FnMut(Self::Item) -> Option<B>>(&mut self, mut f: F) -> Option<B> {
        loop {
            match self.next() {
                None => return None,
                Some(x) => {
                    let r = f(x);
                    if r.is_some() {
                        return r;
                    }
                }
            }
        }
    }
    fn position<F: FnMut(Self::Item) -> bool>(&mut self, mut f: F) -> Option<usize> {
        let mut i = 0;
        loop {
            match self.next() {
                None => return None,
                Some(x) => {
                    if f(x) {
                        return Some(i);
                    }
                    i += 1;
                }
            }
        }
    }
    fn fold<B, F: FnMut(B, Self::Item) -> B>(mut self, init: B, mut f: F) -> B {
        let mut acc = init;
        loop {
            match self.next() {
                None => return acc,
                Some(x) => acc = f(acc, x),
            }
        }
    }
    fn for_each<F: FnMut(Self::Item)>(mut self, mut f: F) {
        loop {
            match self.next() {
                None => return,
                Some(x) => f(x),
            }
        }
    }
    fn count(mut self) -> usize {
        let mut n = 0;
        loop {
            match self.next() {
                None => return n,
                Some(_) => n += 1,
            }
        }
    }
    fn last(mut self) -> Option<Self::Item> {
        let mut l = None;
        loop {
            match self.next() {
                None => return l,
                Some(x) => l = Some(x),
            }
        }
    }
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let mut i = 0;
        while i < n {
            if self.next().is_none() {
                return None;
            }
            i += 1;
        }
        self.next()
    }
    fn eq<O: It>(mut self, o: O) -> bool
    where
        Self::Item: PartialEq<O::Item>,
    {
        let mut o = o;
        loop {
            match self.next() {
                None => return o.next().is_none(),
                Some(x) => match o.next() {
                    None => return false,
                    Some(y) => {
                        if !(x == y) {
                            return false;
                        }
                    }
                },
            }
        }
    }
    fn ne<O: It>(self, o: O) -> bool
    where
        Self::Item: PartialEq<O::Item>,
    {
        !self.eq(o)
    }
}

pub struct Take<I> {
    iter: I,
    n: usize,
}
impl<I: It> It for Take<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.n == 0 {
            None
        } else {
            self.n -= 1;
            self.iter.next()
        }
    }
}
pub struct Skip<I> {
    iter: I,
    n: usize,
}
impl<I: It> It for Skip<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while self.n > 0 {
            self.n -= 1;
            if self.iter.next().is_none() {
                return None;
            }
        }
        self.iter.next()
    }
}
pub struct Map<I, F> {
    iter: I,
    f: F,
}
impl<B, I: It, F: FnMut(I::Item) -> B> It for Map<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        match self.iter.next() {
            None => None,
            Some(x) => Some((self.f)(x)),
        }
    }
}
pub struct Filter<I, F> {
    iter: I,
    f: F,
}
impl<I: It, F: FnMut(&I::Item) -> bool> It for Filter<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        loop {
            match self.iter.next() {
                None => return None,
                Some(x) => {
                    if (self.f)(&x) {
                        return Some(x);
                    }
                }
            }
        }
    }
}
pub struct FilterMap<I, F> {
    iter: I,
    f: F,
}
impl<B, I: It, F: FnMut(I::Item) -> Option<B>> It for FilterMap<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        loop {
            match self.iter.next() {
                None => return None,
                Some(x) => match (self.f)(x) {
                    None => {}
                    Some(y) => return Some(y),
                },
            }
        }
    }
}
pub struct TakeWhile<I, F> {
    iter: I,
    f: F,
    done: bool,
}
impl<I: It, F: FnMut(&I::Item) -> bool> It for TakeWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.done {
            return None;
        }
        match self.iter.next() {
            None => None,
            Some(x) => {
                if (self.f)(&x) {
                    Some(x)
                } else {
                    self.done = true;
                    None
                }
            }
        }
    }
}
pub struct MapWhile<I, F> {
    iter: I,
    f: F,
}
impl<B, I: It, F: FnMut(I::Item) -> Option<B>> It for MapWhile<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        match self.iter.next() {
            None => None,
            Some(x) => (self.f)(x),
        }
    }
}
pub struct Enumerate<I> {
    iter: I,
    count: usize,
}
impl<I: It> It for Enumerate<I> {
    type Item = (usize, I::Item);
    fn next(&mut self) -> Option<(usize, I::Item)> {
        match self.iter.next() {
            None => None,
            Some(x) => {
                let i = self.count;
                self.count += 1;
                Some((i, x))
            }
        }
    }
}
pub struct Zip<A, B> {
    a: A,
    b: B,
}
impl<A: It, B: It> It for Zip<A, B> {
    type Item = (A::Item, B::Item);
    fn next(&mut self) -> Option<(A::Item, B::Item)> {
        match self.a.next() {
            None => None,
            Some(x) => match self.b.next() {
                None => None,
                Some(y) => Some((x, y)),
            },
        }
    }
}
pub struct Chain<A, B> {
    a: Option<A>,
    b: B,
}
impl<A: It, B: It<Item = A::Item>> It for Chain<A, B> {
    type Item = A::Item;
    fn next(&mut self) -> Option<A::Item> {
        if let Some(a) = &mut self.a {
            match a.next() {
                None => {}
                Some(x) => return Some(x),
            }
            self.a = None;
        }
        self.b.next()
    }
}
pub struct Cloned<I> {
    iter: I,
}
impl<'a, T: 'a + Clone, I: It<Item = &'a T>> It for Cloned<I> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match self.iter.next() {
            None => None,
            Some(x) => Some(x.clone()),
        }
    }
}
pub struct Copied<I> {
    iter: I,
}
impl<'a, T: 'a + Copy, I: It<Item = &'a T>> It for Copied<I> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match self.iter.next() {
            None => None,
            Some(x) => Some(*x),
        }
    }
}
pub struct Fuse<I> {
    iter: Option<I>,
}
impl<I: It> It for Fuse<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if let Some(i) = &mut self.iter {
            match i.next() {
                None => {}
                Some(x) => return Some(x),
            }
            self.iter = None;
        }
        None
    }
}
pub struct Peekable<I: It> {
    iter: I,
    peeked: Option<Option<I::Item>>,
}
impl<I: It> It for Peekable<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match self.peeked.take() {
            Some(v) => v,
            None => self.iter.next(),
        }
    }
}
impl<I: It> It for &mut I {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        (**self).next()
    }
}
pub struct Range<T> {
    start: T,
    end: T,
}
impl It for Range<usize> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if self.start < self.end {
            let i = self.start;
            self.start = i + 1;
            Some(i)
        } else {
            None
        }
    }
}
pub struct RangeFrom<T> {
    start: T,
}
impl It for RangeFrom<usize> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        let i = self.start;
        self.start = i + 1;
        Some(i)
    }
}
pub struct RangeInclusive<T> {
    start: T,
    end: T,
    exhausted: bool,
}
impl It for RangeInclusive<usize> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if self.exhausted || self.start > self.end {
            return None;
        }
        let i = self.start;
        if i < self.end {
            self.start = i + 1;
        } else {
            self.exhausted = true;
        }
        Some(i)
    }
}
pub struct FromFn<F> {
    f: F,
}
impl<T, F: FnMut() -> Option<T>> It for FromFn<F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        (self.f)()
    }
}
pub struct RepeatWith<F> {
    f: F,
}
impl<T, F: FnMut() -> T> It for RepeatWith<F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        Some((self.f)())
    }
}
pub struct Successors<T, F> {
    next: Option<T>,
    succ: F,
}
impl<T, F: FnMut(&T) -> Option<T>> It for Successors<T, F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match self.next.take() {
            None => None,
            Some(x) => {
                self.next = (self.succ)(&x);
                Some(x)
            }
        }
    }
}
pub struct Once<T> {
    v: Option<T>,
}
impl<T> It for Once<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.v.take()
    }
}
pub fn iter_from_fn<T, F: FnMut() -> Option<T>>(f: F) -> FromFn<F> {
    FromFn { f }
}
pub fn iter_repeat_with<T, F: FnMut() -> T>(f: F) -> RepeatWith<F> {
    RepeatWith { f }
}
pub fn iter_once<T>(v: T) -> Once<T> {
    Once { v: Some(v) }
}
pub fn iter_successors<T, F: FnMut(&T) -> Option<T>>(first: Option<T>, succ: F) -> Successors<T, F> {
    Successors { next: first, succ }
}

pub fn collect_vec<I: It>(mut it: I) -> Vec<I::Item> {
    let mut out = Vec::new();
    loop {
        match it.next() {
            None => return out,
            Some(x) => out.push(x),
        }
    }
}
pub fn collect_string<I: It<Item = char>>(mut it: I) -> String {
    let mut out = String::new();
    loop {
        match it.next() {
            None => return out,
            Some(x) => out.push(x),
        }
    }
}
pub fn collect_result<T, E, I: It<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> {
    let mut out = Vec::new();
    loop {
        match it.next() {
            None => return Ok(out),
            Some(Ok(x)) => out.push(x),
            Some(Err(e)) => return Err(e),
        }
    }
}
pub fn collect_option<T, I: It<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> {
    let mut out = Vec::new();
    loop {
        match it.next() {
            None => return Some(out),
            Some(Some(x)) => out.push(x),
            Some(None) => return None,
        }
    }
}
pub fn extend_vec<T, I: It<Item = T>>(v: &mut Vec<T>, mut it: I) {
    loop {
        match it.next() {
            None => return,
            Some(x) => v.push(x),
        }
    }
}
pub fn wrap_from<S, D: From<S>>(s: S) -> Result<D, ()> {
    Ok(D::from(s))
}

// ------------------------------------------------------------------ Option
pub fn option_is_some<T>(o: &Option<T>) -> bool {
    match o {
        Some(_) => true,
        None => false,
    }
}
pub fn option_is_none<T>(o: &Option<T>) -> bool {
    match o {
        Some(_) => false,
        None => true,
    }
}
pub fn option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> {
    match o {
        Some(x) => Some(f(x)),
        None => None,
    }
}
pub fn option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U {
    match o {
        Some(x) => f(x),
        None => d,
    }
}
pub fn option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U {
    match o {
        Some(x) => f(x),
        None => d(),
    }
}
pub fn option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> {
    match o {
        Some(x) => f(x),
        None => None,
    }
}
pub fn option_and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> {
    match o {
        Some(_) => p,
        None => None,
    }
}
pub fn option_or<T>(o: Option<T>, p: Option<T>) -> Option<T> {
    match o {
        Some(x) => Some(x),
        None => p,
    }
}
pub fn option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> {
    match o {
        Some(x) => Some(x),
        None => f(),
    }
}
pub fn option_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> {
    match o {
        Some(x) => Ok(x),
        None => Err(e),
    }
}
pub fn option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> {
    match o {
        Some(x) => Ok(x),
        None => Err(f()),
    }
}
pub fn option_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> {
    match o {
        Some(x) => {
            if f(&x) {
                Some(x)
            } else {
                None
            }
        }
        None => None,
    }
}
pub fn option_unwrap<T>(o: Option<T>) -> T {
    match o {
        Some(x) => x,
        None => panic!("unwrap on None"),
    }
}
pub fn option_expect<T>(o: Option<T>, _m: &str) -> T {
    match o {
        Some(x) => x,
        None => panic!("expect on None"),
    }
}
pub fn option_unwrap_or<T>(o: Option<T>, d: T) -> T {
    match o {
        Some(x) => x,
        None => d,
    }
}
pub fn option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T {
    match o {
        Some(x) => x,
        None => f(),
    }
}
pub fn option_take<T>(o: &mut Option<T>) -> Option<T> {
    std::mem::replace(o, None)
}
pub fn option_replace<T>(o: &mut Option<T>, v: T) -> Option<T> {
    std::mem::replace(o, Some(v))
}
pub fn option_as_ref<T>(o: &Option<T>) -> Option<&T> {
    match o {
        Some(x) => Some(x),
        None => None,
    }
}
pub fn option_as_mut<T>(o: &mut Option<T>) -> Option<&mut T> {
    match o {
        Some(x) => Some(x),
        None => None,
    }
}
pub fn option_cloned<T: Clone>(o: Option<&T>) -> Option<T> {
    match o {
        Some(x) => Some(x.clone()),
        None => None,
    }
}
pub fn option_copied<T: Copy>(o: Option<&T>) -> Option<T> {
    match o {
        Some(x) => Some(*x),
        None => None,
    }
}
pub fn option_zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> {
    match o {
        Some(x) => match p {
            Some(y) => Some((x, y)),
            None => None,
        },
        None => None,
    }
}

// ------------------------------------------------------------------ Result
pub fn result_is_ok<T, E>(r: &Result<T, E>) -> bool {
    match r {
        Ok(_) => true,
        Err(_) => false,
    }
}
pub fn result_is_err<T, E>(r: &Result<T, E>) -> bool {
    match r {
        Ok(_) => false,
        Err(_) => true,
    }
}
pub fn result_ok<T, E>(r: Result<T, E>) -> Option<T> {
    match r {
        Ok(x) => Some(x),
        Err(_) => None,
    }
}
pub fn result_err<T, E>(r: Result<T, E>) -> Option<E> {
    match r {
        Ok(_) => None,
        Err(e) => Some(e),
    }
}
pub fn result_map<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, f: F) -> Result<U, E> {
    match r {
        Ok(x) => Ok(f(x)),
        Err(e) => Err(e),
    }
}
pub fn result_map_err<T, E, U, F: FnOnce(E) -> U>(r: Result<T, E>, f: F) -> Result<T, U> {
    match r {
        Ok(x) => Ok(x),
        Err(e) => Err(f(e)),
    }
}
pub fn result_map_or<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, d: U, f: F) -> U {
    match r {
        Ok(x) => f(x),
        Err(_) => d,
    }
}
pub fn result_map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(r: Result<T, E>, d: D, f: F) -> U {
    match r {
        Ok(x) => f(x),
        Err(e) => d(e),
    }
}
pub fn result_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(r: Result<T, E>, f: F) -> Result<U, E> {
    match r {
        Ok(x) => f(x),
        Err(e) => Err(e),
    }
}
pub fn result_and<T, E, U>(r: Result<T, E>, s: Result<U, E>) -> Result<U, E> {
    match r {
        Ok(_) => s,
        Err(e) => Err(e),
    }
}
pub fn result_or<T, E, F>(r: Result<T, E>, s: Result<T, F>) -> Result<T, F> {
    match r {
        Ok(x) => Ok(x),
        Err(_) => s,
    }
}
pub fn result_or_else<T, E, F, O: FnOnce(E) -> Result<T, F>>(r: Result<T, E>, f: O) -> Result<T, F> {
    match r {
        Ok(x) => Ok(x),
        Err(e) => f(e),
    }
}
pub fn result_unwrap<T, E>(r: Result<T, E>) -> T {
    match r {
        Ok(x) => x,
        Err(_) => panic!("unwrap on Err"),
    }
}
pub fn result_expect<T, E>(r: Result<T, E>, _m: &str) -> T {
    match r {
        Ok(x) => x,
        Err(_) => panic!("expect on Err"),
    }
}
pub fn result_unwrap_or<T, E>(r: Result<T, E>, d: T) -> T {
    match r {
        Ok(x) => x,
        Err(_) => d,
    }
}
pub fn result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(r: Result<T, E>, f: F) -> T {
    match r {
        Ok(x) => x,
        Err(e) => f(e),
    }
}
pub fn result_as_ref<T, E>(r: &Result<T, E>) -> Result<&T, &E> {
    match r {
        Ok(x) => Ok(x),
        Err(e) => Err(e),
    }
}

pub fn result_unwrap_or_default<T: Default, E>(r: Result<T, E>) -> T {
    match r {
        Ok(x) => x,
        Err(_) => T::default(),
    }
}
pub fn result_unwrap_err<T, E>(r: Result<T, E>) -> E {
    match r {
        Ok(_) => panic!("unwrap_err on Ok"),
        Err(e) => e,
    }
}
pub fn result_as_mut<T, E>(r: &mut Result<T, E>) -> Result<&mut T, &mut E> {
    match r {
        Ok(x) => Ok(x),
        Err(e) => Err(e),
    }
}
pub fn option_unwrap_or_default<T: Default>(o: Option<T>) -> T {
    match o {
        Some(x) => x,
        None => T::default(),
    }
}
pub fn option_xor<T>(o: Option<T>, p: Option<T>) -> Option<T> {
    match (o, p) {
        (Some(x), None) => Some(x),
        (None, Some(x)) => Some(x),
        _ => None,
    }
}
pub fn option_insert<T>(o: &mut Option<T>, v: T) -> &mut T {
    *o = Some(v);
    match o {
        Some(x) => x,
        None => loop {},
    }
}
pub fn option_get_or_insert<T>(o: &mut Option<T>, v: T) -> &mut T {
    if o.is_none() {
        *o = Some(v);
    }
    match o {
        Some(x) => x,
        None => loop {},
    }
}
pub fn option_get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T {
    if o.is_none() {
        *o = Some(f());
    }
    match o {
        Some(x) => x,
        None => loop {},
    }
}
pub fn option_flatten<T>(o: Option<Option<T>>) -> Option<T> {
    match o {
        Some(x) => x,
        None => None,
    }
}
pub fn option_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> {
    match o {
        Some(Ok(x)) => Ok(Some(x)),
        Some(Err(e)) => Err(e),
        None => Ok(None),
    }
}

// ------------------------------------------------------------------ bool
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> {
    if b {
        Some(f())
    } else {
        None
    }
}
pub fn bool_then_some<T>(b: bool, v: T) -> Option<T> {
    if b {
        Some(v)
    } else {
        None
    }
}

// ------------------------------------------------------------------ Peekable
pub fn peekable_peek<I: It>(p: &mut Peekable<I>) -> Option<&I::Item> {
    if p.peeked.is_none() {
        p.peeked = Some(p.iter.next());
    }
    match &p.peeked {
        Some(Some(x)) => Some(x),
        _ => None,
    }
}
pub fn peekable_next_if<I: It, F: FnOnce(&I::Item) -> bool>(p: &mut Peekable<I>, f: F) -> Option<I::Item> {
    match p.next() {
        Some(x) => {
            if f(&x) {
                Some(x)
            } else {
                p.peeked = Some(Some(x));
                None
            }
        }
        None => {
            p.peeked = Some(None);
            None
        }
    }
}
