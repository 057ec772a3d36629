// ---- common/base.rs: text keys, buffered iterators, vectors, options (contracts assumed for std) ----

/// What a value is when used as a key or compared as text: String, &str and
/// SharedStr of equal characters are the same key.
pub trait VKey { type KV; spec fn vkey(&self) -> Self::KV; }
impl VKey for str { type KV = Seq<char>; open spec fn vkey(&self) -> Seq<char> { self@ } }
impl VKey for String { type KV = Seq<char>; open spec fn vkey(&self) -> Seq<char> { self@ } }
impl<T: VKey + ?Sized> VKey for &T { type KV = T::KV; open spec fn vkey(&self) -> T::KV { (**self).vkey() } }
impl<T: VKey> VKey for Option<T> { type KV = Option<T::KV>; open spec fn vkey(&self) -> Option<T::KV> { match self { Some(x) => Some(x.vkey()), None => None } } }
impl<A: VKey, B: VKey> VKey for (A, B) { type KV = (A::KV, B::KV); open spec fn vkey(&self) -> (A::KV, B::KV) { (self.0.vkey(), self.1.vkey()) } }

/// the items of a borrowed collection, in order
pub open spec fn seq_refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }

/// iterator over a finite sequence of items: the whole sequence plus a position
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VxIter<T> { v: core::marker::PhantomData<T> }
impl<T> VxIter<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn has_next(&self) -> (r: bool)
        ensures r == (self.pos() < self@.len()), r ==> self.pos() < usize::MAX, // fewer than 2^64 items are ever counted
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_next(&mut self) -> (r: T)
        requires 0 <= old(self).pos() < old(self)@.len(),
        ensures final(self)@ == old(self)@, final(self).pos() == old(self).pos() + 1, r == old(self)@[old(self).pos()],
    { unimplemented!() }
    /// `Iterator::next` on an iterator kept in a variable
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self)@ == old(self)@, 0 <= old(self).pos() <= old(self)@.len() ==> 0 <= final(self).pos() <= final(self)@.len(),
            old(self).pos() < old(self)@.len() ==> r == Some(old(self)@[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self)@.len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_peekable(self) -> (r: VxIter<T>)
        ensures r@ == self@, r.pos() == self.pos(),
    { unimplemented!() }
    /// what a peekable iterator would yield next
    #[verifier::external_body]
    pub fn vx_peek(&self) -> (r: Option<&T>)
        ensures match r { Some(x) => self.pos() < self@.len() && *x == self@[self.pos()], None => self.pos() >= self@.len() },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_enumerate(self) -> (r: VxIter<(usize, T)>)
        ensures r.pos() == 0, r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == self@[i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_rev(self) -> (r: VxIter<T>)
        ensures r.pos() == 0, r@ == self@.reverse(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_zip<U>(self, o: VxIter<U>) -> (r: VxIter<(T, U)>)
        ensures r.pos() == 0, r@.len() == (if self@.len() <= o@.len() { self@.len() } else { o@.len() }),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == (self@[i], o@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_chain(self, o: VxIter<T>) -> (r: VxIter<T>)
        ensures r.pos() == 0, r@ == self@ + o@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_skip(self, n: usize) -> (r: VxIter<T>)
        ensures r.pos() == 0, r@ == (if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_take(self, n: usize) -> (r: VxIter<T>)
        ensures r.pos() == 0, r@ == (if n <= self@.len() { self@.take(n as int) } else { self@ }),
    { unimplemented!() }
}
impl<T> VxIter<&T> {
    /// `.copied()` / `.cloned()`
    #[verifier::external_body]
    pub fn vx_copied(self) -> (r: VxIter<T>)
        ensures r.pos() == 0, self@ == seq_refs(r@),
    { unimplemented!() }
}

/// `for x in e` / `e.into_iter()`
pub trait VxInto: Sized { type Item; spec fn vx_items(self) -> Seq<Self::Item>; fn vx_into_iter(self) -> (r: VxIter<Self::Item>) ensures r.pos() == 0, r@ == self.vx_items(); }
impl<T> VxInto for Vec<T> { type Item = T; open spec fn vx_items(self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_into_iter(self) -> VxIter<T> { unimplemented!() } }
impl<'a, T> VxInto for &'a Vec<T> { type Item = &'a T; open spec fn vx_items(self) -> Seq<&'a T> { seq_refs(self@) }
    #[verifier::external_body] fn vx_into_iter(self) -> VxIter<&'a T> { unimplemented!() } }
impl<'a, T> VxInto for &'a [T] { type Item = &'a T; open spec fn vx_items(self) -> Seq<&'a T> { seq_refs(self@) }
    #[verifier::external_body] fn vx_into_iter(self) -> VxIter<&'a T> { unimplemented!() } }
impl<T> VxInto for Option<T> { type Item = T; open spec fn vx_items(self) -> Seq<T> { match self { Some(x) => seq![x], None => Seq::empty() } }
    #[verifier::external_body] fn vx_into_iter(self) -> VxIter<T> { unimplemented!() } }
impl<T> VxInto for VxIter<T> { type Item = T; open spec fn vx_items(self) -> Seq<T> { self@.skip(self.pos()) }
    #[verifier::external_body] fn vx_into_iter(self) -> VxIter<T> { unimplemented!() } }
impl<T, const N: usize> VxInto for [T; N] { type Item = T; open spec fn vx_items(self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_into_iter(self) -> VxIter<T> { unimplemented!() } }

/// `e.iter()`
pub trait VxSeq<T> { spec fn vx_seq(&self) -> Seq<T>; fn vx_iter(&self) -> (r: VxIter<&T>) ensures r.pos() == 0, r@ == seq_refs(self.vx_seq()); }
impl<T> VxSeq<T> for Vec<T> { open spec fn vx_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter(&self) -> VxIter<&T> { unimplemented!() } }
impl<T> VxSeq<T> for [T] { open spec fn vx_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter(&self) -> VxIter<&T> { unimplemented!() } }
impl<T> VxSeq<T> for Option<T> { open spec fn vx_seq(&self) -> Seq<T> { match self { Some(x) => seq![*x], None => Seq::empty() } } #[verifier::external_body] fn vx_iter(&self) -> VxIter<&T> { unimplemented!() } }

/// `.collect()`
pub trait VxFrom<T>: Sized { spec fn vx_is(s: Seq<T>, r: Self) -> bool; fn vx_from(v: Vec<T>) -> (r: Self) ensures Self::vx_is(v@, r); }
impl<T> VxFrom<T> for Vec<T> { open spec fn vx_is(s: Seq<T>, r: Self) -> bool { r@ == s } fn vx_from(v: Vec<T>) -> (r: Self) { v } }
pub fn vx_collect<T, C: VxFrom<T>>(v: Vec<T>) -> (r: C) ensures C::vx_is(v@, r) { C::vx_from(v) }

pub trait VxExtend<T> { fn vx_extend(&mut self, v: Vec<T>); }
pub fn vx_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
#[verifier::external_body]
pub fn vx_clone<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body]
pub fn vx_unreachable<T>() -> (r: T) requires false { unimplemented!() }

/// integer ranges
pub trait VxInt: Sized { spec fn vint(self) -> int; spec fn of_int(i: int) -> Self; }
impl VxInt for usize { open spec fn vint(self) -> int { self as int } open spec fn of_int(i: int) -> Self { i as usize } }
impl VxInt for u16 { open spec fn vint(self) -> int { self as int } open spec fn of_int(i: int) -> Self { i as u16 } }
impl VxInt for u32 { open spec fn vint(self) -> int { self as int } open spec fn of_int(i: int) -> Self { i as u32 } }
impl VxInt for i32 { open spec fn vint(self) -> int { self as int } open spec fn of_int(i: int) -> Self { i as i32 } }
pub open spec fn range_seq<N: VxInt>(a: N, b: int) -> Seq<N> { Seq::new((if b >= a.vint() { b - a.vint() } else { 0 }) as nat, |i: int| N::of_int(a.vint() + i)) }
#[verifier::external_body]
pub fn vx_range<N: VxInt>(a: N, b: N) -> (r: VxIter<N>) ensures r.pos() == 0, r@ == range_seq(a, b.vint()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_range_incl<N: VxInt>(a: N, b: N) -> (r: VxIter<N>) ensures r.pos() == 0, r@ == range_seq(a, b.vint() + 1) { unimplemented!() }

/// `format!`: the result is a function of the literal and of the arguments' values
pub uninterp spec fn fmt0(lit: Seq<char>) -> Seq<char>;
pub uninterp spec fn fmt1<A>(lit: Seq<char>, a: A) -> Seq<char>;
pub uninterp spec fn fmt2<A, B>(lit: Seq<char>, a: A, b: B) -> Seq<char>;
pub uninterp spec fn fmt3<A, B, C>(lit: Seq<char>, a: A, b: B, c: C) -> Seq<char>;
pub uninterp spec fn fmt4<A, B, C, D>(lit: Seq<char>, a: A, b: B, c: C, d: D) -> Seq<char>;
#[verifier::external_body]
pub fn vx_format0(lit: &str) -> (r: String) ensures r@ == fmt0(lit@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_format1<A: VxVal>(lit: &str, a: &A) -> (r: String) ensures r@ == fmt1(lit@, a.vval()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_format2<A: VxVal, B: VxVal>(lit: &str, a: &A, b: &B) -> (r: String) ensures r@ == fmt2(lit@, a.vval(), b.vval()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_format3<A: VxVal, B: VxVal, C: VxVal>(lit: &str, a: &A, b: &B, c: &C) -> (r: String) ensures r@ == fmt3(lit@, a.vval(), b.vval(), c.vval()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_format4<A: VxVal, B: VxVal, C: VxVal, D: VxVal>(lit: &str, a: &A, b: &B, c: &C, d: &D) -> (r: String) ensures r@ == fmt4(lit@, a.vval(), b.vval(), c.vval(), d.vval()) { unimplemented!() }
/// the value a formatted argument stands for
pub trait VxVal { type VV; spec fn vval(&self) -> Self::VV; }
impl VxVal for String { type VV = Seq<char>; open spec fn vval(&self) -> Seq<char> { self@ } }
impl VxVal for str { type VV = Seq<char>; open spec fn vval(&self) -> Seq<char> { self@ } }
impl VxVal for u16 { type VV = int; open spec fn vval(&self) -> int { *self as int } }
impl VxVal for u32 { type VV = int; open spec fn vval(&self) -> int { *self as int } }
impl VxVal for i32 { type VV = int; open spec fn vval(&self) -> int { *self as int } }
impl VxVal for usize { type VV = int; open spec fn vval(&self) -> int { *self as int } }
impl<T: VxVal + ?Sized> VxVal for &T { type VV = T::VV; open spec fn vval(&self) -> T::VV { (**self).vval() } }
pub assume_specification<'a, T: Copy>[Option::<&'a T>::copied](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
pub assume_specification<T>[Option::<T>::or](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (match a { Some(x) => Some(x), None => b });
/// Default
pub trait VxDefault: Sized { spec fn vx_isdef(r: Self) -> bool; fn vx_default() -> (r: Self) ensures Self::vx_isdef(r); }
impl<T> VxDefault for Vec<T> { open spec fn vx_isdef(r: Self) -> bool { r@ == Seq::<T>::empty() } fn vx_default() -> (r: Self) { Vec::new() } }
pub fn vx_default<T: VxDefault>() -> (r: T) ensures T::vx_isdef(r) { T::vx_default() }
/// `?` on an error of the function's own error type
pub fn vx_into_err<E>(e: E) -> (r: E) ensures r == e { e }
/// text built piece by piece (format! with plain placeholders)
pub trait VxShow { spec fn shown(&self) -> Seq<char>; }
impl VxShow for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VxShow for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<T: VxShow + ?Sized> VxShow for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
#[verifier::external_body]
pub fn vx_new_text() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_lit(s: &mut String, l: &str) ensures final(s)@ == old(s)@ + l@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_show<T: VxShow>(s: &mut String, l: &T) ensures final(s)@ == old(s)@ + l.shown() { unimplemented!() }
pub trait VxDeref { fn vx_as_deref(&self) -> Option<&str>; }
impl VxDeref for Option<String> {
    #[verifier::external_body]
    fn vx_as_deref(&self) -> (r: Option<&str>) ensures (r is Some) == (*self is Some), r is Some ==> r->0@ == self->0@ { unimplemented!() }
}
/// `Clone::clone` of values whose clone is equal
pub trait VxDup: Sized { fn vx_dup(&self) -> (r: Self) ensures r == *self; }
impl<T: Sized> VxDup for T { #[verifier::external_body] fn vx_dup(&self) -> (r: Self) { unimplemented!() } }
/// the texts of a list of strings
pub open spec fn strs(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
/// a text is determined by its characters
pub axiom fn axiom_str_ext(a: &str, b: &str) ensures a@ == b@ ==> a == b;
/// `Option::unwrap_or_default` (with `rename unwrap_or_default vx_or_default`)
pub trait VxOrDefault<T> { spec fn vx_od(self, r: T) -> bool; fn vx_or_default(self) -> (r: T) ensures self.vx_od(r); }
impl<T: VxDefault> VxOrDefault<T> for Option<T> {
    open spec fn vx_od(self, r: T) -> bool { match self { Some(x) => r == x, None => T::vx_isdef(r) } }
    fn vx_or_default(self) -> (r: T) { match self { Some(x) => x, None => vx_default() } }
}
pub trait VxDupd<T> { fn vx_dupd(self) -> Option<T>; }
impl<'a, T> VxDupd<T> for Option<&'a T> { fn vx_dupd(self) -> (r: Option<T>) ensures r == (match self { Some(x) => Some(*x), None => None }) { match self { Some(x) => Some(x.vx_dup()), None => None } } }
/// a `static OnceLock` local to a function without parameters: it holds what its initialiser computes
#[verifier::external_body]
pub fn vx_leak<T>(x: T) -> (r: &'static T) ensures *r == x { unimplemented!() }
/// `Option::get_or_insert` (with `rename get_or_insert .vx_get_or_insert`)
pub trait VxGetOrInsert<T> { fn vx_get_or_insert(&mut self, v: T) -> &mut T; }
impl<T> VxGetOrInsert<T> for Option<T> {
    #[verifier::external_body]
    fn vx_get_or_insert(&mut self, v: T) -> (r: &mut T) ensures *r == (match *old(self) { Some(x) => x, None => v }), *final(self) == Some(*final(r)) { unimplemented!() }
}
