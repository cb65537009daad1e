// Preamble: text, iterators and panics the extracted code is expressed over.
// Everything marked external_body here is trusted (listed in the evidence).
verus! {
global size_of usize == 8;
pub mod pre {
use super::*;

#[verifier::external_body]
pub fn vpanic() -> (r: !)
    requires false,
{ panic!() }

#[verifier::external_body]
pub fn vdiverge() -> (r: !)
{ panic!() }

// ---------------------------------------------------------------- characters and bytes
/// one byte of a text: byte k of the encoding of character c
#[verifier::ext_equal]
pub struct CB { pub c: char, pub k: int }

/// number of bytes of a character
pub open spec fn w(c: char) -> int {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}

pub open spec fn cbytes(c: char) -> Seq<CB> { Seq::new(w(c) as nat, |k: int| CB { c, k }) }

/// the bytes of s are whole characters
pub open spec fn wf_text(s: Seq<CB>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> #[trigger] wf_at(s, i)
}
pub open spec fn wf_at(s: Seq<CB>, i: int) -> bool {
    &&& 0 <= s[i].k < w(s[i].c)
    &&& s[i].k == 0 || (i > 0 && s[i - 1] == CB { c: s[i].c, k: s[i].k - 1 })
    &&& s[i].k == w(s[i].c) - 1 || (i + 1 < s.len() && s[i + 1] == CB { c: s[i].c, k: s[i].k + 1 })
}
/// i is a character boundary of s
pub open spec fn bnd(s: Seq<CB>, i: int) -> bool {
    0 <= i <= s.len() && (i == s.len() || s[i].k == 0)
}

pub broadcast proof fn lemma_bnd0(s: Seq<CB>)
    requires wf_text(s),
    ensures #[trigger] bnd(s, 0),
{
    if s.len() > 0 { assert(wf_at(s, 0)); }
}

#[verifier::external_body]
pub fn char_len(c: char) -> (r: usize)
    ensures r == w(c),
{ c.len_utf8() }

/// White_Space of Unicode
pub open spec fn is_ws(c: char) -> bool {
    let x = c as u32;
    9 <= x <= 13 || x == 0x20 || x == 0x85 || x == 0xa0 || x == 0x1680 || 0x2000 <= x <= 0x200a || x == 0x2028 || x == 0x2029 || x == 0x202f || x == 0x205f || x == 0x3000
}

#[verifier::when_used_as_spec(is_ws)]
#[verifier::external_body]
pub fn char_is_ws(c: char) -> (r: bool)
    ensures r == is_ws(c),
{ c.is_whitespace() }

// ---------------------------------------------------------------- str and String
/// str and String (the difference is ownership only)
#[verifier::external_body]
pub struct Txt { s: String }
pub type Text = Txt;

pub uninterp spec fn txt_of(t: Txt) -> Seq<CB>;

impl Txt {
    pub open spec fn view(&self) -> Seq<CB> { txt_of(*self) }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { self.s.len() }

    #[verifier::external_body]
    pub fn chars<'a>(&'a self) -> (r: StrChars<'a>)
        ensures r.rem() == self@,
    { unimplemented!() }

    /// &s[a..b]
    #[verifier::external_body]
    pub fn sub<'a>(&'a self, a: usize, b: usize) -> (r: &'a Txt)
        requires a <= b <= self@.len(), bnd(self@, a as int), bnd(self@, b as int),
        ensures r@ == self@.subrange(a as int, b as int),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn new() -> (r: Text)
        ensures r@.len() == 0,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Text)
        ensures r@.len() == 0,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize)
        ensures final(self)@ == old(self)@,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn push(&mut self, c: char)
        ensures final(self)@ == old(self)@ + cbytes(c),
    { self.s.push(c) }
}

#[verifier::external_body]
pub fn txt_to_owned(t: &Txt) -> (r: Text)
    ensures r@ == t@,
{ unimplemented!() }

pub broadcast axiom fn axiom_txt_wf(t: Txt)
    ensures #![trigger txt_of(t)] wf_text(txt_of(t)), txt_of(t).len() <= 0x7fff_ffff_ffff_0000,
;

/// the text of a string literal
pub open spec fn lit_bytes(s: Seq<char>) -> Seq<CB>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { lit_bytes(s.drop_last()) + cbytes(s.last()) }
}

#[verifier::external_body]
pub fn lit(s: &'static str) -> (r: &'static Txt)
    ensures r@ == lit_bytes(s@),
{ unimplemented!() }

#[verifier::external_body]
pub struct StrChars<'a> { s: std::str::Chars<'a> }

impl<'a> StrChars<'a> {
    pub uninterp spec fn rem(self) -> Seq<CB>;

    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures next_char(old(self).rem(), final(self).rem(), r),
    { self.s.next() }
}

pub broadcast axiom fn axiom_str_chars_wf(t: StrChars)
    ensures wf_text(#[trigger] t.rem()),
;

/// taking the next character of a text
pub open spec fn next_char(before: Seq<CB>, after: Seq<CB>, r: Option<char>) -> bool {
    match r {
        None => before.len() == 0 && after == before,
        Some(c) => before == cbytes(c) + after,
    }
}

// ---------------------------------------------------------------- slices
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SliceIter<'a, T> { it: std::slice::Iter<'a, T> }

impl<'a, T> SliceIter<'a, T> {
    pub uninterp spec fn rem(self) -> Seq<T>;

    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures match r {
            None => old(self).rem().len() == 0 && final(self).rem() == old(self).rem(),
            Some(c) => old(self).rem().len() > 0 && *c == old(self).rem()[0] && final(self).rem() == old(self).rem().drop_first(),
        },
    { self.it.next() }
}

pub trait VIter<T> {
    spec fn vseq(&self) -> Seq<T>;
    fn viter<'a>(&'a self) -> (r: SliceIter<'a, T>)
        ensures r.rem() == self.vseq();
}
impl<T> VIter<T> for [T] {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn viter<'a>(&'a self) -> (r: SliceIter<'a, T>) { SliceIter { it: self.iter() } }
}
impl<T> VIter<T> for Vec<T> {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn viter<'a>(&'a self) -> (r: SliceIter<'a, T>) { SliceIter { it: self.iter() } }
}

/// slice::iter().cloned()
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ClonedIter<'a, T> { it: std::slice::Iter<'a, T> }

impl<'a, T> ClonedIter<'a, T> {
    pub uninterp spec fn rem(self) -> Seq<T>;

    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r {
            None => old(self).rem().len() == 0 && final(self).rem() == old(self).rem(),
            Some(c) => old(self).rem().len() > 0 && c == old(self).rem()[0] && final(self).rem() == old(self).rem().drop_first(),
        },
    { unimplemented!() }
}

#[verifier::external_body]
pub fn iter_cloned<'a, T>(it: SliceIter<'a, T>) -> (r: ClonedIter<'a, T>)
    ensures r.rem() == it.rem(),
{ unimplemented!() }

#[verifier::external_body]
pub fn slice_to_vec<T: Clone>(s: &[T]) -> (r: Vec<T>)
    ensures r@ == s@,
{ s.to_vec() }

#[verifier::external_body]
pub fn arc_make_mut<T: Clone>(a: &mut Arc<T>) -> (r: &mut T)
    ensures *r == **old(a), **final(a) == *final(r),
{ Arc::make_mut(a) }

/// ptr::eq: only the sound direction is used (equal addresses, equal values)
#[verifier::external_body]
pub fn ptr_eq<T>(a: &T, b: &T) -> (r: bool)
    ensures r ==> *a == *b,
{ std::ptr::eq(a, b) }

// ---------------------------------------------------------------- persistent sets (im)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ImSet<T> { x: Vec<T> }

impl<T> ImSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;

    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Set::<T>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn update(&self, t: T) -> (r: Self)
        ensures r@ == self@.insert(t),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn push(&mut self, t: T)
        ensures final(self)@ == old(self)@.insert(t),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn union(self, o: Self) -> (r: Self)
        ensures r@ == self@.union(o@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn viter<'a>(&'a self) -> (r: SetIter<'a, T>)
        ensures r.rem() == self@,
    { unimplemented!() }
}
impl<T> Clone for ImSet<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}

/// iterator over a set: yields each of the remaining elements
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SetIter<'a, T> { it: std::slice::Iter<'a, T> }

impl<'a, T> SetIter<'a, T> {
    pub uninterp spec fn rem(self) -> Set<T>;

    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures match r {
            None => old(self).rem() == Set::<T>::empty() && final(self).rem() == old(self).rem(),
            Some(c) => old(self).rem().contains(*c) && final(self).rem() == old(self).rem().remove(*c),
        },
    { unimplemented!() }
}

pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, t: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(t),
;

} // mod pre
use pre::*;
broadcast use {pre::lemma_bnd0, pre::axiom_txt_wf, pre::axiom_str_chars_wf};
