// The nom input traits on spans agree with the same operations on the flat text (C04).
pub struct Range<T> { pub start: T, pub end: T }
pub struct RangeFrom<T> { pub start: T }
pub struct RangeTo<T> { pub end: T }

/// number of characters that start before byte i
pub open spec fn nchars(s: Seq<CB>, i: int) -> int
    decreases i
{
    if i <= 0 || i > s.len() { 0 } else { nchars(s, i - 1) + if s[i - 1].k == 0 { 1int } else { 0 } }
}
/// t is the part [a, b) of s
pub open spec fn is_part(s: BlockSpan, a: int, b: int, t: BlockSpan) -> bool {
    &&& wf_span(t) && t.length == b - a && span_flat(t) == span_flat(s).subrange(a, b) && t.parent == s.parent
    &&& span_start(t) == span_start(s) + a && t.contents@.len() <= s.contents@.len()
    &&& s.length == 0 ==> t.contents@ == s.contents@
}
/// boundaries seen through the flat text of the references
pub proof fn lemma_span_bnd(s: BlockSpan, i: int)
    requires wf_span0(s), 0 <= i <= s.length,
    ensures
        bnd(span_txt(s), i) == bnd(txt(refs_flat(s.contents@)), s.offset + i),
        span_txt(s) == txt(refs_flat(s.contents@)).subrange(s.offset as int, s.offset + s.length),
        wf_text(span_txt(s)), span_txt(s).len() == s.length, span_flat(s).len() == s.length, s.length <= cap(),
        bnd(span_txt(s), s.length as int), bnd(span_txt(s), 0),
{
    let f = refs_flat(s.contents@);
    lemma_wf_refs(s.contents@);
    lemma_txt_sub(f, s.offset as int, s.offset + s.length);
    lemma_bnd_sub(txt(f), s.offset as int, s.offset + s.length, i);
    lemma_wf_sub(txt(f), s.offset as int, s.offset + s.length);
}
/// a span cut to [a, b) before it is normalised
pub proof fn lemma_span_cut(s: BlockSpan, a: int, b: int)
    requires wf_span0(s), 0 <= a <= b <= s.length, bnd(span_txt(s), a), bnd(span_txt(s), b),
    ensures ({
        let t = BlockSpan { parent: s.parent, contents: s.contents, offset: (s.offset + a) as usize, length: (b - a) as usize };
        s.offset + a <= cap() && wf_span0(t) && span_flat(t) == span_flat(s).subrange(a, b) && span_start(t) == span_start(s) + a
    }),
{
    lemma_span_bnd(s, a);
    lemma_span_bnd(s, b);
    let f = refs_flat(s.contents@);
    assert(span_flat(s).subrange(a, b) =~= f.subrange(s.offset + a, s.offset + b));
}

//@props C04
//@fn evaluated::nom::Slice<Range<usize>> for BlockSpan::slice as slice_r
//@spec
    requires wf_span(*self), range.start <= range.end <= self.length, bnd(span_txt(*self), range.start as int), bnd(span_txt(*self), range.end as int),
    ensures is_part(*self, range.start as int, range.end as int, r),
//@at start
    proof { lemma_span_cut(*self, range.start as int, range.end as int); }
//@end
//@fn evaluated::nom::Slice<RangeFrom<usize>> for BlockSpan::slice as slice_rf
//@spec
    requires wf_span(*self), range.start <= self.length, bnd(span_txt(*self), range.start as int),
    ensures is_part(*self, range.start as int, self.length as int, r),
//@at start
    proof { lemma_span_bnd(*self, self.length as int); lemma_span_cut(*self, range.start as int, self.length as int); }
//@end
//@fn evaluated::nom::Slice<RangeTo<usize>> for BlockSpan::slice as slice_rt
//@spec
    requires wf_span(*self), range.end <= self.length, bnd(span_txt(*self), range.end as int),
    ensures is_part(*self, 0, range.end as int, r),
//@at start
    proof { lemma_span_bnd(*self, 0); lemma_span_cut(*self, 0, range.end as int); }
//@end
impl<'a> BlockSpan<'a> {
    /// what `x.slice(a..b)` selects
    pub fn slice_range(&self, a: usize, b: usize) -> (r: BlockSpan<'a>)
        requires wf_span(*self), a <= b <= self.length, bnd(span_txt(*self), a as int), bnd(span_txt(*self), b as int),
        ensures is_part(*self, a as int, b as int, r),
    { self.slice_r(Range { start: a, end: b }) }
    pub fn slice_from(&self, a: usize) -> (r: BlockSpan<'a>)
        requires wf_span(*self), a <= self.length, bnd(span_txt(*self), a as int),
        ensures is_part(*self, a as int, self.length as int, r),
    { self.slice_rf(RangeFrom { start: a }) }
    pub fn slice_to(&self, b: usize) -> (r: BlockSpan<'a>)
        requires wf_span(*self), b <= self.length, bnd(span_txt(*self), b as int),
        ensures is_part(*self, 0, b as int, r),
    { self.slice_rt(RangeTo { end: b }) }
}
//@fn evaluated::nom::InputIter for BlockSpan::iter_indices
//@spec
    requires wf_span(*self),
    ensures wf_xi(r), xi_rem(r) == span_txt(*self), r.head == 0,
//@end
//@fn evaluated::nom::InputIter for BlockSpan::iter_elements
//@spec
    requires wf_span(*self),
    ensures wf_si(r), si_rem(r) == span_txt(*self),
//@end
//@fn evaluated::nom::AtEof for BlockSpan::at_eof
//@spec
    ensures r,
//@end
//@fn evaluated::nom::InputLength for BlockSpan::input_len
//@spec
    requires wf_span(*self),
    ensures r == span_txt(*self).len(),
//@at start
    proof { lemma_span_bnd(*self, 0); }
//@end

/// i is the first character of s the predicate holds for
pub open spec fn first_at<P: Fn(char) -> bool>(s: Seq<CB>, p: P, i: int) -> bool {
    &&& 0 <= i < s.len() && s[i].k == 0 && p.ensures((s[i].c,), true)
    &&& none_before(s, p, i)
}
pub open spec fn none_before<P: Fn(char) -> bool>(s: Seq<CB>, p: P, i: int) -> bool {
    forall|j: int| 0 <= j < i && (#[trigger] s[j]).k == 0 ==> p.ensures((s[j].c,), false)
}
/// state of a walk over the characters of s
pub open spec fn walk(s: Seq<CB>, it: SpanIndexIter) -> bool {
    &&& wf_xi(it) && wf_text(s) && it.head <= s.len() && xi_rem(it) == s.subrange(it.head as int, s.len() as int) && bnd(s, it.head as int) && s.len() <= cap()
}
pub proof fn lemma_walk(s: Seq<CB>, a: SpanIndexIter, b: SpanIndexIter, i: usize, c: char)
    requires walk(s, a), wf_xi(b), next_index(a, b, Some((i, c))),
    ensures walk(s, b), s[i as int] == (CB { c, k: 0 }), b.head == i + w(c), i == a.head, i < s.len(), b.head <= s.len(),
        forall|j: int| i < j < b.head ==> (#[trigger] s[j]).k != 0,
        s.subrange(i as int, i + w(c)) == cbytes(c),
{
    lemma_wf_si(a.char_iter);
    lemma_next_char(xi_rem(a), xi_rem(b), Some(c));
    assert(xi_rem(a)[0] == s[i as int]);
    assert(xi_rem(b) =~= s.subrange(b.head as int, s.len() as int));
    assert(s.subrange(i as int, i + w(c)) =~= xi_rem(a).subrange(0, w(c)));
    lemma_bnd_sub(s, i as int, s.len() as int, w(c));
    assert forall|j: int| i < j < b.head implies (#[trigger] s[j]).k != 0 by { assert(!bnd(xi_rem(a), j - i)); assert(xi_rem(a)[j - i] == s[j]); }
}
//@fn evaluated::nom::InputIter for BlockSpan::position
//@sub `let mut __res2 = None` => `let mut __res2: Option<(usize, char)> = None`
//@spec
    requires wf_span(*self), forall|c: char| #[trigger] predicate.requires((c,)),
    ensures match r {
        Some(i) => first_at(span_txt(*self), predicate, i as int),
        None => none_before(span_txt(*self), predicate, self.length as int),
    },
//@at start
    let ghost s = span_txt(*self);
    proof { lemma_span_bnd(*self, 0); assert(s.subrange(0, s.len() as int) =~= s); }
//@loop 0
        invariant_except_break walk(s, __it1), g == __it1, none_before(s, predicate, __it1.head as int), __res2.is_none(),
        invariant forall|c: char| #[trigger] predicate.requires((c,)),
        ensures
            match __res2 { Some(x) => first_at(s, predicate, x.0 as int), None => none_before(s, predicate, s.len() as int) },
//@at before `while let`
        let ghost mut g = __it1;
//@at loopstart 0
            proof { lemma_walk(s, g, __it1, __x3.0, __x3.1); g = __it1; }
//@end

/// a split at the first character the predicate holds for
pub open spec fn split_first<P: Fn(char) -> bool>(s: BlockSpan, p: P, rest: BlockSpan, tok: BlockSpan, i: int) -> bool {
    &&& 0 <= i <= s.length && bnd(span_txt(s), i) && is_part(s, 0, i, tok) && is_part(s, i, s.length as int, rest)
    &&& none_before(span_txt(s), p, i) && (i < s.length ==> first_at(span_txt(s), p, i))
}
pub proof fn lemma_split_join(s: BlockSpan, a: BlockSpan, b: BlockSpan, i: int)
    requires wf_span(s), 0 <= i <= s.length, is_part(s, 0, i, a), is_part(s, i, s.length as int, b),
    ensures span_flat(a) + span_flat(b) == span_flat(s), span_txt(a) + span_txt(b) == span_txt(s),
        span_txt(a) == span_txt(s).subrange(0, i), span_txt(b) == span_txt(s).subrange(i, s.length as int),
{
    lemma_span_bnd(s, 0);
    lemma_span_bnd(a, 0);
    lemma_span_bnd(b, 0);
    assert(span_flat(a) + span_flat(b) =~= span_flat(s));
    lemma_txt_add(span_flat(a), span_flat(b));
    lemma_txt_sub(span_flat(s), 0, i);
    lemma_txt_sub(span_flat(s), i, s.length as int);
}
//@fn evaluated::nom::InputTakeAtPosition for BlockSpan::split_at_position
//@sub `let mut __res2 = None` => `let mut __res2: Option<(usize, char)> = None`
//@spec
    requires wf_span(*self), forall|c: char| #[trigger] predicate.requires((c,)),
    ensures r.is_ok(), split_first(*self, predicate, r->Ok_0.0, r->Ok_0.1, r->Ok_0.1.length as int),
        span_flat(r->Ok_0.1) + span_flat(r->Ok_0.0) == span_flat(*self),
//@at start
    let ghost s = span_txt(*self);
    proof { lemma_span_bnd(*self, 0); assert(s.subrange(0, s.len() as int) =~= s); lemma_joins(*self); }
//@loop 0
        invariant_except_break walk(s, __it1), g == __it1, none_before(s, predicate, __it1.head as int), __res2.is_none(),
        invariant forall|c: char| #[trigger] predicate.requires((c,)),
        ensures
            match __res2 { Some(x) => first_at(s, predicate, x.0 as int), None => none_before(s, predicate, s.len() as int) },
//@at before `while let`
        let ghost mut g = __it1;
//@at loopstart 0
            proof { lemma_walk(s, g, __it1, __x3.0, __x3.1); g = __it1; }
//@end
//@fn evaluated::nom::InputTakeAtPosition for BlockSpan::split_at_position1
//@sub `let mut __res2 = None` => `let mut __res2: Option<(usize, char)> = None`
//@spec
    requires wf_span(*self), forall|c: char| #[trigger] predicate.requires((c,)),
    ensures
        r.is_ok() ==> r->Ok_0.1.length > 0 && split_first(*self, predicate, r->Ok_0.0, r->Ok_0.1, r->Ok_0.1.length as int)
            && span_flat(r->Ok_0.1) + span_flat(r->Ok_0.0) == span_flat(*self),
        r.is_err() ==> r->Err_0 == Err::Error(Context::Code(*self, e)) && (self.length == 0 || first_at(span_txt(*self), predicate, 0)),
//@at start
    let ghost s = span_txt(*self);
    proof { lemma_span_bnd(*self, 0); assert(s.subrange(0, s.len() as int) =~= s); lemma_joins(*self); }
//@loop 0
        invariant_except_break walk(s, __it1), g == __it1, none_before(s, predicate, __it1.head as int), __res2.is_none(),
        invariant forall|c: char| #[trigger] predicate.requires((c,)),
        ensures
            match __res2 { Some(x) => first_at(s, predicate, x.0 as int), None => none_before(s, predicate, s.len() as int) },
//@at before `while let`
        let ghost mut g = __it1;
//@at loopstart 0
            proof { lemma_walk(s, g, __it1, __x3.0, __x3.1); g = __it1; }
//@end
//@fn evaluated::nom::InputTake for BlockSpan::take
//@spec
    requires wf_span(*self), count <= self.length, bnd(span_txt(*self), count as int),
    ensures is_part(*self, 0, count as int, r),
//@end
//@fn evaluated::nom::InputTake for BlockSpan::take_split
//@spec
    requires wf_span(*self), count <= self.length, bnd(span_txt(*self), count as int),
    ensures is_part(*self, 0, count as int, r.1), is_part(*self, count as int, self.length as int, r.0), span_flat(r.1) + span_flat(r.0) == span_flat(*self),
//@at start
    proof { lemma_joins(*self); }
//@end
//@fn evaluated::nom::InputIter for BlockSpan::slice_index
//@sub `Some((index, _)) =` => `Some((index, __c)) =`
//@spec
    requires wf_span(*self),
    ensures match r {
        Some(i) => i <= self.length && bnd(span_txt(*self), i as int) && nchars(span_txt(*self), i as int) == count,
        None => nchars(span_txt(*self), self.length as int) < count,
    },
//@at start
    let ghost s = span_txt(*self);
    proof { lemma_span_bnd(*self, 0); assert(s.subrange(0, s.len() as int) =~= s); }
//@loop 0
        invariant_except_break walk(s, __it1), g == __it1, seen == nchars(s, __it1.head as int), seen <= __it1.head, seen <= count, s == span_txt(*self), s.len() == self.length,
        ensures seen <= count, seen == nchars(s, s.len() as int),
//@at before `while let`
        let ghost mut g = __it1;
//@at loopstart 0
            proof {
                let i = index as int;
                lemma_walk(s, g, __it1, index, __c);
                lemma_nchars(s, i, __it1.head as int);
                g = __it1;
            }
//@end
pub proof fn lemma_nchars(s: Seq<CB>, i: int, j: int)
    requires 0 <= i < j <= s.len(), s[i].k == 0, forall|x: int| i < x < j ==> (#[trigger] s[x]).k != 0,
    ensures nchars(s, j) == nchars(s, i) + 1,
    decreases j
{
    if j > i + 1 { lemma_nchars(s, i, j - 1); }
}
pub proof fn lemma_joins(s: BlockSpan)
    requires wf_span(s),
    ensures
        is_part(s, 0, s.length as int, s),
        forall|a: BlockSpan, b: BlockSpan, i: int| 0 <= i <= s.length && #[trigger] is_part(s, 0, i, a) && #[trigger] is_part(s, i, s.length as int, b) ==> span_flat(a) + span_flat(b) == span_flat(s),
{
    lemma_span_bnd(s, 0);
    assert(span_flat(s).subrange(0, s.length as int) =~= span_flat(s));
    assert forall|a: BlockSpan, b: BlockSpan, i: int| 0 <= i <= s.length && #[trigger] is_part(s, 0, i, a) && #[trigger] is_part(s, i, s.length as int, b) implies span_flat(a) + span_flat(b) == span_flat(s) by {
        lemma_split_join(s, a, b, i);
    }
}
