// The data of evaluated text as extracted, and what it means as text with positions.
/// string_interner::Sym
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct Sym { pub n: usize }
//@type ::VariableName
//@attr #[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@end
//@type ::FileName
//@attr #[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@end
//@type source_location::Marker
//@end
//@type source_location::Location
//@end
//@type source_location::Located
//@end
pub type LocatedString = Located<Text>;
pub type LocatedStr<'a> = Located<&'a Txt>;
//@type evaluated::Block
//@end
//@type evaluated::nodes::EvaluatedNode
//@end
//@type evaluated::nodes::VariableReference
//@end
//@type evaluated::nodes::SubstitutionReference
//@end
//@type evaluated::nodes::Evaluated
//@end
//@type evaluated::content_reference::ContentReference
//@end
//@type evaluated::block_span::BlockSpan
//@end
//@type evaluated::nodes::Chars
//@end
//@type evaluated::nodes::CharsInternal
//@end
//@type evaluated::content_reference::ContentReferenceIter
//@end
//@type evaluated::content_reference::ContentReferenceIndexIter
//@end
//@type evaluated::block_span::Iter
//@end
//@type evaluated::block_span::BlockSpanCharIteratorInternal
//@end
//@type evaluated::block_span::IndexIter
//@end
//@type evaluated::nodes::SegmentsIter
//@end
//@type evaluated::nodes::SegmentsInternal
//@end
//@type evaluated::content_reference::SegmentsIter
//@end
//@type evaluated::block_span::SegmentsIter
//@end

// derived Clone
impl Clone for Location {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for Marker {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<T> Clone for Located<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for Block {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for ContentReference {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<'a> Clone for BlockSpan<'a> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<'a> Copy for BlockSpan<'a> {}

// Deref of Located, used as ls.len(), ls.chars()
impl<'a> Located<&'a Txt> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.contents@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn chars(&self) -> (r: StrChars<'a>) ensures r.rem() == self.contents@ { unimplemented!() }
}
impl Located<Text> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.contents@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn chars<'a>(&'a self) -> (r: StrChars<'a>) ensures r.rem() == self.contents@ { unimplemented!() }
}

#[verifier::external_body]
pub fn empty_block_ref() -> (r: &'static Arc<Block>)
    ensures r.content@.len() == 0, r.sensitivity@ == Set::<VariableName>::empty(),
{ unimplemented!() }

#[verifier::external_body]
pub fn empty_refs() -> (r: &'static [ContentReference])
    ensures r@.len() == 0,
{ &[] }

// ---------------------------------------------------------------- positions
/// the position after character c that stands at l
pub open spec fn adv(l: Location, c: char) -> Location {
    match l {
        Location::SourceLocation { line, character, filename } =>
            if c == '\n' { Location::SourceLocation { line: (line + 1) as u32, character: 1, filename } }
            else { Location::SourceLocation { line, character: (character + 1) as u32, filename } },
        Location::EvalLocation { tree_node, line, character } =>
            if c == '\n' { Location::EvalLocation { tree_node, line: (line + 1) as u32, character: 1 } }
            else { Location::EvalLocation { tree_node, line, character: (character + 1) as u32 } },
        Location::Synthetic => Location::Synthetic,
    }
}

/// position of byte i of the text s that starts at l
pub open spec fn loc_at(s: Seq<CB>, l: Location, i: int) -> Location
    decreases i
{
    if i <= 0 || i > s.len() { l }
    else {
        let p = loc_at(s, l, i - 1);
        if s[i - 1].k == w(s[i - 1].c) - 1 { adv(p, s[i - 1].c) } else { p }
    }
}

/// a byte with its position
#[verifier::ext_equal]
pub struct Cell { pub b: CB, pub l: Location }

pub open spec fn locate(s: Seq<CB>, l: Location) -> Seq<Cell> {
    Seq::new(s.len(), |i: int| Cell { b: s[i], l: loc_at(s, l, i) })
}

pub open spec fn txt(s: Seq<Cell>) -> Seq<CB> { Seq::new(s.len(), |i: int| s[i].b) }

/// advancing n times from l stays within u32
pub open spec fn loc_room(l: Location, n: int) -> bool {
    match l {
        Location::SourceLocation { line, character, .. } => line + n <= u32::MAX && character + n <= u32::MAX && 1 + n <= u32::MAX,
        Location::EvalLocation { line, character, .. } => line + n <= u32::MAX && character + n <= u32::MAX && 1 + n <= u32::MAX,
        Location::Synthetic => true,
    }
}

// ---------------------------------------------------------------- the text of a node, reference, block, span
pub open spec fn node_flat(n: EvaluatedNode) -> Seq<Cell>
    decreases n
{
    match n {
        EvaluatedNode::Constant(ls) => locate(ls.contents@, ls.location.inner),
        EvaluatedNode::Concat(b) => bflat(*b, b.content.len() as nat),
        EvaluatedNode::VariableReference(v) => bflat(*v.value, v.value.content.len() as nat),
        EvaluatedNode::SubstitutionReference(v) => bflat(*v.value, v.value.content.len() as nat),
        EvaluatedNode::Evaluated(v) => bflat(*v.value, v.value.content.len() as nat),
    }
}
pub open spec fn bflat(b: Block, n: nat) -> Seq<Cell>
    decreases b, n
{
    if n == 0 || n > b.content.len() { Seq::empty() } else { bflat(b, (n - 1) as nat) + ref_flat(b.content[n - 1]) }
}
pub open spec fn ref_flat(r: ContentReference) -> Seq<Cell>
    decreases r
{
    node_flat(*r.node).subrange(r.offset as int, r.offset as int + r.length as int)
}
/// the same over a sequence of references
pub open spec fn refs_flat(s: Seq<ContentReference>) -> Seq<Cell>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { refs_flat(s.drop_last()) + ref_flat(s.last()) }
}
pub open spec fn block_flat(b: Block) -> Seq<Cell> { refs_flat(b.content@) }

/// no text is longer than any allocation can be
pub open spec fn cap() -> int { 0x7fff_ffff_ffff_0000 }

// well-formedness
pub open spec fn wf_node(n: EvaluatedNode) -> bool
    decreases n
{
    match n {
        EvaluatedNode::Constant(ls) => loc_room(ls.location.inner, ls.contents@.len() as int),
        EvaluatedNode::Concat(b) => bwf(*b, b.content.len() as nat),
        EvaluatedNode::VariableReference(v) => bwf(*v.value, v.value.content.len() as nat),
        EvaluatedNode::SubstitutionReference(v) => bwf(*v.value, v.value.content.len() as nat),
        EvaluatedNode::Evaluated(v) => bwf(*v.value, v.value.content.len() as nat),
    }
}
pub open spec fn bwf(b: Block, n: nat) -> bool
    decreases b, n
{
    n == 0 || n > b.content.len() || (bwf(b, (n - 1) as nat) && wf_ref(b.content[n - 1]) && bflat(b, n).len() <= cap())
}
pub open spec fn wf_ref(r: ContentReference) -> bool
    decreases r
{
    let f = node_flat(*r.node);
    wf_node(*r.node) && r.offset + r.length <= f.len() && bnd(txt(f), r.offset as int) && bnd(txt(f), r.offset + r.length)
}
pub open spec fn wf_refs(s: Seq<ContentReference>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> wf_ref(s[i])
    &&& refs_flat(s).len() <= cap()
}
pub open spec fn wf_block(b: Block) -> bool { wf_refs(b.content@) }

/// a is the end of b
pub open spec fn is_suffix<T>(a: Seq<T>, b: Seq<T>) -> bool {
    a.len() <= b.len() && a == b.subrange(b.len() - a.len(), b.len() as int)
}
/// a span before its start is normalised
pub open spec fn wf_span0(s: BlockSpan) -> bool {
    let f = refs_flat(s.contents@);
    wf_refs(s.contents@) && wf_block(*s.parent) && is_suffix(s.contents@, s.parent.content@) && s.offset + s.length <= f.len() && bnd(txt(f), s.offset as int) && bnd(txt(f), s.offset + s.length)
}
pub open spec fn wf_span(s: BlockSpan) -> bool {
    wf_span0(s) && (s.length > 0 ==> s.contents@.len() > 0 && s.offset < s.contents@[0].length)
}
pub open spec fn span_flat(s: BlockSpan) -> Seq<Cell> {
    refs_flat(s.contents@).subrange(s.offset as int, s.offset + s.length)
}
pub open spec fn span_txt(s: BlockSpan) -> Seq<CB> { txt(span_flat(s)) }

// ---------------------------------------------------------------- lemmas
pub open spec fn ad<T>(a: Arc<T>) -> T { *a }

pub proof fn lemma_txt_add(a: Seq<Cell>, b: Seq<Cell>)
    ensures txt(a + b) == txt(a) + txt(b),
{
    assert(txt(a + b) =~= txt(a) + txt(b));
}
pub proof fn lemma_txt_sub(a: Seq<Cell>, i: int, j: int)
    requires 0 <= i <= j <= a.len(),
    ensures txt(a.subrange(i, j)) == txt(a).subrange(i, j),
{
    assert(txt(a.subrange(i, j)) =~= txt(a).subrange(i, j));
}
pub proof fn lemma_wf_add(a: Seq<CB>, b: Seq<CB>)
    requires wf_text(a), wf_text(b),
    ensures wf_text(a + b),
{
    let s = a + b;
    assert forall|i: int| 0 <= i < s.len() implies wf_at(s, i) by {
        if i < a.len() {
            assert(s[i] == a[i]); assert(wf_at(a, i));
            if i > 0 { assert(s[i - 1] == a[i - 1]); }
        } else {
            let j = i - a.len();
            assert(s[i] == b[j]); assert(wf_at(b, j));
            if j > 0 { assert(s[i - 1] == b[j - 1]); }
            if j + 1 < b.len() { assert(s[i + 1] == b[j + 1]); }
        }
    }
}
pub proof fn lemma_wf_sub(s: Seq<CB>, a: int, b: int)
    requires wf_text(s), 0 <= a <= b <= s.len(), bnd(s, a), bnd(s, b),
    ensures wf_text(s.subrange(a, b)),
{
    let t = s.subrange(a, b);
    assert forall|i: int| 0 <= i < t.len() implies wf_at(t, i) by {
        assert(t[i] == s[i + a]); assert(wf_at(s, i + a));
        if i > 0 { assert(t[i - 1] == s[i + a - 1]); }
        if i + 1 < t.len() { assert(t[i + 1] == s[i + a + 1]); }
    }
}
/// boundaries of a part are boundaries of the whole
pub proof fn lemma_bnd_sub(s: Seq<CB>, a: int, b: int, i: int)
    requires 0 <= a <= b <= s.len(), 0 <= i <= b - a, bnd(s, b),
    ensures bnd(s.subrange(a, b), i) == bnd(s, a + i),
{
    if i < b - a { assert(s.subrange(a, b)[i] == s[a + i]); }
}
/// the first character of a text
pub proof fn lemma_first(s: Seq<CB>, c: char)
    requires wf_text(s), s.len() > 0,
    ensures s[0].k == 0, w(s[0].c) <= s.len(), s.subrange(0, w(s[0].c)) == cbytes(s[0].c), bnd(s, w(s[0].c)),
{
    let c = s[0].c;
    assert(wf_at(s, 0));
    assert(w(c) >= 2 ==> s.len() > 1 && s[1] == CB { c, k: 1 });
    if w(c) >= 2 { assert(wf_at(s, 1)); }
    assert(w(c) >= 3 ==> s.len() > 2 && s[2] == CB { c, k: 2 });
    if w(c) >= 3 { assert(wf_at(s, 2)); }
    assert(w(c) >= 4 ==> s.len() > 3 && s[3] == CB { c, k: 3 });
    if w(c) >= 4 { assert(wf_at(s, 3)); }
    assert(s.subrange(0, w(c)) =~= cbytes(c));
    if w(c) < s.len() { assert(wf_at(s, w(c))); assert(s[w(c) - 1] == CB { c, k: w(c) - 1 }); }
}
/// what follows the first character
pub proof fn lemma_next_char(before: Seq<CB>, after: Seq<CB>, r: Option<char>)
    requires next_char(before, after, r), wf_text(before),
    ensures
        wf_text(after),
        r.is_some() ==> {
            let c = r.unwrap();
            &&& 1 <= w(c) <= 4 && w(c) <= before.len() && after == before.subrange(w(c), before.len() as int) && after.len() == before.len() - w(c)
            &&& bnd(before, w(c)) && bnd(before, 0) && before[0] == CB { c, k: 0 } && before.subrange(0, w(c)) == cbytes(c)
            &&& forall|i: int| 0 < i < w(c) ==> !#[trigger] bnd(before, i)
        },
{
    if r.is_some() {
        let c = r.unwrap();
        assert(after =~= before.subrange(w(c), before.len() as int));
        assert(before.subrange(0, w(c)) =~= cbytes(c));
        assert(before[0] == cbytes(c)[0]);
        lemma_first(before, c);
        lemma_wf_sub(before, w(c), before.len() as int);
        assert forall|i: int| 0 < i < w(c) implies !#[trigger] bnd(before, i) by { assert(before[i] == cbytes(c)[i]); }
    }
}

pub proof fn lemma_loc_sub(s: Seq<CB>, l: Location, a: int, b: int, j: int)
    requires 0 <= a <= b <= s.len(), 0 <= j <= b - a,
    ensures loc_at(s.subrange(a, b), loc_at(s, l, a), j) == loc_at(s, l, a + j),
    decreases j
{
    if j > 0 { lemma_loc_sub(s, l, a, b, j - 1); assert(s.subrange(a, b)[j - 1] == s[a + j - 1]); }
}
pub proof fn lemma_locate_sub(s: Seq<CB>, l: Location, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures locate(s, l).subrange(a, b) == locate(s.subrange(a, b), loc_at(s, l, a)),
{
    let x = locate(s, l).subrange(a, b);
    let y = locate(s.subrange(a, b), loc_at(s, l, a));
    assert forall|j: int| 0 <= j < b - a implies x[j] == y[j] by { lemma_loc_sub(s, l, a, b, j); }
    assert(x =~= y);
}
pub proof fn lemma_room(s: Seq<CB>, l: Location, n: int, i: int)
    requires loc_room(l, n), 0 <= i <= n, i <= s.len(),
    ensures loc_room(loc_at(s, l, i), n - i),
    decreases i
{
    if i > 0 { lemma_room(s, l, n, i - 1); }
}
/// passing one character
pub proof fn lemma_loc_char(s: Seq<CB>, l: Location, a: int, c: char)
    requires 0 <= a, a + w(c) <= s.len(), s.subrange(a, a + w(c)) == cbytes(c),
    ensures loc_at(s, l, a + w(c)) == adv(loc_at(s, l, a), c),
{
    let t = s.subrange(a, a + w(c));
    assert forall|j: int| 0 <= j < w(c) implies #[trigger] s[a + j] == (CB { c, k: j }) by { assert(t[j] == s[a + j]); assert(cbytes(c)[j] == CB { c, k: j }); }
    lemma_loc_in(s, l, a, c, w(c) - 1);
    assert(s[a + (w(c) - 1)] == CB { c, k: w(c) - 1 });
}
proof fn lemma_loc_in(s: Seq<CB>, l: Location, a: int, c: char, k: int)
    requires 0 <= a, a + w(c) <= s.len(), 0 <= k < w(c), forall|j: int| 0 <= j < w(c) ==> #[trigger] s[a + j] == (CB { c, k: j }),
    ensures loc_at(s, l, a + k) == loc_at(s, l, a),
    decreases k
{
    if k > 0 { lemma_loc_in(s, l, a, c, k - 1); assert(s[a + (k - 1)] == CB { c, k: k - 1 }); }
}

pub proof fn lemma_refs_add(a: Seq<ContentReference>, b: Seq<ContentReference>)
    ensures refs_flat(a + b) == refs_flat(a) + refs_flat(b),
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(refs_flat(b) =~= Seq::empty());
        assert(refs_flat(a) + refs_flat(b) =~= refs_flat(a));
    } else {
        lemma_refs_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(refs_flat(a) + (refs_flat(b.drop_last()) + ref_flat(b.last())) =~= (refs_flat(a) + refs_flat(b.drop_last())) + ref_flat(b.last()));
    }
}
pub proof fn lemma_refs_one(r: ContentReference)
    ensures refs_flat(seq![r]) == ref_flat(r),
{
    assert(seq![r].drop_last() =~= Seq::empty());
    assert(refs_flat(Seq::<ContentReference>::empty()) =~= Seq::empty());
    assert(refs_flat(seq![r]) =~= ref_flat(r));
}
pub proof fn lemma_refs_push(a: Seq<ContentReference>, r: ContentReference)
    ensures refs_flat(a.push(r)) == refs_flat(a) + ref_flat(r),
{
    assert(a.push(r).drop_last() =~= a);
}
pub proof fn lemma_refs_first(s: Seq<ContentReference>)
    requires s.len() > 0,
    ensures refs_flat(s) == ref_flat(s[0]) + refs_flat(s.drop_first()),
            s.drop_first() == s.subrange(1, s.len() as int),
{
    assert(s =~= seq![s[0]] + s.drop_first());
    lemma_refs_add(seq![s[0]], s.drop_first());
    lemma_refs_one(s[0]);
    assert(s.drop_first() =~= s.subrange(1, s.len() as int));
}
pub proof fn lemma_refs_split(s: Seq<ContentReference>, i: int)
    requires 0 <= i <= s.len(),
    ensures refs_flat(s) == refs_flat(s.subrange(0, i)) + refs_flat(s.subrange(i, s.len() as int)),
{
    assert(s =~= s.subrange(0, i) + s.subrange(i, s.len() as int));
    lemma_refs_add(s.subrange(0, i), s.subrange(i, s.len() as int));
}
pub proof fn lemma_bflat(b: Block, n: nat)
    requires n <= b.content.len(),
    ensures bflat(b, n) == refs_flat(b.content@.subrange(0, n as int)),
    decreases n
{
    let s = b.content@.subrange(0, n as int);
    if n > 0 {
        lemma_bflat(b, (n - 1) as nat);
        assert(s.drop_last() =~= b.content@.subrange(0, n - 1));
        assert(s.last() == b.content[n - 1]);
    }
}
proof fn lemma_bwf1(b: Block, n: nat)
    requires n <= b.content.len(), bwf(b, n),
    ensures forall|i: int| 0 <= i < n ==> wf_ref(#[trigger] b.content@[i]), bflat(b, n).len() <= cap(),
    decreases n
{
    if n > 0 {
        lemma_bwf1(b, (n - 1) as nat);
        assert forall|i: int| 0 <= i < n implies wf_ref(#[trigger] b.content@[i]) by { if i == n - 1 { assert(b.content@[i] == b.content[n - 1]); } }
    }
}
proof fn lemma_bwf2(b: Block, n: nat)
    requires n <= b.content.len(), wf_block(b),
    ensures bwf(b, n),
    decreases n
{
    if n > 0 {
        lemma_bwf2(b, (n - 1) as nat);
        assert(wf_ref(b.content@[n - 1]));
        lemma_bflat(b, n);
        lemma_refs_split(b.content@, n as int);
    }
}
/// the two ways of describing a block agree
pub proof fn lemma_block(b: Block)
    ensures
        bflat(b, b.content.len() as nat) == block_flat(b),
        bwf(b, b.content.len() as nat) == wf_block(b),
{
    let n = b.content.len() as nat;
    lemma_bflat(b, n);
    assert(b.content@.subrange(0, n as int) =~= b.content@);
    if bwf(b, n) { lemma_bwf1(b, n); }
    if wf_block(b) { lemma_bwf2(b, n); }
}
/// well-formed data reads as well-formed text
pub proof fn lemma_wf_node(n: EvaluatedNode)
    requires wf_node(n),
    ensures wf_text(txt(node_flat(n))), node_flat(n).len() <= cap(),
    decreases n
{
    match n {
        EvaluatedNode::Constant(ls) => { assert(txt(node_flat(n)) =~= ls.contents@); }
        EvaluatedNode::Concat(b) => { lemma_wf_bflat(ad(b), b.content.len() as nat); lemma_bwf1(ad(b), b.content.len() as nat); }
        EvaluatedNode::VariableReference(v) => { lemma_wf_bflat(ad(v.value), v.value.content.len() as nat); lemma_bwf1(ad(v.value), v.value.content.len() as nat); }
        EvaluatedNode::SubstitutionReference(v) => { lemma_wf_bflat(ad(v.value), v.value.content.len() as nat); lemma_bwf1(ad(v.value), v.value.content.len() as nat); }
        EvaluatedNode::Evaluated(v) => { lemma_wf_bflat(ad(v.value), v.value.content.len() as nat); lemma_bwf1(ad(v.value), v.value.content.len() as nat); }
    }
}
pub proof fn lemma_wf_bflat(b: Block, n: nat)
    requires n <= b.content.len(), bwf(b, n),
    ensures wf_text(txt(bflat(b, n))),
    decreases b, n
{
    if n > 0 {
        lemma_wf_bflat(b, (n - 1) as nat);
        lemma_wf_ref(b.content[n - 1]);
        lemma_txt_add(bflat(b, (n - 1) as nat), ref_flat(b.content[n - 1]));
        lemma_wf_add(txt(bflat(b, (n - 1) as nat)), txt(ref_flat(b.content[n - 1])));
    }
}
pub proof fn lemma_wf_ref(r: ContentReference)
    requires wf_ref(r),
    ensures wf_text(txt(ref_flat(r))), ref_flat(r).len() == r.length, wf_text(txt(node_flat(*r.node))),
    decreases r
{
    lemma_wf_node(ad(r.node));
    let f = node_flat(ad(r.node));
    lemma_txt_sub(f, r.offset as int, r.offset + r.length);
    lemma_wf_sub(txt(f), r.offset as int, r.offset + r.length);
}
pub proof fn lemma_wf_refs(s: Seq<ContentReference>)
    requires forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> wf_ref(s[i]),
    ensures wf_text(txt(refs_flat(s))),
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert(forall|i: int| #![trigger d[i]] 0 <= i < d.len() ==> d[i] == s[i]);
        lemma_wf_refs(d);
        lemma_wf_ref(s.last());
        lemma_txt_add(refs_flat(d), ref_flat(s.last()));
        lemma_wf_add(txt(refs_flat(d)), txt(ref_flat(s.last())));
    }
}
/// where a span starts in its block
pub open spec fn span_start(s: BlockSpan) -> int {
    refs_flat(s.parent.content@.subrange(0, s.parent.content@.len() - s.contents@.len())).len() + s.offset
}
