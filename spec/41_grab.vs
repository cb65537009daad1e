//@props C13 C07
pub open spec fn is_blank(c: char) -> bool { c == ' ' || c == '\t' }
/// the first position from i on that is not blank
pub open spec fn skip(s: Seq<CB>, i: int) -> int
    decreases s.len() - i
{
    if 0 <= i < s.len() && is_blank(s[i].c) { skip(s, i + 1) } else { i }
}
/// the first blank from i on
pub open spec fn word_end(s: Seq<CB>, i: int) -> int
    decreases s.len() - i
{
    if 0 <= i < s.len() && !is_blank(s[i].c) { word_end(s, i + 1) } else { i }
}
pub proof fn lemma_skip(s: Seq<CB>, i: int, j: int)
    requires wf_text(s), 0 <= i <= j <= s.len(), bnd(s, i), forall|x: int| i <= x < j && (#[trigger] s[x]).k == 0 ==> is_blank(s[x].c),
        j < s.len() ==> !is_blank(s[j].c),
    ensures skip(s, i) == j,
    decreases j - i
{
    if i < j {
        assert(wf_at(s, i));
        assert(s[i].k == 0);
        assert(w(s[i].c) == 1);
        if i + 1 < s.len() { assert(wf_at(s, i + 1)); }
        lemma_skip(s, i + 1, j);
    }
}
pub proof fn lemma_word_end(s: Seq<CB>, i: int, j: int)
    requires wf_text(s), 0 <= i <= j <= s.len(), bnd(s, i), forall|x: int| i <= x < j && (#[trigger] s[x]).k == 0 ==> !is_blank(s[x].c),
        j < s.len() ==> is_blank(s[j].c),
    ensures word_end(s, i) == j,
    decreases j - i
{
    if i < j {
        lemma_head(s, i);
        let e = i + w(s[i].c);
        assert(!is_blank(s[i].c));
        if j < e { assert(s[j].c == s[i].c); }
        lemma_word_end(s, e, j);
        lemma_word_run(s, i, e);
    }
}
proof fn lemma_word_run(s: Seq<CB>, i: int, e: int)
    requires 0 <= i <= e <= s.len(), forall|x: int| i <= x < e ==> !is_blank((#[trigger] s[x]).c),
    ensures word_end(s, i) == word_end(s, e),
    decreases e - i
{
    if i < e { lemma_word_run(s, i + 1, e); }
}
/// the bytes of the character at i
pub proof fn lemma_head(s: Seq<CB>, i: int)
    requires wf_text(s), 0 <= i < s.len(), s[i].k == 0,
    ensures i + w(s[i].c) <= s.len(), forall|x: int| i <= x < i + w(s[i].c) ==> (#[trigger] s[x]).c == s[i].c && s[x].k == x - i, bnd(s, i + w(s[i].c)),
{
    let t = s.subrange(i, s.len() as int);
    lemma_wf_sub(s, i, s.len() as int);
    let c = s[i].c;
    lemma_first(t, c);
    assert forall|x: int| i <= x < i + w(c) implies (#[trigger] s[x]).c == c && s[x].k == x - i by { assert(t.subrange(0, w(c))[x - i] == cbytes(c)[x - i]); assert(t[x - i] == s[x]); }
    if i + w(c) < s.len() { assert(t[w(c)] == s[i + w(c)]); }
}
/// a successful split: the part before p, and the rest
pub open spec fn splits<E>(i: BlockSpan, r: IResult<BlockSpan, BlockSpan, E>, a: int, b: int, c: int) -> bool {
    r.is_ok() && 0 <= a <= b <= c <= i.length && is_part(i, a, b, r->Ok_0.1) && is_part(i, c, i.length as int, r->Ok_0.0)
}
pub proof fn lemma_part_part(s: BlockSpan, a: int, b: int, t: BlockSpan, c: int, d: int, u: BlockSpan)
    requires is_part(s, a, b, t), is_part(t, c, d, u), 0 <= a <= b <= s.length, 0 <= c <= d <= t.length, wf_span(s),
    ensures is_part(s, a + c, a + d, u), span_txt(t) == span_txt(s).subrange(a, b), span_txt(u) == span_txt(s).subrange(a + c, a + d),
{
    lemma_span_bnd(s, 0);
    assert(span_flat(s).subrange(a, b).subrange(c, d) =~= span_flat(s).subrange(a + c, a + d));
    lemma_txt_sub(span_flat(s), a, b);
    lemma_txt_sub(span_flat(s), a + c, a + d);
}
pub proof fn lemma_skip_sub(s: Seq<CB>, a: int, i: int)
    requires 0 <= a, 0 <= i, a + i <= s.len(),
    ensures skip(s.subrange(a, s.len() as int), i) == skip(s, a + i) - a, word_end(s.subrange(a, s.len() as int), i) == word_end(s, a + i) - a,
        skip(s, a + i) <= s.len(), word_end(s, a + i) <= s.len(), skip(s, a + i) >= a + i, word_end(s, a + i) >= a + i,
    decreases s.len() - a - i
{
    if a + i < s.len() {
        assert(s.subrange(a, s.len() as int)[i] == s[a + i]);
        lemma_skip_sub(s, a, i + 1);
    }
}
//@fn parsers::makefile_whitespace
//@sig fn makefile_whitespace<'a>(input: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, BlockSpan<'a>, ParseErrorKind>)
//@spec
    requires wf_span(input),
    ensures splits(input, r, 0, skip(span_txt(input), 0), skip(span_txt(input), 0)),
//@at start
    proof {
        let s = span_txt(input);
        lemma_span_bnd(input, 0);
        assert forall|j: int| #![trigger bnd(s, j)] 0 <= j <= s.len() && (forall|x: int| 0 <= x < j && (#[trigger] s[x]).k == 0 ==> is_blank(s[x].c)) && (j < s.len() ==> !is_blank(s[j].c)) implies skip(s, 0) == j by { lemma_skip(s, 0, j); }
    }
//@end
//@fn parsers::makefile_token
//@sig fn makefile_token<'a>(input: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, BlockSpan<'a>, ParseErrorKind>)
//@spec
    requires wf_span(input),
    ensures ({
        let s = span_txt(input);
        let a = skip(s, 0);
        let b = word_end(s, a);
        splits(input, r, a, b, skip(s, b))
    }),
//@at start
    hide(skip); hide(word_end); hide(bnd);
    let ghost s = span_txt(input);
    let ghost a = skip(s, 0);
    let ghost b = word_end(s, a);
    proof { lemma_span_bnd(input, 0); lemma_skip_sub(s, 0, 0); lemma_skip_sub(s, 0, a); lemma_skip_sub(s, 0, b); }
//@at after `let i_k1 = i_h1.clone();`
                        let ghost i1 = i_k1;
                        proof { lemma_word_split(input, a, i1); }
//@at after `let i_k2 = i_h3.clone();`
                                    proof {
                                        lemma_part_part(input, a, input.length as int, i1, b - a, i1.length as int, i_k2);
                                        lemma_part_part(input, a, input.length as int, i1, 0, b - a, o_h3);
                                        lemma_skip_sub(s, b, 0);
                                        lemma_tail_parts(input, b, i_k2);
                                    }
//@end
/// where the next blank after a is, seen from the text that starts at a
proof fn lemma_word_split(i: BlockSpan, a: int, t: BlockSpan)
    requires wf_span(i), 0 <= a <= i.length, is_part(i, a, i.length as int, t),
    ensures
        span_txt(t) == span_txt(i).subrange(a, i.length as int), wf_text(span_txt(t)), span_txt(t).len() == t.length,
        forall|j: int| #[trigger] bnd(span_txt(t), j) && 0 <= j <= t.length && (forall|x: int| 0 <= x < j && (#[trigger] span_txt(t)[x]).k == 0 ==> !is_blank(span_txt(t)[x].c))
            && (j < t.length ==> is_blank(span_txt(t)[j].c)) ==> a + j == word_end(span_txt(i), a),
{
    let s = span_txt(t);
    lemma_span_bnd(i, 0);
    lemma_span_bnd(t, 0);
    lemma_txt_sub(span_flat(i), a, i.length as int);
    lemma_skip_sub(span_txt(i), a, 0);
    assert(s == span_txt(i).subrange(a, span_txt(i).len() as int));
    assert(word_end(s, 0) == word_end(span_txt(i), a + 0) - a);
    assert forall|j: int| #[trigger] bnd(span_txt(t), j) && 0 <= j <= t.length && (forall|x: int| 0 <= x < j && (#[trigger] span_txt(t)[x]).k == 0 ==> !is_blank(span_txt(t)[x].c))
            && (j < t.length ==> is_blank(span_txt(t)[j].c)) implies a + j == word_end(span_txt(i), a) by { lemma_word_end(s, 0, j); }
}
/// parts of a tail of i are parts of i
proof fn lemma_tail_parts(i: BlockSpan, b: int, t: BlockSpan)
    requires wf_span(i), 0 <= b <= i.length, is_part(i, b, i.length as int, t),
    ensures
        span_txt(t) == span_txt(i).subrange(b, i.length as int),
        forall|c: int, d: int, u: BlockSpan| 0 <= c <= d <= t.length && #[trigger] is_part(t, c, d, u) ==> is_part(i, b + c, b + d, u),
{
    lemma_span_bnd(i, 0);
    lemma_txt_sub(span_flat(i), b, i.length as int);
    assert forall|c: int, d: int, u: BlockSpan| 0 <= c <= d <= t.length && #[trigger] is_part(t, c, d, u) implies is_part(i, b + c, b + d, u) by { lemma_part_part(i, b, i.length as int, t, c, d, u); }
}

// ---------------------------------------------------------------- physical lines
/// the first line feed or comment from i on
pub open spec fn line_stop(s: Seq<CB>, i: int) -> int
    decreases s.len() - i
{
    if 0 <= i < s.len() && s[i].c != '\n' && s[i].c != '#' { line_stop(s, i + 1) } else { i }
}
/// where the text of the first line ends: a carriage return before the line feed is dropped
pub open spec fn line_end(s: Seq<CB>) -> int {
    let e = line_stop(s, 0);
    if 0 < e < s.len() && s[e].c == '\n' && s[e - 1].c == '\r' { e - 1 } else { e }
}
/// where the next line, or the comment, starts
pub open spec fn line_rest(s: Seq<CB>) -> int {
    let e = line_stop(s, 0);
    if 0 <= e < s.len() && s[e].c == '\n' { e + 1 } else { e }
}
pub open spec fn line_reason(s: Seq<CB>) -> LineEndReason {
    let e = line_stop(s, 0);
    if e >= s.len() { LineEndReason::EOF } else if s[e].c == '\n' { LineEndReason::LineBreak } else { LineEndReason::Comment }
}
pub proof fn lemma_line_stop(s: Seq<CB>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= line_stop(s, i) <= s.len(), forall|x: int| i <= x < line_stop(s, i) ==> (#[trigger] s[x]).c != '\n' && s[x].c != '#',
        line_stop(s, i) < s.len() ==> s[line_stop(s, i)].c == '\n' || s[line_stop(s, i)].c == '#',
    decreases s.len() - i
{
    if i < s.len() && s[i].c != '\n' && s[i].c != '#' { lemma_line_stop(s, i + 1); }
}
/// finding one ASCII character, as a text
pub proof fn lemma_find1(s: Seq<CB>, t: Seq<CB>, c: char)
    requires wf_text(s), w(c) == 1, t == seq![CB { c, k: 0 }],
    ensures
        forall|p: int| #[trigger] part_at(s, t, p) <==> 0 <= p < s.len() && s[p].c == c,
        forall|p: int| #![trigger part_at(s, t, p)] #![trigger s[p]] part_at(s, t, p) ==> bnd(s, p) && bnd(s, p + 1),
{
    assert forall|p: int| #[trigger] part_at(s, t, p) <==> 0 <= p < s.len() && s[p].c == c by {
        if part_at(s, t, p) { assert(s.subrange(p, p + 1)[0] == t[0]); }
        if 0 <= p < s.len() && s[p].c == c { assert(wf_at(s, p)); assert(s.subrange(p, p + 1) =~= t); }
    }
    assert forall|p: int| #![trigger part_at(s, t, p)] #![trigger s[p]] part_at(s, t, p) implies bnd(s, p) && bnd(s, p + 1) by {
        assert(wf_at(s, p));
        if p + 1 < s.len() { assert(wf_at(s, p + 1)); }
    }
}
pub proof fn lemma_find2(s: Seq<CB>, t: Seq<CB>, c: char, d: char)
    requires wf_text(s), w(c) == 1, w(d) == 1, t == seq![CB { c, k: 0 }, CB { c: d, k: 0 }],
    ensures
        forall|p: int| #[trigger] part_at(s, t, p) <==> 0 <= p && p + 1 < s.len() && s[p].c == c && s[p + 1].c == d,
{
    assert forall|p: int| #[trigger] part_at(s, t, p) <==> 0 <= p && p + 1 < s.len() && s[p].c == c && s[p + 1].c == d by {
        if part_at(s, t, p) { assert(s.subrange(p, p + 2)[0] == t[0]); assert(s.subrange(p, p + 2)[1] == t[1]); }
        if 0 <= p && p + 1 < s.len() && s[p].c == c && s[p + 1].c == d { assert(wf_at(s, p)); assert(wf_at(s, p + 1)); assert(s.subrange(p, p + 2) =~= t); }
    }
}
/// the three searches a line is cut with
proof fn lemma_line_finds(s: Seq<CB>)
    requires wf_text(s),
    ensures
        ({ let e = line_stop(s, 0);
            &&& 0 <= e <= s.len() && bnd(s, e) && bnd(s, line_end(s)) && bnd(s, line_rest(s)) && 0 <= line_end(s) <= e <= line_rest(s) <= s.len()
        }),
        forall|p: int| #![trigger part_at(s, lit_bytes("\n"@), p)] (part_at(s, lit_bytes("\n"@), p) <==> 0 <= p < s.len() && s[p].c == '\n'),
        forall|p: int| #![trigger part_at(s, lit_bytes("#"@), p)] (part_at(s, lit_bytes("#"@), p) <==> 0 <= p < s.len() && s[p].c == '#'),
        forall|p: int| #![trigger part_at(s, lit_bytes("\r\n"@), p)] (part_at(s, lit_bytes("\r\n"@), p) <==> 0 <= p && p + 1 < s.len() && s[p].c == '\r' && s[p + 1].c == '\n'),
{
    let e = line_stop(s, 0);
    lemma_line_stop(s, 0);
    reveal_strlit("\n"); reveal_strlit("#"); reveal_strlit("\r\n");
    assert("\n"@ =~= seq!['\n']); assert("#"@ =~= seq!['#']); assert("\r\n"@ =~= seq!['\r', '\n']);
    lemma_lit1('\n'); lemma_lit1('#'); lemma_lit2('\r', '\n');
    lemma_find1(s, lit_bytes("\n"@), '\n'); lemma_find1(s, lit_bytes("#"@), '#'); lemma_find2(s, lit_bytes("\r\n"@), '\r', '\n');
    if e < s.len() { assert(wf_at(s, e)); if s[e].c == '\n' { assert(part_at(s, lit_bytes("\n"@), e)); } }
    if 0 < e { assert(wf_at(s, e - 1)); }
}
//@props C13
//@fn parsers::makefile_grab_line
//@sig fn makefile_grab_line<'a>(input: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, (BlockSpan<'a>, LineEndReason), ParseErrorKind>)
//@spec
    requires wf_span(input),
    ensures r.is_ok(), ({
        let s = span_txt(input);
        let (rest, (line, reason)) = r->Ok_0;
        is_part(input, 0, line_end(s), line) && is_part(input, line_rest(s), input.length as int, rest) && reason == line_reason(s)
            && 0 <= line_end(s) <= line_rest(s) <= input.length
    }),
//@at start
    let ghost s = span_txt(input);
    proof {
        lemma_span_bnd(input, 0);
        lemma_line_finds(s);
        lemma_line_stop(s, 0);
        lemma_joins(input);
    }
//@at before `match (input.find_substring`
    proof {
        let e = line_stop(s, 0);
        if e < s.len() && s[e].c == '\n' { assert(part_at(s, lit_bytes("\n"@), e)); if 0 < e { assert(part_at(s, lit_bytes("\r\n"@), e - 1) <==> s[e - 1].c == '\r'); } }
        if e < s.len() && s[e].c == '#' { assert(part_at(s, lit_bytes("#"@), e)); }
        match line_break {
            Some(b) => { assert(part_at(s, lit_bytes("\n"@), b as int)); },
            None => { if e < s.len() { assert(s[e].c != '\n'); } }
        }
    }
//@end
