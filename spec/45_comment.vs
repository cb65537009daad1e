//@props C13
// ---------------------------------------------------------------- comments
/// what taking the first character of s can give
pub open spec fn heads(s: Seq<CB>) -> bool {
    forall|a: Seq<CB>, r: Option<char>| #[trigger] next_char(s, a, r) ==> head_of(s, r)
}
pub open spec fn head_of(s: Seq<CB>, r: Option<char>) -> bool {
    match r {
        Some(c) => s.len() > 0 && s[0] == (CB { c, k: 0 }) && w(c) <= s.len() && bnd(s, w(c)) && s.subrange(0, w(c)) == cbytes(c),
        None => s.len() == 0,
    }
}
pub proof fn lemma_heads(i: BlockSpan)
    requires wf_span(i),
    ensures heads(span_txt(i)), wf_text(span_txt(i)), span_txt(i).len() == i.length, bnd(span_txt(i), i.length as int), span_flat(i).len() == i.length,
{
    lemma_span_bnd(i, 0);
    let s = span_txt(i);
    assert forall|a: Seq<CB>, r: Option<char>| #[trigger] next_char(s, a, r) implies head_of(s, r) by { lemma_next_char(s, a, r); }
}
pub proof fn lemma_all_heads()
    ensures forall|i: BlockSpan| #![trigger wf_span(i)] wf_span(i) ==> heads(span_txt(i)) && span_txt(i).len() == i.length && span_flat(i).len() == i.length && bnd(span_txt(i), i.length as int) && wf_text(span_txt(i)),
{
    assert forall|i: BlockSpan| #![trigger wf_span(i)] wf_span(i) implies heads(span_txt(i)) && span_txt(i).len() == i.length && span_flat(i).len() == i.length && bnd(span_txt(i), i.length as int) && wf_text(span_txt(i)) by { lemma_heads(i); }
}
/// the line feed at i is escaped: the line before it (without a carriage return) ends in an odd number of backslashes
pub open spec fn escaped_nl(s: Seq<CB>, i: int) -> bool {
    slashes(s, if 0 < i <= s.len() && s[i - 1].c == '\r' { i - 1 } else { i }) % 2 == 1
}
/// where a comment that has been entered before i ends: behind the first line feed that is not escaped
pub open spec fn comment_end(s: Seq<CB>, i: int) -> int
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { s.len() as int } else if s[i].c == '\n' && !escaped_nl(s, i) { i + 1 } else { comment_end(s, i + 1) }
}
proof fn lemma_comment_end(s: Seq<CB>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= comment_end(s, i) <= s.len(),
    decreases s.len() - i
{
    if i < s.len() && !(s[i].c == '\n' && !escaped_nl(s, i)) { lemma_comment_end(s, i + 1); }
}
proof fn lemma_comment_skip(s: Seq<CB>, i: int, j: int)
    requires 0 <= i <= j <= s.len(), forall|x: int| i <= x < j ==> (#[trigger] s[x]).c != '\n' || escaped_nl(s, x),
    ensures comment_end(s, i) == comment_end(s, j),
    decreases j - i
{
    if i < j { assert(s[i].c != '\n' || escaped_nl(s, i)); lemma_comment_skip(s, i + 1, j); }
}
/// counting backslashes in a part that does not start behind one
pub proof fn lemma_slashes_sub(s: Seq<CB>, a: int, b: int, i: int)
    requires 0 <= a <= b <= s.len(), 0 <= i <= b - a, a > 0 ==> s[a - 1].c != '\\',
    ensures slashes(s.subrange(a, b), i) == slashes(s, a + i),
    decreases i
{
    if i > 0 {
        assert(s.subrange(a, b)[i - 1] == s[a + i - 1]);
        lemma_slashes_sub(s, a, b, i - 1);
    } else if a > 0 {
        assert(slashes(s, a) == 0);
    }
}
/// one line of a comment: s is all the text, the line starts at a
pub open spec fn line_step(s: Seq<CB>, a: int) -> bool {
    let u = s.subrange(a, s.len() as int);
    let r = a + line_rest(u);
    let more = line_reason(u) == LineEndReason::Comment || slashes(u.subrange(0, line_end(u)), line_end(u)) % 2 == 1;
    let h = if r < s.len() && s[r].c == '#' { r + 1 } else { r };
    &&& 0 <= line_end(u) <= line_rest(u) <= u.len()
    &&& more ==> comment_end(s, a) == comment_end(s, h) && (h == 0 || h == s.len() || (s[h - 1].c != '\\' && s[h - 1].c != '\r'))
    &&& !more ==> comment_end(s, a) == r
}
pub proof fn lemma_line_step(s: Seq<CB>, a: int)
    requires 0 <= a <= s.len(), a == 0 || a == s.len() || (s[a - 1].c != '\\' && s[a - 1].c != '\r'),
    ensures line_step(s, a),
{
    let u = s.subrange(a, s.len() as int);
    let e = line_stop(u, 0);
    lemma_line_stop(u, 0);
    assert forall|x: int| a <= x < a + e implies (#[trigger] s[x]).c != '\n' by { assert(u[x - a] == s[x]); }
    lemma_comment_skip(s, a, a + e);
    if a < s.len() {
        if 0 < e { assert(u[e - 1] == s[a + e - 1]); }
        lemma_slashes_sub(s, a, s.len() as int, line_end(u));
        lemma_slashes_sub(u, 0, line_end(u), line_end(u));
    }
    if a + e < s.len() { assert(u[e] == s[a + e]); }
    else {
        let le = line_end(u);
        assert(le == e);
    }
    let le = line_end(u);
    let r = a + line_rest(u);
    let h = if r < s.len() && s[r].c == '#' { r + 1 } else { r };
    if a + e < s.len() && s[a + e].c == '\n' {
        if e == 0 && a > 0 { assert(s[a - 1].c != '\r'); }
        assert(a + le == if 0 < a + e && s[a + e - 1].c == '\r' { a + e - 1 } else { a + e });
        assert(slashes(u.subrange(0, le), le) == slashes(s, a + le));
        assert(escaped_nl(s, a + e) <==> slashes(s, a + le) % 2 == 1);
        assert(r == a + e + 1);
        assert(escaped_nl(s, a + e) ==> comment_end(s, a + e) == comment_end(s, r));
        if h == r + 1 { lemma_comment_skip(s, r, h); }
    } else if a + e < s.len() {
        assert(r == a + e && h == r + 1);
        lemma_comment_skip(s, r, h);
    } else {
        assert(r == s.len());
    }
}
/// cutting a line of a comment off t, which is the tail of i from a on
pub proof fn lemma_comment_piece(i: BlockSpan, a: int, t: BlockSpan, line: BlockSpan, rest: BlockSpan)
    requires
        wf_span(i), wf_span(t), is_tail(i, a, t), is_part(t, 0, line_end(span_txt(t)), line), is_part(t, line_rest(span_txt(t)), t.length as int, rest),
        0 <= line_end(span_txt(t)) <= line_rest(span_txt(t)) <= t.length,
        a == 0 || a == i.length || (span_txt(i)[a - 1].c != '\\' && span_txt(i)[a - 1].c != '\r'),
    ensures ({
        let u = span_txt(i).subrange(a, i.length as int);
        line_step(span_txt(i), a) && span_txt(t) == u && span_txt(line) == u.subrange(0, line_end(u)) && line.length == line_end(u) && is_tail(i, a + line_rest(u), rest) && wf_span(line)
    }),
{
    let s = span_txt(i);
    lemma_span_bnd(i, 0);
    lemma_span_bnd(t, 0);
    lemma_span_bnd(line, 0);
    lemma_txt_sub(span_flat(i), a, i.length as int);
    lemma_txt_sub(span_flat(t), 0, line_end(span_txt(t)));
    lemma_part_part(i, a, i.length as int, t, line_rest(span_txt(t)), t.length as int, rest);
    lemma_line_step(s, a);
}
/// t is what remains of the tail i of i0 without an optional #
pub open spec fn past_hash(i: BlockSpan, t: BlockSpan) -> bool {
    let h = if i.length > 0 && span_txt(i)[0].c == '#' { 1int } else { 0 };
    is_part(i, h, i.length as int, t)
}
pub proof fn lemma_past_hash(i0: BlockSpan, a: int, i: BlockSpan, t: BlockSpan)
    requires wf_span(i0), is_tail(i0, a, i), wf_span(i), past_hash(i, t),
    ensures ({
        let s = span_txt(i0);
        let h = if a < s.len() && s[a].c == '#' { a + 1 } else { a };
        is_tail(i0, h, t) && wf_span(t)
    }),
{
    lemma_span_bnd(i0, 0);
    lemma_span_bnd(i, 0);
    lemma_txt_sub(span_flat(i0), a, i0.length as int);
    let h = if i.length > 0 && span_txt(i)[0].c == '#' { 1int } else { 0 };
    lemma_part_part(i0, a, i0.length as int, i, h, i.length as int, t);
}
//@fn parsers::comment::parse_comment
//@sig fn parse_comment<'a>(i: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, (), ParseErrorKind>)
//@spec
    requires wf_span(i),
    ensures
        r.is_err() <==> i.length == 0 || span_txt(i)[0].c != '#',
        r.is_err() ==> err_kind(r->Err_0) == 1,
        r.is_ok() ==> is_tail(i, comment_end(span_txt(i), 1), r->Ok_0.0),
//@at start
    hide(comment_end);
    broadcast use lemma_and1;
    let ghost i0 = i;
    let ghost s = span_txt(i);
    let ghost mut a = 1int;
    let ghost mut t = i;
    proof { lemma_heads(i); lemma_joins(i); }
//@at before `match (makefile_grab_line` 0
                            proof { t = i_k2; lemma_past_hash(i0, 0, i0, t); }
//@at before `while`
    proof { lemma_comment_piece(i0, 1, t, line_parse.0, i); }
//@loop 0
        invariant
            forall|x: usize| #[trigger] (x & 1) == x % 2, s == span_txt(i0), wf_span(i0), 0 <= a <= i0.length, s.len() == i0.length, line_step(s, a), comment_end(s, 1) == comment_end(s, a),
            is_tail(i0, a + line_rest(s.subrange(a, s.len() as int)), i), wf_span(i), wf_span(line_parse.0),
            span_txt(line_parse.0) == s.subrange(a, s.len() as int).subrange(0, line_end(s.subrange(a, s.len() as int))), line_parse.0.length == line_end(s.subrange(a, s.len() as int)),
            line_parse.1 == line_reason(s.subrange(a, s.len() as int)),
        ensures is_tail(i0, comment_end(s, 1), i),
//@at loopstart 0
        broadcast use lemma_and1;
        let ghost j = i;
        let ghost b = a + line_rest(s.subrange(a, s.len() as int));
        proof { lemma_heads(i); lemma_joins(i); }
//@at before `match (makefile_grab_line` 1
                                proof { t = i_k5; assert(past_hash(j, t)); lemma_past_hash(i0, b, j, t); }
//@at before `i = output.0`
        proof {
            let h = if b < s.len() && s[b].c == '#' { b + 1 } else { b };
            lemma_comment_piece(i0, h, t, output.1.0, output.0);
            a = h;
        }
//@end
