//@props C15
// ================================================================ C15: rule lines
/// the first dollar sign from i on (the length if there is none)
pub open spec fn dollar_from(s: Seq<CB>, i: int) -> int
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { s.len() as int } else if s[i] == (CB { c: '$', k: 0 }) { i } else { dollar_from(s, i + 1) }
}
/// the end of the reference whose dollar sign stands at d (of the text if it is not closed)
pub open spec fn past_ref(s: Seq<CB>, d: int) -> int {
    let m = d + 1;
    if m < 0 || m >= s.len() { s.len() as int }
    else if bracket(s[m].c) { let e = close_at(s, m + 1, 1, s[m].c, closing(s[m].c)); if e < 0 { s.len() as int } else { e + 1 } }
    else { m + w(s[m].c) }
}
proof fn lemma_dollar_at(s: Seq<CB>, a: int)
    requires 0 <= a <= s.len(),
    ensures a <= dollar_from(s, a) <= s.len(), dollar_from(s, a) < s.len() ==> s[dollar_from(s, a)] == (CB { c: '$', k: 0 }),
    decreases s.len() - a
{
    if a < s.len() && s[a] != (CB { c: '$', k: 0 }) { lemma_dollar_at(s, a + 1); }
}
proof fn lemma_dollar_from(s: Seq<CB>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|x: int| a <= x < b ==> #[trigger] s[x] != (CB { c: '$', k: 0 }),
    ensures dollar_from(s, a) == dollar_from(s, b),
    decreases b - a
{
    if a < b { assert(s[a] != (CB { c: '$', k: 0 })); lemma_dollar_from(s, a + 1, b); }
}
proof fn lemma_close_skip2(s: Seq<CB>, a: int, b: int, o: char, c: char)
    requires 0 <= a <= b <= s.len(), forall|x: int| a <= x < b ==> (#[trigger] s[x]).k != 0,
    ensures forall|n: int| #[trigger] close_at(s, a, n, o, c) == close_at(s, b, n, o, c),
    decreases b - a
{
    if a < b {
        assert(s[a].k != 0);
        lemma_close_skip2(s, a + 1, b, o, c);
        assert forall|n: int| #[trigger] close_at(s, a, n, o, c) == close_at(s, b, n, o, c) by { assert(close_at(s, a + 1, n, o, c) == close_at(s, b, n, o, c)); }
    }
}
proof fn lemma_close_step2(s: Seq<CB>, i: int, o: char, c: char)
    requires 0 <= i < s.len(), s[i].k == 0,
    ensures forall|n: int| #[trigger] close_at(s, i, n, o, c) == (
        if s[i].c == o { close_at(s, i + 1, n + 1, o, c) }
        else if s[i].c == c { if n <= 1 { i } else { close_at(s, i + 1, n - 1, o, c) } }
        else { close_at(s, i + 1, n, o, c) }),
{}
//@fn parsers::targets::find_reference
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sub `Some((idx, chr)) => return (start, idx + char_len(chr)),` => `Some((idx, chr)) => { proof { lemma_walk(s, g, chars, idx, chr); } return (start, idx + char_len(chr)) }`
//@spec
    requires wf_span(i),
    ensures ({
        let s = span_txt(i);
        r.0 == dollar_from(s, 0) && r.0 <= r.1 <= i.length && bnd(s, r.0 as int) && bnd(s, r.1 as int) && (r.0 == i.length <==> r.0 == r.1) && (r.0 < i.length ==> r.1 == past_ref(s, r.0 as int))
    }),
//@at start
    let ghost s = span_txt(i);
    proof { lemma_ascii_heads(); lemma_span_bnd(i, 0); assert(s.subrange(0, s.len() as int) =~= s); assume(s.len() < i32::MAX); }
//@at before `while`
    let ghost mut g = chars;
//@loop 0
        invariant g == chars, walk(s, chars), dollar_from(s, chars.head as int) == dollar_from(s, 0),
        ensures chars.head == s.len(),
//@at loopstart 0
        proof {
            lemma_walk(s, g, chars, start, chr);
            g = chars;
            if chr != '$' { lemma_dollar_from(s, start as int, chars.head as int); }
        }
//@at before `let mut depth`
        proof { lemma_walk(s, g, chars, (end - 1) as usize, open); g = chars; assert(end == chars.head); }
        let ghost e = close_at(s, end as int, 1, open, close);
//@loop 1
            invariant g == chars, walk(s, chars), 0 <= depth <= end, end == chars.head, start < end <= s.len(),
                depth > 0 ==> close_at(s, end as int, depth as int, open, close) == e,
                depth == 0 ==> e == end - 1,
            ensures if e < 0 { end == s.len() } else { end == e + 1 }, end == chars.head, walk(s, chars),
//@at before `if chr == open`
                    proof { lemma_walk(s, g, chars, idx, chr); lemma_close_skip2(s, idx + 1, chars.head as int, open, close); lemma_close_step2(s, idx as int, open, close); g = chars; }
//@end
/// the characters that end the names in a rule line
pub open spec fn cmd_stop() -> spec_fn(char) -> bool { |c: char| c == ';' || c == '#' }
/// what precedes the first unquoted semicolon or number sign in f that is not part of a reference, and where it stands (-1 if nowhere)
pub open spec fn cmd_cut(f: Seq<Cell>) -> (Seq<Cell>, int)
    decreases f.len()
{
    let d = dollar_from(txt(f), 0);
    let g = f.subrange(0, d);
    let p = qfirst(g, cmd_stop(), 0);
    let u = unquoted(g, cmd_stop(), p);
    if p < d { (halve(u, slashes(txt(g), p)), p) }
    else if d >= f.len() { (u, -1) }
    else {
        let e = past_ref(txt(f), d);
        if d < e <= f.len() { let r = cmd_cut(tl(f, e)); (u + f.subrange(d, e) + r.0, if r.1 < 0 { -1 } else { e + r.1 }) } else { (u, -1) }
    }
}
pub open spec fn cut_at(i: BlockSpan, r: (Arc<Block>, Option<(BlockSpan, BlockSpan)>)) -> bool {
    let (t, p) = cmd_cut(span_flat(i));
    &&& wf_block(*r.0) && block_flat(*r.0) == t
    &&& match r.1 {
            Some((stop, post)) => 0 <= p < i.length && is_part(i, p, p + 1, stop) && is_part(i, p + 1, i.length as int, post),
            None => p < 0,
        }
}
/// parts of a tail
proof fn lemma_tail_part(i: BlockSpan, at: int, t: BlockSpan)
    requires wf_span(i), is_tail(i, at, t),
    ensures forall|a: int, b: int, u: BlockSpan| 0 <= a <= b <= t.length && #[trigger] is_part(t, a, b, u) ==> is_part(i, at + a, at + b, u),
{
    assert forall|a: int, b: int, u: BlockSpan| 0 <= a <= b <= t.length && #[trigger] is_part(t, a, b, u) implies is_part(i, at + a, at + b, u) by { lemma_part_part(i, at, i.length as int, t, a, b, u); }
}
/// what precedes the first reference in i decides
proof fn lemma_cmd_piece(i: BlockSpan, head: BlockSpan, d: int, e: int, text: Seq<Cell>, r: Option<(BlockSpan, BlockSpan)>)
    requires wf_span(i), is_part(i, 0, d, head), 0 <= d <= e <= i.length, d == dollar_from(span_txt(i), 0), d < i.length ==> e == past_ref(span_txt(i), d) && d < e, unquote_result(head, cmd_stop(), text, r),
    ensures ({
        let f = span_flat(i);
        let (t, p) = cmd_cut(f);
        match r {
            Some((stop, post)) => t == text && p == d - post.length - 1 && p >= 0 && is_part(i, p, p + 1, stop) && post.length < d && wf_span(post) && bnd(span_txt(i), p + 1),
            None => if d == f.len() { t == text && p == -1 } else { let z = cmd_cut(tl(f, e)); t == text + f.subrange(d, e) + z.0 && p == if z.1 < 0 { -1 } else { e + z.1 } },
        }
    }),
{
    let f = span_flat(i);
    let g = f.subrange(0, d);
    lemma_span_bnd(i, 0); lemma_span_bnd(head, 0);
    match r {
        Some((stop, post)) => {
            let p = head.length - post.length - stop.length;
            lemma_qfirst(g, cmd_stop(), 0, p);
            lemma_ascii_heads();
            lemma_part_part(i, 0, d, head, p, p + 1, stop);
            lemma_part_part(i, 0, d, head, p + 1, d, post);
            lemma_span_bnd(post, 0);
            lemma_dollar_at(span_txt(i), 0);
            assert(span_txt(i)[p] == g[p].b);
            if post.length > 0 { assert(span_txt(post)[0] == span_txt(i)[p + 1]); }
            assert(cmd_cut(f).1 == p);
            assert(bnd(span_txt(i), p + 1));
        },
        None => { lemma_qfirst(g, cmd_stop(), 0, d); },
    }
}
//@fn parsers::targets::take_until_command
//@attr #[verifier::loop_isolation(false)]
//@sub `let (pre, found) = makefile_take_until_unquote(i.slice_to(start),` => `let head = i.slice_to(start); let (pre, found) = makefile_take_until_unquote(head,`
//@spec
    requires wf_span(i),
    ensures cut_at(i, r),
//@at start
    hide(unquoted); hide(slashes); hide(halve); hide(dollar_from); hide(past_ref); hide(cmd_cut); hide(unquote_result); hide(wf_ref); hide(ref_flat); hide(refs_flat);
    let ghost i0 = i;
    let ghost want = cmd_cut(span_flat(i));
    let ghost mut at: int = 0;
    proof { lemma_span_bnd(i, 0); lemma_tails(i); assert(span_flat(i).subrange(0, i.length as int) =~= span_flat(i)); }
//@loop 0
        invariant wf_span(i), wf_block(*content), is_tail(i0, at, i), 0 <= at <= i0.length, i.length + at == i0.length, wf_span(i0),
            block_flat(*content) + cmd_cut(span_flat(i)).0 == want.0,
            if cmd_cut(span_flat(i)).1 < 0 { want.1 < 0 } else { want.1 == at + cmd_cut(span_flat(i)).1 },
            block_flat(*content).len() <= at,
        decreases i.length
//@at loopstart 0
        let ghost ii = i;
        let ghost f = span_flat(i);
        let ghost c0 = block_flat(ad(content));
        proof { lemma_span_bnd(i, 0); lemma_tails(i); }
//@at before `arc_make_mut(&mut content)` 0
        let ghost g = f.subrange(0, start as int);
        proof {
            assert(unquote_result(head, cmd_stop(), block_flat(*pre), found));
            lemma_span_bnd(head, 0);
            assert(span_flat(head) == g);
            lemma_tail_part(i0, at, i);
            lemma_cmd_piece(i, head, start as int, end as int, block_flat(ad(pre)), found);
        }
//@at before `if start == end`
        proof { assert(c0 + block_flat(*pre) + Seq::<Cell>::empty() =~= c0 + block_flat(*pre)); }
//@at after `i = i.slice_from(end);`
        proof {
            lemma_part_part(i0, at, i0.length as int, ii, end as int, ii.length as int, i);
            let r = cmd_cut(span_flat(i));
            assert(c0 + (block_flat(*pre) + f.subrange(start as int, end as int) + r.0) =~= (c0 + block_flat(*pre) + f.subrange(start as int, end as int)) + r.0);
            at = at + end;
        }
//@end
// ---------------------------------------------------------------- the colon
/// letters, as Unicode has them
pub uninterp spec fn is_alpha(c: char) -> bool;
#[verifier::external_body]
pub fn char_is_alpha(c: char) -> (r: bool)
    ensures r == is_alpha(c),
{ c.is_alphabetic() }
pub open spec fn colons() -> spec_fn(char) -> bool { |c: char| c == ':' }
/// the last character of s, and the one before it
pub open spec fn last_char(s: Seq<CB>) -> Option<char> { if s.len() == 0 { None } else { Some(s.last().c) } }
pub open spec fn before_last(s: Seq<CB>) -> Option<char> { if s.len() == 0 { None } else { last_char(s.subrange(0, s.len() - w(s.last().c))) } }
/// is the colon between a and b part of a drive specification: a slash behind a letter that starts a word?
pub open spec fn is_drive(a: Seq<CB>, b: Seq<CB>) -> bool {
    &&& b.len() > 0 && (b[0].c == '/' || b[0].c == '\\')
    &&& last_char(a) matches Some(c) && is_alpha(c)
    &&& before_last(a) matches Some(c) ==> is_ws(c) || c == '('
}
/// what precedes the first unquoted colon in f that is not part of a drive specification, and where it stands (-1 if nowhere)
pub open spec fn colon_cut(f: Seq<Cell>) -> (Seq<Cell>, int)
    decreases f.len()
{
    let p = qfirst(f, colons(), 0);
    let u = unquoted(f, colons(), p);
    if p < 0 || p >= f.len() { (u, -1) }
    else {
        let pre = halve(u, slashes(txt(f), p));
        if !is_drive(txt(pre), txt(tl(f, p + 1))) { (pre, p) }
        else { let r = colon_cut(tl(f, p + 1)); (pre + f.subrange(p, p + 1) + r.0, if r.1 < 0 { -1 } else { p + 1 + r.1 }) }
    }
}
//@type parsers::targets::DrivespecSearchResult
//@end
pub open spec fn colon_found(i: BlockSpan, r: DrivespecSearchResult) -> bool {
    let (t, p) = colon_cut(span_flat(i));
    match r {
        DrivespecSearchResult::FoundColon { pre_colon, post_colon } => 0 <= p < i.length && wf_block(*pre_colon) && block_flat(*pre_colon) == t && is_part(i, p + 1, i.length as int, post_colon),
        DrivespecSearchResult::NoColon(b) => p < 0 && wf_block(*b) && block_flat(*b) == t,
    }
}
/// quoting shortens the text, but leaves the backslashes it ends in
proof fn lemma_unquoted_len(f: Seq<Cell>, q: spec_fn(char) -> bool, i: int)
    requires 0 <= i <= f.len(), !q('\\'),
    ensures 0 <= slashes(txt(f), i) <= unquoted(f, q, i).len() <= i,
    decreases i
{
    if i > 0 { lemma_unquoted_len(f, q, i - 1); assert(txt(f)[i - 1] == f[i - 1].b); }
}
/// the first unquoted colon decides
proof fn lemma_colon_piece(i: BlockSpan, text: Seq<Cell>, r: Option<(BlockSpan, BlockSpan)>)
    requires wf_span(i), unquote_result(i, colons(), text, r),
    ensures ({
        let f = span_flat(i);
        let (t, q) = colon_cut(f);
        match r {
            Some((colon, post)) => {
                let p = i.length - post.length - 1;
                &&& 0 <= p && text.len() <= p && is_part(i, p, p + 1, colon) && is_part(i, p + 1, i.length as int, post) && span_flat(post) == tl(f, p + 1)
                &&& if is_drive(txt(text), span_txt(post)) { let z = colon_cut(tl(f, p + 1)); t == text + f.subrange(p, p + 1) + z.0 && q == if z.1 < 0 { -1 } else { p + 1 + z.1 } } else { t == text && q == p }
            },
            None => t == text && q == -1,
        }
    }),
{
    let f = span_flat(i);
    lemma_span_bnd(i, 0);
    lemma_ascii_heads();
    match r {
        Some((colon, post)) => {
            let p = i.length - post.length - colon.length;
            lemma_qfirst(f, colons(), 0, p);
            lemma_unquoted_len(f, colons(), p);
            lemma_tails(i);
            lemma_span_bnd(post, 0);
        },
        None => { lemma_qfirst(f, colons(), 0, f.len() as int); },
    }
}
//@fn parsers::targets::find_non_drivespec_colon
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires wf_span(i),
    ensures colon_found(i, r),
//@at start
    hide(unquoted); hide(slashes); hide(halve); hide(qfirst); hide(colon_cut); hide(unquote_result); hide(wf_ref); hide(ref_flat); hide(refs_flat);
    let ghost i0 = i;
    let ghost want = colon_cut(span_flat(i));
    let ghost mut at: int = 0;
    proof { lemma_span_bnd(i, 0); assert(span_flat(i).subrange(0, i.length as int) =~= span_flat(i)); lemma_ascii_heads(); }
//@loop 0
        invariant wf_span(i), wf_block(*content), is_tail(i0, at, i), 0 <= at <= i0.length, i.length + at == i0.length, wf_span(i0),
            block_flat(*content) + colon_cut(span_flat(i)).0 == want.0,
            if colon_cut(span_flat(i)).1 < 0 { want.1 < 0 } else { want.1 == at + colon_cut(span_flat(i)).1 },
            block_flat(*content).len() <= at,
        decreases i.length
//@at loopstart 0
        let ghost ii = i;
        let ghost f = span_flat(i);
        let ghost c0 = block_flat(ad(content));
        proof { lemma_span_bnd(i, 0); lemma_tail_part(i0, at, i); }
//@at before `arc_make_mut(&mut content)` 0
                let ghost p = i.length - post.length - 1;
                proof { assert(unquote_result(i, colons(), block_flat(*pre), Some((colon, post)))); lemma_colon_piece(i, block_flat(ad(pre)), Some((colon, post))); lemma_span_bnd(post, 0); }
//@at after `i = post;`
                proof { assert(c0 + (block_flat(*pre) + f.subrange(p, p + 1) + colon_cut(span_flat(i)).0) =~= (c0 + block_flat(*pre) + f.subrange(p, p + 1)) + colon_cut(span_flat(i)).0); at = at + p + 1; }
//@at before `let mut ch1`
                    let ghost t = txt(block_flat(ad(pre)));
                    let ghost mut h = 0int;
//@at before `while let Some(ch)`
                        proof { lemma_wf_si(__it1); assert(t.subrange(0, t.len() as int) =~= t); }
//@loop 1
                        invariant wf_text(t), wf_text(t.subrange(h, t.len() as int)), wf_si(__it1), 0 <= h <= t.len(), si_rem(__it1) == t.subrange(h, t.len() as int),
                            ch2 == last_char(t.subrange(0, h)), ch1 == before_last(t.subrange(0, h)),
                        ensures h == t.len(),
//@at before `ch1 = ch2;`
                            proof {
                                let q = h + w(ch);
                                let before = t.subrange(h, t.len() as int);
                                lemma_next_char(before, si_rem(__it1), Some(ch));
                                assert(before.subrange(0, w(ch))[w(ch) - 1] == cbytes(ch)[w(ch) - 1]);
                                assert(t[q - 1] == before[w(ch) - 1]);
                                assert(si_rem(__it1) =~= t.subrange(q, t.len() as int));
                                assert(t.subrange(0, q).subrange(0, h) =~= t.subrange(0, h));
                                h = q;
                            }
//@at before `if !match ch2`
                    proof { assert(t.subrange(0, h) =~= t); }
//@at before `arc_make_mut(&mut content)` 2
                proof { assert(unquote_result(i, colons(), block_flat(*pre), None)); lemma_colon_piece(i, block_flat(ad(pre)), None); }
//@end
// ---------------------------------------------------------------- words
//@type parsers::targets::MWordEnd
//@attr #[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@end
/// what is a word of its own although no blank ends it, and whether it is a colon or two
pub open spec fn op_word(s: Seq<CB>) -> Option<(int, bool)> {
    if is_prefix(lit_bytes(";"@), s) { Some((1, false)) }
    else if is_prefix(lit_bytes("="@), s) { Some((1, false)) }
    else if is_prefix(lit_bytes(":="@), s) { Some((2, false)) }
    else if is_prefix(lit_bytes("::="@), s) { Some((3, false)) }
    else if is_prefix(lit_bytes("::"@), s) { Some((2, true)) }
    else if is_prefix(lit_bytes(":"@), s) { Some((1, true)) }
    else if is_prefix(lit_bytes("+="@), s) { Some((2, false)) }
    else if is_prefix(lit_bytes("?="@), s) { Some((2, false)) }
    else if is_prefix(lit_bytes("!="@), s) { Some((2, false)) }
    else { None }
}
/// one step through a word that goes on at i, behind prev: does it end, and where does it go on?
pub open spec fn word_step(s: Seq<CB>, i: int, prev: char) -> (bool, int, char) {
    let c = s[i].c;
    let n = i + w(c);
    if c == ' ' || c == '\t' || c == '=' { (true, i, c) }
    else if c == ':' { if n < s.len() && s[n].c == '\\' && is_alpha(prev) { (false, n, prev) } else { (true, n, c) } }
    else if c == '$' { (false, past_ref(s, i), if n >= s.len() { c } else if bracket(s[n].c) { closing(s[n].c) } else { s[n].c }) }
    else if c == '\\' { if n < s.len() && (s[n].c == ':' || s[n].c == ';' || s[n].c == '=' || s[n].c == '\\') { (false, n + 1, s[n].c) } else { (false, n, c) } }
    else if (c == '?' || c == '+') && n < s.len() && s[n].c == '=' { (true, i, c) }
    else { (false, n, c) }
}
/// where the word ends that goes on at i, behind prev
pub open spec fn mword_end(s: Seq<CB>, i: int, prev: char) -> int
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { s.len() as int }
    else {
        let (done, j, p) = word_step(s, i, prev);
        if done { j } else if i < j <= s.len() { mword_end(s, j, p) } else { s.len() as int }
    }
}
/// the first word of s: where it starts, where it ends, and whether it is a colon or two
pub open spec fn mword_at(s: Seq<CB>) -> (int, int, bool) {
    let a = skip(s, 0);
    let t = s.subrange(a, s.len() as int);
    match op_word(t) { Some((n, c)) => (a, a + n, c), None => (a, a + mword_end(t, 0, '\0'), false) }
}
pub open spec fn word_found(i: BlockSpan, r: IResult<BlockSpan, (BlockSpan, MWordEnd), ParseErrorKind>) -> bool {
    let (a, e, c) = mword_at(span_txt(i));
    r.is_ok() && ({
        let (rest, (word, kind)) = r->Ok_0;
        &&& 0 <= a <= e <= i.length && is_part(i, a, e, word) && is_part(i, e, i.length as int, rest)
        &&& kind != MWordEnd::EOL && (c <==> kind == MWordEnd::Colon || kind == MWordEnd::DColon)
    })
}
/// Peekable (std): at is where the character that is looked at stands
pub struct PeekIter<'a> { pub it: SpanIndexIter<'a>, pub peeked: Option<Option<(usize, char)>>, pub at: Ghost<SpanIndexIter<'a>> }
pub open spec fn wf_peek(p: PeekIter) -> bool {
    &&& wf_xi(p.it)
    &&& match p.peeked { None => p.at@ == p.it, Some(x) => next_index(p.at@, p.it, x) }
}
impl<'a> SpanIndexIter<'a> {
    pub fn peekable(self) -> (r: PeekIter<'a>)
        requires wf_xi(self),
        ensures wf_peek(r), r.at@ == self,
    { PeekIter { it: self, peeked: None, at: Ghost(self) } }
}
impl<'a> PeekIter<'a> {
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        requires wf_peek(*old(self)),
        ensures wf_peek(*final(self)), next_index(old(self).at@, final(self).at@, r), wf_xi(final(self).at@),
    {
        let r = match self.peeked { Some(v) => v, None => self.it.next() };
        self.peeked = None;
        self.at = Ghost(self.it);
        r
    }
    pub fn peek(&mut self) -> (r: Option<&(usize, char)>)
        requires wf_peek(*old(self)),
        ensures wf_peek(*final(self)), final(self).at == old(self).at, peeks(old(self).at@, match r { Some(x) => Some(*x), None => None }),
    {
        if self.peeked.is_none() { self.peeked = Some(self.it.next()); }
        proof { assert(next_index(old(self).at@, self.it, self.peeked.unwrap())); }
        match &self.peeked { Some(Some(v)) => Some(v), _ => None }
    }
}
/// x is the character at it, with its place
pub open spec fn peeks(it: SpanIndexIter, x: Option<(usize, char)>) -> bool { exists|b: SpanIndexIter| wf_xi(b) && #[trigger] next_index(it, b, x) }
pub fn peek_is(it: &mut PeekIter, at: usize, c: char) -> (r: bool)
    requires wf_peek(*old(it)),
    ensures wf_peek(*final(it)), final(it).at == old(it).at, exists|x: Option<(usize, char)>| #[trigger] peeks(old(it).at@, x) && r == (x == Some((at, c))),
{
    match it.peek() { Some(x) => x.0 == at && x.1 == c, None => false }
}
/// what is looked at
proof fn lemma_peeks(s: Seq<CB>, a: SpanIndexIter)
    requires walk(s, a),
    ensures
        forall|x: Option<(usize, char)>| #[trigger] peeks(a, x) ==> match x {
            None => a.head == s.len(),
            Some((i, c)) => i == a.head && i < s.len() && s[i as int] == (CB { c, k: 0 }) && i + w(c) <= s.len(),
        },
{
    assert forall|x: Option<(usize, char)>| #[trigger] peeks(a, x) implies match x {
        None => a.head == s.len(),
        Some((i, c)) => i == a.head && i < s.len() && s[i as int] == (CB { c, k: 0 }) && i + w(c) <= s.len(),
    } by {
        let b = choose|b: SpanIndexIter| wf_xi(b) && #[trigger] next_index(a, b, x);
        match x { Some((i, c)) => { lemma_walk(s, a, b, i, c); }, None => {} }
    }
}
//@fn parsers::targets::next_mword
//@outline op_words `if let Ok((i, (cap, end_reason))) = {` => `op_words(i)`
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sub `char_iter.next();` => `let __x = char_iter.next();`
//@sub `char_iter.peek() == Some(&(idx + 1, '\\'))` => `peek_is(&mut char_iter, idx + 1, '\\')`
//@spec
    requires wf_span(i),
    ensures word_found(i, r),
//@at start
    hide(is_prefix); hide(past_ref); hide(mword_end); hide(skip); hide(close_at); hide(op_word); hide(wf_ref); hide(ref_flat); hide(refs_flat); hide(cbytes);
    let ghost i0 = i;
    proof { lemma_ascii_heads(); lemma_span_bnd(i, 0); lemma_tails(i); }
//@at after `let (i, _) = makefile_whitespace(i)?;`
    let ghost im = i;
    let ghost a = skip(span_txt(i0), 0);
//@at before `return Ok((i, (cap, end_reason)));`
        proof { let n = op_word(span_txt(im)).unwrap().0; lemma_part_part(i0, a, i0.length as int, im, 0, n, cap); lemma_part_part(i0, a, i0.length as int, im, n, im.length as int, i); }
//@at before `Ok((i, (cap, end_reason)))` -1
    proof { assert(stop_index == e); assert(is_part(im, 0, stop_index as int, cap)); lemma_part_part(i0, a, i0.length as int, im, 0, e, cap); lemma_part_part(i0, a, i0.length as int, im, e, im.length as int, i); }
//@at before `let mut char_iter`
    let ghost s = span_txt(i);
    let ghost e = mword_end(s, 0, '\0');
    proof { assert(forall|p: char| #[trigger] mword_end(s, s.len() as int, p) == s.len()) by { reveal(mword_end); } }
    proof { lemma_span_bnd(i, 0); assert(s.subrange(0, s.len() as int) =~= s); assume(s.len() < i32::MAX); }
//@at before `let mut stop_index`
    let ghost mut g = char_iter.at@;
//@loop 0
        invariant wf_peek(char_iter), g == char_iter.at@, walk(s, g), mword_end(s, g.head as int, prev_char) == e, g.head == s.len() ==> stop_index == s.len(), stop_index <= s.len(),
            end_reason == MWordEnd::Static || end_reason == MWordEnd::Variable, g.head <= s.len(),
        ensures stop_index == e, 0 <= e <= s.len(), bnd(s, e), end_reason == MWordEnd::Static || end_reason == MWordEnd::Variable,
//@at after `stop_index = idx + char_len(chr);` 0
        let ghost p0 = prev_char;
        let ghost h = idx as int;
        proof { lemma_walk(s, g, char_iter.at@, idx, chr); g = char_iter.at@; lemma_peeks(s, g); assert(mword_end(s, h, p0) == e); unfold_mword_end(s, h, p0); }
//@at after `stop_index = idx + char_len(chr);` 1
                proof { lemma_walk(s, g, char_iter.at@, idx, chr); g = char_iter.at@; unfold_past_ref(s, h); }
//@at before `let mut count`
                let ghost m = g.head as int;
                proof { assert(forall|n: int| #[trigger] close_at(s, s.len() as int, n, chr, brace_end) == -1) by { reveal(close_at); } }
                let ghost ec = close_at(s, m, 1, chr, brace_end);
//@loop 1
                    invariant_except_break count > 0,
                    invariant count > 0 ==> close_at(s, g.head as int, count as int, chr, brace_end) == ec, count == 0 ==> ec == g.head - 1, wf_peek(char_iter), g == char_iter.at@, walk(s, g), 0 <= count <= g.head, stop_index == g.head, m <= g.head,
                    ensures if ec < 0 { g.head == s.len() } else { g.head == ec + 1 },
//@at after `stop_index = idx + char_len(chr2);`
                    proof { lemma_walk(s, g, char_iter.at@, idx, chr2); g = char_iter.at@; lemma_close_skip2(s, idx + 1, g.head as int, chr, brace_end); lemma_close_step2(s, idx as int, chr, brace_end); }
//@at before `prev_char = brace_end;`
                proof { g = char_iter.at@; assert(walk(s, g)); assert(s[h + 1].c == chr); assert(brace_end == closing(chr)); assert(m == h + 2); assert(if ec < 0 { g.head == s.len() } else { g.head == ec + 1 });  unfold_past_ref(s, h); assert(bracket(s[h + 1].c)); assert(past_ref(s, h) == g.head); assert(word_step(s, h, p0) == (false, past_ref(s, h), brace_end)); assert(h < g.head <= s.len()); assert(mword_end(s, past_ref(s, h), brace_end) == e); }
//@at before `break;` 3
                proof { unfold_past_ref(s, h); }
//@at after `let __x = char_iter.next();`
                    proof { match __x { Some((xi, xc)) => { lemma_walk(s, g, char_iter.at@, xi, xc); g = char_iter.at@; }, None => {} } }
//@end
proof fn unfold_mword_end(s: Seq<CB>, i: int, prev: char)
    requires 0 <= i < s.len(),
    ensures ({ let (done, j, p) = word_step(s, i, prev); mword_end(s, i, prev) == if done { j } else if i < j <= s.len() { mword_end(s, j, p) } else { s.len() as int } }),
{}
proof fn unfold_past_ref(s: Seq<CB>, d: int)
    ensures ({ let m = d + 1; past_ref(s, d) == if m < 0 || m >= s.len() { s.len() as int } else if bracket(s[m].c) { let e = close_at(s, m + 1, 1, s[m].c, closing(s[m].c)); if e < 0 { s.len() as int } else { e + 1 } } else { m + w(s[m].c) } }),
{}
//@part parsers::targets::next_mword op_words
//@sig fn op_words<'a>(i: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, (BlockSpan<'a>, MWordEnd), ParseErrorKind>)
//@spec
    requires wf_span(i),
    ensures
        r.is_err() <==> op_word(span_txt(i)).is_none(),
        r.is_ok() ==> ({
            let (n, c) = op_word(span_txt(i)).unwrap();
            let (rest, (word, kind)) = r->Ok_0;
            &&& 0 <= n <= i.length && is_part(i, 0, n, word) && is_part(i, n, i.length as int, rest)
            &&& kind != MWordEnd::EOL && (c <==> kind == MWordEnd::Colon || kind == MWordEnd::DColon)
        }),
//@at start
    hide(is_prefix); hide(lit_bytes);
    proof {
        lemma_op_lits(); lemma_colon_lits();
        lemma_prefixes(lit_bytes(";"@)); lemma_prefixes(lit_bytes("::"@)); lemma_prefixes(lit_bytes(":"@));
        lemma_prefixes(lit_bytes("="@)); lemma_prefixes(lit_bytes("::="@)); lemma_prefixes(lit_bytes(":="@)); lemma_prefixes(lit_bytes("?="@)); lemma_prefixes(lit_bytes("!="@)); lemma_prefixes(lit_bytes("+="@));
    }
//@end
proof fn lemma_colon_lits()
    ensures lit_bytes(";"@).len() == 1, lit_bytes(":"@).len() == 1, lit_bytes("::"@).len() == 2, wf_text(lit_bytes(";"@)), wf_text(lit_bytes(":"@)), wf_text(lit_bytes("::"@)),
{
    reveal_strlit(";"); reveal_strlit(":"); reveal_strlit("::");
    assert(";"@ =~= seq![';']); assert(":"@ =~= seq![':']); assert("::"@ =~= seq![':', ':']);
    lemma_ascii_lit(";"@); lemma_ascii_lit(":"@); lemma_ascii_lit("::"@);
}
/// parts of parts
proof fn lemma_part_any(s: BlockSpan)
    requires wf_span(s),
    ensures forall|t: BlockSpan, a: int, b: int, c: int, d: int, u: BlockSpan| #![trigger is_part(s, a, b, t), is_part(t, c, d, u)] is_part(s, a, b, t) && is_part(t, c, d, u) && 0 <= a <= b <= s.length && 0 <= c <= d <= t.length ==> is_part(s, a + c, a + d, u),
{
    assert forall|t: BlockSpan, a: int, b: int, c: int, d: int, u: BlockSpan| #![trigger is_part(s, a, b, t), is_part(t, c, d, u)] is_part(s, a, b, t) && is_part(t, c, d, u) && 0 <= a <= b <= s.length && 0 <= c <= d <= t.length implies is_part(s, a + c, a + d, u) by { lemma_part_part(s, a, b, t, c, d, u); }
}
