//@props C10
// ---------------------------------------------------------------- conditional lines
//@type parsers::conditional::parse_line_internal/ConditionalType
//@attr #[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@end
/// where the argument of a conditional ends that is closed by term, outside of parentheses that are opened in it; -1 if nowhere
pub open spec fn paren_end(s: Seq<CB>, i: int, open: int, term: char) -> int
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { -1 }
    else if s[i].k != 0 { paren_end(s, i + 1, open, term) }
    else if s[i].c == '(' { paren_end(s, i + 1, open + 1, term) }
    else if s[i].c == ')' { if term == ')' && open - 1 < 0 { i } else { paren_end(s, i + 1, open - 1, term) } }
    else if s[i].c == term && open <= 0 { i }
    else { paren_end(s, i + 1, open, term) }
}
pub open spec fn find_char(s: Seq<CB>, i: int, c: char) -> int
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { -1 } else if s[i].k == 0 && s[i].c == c { i } else { find_char(s, i + 1, c) }
}
pub open spec fn arg_end(s: Seq<CB>, term: char) -> int { if term == ',' || term == ')' { paren_end(s, 0, 0, term) } else { find_char(s, 0, term) } }
/// f without its first argument, which term closes
pub open spec fn behind(f: Seq<Cell>, term: char) -> Seq<Cell> { tl(f, arg_end(txt(f), term) + 1) }
/// f starts with an argument closed by term, which reads as x
pub open spec fn arg_reads(f: Seq<Cell>, term: char, x: AstNode) -> bool { arg_end(txt(f), term) >= 0 && parses_to(f.subrange(0, arg_end(txt(f), term)), x) }
pub open spec fn quote_at(f: Seq<Cell>) -> bool { starts_with(f, '"') || starts_with(f, '\'') }
/// the arguments of ifeq and ifneq: (x,y), or both in quotes of either kind
pub open spec fn ifeq_reads(f: Seq<Cell>, x: AstNode, y: AstNode) -> bool {
    if starts_with(f, '(') {
        arg_reads(tl(f, 1), ',', x) && arg_reads(unspaced(behind(tl(f, 1), ',')), ')', y)
    } else {
        let g = unspaced(behind(tl(f, 1), txt(f)[0].c));
        quote_at(f) && arg_reads(tl(f, 1), txt(f)[0].c, x) && quote_at(g) && arg_reads(tl(g, 1), txt(g)[0].c, y)
    }
}
//@fn parsers::conditional::parse_ifeq/take_till_terminator
//@sub `terminator.len()` => `char_len(terminator)`
//@spec
    requires wf_span(line), w(terminator) == 1,
    ensures ({
        let e = arg_end(span_txt(line), terminator);
        &&& r.is_ok() <==> e >= 0
        &&& r.is_ok() ==> splits(line, r, 0, e, e + 1)
    }),
//@at start
    let ghost line0 = line;
    let ghost s = span_txt(line);
    let ghost term = terminator;
    proof { lemma_ascii_heads(); lemma_span_bnd(line, 0); assert(s.subrange(0, s.len() as int) =~= s); assume(s.len() < i32::MAX); }
//@sub `let mut __res2 = None` => `let mut __res2: Option<(usize, char)> = None`
//@at before `while let`
        let ghost mut g = iter;
//@loop 0
                invariant_except_break walk(s, iter), g == iter, arg_end(s, term) == paren_end(s, iter.head as int, count as int, term), -iter.head <= count <= iter.head, __res2.is_none(),
                invariant term == terminator, s.len() < i32::MAX, term == ',' || term == ')',
                ensures match __res2 { Some(x) => arg_end(s, term) == x.0 && x.0 < s.len() && s[x.0 as int] == (CB { c: term, k: 0 }), None => arg_end(s, term) == -1 },
//@at after `let line = line.slice_from(i);`
        let ghost line1 = line;
//@at before `Ok((line, res))`
        proof { lemma_part_part(line0, i as int, line0.length as int, line1, 1, line1.length as int, line); }
//@at after `let i_k2 = i_h2.clone();`
                                    proof { lemma_find_char(s, 0, term, o_h2.length as int); assert forall|t: BlockSpan| #[trigger] is_part(i_h2, 1, i_h2.length as int, t) && i_h2.length > 0 implies is_tail(line0, o_h2.length + 1, t) by { lemma_part_part(line0, o_h2.length as int, line0.length as int, i_h2, 1, i_h2.length as int, t); } }
//@at loopstart 0
                proof { lemma_walk(s, g, iter, __x3.0, __x3.1); let (i, h, o) = (__x3.0 as int, iter.head as int, count as int); lemma_paren_skip(s, i + 1, h, o, term); lemma_paren_skip(s, i + 1, h, o - 1, term); lemma_paren_skip(s, i + 1, h, o + 1, term); g = iter; }
//@end
/// bytes that begin no character do not matter
pub proof fn lemma_paren_skip(s: Seq<CB>, a: int, b: int, open: int, term: char)
    requires 0 <= a <= b <= s.len(), forall|x: int| a <= x < b ==> (#[trigger] s[x]).k != 0,
    ensures paren_end(s, a, open, term) == paren_end(s, b, open, term),
    decreases b - a
{
    if a < b { assert(s[a].k != 0); lemma_paren_skip(s, a + 1, b, open, term); }
}
pub proof fn lemma_find_char(s: Seq<CB>, i: int, c: char, n: int)
    requires 0 <= i <= n <= s.len(), forall|j: int| i <= j < n && (#[trigger] s[j]).k == 0 ==> s[j].c != c, n < s.len() ==> s[n].k == 0 && s[n].c == c,
    ensures find_char(s, i, c) == if n < s.len() { n } else { -1 },
    decreases n - i
{
    if i < n { lemma_find_char(s, i + 1, c, n); }
}
/// (line, c): line begins with the character c, and the tail t follows
pub open spec fn char_cut(i: BlockSpan, t: BlockSpan, c: char) -> bool { starts_with(span_flat(i), c) && w(c) == 1 && is_tail(i, 1, t) }
//@fn parsers::conditional::parse_ifeq
//@outline open_quote `let (line, terminator) =` => `open_quote(line)`
//@outline next_quote `if terminator == ',' { (line, ')') } else {` => `next_quote(line)`
//@spec
    requires wf_span(line),
    ensures
        r.is_ok() ==> ifeq_reads(span_flat(line), r->Ok_0.1.0, r->Ok_0.1.1) && wf_ast(r->Ok_0.1.0) && wf_ast(r->Ok_0.1.1),
        r.is_err() ==> forall|x: AstNode, y: AstNode| !#[trigger] ifeq_reads(span_flat(line), x, y),
//@end
//@part parsers::conditional::parse_ifeq open_quote
//@sig fn open_quote<'a>(line: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, char, ParseErrorKind>)
//@spec
    requires wf_span(line),
    ensures
        r.is_ok() <==> starts_with(span_flat(line), '(') || quote_at(span_flat(line)),
        r.is_ok() ==> is_tail(line, 1, r->Ok_0.0) && r->Ok_0.1 == (if starts_with(span_flat(line), '(') { ',' } else { span_txt(line)[0].c }),
//@at start
    proof { lemma_ascii_heads(); }
//@end
//@part parsers::conditional::parse_ifeq next_quote
//@sig fn next_quote<'a>(line: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, char, ParseErrorKind>)
//@spec
    requires wf_span(line),
    ensures
        r.is_ok() <==> quote_at(span_flat(line)),
        r.is_ok() ==> is_tail(line, 1, r->Ok_0.0) && r->Ok_0.1 == span_txt(line)[0].c,
//@at start
    proof { lemma_ascii_heads(); }
//@end
/// f starts with the word k, which whitespace, a parenthesis or a quote may follow
pub open spec fn word_at(f: Seq<Cell>, k: Seq<char>) -> bool {
    kw_at(txt(f), k) && (f.len() == k.len() || is_ws(txt(f)[k.len() as int].c) || txt(f)[k.len() as int].c == '(' || txt(f)[k.len() as int].c == '"' || txt(f)[k.len() as int].c == '\'')
}
/// what follows the word k
pub open spec fn args_of(f: Seq<Cell>, k: Seq<char>) -> Seq<Cell> { unspaced(tl(f, k.len() as int)) }
/// the line f is the conditional directive c
pub open spec fn cond_line(f: Seq<Cell>, c: Conditional) -> bool
    decreases c
{
    let g = unspaced(f);
    match c {
        Conditional::IfDef(x) => word_at(g, "ifdef"@) && parses_to(args_of(g, "ifdef"@), x),
        Conditional::IfNDef(x) => word_at(g, "ifndef"@) && parses_to(args_of(g, "ifndef"@), x),
        Conditional::IfEq(x, y) => word_at(g, "ifeq"@) && ifeq_reads(args_of(g, "ifeq"@), x, y),
        Conditional::IfNEq(x, y) => word_at(g, "ifneq"@) && ifeq_reads(args_of(g, "ifneq"@), x, y),
        Conditional::Else(None) => word_at(g, "else"@) && unspaced(args_of(g, "else"@)).len() == 0,
        Conditional::Else(Some(b)) => word_at(g, "else"@) && (*b is IfDef || *b is IfNDef || *b is IfEq || *b is IfNEq) && cond_line(unspaced(args_of(g, "else"@)), *b),
        Conditional::EndIf => word_at(g, "endif"@) && args_of(g, "endif"@).len() == 0,
    }
}
//@fn parsers::conditional::parse_else
//@spec
    requires wf_span(input),
    ensures
        r.is_ok() ==> match r->Ok_0.1 {
            None => unspaced(span_flat(input)).len() == 0,
            Some(b) => (*b is IfDef || *b is IfNDef || *b is IfEq || *b is IfNEq) && cond_line(unspaced(span_flat(input)), *b) && wf_cond(*b),
        },
        r.is_err() ==> !(r->Err_0 is Error),
//@end
pub open spec fn cond_words() -> bool { keyword("ifdef"@) && keyword("ifndef"@) && keyword("ifeq"@) && keyword("ifneq"@) && keyword("else"@) && keyword("endif"@) }
proof fn lemma_cond_words()
    ensures cond_words(), "ifdef"@.len() == 5, "ifndef"@.len() == 6, "ifeq"@.len() == 4, "ifneq"@.len() == 5, "else"@.len() == 4, "endif"@.len() == 5,
        forall|s: Seq<CB>| #![trigger kw_at(s, "ifdef"@)] kw_at(s, "ifdef"@) ==> !kw_at(s, "ifndef"@) && !kw_at(s, "ifeq"@) && !kw_at(s, "ifneq"@) && !kw_at(s, "else"@) && !kw_at(s, "endif"@),
        forall|s: Seq<CB>| #![trigger kw_at(s, "ifndef"@)] kw_at(s, "ifndef"@) ==> !kw_at(s, "ifdef"@) && !kw_at(s, "ifeq"@) && !kw_at(s, "ifneq"@) && !kw_at(s, "else"@) && !kw_at(s, "endif"@),
        forall|s: Seq<CB>| #![trigger kw_at(s, "ifeq"@)] kw_at(s, "ifeq"@) ==> !kw_at(s, "ifdef"@) && !kw_at(s, "ifndef"@) && !kw_at(s, "ifneq"@) && !kw_at(s, "else"@) && !kw_at(s, "endif"@),
        forall|s: Seq<CB>| #![trigger kw_at(s, "ifneq"@)] kw_at(s, "ifneq"@) ==> !kw_at(s, "ifdef"@) && !kw_at(s, "ifndef"@) && !kw_at(s, "ifeq"@) && !kw_at(s, "else"@) && !kw_at(s, "endif"@),
        forall|s: Seq<CB>| #![trigger kw_at(s, "else"@)] kw_at(s, "else"@) ==> !kw_at(s, "ifdef"@) && !kw_at(s, "ifndef"@) && !kw_at(s, "ifeq"@) && !kw_at(s, "ifneq"@) && !kw_at(s, "endif"@),
        forall|s: Seq<CB>| #![trigger kw_at(s, "endif"@)] kw_at(s, "endif"@) ==> !kw_at(s, "ifdef"@) && !kw_at(s, "ifndef"@) && !kw_at(s, "ifeq"@) && !kw_at(s, "ifneq"@) && !kw_at(s, "else"@),
{
    reveal_strlit("ifdef"); assert("ifdef"@ =~= seq!['i','f','d','e','f']);
    reveal_strlit("ifndef"); assert("ifndef"@ =~= seq!['i','f','n','d','e','f']);
    reveal_strlit("ifeq"); assert("ifeq"@ =~= seq!['i','f','e','q']);
    reveal_strlit("ifneq"); assert("ifneq"@ =~= seq!['i','f','n','e','q']);
    reveal_strlit("else"); assert("else"@ =~= seq!['e','l','s','e']);
    reveal_strlit("endif"); assert("endif"@ =~= seq!['e','n','d','i','f']);
    assert forall|s: Seq<CB>, k: Seq<char>| #[trigger] kw_at(s, k) implies (k.len() > 0 ==> same_letter(s[0].c, k[0])) && (k.len() > 1 ==> same_letter(s[1].c, k[1])) && (k.len() > 2 ==> same_letter(s[2].c, k[2])) by {}
    assert forall|s: Seq<CB>, k: Seq<char>| #[trigger] kw_at(s, k) implies (k.len() > 3 ==> same_letter(s[3].c, k[3])) by {}
}
//@fn parsers::conditional::parse_line_internal
//@outline cond_word `let (input, tag) =` => `cond_word(input)`
//@spec
    requires wf_span(input),
    ensures
        r.is_ok() ==> cond_line(span_flat(input), r->Ok_0.1) && wf_cond(r->Ok_0.1),
        r.is_err() && r->Err_0 is Error ==> forall|c: Conditional| !#[trigger] cond_line(span_flat(input), c),
//@at start
    hide(kw_at); hide(ifeq_reads); hide(skip);
    let ghost i0 = input;
    proof { lemma_cond_words(); lemma_ascii_heads(); }
//@at after `let (input, tag) = cond_word(input)?;`
    proof {
        let g = unspaced(span_flat(i0));
        lemma_kw_len(txt(g), word_of(tag));
        lemma_txt_sub(g, word_of(tag).len() as int, g.len() as int);
        assert(word_at(g, word_of(tag)) == (input.length == 0 || is_ws(span_txt(input)[0].c) || span_txt(input)[0].c == '(' || span_txt(input)[0].c == '"' || span_txt(input)[0].c == '\''));
    }
//@end
proof fn lemma_kw_len(s: Seq<CB>, k: Seq<char>)
    ensures kw_at(s, k) ==> k.len() <= s.len(),
{}
pub open spec fn word_of(t: ConditionalType) -> Seq<char> {
    match t { ConditionalType::IfDef => "ifdef"@, ConditionalType::IfNDef => "ifndef"@, ConditionalType::IfEq => "ifeq"@, ConditionalType::IfNEq => "ifneq"@, ConditionalType::Else => "else"@, ConditionalType::EndIf => "endif"@ }
}
//@part parsers::conditional::parse_line_internal cond_word
//@sig fn cond_word<'a>(input: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, ConditionalType, ParseErrorKind>)
//@spec
    requires wf_span(input),
    ensures ({
        let g = unspaced(span_flat(input));
        match r {
            Ok((t, tag)) => kw_at(txt(g), word_of(tag)) && wf_span(t) && span_flat(t) == tl(g, word_of(tag).len() as int),
            Err(_) => !kw_at(txt(g), "ifdef"@) && !kw_at(txt(g), "ifndef"@) && !kw_at(txt(g), "ifeq"@) && !kw_at(txt(g), "ifneq"@) && !kw_at(txt(g), "else"@) && !kw_at(txt(g), "endif"@),
        }
    }),
//@at start
    hide(kw_at); hide(skip);
    proof { lemma_cond_words(); lemma_ascii_heads(); }
//@end
/// C10: how conditional lines read
pub open spec fn cond_reads(f: Seq<Cell>, c: Conditional) -> bool { cond_line(f, c) }
//@fn parsers::conditional::parse_line
//@sig fn conditional_parse_line<'a>(i: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, Conditional, ParseErrorKind>)
//@spec
    requires wf_span(i),
    ensures
        r.is_ok() ==> is_cond(span_flat(i)) && cond_reads(span_flat(i), r->Ok_0.1) && wf_cond(r->Ok_0.1),
        r.is_err() && !(r->Err_0 is Failure) ==> !is_cond(span_flat(i)),
//@sub `Ok((i, c)) => Ok((i, c)),` => `Ok((rest, c)) => { proof { lemma_cond_reads(span_flat(i), c); } Ok((rest, c)) },`
//@at start
    hide(cond_line);
    proof { assert forall|c: Conditional| cond_reads(span_flat(i), c) == #[trigger] cond_line(span_flat(i), c) by { } }
//@end
proof fn lemma_cond_reads(f: Seq<Cell>, c: Conditional)
    requires cond_line(f, c),
    ensures cond_reads(f, c), is_cond(f),
{ assert(cond_reads(f, c)); }
