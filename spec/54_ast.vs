//@props C14
// ---------------------------------------------------------------- expressions
//@fn ast::variable_reference
//@sub `source_location.into()` => `Marker::marker_from(source_location)`
//@spec
    ensures *r.children == AstChildren::VariableReference(name), r.source_location.inner == source_location,
//@end
//@fn ast::eval
//@sub `source_location.into()` => `Marker::marker_from(source_location)`
//@spec
    ensures *r.children == AstChildren::Eval(args), r.source_location.inner == source_location,
//@end
//@fn ast::strip
//@sub `source_location.into()` => `Marker::marker_from(source_location)`
//@spec
    ensures *r.children == AstChildren::Strip(value), r.source_location.inner == source_location,
//@end
//@fn ast::words
//@sub `source_location.into()` => `Marker::marker_from(source_location)`
//@spec
    ensures *r.children == AstChildren::Words(arg), r.source_location.inner == source_location,
//@end
//@fn ast::word
//@sub `source_location.into()` => `Marker::marker_from(source_location)`
//@spec
    ensures *r.children == (AstChildren::Word { index, words }), r.source_location.inner == source_location,
//@end
/// derived equality of spans (parent, contents, offset and length are compared)
#[verifier::external_body]
pub fn same_span(a: &BlockSpan, b: &BlockSpan) -> (r: bool)
    ensures r ==> a.length == b.length, *a == *b ==> r,
{ unimplemented!() }
//@fn parsers::ast::function_argument
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sub `i_h1 == input_h1` => `same_span(&i_h1, &input_h1)`
//@sub `let ret_h1;` => `let ret_h1: IResult<BlockSpan<'a>, Vec<BlockSpan<'a>>, ParseErrorKind>;`
//@sub `let mut input_h1 = i.clone();` => `let mut input_h1 = i.clone(); let ghost f0 = span_flat(i);`
//@spec
    requires wf_span(i),
    ensures
        r.is_ok() <==> arg1(span_flat(i)).is_some(),
        r.is_ok() ==> wf_span(r->Ok_0.0) && wf_span(r->Ok_0.1) && arg1(span_flat(i)) == Some((span_flat(r->Ok_0.1), span_flat(r->Ok_0.0))),
        r.is_err() ==> err_kind(r->Err_0) == 2 && err_code(r->Err_0) == ErrorKind::Custom(ParseErrorKind::UnternimatedVariable),
//@at start
    hide(skip); hide(comma_at);
    let ghost f00 = span_flat(i);
    proof { lemma_unspaced_twice(span_flat(i)); }
//@loop 0
                invariant wf_span(input_h1), unspaced(span_flat(input_h1)) == unspaced(f0), wf_span(i), f0 == span_flat(i),
                ensures ret_h1.is_ok() && wf_span(ret_h1->Ok_0.0) && span_flat(ret_h1->Ok_0.0) == unspaced(f0),
//@at loopstart 0
                proof { lemma_tails(input_h1); lemma_unspaced_twice(span_flat(input_h1)); lemma_span_bnd(input_h1, 0); }
//@at before `let mut it = i.iter_indices();`
    let ghost s = span_txt(i);
    proof { lemma_ascii_heads(); lemma_span_bnd(i, 0); assert(s.subrange(0, s.len() as int) =~= s); lemma_comma_end(s); assume(s.len() < i32::MAX); }
//@at before `while let`
    let ghost mut g = it;
//@loop 1
        invariant_except_break g == it, walk(s, it), comma_at(s, 0, 0, 0) == comma_at(s, it.head as int, paren_count as int, curly_count as int), 0 <= paren_count <= it.head, 0 <= curly_count <= it.head,
        invariant s == span_txt(i), s.len() < i32::MAX, wf_span(i), span_flat(i) == unspaced(f00),
        ensures comma_at(s, 0, 0, 0) == Some(s.len() as int),
//@at loopstart 1
        proof { lemma_walk(s, g, it, j, c); lemma_comma_skip(s, j + 1, it.head as int); lemma_comma_step(s, j as int); g = it; }
//@end
/// bytes that begin no character do not matter
proof fn lemma_comma_skip(s: Seq<CB>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|x: int| a <= x < b ==> (#[trigger] s[x]).k != 0,
    ensures forall|p: int, q: int| #[trigger] comma_at(s, a, p, q) == comma_at(s, b, p, q),
    decreases b - a
{
    if a < b {
        assert(s[a].k != 0);
        lemma_comma_skip(s, a + 1, b);
        assert forall|p: int, q: int| #[trigger] comma_at(s, a, p, q) == comma_at(s, b, p, q) by { assert(comma_at(s, a + 1, p, q) == comma_at(s, b, p, q)); }
    }
}
proof fn lemma_comma_step(s: Seq<CB>, i: int)
    requires 0 <= i < s.len(), s[i].k == 0,
    ensures forall|p: int, q: int| #[trigger] comma_at(s, i, p, q) == (
        if s[i].c == '(' { comma_at(s, i + 1, p + 1, q) }
        else if s[i].c == ')' { if p > 0 { comma_at(s, i + 1, p - 1, q) } else { None } }
        else if s[i].c == '{' { comma_at(s, i + 1, p, q + 1) }
        else if s[i].c == '}' { if q > 0 { comma_at(s, i + 1, p, q - 1) } else { None } }
        else if s[i].c == ',' && p == 0 && q == 0 { Some(i) }
        else { comma_at(s, i + 1, p, q) }),
{}
proof fn lemma_comma_end(s: Seq<CB>)
    ensures forall|p: int, q: int| #[trigger] comma_at(s, s.len() as int, p, q) == Some(s.len() as int),
{}
proof fn lemma_comma_range(s: Seq<CB>, i: int, p: int, q: int)
    requires 0 <= i <= s.len(),
    ensures comma_at(s, i, p, q) matches Some(c) ==> i <= c <= s.len() && (c < s.len() ==> s[c] == (CB { c: ',', k: 0 })),
    decreases s.len() - i
{
    if i < s.len() { lemma_comma_range(s, i + 1, p, q); lemma_comma_range(s, i + 1, p + 1, q); lemma_comma_range(s, i + 1, p - 1, q); lemma_comma_range(s, i + 1, p, q + 1); lemma_comma_range(s, i + 1, p, q - 1); }
}
/// an argument is part of its text, and a comma follows it if anything does
proof fn lemma_arg1(f: Seq<Cell>)
    ensures arg1(f) matches Some((a, b)) ==> a.len() + b.len() <= f.len() && (b.len() > 0 ==> starts_with(b, ',')),
{
    lemma_skip_range(txt(f), 0);
    lemma_comma_range(txt(unspaced(f)), 0, 0, 0);
}
pub open spec fn arg_fault(f: Seq<Cell>) -> Option<Fault> { if arg1(f).is_none() { Some(Fault::Unclosed) } else if one_arg(f) { fault(arg1(f).unwrap().0) } else { Some(Fault::Arguments) } }
//@fn parsers::ast::eval
//@spec
    requires wf_span(i),
    ensures
        r.is_ok() ==> r->Ok_0.1.source_location.inner == start_location && wf_ast(r->Ok_0.1) && (*r->Ok_0.1.children matches AstChildren::Eval(y) && parses_to(span_flat(i), y)),
        r.is_err() ==> reports(r->Err_0, fault(span_flat(i))),
//@end
//@fn parsers::ast::strip
//@spec
    requires wf_span(i),
    ensures
        r.is_ok() ==> r->Ok_0.1.source_location.inner == start_location && wf_ast(r->Ok_0.1) && one_arg(span_flat(i)) && (*r->Ok_0.1.children matches AstChildren::Strip(y) && parses_to(arg1(span_flat(i)).unwrap().0, y)),
        r.is_err() ==> reports(r->Err_0, arg_fault(span_flat(i))),
//@end
//@fn parsers::ast::words
//@spec
    requires wf_span(i),
    ensures
        r.is_ok() ==> r->Ok_0.1.source_location.inner == start_location && wf_ast(r->Ok_0.1) && one_arg(span_flat(i)) && (*r->Ok_0.1.children matches AstChildren::Words(y) && parses_to(arg1(span_flat(i)).unwrap().0, y)),
        r.is_err() ==> reports(r->Err_0, arg_fault(span_flat(i))),
//@end
pub open spec fn word_fault(f: Seq<Cell>) -> Option<Fault> {
    if arg1(f).is_none() { Some(Fault::Unclosed) } else if arg1(f).unwrap().1.len() == 0 { Some(Fault::Arguments) }
    else if fault(arg1(f).unwrap().0).is_some() { fault(arg1(f).unwrap().0) } else { arg_fault(second(f)) }
}
//@fn parsers::ast::word
//@spec
    requires wf_span(i),
    ensures
        r.is_ok() ==> r->Ok_0.1.source_location.inner == start_location && wf_ast(r->Ok_0.1) && two_args(span_flat(i))
            && (*r->Ok_0.1.children matches AstChildren::Word { index, words } && parses_to(arg1(span_flat(i)).unwrap().0, index) && parses_to(arg1(second(span_flat(i))).unwrap().0, words)),
        r.is_err() ==> reports(r->Err_0, word_fault(span_flat(i))),
//@at start
    hide(arg1);
    let ghost f = span_flat(i);
    proof { lemma_ascii_heads(); lemma_arg1(span_flat(i)); }
//@at after `let (_, index) = parse_ast(index)?;`
    proof { lemma_sound(arg1(f).unwrap().0, index); assert(span_flat(i) == second(f)); }
//@end
impl<'a> BlockSpan<'a> {
    /// `split_at_position1` at the first character that is no blank
    pub fn split_blanks<P: Fn(char) -> bool>(&self, predicate: P, e: ErrorKind<u32>) -> (r: IResult<BlockSpan<'a>, BlockSpan<'a>, u32>)
        requires wf_span(*self), forall|c: char| #[trigger] predicate.requires((c,)), forall|c: char, b: bool| #[trigger] predicate.ensures((c,), b) ==> b == !is_blank(c),
        ensures
            r.is_ok() <==> skip(span_txt(*self), 0) > 0,
            r.is_ok() ==> is_tail(*self, skip(span_txt(*self), 0), r->Ok_0.0),
            r.is_err() ==> err_kind(r->Err_0) == 1,
    {
        let r = self.split_at_position1(predicate, e);
        proof {
            lemma_span_bnd(*self, 0);
            lemma_ascii_heads();
            if r.is_ok() { lemma_blank_split(span_txt(*self), predicate, 0, r->Ok_0.1.length as int); }
        }
        r
    }
}
proof fn lemma_blank_split<P: Fn(char) -> bool>(s: Seq<CB>, p: P, a: int, n: int)
    requires 0 <= a <= n <= s.len(), forall|c: char, b: bool| #[trigger] p.ensures((c,), b) ==> b == !is_blank(c), none_before(s, p, n), n < s.len() ==> first_at(s, p, n), wf_text(s),
        a == 0 || (s[a - 1].k == 0 && is_blank(s[a - 1].c)),
    ensures skip(s, a) == n,
    decreases n - a
{
    if a < n {
        assert(wf_at(s, a));
        if a > 0 { assert(wf_at(s, a - 1)); }
        assert(s[a].k == 0);
        assert(p.ensures((s[a].c,), false));
        lemma_blank_split(s, p, a + 1, n);
    }
}
/// what may follow the name of the function k
pub open spec fn args_fault(k: Func, g: Seq<Cell>) -> Option<Fault> { match k { Func::Eval => fault(g), Func::Word => word_fault(g), _ => arg_fault(g) } }
pub open spec fn args_read(k: Func, g: Seq<Cell>, x: AstNode) -> bool {
    match k {
        Func::Eval => *x.children matches AstChildren::Eval(y) && parses_to(g, y),
        Func::Strip => one_arg(g) && (*x.children matches AstChildren::Strip(y) && parses_to(arg1(g).unwrap().0, y)),
        Func::Words => one_arg(g) && (*x.children matches AstChildren::Words(y) && parses_to(arg1(g).unwrap().0, y)),
        Func::Word => two_args(g) && (*x.children matches AstChildren::Word { index, words } && parses_to(arg1(g).unwrap().0, index) && parses_to(arg1(second(g)).unwrap().0, words)),
    }
}
/// r: how a call of k, whose name is t, reads
pub open spec fn call_result(i: BlockSpan, loc: Location, k: Func, t: Seq<char>, r: IResult<BlockSpan, AstNode, ParseErrorKind>) -> bool {
    let g = tl(span_flat(i), skip(span_txt(i), lit_bytes(t).len() as int));
    match r {
        Ok(o) => call_word(span_txt(i), t) && o.1.source_location.inner == loc && wf_ast(o.1) && args_read(k, g, o.1),
        Err(e) => if call_word(span_txt(i), t) { reports(e, args_fault(k, g)) } else { err_kind(e) == 1 },
    }
}
//@fn parsers::ast::function_call/no_such_function
//@spec
    ensures r.is_err() && err_kind(r->Err_0) == 2, err_code(r->Err_0) matches ErrorKind::Custom(ParseErrorKind::InternalFailure(m)) && m@ == lit_bytes("not a function call"@),
//@end
//@fn parsers::ast::function_call
//@sub `.split_at_position1(` => `.split_blanks(`
//@outline eval_entry `let res_h1 =` => `eval_entry(i_k1, dollar_location.clone())`
//@outline strip_entry `let res_h3 =` => `strip_entry(i_k6, dollar_location.clone())`
//@outline words_entry `let res_h5 =` => `words_entry(i_k11, dollar_location.clone())`
//@outline word_entry `let res_h7 =` => `word_entry(i_k16, dollar_location.clone())`
//@spec
    requires wf_span(i),
    ensures
        r.is_ok() ==> func_at(span_txt(i)).is_some() && call_reads(span_flat(i), dollar_location, r->Ok_0.1) && wf_ast(r->Ok_0.1),
        r.is_err() && func_at(span_txt(i)).is_some() ==> reports(r->Err_0, call_fault(span_flat(i))),
        r.is_err() && func_at(span_txt(i)).is_none() ==> err_kind(r->Err_0) == 2 && (err_code(r->Err_0) matches ErrorKind::Custom(ParseErrorKind::InternalFailure(m)) && m@ == lit_bytes("not a function call"@)),
//@at start
    proof { lemma_call_result(span_flat(i), dollar_location); }
//@end
//@part parsers::ast::function_call eval_entry
//@sig fn eval_entry<'a>(i_k1: BlockSpan<'a>, dollar_location: Location) -> (r: IResult<BlockSpan<'a>, AstNode, ParseErrorKind>)
//@spec
    requires wf_span(i_k1),
    ensures call_result(i_k1, dollar_location, Func::Eval, "eval"@, r),
//@at start
    proof { reveal_strlit("eval"); assert("eval"@ =~= seq!['e', 'v', 'a', 'l']); lemma_entry(i_k1, "eval"@); }
//@end
//@part parsers::ast::function_call strip_entry
//@sig fn strip_entry<'a>(i_k6: BlockSpan<'a>, dollar_location: Location) -> (r: IResult<BlockSpan<'a>, AstNode, ParseErrorKind>)
//@spec
    requires wf_span(i_k6),
    ensures call_result(i_k6, dollar_location, Func::Strip, "strip"@, r),
//@at start
    proof { reveal_strlit("strip"); assert("strip"@ =~= seq!['s', 't', 'r', 'i', 'p']); lemma_entry(i_k6, "strip"@); }
//@end
//@part parsers::ast::function_call words_entry
//@sig fn words_entry<'a>(i_k11: BlockSpan<'a>, dollar_location: Location) -> (r: IResult<BlockSpan<'a>, AstNode, ParseErrorKind>)
//@spec
    requires wf_span(i_k11),
    ensures call_result(i_k11, dollar_location, Func::Words, "words"@, r),
//@at start
    proof { reveal_strlit("words"); assert("words"@ =~= seq!['w', 'o', 'r', 'd', 's']); lemma_entry(i_k11, "words"@); }
//@end
//@part parsers::ast::function_call word_entry
//@sig fn word_entry<'a>(i_k16: BlockSpan<'a>, dollar_location: Location) -> (r: IResult<BlockSpan<'a>, AstNode, ParseErrorKind>)
//@spec
    requires wf_span(i_k16),
    ensures call_result(i_k16, dollar_location, Func::Word, "word"@, r),
//@at start
    proof { reveal_strlit("word"); assert("word"@ =~= seq!['w', 'o', 'r', 'd']); lemma_entry(i_k16, "word"@); }
//@end
/// how a call of a function reads, for the functions in order
proof fn lemma_call_result(f: Seq<Cell>, loc: Location)
    ensures
        forall|k: Func, n: int, x: AstNode| func_at(txt(f)) == Some((k, n)) && #[trigger] args_read(k, tl(f, n), x) && x.source_location.inner == loc ==> call_reads(f, loc, x),
        forall|k: Func, n: int| func_at(txt(f)) == Some((k, n)) ==> #[trigger] args_fault(k, tl(f, n)) == call_fault(f),
{
    lemma_func_len(txt(f));
    assert forall|k: Func, n: int, x: AstNode| func_at(txt(f)) == Some((k, n)) && #[trigger] args_read(k, tl(f, n), x) && x.source_location.inner == loc implies call_reads(f, loc, x) by {
        unfold_call_reads(f, loc, x); lemma_arg1(tl(f, n)); if k is Word { lemma_arg1(second(tl(f, n))); }
    }
    assert forall|k: Func, n: int| func_at(txt(f)) == Some((k, n)) implies #[trigger] args_fault(k, tl(f, n)) == call_fault(f) by {
        unfold_call_fault(f); lemma_arg1(tl(f, n)); if k is Word { if arg1(tl(f, n)).is_some() && arg1(tl(f, n)).unwrap().1.len() > 0 { lemma_arg1(second(tl(f, n))); } }
    }
}
/// what follows a word at the start of i, and the whitespace after it
proof fn lemma_entry(i: BlockSpan, t: Seq<char>)
    requires wf_span(i), forall|x: int| 0 <= x < t.len() ==> w(#[trigger] t[x]) == 1,
    ensures
        lit_bytes(t).len() == t.len(),
        lit_at(span_txt(i), t) ==> t.len() <= i.length && bnd(span_txt(i), t.len() as int),
        forall|j: BlockSpan| #[trigger] is_part(i, t.len() as int, i.length as int, j) && lit_at(span_txt(i), t) ==> wf_span(j)
            && (skip(span_txt(j), 0) > 0 <==> call_word(span_txt(i), t))
            && (forall|u: BlockSpan| #[trigger] is_tail(j, skip(span_txt(j), 0), u) ==> wf_span(u) && span_flat(u) == tl(span_flat(i), skip(span_txt(i), t.len() as int))),
{
    lemma_lit_ascii(t);
    lemma_span_bnd(i, 0);
    lemma_tails(i);
    let s = span_txt(i);
    let n = t.len() as int;
    if lit_at(s, t) {
        assert(wf_text(lit_bytes(t))) by { assert forall|x: int| 0 <= x < t.len() implies #[trigger] wf_at(lit_bytes(t), x) by { assert(lit_bytes(t)[x].k == 0); assert(w(t[x]) == 1); } }
        lemma_prefix_bnd(s, lit_bytes(t));
        lemma_skip_sub(s, n, 0);
        assert forall|j: BlockSpan| #[trigger] is_part(i, n, i.length as int, j) implies wf_span(j) && (skip(span_txt(j), 0) > 0 <==> call_word(s, t))
            && (forall|u: BlockSpan| #[trigger] is_tail(j, skip(span_txt(j), 0), u) ==> wf_span(u) && span_flat(u) == tl(span_flat(i), skip(s, n))) by {
            lemma_tails(j);
            lemma_skip_range(span_txt(j), 0);
            lemma_span_bnd(j, 0);
            assert forall|u: BlockSpan| #[trigger] is_tail(j, skip(span_txt(j), 0), u) implies wf_span(u) && span_flat(u) == tl(span_flat(i), skip(s, n)) by {
                assert(tl(tl(span_flat(i), n), skip(s, n) - n) =~= tl(span_flat(i), skip(s, n)));
            }
        }
    }
}
/// the code of an error (nom's `into_error_kind`)
#[verifier::external_body]
pub fn context_code<'a>(c: &Context<BlockSpan<'a>, ParseErrorKind>) -> (r: ErrorKind<ParseErrorKind>)
    ensures r == err_code(Err::Failure(*c)),
{ unimplemented!() }
/// derived equality of error codes, where one side is an internal failure
#[verifier::external_body]
pub fn same_code(a: ErrorKind<ParseErrorKind>, b: ErrorKind<ParseErrorKind>) -> (r: bool)
    requires b matches ErrorKind::Custom(ParseErrorKind::InternalFailure(_)),
    ensures r <==> (a matches ErrorKind::Custom(ParseErrorKind::InternalFailure(m)) && m@ == b->Custom_0->InternalFailure_0@),
{ unimplemented!() }
/// bytes that begin no character close nothing
proof fn lemma_close_skip(s: Seq<CB>, a: int, b: int, o: char, c: char)
    requires 0 <= a <= b <= s.len(), forall|x: int| a <= x < b ==> (#[trigger] s[x]).k != 0,
    ensures forall|n: int| #[trigger] close_at(s, a, n, o, c) == close_at(s, b, n, o, c),
    decreases b - a
{
    if a < b {
        assert(s[a].k != 0);
        lemma_close_skip(s, a + 1, b, o, c);
        assert forall|n: int| #[trigger] close_at(s, a, n, o, c) == close_at(s, b, n, o, c) by { assert(close_at(s, a + 1, n, o, c) == close_at(s, b, n, o, c)); }
    }
}
proof fn lemma_close_step(s: Seq<CB>, i: int, o: char, c: char)
    requires 0 <= i < s.len(), s[i].k == 0,
    ensures forall|n: int| #[trigger] close_at(s, i, n, o, c) == (
        if s[i].c == o { close_at(s, i + 1, n + 1, o, c) }
        else if s[i].c == c { if n <= 1 { i } else { close_at(s, i + 1, n - 1, o, c) } }
        else { close_at(s, i + 1, n, o, c) }),
{}
//@fn parsers::ast::advanced_var
//@attr #[verifier::loop_isolation(false)]
//@sub `context.clone().into_error_kind() == ErrorKind :: Custom(ParseErrorKind :: InternalFailure(lit("not a function call")))` => `same_code(context_code(&context), ErrorKind::Custom(ParseErrorKind::InternalFailure(lit("not a function call"))))`
//@spec
    requires wf_span(i), bracket(start_char), term_char == closing(start_char),
    ensures bracket_result(i, dollar_location, start_char, term_char, r),
//@at before `let mut it = i.iter_indices();`
    let ghost s = span_txt(i);
    let ghost i0 = i;
    let ghost e = close_at(s, 0, 1, start_char, term_char);
    proof { lemma_ascii_heads(); lemma_span_bnd(i, 0); assert(s.subrange(0, s.len() as int) =~= s); assume(s.len() < i32::MAX); }
//@at before `while`
    let ghost mut g = it;
//@loop 0
        invariant g == it, walk(s, it), 0 <= count <= it.head + 1,
            count > 0 ==> close_at(s, it.head as int, count as int, start_char, term_char) == e,
            count == 0 ==> split_idx == e && 0 <= e < s.len() && s[e] == (CB { c: term_char, k: 0 }) && it.head == e + 1,
//@at after `split_idx = idx;`
        proof { lemma_walk(s, g, it, idx, c); lemma_close_skip(s, idx + 1, it.head as int, start_char, term_char); lemma_close_step(s, idx as int, start_char, term_char); g = it; }
//@at before `let (i, name_node) =`
    proof { lemma_tails(i); }
//@at before `let name_node =`
    let ghost whole = name_node;
    proof { lemma_span_bnd(whole, 0); lemma_tails(whole); lemma_txt_sub(span_flat(i0), 0, e + 1); }
//@at before `match function_call(`
    proof {
        assert(is_part(i0, 0, e + 1, whole));
        assert(is_part(whole, 0, e, name_node));
        lemma_part_part(i0, 0, e + 1, whole, 0, e, name_node);
        let f = span_flat(i0).subrange(0, e);
        assert(span_flat(name_node) == f);
        assert forall|x: AstNode, y: AstNode| func_at(txt(f)).is_none() && *x.children == AstChildren::VariableReference(y) && x.source_location.inner == dollar_location && #[trigger] parses_to(f, y)
            implies #[trigger] call_reads(f, dollar_location, x) by { unfold_call_reads(f, dollar_location, x); }
        unfold_call_fault(f);
    }
//@end
/// a reference whose dollar sign stands before i
pub open spec fn dollar(i: BlockSpan, loc: Location) -> Seq<Cell> { seq![Cell { b: CB { c: '$', k: 0 }, l: loc }] + span_flat(i) }
/// i, behind a dollar sign, starts with a reference that reads as x
pub open spec fn ref_ok(i: BlockSpan, loc: Location, rest: BlockSpan, x: AstNode) -> bool {
    let f = dollar(i, loc);
    let e = ref_end(txt(f));
    &&& 0 < e <= f.len() && ref_reads(f.subrange(0, e), x) && is_tail(i, e - 1, rest) && wf_ast(x)
}
/// i, behind a dollar sign, starts with no reference, which x reports
pub open spec fn ref_err(i: BlockSpan, loc: Location, x: Err<BlockSpan, ParseErrorKind>) -> bool {
    let f = dollar(i, loc);
    let e = ref_end(txt(f));
    reports(x, if e <= 0 || e > f.len() { Some(Fault::Unclosed) } else { ref_fault(f.subrange(0, e)) })
}
pub open spec fn bracket_result(j: BlockSpan, loc: Location, o: char, c: char, r: IResult<BlockSpan, AstNode, ParseErrorKind>) -> bool {
    let e = close_at(span_txt(j), 0, 1, o, c);
    let f = span_flat(j).subrange(0, e);
    match r {
        Ok(a) => 0 <= e < j.length && is_tail(j, e + 1, a.0) && call_reads(f, loc, a.1) && wf_ast(a.1),
        Err(x) => reports(x, if e < 0 { Some(Fault::Unclosed) } else { call_fault(f) }),
    }
}
proof fn lemma_close_sub(s: Seq<CB>, a: int, i: int, n: int, o: char, c: char)
    requires 0 <= a, 0 <= i, a + i <= s.len(),
    ensures ({
        let x = close_at(s.subrange(a, s.len() as int), i, n, o, c);
        let y = close_at(s, a + i, n, o, c);
        if y < 0 { x < 0 } else { x == y - a && i <= x && y < s.len() }
    }),
    decreases s.len() - a - i
{
    if a + i < s.len() {
        assert(s.subrange(a, s.len() as int)[i] == s[a + i]);
        lemma_close_sub(s, a, i + 1, n, o, c); lemma_close_sub(s, a, i + 1, n + 1, o, c); lemma_close_sub(s, a, i + 1, n - 1, o, c);
    }
}
/// the kinds of references
proof fn lemma_dollar(i: BlockSpan, loc: Location)
    requires wf_span(i), loc_room(loc, 1),
    ensures
        i.length == 0 ==> forall|x: AstNode| is_text(x, dollar(i, loc)) && wf_ast(x) ==> #[trigger] ref_ok(i, loc, i, x),
        starts_with(span_flat(i), '$') ==> forall|x: AstNode, t: BlockSpan| is_text(x, span_flat(i).subrange(0, 1)) && wf_ast(x) && is_part(i, 1, i.length as int, t) ==> #[trigger] ref_ok(i, loc, t, x),
        forall|j: BlockSpan, o: char, c: char, r: IResult<BlockSpan, AstNode, ParseErrorKind>| bracket(o) && c == closing(o) && starts_with(span_flat(i), o) && is_part(i, 1, i.length as int, j) && #[trigger] bracket_result(j, loc, o, c, r)
            ==> match r { Ok(a) => ref_ok(i, loc, a.0, a.1), Err(x) => ref_err(i, loc, x) && err_kind(x) == 2 },
        i.length > 0 && !starts_with(span_flat(i), '$') && !starts_with(span_flat(i), '(') && !starts_with(span_flat(i), '{') ==> forall|x: AstNode, t: BlockSpan| char_ref(i, loc, x) && wf_ast(x) && is_part(i, w(span_txt(i)[0].c), i.length as int, t) ==> #[trigger] ref_ok(i, loc, t, x),
{
    let f = dollar(i, loc);
    let s = span_txt(i);
    lemma_ascii_heads(); lemma_span_bnd(i, 0); lemma_joins(i);
    assert(txt(f).subrange(1, f.len() as int) =~= s);
    if i.length > 0 { lemma_first(s, s[0].c); assert(txt(f)[1] == s[0]); assert(f[1] == span_flat(i)[0]); assert(span_flat(i)[0].b == s[0]); }
    assert forall|x: AstNode| i.length == 0 && is_text(x, f) && wf_ast(x) implies #[trigger] ref_ok(i, loc, i, x) by { assert(f.subrange(0, 1) =~= f); unfold_ref_reads(f, x); }
    assert forall|x: AstNode, t: BlockSpan| starts_with(span_flat(i), '$') && is_text(x, span_flat(i).subrange(0, 1)) && wf_ast(x) && is_part(i, 1, i.length as int, t) implies #[trigger] ref_ok(i, loc, t, x) by {
        let g = f.subrange(0, 2);
        assert(tl(g, 1) =~= span_flat(i).subrange(0, 1));
        assert(g[1] == f[1]);
        unfold_ref_reads(g, x);
    }
    assert forall|j: BlockSpan, o: char, c: char, r: IResult<BlockSpan, AstNode, ParseErrorKind>| bracket(o) && c == closing(o) && starts_with(span_flat(i), o) && is_part(i, 1, i.length as int, j) && #[trigger] bracket_result(j, loc, o, c, r)
        implies (match r { Ok(a) => ref_ok(i, loc, a.0, a.1), Err(x) => ref_err(i, loc, x) && err_kind(x) == 2 }) by {
        lemma_tails(i);
        lemma_span_bnd(j, 0);
        assert(txt(f).subrange(2, f.len() as int) =~= span_txt(j));
        lemma_close_sub(txt(f), 2, 0, 1, o, c);
        let e = ref_end(txt(f));
        let e2 = close_at(span_txt(j), 0, 1, o, c);
        if e > 0 {
            let g = f.subrange(0, e);
            assert(g.subrange(2, e - 1) =~= span_flat(j).subrange(0, e2));
            assert(g[1] == f[1]);
            unfold_ref_fault(g);
            match r {
                Ok(a) => { unfold_ref_reads(g, a.1); lemma_part_part(i, 1, i.length as int, j, e2 + 1, j.length as int, a.0); },
                Err(x) => {},
            }
        }
    }
    assert forall|x: AstNode, t: BlockSpan| i.length > 0 && !starts_with(span_flat(i), '$') && !starts_with(span_flat(i), '(') && !starts_with(span_flat(i), '{') && char_ref(i, loc, x) && wf_ast(x) && is_part(i, w(s[0].c), i.length as int, t) implies #[trigger] ref_ok(i, loc, t, x) by {
        let e = 1 + w(s[0].c);
        let g = f.subrange(0, e);
        assert(tl(g, 1) =~= span_flat(i).subrange(0, w(s[0].c)));
        assert(g[1] == f[1]);
        unfold_ref_reads(g, x);
    }
}
/// x is a reference to the variable the first character of i names
pub open spec fn char_ref(i: BlockSpan, loc: Location, x: AstNode) -> bool {
    x.source_location.inner == loc && (*x.children matches AstChildren::VariableReference(y) && is_text(y, span_flat(i).subrange(0, w(span_txt(i)[0].c))))
}
/// the first segment of a text that is one character
proof fn lemma_one_segment(i: BlockSpan)
    requires wf_span(i),
    ensures forall|l: BlockSpan, n: int, g: LocatedStr, rest: Seq<Cell>| i.length > 0 && n == w(span_txt(i)[0].c) && #[trigger] is_part(i, 0, n, l) && g.contents@.len() > 0 && #[trigger] next_seg(span_flat(l), rest, Some(g)) ==> seg_flat(g) == span_flat(i).subrange(0, n) && g.contents@.len() == n <= cap() && seg_room(g),
{
    lemma_span_bnd(i, 0);
    assert forall|l: BlockSpan, n: int, g: LocatedStr, rest: Seq<Cell>| i.length > 0 && n == w(span_txt(i)[0].c) && #[trigger] is_part(i, 0, n, l) && g.contents@.len() > 0 && #[trigger] next_seg(span_flat(l), rest, Some(g)) implies seg_flat(g) == span_flat(i).subrange(0, n) && g.contents@.len() == n <= cap() && seg_room(g) by {
        let t = g.contents@;
        lemma_first(span_txt(i), span_txt(i)[0].c);
        lemma_span_bnd(l, 0);
        assert(wf_text(t));
        assert(seg_flat(g).len() == t.len());
        assert(seg_flat(g)[0].b == t[0]);
        assert(span_flat(l)[0] == seg_flat(g)[0]);
        assert(span_flat(l)[0] == span_flat(i)[0]);
        assert(span_txt(i)[0] == span_flat(i)[0].b);
        lemma_first(t, t[0].c);
        assert(rest.len() == 0);
        assert(span_flat(l) =~= seg_flat(g));
    }
}
proof fn lemma_nchars_mono(s: Seq<CB>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures nchars(s, i) <= nchars(s, j), 0 <= nchars(s, i),
    decreases j - i, j
{ if i < j { lemma_nchars_mono(s, i, j - 1); } else if i > 0 { lemma_nchars_mono(s, i - 1, i - 1); } }
/// where the first character ends
proof fn lemma_one_char(s: Seq<CB>)
    requires wf_text(s), s.len() > 0,
    ensures nchars(s, s.len() as int) >= 1, forall|i: int| 0 <= i <= s.len() && bnd(s, i) && #[trigger] nchars(s, i) == 1 ==> i == w(s[0].c),
{
    let n = w(s[0].c);
    lemma_first(s, s[0].c);
    assert forall|x: int| 0 < x < n implies (#[trigger] s[x]).k != 0 by { assert(s.subrange(0, n)[x] == s[x]); assert(cbytes(s[0].c)[x].k == x); }
    lemma_nchars(s, 0, n);
    lemma_nchars_mono(s, n, s.len() as int);
    assert forall|i: int| 0 <= i <= s.len() && bnd(s, i) && #[trigger] nchars(s, i) == 1 implies i == n by {
        if i > n { lemma_nchars_mono(s, n + 1, i); assert(s[n].k == 0); }
    }
}
//@fn parsers::ast::parse_var_ref
//@sub `LocatedString :: new(location.into(), lit("$").into())` => `LocatedString::new(Marker::marker_from(location), txt_to_owned(lit("$")))`
//@sub `segment.into()` => `located_to_owned(segment)`
//@sub `l.segments().next().unwrap().into()` => `located_to_owned(l.segments().next().unwrap())`
//@outline single_ref `let out_h4 =` => `single_ref(i, dollar_location.clone())`
//@spec
    requires wf_span(i), loc_room(dollar_location, 1),
    ensures match r { Ok(o) => ref_ok(i, dollar_location, o.0, o.1), Err(x) => ref_err(i, dollar_location, x) },
//@at start
    hide(bracket_result); hide(ref_ok); hide(ref_err); hide(char_ref);
    proof {
        lemma_dollar(i, dollar_location); lemma_one_segment(i); lemma_ascii_heads(); lemma_span_bnd(i, 0);
        reveal_strlit("$"); assert("$"@ =~= seq!['$']); lemma_lit1('$');
        if i.length > 0 { lemma_first(span_txt(i), span_txt(i)[0].c); assert(span_txt(i).subrange(0, 1)[0] == span_txt(i)[0]); assert(span_txt(i).subrange(0, 1) =~= seq![span_txt(i)[0]]); }
        assert(is_prefix(lit_bytes("$"@), span_txt(i)) <==> starts_with(span_flat(i), '$'));
        assert(i.length == 0 ==> dollar(i, dollar_location) =~= locate(lit_bytes("$"@), dollar_location));
        assert(starts_with(span_flat(i), '(') <==> i.length > 0 && span_txt(i)[0].c == '(');
        assert(starts_with(span_flat(i), '{') <==> i.length > 0 && span_txt(i)[0].c == '{');
    }
//@end
//@part parsers::ast::parse_var_ref single_ref
//@sig fn single_ref<'a>(i: BlockSpan<'a>, dollar_location: Location) -> (r: IResult<BlockSpan<'a>, AstNode, ParseErrorKind>)
//@spec
    requires wf_span(i), i.length > 0,
    ensures r matches Ok(o) && char_ref(i, dollar_location, o.1) && wf_ast(o.1) && is_part(i, w(span_txt(i)[0].c), i.length as int, o.0),
//@at start
    reveal_with_fuel(wf_ast, 3);
    proof { lemma_one_segment(i); lemma_ascii_heads(); lemma_span_bnd(i, 0); lemma_one_char(span_txt(i)); lemma_first(span_txt(i), span_txt(i)[0].c); }
//@end
/// one step of the definitions
proof fn unfold_parses_to(f: Seq<Cell>, x: AstNode)
    ensures parses_to(f, x) == ({
    if f.len() == 0 { *x.children is Empty } else { exists|k: Seq<AstNode>| #[trigger] is_join(x, f[0].l, k) && pieces(f, k) }
    }),
{ reveal(parses_to); reveal(pieces); reveal(ref_reads); reveal(call_reads); }
proof fn unfold_pieces(f: Seq<Cell>, k: Seq<AstNode>)
    ensures pieces(f, k) == ({
    if f.len() == 0 { k.len() == 0 }
    else if k.len() == 0 { false }
    else if !starts_with(f, '$') {
        let n = text_len(k[0]);
        0 < n <= f.len() && is_text(k[0], f.subrange(0, n)) && no_dollar(f.subrange(0, n)) && pieces(tl(f, n), k.drop_first())
    } else {
        let e = ref_end(txt(f));
        0 < e <= f.len() && ref_reads(f.subrange(0, e), k[0]) && pieces(tl(f, e), k.drop_first())
    }
    }),
{ reveal(parses_to); reveal(pieces); reveal(ref_reads); reveal(call_reads); }
proof fn unfold_ref_reads(f: Seq<Cell>, x: AstNode)
    ensures ref_reads(f, x) == ({
    if f.len() <= 1 { is_text(x, f) }
    else if f[1].b.c == '$' { is_text(x, tl(f, 1)) }
    else if bracket(f[1].b.c) { f.len() > 2 && call_reads(f.subrange(2, f.len() - 1), f[0].l, x) }
    else { x.source_location.inner == f[0].l && (*x.children matches AstChildren::VariableReference(y) && is_text(y, tl(f, 1))) }
    }),
{ reveal(parses_to); reveal(pieces); reveal(ref_reads); reveal(call_reads); }
proof fn unfold_call_reads(f: Seq<Cell>, loc: Location, x: AstNode)
    ensures call_reads(f, loc, x) == ({
    x.source_location.inner == loc && match func_at(txt(f)) {
        None => *x.children matches AstChildren::VariableReference(y) && parses_to(f, y),
        Some((k, n)) => n <= f.len() && match k {
            Func::Eval => *x.children matches AstChildren::Eval(y) && parses_to(tl(f, n), y),
            Func::Strip => *x.children matches AstChildren::Strip(y) && one_arg(tl(f, n)) && arg_len(tl(f, n)) <= f.len() && parses_to(arg1(tl(f, n)).unwrap().0, y),
            Func::Words => *x.children matches AstChildren::Words(y) && one_arg(tl(f, n)) && arg_len(tl(f, n)) <= f.len() && parses_to(arg1(tl(f, n)).unwrap().0, y),
            Func::Word => {
                let g = tl(f, n);
                *x.children matches AstChildren::Word { index, words } && two_args(g) && arg_len(g) <= f.len() && arg_len(second(g)) <= f.len() && parses_to(arg1(g).unwrap().0, index) && parses_to(arg1(second(g)).unwrap().0, words)
            },
        },
    }
    }),
{ reveal(parses_to); reveal(pieces); reveal(ref_reads); reveal(call_reads); }
proof fn unfold_fault(f: Seq<Cell>)
    ensures fault(f) == ({
    if f.len() == 0 { None }
    else if !starts_with(f, '$') { fault(tl(f, 1)) }
    else {
        let e = ref_end(txt(f));
        if e <= 0 || e > f.len() { Some(Fault::Unclosed) }
        else { match ref_fault(f.subrange(0, e)) { Some(k) => Some(k), None => fault(tl(f, e)) } }
    }
    }),
{ reveal(fault); reveal(ref_fault); reveal(call_fault); }
proof fn unfold_ref_fault(f: Seq<Cell>)
    ensures ref_fault(f) == ({
    if f.len() > 2 && bracket(f[1].b.c) { call_fault(f.subrange(2, f.len() - 1)) } else { None }
    }),
{ reveal(fault); reveal(ref_fault); reveal(call_fault); }
proof fn unfold_call_fault(f: Seq<Cell>)
    ensures call_fault(f) == ({
    match func_at(txt(f)) {
        None => fault(f),
        Some((k, n)) => {
            let g = tl(f, n);
            if n > f.len() { None }
            else if k is Eval { fault(g) }
            else if arg1(g).is_none() { Some(Fault::Unclosed) }
            else if arg_len(g) > f.len() { None }
            else if !(k is Word) { if one_arg(g) { fault(arg1(g).unwrap().0) } else { Some(Fault::Arguments) } }
            else if arg1(g).unwrap().1.len() == 0 { Some(Fault::Arguments) }
            else if fault(arg1(g).unwrap().0).is_some() { fault(arg1(g).unwrap().0) }
            else if arg1(second(g)).is_none() { Some(Fault::Unclosed) }
            else if arg_len(second(g)) > f.len() { None }
            else if one_arg(second(g)) { fault(arg1(second(g)).unwrap().0) } else { Some(Fault::Arguments) }
        },
    }
    }),
{ reveal(fault); reveal(ref_fault); reveal(call_fault); }
/// literal text is never at fault
proof fn lemma_run(f: Seq<Cell>, n: int)
    requires 0 <= n <= f.len(), no_dollar(f.subrange(0, n)),
    ensures fault(f) == fault(tl(f, n)),
    decreases n
{
    if n == 0 { assert(tl(f, 0) =~= f); }
    else {
        unfold_fault(f);
        assert(f.subrange(0, n)[0] == f[0]);
        let g = tl(f, 1);
        assert(g.subrange(0, n - 1) =~= f.subrange(1, n));
        assert forall|i: int| #![trigger g.subrange(0, n - 1)[i]] 0 <= i < n - 1 implies g.subrange(0, n - 1)[i].b != (CB { c: '$', k: 0 }) by { assert(f.subrange(0, n)[i + 1] == f[i + 1]); }
        lemma_run(g, n - 1);
        assert(tl(g, n - 1) =~= tl(f, n));
    }
}
/// C14: what reads as an expression has no fault
proof fn lemma_sound(f: Seq<Cell>, x: AstNode)
    requires parses_to(f, x),
    ensures fault(f).is_none(),
    decreases f.len(), 3int, 0int
{
    unfold_parses_to(f, x); unfold_fault(f);
    if f.len() > 0 {
        let k = choose|k: Seq<AstNode>| #[trigger] is_join(x, f[0].l, k) && pieces(f, k);
        lemma_pieces(f, k);
    }
}
proof fn lemma_pieces(f: Seq<Cell>, k: Seq<AstNode>)
    requires pieces(f, k),
    ensures fault(f).is_none(),
    decreases f.len(), 2int, k.len()
{
    unfold_pieces(f, k); unfold_fault(f);
    if f.len() == 0 { }
    else if !starts_with(f, '$') {
        lemma_run(f, text_len(k[0]));
        lemma_pieces(tl(f, text_len(k[0])), k.drop_first());
    } else {
        let e = ref_end(txt(f));
        lemma_ref(f.subrange(0, e), k[0]);
        lemma_pieces(tl(f, e), k.drop_first());
    }
}
proof fn lemma_ref(f: Seq<Cell>, x: AstNode)
    requires ref_reads(f, x),
    ensures ref_fault(f).is_none(),
    decreases f.len(), 1int, 0int
{
    unfold_ref_reads(f, x); unfold_ref_fault(f);
    if f.len() > 2 && bracket(f[1].b.c) { lemma_call(f.subrange(2, f.len() - 1), f[0].l, x); }
}
proof fn lemma_call(f: Seq<Cell>, loc: Location, x: AstNode)
    requires call_reads(f, loc, x),
    ensures call_fault(f).is_none(),
    decreases f.len(), 4int, 0int
{
    unfold_call_reads(f, loc, x); unfold_call_fault(f);
    match func_at(txt(f)) {
        None => { lemma_sound(f, x.children->VariableReference_0); },
        Some((k, n)) => {
            lemma_func_len(txt(f));
            let g = tl(f, n);
            lemma_arg1(g);
            match k {
                Func::Eval => { lemma_sound(g, x.children->Eval_0); },
                Func::Strip => { lemma_sound(arg1(g).unwrap().0, x.children->Strip_0); },
                Func::Words => { lemma_sound(arg1(g).unwrap().0, x.children->Words_0); },
                Func::Word => {
                    lemma_arg1(second(g));
                    lemma_sound(arg1(g).unwrap().0, x.children->index);
                    lemma_sound(arg1(second(g)).unwrap().0, x.children->words);
                },
            }
        },
    }
}
/// the arguments of a function start within its text
proof fn lemma_func_len(s: Seq<CB>)
    ensures func_at(s) matches Some((k, n)) ==> 0 < n <= s.len(),
{
    lemma_skip_reach(s);
}
proof fn lemma_skip_reach(s: Seq<CB>)
    ensures forall|i: int| 0 <= i <= s.len() ==> i <= #[trigger] skip(s, i) <= s.len(),
{
    assert forall|i: int| 0 <= i <= s.len() implies i <= #[trigger] skip(s, i) <= s.len() by { lemma_skip_range(s, i); }
}
/// the pieces k come before what f reads as
pub open spec fn expr_leads(f0: Seq<Cell>, k: Seq<AstNode>, f: Seq<Cell>) -> bool { forall|k2: Seq<AstNode>| #[trigger] pieces(f, k2) ==> pieces(f0, k + k2) }
proof fn lemma_leads_start(f: Seq<Cell>)
    ensures expr_leads(f, Seq::empty(), f),
{
    assert forall|k2: Seq<AstNode>| #[trigger] pieces(f, k2) implies pieces(f, Seq::<AstNode>::empty() + k2) by { assert(Seq::<AstNode>::empty() + k2 =~= k2); }
}
proof fn lemma_leads_text(f0: Seq<Cell>, k: Seq<AstNode>, f: Seq<Cell>, n: int, x: AstNode)
    requires expr_leads(f0, k, f), 0 < n <= f.len(), is_text(x, f.subrange(0, n)), no_dollar(f.subrange(0, n)),
    ensures expr_leads(f0, k.push(x), tl(f, n)),
{
    assert(text_len(x) == n) by { assert(f.subrange(0, n).len() == n); }
    assert(f.subrange(0, n)[0] == f[0]);
    assert forall|k2: Seq<AstNode>| #[trigger] pieces(tl(f, n), k2) implies pieces(f0, k.push(x) + k2) by {
        let m = seq![x] + k2;
        assert(m.drop_first() =~= k2);
        unfold_pieces(f, m);
        assert(k.push(x) + k2 =~= k + m);
    }
}
/// a segment before the next dollar sign
proof fn lemma_leads_segment(f0: Seq<Cell>, k: Seq<AstNode>, f1: Seq<Cell>, a: int, n: int, s: LocatedStr, rest: Seq<Cell>)
    requires expr_leads(f0, k, tl(f1, a)), 0 <= a < n <= f1.len(), n <= cap(), no_dollar(f1.subrange(0, n)), f1.subrange(a, n) == seg_flat(s) + rest, s.contents@.len() > 0, seg_room(s),
    ensures ({
        let g = s.contents@.len() as int;
        a + g <= n && rest == f1.subrange(a + g, n) && forall|x: AstNode| (*x.children matches AstChildren::Constant(l) && l.contents@ == s.contents@ && l.location.inner == s.location.inner) && x.source_location.inner == s.location.inner
            ==> #[trigger] wf_ast(x) && expr_leads(f0, k.push(x), tl(f1, a + g))
    }),
{
    let g = s.contents@.len() as int;
    let f = tl(f1, a);
    assert(seg_flat(s).len() == g);
    assert(f1.subrange(a, n).len() == g + rest.len());
    assert(rest =~= f1.subrange(a + g, n)) by { assert forall|y: int| 0 <= y < rest.len() implies rest[y] == f1.subrange(a + g, n)[y] by { assert(f1.subrange(a, n)[g + y] == rest[y]); } }
    assert(f.subrange(0, g) =~= seg_flat(s)) by { assert forall|y: int| 0 <= y < g implies f.subrange(0, g)[y] == seg_flat(s)[y] by { assert(f1.subrange(a, n)[y] == seg_flat(s)[y]); } }
    assert(no_dollar(f.subrange(0, g))) by { assert forall|y: int| #![trigger f.subrange(0, g)[y]] 0 <= y < g implies f.subrange(0, g)[y].b != (CB { c: '$', k: 0 }) by { assert(f1.subrange(0, n)[a + y] == f1[a + y]); } }
    assert(tl(f, g) =~= tl(f1, a + g));
    assert(seg_flat(s)[0].l == s.location.inner);
    assert forall|x: AstNode| (*x.children matches AstChildren::Constant(l) && l.contents@ == s.contents@ && l.location.inner == s.location.inner) && x.source_location.inner == s.location.inner
        implies #[trigger] wf_ast(x) && expr_leads(f0, k.push(x), tl(f1, a + g)) by { lemma_leads_text(f0, k, f, g, x); }
}
/// a reference whose dollar sign stands before i
proof fn lemma_leads_ref(f0: Seq<Cell>, k: Seq<AstNode>, i: BlockSpan, loc: Location)
    requires wf_span(i), expr_leads(f0, k, dollar(i, loc)), fault(f0) == fault(dollar(i, loc)),
    ensures
        forall|t: BlockSpan, x: AstNode| #[trigger] ref_ok(i, loc, t, x) ==> wf_span(t) && wf_ast(x) && expr_leads(f0, k.push(x), span_flat(t)) && fault(f0) == fault(span_flat(t)),
        forall|x: Err<BlockSpan, ParseErrorKind>| #[trigger] ref_err(i, loc, x) ==> reports(x, fault(f0)),
{
    let f = dollar(i, loc);
    let e = ref_end(txt(f));
    unfold_fault(f);
    assert(starts_with(f, '$'));
    lemma_span_bnd(i, 0);
    assert forall|t: BlockSpan, x: AstNode| #[trigger] ref_ok(i, loc, t, x) implies wf_span(t) && wf_ast(x) && expr_leads(f0, k.push(x), span_flat(t)) && fault(f0) == fault(span_flat(t)) by {
        assert(span_flat(t) =~= tl(f, e)) by { assert(span_flat(t) == span_flat(i).subrange(e - 1, i.length as int)); }
        lemma_ref(f.subrange(0, e), x);
        assert forall|k2: Seq<AstNode>| #[trigger] pieces(tl(f, e), k2) implies pieces(f0, k.push(x) + k2) by {
            let m = seq![x] + k2;
            assert(m.drop_first() =~= k2);
            unfold_pieces(f, m);
            assert(k.push(x) + k2 =~= k + m);
        }
    }
}
proof fn lemma_leads_end(f0: Seq<Cell>, k: Seq<AstNode>, f: Seq<Cell>)
    requires expr_leads(f0, k, f), f.len() == 0,
    ensures pieces(f0, k),
{
    unfold_pieces(f, Seq::empty());
    assert(k + Seq::<AstNode>::empty() =~= k);
}
proof fn lemma_joined(f: Seq<Cell>, loc: Location, k: Seq<AstNode>)
    requires f.len() > 0, loc == f[0].l, pieces(f, k), forall|x: int| 0 <= x < k.len() ==> wf_ast(#[trigger] k[x]),
    ensures forall|r: AstNode| #[trigger] is_join(r, loc, k) ==> parses_to(f, r) && wf_ast(r),
{
    assert forall|r: AstNode| #[trigger] is_join(r, loc, k) implies parses_to(f, r) && wf_ast(r) by {
        unfold_parses_to(f, r);
        lemma_filter_wf(k);
        reveal_with_fuel(wf_ast, 2);
    }
}
spec fn all_wf(k: Seq<AstNode>) -> bool { forall|x: int| 0 <= x < k.len() ==> wf_ast(#[trigger] k[x]) }
proof fn lemma_filter_wf(k: Seq<AstNode>)
    requires forall|x: int| 0 <= x < k.len() ==> wf_ast(#[trigger] k[x]),
    ensures all_wf(k.filter(|n: AstNode| non_empty(n))),
    decreases k.len()
{
    reveal(Seq::filter);
    if k.len() > 0 { assert forall|x: int| 0 <= x < k.drop_last().len() implies wf_ast(#[trigger] k.drop_last()[x]) by { assert(k.drop_last()[x] == k[x]); } lemma_filter_wf(k.drop_last()); assert(wf_ast(k[k.len() - 1])); }
}
//@part parsers::ast::parse_ast next_dollar
//@sig fn next_dollar<'a>(i: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, (BlockSpan<'a>, Option<Location>), ParseErrorKind>)
//@spec
    requires wf_span(i), i.length > 0,
    ensures r matches Ok(o) && until_dollar_is(i, o.0, o.1.0, o.1.1),
//@at start
    proof {
        lemma_ascii_heads(); lemma_span_bnd(i, 0); lemma_joins(i);
        reveal_strlit("$"); assert("$"@ =~= seq!['$']); lemma_lit1('$');
        lemma_next_dollar(i);
    }
//@end
/// where a dollar sign is found
proof fn lemma_next_dollar(i: BlockSpan)
    requires wf_span(i), lit_bytes("$"@) == seq![CB { c: '$', k: 0 }],
    ensures ({
        let s = span_txt(i);
        let t = lit_bytes("$"@);
        &&& forall|d: int| 0 <= d && #[trigger] part_at(s, t, d) ==> d < i.length && bnd(s, d)
        &&& forall|d: int, u: BlockSpan, j: BlockSpan| 0 <= d && part_at(s, t, d) && (forall|p: int| 0 <= p < d ==> !#[trigger] part_at(s, t, p)) && #[trigger] is_part(i, 0, d, u) && #[trigger] is_part(i, d, i.length as int, j)
            ==> starts_with(span_flat(j), '$') && is_prefix(t, span_txt(j)) && bnd(span_txt(j), 1) && j.length > 0 && (forall|rest: BlockSpan, l: BlockSpan, loc: Location| #[trigger] is_part(j, 0, 1, l) && #[trigger] is_part(j, 1, j.length as int, rest) && loc == span_flat(l)[0].l && #[trigger] loc_room(loc, 1) ==> until_dollar_is(i, rest, u, Some(loc)))
        &&& (forall|p: int| !#[trigger] part_at(s, t, p)) ==> forall|rest: BlockSpan, u: BlockSpan| wf_span(rest) && rest.length == 0 && is_part(i, 0, i.length as int, u) ==> #[trigger] until_dollar_is(i, rest, u, None)
    }),
{
    let s = span_txt(i);
    let t = lit_bytes("$"@);
    lemma_span_bnd(i, 0); lemma_joins(i); lemma_tails(i); lemma_ascii_heads();
    assert(is_part(i, 0, i.length as int, i));
    lemma_find1(s, t, '$');
    assert forall|d: int| 0 <= d && #[trigger] part_at(s, t, d) implies d < i.length && bnd(s, d) by { assert(s.subrange(d, d + 1)[0] == s[d]); }
    assert forall|x: int| 0 <= x < s.len() && #[trigger] s[x] == (CB { c: '$', k: 0 }) implies part_at(s, t, x) by { assert(s.subrange(x, x + 1) =~= t); }
    assert forall|d: int, u: BlockSpan, j: BlockSpan| 0 <= d && part_at(s, t, d) && (forall|p: int| 0 <= p < d ==> !#[trigger] part_at(s, t, p)) && #[trigger] is_part(i, 0, d, u) && #[trigger] is_part(i, d, i.length as int, j)
        implies starts_with(span_flat(j), '$') && is_prefix(t, span_txt(j)) && bnd(span_txt(j), 1) && j.length > 0 && (forall|rest: BlockSpan, l: BlockSpan, loc: Location| #[trigger] is_part(j, 0, 1, l) && #[trigger] is_part(j, 1, j.length as int, rest) && loc == span_flat(l)[0].l && #[trigger] loc_room(loc, 1) ==> until_dollar_is(i, rest, u, Some(loc))) by {
        assert(s.subrange(d, d + 1)[0] == s[d]);
        assert(span_txt(j)[0] == s[d]);
        lemma_span_bnd(j, 0); lemma_tails(j);
        assert(span_txt(j).subrange(0, 1) =~= t);
        assert forall|rest: BlockSpan, l: BlockSpan, loc: Location| #[trigger] is_part(j, 0, 1, l) && #[trigger] is_part(j, 1, j.length as int, rest) && loc == span_flat(l)[0].l && #[trigger] loc_room(loc, 1) implies until_dollar_is(i, rest, u, Some(loc)) by {
            lemma_part_part(i, d, i.length as int, j, 1, j.length as int, rest);
            assert(span_flat(i)[d].b == s[d]);
            assert forall|x: int| #![trigger span_flat(i).subrange(0, d)[x]] 0 <= x < d implies span_flat(i).subrange(0, d)[x].b != (CB { c: '$', k: 0 }) by { assert(span_flat(i)[x].b == s[x]); }
        }
    }
    if forall|p: int| !#[trigger] part_at(s, t, p) {
        assert forall|rest: BlockSpan, u: BlockSpan| wf_span(rest) && rest.length == 0 && is_part(i, 0, i.length as int, u) implies #[trigger] until_dollar_is(i, rest, u, None) by {
            let d = i.length as int;
            lemma_span_bnd(rest, 0);
            assert(span_flat(rest) =~= tl(span_flat(i), d));
            assert forall|x: int| #![trigger span_flat(i).subrange(0, d)[x]] 0 <= x < d implies span_flat(i).subrange(0, d)[x].b != (CB { c: '$', k: 0 }) by { assert(span_flat(i)[x].b == s[x]); }
        }
    }
}
/// u is what comes before the next dollar sign, at l, and rest what comes after it
pub open spec fn until_dollar_is(i: BlockSpan, rest: BlockSpan, u: BlockSpan, l: Option<Location>) -> bool {
    let d = u.length as int;
    &&& 0 <= d <= i.length && is_part(i, 0, d, u) && no_dollar(span_flat(i).subrange(0, d))
    &&& match l {
        None => d == i.length && wf_span(rest) && rest.length == 0 && span_flat(rest) == tl(span_flat(i), d),
        Some(loc) => d < i.length && is_tail(i, d + 1, rest) && span_flat(i)[d] == (Cell { b: CB { c: '$', k: 0 }, l: loc }) && loc_room(loc, 1),
    }
}
