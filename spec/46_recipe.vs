//@props C13
//@type ast::AstNode
//@end
//@type ast::AstChildren
//@end
/// the values in a syntax tree are well-formed texts
pub open spec fn wf_ast(n: AstNode) -> bool
    decreases n
{
    match *n.children {
        AstChildren::Empty => true,
        AstChildren::Constant(l) => l.contents@.len() <= cap() && loc_room(l.location.inner, l.contents@.len() as int),
        AstChildren::PreEvaluated(b) => wf_block(*b),
        AstChildren::Concat(v) => forall|i: int| 0 <= i < v.len() ==> wf_ast(#[trigger] v[i]),
        AstChildren::VariableReference(x) => wf_ast(x),
        AstChildren::Eval(x) => wf_ast(x),
        AstChildren::Strip(x) => wf_ast(x),
        AstChildren::Word { index, words } => wf_ast(index) && wf_ast(words),
        AstChildren::Words(x) => wf_ast(x),
    }
}
pub open spec fn non_empty(n: AstNode) -> bool { *n.children != AstChildren::Empty }
/// the node that joins the nodes s
pub open spec fn is_join(r: AstNode, loc: Location, s: Seq<AstNode>) -> bool {
    let k = s.filter(|n: AstNode| non_empty(n));
    if k.len() == 1 { r == k[0] } else { r.source_location.inner == loc && (*r.children matches AstChildren::Concat(v) && v@ == k) }
}
// ---------------------------------------------------------------- the grammar of expressions (C14)
/// the functions
pub enum Func { Eval, Strip, Words, Word }
/// why a text is no expression
pub enum Fault { Unclosed, Arguments }
pub open spec fn lit_at(s: Seq<CB>, k: Seq<char>) -> bool { is_prefix(lit_bytes(k), s) }
/// s starts with the word k and whitespace
pub open spec fn call_word(s: Seq<CB>, k: Seq<char>) -> bool { lit_at(s, k) && skip(s, lit_bytes(k).len() as int) > lit_bytes(k).len() }
/// the function s starts with, and where its arguments start
pub open spec fn func_at(s: Seq<CB>) -> Option<(Func, int)> {
    if call_word(s, "eval"@) { Some((Func::Eval, skip(s, lit_bytes("eval"@).len() as int))) }
    else if call_word(s, "strip"@) { Some((Func::Strip, skip(s, lit_bytes("strip"@).len() as int))) }
    else if call_word(s, "words"@) { Some((Func::Words, skip(s, lit_bytes("words"@).len() as int))) }
    else if call_word(s, "word"@) { Some((Func::Word, skip(s, lit_bytes("word"@).len() as int))) }
    else { None }
}
/// where the bracket c closes that is the open-th of its kind from the outside; -1 if nowhere
pub open spec fn close_at(s: Seq<CB>, i: int, open: int, o: char, c: char) -> int
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { -1 }
    else if s[i].k != 0 { close_at(s, i + 1, open, o, c) }
    else if s[i].c == o { close_at(s, i + 1, open + 1, o, c) }
    else if s[i].c == c { if open <= 1 { i } else { close_at(s, i + 1, open - 1, o, c) } }
    else { close_at(s, i + 1, open, o, c) }
}
/// where the first argument in s ends, inside of p parentheses and q braces: before a comma outside of all brackets, or at the end; None if a bracket closes that was not opened
pub open spec fn comma_at(s: Seq<CB>, i: int, p: int, q: int) -> Option<int>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { Some(s.len() as int) }
    else if s[i].k != 0 { comma_at(s, i + 1, p, q) }
    else if s[i].c == '(' { comma_at(s, i + 1, p + 1, q) }
    else if s[i].c == ')' { if p > 0 { comma_at(s, i + 1, p - 1, q) } else { None } }
    else if s[i].c == '{' { comma_at(s, i + 1, p, q + 1) }
    else if s[i].c == '}' { if q > 0 { comma_at(s, i + 1, p, q - 1) } else { None } }
    else if s[i].c == ',' && p == 0 && q == 0 { Some(i) }
    else { comma_at(s, i + 1, p, q) }
}
/// what follows the first n bytes
pub open spec fn tl(f: Seq<Cell>, n: int) -> Seq<Cell> { f.subrange(n, f.len() as int) }
/// f without the whitespace it starts with
pub open spec fn unspaced(f: Seq<Cell>) -> Seq<Cell> { tl(f, skip(txt(f), 0)) }
/// the first argument of f, and what follows it
pub open spec fn arg1(f: Seq<Cell>) -> Option<(Seq<Cell>, Seq<Cell>)> {
    match comma_at(txt(unspaced(f)), 0, 0, 0) { Some(c) => Some((unspaced(f).subrange(0, c), tl(unspaced(f), c))), None => None }
}
pub open spec fn bracket(c: char) -> bool { c == '(' || c == '{' }
pub open spec fn closing(c: char) -> char { if c == '(' { ')' } else { '}' } }
/// the end of the reference that f starts with (after its dollar sign); -1 if it is not closed
pub open spec fn ref_end(s: Seq<CB>) -> int {
    if s.len() <= 1 { s.len() as int }
    else if bracket(s[1].c) { if close_at(s, 2, 1, s[1].c, closing(s[1].c)) < 0 { -1 } else { close_at(s, 2, 1, s[1].c, closing(s[1].c)) + 1 } }
    else { 1 + w(s[1].c) }
}
/// a constant with this text
pub open spec fn is_text(x: AstNode, f: Seq<Cell>) -> bool {
    f.len() > 0 && x.source_location.inner == f[0].l && (*x.children matches AstChildren::Constant(l) && locate(l.contents@, l.location.inner) == f)
}
pub open spec fn text_len(x: AstNode) -> int { match *x.children { AstChildren::Constant(l) => l.contents@.len() as int, _ => 0 } }
pub open spec fn no_dollar(f: Seq<Cell>) -> bool { forall|i: int| #![trigger f[i]] 0 <= i < f.len() ==> f[i].b != (CB { c: '$', k: 0 }) }
/// C14: f reads as the expression x
#[verifier::opaque]
pub open spec fn parses_to(f: Seq<Cell>, x: AstNode) -> bool
    decreases f.len(), 3int, 0int
{
    if f.len() == 0 { *x.children is Empty } else { exists|k: Seq<AstNode>| #[trigger] is_join(x, f[0].l, k) && pieces(f, k) }
}
/// f is the literal texts and references k, in order
#[verifier::opaque]
pub open spec fn pieces(f: Seq<Cell>, k: Seq<AstNode>) -> bool
    decreases f.len(), 2int, k.len()
{
    if f.len() == 0 { k.len() == 0 }
    else if k.len() == 0 { false }
    else if !starts_with(f, '$') {
        let n = text_len(k[0]);
        0 < n <= f.len() && is_text(k[0], f.subrange(0, n)) && no_dollar(f.subrange(0, n)) && pieces(tl(f, n), k.drop_first())
    } else {
        let e = ref_end(txt(f));
        0 < e <= f.len() && ref_reads(f.subrange(0, e), k[0]) && pieces(tl(f, e), k.drop_first())
    }
}
/// f is one reference, which reads as x
#[verifier::opaque]
pub open spec fn ref_reads(f: Seq<Cell>, x: AstNode) -> bool
    decreases f.len(), 1int, 0int
{
    if f.len() <= 1 { is_text(x, f) }
    else if f[1].b.c == '$' { is_text(x, tl(f, 1)) }
    else if bracket(f[1].b.c) { f.len() > 2 && call_reads(f.subrange(2, f.len() - 1), f[0].l, x) }
    else { x.source_location.inner == f[0].l && (*x.children matches AstChildren::VariableReference(y) && is_text(y, tl(f, 1))) }
}
/// f between brackets, behind the dollar sign at loc, reads as x
#[verifier::opaque]
pub open spec fn call_reads(f: Seq<Cell>, loc: Location, x: AstNode) -> bool
    decreases f.len(), 4int, 0int
{
    x.source_location.inner == loc && match func_at(txt(f)) {
        None => *x.children matches AstChildren::VariableReference(y) && parses_to(f, y),
        Some((k, n)) => n <= f.len() && match k {
            Func::Eval => *x.children matches AstChildren::Eval(y) && parses_to(tl(f, n), y),
            Func::Strip => *x.children matches AstChildren::Strip(y) && one_arg(tl(f, n)) && arg_len(tl(f, n)) <= f.len() && parses_to(arg1(tl(f, n)).unwrap().0, y),
            Func::Words => *x.children matches AstChildren::Words(y) && one_arg(tl(f, n)) && arg_len(tl(f, n)) <= f.len() && parses_to(arg1(tl(f, n)).unwrap().0, y),
            Func::Word => {
                let g = tl(f, n);
                *x.children matches AstChildren::Word { index, words } && two_args(g) && arg_len(g) <= f.len() && arg_len(second(g)) <= f.len() && parses_to(arg1(g).unwrap().0, index) && parses_to(arg1(second(g)).unwrap().0, words)
            },
        },
    }
}
pub open spec fn one_arg(f: Seq<Cell>) -> bool { arg1(f).is_some() && arg1(f).unwrap().1.len() == 0 }
pub open spec fn arg_len(f: Seq<Cell>) -> int { arg1(f).unwrap().0.len() as int }
/// what follows the first argument and its comma
pub open spec fn second(f: Seq<Cell>) -> Seq<Cell> { tl(arg1(f).unwrap().1, 1) }
pub open spec fn two_args(f: Seq<Cell>) -> bool { arg1(f).is_some() && arg1(f).unwrap().1.len() > 0 && one_arg(second(f)) }
/// why f is no expression, if it is none
#[verifier::opaque]
pub open spec fn fault(f: Seq<Cell>) -> Option<Fault>
    decreases f.len(), 3int
{
    if f.len() == 0 { None }
    else if !starts_with(f, '$') { fault(tl(f, 1)) }
    else {
        let e = ref_end(txt(f));
        if e <= 0 || e > f.len() { Some(Fault::Unclosed) }
        else { match ref_fault(f.subrange(0, e)) { Some(k) => Some(k), None => fault(tl(f, e)) } }
    }
}
#[verifier::opaque]
pub open spec fn ref_fault(f: Seq<Cell>) -> Option<Fault>
    decreases f.len(), 1int
{
    if f.len() > 2 && bracket(f[1].b.c) { call_fault(f.subrange(2, f.len() - 1)) } else { None }
}
#[verifier::opaque]
pub open spec fn call_fault(f: Seq<Cell>) -> Option<Fault>
    decreases f.len(), 4int
{
    match func_at(txt(f)) {
        None => fault(f),
        Some((k, n)) => {
            let g = tl(f, n);
            if n > f.len() { None }
            else if k is Eval { fault(g) }
            else if arg1(g).is_none() { Some(Fault::Unclosed) }
            else if arg_len(g) > f.len() { None }
            else if !(k is Word) { if one_arg(g) { fault(arg1(g).unwrap().0) } else { Some(Fault::Arguments) } }
            else if arg1(g).unwrap().1.len() == 0 { Some(Fault::Arguments) }
            else if fault(arg1(g).unwrap().0).is_some() { fault(arg1(g).unwrap().0) }
            else if arg1(second(g)).is_none() { Some(Fault::Unclosed) }
            else if arg_len(second(g)) > f.len() { None }
            else if one_arg(second(g)) { fault(arg1(second(g)).unwrap().0) } else { Some(Fault::Arguments) }
        },
    }
}
/// a reference in the text is not closed
pub open spec fn unclosed(f: Seq<Cell>) -> bool { fault(f) == Some(Fault::Unclosed) }
/// the error r reports the fault k
pub open spec fn reports<I>(r: Err<I, ParseErrorKind>, k: Option<Fault>) -> bool {
    &&& err_kind(r) == 2 && k.is_some() && !(err_code(r) matches ErrorKind::Custom(ParseErrorKind::InternalFailure(_)))
    &&& k == Some(Fault::Unclosed) <==> err_code(r) == ErrorKind::Custom(ParseErrorKind::UnternimatedVariable)
}
/// nom::rest, as nom writes it
pub fn rest<'a, E>(input: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, BlockSpan<'a>, E>)
    requires wf_span(input),
    ensures splits(input, r, 0, input.length as int, input.length as int),
{
    proof { lemma_span_bnd(input, input.length as int); lemma_span_bnd(input, 0); assert(span_flat(input).subrange(0, input.length as int) =~= span_flat(input)); }
    Ok((input.slice_from(input.input_len()), input))
}
#[verifier::external_body]
pub fn need_more_err<'a, O, E>(i: BlockSpan<'a>, n: Needed, k: ErrorKind<u32>) -> (r: IResult<BlockSpan<'a>, O, E>)
    ensures r matches Err(Err::Error(_)),
{ unimplemented!() }
//@fn parsers::ast::parse_ast
//@props C14
//@sig fn parse_ast<'a>(i: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, AstNode, ParseErrorKind>)
//@spec
    requires wf_span(i),
    ensures
        r.is_ok() ==> parses_to(span_flat(i), r->Ok_0.1) && wf_ast(r->Ok_0.1),
        r.is_err() ==> forall|a: AstNode| !#[trigger] parses_to(span_flat(i), a),
        r.is_ok() ==> r->Ok_0.0.length == 0,
        r.is_err() ==> reports(r->Err_0, fault(span_flat(i))),
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sub `let start_location = match i.location()` => `let mut i = i; let start_location = match i.location()`
//@sub `segment.into()` => `located_to_owned(segment)`
//@outline next_dollar `let (new_i, (until_dollar, dollar_location)) = {` => `next_dollar(i)`
//@at before `let start_location =`
    let ghost f0 = span_flat(i);
    proof {
        lemma_leads_start(f0); lemma_ascii_heads();
        if f0.len() == 0 { assert forall|x: AstNode| *x.children == AstChildren::Empty implies #[trigger] parses_to(f0, x) by { unfold_parses_to(f0, x); } }
        assert forall|a: AstNode| #[trigger] parses_to(f0, a) implies fault(f0).is_none() by { lemma_sound(f0, a); }
    }
//@at after `let mut master_concat_nodes = Vec :: new();`
    let ghost i0 = i;
//@loop 0
        invariant wf_span(i), expr_leads(f0, master_concat_nodes@, span_flat(i)), fault(f0) == fault(span_flat(i)), forall|x: int| 0 <= x < master_concat_nodes@.len() ==> wf_ast(#[trigger] master_concat_nodes@[x]),
        ensures i.length == 0,
//@at loopstart 0
        let ghost f1 = span_flat(i);
        let ghost i1 = i;
        proof { lemma_ascii_heads(); lemma_tails(i); }
//@at before `let mut __it1 = until_dollar.segments();`
            let ghost n = until_dollar.length as int;
            let ghost mut done = 0int;
            proof {
                lemma_run(f1, n); lemma_span_bnd(until_dollar, 0); lemma_span_bnd(i1, 0);
                assert(tl(f1, 0) =~= f1);
                assert(span_flat(until_dollar) =~= f1.subrange(0, n));
            }
//@loop 1
                invariant wf_ss(__it1), 0 <= done <= n, ss_rem(__it1) == f1.subrange(done, n), expr_leads(f0, master_concat_nodes@, tl(f1, done)), forall|x: int| 0 <= x < master_concat_nodes@.len() ==> wf_ast(#[trigger] master_concat_nodes@[x]),
                ensures done == n,
//@at loopstart 1
                let ghost g = segment.contents@.len() as int;
                let ghost k = master_concat_nodes@;
                proof {
                    assert(f1.subrange(done, n) == seg_flat(segment) + ss_rem(__it1));
                    lemma_leads_segment(f0, k, f1, done, n, segment, ss_rem(__it1));
                    done = done + g;
                }
//@at loopend 1
                proof { let x = master_concat_nodes@.last(); assert(master_concat_nodes@ =~= k.push(x)); assert(wf_ast(x)); }
//@at before `i = new_i;` 0
        let ghost d = until_dollar.length as int;
        proof { assert(expr_leads(f0, master_concat_nodes@, tl(f1, d))); assert(fault(f0) == fault(tl(f1, d))); }
//@at before `let (new_i, child) =`
        let ghost j = i;
        proof {
            assert(tl(f1, d) =~= dollar(i, dollar_location));
            lemma_leads_ref(f0, master_concat_nodes@, i, dollar_location);
        }
//@at before `Ok((i, ast_collapsing_concat(`
    proof { lemma_leads_end(f0, master_concat_nodes@, span_flat(i)); lemma_joined(f0, start_location, master_concat_nodes@); }
//@end
//@fn parsers::comment::parse_comment_following_whitespace
//@sig fn parse_comment_following_whitespace<'a>(i: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, (), ParseErrorKind>)
//@spec
    requires wf_span(i),
    ensures ({
        let s = span_txt(i);
        let a = skip(s, 0);
        &&& r.is_err() <==> a >= s.len() || s[a].c != '#'
        &&& r.is_err() ==> err_kind(r->Err_0) == 1
        &&& r.is_ok() ==> is_tail(i, a + comment_end(s.subrange(a, s.len() as int), 1), r->Ok_0.0)
    }),
//@at start
    let ghost i0 = i;
    proof { lemma_heads(i); lemma_skip_sub(span_txt(i), 0, 0); }
//@at before `match (parse_comment`
                            proof { lemma_tail_of(i0, skip(span_txt(i0), 0), i_k2); lemma_heads(i_k2); }
//@end
/// t is the tail of i from a on
pub proof fn lemma_tail_of(i: BlockSpan, a: int, t: BlockSpan)
    requires wf_span(i), is_tail(i, a, t), wf_span(t),
    ensures
        span_txt(t) == span_txt(i).subrange(a, i.length as int), t.length == i.length - a, span_flat(t) == span_flat(i).subrange(a, i.length as int),
        forall|b: int, u: BlockSpan| 0 <= b <= t.length && #[trigger] is_part(t, b, t.length as int, u) ==> is_tail(i, a + b, u),
{
    lemma_span_bnd(i, 0);
    lemma_span_bnd(t, 0);
    lemma_txt_sub(span_flat(i), a, i.length as int);
    assert forall|b: int, u: BlockSpan| 0 <= b <= t.length && #[trigger] is_part(t, b, t.length as int, u) implies is_tail(i, a + b, u) by { lemma_part_part(i, a, i.length as int, t, b, t.length as int, u); }
}
// ---------------------------------------------------------------- recipes
/// does f start with the command character?
pub open spec fn starts_with(f: Seq<Cell>, c: char) -> bool { f.len() > 0 && f[0].b == (CB { c, k: 0 }) }
/// the text of a recipe line and what follows it; acc is what has been read of it and f what comes next
#[verifier::opaque]
pub open spec fn recipe_text(acc: Seq<Cell>, f: Seq<Cell>, cmd: char) -> (Seq<Cell>, Seq<Cell>)
    decreases f.len()
{
    if slashes(txt(acc), acc.len() as int) % 2 == 0 { (acc, f) }
    else if !starts_with(f, cmd) || w(cmd) > f.len() || w(cmd) < 1 { (acc + one_cell('\n'), f) }
    else {
        let g = f.subrange(w(cmd), f.len() as int);
        let line = g.subrange(0, line_end(txt(g)));
        let rest = g.subrange(line_rest(txt(g)), g.len() as int);
        if line_reason(txt(g)) == LineEndReason::Comment || rest.len() >= f.len() { ((acc + one_cell('\n')) + line, rest) }
        else { recipe_text((acc + one_cell('\n')) + line, rest, cmd) }
    }
}
/// the recipe line f starts with
pub open spec fn recipe_at(f: Seq<Cell>, cmd: char) -> (Seq<Cell>, Seq<Cell>) {
    let g = f.subrange(w(cmd), f.len() as int);
    let line = g.subrange(0, line_end(txt(g)));
    let rest = g.subrange(line_rest(txt(g)), g.len() as int);
    if line_reason(txt(g)) == LineEndReason::Comment { (line, rest) } else { recipe_text(line, rest, cmd) }
}
//@fn parsers::fail_out
//@props C08 C09 C10 C11 C14 C15 C18
//@spec
    ensures r.is_err(), r->Err_0 == Err::<BlockSpan, ParseErrorKind>::Failure(Context::Code(i, ErrorKind::Custom(err))),
//@end
//@fn parsers::error_utils::lift_collapsed_span_error
//@sig fn lift_collapsed_span_error<'a, 'b, E>(e: Err<BlockSpan<'a>, E>, location_injection: BlockSpan<'b>) -> (r: Err<BlockSpan<'b>, E>)
//@spec
    ensures err_kind(r) == err_kind(e), e is Failure ==> r is Failure,
//@loop 0
        invariant true,
//@loop 1
        invariant true,
//@end
/// the first character of a recipe line, and the line behind it
pub proof fn lemma_recipe_head(i: BlockSpan, cmd: char)
    requires wf_span(i),
    ensures starts_with(span_flat(i), cmd) <==> i.length > 0 && span_txt(i)[0] == (CB { c: cmd, k: 0 }),
        starts_with(span_flat(i), cmd) ==> 1 <= w(cmd) <= i.length,
{
    lemma_span_bnd(i, 0);
    if i.length > 0 { lemma_first(span_txt(i), cmd); }
}
/// a line has been cut off t, the tail of j behind the command character
pub proof fn lemma_recipe_piece(i0: BlockSpan, j: BlockSpan, cmd: char, t: BlockSpan, line: BlockSpan, rest: BlockSpan)
    requires
        wf_span(i0), wf_span(j), is_tail(i0, i0.length - j.length, j), starts_with(span_flat(j), cmd), is_part(j, w(cmd), j.length as int, t), wf_span(t),
        is_part(t, 0, line_end(span_txt(t)), line), is_part(t, line_rest(span_txt(t)), t.length as int, rest), 0 <= line_end(span_txt(t)) <= line_rest(span_txt(t)) <= t.length,
    ensures ({
        let f = span_flat(j);
        let g = f.subrange(w(cmd), f.len() as int);
        &&& span_flat(t) == g && txt(g) == span_txt(t) && f.len() == j.length
        &&& span_flat(line) == g.subrange(0, line_end(txt(g))) && span_flat(rest) == g.subrange(line_rest(txt(g)), g.len() as int)
        &&& is_tail(i0, i0.length - rest.length, rest) && line.length + rest.length + w(cmd) <= j.length && wf_span(line) && wf_span(rest) && 1 <= w(cmd)
        &&& span_txt(line).len() == line.length && span_flat(line).len() == line.length && span_txt(line) == txt(span_flat(line)) && span_flat(rest).len() == rest.length
    }),
{
    lemma_span_bnd(j, 0);
    lemma_span_bnd(i0, 0);
    lemma_span_bnd(t, 0);
    lemma_span_bnd(line, 0);
    lemma_span_bnd(rest, 0);
    let a = i0.length - j.length;
    lemma_recipe_head(j, cmd);
    lemma_part_part(i0, a, i0.length as int, j, w(cmd), j.length as int, t);
    lemma_part_part(i0, a + w(cmd), i0.length as int, t, line_rest(span_txt(t)), t.length as int, rest);
}
proof fn lemma_recipe_text(acc: Seq<Cell>, f: Seq<Cell>, cmd: char)
    ensures ({
        let acc1 = acc + one_cell('\n');
        let g = f.subrange(w(cmd), f.len() as int);
        let line = g.subrange(0, line_end(txt(g)));
        let rest = g.subrange(line_rest(txt(g)), g.len() as int);
        let odd = slashes(txt(acc), acc.len() as int) % 2 == 1;
        &&& !odd && slashes(txt(acc), acc.len() as int) % 2 == 0 ==> recipe_text(acc, f, cmd) == (acc, f)
        &&& odd && !starts_with(f, cmd) ==> recipe_text(acc, f, cmd) == (acc1, f)
        &&& odd && starts_with(f, cmd) && 1 <= w(cmd) <= f.len() && line_reason(txt(g)) == LineEndReason::Comment ==> recipe_text(acc, f, cmd) == (acc1 + line, rest)
        &&& odd && starts_with(f, cmd) && 1 <= w(cmd) <= f.len() && line_reason(txt(g)) != LineEndReason::Comment && rest.len() < f.len() ==> recipe_text(acc, f, cmd) == recipe_text(acc1 + line, rest, cmd)
    }),
{
    reveal_with_fuel(recipe_text, 2);
}
//@fn parsers::recipe_line::recipe_line
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@sig fn recipe_line<'a>(i: BlockSpan<'a>, command_char: char) -> (r: IResult<BlockSpan<'a>, AstNode, ParseErrorKind>)
//@sub `command_char.len()` => `char_len(command_char)`
//@spec
    requires wf_span(i),
    ensures
        !starts_with(span_flat(i), command_char) ==> r.is_err() && err_kind(r->Err_0) == 1,
        r.is_ok() ==> starts_with(span_flat(i), command_char) && ({
            let want = recipe_at(span_flat(i), command_char);
            parses_to(want.0, r->Ok_0.1) && wf_ast(r->Ok_0.1) && is_tail(i, i.length - want.1.len(), r->Ok_0.0) && span_flat(r->Ok_0.0) == want.1 && wf_span(r->Ok_0.0)
        }),
        r.is_err() && starts_with(span_flat(i), command_char) ==> forall|a: AstNode| !#[trigger] parses_to(recipe_at(span_flat(i), command_char).0, a),
//@at start
    hide(wf_ref); hide(ref_flat); hide(refs_flat); hide(slashes); hide(line_stop); hide(line_rest); hide(line_end); hide(line_reason);
    broadcast use lemma_and1;
    let ghost cmd = command_char;
    let ghost i0 = i;
    let ghost want = recipe_at(span_flat(i), cmd);
    let ghost mut t = i;
    proof { lemma_heads(i); lemma_joins(i); lemma_recipe_head(i, cmd); }
//@at before `match (makefile_grab_line` 0
                                proof { t = i_k2; }
//@at before `let line_start`
    proof {
        lemma_recipe_piece(i0, i0, cmd, t, line, i);
        assert forall|a: Seq<Cell>, f: Seq<Cell>| slashes(txt(a), a.len() as int) % 2 == 0 implies #[trigger] recipe_text(a, f, cmd) == (a, f) by { lemma_recipe_text(a, f, cmd); }
    }
//@loop 0
        invariant_except_break
            want == recipe_text(block_flat(*line), span_flat(i), cmd), block_flat(*line).len() + i.length + 1 <= i0.length,
        invariant
            forall|x: usize| #[trigger] (x & 1) == x % 2, cmd == command_char, wf_block(*line), i0.length <= cap(),
            forall|a: Seq<Cell>, f: Seq<Cell>| slashes(txt(a), a.len() as int) % 2 == 0 ==> #[trigger] recipe_text(a, f, cmd) == (a, f),
            wf_span(i0), wf_span(i), is_tail(i0, i0.length - i.length, i), starts_with(span_flat(i0), cmd), want == recipe_at(span_flat(i0), cmd),
        ensures want == (block_flat(*line), span_flat(i)), wf_block(*line), wf_span(i), is_tail(i0, i0.length - i.length, i),
//@at loopstart 0
        broadcast use lemma_and1;
        let ghost j = i;
        let ghost acc = block_flat(ad(line));
        proof { lemma_recipe_text(acc, span_flat(i), cmd); lemma_heads(i); lemma_joins(i); lemma_recipe_head(i, cmd); }
//@at after `arc_make_mut(&mut line).push(ContentReference :: newline());`
        let ghost acc1 = block_flat(ad(line));
        proof { assert(acc1 == acc + one_cell('\n')); }
//@at before `match (makefile_grab_line` 1
                                proof { t = i_k4; }
//@at before `arc_make_mut(&mut line).push(next_line`
                proof { lemma_recipe_piece(i0, j, cmd, t, next_line, new_i); }
//@end
/// texts that begin with a character of one byte
pub proof fn lemma_ascii_heads()
    ensures forall|i: BlockSpan| #![trigger wf_span(i)] wf_span(i) ==> heads(span_txt(i)) && span_flat(i).len() == i.length && span_txt(i).len() == i.length
        && (i.length > 0 ==> span_txt(i)[0].k == 0 && (w(span_txt(i)[0].c) == 1 ==> bnd(span_txt(i), 1))),
        forall|i: BlockSpan, c: char| #![trigger starts_with(span_flat(i), c)] wf_span(i) ==> (starts_with(span_flat(i), c) <==> i.length > 0 && span_txt(i)[0].c == c),
{
    assert forall|i: BlockSpan| #![trigger wf_span(i)] wf_span(i) implies heads(span_txt(i)) && span_flat(i).len() == i.length && span_txt(i).len() == i.length
        && (i.length > 0 ==> span_txt(i)[0].k == 0 && (w(span_txt(i)[0].c) == 1 ==> bnd(span_txt(i), 1))) by {
        lemma_heads(i);
        if i.length > 0 { lemma_first(span_txt(i), span_txt(i)[0].c); }
    }
    assert forall|i: BlockSpan, c: char| #![trigger starts_with(span_flat(i), c)] wf_span(i) implies (starts_with(span_flat(i), c) <==> i.length > 0 && span_txt(i)[0].c == c) by {
        lemma_command_char(c);
        assert(wf_span(i));
    }
}
pub proof fn lemma_unspaced_twice(f: Seq<Cell>)
    ensures unspaced(unspaced(f)) == unspaced(f),
{
    let s = txt(f);
    let a = skip(s, 0);
    lemma_skip_range(s, 0);
    lemma_skip_sub(s, a, 0);
    lemma_skip_idem(s, 0);
    lemma_txt_sub(f, a, f.len() as int);
}
pub proof fn lemma_skip_range(s: Seq<CB>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= skip(s, i) <= s.len(),
    decreases s.len() - i
{ if i < s.len() { lemma_skip_range(s, i + 1); } }
pub proof fn lemma_skip_idem(s: Seq<CB>, i: int)
    requires 0 <= i <= s.len(),
    ensures skip(s, skip(s, i)) == skip(s, i),
    decreases s.len() - i
{ if i < s.len() { lemma_skip_idem(s, i + 1); } }
pub proof fn lemma_tails(s: BlockSpan)
    requires wf_span(s),
    ensures forall|t: BlockSpan, k: int| 0 <= k <= s.length && #[trigger] is_part(s, k, s.length as int, t) ==> span_flat(t) == tl(span_flat(s), k) && span_txt(t) == span_txt(s).subrange(k, s.length as int),
{
    assert forall|t: BlockSpan, k: int| 0 <= k <= s.length && #[trigger] is_part(s, k, s.length as int, t) implies span_flat(t) == tl(span_flat(s), k) && span_txt(t) == span_txt(s).subrange(k, s.length as int) by {
        lemma_span_bnd(s, k); lemma_txt_sub(span_flat(s), k, s.length as int);
    }
}
/// the first character of a text
pub proof fn lemma_command_char(cmd: char)
    ensures forall|i: BlockSpan| #![trigger wf_span(i)] #![trigger span_flat(i)] wf_span(i) ==> heads(span_txt(i)) && span_flat(i).len() == i.length && span_txt(i).len() == i.length
        && (starts_with(span_flat(i), cmd) <==> i.length > 0 && span_txt(i)[0].c == cmd) && (i.length > 0 ==> span_txt(i)[0].k == 0),
{
    assert forall|i: BlockSpan| #![trigger wf_span(i)] #![trigger span_flat(i)] wf_span(i) implies heads(span_txt(i)) && span_flat(i).len() == i.length && span_txt(i).len() == i.length
        && (starts_with(span_flat(i), cmd) <==> i.length > 0 && span_txt(i)[0].c == cmd) && (i.length > 0 ==> span_txt(i)[0].k == 0) by {
        lemma_heads(i);
        lemma_recipe_head(i, cmd);
        if i.length > 0 { lemma_first(span_txt(i), span_txt(i)[0].c); }
    }
}
