//@props C11
// ---------------------------------------------------------------- the lines of a define (C11)
/// just behind the first newline from i on (the length if there is none)
pub open spec fn raw_end(s: Seq<CB>, i: int) -> int
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { s.len() as int } else if s[i].c == '\n' { i + 1 } else { raw_end(s, i + 1) }
}
proof fn lemma_raw_end(s: Seq<CB>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= raw_end(s, i) <= s.len(), i < s.len() ==> i < raw_end(s, i),
    decreases s.len() - i
{
    if i < s.len() && s[i].c != '\n' { lemma_raw_end(s, i + 1); }
}
/// where the first newline is
proof fn lemma_raw_first(s: Seq<CB>, i: int)
    requires 0 <= i <= s.len(),
    ensures ({
        let e = raw_end(s, i);
        if i < e && s[e - 1].c == '\n' { forall|j: int| i <= j < e - 1 ==> (#[trigger] s[j]).c != '\n' } else { e == s.len() && forall|j: int| i <= j < s.len() ==> (#[trigger] s[j]).c != '\n' }
    }), i <= raw_end(s, i) <= s.len(),
    decreases s.len() - i
{
    if i < s.len() && s[i].c != '\n' { lemma_raw_first(s, i + 1); }
}
proof fn lemma_raw_end_sub(s: Seq<CB>, a: int, i: int)
    requires 0 <= a <= s.len(), 0 <= i,
    ensures raw_end(s.subrange(a, s.len() as int), i) == raw_end(s, a + i) - a,
    decreases s.len() - a - i
{
    let t = s.subrange(a, s.len() as int);
    if a + i < s.len() { assert(t[i] == s[a + i]); if s[a + i].c != '\n' { lemma_raw_end_sub(s, a, i + 1); } }
}
/// the first word of the line f of a define, and what follows it
pub open spec fn define_word(f: Seq<Cell>) -> (DefineLineAction, Seq<Cell>) {
    let g = unspaced(f);
    let (a, n) = if is_prefix(lit_bytes("define"@), txt(g)) { (DefineLineAction::IncreaseNesting, 6int) }
        else if is_prefix(lit_bytes("endef"@), txt(g)) { (DefineLineAction::DecreaseNesting, 5int) }
        else { (DefineLineAction::Append, g.len() as int) };
    let h = tl(g, n);
    (if h.len() > 0 && !is_ws(txt(h)[0].c) { DefineLineAction::Append } else { a }, h)
}
pub open spec fn all_ws(s: Seq<CB>) -> bool { forall|j: int| 0 <= j < s.len() ==> is_ws((#[trigger] s[j]).c) }
pub open spec fn parses(f: Seq<Cell>) -> bool { exists|a: AstNode| #[trigger] parses_to(f, a) }
/// a reference may go on on the next lines: where the line of a define ends whose first k bytes have been taken; -1 if its text cannot be read
pub open spec fn define_end(f: Seq<Cell>, k: int) -> int
    decreases f.len() - k
{
    if k < 0 || k > f.len() { -1 }
    else if parses(f.subrange(0, k)) { k }
    else if k >= f.len() || define_word(tl(f, k)).0 != DefineLineAction::Append { -1 }
    else if k < raw_end(txt(f), k) <= f.len() { define_end(f, raw_end(txt(f), k)) } else { -1 }
}
/// how a line of a define reads
pub open spec fn define_reads(f: Seq<Cell>, l: DefineLine, rest: Seq<Cell>) -> bool {
    let k = define_end(f, raw_end(txt(f), 0));
    let line = f.subrange(0, k);
    &&& k >= 0 && rest == tl(f, k) && parses_to(line, l.content) && l.location == f[0].l
    &&& l.action == define_word(line).0
    &&& l.action == DefineLineAction::DecreaseNesting ==> all_ws(txt(define_word(line).1))
}
/// a text that ends somewhere else ends where a character does
proof fn lemma_prefixes(t: Seq<CB>)
    requires wf_text(t),
    ensures forall|b: BlockSpan| wf_span(b) && #[trigger] is_prefix(t, span_txt(b)) ==> t.len() <= b.length && bnd(span_txt(b), t.len() as int),
{
    assert forall|b: BlockSpan| wf_span(b) && #[trigger] is_prefix(t, span_txt(b)) implies t.len() <= b.length && bnd(span_txt(b), t.len() as int) by { lemma_span_bnd(b, 0); lemma_prefix_bnd(span_txt(b), t); }
}
//@fn parsers::variable::take_define_line
//@spec
    requires wf_span(i),
    ensures splits(i, r, 0, raw_end(span_txt(i), 0), raw_end(span_txt(i), 0)),
//@at start
    hide(raw_end);
    let ghost s = span_txt(i);
    proof {
        lemma_span_bnd(i, 0); lemma_line_finds(s); lemma_raw_first(s, 0);
        reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']); lemma_lit1('\n');
        assert(wf_at(lit_bytes("\n"@), 0));
        lemma_prefixes(lit_bytes("\n"@));
        let e = raw_end(s, 0);
        if 0 < e && s[e - 1].c == '\n' { assert(part_at(s, lit_bytes("\n"@), e - 1)); assert(wf_at(s, e - 1)); assert(bnd(s, e - 1)); assert(s.subrange(e - 1, s.len() as int).subrange(0, 1) =~= lit_bytes("\n"@)); }
    }
//@at after `let i_k5 = i_k4.clone();` 0
    proof {
        let e = raw_end(s, 0);
        assert(is_part(i, e - 1, i.length as int, i_k5));
        lemma_txt_sub(span_flat(i), e - 1, i.length as int);
        assert(is_prefix(lit_bytes("\n"@), span_txt(i_k5)));
        assert forall|u: BlockSpan| #[trigger] is_part(i_k5, 1, i_k5.length as int, u) implies is_part(i, e, i.length as int, u) by { lemma_part_part(i, e - 1, i.length as int, i_k5, 1, i_k5.length as int, u); }
    }
//@at after `let index_h2 = (&i_k2).offset(&i_h3);`
    proof { assert(is_part(i, raw_end(s, 0), i.length as int, i_h3)); assert(index_h2 == raw_end(s, 0)); }
//@at before `match res_h1`
    proof {
        let e = raw_end(s, 0);
        if 0 < e && s[e - 1].c == '\n' { assert(splits(i, res_h1, 0, e, e)); }
        else { assert(res_h1 matches Err(Err::Error(_))); }
    }
//@end
//@fn parsers::variable::define_keyword
//@spec
    requires wf_span(i),
    ensures r.is_ok(), ({
        let d = define_word(span_flat(i));
        r->Ok_0.1 == d.0 && wf_span(r->Ok_0.0) && span_flat(r->Ok_0.0) == d.1
    }),
//@at start
    let ghost g = unspaced(span_flat(i));
    proof { lemma_span_bnd(i, 0); lemma_define_lits(); lemma_ascii_heads(); lemma_prefixes(lit_bytes("define"@)); lemma_prefixes(lit_bytes("endef"@)); }
//@at before `match i.chars().next()`
    proof {
        let (a, n) = if is_prefix(lit_bytes("define"@), txt(g)) { (DefineLineAction::IncreaseNesting, 6int) }
            else if is_prefix(lit_bytes("endef"@), txt(g)) { (DefineLineAction::DecreaseNesting, 5int) }
            else { (DefineLineAction::Append, g.len() as int) };
        assert(action == a);
        assert(span_flat(i) == tl(g, n));
        lemma_span_bnd(i, 0);
        if i.length > 0 { assert(wf_at(span_txt(i), 0)); }
        assert(span_txt(i) =~= txt(tl(g, n)));
    }
//@end
proof fn lemma_define_lits()
    ensures
        lit_bytes("define"@).len() == 6, lit_bytes("endef"@).len() == 5, wf_text(lit_bytes("define"@)), wf_text(lit_bytes("endef"@)),
{
    reveal_strlit("define"); reveal_strlit("endef");
    assert("define"@ =~= seq!['d', 'e', 'f', 'i', 'n', 'e']); assert("endef"@ =~= seq!['e', 'n', 'd', 'e', 'f']);
    lemma_lit_ascii("define"@); lemma_lit_ascii("endef"@);
    assert forall|i: int| 0 <= i < 6 implies wf_at(lit_bytes("define"@), i) by { assert(lit_bytes("define"@)[i].k == 0); }
    assert forall|i: int| 0 <= i < 5 implies wf_at(lit_bytes("endef"@), i) by { assert(lit_bytes("endef"@)[i].k == 0); }
}
proof fn lemma_define_step(s: BlockSpan, i: BlockSpan, t: BlockSpan)
    requires wf_span(s), line_of(s, i, t), !parses(span_flat(i)),
    ensures ({
        let f = span_flat(s);
        let k = i.length as int;
        let e = raw_end(span_txt(t), 0);
        if t.length == 0 || define_word(span_flat(t)).0 != DefineLineAction::Append { define_end(f, k) == -1 }
        else { 0 < e <= t.length && define_end(f, k) == define_end(f, k + e) }
    }),
{
    let f = span_flat(s);
    let k = i.length as int;
    lemma_span_bnd(s, 0);
    lemma_txt_sub(f, k, f.len() as int);
    lemma_raw_end(txt(f), k);
    lemma_raw_end_sub(txt(f), k, 0);
    assert(span_flat(t) == tl(f, k));
    assert(span_flat(i) == f.subrange(0, k));
}
proof fn lemma_define_next(s: BlockSpan, i: BlockSpan, t: BlockSpan, t2: BlockSpan)
    requires wf_span(s), wf_span(t2), line_of(s, i, t), !parses(span_flat(i)), t.length > 0, define_word(span_flat(t)).0 == DefineLineAction::Append,
        is_part(t, raw_end(span_txt(t), 0), t.length as int, t2), 0 <= raw_end(span_txt(t), 0) <= t.length,
    ensures ({
        let n = s.length - t2.length;
        0 <= n <= s.length && bnd(span_txt(s), n) && forall|i2: BlockSpan| wf_span(i2) && #[trigger] is_part(s, 0, n, i2) ==> line_of(s, i2, t2)
    }),
{
    let k = i.length as int;
    let e = raw_end(span_txt(t), 0);
    lemma_define_step(s, i, t);
    lemma_span_bnd(s, k + e);
    lemma_span_bnd(t2, 0);
    lemma_part_part(s, k, s.length as int, t, e, t.length as int, t2);
    assert(t2.length == t.length - e);
    if t2.length > 0 { assert(span_txt(t2)[0] == span_txt(s)[k + e]); assert(wf_at(span_txt(t2), 0)); }
}
proof fn lemma_define_none(s: BlockSpan, i: BlockSpan, t: BlockSpan)
    requires wf_span(s), line_of(s, i, t), !parses(span_flat(i)), t.length == 0 || define_word(span_flat(t)).0 != DefineLineAction::Append,
    ensures forall|l: DefineLine, rest: Seq<Cell>| !#[trigger] define_reads(span_flat(s), l, rest),
{
    lemma_define_step(s, i, t);
}
proof fn lemma_define_found(s: BlockSpan, i: BlockSpan, t: BlockSpan, x: AstNode)
    requires wf_span(s), line_of(s, i, t), parses_to(span_flat(i), x),
    ensures ({
        let f = span_flat(s);
        let (a, h) = define_word(span_flat(i));
        let ok = a != DefineLineAction::DecreaseNesting || all_ws(txt(h));
        &&& !ok ==> forall|l: DefineLine, rest: Seq<Cell>| !#[trigger] define_reads(f, l, rest)
        &&& ok ==> define_reads(f, DefineLine { action: a, content: x, location: f[0].l }, span_flat(t))
        &&& is_tail(s, s.length - t.length, t)
    }),
{
    let f = span_flat(s);
    let k = i.length as int;
    lemma_span_bnd(s, 0);
    assert(span_flat(t) == tl(f, k));
    assert(span_flat(i) == f.subrange(0, k));
    assert(parses(f.subrange(0, k)));
}
proof fn lemma_define_first(s: BlockSpan, i: BlockSpan, t: BlockSpan)
    requires wf_span(s), wf_span(i), wf_span(t), s.length > 0, raw_end(span_txt(s), 0) >= 0, is_part(s, 0, raw_end(span_txt(s), 0), i), is_part(s, raw_end(span_txt(s), 0), s.length as int, t),
    ensures line_of(s, i, t), span_flat(i).len() > 0, span_flat(i)[0].l == span_flat(s)[0].l,
{
    lemma_span_bnd(s, 0);
    lemma_raw_end(span_txt(s), 0);
}
proof fn lemma_line_of(s: BlockSpan, i: BlockSpan, t: BlockSpan)
    requires line_of(s, i, t),
    ensures wf_span(i), wf_span(t), 0 < i.length <= s.length, t.length <= s.length,
{}
proof fn lemma_ws_all(s: Seq<CB>, j: int)
    requires wf_text(s), 0 <= j < s.len(), forall|x: int| 0 <= x < s.len() && (#[trigger] s[x]).k == 0 ==> is_ws(s[x].c),
    ensures is_ws(s[j].c),
    decreases j
{
    assert(wf_at(s, j));
    if s[j].k != 0 { lemma_ws_all(s, j - 1); }
}
//@fn parsers::variable::parse_define_line
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig fn parse_define_line<'a>(i: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, DefineLine, ParseErrorKind>)
//@spec
    requires wf_span(i), i.length > 0,
    ensures
        r.is_ok() ==> define_reads(span_flat(i), r->Ok_0.1, span_flat(r->Ok_0.0)) && wf_ast(r->Ok_0.1.content) && wf_span(r->Ok_0.0) && is_tail(i, i.length - r->Ok_0.0.length, r->Ok_0.0),
        r.is_err() ==> forall|l: DefineLine, rest: Seq<Cell>| !#[trigger] define_reads(span_flat(i), l, rest),
        r.is_err() ==> err_kind(r->Err_0) == 2,
//@sub `let mut __brk1 = None;` => `let mut __brk1: Option<AstNode> = None;`
//@at start
    hide(raw_end); hide(define_word); hide(skip); hide(define_end); hide(line_of); hide(define_reads); hide(is_tail);
    let ghost i0 = i;
    let ghost f = span_flat(i);
    proof { lemma_span_bnd(i0, 0); }
//@at after `let (mut next_lines, mut i) = take_define_line(start)?;`
    proof { lemma_define_first(i0, i, next_lines); }
//@loop 0
            invariant_except_break __brk1.is_none(),
            invariant
                wf_span(start), start == i0, line_of(i0, i, next_lines), wf_span(i), wf_span(next_lines), next_lines.length <= start.length,
            ensures __brk1.is_some(), parses_to(span_flat(i), __brk1.unwrap()), wf_ast(__brk1.unwrap()),
//@at before `if next_lines.len() == 0`
                    proof { if next_lines.length == 0 || define_word(span_flat(next_lines)).0 != DefineLineAction::Append { lemma_define_none(i0, i, next_lines); } }
                    let ghost t0 = next_lines;
//@at before `i = start.slice_to(`
                    proof { lemma_define_next(i0, i, t0, next_lines); }
//@at after `i = start.slice_to(start.len() - next_lines.len());`
                    proof { lemma_line_of(i0, i, next_lines); }
//@at before `let (i, action) = define_keyword(i)?;`
    proof { lemma_define_found(i0, i, next_lines, ast); }
    let ghost piece = i;
//@at before `let (i, _) = {`
    let ghost h = i;
    proof { lemma_span_bnd(h, 0); }
//@at before `if action == DefineLineAction`
    proof {
        lemma_span_bnd(i, 0);
        let s = span_txt(h);
        assert forall|j: int| 0 <= j < s.len() implies (s[j].k == 0 || #[trigger] s[j].c == s[j - 1].c) by { assert(wf_at(s, j)); }
        if i.length > 0 { let j = h.length - i.length; assert(s[j] == span_txt(i)[0]); assert(!is_ws(s[j].c)); }
        else { assert forall|j: int| 0 <= j < s.len() implies is_ws((#[trigger] s[j]).c) by { lemma_ws_all(s, j); } }
        assert(all_ws(s) <==> i.length == 0);
    }
//@end
/// i is the front of s that has been taken, t what follows it
spec fn line_of(s: BlockSpan, i: BlockSpan, t: BlockSpan) -> bool {
    let f = span_flat(s);
    &&& wf_span(i) && wf_span(t) && 0 < i.length <= s.length && i.length + t.length == s.length && is_part(s, 0, i.length as int, i) && is_part(s, i.length as int, s.length as int, t)
    &&& define_end(f, raw_end(txt(f), 0)) == define_end(f, i.length as int)
}
