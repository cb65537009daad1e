// Lines and the tokens on them: backslash quoting (C12), logical lines (C13).
//@type ::ParseErrorKind
//@end
//@type parsers::LineEndReason
//@attr #[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@end
//@type parsers::ParserCompliance
//@attr #[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@end
/// std::io::ErrorKind
#[verifier::external_body]
pub struct IoErrorKind { k: u8 }

/// which kind of error: recoverable or not
pub open spec fn err_kind<I, E>(e: Err<I, E>) -> int {
    match e { Err::Incomplete(_) => 0, Err::Error(_) => 1, Err::Failure(_) => 2 }
}
/// the code nom's into_error_kind finds in an error
pub open spec fn err_code<I, E>(e: Err<I, E>) -> ErrorKind<E> {
    match e {
        Err::Incomplete(_) => ErrorKind::Complete,
        Err::Error(c) | Err::Failure(c) => match c { Context::Code(_, k) => k, Context::List(v) => v@[0].1 },
    }
}
/// nom's conversion of the error codes of an error
#[verifier::external_body]
pub fn nom_convert_err<I, E>(e: Err<I, E>) -> (r: Err<I, ParseErrorKind>)
    ensures err_kind(r) == err_kind(e), !(err_code(e) is Custom) ==> !(err_code(r) is Custom),
{ unimplemented!() }

// ---------------------------------------------------------------- the single characters the parser adds
pub open spec fn one_cell(c: char) -> Seq<Cell> { seq![Cell { b: CB { c, k: 0 }, l: Location::Synthetic }] }
pub proof fn lemma_lit1(c: char)
    requires w(c) == 1,
    ensures lit_bytes(seq![c]) == seq![CB { c, k: 0 }], cbytes(c) == seq![CB { c, k: 0 }],
{
    assert(seq![c].drop_last() =~= Seq::empty());
    assert(lit_bytes(seq![c].drop_last()) =~= Seq::empty());
    assert(cbytes(c) =~= seq![CB { c, k: 0 }]);
    assert(lit_bytes(seq![c]) =~= seq![CB { c, k: 0 }]);
}
pub proof fn lemma_lit2(c: char, d: char)
    requires w(c) == 1, w(d) == 1,
    ensures lit_bytes(seq![c, d]) == seq![CB { c, k: 0 }, CB { c: d, k: 0 }],
{
    assert(seq![c, d].drop_last() =~= seq![c]);
    lemma_lit1(c);
    lemma_lit1(d);
    assert(lit_bytes(seq![c, d]) =~= seq![CB { c, k: 0 }, CB { c: d, k: 0 }]);
}
//@props C02 C13
//@fn source_location::From<Location> for Marker::from as marker_from
//@impl impl Marker
//@spec
    ensures r.inner == loc,
//@end
//@fn evaluated::nodes::__Deref for WHITESPACE::deref/__static_ref_initialize as whitespace_init
//@sub `Location::Synthetic.into()` => `Marker::marker_from(Location::Synthetic)`
//@sub `lit(" ").into()` => `txt_to_owned(lit(" "))`
//@spec
    ensures wf_node(*r), node_flat(*r) == one_cell(' '),
//@at start
    proof { reveal_strlit(" "); lemma_lit1(' '); assert(" "@ =~= seq![' ']); assert(locate(seq![CB { c: ' ', k: 0 }], Location::Synthetic) =~= one_cell(' ')); }
//@end
//@fn evaluated::nodes::__Deref for NEWLINE::deref/__static_ref_initialize as newline_init
//@sub `Location::Synthetic.into()` => `Marker::marker_from(Location::Synthetic)`
//@sub `lit("\n").into()` => `txt_to_owned(lit("\n"))`
//@spec
    ensures wf_node(*r), node_flat(*r) == one_cell('\n'),
//@at start
    proof { reveal_strlit("\n"); lemma_lit1('\n'); assert("\n"@ =~= seq!['\n']); assert(locate(seq![CB { c: '\n', k: 0 }], Location::Synthetic) =~= one_cell('\n')); }
//@end
//@fn evaluated::nodes::__Deref for SEMICOLON::deref/__static_ref_initialize as semicolon_init
//@sub `Location::Synthetic.into()` => `Marker::marker_from(Location::Synthetic)`
//@sub `lit(";").into()` => `txt_to_owned(lit(";"))`
//@spec
    ensures wf_node(*r), node_flat(*r) == one_cell(';'),
//@at start
    proof { reveal_strlit(";"); lemma_lit1(';'); assert(";"@ =~= seq![';']); assert(locate(seq![CB { c: ';', k: 0 }], Location::Synthetic) =~= one_cell(';')); }
//@end
// lazy_static: what is read is what the initialiser returned
#[verifier::external_body]
pub fn static_whitespace() -> (r: &'static Arc<EvaluatedNode>)
    ensures wf_node(**r), node_flat(**r) == one_cell(' '),
{ unimplemented!() }
#[verifier::external_body]
pub fn static_newline() -> (r: &'static Arc<EvaluatedNode>)
    ensures wf_node(**r), node_flat(**r) == one_cell('\n'),
{ unimplemented!() }
#[verifier::external_body]
pub fn static_semicolon() -> (r: &'static Arc<EvaluatedNode>)
    ensures wf_node(**r), node_flat(**r) == one_cell(';'),
{ unimplemented!() }
//@fn evaluated::nodes::EvaluatedNode::space
//@sub `&WHITESPACE` => `static_whitespace()`
//@spec
    ensures wf_node(*r), node_flat(*r) == one_cell(' '),
//@end
//@fn evaluated::nodes::EvaluatedNode::newline
//@sub `&NEWLINE` => `static_newline()`
//@spec
    ensures wf_node(*r), node_flat(*r) == one_cell('\n'),
//@end
//@fn evaluated::nodes::EvaluatedNode::semicolon
//@sub `&SEMICOLON` => `static_semicolon()`
//@spec
    ensures wf_node(*r), node_flat(*r) == one_cell(';'),
//@end
pub proof fn lemma_one_ref(r: ContentReference, c: char)
    requires wf_node(*r.node), node_flat(*r.node) == one_cell(c), r.offset == 0, r.length == 1,
    ensures wf_ref(r), ref_flat(r) == one_cell(c),
{
    lemma_wf_node(ad(r.node));
    assert(ref_flat(r) =~= one_cell(c));
    assert(wf_at(txt(node_flat(*r.node)), 0));
}
//@fn evaluated::content_reference::ContentReference::space
//@spec
    ensures wf_ref(r), ref_flat(r) == one_cell(' '), r.length == 1,
//@at start
    proof { assert forall|r: ContentReference, c: char| #![trigger wf_ref(r), one_cell(c)] wf_node(*r.node) && node_flat(*r.node) == one_cell(c) && r.offset == 0 && r.length == 1 implies wf_ref(r) && ref_flat(r) == one_cell(c) by { lemma_one_ref(r, c); } }
//@end
//@fn evaluated::content_reference::ContentReference::newline
//@spec
    ensures wf_ref(r), ref_flat(r) == one_cell('\n'), r.length == 1,
//@at start
    proof { assert forall|r: ContentReference, c: char| #![trigger wf_ref(r), one_cell(c)] wf_node(*r.node) && node_flat(*r.node) == one_cell(c) && r.offset == 0 && r.length == 1 implies wf_ref(r) && ref_flat(r) == one_cell(c) by { lemma_one_ref(r, c); } }
//@end
//@fn evaluated::content_reference::ContentReference::semicolon
//@spec
    ensures wf_ref(r), ref_flat(r) == one_cell(';'), r.length == 1,
//@at start
    proof { assert forall|r: ContentReference, c: char| #![trigger wf_ref(r), one_cell(c)] wf_node(*r.node) && node_flat(*r.node) == one_cell(c) && r.offset == 0 && r.length == 1 implies wf_ref(r) && ref_flat(r) == one_cell(c) by { lemma_one_ref(r, c); } }
//@end

// ---------------------------------------------------------------- backslashes
/// how many backslashes stand directly before i
pub open spec fn slashes(s: Seq<CB>, i: int) -> int
    decreases i
{
    if 0 < i <= s.len() && s[i - 1].c == '\\' { 1 + slashes(s, i - 1) } else { 0 }
}
pub proof fn lemma_slashes(s: Seq<CB>, i: int)
    requires 0 <= i <= s.len(),
    ensures 0 <= slashes(s, i) <= i, forall|j: int| i - slashes(s, i) <= j < i ==> (#[trigger] s[j]).c == '\\',
        slashes(s, i) < i ==> s[i - slashes(s, i) - 1].c != '\\',
    decreases i
{
    if 0 < i && s[i - 1].c == '\\' { lemma_slashes(s, i - 1); }
}
/// inside of a run of backslashes every position is a boundary
pub proof fn lemma_run_bnd(s: Seq<CB>, i: int, j: int)
    requires wf_text(s), 0 <= i <= s.len(), bnd(s, i), i - slashes(s, i) <= j <= i,
    ensures bnd(s, j), 0 <= j,
{
    lemma_slashes(s, i);
    if j < i { assert(wf_at(s, j)); }
}
//@props C13
//@fn parsers::ends_with_backslash
//@spec
    requires wf_span(s),
    ensures r == slashes(span_txt(s), s.length as int),
//@at start
    let ghost t = span_txt(s);
    proof { lemma_span_bnd(s, 0); assert(t.subrange(0, t.len() as int) =~= t); }
//@at before `while let`
        let ghost mut p = 0int;
//@loop 0
            invariant wf_text(t), wf_text(t.subrange(p, t.len() as int)), t.len() <= cap(), wf_si(__it1), 0 <= p <= t.len(), si_rem(__it1) == t.subrange(p, t.len() as int), backslash_count == slashes(t, p), backslash_count <= p,
            ensures backslash_count == slashes(t, t.len() as int),
//@at loopstart 0
            proof {
                let q = p + w(c);
                let before = t.subrange(p, t.len() as int);
                lemma_next_char(before, si_rem(__it1), Some(c));
                assert(t[p] == before[0]);
                assert(before.subrange(0, w(c))[w(c) - 1] == cbytes(c)[w(c) - 1]);
                assert(t[q - 1] == before[w(c) - 1]);
                assert(si_rem(__it1) =~= t.subrange(q, t.len() as int));
                if c == '\\' { assert(q == p + 1); }
                p = q;
            }
//@end

// ---------------------------------------------------------------- quoting
/// the first n backslashes of a run halved: what remains of t when the backslashes it ends in are halved
pub open spec fn halve(t: Seq<Cell>, n: int) -> Seq<Cell> { t.subrange(0, t.len() - (n - n / 2)) }
/// is there a quoted special character at i?
pub open spec fn is_stop(f: Seq<Cell>, stop: spec_fn(char) -> bool, i: int) -> bool { f[i].b.k == 0 && stop(f[i].b.c) }
/// the text of the first i bytes, given that the special characters in it are quoted
pub open spec fn unquoted(f: Seq<Cell>, stop: spec_fn(char) -> bool, i: int) -> Seq<Cell>
    decreases i
{
    if i <= 0 || i > f.len() { Seq::empty() }
    else if is_stop(f, stop, i - 1) { halve(unquoted(f, stop, i - 1), slashes(txt(f), i - 1)).push(f[i - 1]) }
    else { unquoted(f, stop, i - 1).push(f[i - 1]) }
}
/// all special characters before i are quoted
pub open spec fn all_quoted(f: Seq<Cell>, stop: spec_fn(char) -> bool, i: int) -> bool {
    forall|j: int| 0 <= j < i && j < f.len() && #[trigger] is_stop(f, stop, j) ==> slashes(txt(f), j) % 2 == 1
}
/// the predicate is q, and backslash is not special
pub open spec fn decides<P: Fn(char) -> bool>(p: P, q: spec_fn(char) -> bool) -> bool {
    &&& forall|c: char| #[trigger] p.requires((c,))
    &&& forall|c: char, b: bool| #[trigger] p.ensures((c,), b) ==> b == q(c)
    &&& !q('\\')
}
pub open spec fn same_set(p: spec_fn(char) -> bool, q: spec_fn(char) -> bool) -> bool { forall|c: char| #[trigger] p(c) == q(c) }
/// the special character at p is the first unquoted one: what precedes it, itself, and what follows it
pub open spec fn found_at(i: BlockSpan, stop: spec_fn(char) -> bool, text: Seq<Cell>, ch: BlockSpan, rest: BlockSpan, p: int) -> bool {
    let f = span_flat(i);
    &&& 0 <= p < i.length && is_stop(f, stop, p) && slashes(txt(f), p) % 2 == 0 && all_quoted(f, stop, p)
    &&& text == halve(unquoted(f, stop, p), slashes(txt(f), p))
    &&& is_part(i, p, p + w(f[p].b.c), ch) && is_part(i, p + w(f[p].b.c), i.length as int, rest)
}
/// the end of the text counts as special (when NUL does)
pub open spec fn found_end(i: BlockSpan, stop: spec_fn(char) -> bool, text: Seq<Cell>, ch: BlockSpan, rest: BlockSpan) -> bool {
    let f = span_flat(i);
    &&& stop('\0') && all_quoted(f, stop, i.length as int) && slashes(txt(f), i.length as int) % 2 == 0
    &&& text == halve(unquoted(f, stop, i.length as int), slashes(txt(f), i.length as int))
    &&& is_part(i, i.length as int, i.length as int, rest) && wf_span(ch)
}
/// what is kept of a text that ends in a quoted end
pub open spec fn quoted_end(f: Seq<Cell>, stop: spec_fn(char) -> bool) -> Seq<Cell> {
    let n = f.len() as int;
    let u = unquoted(f, stop, n);
    if any_stop(f, stop, n) { u.subrange(0, u.len() - slashes(txt(f), n) / 2) } else { f }
}
pub open spec fn any_stop(f: Seq<Cell>, stop: spec_fn(char) -> bool, i: int) -> bool { exists|j: int| 0 <= j < i && j < f.len() && #[trigger] is_stop(f, stop, j) }
pub open spec fn unquote_result(i: BlockSpan, stop: spec_fn(char) -> bool, text: Seq<Cell>, r: Option<(BlockSpan, BlockSpan)>) -> bool {
    let f = span_flat(i);
    match r {
        Some((ch, rest)) => found_end(i, stop, text, ch, rest) || found_at(i, stop, text, ch, rest, i.length - rest.length - ch.length),
        None => all_quoted(f, stop, i.length as int) && if stop('\0') { slashes(txt(f), i.length as int) % 2 == 1 && text == quoted_end(f, stop) } else { text == unquoted(f, stop, i.length as int) },
    }
}
proof fn lemma_unq_step(f: Seq<Cell>, stop: spec_fn(char) -> bool, i: int, j: int)
    requires 0 <= i <= j <= f.len(), forall|x: int| i <= x < j ==> !#[trigger] is_stop(f, stop, x),
    ensures unquoted(f, stop, j) == unquoted(f, stop, i) + f.subrange(i, j),
    decreases j
{
    if j > i {
        lemma_unq_step(f, stop, i, j - 1);
        assert(!is_stop(f, stop, j - 1));
        assert(f.subrange(i, j) =~= f.subrange(i, j - 1).push(f[j - 1]));
        assert(unquoted(f, stop, j) =~= unquoted(f, stop, i) + f.subrange(i, j));
    } else {
        assert(unquoted(f, stop, j) =~= unquoted(f, stop, i) + f.subrange(i, j));
    }
}
/// passing the character c at i that ends at j
proof fn lemma_slash_step(s: Seq<CB>, i: int, c: char)
    requires 0 <= i, i + w(c) <= s.len(), s.subrange(i, i + w(c)) == cbytes(c),
    ensures slashes(s, i + w(c)) == (if c == '\\' { slashes(s, i) + 1 } else { 0 }),
{
    assert(s.subrange(i, i + w(c))[w(c) - 1] == cbytes(c)[w(c) - 1]);
    assert(s[i + w(c) - 1].c == c);
}
/// dropping the second half of the backslashes that end a piece
proof fn lemma_halve(a: Seq<Cell>, f: Seq<Cell>, i: int, j: int, n: int)
    requires 0 <= n, 0 <= i, i + n <= j <= f.len(),
    ensures halve(a + f.subrange(i, j), n) == a + f.subrange(i, j - (n - n / 2)),
{
    assert(halve(a + f.subrange(i, j), n) =~= a + f.subrange(i, j - (n - n / 2)));
}
proof fn lemma_quote_start(f: Seq<Cell>, stop: spec_fn(char) -> bool)
    ensures unquoted(f, stop, 0) == Seq::<Cell>::empty(), slashes(txt(f), 0) == 0, all_quoted(f, stop, 0),
{ }
/// one step of the search: the character c stands at h, t0 and the text from nx are what came before
#[verifier::spinoff_prover]
proof fn lemma_quote_step(i: BlockSpan, stop: spec_fn(char) -> bool, h: int, c: char, t0: Seq<Cell>, nx: int)
    requires
        wf_span(i), !stop('\\'), 0 <= h < i.length, span_txt(i)[h] == (CB { c, k: 0 }), h + w(c) <= i.length,
        span_txt(i).subrange(h, h + w(c)) == cbytes(c), forall|j: int| h < j < h + w(c) ==> (#[trigger] span_txt(i)[j]).k != 0,
        0 <= nx, nx + slashes(span_txt(i), h) <= h, t0 + span_flat(i).subrange(nx, h) == unquoted(span_flat(i), stop, h), all_quoted(span_flat(i), stop, h),
    ensures ({
        let f = span_flat(i);
        let s = span_txt(i);
        let sl = slashes(s, h);
        let e = h + w(c);
        &&& 0 <= sl <= h && bnd(s, h) && bnd(s, h - (sl - sl / 2)) && s == txt(f) && f.len() == i.length
        &&& slashes(s, e) == (if c == '\\' { sl + 1 } else { 0 })
        &&& !stop(c) ==> unquoted(f, stop, e) == t0 + f.subrange(nx, e) && all_quoted(f, stop, e)
        &&& stop(c) ==> is_stop(f, stop, h) && c != '\\' && halve(unquoted(f, stop, h), sl) == t0 + f.subrange(nx, h - (sl - sl / 2))
        &&& any_stop(f, stop, e) == (any_stop(f, stop, h) || stop(c))
        &&& stop(c) && sl % 2 == 1 ==> unquoted(f, stop, e) == (t0 + f.subrange(nx, h - (sl - sl / 2))) + f.subrange(h, e) && all_quoted(f, stop, e)
    }),
{
    let f = span_flat(i);
    let s = span_txt(i);
    let sl = slashes(s, h);
    let e = h + w(c);
    lemma_span_bnd(i, 0);
    lemma_slashes(s, h);
    lemma_slash_step(s, h, c);
    assert(f[h].b == s[h]);
    assert forall|x: int| h < x < e implies !#[trigger] is_stop(f, stop, x) by { assert(f[x].b == s[x]); }
    lemma_unq_step(f, stop, h + 1, e);
    lemma_halve(t0, f, nx, h, sl);
    lemma_run_bnd(s, h, h - (sl - sl / 2));
    assert(f.subrange(h, e) =~= seq![f[h]] + f.subrange(h + 1, e));
    let u1 = unquoted(f, stop, h + 1);
    if stop(c) {
        assert(is_stop(f, stop, h));
        assert(u1 == halve(unquoted(f, stop, h), sl).push(f[h]));
        assert(u1 + f.subrange(h + 1, e) =~= (t0 + f.subrange(nx, h - (sl - sl / 2))) + f.subrange(h, e));
    }
    if !stop(c) {
        assert(!is_stop(f, stop, h));
        assert(u1 == unquoted(f, stop, h).push(f[h]));
        assert(u1 + f.subrange(h + 1, e) =~= t0 + f.subrange(nx, e));
    }
}
//@props C12 C07 C15 C02 C06
//@fn parsers::makefile_take_until_unquote
//@sig fn makefile_take_until_unquote<'a, F>(i: BlockSpan<'a>, stop: F, Ghost(q): Ghost<spec_fn(char) -> bool>) -> (r: (Arc<Block>, Option<(BlockSpan<'a>, BlockSpan<'a>)>)) where F: Fn(char) -> bool
//@sub `let mut stop_character = None;` => `let mut stop_character: Option<BlockSpan<'a>> = None;`
//@sub `let mut last_nonslash_idx = - 1;` => `let mut last_nonslash_idx: isize = -1;`
//@sub `let mut next_push_start = 0;` => `let mut next_push_start: usize = 0;`
//@sub `slash_count.checked_div(2).unwrap()` => `isize_half(slash_count)`
//@sub `slash_count % 2` => `isize_rem2(slash_count)`
//@spec
    requires wf_span(i), decides(stop, q),
    ensures wf_block(*r.0), unquote_result(i, q, block_flat(*r.0), r.1), block_flat(*r.0).len() <= i.length,
        forall|q2: spec_fn(char) -> bool| same_set(q2, q) ==> #[trigger] unquote_result(i, q2, block_flat(*r.0), r.1),
        i.length > 0 ==> r.0.sensitivity@ == i.parent.sensitivity@,
//@at start
    hide(unquoted); hide(slashes); hide(halve);
    let ghost f = span_flat(i);
    let ghost s = span_txt(i);
    let ghost n = i.length as int;
    proof {
        assert forall|q2: spec_fn(char) -> bool| #[trigger] same_set(q2, q) implies q2 == q by { assert(q2 =~= q); }
        lemma_span_bnd(i, 0);
        assert(s.subrange(0, s.len() as int) =~= s);
        assert(f.subrange(0, f.len() as int) =~= f);
    }
//@at before `while let`
        let ghost mut g = __it1;
        proof {
            assert(block_flat(*tr) =~= Seq::empty());
            lemma_quote_start(f, q);
            assert(block_flat(*tr) + f.subrange(0, 0) =~= unquoted(f, q, 0));
        }
//@loop 0
            invariant_except_break
                walk(s, __it1), g == __it1, stopchar_index == n + 1, block_flat(*tr).len() <= next_push_start,
                last_nonslash_idx == __it1.head - slashes(s, __it1.head as int) - 1,
                next_push_start + slashes(s, __it1.head as int) <= __it1.head,
                block_flat(*tr) + f.subrange(next_push_start as int, __it1.head as int) == unquoted(f, q, __it1.head as int),
                all_quoted(f, q, __it1.head as int),
                !stopchar_seen ==> next_push_start == 0 && block_flat(*tr).len() == 0,
                stopchar_seen == any_stop(f, q, __it1.head as int),
            invariant
                wf_span(i), decides(stop, q), !q('\\'), f == span_flat(i), s == span_txt(i), n == i.length, f.len() == n, s.len() == n, n <= cap(), wf_text(s),
                s.subrange(0, n) == s, f.subrange(0, n) == f,
                wf_block(*tr), tr.sensitivity@ =~= i.parent.sensitivity@, bnd(s, next_push_start as int), block_flat(*tr).len() <= n,
                stop_character.is_some() ==> wf_span(stop_character.unwrap()),
            ensures
                stopchar_index == n + 1 ==> {
                    &&& block_flat(*tr).len() <= next_push_start
                    &&& last_nonslash_idx == n - slashes(s, n) - 1 && next_push_start + slashes(s, n) <= n
                    &&& block_flat(*tr) + f.subrange(next_push_start as int, n) == unquoted(f, q, n) && all_quoted(f, q, n)
                    &&& !stopchar_seen ==> next_push_start == 0 && block_flat(*tr).len() == 0
                    &&& stopchar_seen == any_stop(f, q, n)
                },
                stopchar_index != n + 1 ==> stop_character.is_some() && 0 <= stopchar_index < n && is_stop(f, q, stopchar_index as int)
                    && slashes(s, stopchar_index as int) % 2 == 0 && all_quoted(f, q, stopchar_index as int)
                    && block_flat(*tr) == halve(unquoted(f, q, stopchar_index as int), slashes(s, stopchar_index as int))
                    && is_part(i, stopchar_index as int, stopchar_index + w(s[stopchar_index as int].c), stop_character.unwrap())
                    && bnd(s, stopchar_index + w(s[stopchar_index as int].c)),
//@at loopstart 0
                let ghost h = idx as int;
                let ghost sl = slashes(s, h);
                let ghost t0 = block_flat(ad(tr));
                let ghost nx = next_push_start as int;
                proof {
                    lemma_walk(s, g, __it1, idx, ch);
                    g = __it1;
                    lemma_quote_step(i, q, h, ch, t0, nx);
                }
//@at loopend 0
                proof {
                    if q(ch) { assert(f.subrange(next_push_start as int, h + w(ch)) =~= f.subrange(h, h + w(ch))); }
                }
//@at before `let post_index`
        proof { assert(f[stopchar_index as int].b == s[stopchar_index as int]); }
//@at before `if stop('\0')`
    let ghost t1 = block_flat(ad(tr));
    let ghost nx1 = next_push_start as int;
    let ghost sn = slashes(s, n);
    proof {
        lemma_slashes(s, n);
        if stopchar_index == n + 1 {
            lemma_halve(t1, f, nx1, n, sn);
            lemma_run_bnd(s, n, n - sn / 2);
            lemma_run_bnd(s, n, n - (sn - sn / 2));
            assert((t1 + f.subrange(nx1, n)).subrange(0, (t1 + f.subrange(nx1, n)).len() - sn / 2) =~= t1 + f.subrange(nx1, n - sn / 2));
            assert((t1 + f.subrange(nx1, n - sn / 2)) + f.subrange(n, n) =~= t1 + f.subrange(nx1, n - sn / 2));
            if !stopchar_seen { assert(t1 =~= Seq::empty()); assert(unquoted(f, q, n) =~= f); }
        }
    }
//@end
#[verifier::external_body]
pub fn isize_half(n: isize) -> (r: isize)
    requires n >= 0,
    ensures r == n / 2,
{ n.checked_div(2).unwrap() }
#[verifier::external_body]
pub fn isize_rem2(n: isize) -> (r: isize)
    requires n >= 0,
    ensures r == n % 2,
{ n % 2 }
