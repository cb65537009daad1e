//@props C13
pub broadcast proof fn lemma_and1(x: usize)
    ensures #[trigger] (x & 1) == x % 2,
{ assert(x & 1 == x % 2) by (bit_vector); }

/// the end of s[..e] without trailing blanks
pub open spec fn trim_end(s: Seq<CB>, e: int) -> int
    decreases e
{
    if 0 < e <= s.len() && is_blank(s[e - 1].c) { trim_end(s, e - 1) } else { e }
}
pub proof fn lemma_trim(s: Seq<CB>, e: int)
    requires wf_text(s), 0 <= e <= s.len(), bnd(s, e),
    ensures 0 <= trim_end(s, e) <= e, bnd(s, trim_end(s, e)),
    decreases e
{
    if 0 < e && is_blank(s[e - 1].c) { assert(wf_at(s, e - 1)); lemma_trim(s, e - 1); }
}
/// what is kept of a line that ends in backslashes and is continued
pub open spec fn clean_len(s: Seq<CB>, posix: bool) -> int {
    let n = slashes(s, s.len() as int);
    if n == 1 { if posix { s.len() - 1 } else { trim_end(s, s.len() - 1) } } else { s.len() - n + n / 2 }
}
pub proof fn lemma_clean(s: Seq<CB>, posix: bool)
    requires wf_text(s), slashes(s, s.len() as int) % 2 == 1,
    ensures 0 <= clean_len(s, posix) < s.len(), bnd(s, clean_len(s, posix)), bnd(s, s.len() - 1),
{
    let n = slashes(s, s.len() as int);
    lemma_slashes(s, s.len() as int);
    lemma_run_bnd(s, s.len() as int, s.len() - 1);
    lemma_run_bnd(s, s.len() as int, s.len() - n + n / 2);
    lemma_trim(s, s.len() - 1);
}
pub proof fn lemma_trim_sub(s: Seq<CB>, m: int, e: int)
    requires 0 <= e <= m <= s.len(),
    ensures trim_end(s.subrange(0, m), e) == trim_end(s, e),
    decreases e
{
    if 0 < e { assert(s.subrange(0, m)[e - 1] == s[e - 1]); lemma_trim_sub(s, m, e - 1); }
}
//@fn parsers::makefile_line/clean_line_end
//@sub `let mut line_end = 0;` => `let mut line_end: usize = 0;`
//@spec
    requires wf_span(*old(s)), backslash_count == slashes(span_txt(*old(s)), old(s).length as int), backslash_count % 2 == 1,
    ensures is_part(*old(s), 0, clean_len(span_txt(*old(s)), whitespace_handling == ParserCompliance::POSIX), *final(s)),
//@at start
    let ghost t = span_txt(*s);
    let ghost n = s.length as int;
    let ghost s0 = *s;
    proof { lemma_span_bnd(*s, 0); lemma_clean(t, whitespace_handling == ParserCompliance::POSIX); lemma_slashes(t, n); lemma_joins(*s); }
//@at before `let mut line_end`
                let ghost u = span_txt(line);
                proof {
                    lemma_span_bnd(line, 0);
                    lemma_txt_sub(span_flat(s0), 0, n - 1);
                    assert(u == t.subrange(0, n - 1));
                    lemma_trim_sub(t, n - 1, n - 1);
                    assert(u.subrange(0, u.len() as int) =~= u);
                }
//@at before `while let`
                    let ghost mut g = __it1;
//@loop 0
                        invariant_except_break walk(u, __it1), g == __it1, line_end == trim_end(u, __it1.head as int), line_end <= __it1.head, bnd(u, line_end as int),
                        invariant u == span_txt(line), wf_span(line), u.len() == n - 1, u.len() == line.length, u == t.subrange(0, n - 1),
                        ensures line_end == trim_end(u, n - 1), line_end <= n - 1, bnd(u, line_end as int),
//@at loopstart 0
                            proof {
                                lemma_walk(u, g, __it1, i, c);
                                g = __it1;
                                let e = i + w(c);
                                assert(u.subrange(i as int, e)[w(c) - 1] == cbytes(c)[w(c) - 1]);
                                assert(u[e - 1].c == c);
                            }
//@at before `line.slice_to(line_end)`
                proof {
                    assert forall|p: BlockSpan| #[trigger] is_part(line, 0, line_end as int, p) implies is_part(s0, 0, line_end as int, p) by { lemma_part_part(s0, 0, n - 1, line, 0, line_end as int, p); }
                }
//@end

// ---------------------------------------------------------------- logical lines
/// a continued line from the next physical line on: the text it adds, and what follows the logical line
#[verifier::opaque]
pub open spec fn continued(f: Seq<Cell>, reason: LineEndReason, space: bool, strip: bool, posix: bool) -> (Seq<Cell>, Seq<Cell>)
    decreases f.len()
{
    let f1 = f.subrange(skip(txt(f), 0), f.len() as int);
    let line = f1.subrange(0, line_end(txt(f1)));
    let rest = f1.subrange(line_rest(txt(f1)), f1.len() as int);
    let sep = if reason == LineEndReason::Comment || (space && !strip) { one_cell(' ') } else { Seq::empty() };
    if slashes(txt(line), line.len() as int) % 2 == 0 || rest.len() >= f.len() {
        (sep + line, rest)
    } else {
        let kept = line.subrange(0, clean_len(txt(line), posix));
        let more = continued(rest, line_reason(txt(f1)), kept.len() > 0, strip && kept.len() == 0, posix);
        ((sep + kept) + more.0, more.1)
    }
}
/// the first logical line of f and what follows it
pub open spec fn logical(f: Seq<Cell>, strip: bool, posix: bool) -> (Seq<Cell>, Seq<Cell>) {
    let f1 = if strip { f.subrange(skip(txt(f), 0), f.len() as int) } else { f };
    let line = f1.subrange(0, line_end(txt(f1)));
    let rest = f1.subrange(line_rest(txt(f1)), f1.len() as int);
    if slashes(txt(line), line.len() as int) % 2 == 0 {
        (line, rest)
    } else {
        let kept = line.subrange(0, clean_len(txt(line), posix));
        let more = continued(rest, line_reason(txt(f1)), true, strip && kept.len() == 0, posix);
        (kept + more.0, more.1)
    }
}
/// t is the tail of i that starts at a
pub open spec fn is_tail(i: BlockSpan, a: int, t: BlockSpan) -> bool { 0 <= a <= i.length && is_part(i, a, i.length as int, t) }
/// what grabbing a line from a tail of i gives
pub proof fn lemma_grabbed(i: BlockSpan, t: BlockSpan, line: BlockSpan, rest: BlockSpan)
    requires wf_span(i), wf_span(t), is_tail(i, i.length - t.length, t),
        is_part(t, 0, line_end(span_txt(t)), line), is_part(t, line_rest(span_txt(t)), t.length as int, rest), 0 <= line_end(span_txt(t)) <= line_rest(span_txt(t)) <= t.length,
    ensures
        is_tail(i, i.length - rest.length, rest), is_part(i, i.length - t.length, i.length - t.length + line.length, line),
        span_flat(line) == span_flat(t).subrange(0, line_end(span_txt(t))), span_flat(rest) == span_flat(t).subrange(line_rest(span_txt(t)), t.length as int),
        span_flat(t).len() == t.length, span_txt(line) == txt(span_flat(line)), wf_text(span_txt(line)), span_flat(line).len() == line.length, span_flat(rest).len() == rest.length,
        line.length + rest.length <= t.length, span_flat(t) == span_flat(i).subrange(i.length - t.length, i.length as int),
        line_reason(span_txt(t)) == LineEndReason::Comment ==> rest.length > 0 && txt(span_flat(rest))[0].c == '#',
{
    let a = i.length - t.length;
    lemma_span_bnd(t, 0);
    lemma_span_bnd(line, 0);
    lemma_span_bnd(rest, 0);
    lemma_part_part(i, a, i.length as int, t, 0, line_end(span_txt(t)), line);
    lemma_part_part(i, a, i.length as int, t, line_rest(span_txt(t)), t.length as int, rest);
    lemma_line_stop(span_txt(t), 0);
}
/// a text that starts with a comment has an empty first line
pub proof fn lemma_comment_line(s: Seq<CB>)
    requires s.len() > 0, s[0].c == '#',
    ensures skip(s, 0) == 0, line_stop(s, 0) == 0, line_end(s) == 0,
{ }
/// what is kept of a line
pub proof fn lemma_kept(line: BlockSpan, posix: bool)
    requires wf_span(line), slashes(span_txt(line), line.length as int) % 2 == 1,
    ensures ({
        let t = span_txt(line);
        let n = clean_len(t, posix);
        0 <= n < line.length && forall|p: BlockSpan| #[trigger] is_part(line, 0, n, p) ==> span_flat(p) == span_flat(line).subrange(0, n) && p.length == n
    }),
{
    lemma_span_bnd(line, 0);
    lemma_clean(span_txt(line), posix);
}
/// a tail of i without its leading blanks
pub proof fn lemma_skipped(i: BlockSpan, t: BlockSpan, o: BlockSpan)
    requires wf_span(i), wf_span(t), is_tail(i, i.length - t.length, t), is_part(t, skip(span_txt(t), 0), t.length as int, o), 0 <= skip(span_txt(t), 0) <= t.length,
    ensures is_tail(i, i.length - o.length, o), span_flat(o) == span_flat(t).subrange(skip(span_txt(t), 0), t.length as int), o.length <= t.length, wf_span(o),
        span_flat(t).len() == t.length,
{
    lemma_span_bnd(t, 0);
    lemma_part_part(i, i.length - t.length, i.length as int, t, skip(span_txt(t), 0), t.length as int, o);
}
/// one step over a continued line, after l
pub proof fn lemma_continued(l: Seq<Cell>, f: Seq<Cell>, reason: LineEndReason, space: bool, strip: bool, posix: bool, g: Seq<Cell>, line: Seq<Cell>, rest: Seq<Cell>, sep: Seq<Cell>)
    requires
        g == f.subrange(skip(txt(f), 0), f.len() as int), line == g.subrange(0, line_end(txt(g))), rest == g.subrange(line_rest(txt(g)), g.len() as int),
        sep == if reason == LineEndReason::Comment || (space && !strip) { one_cell(' ') } else { Seq::<Cell>::empty() },
        line.len() + rest.len() <= f.len(),
    ensures
        slashes(txt(line), line.len() as int) % 2 == 0 ==> ({
            let c = continued(f, reason, space, strip, posix);
            l + c.0 == (l + sep) + line && c.1 == rest
        }),
        slashes(txt(line), line.len() as int) % 2 == 1 && line.len() > 0 ==> ({
            let c = continued(f, reason, space, strip, posix);
            let kept = line.subrange(0, clean_len(txt(line), posix));
            let more = continued(rest, line_reason(txt(g)), kept.len() > 0, strip && kept.len() == 0, posix);
            l + c.0 == ((l + sep) + kept) + more.0 && c.1 == more.1
        }),
{
    reveal_with_fuel(continued, 2);
    let c = continued(f, reason, space, strip, posix);
    let kept = line.subrange(0, clean_len(txt(line), posix));
    let more = continued(rest, line_reason(txt(g)), kept.len() > 0, strip && kept.len() == 0, posix);
    if slashes(txt(line), line.len() as int) % 2 == 0 {
        assert(l + (sep + line) =~= (l + sep) + line);
    } else {
        assert(l + ((sep + kept) + more.0) =~= ((l + sep) + kept) + more.0);
    }
}
//@fn parsers::makefile_line
//@sig fn makefile_line<'a>(mut i: BlockSpan<'a>, whitespace_handling: ParserCompliance, mut strip_initial_whitespace: bool) -> (r: IResult<BlockSpan<'a>, Arc<Block>, ParseErrorKind>)
//@sub `Default::default()` => `ImSet::new()`
//@spec
    requires wf_span(i),
    ensures r.is_ok(), ({
        let (rest, b) = r->Ok_0;
        let want = logical(span_flat(i), strip_initial_whitespace, whitespace_handling == ParserCompliance::POSIX);
        wf_block(*b) && block_flat(*b) == want.0 && wf_span(rest) && span_flat(rest) == want.1 && is_tail(i, i.length - rest.length, rest)
    }),
//@at start
    broadcast use lemma_and1;
    let ghost i0 = i;
    let ghost f0 = span_flat(i);
    let ghost strip0 = strip_initial_whitespace;
    let ghost posix = whitespace_handling == ParserCompliance::POSIX;
    let ghost want = logical(f0, strip0, posix);
    let ghost mut t = i;
    proof { lemma_span_bnd(i, 0); lemma_joins(i); }
//@at before `match (makefile_grab_line` 0
                                    proof { t = i_k2; lemma_skipped(i0, i0, t); }
//@at before `i = new_i` 0
    let ghost f1 = span_flat(t);
    let ghost line = first_line.0;
    proof {
        assert(f1 == if strip0 { f0.subrange(skip(txt(f0), 0), f0.len() as int) } else { f0 });
        lemma_grabbed(i0, t, first_line.0, new_i);
    }
//@at before `return` 0
        proof {
            lemma_refs_push(Seq::empty(), lines@[0]);
            assert(Seq::empty().push(lines@[0]) =~= lines@);
            assert(refs_flat(lines@) =~= span_flat(line));
        }
//@at before `clean_line_end` 0
    proof { lemma_clean(span_txt(line), posix); lemma_kept(line, posix); }
//@at before `let mut line_end_reason`
    proof {
        assert(refs_flat(lines@) =~= span_flat(first_line.0)) by { lemma_refs_push(Seq::empty(), lines@.last()); if lines@.len() > 0 { assert(Seq::empty().push(lines@[0]) =~= lines@); } }
    }
//@loop 0
        invariant_except_break
            ({
                let c = continued(span_flat(i), line_end_reason, should_add_space, strip_initial_whitespace, posix);
                refs_flat(lines@) + c.0 == want.0 && c.1 == want.1
            }),
            refs_flat(lines@).len() + 1 + i.length <= i0.length,
            line_end_reason == LineEndReason::Comment ==> i.length > 0 && span_txt(i)[0].c == '#',
        invariant is_tail(i0, i0.length - i.length, i), wf_span(i), wf_span(i0), wf_refs(lines@), posix == (whitespace_handling == ParserCompliance::POSIX), i0.length <= cap(),
        ensures is_tail(i0, i0.length - i.length, i), wf_span(i), wf_refs(lines@), refs_flat(lines@) == want.0, span_flat(i) == want.1,
//@at loopstart 0
        broadcast use lemma_and1;
        let ghost l0 = lines@;
        let ghost f = span_flat(i);
        let ghost j = i;
        let ghost strip1 = strip_initial_whitespace;
        let ghost space1 = should_add_space;
        let ghost reason1 = line_end_reason;
        let ghost sep = if line_end_reason == LineEndReason::Comment || (should_add_space && !strip_initial_whitespace) { one_cell(' ') } else { Seq::empty() };
        proof { lemma_span_bnd(i, 0); }
//@at before `let (new_i, mut new_line)`
        let ghost l1 = lines@;
        proof {
            if l1.len() > l0.len() { lemma_refs_push(l0, l1.last()); assert(l0.push(l1.last()) =~= l1); }
            assert(refs_flat(l1) =~= refs_flat(l0) + sep);
            assert(should_add_space || reason1 == LineEndReason::Comment);
        }
//@at before `match (makefile_grab_line` 1
                                    proof { t = i_k4; lemma_skipped(i0, j, t); }
//@at before `i = new_i` 1
        let ghost g1 = span_flat(t);
        let ghost nline = new_line.0;
        proof {
            assert(g1 == f.subrange(skip(txt(f), 0), f.len() as int));
            lemma_grabbed(i0, t, new_line.0, new_i);
            if reason1 == LineEndReason::Comment { lemma_comment_line(txt(f)); assert(g1 =~= f); }
            lemma_continued(refs_flat(l0), f, reason1, space1, strip1, posix, g1, span_flat(nline), span_flat(new_i), sep);
        }
//@at before `break`
            proof { lemma_refs_push(l1, lines@.last()); assert(l1.push(lines@.last()) =~= lines@); }
//@at before `clean_line_end` 1
        proof { lemma_clean(span_txt(nline), posix); lemma_kept(nline, posix); }
//@at loopend 0
        proof {
            if lines@.len() > l1.len() { lemma_refs_push(l1, lines@.last()); assert(l1.push(lines@.last()) =~= lines@); }
            assert(refs_flat(lines@) =~= refs_flat(l1) + span_flat(new_line.0));
            let kept = span_flat(nline).subrange(0, clean_len(span_txt(nline), posix));
            assert(span_flat(new_line.0) == kept);
            assert(new_line.0.length == kept.len());
            assert(strip_initial_whitespace == (strip1 && kept.len() == 0));
            assert(should_add_space == (kept.len() > 0));
            assert(refs_flat(lines@) == (refs_flat(l0) + sep) + kept);
            assert(refs_flat(lines@).len() + 1 + i.length <= i0.length);
            let c0 = continued(f, reason1, space1, strip1, posix);
            let c = continued(span_flat(i), line_end_reason, should_add_space, strip_initial_whitespace, posix);
            assert(refs_flat(l0) + c0.0 == want.0);
            assert(refs_flat(lines@) + c.0 == want.0 && c.1 == want.1);
        }
//@end
