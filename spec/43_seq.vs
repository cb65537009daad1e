//@props C12 C15 C06 C02
// ---------------------------------------------------------------- lists of names
#[verifier::external_body]
pub struct PathBuf { x: std::path::PathBuf }
pub open spec fn has_char(s: Seq<CB>, c: char) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == (CB { c, k: 0 }) }
pub open spec fn spec_contains_char(t: &Txt, c: char) -> bool { has_char(t@, c) }
/// t.find(c).is_some()
#[verifier::when_used_as_spec(spec_contains_char)]
#[verifier::external_body]
pub fn txt_contains_char(t: &Txt, c: char) -> (r: bool)
    ensures r == has_char(t@, c),
{ unimplemented!() }
/// nom::need_more on an input whose at_eof() is true (the contract of AtEof for BlockSpan, C04): the text cannot become longer
#[verifier::external_body]
pub fn need_more<'a, O, E>(i: BlockSpan<'a>, n: Needed) -> (r: IResult<BlockSpan<'a>, O, E>)
    ensures r == Err::<(BlockSpan<'a>, O), _>(Err::Error(Context::Code(i, ErrorKind::Eof))),
{ unimplemented!() }
impl Txt {
    #[verifier::external_body]
    pub fn input_len(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }
}
//@type parsers::file_sequence::FileSeqParseOptions
//@end
/// the first unquoted special character from i on (the length if there is none)
pub open spec fn qfirst(f: Seq<Cell>, q: spec_fn(char) -> bool, i: int) -> int
    decreases f.len() - i
{
    if 0 <= i < f.len() && !(is_stop(f, q, i) && slashes(txt(f), i) % 2 == 0) { qfirst(f, q, i + 1) } else { i }
}
/// what the first unquoted special character leaves of the text before it (for a list that ends like a string does)
pub open spec fn qword(f: Seq<Cell>, q: spec_fn(char) -> bool) -> Seq<Cell> {
    let p = qfirst(f, q, 0);
    let u = unquoted(f, q, p);
    let n = slashes(txt(f), p);
    if p < f.len() || n % 2 == 0 { halve(u, n) }
    else { quoted_end(f, q) }
}
pub proof fn lemma_qfirst(f: Seq<Cell>, q: spec_fn(char) -> bool, i: int, p: int)
    requires 0 <= i <= p <= f.len(), all_quoted(f, q, p), p < f.len() ==> is_stop(f, q, p) && slashes(txt(f), p) % 2 == 0,
    ensures qfirst(f, q, i) == p,
    decreases p - i
{
    if i < p { assert(is_stop(f, q, i) ==> slashes(txt(f), i) % 2 == 1); lemma_qfirst(f, q, i + 1, p); }
}
/// the list of the non-empty names in f
pub open spec fn names(f: Seq<Cell>, q: spec_fn(char) -> bool) -> Seq<Seq<Cell>>
    decreases f.len()
{
    if f.len() == 0 { Seq::empty() } else {
        let p = qfirst(f, q, 0);
        let word = qword(f, q);
        let head = if word.len() > 0 { seq![word] } else { Seq::empty() };
        if 0 <= p && p + w(f[p].b.c) <= f.len() { head + names(f.subrange(p + w(f[p].b.c), f.len() as int), q) } else { head }
    }
}
pub open spec fn dotless(f: Seq<Cell>, strip: bool) -> Seq<Cell> {
    if strip && is_prefix(lit_bytes("./"@), txt(f)) { f.subrange(2, f.len() as int) } else { f }
}
/// v holds the names n
pub open spec fn holds_names(v: Seq<Arc<Block>>, n: Seq<Seq<Cell>>, strip: bool) -> bool {
    v.len() == n.len() && forall|k: int| 0 <= k < v.len() ==> wf_block(*#[trigger] v[k]) && block_flat(*v[k]) == dotless(n[k], strip)
}
pub open spec fn all_sense(v: Seq<Arc<Block>>, s: Set<VariableName>) -> bool { forall|k: int| 0 <= k < v.len() && block_flat(*#[trigger] v[k]).len() > 0 ==> s.subset_of(v[k].sensitivity@) }

pub proof fn lemma_prefix_bnd(s: Seq<CB>, t: Seq<CB>)
    requires wf_text(s), wf_text(t),
    ensures is_prefix(t, s) ==> bnd(s, t.len() as int),
{
    if is_prefix(t, s) {
        if t.len() > 0 { lemma_bytes_part(s, t, 0); assert(part_at(s, t, 0)); }
    }
}
//@fn parsers::file_sequence::clean_match
//@sig fn clean_match<'a>(mut i: BlockSpan<'a>, options: &FileSeqParseOptions) -> (r: Arc<Block>)
//@sub `let res_h1 : IResult < _, _ >` => `let res_h1 : IResult < BlockSpan<'a>, BlockSpan<'a> >`
//@spec
    requires wf_span(i),
    ensures wf_block(*r), block_flat(*r) == dotless(span_flat(i), options.strip_leading_dotslash),
        block_flat(*r).len() > 0 ==> r.sensitivity@ == i.parent.sensitivity@,
//@at start
    proof {
        lemma_span_bnd(i, 0);
        reveal_strlit("./");
        assert("./"@ =~= seq!['.', '/']);
        lemma_lit2('.', '/');
        lemma_prefix_bnd(span_txt(i), lit_bytes("./"@));
    }
//@end
/// the characters that end a name
pub open spec fn ends_name(extra: Seq<CB>) -> spec_fn(char) -> bool { |c: char| is_ws(c) || c == '\0' || has_char(extra, c) }
/// one step of a list
pub proof fn lemma_name(rc: BlockSpan, q: spec_fn(char) -> bool, text: Seq<Cell>, r: Option<(BlockSpan, BlockSpan)>)
    requires wf_span(rc), rc.length > 0, q('\0'), unquote_result(rc, q, text, r), r.is_some() ==> wf_span(r.unwrap().0) && wf_span(r.unwrap().1),
    ensures
        names(span_flat(rc), q) == (if text.len() > 0 { seq![text] } else { Seq::<Seq<Cell>>::empty() }) + (match r { Some((_, post)) => names(span_flat(post), q), None => Seq::<Seq<Cell>>::empty() }),
        text.len() > 0 ==> rc.length > 0,
{
    let f = span_flat(rc);
    let n = rc.length as int;
    lemma_span_bnd(rc, 0);
    match r {
        Some((ch, post)) => {
            lemma_span_bnd(post, 0);
            if found_end(rc, q, text, ch, post) {
                lemma_qfirst(f, q, 0, n);
                assert(span_flat(post).len() == 0);
                assert(names(f, q) =~= (if text.len() > 0 { seq![text] } else { Seq::<Seq<Cell>>::empty() }) + names(span_flat(post), q));
            } else {
                let p = rc.length - post.length - ch.length;
                lemma_qfirst(f, q, 0, p);
            }
        },
        None => {
            lemma_qfirst(f, q, 0, n);
            assert(names(f, q) =~= (if text.len() > 0 { seq![text] } else { Seq::<Seq<Cell>>::empty() }) + Seq::<Seq<Cell>>::empty());
        },
    }
}
//@fn parsers::file_sequence::parse_file_seq
//@sig fn parse_file_seq<'a>(i: BlockSpan<'a>, options: FileSeqParseOptions) -> (r: Vec<Arc<Block>>)
//@sub `options.extra_stopchars.find(c).is_some()` => `txt_contains_char(options.extra_stopchars, c)`
//@sub `Some((_, post))` => `Some((__ch, post))`
//@sub `let mut output_names = Vec :: new();` => `let mut output_names: Vec<Arc<Block>> = Vec :: new();`
//@spec
    requires wf_span(i), !options.check_ar, !options.do_glob, !options.exist_only, !has_char(options.extra_stopchars@, '\\'),
    ensures
        holds_names(r@, names(span_flat(i).subrange(skip(span_txt(i), 0), i.length as int), ends_name(options.extra_stopchars@)), options.strip_leading_dotslash),
        all_sense(r@, i.parent.sensitivity@),
//@at start
    hide(names); hide(unquoted); hide(slashes); hide(halve); hide(wf_ref); hide(ref_flat); hide(refs_flat); hide(quoted_end);
    let ghost q = ends_name(options.extra_stopchars@);
    let ghost want = names(span_flat(i).subrange(skip(span_txt(i), 0), i.length as int), q);
    let ghost strip = options.strip_leading_dotslash;
    let ghost mut done: Seq<Seq<Cell>> = Seq::empty();
    proof { lemma_span_bnd(i, 0); lemma_lit2('.', '/'); }
//@at before `while`
    proof { reveal(names); assert(want =~= done + names(span_flat(remaining_content), q)); }
//@loop 0
        invariant wf_span(remaining_content), remaining_content.length > 0 ==> remaining_content.parent == i.parent, q == ends_name(options.extra_stopchars@),
            !has_char(options.extra_stopchars@, '\\'),
            holds_names(output_names@, done, strip), want == done + names(span_flat(remaining_content), q), strip == options.strip_leading_dotslash,
            all_sense(output_names@, i.parent.sensitivity@),
//@at loopstart 0
        let ghost f = span_flat(remaining_content);
        let ghost out0 = output_names@;
        let ghost rc = remaining_content;
        let ghost d0 = done;
        proof { lemma_span_bnd(rc, 0); }
//@at before `remaining_content = post`
                proof {
                    let t = block_flat(ad(pre));
                    lemma_name(rc, q, t, Some((__ch, post)));
                    done = if t.len() > 0 { d0.push(t) } else { d0 };
                    assert(want =~= done + names(span_flat(post), q));
                }
//@at after `remaining_content = remaining_content.slice_from(remaining_content.len());`
                proof {
                    let t = block_flat(ad(pre));
                    lemma_name(rc, q, t, None);
                    done = if t.len() > 0 { d0.push(t) } else { d0 };
                    reveal(names); assert(span_flat(remaining_content) =~= Seq::empty());
                    assert(want =~= done + names(span_flat(remaining_content), q));
                }
//@at loopend 0
            proof {
                if output_names@.len() > out0.len() {
                    assert(output_names@.drop_last() =~= out0);
                    lemma_named(out0, d0, output_names@, strip, i.parent.sensitivity@);
                }
            }
//@end
/// one more name
pub proof fn lemma_named(v0: Seq<Arc<Block>>, n0: Seq<Seq<Cell>>, v: Seq<Arc<Block>>, strip: bool, s: Set<VariableName>)
    requires holds_names(v0, n0, strip), all_sense(v0, s), v.len() == v0.len() + 1, v.drop_last() == v0, wf_block(*v.last()), block_flat(*v.last()).len() > 0 ==> s.subset_of(v.last().sensitivity@),
    ensures all_sense(v, s), forall|t: Seq<Cell>| block_flat(*v.last()) == dotless(t, strip) ==> #[trigger] holds_names(v, n0.push(t), strip),
{
    assert forall|k: int| 0 <= k < v0.len() implies #[trigger] v[k] == v0[k] by { assert(v.drop_last()[k] == v[k]); }
}
