//@props C07 C12 C06 C02
// ---------------------------------------------------------------- substitution references
pub open spec fn is_ending(t: Seq<CB>, s: Seq<CB>) -> bool { t.len() <= s.len() && s.subrange(s.len() - t.len(), s.len() as int) == t }
impl Txt {
    #[verifier::external_body]
    pub fn ends_with(&self, t: &Txt) -> (r: bool)
        ensures r == is_ending(t@, self@),
    { unimplemented!() }
}
/// a pattern and its replacement: the texts a word must start and end with, and what the parts around the rest of the word become
#[verifier::ext_equal]
pub struct Rewriting { pub pre: Seq<CB>, pub post: Seq<CB>, pub before: Seq<Cell>, pub keep: bool, pub after: Seq<Cell> }
/// what becomes of a word
pub open spec fn rewrite(x: Rewriting, wd: Seq<Cell>) -> Seq<Cell> {
    let t = txt(wd);
    if x.pre.len() + x.post.len() <= wd.len() && is_prefix(x.pre, t) && is_ending(x.post, t) {
        (x.before + (if x.keep { wd.subrange(x.pre.len() as int, wd.len() - x.post.len()) } else { Seq::<Cell>::empty() })) + x.after
    } else { wd }
}
/// the words of f rewritten one by one, separated by single spaces
pub open spec fn rewrite_words(x: Rewriting, f: Seq<Cell>, first: bool) -> Seq<Cell>
    decreases f.len()
{
    let a = skip(txt(f), 0);
    let b = word_end(txt(f), a);
    let c = skip(txt(f), b);
    if f.len() == 0 || !(0 <= a < b <= c <= f.len()) { Seq::empty() }
    else { ((if first { Seq::<Cell>::empty() } else { one_cell(' ') }) + rewrite(x, f.subrange(a, b))) + rewrite_words(x, f.subrange(c, f.len() as int), false) }
}
pub open spec fn percent() -> spec_fn(char) -> bool { |c: char| c == '%' }
/// what the first unquoted percent sign of f leaves before it, and what follows it
pub open spec fn pct_before(f: Seq<Cell>) -> Seq<Cell> {
    let p = qfirst(f, percent(), 0);
    if p < f.len() { halve(unquoted(f, percent(), p), slashes(txt(f), p)) } else { unquoted(f, percent(), f.len() as int) }
}
pub open spec fn has_pct(f: Seq<Cell>) -> bool { qfirst(f, percent(), 0) < f.len() }
pub open spec fn pct_after(f: Seq<Cell>) -> Seq<Cell> { f.subrange(qfirst(f, percent(), 0) + 1, f.len() as int) }
/// what a pattern and a replacement mean
pub open spec fn rewriting(key: Seq<Cell>, rep: Seq<Cell>) -> Rewriting {
    if has_pct(key) {
        if has_pct(rep) { Rewriting { pre: txt(pct_before(key)), post: txt(pct_after(key)), before: pct_before(rep), keep: true, after: pct_after(rep) } }
        else { Rewriting { pre: txt(pct_before(key)), post: txt(pct_after(key)), before: Seq::empty(), keep: false, after: pct_before(rep) } }
    } else { Rewriting { pre: Seq::empty(), post: txt(pct_before(key)), before: Seq::empty(), keep: true, after: rep } }
}
/// where the first unquoted percent sign was found
pub proof fn lemma_pct(i: BlockSpan, text: Seq<Cell>, r: Option<(BlockSpan, BlockSpan)>)
    requires wf_span(i), unquote_result(i, percent(), text, r), r.is_some() ==> wf_span(r.unwrap().0) && wf_span(r.unwrap().1),
    ensures
        r.is_some() == has_pct(span_flat(i)), text == pct_before(span_flat(i)),
        r.is_some() ==> span_flat(r.unwrap().1) == pct_after(span_flat(i)),
{
    let f = span_flat(i);
    let q = percent();
    lemma_span_bnd(i, 0);
    match r {
        Some((ch, post)) => {
            let p = i.length - post.length - ch.length;
            lemma_qfirst(f, q, 0, p);
            assert(w(f[p].b.c) == 1);
        },
        None => { lemma_qfirst(f, q, 0, i.length as int); },
    }
}
/// the text a word matches is cut at character boundaries
pub proof fn lemma_match(s: Seq<CB>, pre: Seq<CB>, post: Seq<CB>)
    requires wf_text(s), wf_text(pre), wf_text(post),
    ensures is_prefix(pre, s) ==> bnd(s, pre.len() as int), is_ending(post, s) ==> bnd(s, s.len() - post.len()),
{
    lemma_prefix_bnd(s, pre);
    if is_ending(post, s) && post.len() > 0 { lemma_bytes_part(s, post, s.len() - post.len()); assert(part_at(s, post, s.len() - post.len())); }
}
/// the ending of what follows the prefix is the ending of the word
proof fn lemma_ending(s: Seq<CB>, a: int, post: Seq<CB>)
    requires 0 <= a, a + post.len() <= s.len(),
    ensures is_ending(post, s.subrange(a, s.len() as int)) == is_ending(post, s),
{
    assert(s.subrange(a, s.len() as int).subrange(s.len() - a - post.len(), s.len() - a) =~= s.subrange(s.len() - post.len(), s.len() as int));
}
/// one word of a list
pub proof fn lemma_words(x: Rewriting, t: BlockSpan, first: bool, token: BlockSpan, rest: BlockSpan, out: Seq<Cell>)
    requires wf_span(t), t.length > 0, ({
        let s = span_txt(t);
        let a = skip(s, 0);
        let b = word_end(s, a);
        let c = skip(s, b);
        0 <= a <= b <= c <= t.length && is_part(t, a, b, token) && is_part(t, c, t.length as int, rest)
    }),
    ensures
        token.length == 0 ==> out + rewrite_words(x, span_flat(t), first) == out + rewrite_words(x, span_flat(rest), first),
        token.length > 0 ==> out + rewrite_words(x, span_flat(t), first)
            == ((out + (if first { Seq::<Cell>::empty() } else { one_cell(' ') })) + rewrite(x, span_flat(token))) + rewrite_words(x, span_flat(rest), false),
        span_flat(token).len() == token.length, wf_text(span_txt(token)), span_txt(token) == txt(span_flat(token)), bnd(span_txt(token), token.length as int),
{
    let f = span_flat(t);
    let s = span_txt(t);
    lemma_span_bnd(t, 0);
    lemma_span_bnd(token, 0);
    lemma_span_bnd(rest, 0);
    let a = skip(s, 0);
    let b = word_end(s, a);
    let c = skip(s, b);
    lemma_skip_stop(s, 0);
    if token.length == 0 {
        if a < t.length { lemma_skip_sub(s, 0, a + 1); }
        assert(a == t.length && c == t.length);
        assert(rewrite_words(x, f, first).len() == 0);
        assert(rewrite_words(x, span_flat(rest), first).len() == 0);
        assert(out + rewrite_words(x, f, first) =~= out + rewrite_words(x, span_flat(rest), first));
    } else {
        let sep = if first { Seq::<Cell>::empty() } else { one_cell(' ') };
        let rw = rewrite(x, f.subrange(a, b));
        let more = rewrite_words(x, f.subrange(c, f.len() as int), false);
        assert(out + ((sep + rw) + more) =~= ((out + sep) + rw) + more);
    }
}
proof fn lemma_skip_stop(s: Seq<CB>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= skip(s, i) <= s.len(), skip(s, i) < s.len() ==> !is_blank(s[skip(s, i)].c),
    decreases s.len() - i
{
    if i < s.len() && is_blank(s[i].c) { lemma_skip_stop(s, i + 1); }
}
//@fn ast::text_functions::do_replacement
//@sub `Default::default()` => `Vec::new()`
//@sub `let res_h1 : IResult < _, _ >` => `let res_h1 : IResult < BlockSpan, BlockSpan >`
//@spec
    requires wf_span(tokens), wf_span(pre_replacement), wf_span(post_replacement),
        rewrite_words(Rewriting { pre: pre_key@, post: post_key@, before: span_flat(pre_replacement), keep: keep_captured, after: span_flat(post_replacement) }, span_flat(tokens), true).len() <= cap(),
    ensures wf_block(*r), sensitivity@.subset_of(r.sensitivity@),
        block_flat(*r) == rewrite_words(Rewriting { pre: pre_key@, post: post_key@, before: span_flat(pre_replacement), keep: keep_captured, after: span_flat(post_replacement) }, span_flat(tokens), true),
//@at start
    let ghost x = Rewriting { pre: pre_key@, post: post_key@, before: span_flat(pre_replacement), keep: keep_captured, after: span_flat(post_replacement) };
    let ghost want = rewrite_words(x, span_flat(tokens), true);
    proof { lemma_span_bnd(tokens, 0); }
//@at before `while`
    proof { assert(block_flat(ad(output)) + want =~= want); }
//@loop 0
        invariant wf_span(tokens), wf_span(pre_replacement), wf_span(post_replacement), wf_block(*output), sensitivity@.subset_of(output.sensitivity@),
            x == (Rewriting { pre: pre_key@, post: post_key@, before: span_flat(pre_replacement), keep: keep_captured, after: span_flat(post_replacement) }),
            total_key_length == pre_key@.len() + post_key@.len(), want.len() <= cap(),
            block_flat(*output) + rewrite_words(x, span_flat(tokens), first) == want,
//@at loopstart 0
        let ghost f = span_flat(tokens);
        let ghost out0 = block_flat(ad(output));
        let ghost first0 = first;
        let ghost t0 = tokens;
//@at after `tokens = new_tokens;`
        let ghost sep = if first0 { Seq::<Cell>::empty() } else { one_cell(' ') };
        let ghost more = rewrite_words(x, span_flat(tokens), false);
        let ghost tf = span_flat(token);
        proof {
            lemma_words(x, t0, first0, token, tokens, out0);
            lemma_match(span_txt(token), pre_key@, post_key@);
        }
//@at before `if token.len() < total_key_length`
        let ghost out1 = block_flat(ad(output));
        proof {
            assert(out1 =~= out0 + sep);
            assert(((out0 + sep) + rewrite(x, tf)) + more == want);
        }
//@at before `if !captured`
        proof {
            lemma_span_bnd(captured, 0);
            lemma_ending(txt(tf), pre_key@.len() as int, post_key@);
            lemma_match(span_txt(captured), pre_key@, post_key@);
            lemma_txt_sub(tf, pre_key@.len() as int, tf.len() as int);
        }
//@at before `let captured = captured.slice_to`
        proof {
            assert(tf.subrange(pre_key@.len() as int, tf.len() as int).subrange(0, tf.len() - pre_key@.len() - post_key@.len()) =~= tf.subrange(pre_key@.len() as int, tf.len() - post_key@.len()));
            let k = if keep_captured { tf.subrange(pre_key@.len() as int, tf.len() - post_key@.len()) } else { Seq::<Cell>::empty() };
            assert(((out1 + x.before) + k) + x.after =~= out1 + ((x.before + k) + x.after));
            assert((out1 + x.before) + Seq::<Cell>::empty() =~= out1 + x.before);
        }
//@end
//@fn ast::text_functions::do_subref
//@sub `Some((_, post_key))` => `Some((__ck, post_key))`
//@sub `Some((_, post_replacement))` => `Some((__cr, post_replacement))`
//@spec
    requires wf_block(*variable_value), wf_block(*key), wf_block(*replacement),
        rewrite_words(rewriting(block_flat(*key), block_flat(*replacement)), block_flat(*variable_value), true).len() <= cap(),
    ensures wf_block(*r), sensitivity@.subset_of(r.sensitivity@),
        block_flat(*r) == rewrite_words(rewriting(block_flat(*key), block_flat(*replacement)), block_flat(*variable_value), true),
//@at start
    hide(unquote_result); hide(rewrite_words); hide(qfirst); hide(unquoted);
    let ghost ks = key;
    let ghost rs = replacement;
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(lit_bytes(""@) =~= Seq::<CB>::empty()); assert(lit_bytes(Seq::<char>::empty()) =~= Seq::<CB>::empty()); }
    proof {
        assert forall|b: BlockSpan| #[trigger] span_flat(b).len() == 0 implies span_flat(b) == Seq::<Cell>::empty() by { assert(span_flat(b) =~= Seq::<Cell>::empty()); }
        assert forall|i: BlockSpan, text: Seq<Cell>, r: Option<(BlockSpan, BlockSpan)>| #[trigger] unquote_result(i, percent(), text, r) && wf_span(i) implies
            r.is_some() == has_pct(span_flat(i)) && text == pct_before(span_flat(i)) && (r.is_some() ==> span_flat(r.unwrap().1) == pct_after(span_flat(i)) && wf_span(r.unwrap().1)) by {
            reveal(unquote_result);
            lemma_pct(i, text, r);
        }
    }
//@end
