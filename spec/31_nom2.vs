//@props C04
// ---------------------------------------------------------------- prefix comparison
pub open spec fn is_prefix(t: Seq<CB>, s: Seq<CB>) -> bool { t.len() <= s.len() && s.subrange(0, t.len() as int) == t }
/// both walks stand at byte p and have seen the same text
pub open spec fn same_upto(s: Seq<CB>, t: Seq<CB>, p: int, rs: Seq<CB>, rt: Seq<CB>) -> bool {
    &&& 0 <= p <= s.len() && p <= t.len() && wf_text(s) && wf_text(t) && s.subrange(0, p) == t.subrange(0, p)
    &&& rs == s.subrange(p, s.len() as int) && rt == t.subrange(p, t.len() as int) && wf_text(rs) && wf_text(rt)
}
pub proof fn lemma_same_step(s: Seq<CB>, t: Seq<CB>, p: int, rs: Seq<CB>, rt: Seq<CB>, rs2: Seq<CB>, rt2: Seq<CB>, a: char, b: char)
    requires same_upto(s, t, p, rs, rt), next_char(rs, rs2, Some(a)), next_char(rt, rt2, Some(b)),
    ensures a == b ==> same_upto(s, t, p + w(a), rs2, rt2), a != b ==> !is_prefix(s, t) && !is_prefix(t, s), w(a) >= 1,
{
    lemma_next_char(rs, rs2, Some(a));
    lemma_next_char(rt, rt2, Some(b));
    assert(rs[0] == s[p]); assert(rt[0] == t[p]);
    if a == b {
        let q = p + w(a);
        assert(rs2 =~= s.subrange(q, s.len() as int));
        assert(rt2 =~= t.subrange(q, t.len() as int));
        assert(s.subrange(0, q) =~= s.subrange(0, p) + rs.subrange(0, w(a)));
        assert(t.subrange(0, q) =~= t.subrange(0, p) + rt.subrange(0, w(a)));
    } else {
        if is_prefix(s, t) { assert(t.subrange(0, s.len() as int)[p] == s[p]); }
        if is_prefix(t, s) { assert(s.subrange(0, t.len() as int)[p] == t[p]); }
    }
}
//@fn evaluated::nom::Compare<&'bstr> for BlockSpan::compare
//@impl impl<'a> BlockSpan<'a>
//@sig fn compare<'b>(&self, t: &'b Txt) -> (r: CompareResult)
//@spec
    requires wf_span(*self),
    ensures
        (r == CompareResult::Ok) == is_prefix(t@, span_txt(*self)),
        (r == CompareResult::Incomplete) == (span_txt(*self).len() < t@.len() && is_prefix(span_txt(*self), t@)),
//@at start
    let ghost s = span_txt(*self);
    proof { lemma_span_bnd(*self, 0); assert(s.subrange(0, s.len() as int) =~= s); assert(t@.subrange(0, t@.len() as int) =~= t@); assert(s.subrange(0, 0) =~= t@.subrange(0, 0)); }
//@at before `loop`
        let ghost mut p = 0int;
        let ghost mut g1 = __it1;
        let ghost mut g2 = __it2;
//@loop 0
        invariant_except_break same_upto(s, t@, p, si_rem(__it1), __it2.rem()), g1 == __it1, g2 == __it2, __res3.is_none(), __n4 <= p, wf_si(__it1),
        invariant s.len() <= cap(),
        ensures match __res3 {
            Some(_) => !is_prefix(s, t@) && !is_prefix(t@, s),
            None => is_prefix(s, t@) || is_prefix(t@, s),
        },
//@at loopstart 0
            proof { assert(s.subrange(0, s.len() as int) =~= s); assert(t@.subrange(0, t@.len() as int) =~= t@); }
//@at before `if a != b`
            proof {
                lemma_same_step(s, t@, p, si_rem(g1), g2.rem(), si_rem(__it1), __it2.rem(), a, b);
                g1 = __it1; g2 = __it2; p = p + w(a);
            }
//@end

/// the lower case of a character, and of a text, character by character
pub uninterp spec fn lower(c: char) -> Seq<char>;
pub open spec fn lower_txt(s: Seq<CB>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if s.last().k == 0 { lower_txt(s.drop_last()) + lower(s.last().c) }
    else { lower_txt(s.drop_last()) }
}
/// the letters keywords are written in ('k' is the lower case of the Kelvin sign as well)
pub open spec fn plain(c: char) -> bool { ('a' <= c && c <= 'z' && c != 'k') || c == '-' }
/// c is the letter l, perhaps as a capital
pub open spec fn same_letter(c: char, l: char) -> bool { c == l || ('a' <= l && l <= 'z' && 'A' <= c && c <= 'Z' && (c as u32) + 32 == l as u32) }
/// the facts about Unicode that keywords depend on; the harness checks them for every char
pub axiom fn axiom_lower(c: char)
    ensures
        lower(c).len() >= 1,
        forall|l: char| #![trigger plain(l)] plain(l) && same_letter(c, l) ==> lower(c) == seq![l],
        forall|l: char| #![trigger plain(l)] plain(l) && lower(c)[0] == l && !same_letter(c, l) ==> l == 'i' && lower(c) == seq!['i', '\u{307}'];
pub open spec fn keyword(k: Seq<char>) -> bool { k.len() > 0 && k.last() != 'i' && forall|i: int| 0 <= i < k.len() ==> plain(#[trigger] k[i]) }
/// s starts with the keyword k, in small letters or capitals
pub open spec fn kw_at(s: Seq<CB>, k: Seq<char>) -> bool { k.len() <= s.len() && forall|j: int| 0 <= j < k.len() ==> (#[trigger] s[j]).k == 0 && same_letter(s[j].c, k[j]) }
pub proof fn lemma_lower_add(a: Seq<CB>, b: Seq<CB>)
    ensures lower_txt(a + b) == lower_txt(a) + lower_txt(b),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(lower_txt(a) + lower_txt(b) =~= lower_txt(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_lower_add(a, b.drop_last());
        assert(lower_txt(a + b) =~= lower_txt(a) + lower_txt(b));
    }
}
pub proof fn lemma_lower_char(c: char, n: int)
    requires 1 <= n <= w(c),
    ensures lower_txt(cbytes(c).subrange(0, n)) == lower(c),
    decreases n
{
    let s = cbytes(c).subrange(0, n);
    assert(s.drop_last() =~= cbytes(c).subrange(0, n - 1));
    assert(s.last() == cbytes(c)[n - 1]);
    if n == 1 { assert(s.drop_last() =~= Seq::empty()); assert(lower_txt(s) == lower_txt(s.drop_last()) + lower(c)); assert(lower_txt(s) =~= lower(c)); } else { lemma_lower_char(c, n - 1); }
}
/// the first character of s, in lower case, and the rest
pub proof fn lemma_lower_front(s: Seq<CB>)
    requires wf_text(s), s.len() > 0,
    ensures ({
        let c = s[0].c;
        let r = s.subrange(w(c), s.len() as int);
        s[0].k == 0 && 1 <= w(c) <= s.len() && wf_text(r) && lower_txt(s) == lower(c) + lower_txt(r)
    }),
{
    let c = s[0].c;
    lemma_first(s, c);
    let r = s.subrange(w(c), s.len() as int);
    lemma_wf_sub(s, w(c), s.len() as int);
    assert(s =~= cbytes(c) + r);
    lemma_lower_add(cbytes(c), r);
    lemma_lower_char(c, w(c));
    assert(cbytes(c).subrange(0, w(c)) =~= cbytes(c));
}
pub proof fn lemma_lit_ascii(k: Seq<char>)
    requires forall|i: int| 0 <= i < k.len() ==> w(#[trigger] k[i]) == 1,
    ensures lit_bytes(k).len() == k.len(), forall|i: int| 0 <= i < k.len() ==> #[trigger] lit_bytes(k)[i] == (CB { c: k[i], k: 0 }),
    decreases k.len()
{
    if k.len() > 0 {
        let d = k.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies w(#[trigger] d[i]) == 1 by { assert(d[i] == k[i]); }
        lemma_lit_ascii(d);
        assert(w(k[k.len() - 1]) == 1);
        assert(cbytes(k.last()) =~= seq![CB { c: k.last(), k: 0 }]);
        assert forall|i: int| 0 <= i < k.len() implies #[trigger] lit_bytes(k)[i] == (CB { c: k[i], k: 0 }) by { if i < d.len() { assert(lit_bytes(k)[i] == lit_bytes(d)[i]); assert(d[i] == k[i]); } }
    }
}
pub proof fn lemma_lower_lit(k: Seq<char>)
    requires forall|i: int| 0 <= i < k.len() ==> plain(#[trigger] k[i]),
    ensures lower_txt(lit_bytes(k)) == k, lit_bytes(k).len() == k.len(),
    decreases k.len()
{
    assert forall|i: int| 0 <= i < k.len() implies w(#[trigger] k[i]) == 1 by { assert(plain(k[i])); }
    lemma_lit_ascii(k);
    if k.len() > 0 {
        let d = k.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies plain(#[trigger] d[i]) by { assert(d[i] == k[i]); }
        lemma_lower_lit(d);
        assert(plain(k[k.len() - 1]));
        axiom_lower(k.last());
        assert(lit_bytes(k) =~= lit_bytes(d) + seq![CB { c: k.last(), k: 0 }]);
        assert(lit_bytes(k).drop_last() =~= lit_bytes(d));
        assert(lower_txt(lit_bytes(k)) =~= k);
    } else { assert(lower_txt(lit_bytes(k)) =~= k); }
}
/// comparing lower cases finds keywords
pub proof fn lemma_keyword(s: Seq<CB>, k: Seq<char>)
    requires wf_text(s), keyword(k),
    ensures ({
        let a = lower_txt(s);
        let n = if a.len() < k.len() { a.len() } else { k.len() } as int;
        &&& kw_at(s, k) <==> agree_upto(a, k, n) && s.len() >= k.len()
        &&& kw_at(s, k) ==> bnd(s, k.len() as int)
    }),
    decreases k.len()
{
    let a = lower_txt(s);
    let n = if a.len() < k.len() { a.len() } else { k.len() } as int;
    if s.len() > 0 {
        lemma_lower_front(s);
        let c = s[0].c;
        let r = s.subrange(w(c), s.len() as int);
        let ra = lower_txt(r);
        axiom_lower(c);
        assert(plain(k[0]));
        assert(a == lower(c) + ra);
        let d = k.drop_first();
        if same_letter(c, k[0]) {
            assert(w(c) == 1);
            assert(a =~= seq![k[0]] + ra);
            assert forall|j: int| 0 <= j < d.len() implies plain(#[trigger] d[j]) by { assert(d[j] == k[j + 1]); }
            if d.len() > 0 {
                assert(d.last() == k.last());
                lemma_keyword(r, d);
                let m = if ra.len() < d.len() { ra.len() } else { d.len() } as int;
                assert(n == m + 1);
                assert(agree_upto(a, k, n) <==> agree_upto(ra, d, m)) by {
                    if agree_upto(a, k, n) { assert forall|i: int| 0 <= i < m implies #[trigger] ra[i] == d[i] by { assert(a[i + 1] == k[i + 1]); } }
                    if agree_upto(ra, d, m) { assert forall|i: int| 0 <= i < n implies #[trigger] a[i] == k[i] by { if i > 0 { assert(ra[i - 1] == d[i - 1]); } } }
                }
                if kw_at(r, d) {
                    assert forall|j: int| 0 <= j < k.len() implies (#[trigger] s[j]).k == 0 && same_letter(s[j].c, k[j]) by { if j > 0 { assert(r[j - 1] == s[j] && d[j - 1] == k[j]); } }
                    assert(bnd(r, d.len() as int));
                    if k.len() < s.len() { assert(s[k.len() as int] == r[d.len() as int]); }
                }
                if kw_at(s, k) { assert forall|j: int| 0 <= j < d.len() implies (#[trigger] r[j]).k == 0 && same_letter(r[j].c, d[j]) by { assert(r[j] == s[j + 1] && d[j] == k[j + 1]); } }
            } else {
                assert(k.len() == 1);
                if s.len() > 1 { assert(wf_at(s, 1)); assert(wf_at(s, 0)); }
            }
        } else {
            if kw_at(s, k) { assert(s[0].c == c); }
            assert(a[0] == lower(c)[0]);
            if agree_upto(a, k, n) {
                assert(a[0] == k[0]);
                assert(k[0] == 'i' && lower(c) == seq!['i', '\u{307}']);
                if k.len() == 1 { assert(k.last() == k[0]); } else { assert(a[1] == '\u{307}'); assert(a[1] == k[1]); assert(plain(k[1])); }
            }
        }
    }
}
/// whether s starts with the text t in small letters or capitals, for texts t that are keywords
pub open spec fn no_case(s: Seq<CB>, t: Seq<CB>, yes: bool) -> bool {
    forall|k: Seq<char>| keyword(k) && t == #[trigger] lit_bytes(k) ==> yes == kw_at(s, k) && t.len() == k.len() && (yes ==> bnd(s, k.len() as int))
}
pub proof fn lemma_no_case(s: Seq<CB>, t: Seq<CB>, yes: bool)
    requires wf_text(s), ({
        let a = lower_txt(s);
        let b = lower_txt(t);
        let n = if a.len() < b.len() { a.len() } else { b.len() } as int;
        yes == (agree_upto(a, b, n) && s.len() >= t.len())
    }),
    ensures no_case(s, t, yes),
{
    assert forall|k: Seq<char>| keyword(k) && t == #[trigger] lit_bytes(k) implies yes == kw_at(s, k) && t.len() == k.len() && (yes ==> bnd(s, k.len() as int)) by {
        lemma_lower_lit(k);
        lemma_keyword(s, k);
    }
}
#[verifier::external_body]
pub struct LowerIter<'a> { x: std::str::Chars<'a> }
impl<'a> LowerIter<'a> {
    pub uninterp spec fn rem(self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures match r {
            None => old(self).rem().len() == 0 && final(self).rem() == old(self).rem(),
            Some(c) => old(self).rem().len() > 0 && c == old(self).rem()[0] && final(self).rem() == old(self).rem().drop_first(),
        },
    { unimplemented!() }
}
pub broadcast axiom fn axiom_lower_len(it: LowerIter)
    ensures #[trigger] it.rem().len() <= 3 * cap();
/// it.flat_map(|c| c.to_lowercase())
#[verifier::external_body]
pub fn lower_span<'a>(it: SpanIter<'a>) -> (r: LowerIter<'a>)
    requires wf_si(it),
    ensures r.rem() == lower_txt(si_rem(it)),
{ unimplemented!() }
#[verifier::external_body]
pub fn lower_str<'a>(it: StrChars<'a>) -> (r: LowerIter<'a>)
    ensures r.rem() == lower_txt(it.rem()),
{ unimplemented!() }
pub open spec fn agree_upto<T>(a: Seq<T>, b: Seq<T>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i] }
//@fn evaluated::nom::Compare<&'bstr> for BlockSpan::compare_no_case
//@impl impl<'a> BlockSpan<'a>
//@sig fn compare_no_case<'b>(&self, t: &'b Txt) -> (r: CompareResult)
//@sub `self.iter_elements().flat_map(__vx_pred !(c, c.to_lowercase()))` => `lower_span(self.iter_elements())`
//@sub `t.chars().flat_map(__vx_pred !(c, c.to_lowercase()))` => `lower_str(t.chars())`
//@sub `let mut __n4: usize = 0;` => `let mut __n4: u128 = 0;`
//@sub `let mut __res3: Option<usize> = None;` => `let mut __res3: Option<u128> = None;`
//@spec
    requires wf_span(*self),
    ensures ({
        let a = lower_txt(span_txt(*self));
        let b = lower_txt(t@);
        let n = if a.len() < b.len() { a.len() } else { b.len() } as int;
        &&& (r == CompareResult::Error) == !agree_upto(a, b, n)
        &&& r == CompareResult::Ok ==> span_txt(*self).len() >= t@.len()
        &&& r == CompareResult::Incomplete ==> span_txt(*self).len() < t@.len()
    }),
    no_case(span_txt(*self), t@, r == CompareResult::Ok),
//@at start
    broadcast use axiom_lower_len;
    let ghost s = span_txt(*self);
    proof { lemma_span_bnd(*self, 0); }
//@at before `loop`
        let ghost mut p = 0int;
        let ghost a0 = __it1.rem();
        let ghost b0 = __it2.rem();
        let ghost n = if a0.len() < b0.len() { a0.len() } else { b0.len() } as int;
        let ghost mut g1 = __it1;
        let ghost mut g2 = __it2;
        proof { assert(a0.subrange(0, a0.len() as int) =~= a0); assert(b0.subrange(0, b0.len() as int) =~= b0); }
//@loop 0
        invariant_except_break g1 == __it1, g2 == __it2, __res3.is_none(), __n4 == p, 0 <= p <= n,
            __it1.rem() == a0.subrange(p, a0.len() as int), __it2.rem() == b0.subrange(p, b0.len() as int), agree_upto(a0, b0, p),
        invariant a0.len() <= 3 * cap(), n == (if a0.len() < b0.len() { a0.len() } else { b0.len() }),
        ensures __res3.is_none() == agree_upto(a0, b0, n),
//@at before `if a != b`
            proof {
                assert(a == a0[p] && b == b0[p]);
                assert(__it1.rem() =~= a0.subrange(p + 1, a0.len() as int));
                assert(__it2.rem() =~= b0.subrange(p + 1, b0.len() as int));
                g1 = __it1; g2 = __it2; p = p + 1;
            }
//@at before `match pos`
    proof {
        let (a, b) = (lower_txt(s), lower_txt(t@));
        let n = if a.len() < b.len() { a.len() } else { b.len() } as int;
        lemma_no_case(s, t@, agree_upto(a, b, n) && s.len() >= t@.len());
    }
//@end
