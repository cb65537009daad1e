//@props C04
// ---------------------------------------------------------------- UTF-8
pub open spec fn ub(b: CB) -> u8 {
    let x = b.c as u32 as int;
    let n = w(b.c);
    (if n == 1 { x }
    else if n == 2 { if b.k == 0 { 0xC0 + x / 64 } else { 0x80 + x % 64 } }
    else if n == 3 { if b.k == 0 { 0xE0 + x / 4096 } else if b.k == 1 { 0x80 + (x / 64) % 64 } else { 0x80 + x % 64 } }
    else { if b.k == 0 { 0xF0 + x / 262144 } else if b.k == 1 { 0x80 + (x / 4096) % 64 } else if b.k == 2 { 0x80 + (x / 64) % 64 } else { 0x80 + x % 64 } }) as u8
}
pub open spec fn ubytes(s: Seq<CB>) -> Seq<u8> { Seq::new(s.len(), |i: int| ub(s[i])) }
#[verifier::external_body]
pub fn txt_bytes(t: &Txt) -> (r: &[u8])
    ensures r@ == ubytes(t@),
{ unimplemented!() }
/// c.encode_utf8(buffer).len()
#[verifier::external_body]
pub fn encode_utf8_len(c: char, b: &mut [u8; 4]) -> (r: usize)
    ensures r == w(c), forall|k: int| 0 <= k < w(c) ==> #[trigger] final(b)@[k] == ub(CB { c, k }),
{ unimplemented!() }
#[verifier::external_body]
pub fn vec_zeroed(n: usize) -> (r: Vec<u8>)
    ensures r@.len() == n,
{ unimplemented!() }
/// bytes that start a character are told from those that continue one, and say how long it is
pub proof fn lemma_ub_class(a: CB, b: CB)
    requires 0 <= a.k < w(a.c), 0 <= b.k < w(b.c), ub(a) == ub(b),
    ensures (a.k == 0) == (b.k == 0), a.k == 0 ==> w(a.c) == w(b.c),
{
    let x = a.c as u32 as int;
    let y = b.c as u32 as int;
    assert(x < 0x110000 && y < 0x110000);

}
/// the bytes of a character determine it
pub proof fn lemma_ub_char(c: char, d: char)
    requires w(c) == w(d), forall|k: int| 0 <= k < w(c) ==> #[trigger] ub(CB { c, k }) == ub(CB { c: d, k }),
    ensures c == d,
{
    let x = c as u32 as int;
    let y = d as u32 as int;
    let n = w(c);
    assert(x < 0x110000 && y < 0x110000);
    assert(ub(CB { c, k: 0 }) == ub(CB { c: d, k: 0 }));
    if n >= 2 { assert(ub(CB { c, k: 1 }) == ub(CB { c: d, k: 1 })); }
    if n >= 3 { assert(ub(CB { c, k: 2 }) == ub(CB { c: d, k: 2 })); }
    if n >= 4 { assert(ub(CB { c, k: 3 }) == ub(CB { c: d, k: 3 })); }
    assert(x == y) by {
        if n == 2 { assert(x == 64 * (x / 64) + x % 64 && y == 64 * (y / 64) + y % 64); }
        if n == 3 {
            assert(x / 4096 == (x / 64) / 64 && y / 4096 == (y / 64) / 64);
            assert(x == 64 * (x / 64) + x % 64 && y == 64 * (y / 64) + y % 64);
            assert(x / 64 == 64 * ((x / 64) / 64) + (x / 64) % 64 && y / 64 == 64 * ((y / 64) / 64) + (y / 64) % 64);
        }
        if n == 4 {
            assert(x / 4096 == (x / 64) / 64 && y / 4096 == (y / 64) / 64);
            assert(x / 262144 == (x / 4096) / 64 && y / 262144 == (y / 4096) / 64);
            assert(x == 64 * (x / 64) + x % 64 && y == 64 * (y / 64) + y % 64);
            assert(x / 64 == 64 * ((x / 64) / 64) + (x / 64) % 64 && y / 64 == 64 * ((y / 64) / 64) + (y / 64) % 64);
            assert(x / 4096 == 64 * ((x / 4096) / 64) + (x / 4096) % 64 && y / 4096 == 64 * ((y / 4096) / 64) + (y / 4096) % 64);
        }
    }
}
/// the bytes of t stand in s at p
pub open spec fn bytes_at(s: Seq<CB>, t: Seq<CB>, p: int) -> bool {
    0 <= p && p + t.len() <= s.len() && forall|j: int| 0 <= j < t.len() ==> #[trigger] ub(t[j]) == ub(s[p + j])
}
/// t itself stands in s at p
pub open spec fn part_at(s: Seq<CB>, t: Seq<CB>, p: int) -> bool {
    0 <= p && p + t.len() <= s.len() && s.subrange(p, p + t.len()) == t
}
proof fn lemma_bytes_k(s: Seq<CB>, t: Seq<CB>, p: int, j: int)
    requires wf_text(s), wf_text(t), bytes_at(s, t, p), 0 <= j < t.len(),
    ensures s[p + j].k == t[j].k, w(s[p + j].c) == w(t[j].c), j >= t[j].k,
        forall|i: int| 0 <= i <= t[j].k ==> #[trigger] t[j - i].c == t[j].c && s[p + j - i].c == s[p + j].c && t[j - i].k == t[j].k - i && s[p + j - i].k == t[j].k - i,
    decreases j
{
    assert(wf_at(s, p + j)); assert(wf_at(t, j));
    lemma_ub_class(s[p + j], t[j]);
    if t[j].k > 0 {
        lemma_bytes_k(s, t, p, j - 1);
        assert(s[p + (j - 1)].k == t[j].k - 1);
        assert(wf_at(s, p + (j - 1)));
        assert forall|i: int| 0 <= i <= t[j].k implies #[trigger] t[j - i].c == t[j].c && s[p + j - i].c == s[p + j].c && t[j - i].k == t[j].k - i && s[p + j - i].k == t[j].k - i by {
            if i > 0 { assert(t[(j - 1) - (i - 1)].c == t[j - 1].c); }
        }
    }
}
proof fn lemma_bytes_i(s: Seq<CB>, t: Seq<CB>, p: int, j: int, i: int)
    requires wf_text(s), wf_text(t), bytes_at(s, t, p), 0 <= j < t.len(), 0 <= i <= t[j].k,
    ensures t[j - i].c == t[j].c, s[p + j - i].c == s[p + j].c, j >= i, t[j - i].k == t[j].k - i, s[p + j - i].k == t[j].k - i,
{
    lemma_bytes_k(s, t, p, j);
    assert(t[j - i].c == t[j].c);
}
/// equal bytes are equal text, at character boundaries
pub proof fn lemma_bytes_part(s: Seq<CB>, t: Seq<CB>, p: int)
    requires wf_text(s), wf_text(t), t.len() > 0,
    ensures bytes_at(s, t, p) == part_at(s, t, p), bytes_at(s, t, p) ==> bnd(s, p) && bnd(s, p + t.len()),
{
    if part_at(s, t, p) {
        assert forall|j: int| 0 <= j < t.len() implies #[trigger] ub(t[j]) == ub(s[p + j]) by { assert(s.subrange(p, p + t.len())[j] == s[p + j]); }
    }
    if bytes_at(s, t, p) {
        let n = t.len() as int;
        assert(wf_at(t, 0));
        lemma_bytes_k(s, t, p, 0);
        lemma_bytes_k(s, t, p, n - 1);
        assert(wf_at(t, n - 1));
        assert(wf_at(s, p + (n - 1)));
        if p + n < s.len() { assert(wf_at(s, p + n)); }
        assert forall|j: int| 0 <= j < n implies s[p + j] == #[trigger] t[j] by {
            // the last byte of the character that t[j] belongs to
            lemma_char_end(t, j);
            let e = j + (w(t[j].c) - 1 - t[j].k);
            lemma_bytes_k(s, t, p, j);
            lemma_bytes_k(s, t, p, e);
            let c = s[p + e].c;
            let d = t[e].c;
            assert(d == t[j].c && t[e].k == w(d) - 1);
            assert(w(c) == w(d));
            assert(wf_at(t, j));
            assert(e - j == w(d) - 1 - t[j].k && t[e].k == w(d) - 1);
            lemma_bytes_i(s, t, p, e, e - j);
            assert(p + e - (e - j) == p + j && e - (e - j) == j);
            assert forall|k: int| 0 <= k < w(c) implies #[trigger] ub(CB { c, k }) == ub(CB { c: d, k }) by {
                let i = w(d) - 1 - k;
                lemma_bytes_i(s, t, p, e, i);
                assert(t[e - i].c == d && s[p + e - i].c == c && t[e - i].k == k && s[p + e - i].k == k);
                assert(t[e - i] == CB { c: d, k });
                assert(s[p + (e - i)] == CB { c, k });
                assert(ub(t[e - i]) == ub(s[p + (e - i)]));
            }
            lemma_ub_char(c, d);
        }
        assert(s.subrange(p, p + n) =~= t);
    }
}
proof fn lemma_char_end(t: Seq<CB>, j: int)
    requires wf_text(t), 0 <= j < t.len(),
    ensures j + (w(t[j].c) - 1 - t[j].k) < t.len(), t[j + (w(t[j].c) - 1 - t[j].k)] == (CB { c: t[j].c, k: w(t[j].c) - 1 }),
    decreases w(t[j].c) - t[j].k
{
    assert(wf_at(t, j));
    if t[j].k < w(t[j].c) - 1 { lemma_char_end(t, j + 1); }
}
/// the ring buffer b of n bytes holds the last n bytes before h
pub open spec fn ring(b: Seq<u8>, n: int, s: Seq<CB>, h: int) -> bool {
    b.len() == n && n > 0 && 0 <= h <= s.len() && forall|x: int| 0 <= x && h - n <= x < h ==> b[#[trigger] (x % n)] == ub(s[x])
}
proof fn lemma_ring_push(b: Seq<u8>, n: int, s: Seq<CB>, h: int, i: int, v: u8)
    requires ring(b, n, s, h), h < s.len(), i == h % n, v == ub(s[h]),
    ensures ring(b.update(i, v), n, s, h + 1), 0 <= i < n,
{
    assert(0 <= h % n < n) by (nonlinear_arith) requires n > 0;
    let c = b.update(i, v);
    assert forall|x: int| 0 <= x && h + 1 - n <= x < h + 1 implies c[#[trigger] (x % n)] == ub(s[x]) by {
        if x < h {
            lemma_mod_diff(x, h, n);
            assert(b[x % n] == ub(s[x]));
            assert(0 <= x % n < n) by (nonlinear_arith) requires n > 0;
        }
    }
}
proof fn lemma_mod_diff(x: int, h: int, n: int)
    requires 0 <= x < h, h - x < n,
    ensures x % n != h % n,
{
    if x % n == h % n {
        assert(x == n * (x / n) + x % n) by (nonlinear_arith) requires n > 0;
        assert(h == n * (h / n) + h % n) by (nonlinear_arith) requires n > 0;
        let q = h / n - x / n;
        assert(h - x == n * q) by (nonlinear_arith) requires h == n * (h / n) + h % n, x == n * (x / n) + x % n, x % n == h % n, q == h / n - x / n;
        assert(q < 1) by (nonlinear_arith) requires n * q < n, n > 0;
        assert(q > 0) by (nonlinear_arith) requires n * q > 0, n > 0;
    }
}
proof fn lemma_mod_add(h: int, j: int, n: int)
    requires 0 <= h, 0 <= j, n > 0,
    ensures (h % n + j) % n == (h + j) % n, 0 <= h % n < n, (h + n) % n == h % n,
{
    vstd::arithmetic::div_mod::lemma_add_mod_noop(h, j, n);
    vstd::arithmetic::div_mod::lemma_add_mod_noop(h % n, j, n);
    vstd::arithmetic::div_mod::lemma_mod_twice(h, n);
    vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(h, n);
    assert(0 <= h % n < n) by (nonlinear_arith) requires n > 0;
}
//@fn evaluated::nom::FindSubstring<&'bstr> for BlockSpan::find_substring
//@impl impl<'a> BlockSpan<'a>
//@sig fn find_substring<'b>(&self, substr: &'b Txt) -> (r: Option<usize>)
//@sub `substr.as_bytes()` => `txt_bytes(substr)`
//@sub `let mut buffer = Vec :: with_capacity(substr.len());` => `let mut buffer: Vec<u8> = vec_zeroed(substr.len());`
//@sub `buffer.resize_with(substr.len(), | | 0);` => ``
//@sub `c.encode_utf8(&mut char_buffer).len()` => `encode_utf8_len(c, &mut char_buffer)`
//@sub `[0, 0, 0, 0]` => `[0u8, 0u8, 0u8, 0u8]`
//@spec
    requires wf_span(*self),
    ensures match r {
        Some(i) => part_at(span_txt(*self), substr@, i as int) && forall|p: int| 0 <= p < i ==> !#[trigger] part_at(span_txt(*self), substr@, p),
        None => forall|p: int| !#[trigger] part_at(span_txt(*self), substr@, p),
    },
//@at start
    let ghost s = span_txt(*self);
    let ghost t = substr@;
    let ghost n = t.len() as int;
    proof {
        lemma_span_bnd(*self, 0);
        assert(s.subrange(0, s.len() as int) =~= s);
        if n == 0 { assert(s.subrange(0, 0) =~= t); }
    }
//@at before `let mut __it1`
    proof {
        assert(forall|x: int| #![trigger s[x]] true);
    }
//@at before `while let`
        let ghost mut g = __it1;
        proof { assert(ring(buffer@, n, s, 0)); assert(0int % n == 0) by (nonlinear_arith) requires n > 0; }
//@loop 0
        invariant_except_break
            walk(s, __it1), g == __it1, ring(buffer@, n, s, __it1.head as int), buffer_start == __it1.head as int % n,
            forall|p: int| p + n <= __it1.head ==> !#[trigger] part_at(s, t, p),
        invariant s == span_txt(*self), t == substr@, n == t.len(), n > 0, n <= s.len(), substr_bytes@ == ubytes(t), s.len() <= cap(), wf_text(s), wf_text(t),
            n <= cap(),
        ensures forall|p: int| !#[trigger] part_at(s, t, p),
//@at loopstart 0
            let ghost h0 = i as int;
            proof {
                lemma_walk(s, g, __it1, i, c);
                g = __it1;
                assert(forall|k: int| 0 <= k < w(c) ==> s[#[trigger] (h0 + k)] == (CB { c, k })) by {
                    assert forall|k: int| 0 <= k < w(c) implies s[#[trigger] (h0 + k)] == (CB { c, k }) by { assert(s.subrange(h0, h0 + w(c))[k] == cbytes(c)[k]); }
                }
            }
//@loop 1
                invariant
                    0 <= __ix3 <= __end4, __end4 == char_size, char_size == w(c), char_size <= 4, n > 0, n == substr@.len(), n <= cap(), h0 + char_size <= s.len(),
                    ring(buffer@, n, s, h0 + __ix3), buffer_start == h0 % n, h0 >= 0,
                    forall|k: int| 0 <= k < w(c) ==> #[trigger] char_buffer@[k] == ub(CB { c, k }),
                    forall|k: int| 0 <= k < w(c) ==> s[#[trigger] (h0 + k)] == (CB { c, k }),
                decreases __end4 - __ix3,
//@at loopstart 1
                proof {
                    let j = __ix3 as int;
                    lemma_mod_add(h0, j, n);
                    assert(s[h0 + j] == CB { c, k: j });
                    assert(char_buffer@[j] == ub(CB { c, k: j }));
                    lemma_ring_push(buffer@, n, s, h0 + j, (h0 + j) % n, char_buffer@[j]);
                }
//@at before `if i + char_size < substr.len()`
            let ghost h = h0 + w(c);
            proof {
                assert(buffer_start == h % n) by { lemma_mod_add(h0, w(c), n); }
                // no match ends inside of the character
                assert forall|p: int| p + n <= h && p + n != h implies !#[trigger] part_at(s, t, p) by {
                    if part_at(s, t, p) {
                        lemma_bytes_part(s, t, p);
                        if p + n > h0 { assert(s[p + n].k != 0); }
                    }
                }
                if h < n { assert(!part_at(s, t, h - n)); }
            }
//@loop 2
                invariant_except_break all_match, forall|j: int| 0 <= j < __ix6 ==> #[trigger] ub(t[j]) == ub(s[h - n + j]),
                invariant
                    0 <= __ix6 <= __end7, __end7 == n, n > 0, n <= cap(), n == t.len(), t == substr@, substr_bytes@ == ubytes(t), ring(buffer@, n, s, h), h >= n, h <= s.len(), buffer_start == h % n,
                ensures all_match == bytes_at(s, t, h - n),
                decreases __end7 - __ix6,
//@at loopstart 2
                proof {
                    let j = __ix6 as int;
                    lemma_mod_add(h, j, n);
                    lemma_mod_add(h - n, j, n);
                    lemma_mod_add(h - n + j, 0, n);
                    assert((h - n + j + n) == h + j);
                    assert(buffer@[(h - n + j) % n] == ub(s[h - n + j]));
                    assert(ubytes(t)[j] == ub(t[j]));
                }
//@at before `if all_match`
            proof { lemma_bytes_part(s, t, h - n); }
//@end
// ---------------------------------------------------------------- nom's Offset
/// Where a slice starts in the block it is part of, in elements (stands for the address comparison of `as_ptr`).
#[verifier::external_body]
pub fn elem_ptr(p: &Block, s: &[ContentReference]) -> (r: usize)
    requires is_suffix(s@, p.content@),
    ensures r == p.content@.len() - s@.len(), p.content@.len() <= usize::MAX,
{ unimplemented!() }
pub open spec fn plen(p: Seq<ContentReference>, i: int) -> int { refs_flat(p.subrange(0, i)).len() as int }
proof fn lemma_parent_len(p: Seq<ContentReference>, i: int)
    requires wf_refs(p), 0 <= i <= p.len(),
    ensures 0 <= plen(p, i) <= cap(),
{
    lemma_refs_split(p, i);
}
proof fn lemma_parent_step(p: Seq<ContentReference>, i: int)
    requires wf_refs(p), 0 <= i < p.len(),
    ensures plen(p, i + 1) == plen(p, i) + p[i].length,
{
    assert(p.subrange(0, i + 1) =~= p.subrange(0, i).push(p[i]));
    lemma_refs_push(p.subrange(0, i), p[i]);
    lemma_wf_ref(p[i]);
}
//@fn evaluated::nom::Offset for BlockSpan::offset
//@impl impl<'a> BlockSpan<'a>
//@sub `if !ptr_eq(self.parent, second.parent) { vpanic() }` => `if !ptr_eq(self.parent, second.parent) { vdiverge() }`
//@sub `self.contents.as_ptr()` => `elem_ptr(self.parent, self.contents)`
//@sub `second.contents.as_ptr()` => `elem_ptr(second.parent, second.contents)`
//@sub `unsafe { fst.offset(self.contents.len() as isize) }` => `(fst + self.contents.len())`
//@sub `walk.as_ptr()` => `elem_ptr(self.parent, walk)`
//@spec
    requires wf_span(*self), wf_span(*second), span_start(*self) <= span_start(*second) <= span_start(*self) + self.length,
        second.contents@.len() <= self.contents@.len(), self.length > 0 || second.contents@.len() == self.contents@.len(),
    ensures r == span_start(*second) - span_start(*self),
//@at start
    let ghost P = self.parent.content@;
    let ghost N = P.len() as int;
    let ghost c0 = self.contents@.len() as int;
    let ghost c1 = second.contents@.len() as int;
    proof {
        lemma_parent_len(P, N - c0);
        if c0 > 0 {
            lemma_parent_len(P, N - c0 + 1);
            assert(self.contents@[0] == P[N - c0]);
            lemma_parent_step(P, N - c0);
        }
    }
//@at before `let mut walk`
        proof {
            assert(c1 < c0);
        }
//@at before `while walk`
        proof { assert(is_suffix(walk@, P)) by { assert(walk@ =~= P.subrange(N - walk@.len(), N)); } }
//@loop 0
        invariant
            P == self.parent.content@, P == second.parent.content@, N == P.len(), is_suffix(walk@, P), c1 <= walk@.len(), c1 == second.contents@.len(), snd == N - c1,
            wf_refs(P),
            tr + span_start(*self) == plen(P, N - walk@.len()),
        decreases walk@.len(),
//@at loopstart 0
            let ghost k = walk@.len() as int;
            proof {
                assert(k > c1);
                assert(walk@[0] == P[N - k]);
                lemma_parent_step(P, N - k);
                lemma_parent_len(P, N - k + 1);
            }
//@at loopend 0
            proof { assert(walk@ =~= P.subrange(N - walk@.len(), N)); }
//@at before `tr + second.offset`
        proof {
            assert(walk@.len() == c1);
            lemma_parent_len(P, N - c1);
            assert(second.offset as int + plen(P, N - c1) == span_start(*second));
        }
//@end
