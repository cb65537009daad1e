// Text with positions: locations, nodes, references, blocks, spans (C01, C02).

// ---------------------------------------------------------------- state of the iterators
pub open spec fn nc_rem(it: NodeChars) -> Seq<CB> decreases it { ci_rem(it.0) }
pub open spec fn ci_rem(it: CharsInternal) -> Seq<CB> decreases it {
    match it { CharsInternal::Direct(s) => s.rem(), CharsInternal::BlockSpan(i) => si_rem(i) }
}
pub open spec fn cri_rem(it: ContentReferenceIter) -> Seq<CB> decreases it {
    if it.length == 0 { Seq::empty() } else { nc_rem(it.internal).subrange(it.offset as int, it.offset + it.length) }
}
pub open spec fn bci_rem(it: BlockSpanCharIteratorInternal) -> Seq<CB> decreases it {
    match it { BlockSpanCharIteratorInternal::ContentReference(i) => cri_rem(i), BlockSpanCharIteratorInternal::NullIter(s) => s.rem() }
}
pub open spec fn si_all(it: SpanIter) -> Seq<CB> decreases it { bci_rem(*it.char_iter) + txt(refs_flat(it.cons_iter.rem())) }
pub open spec fn si_rem(it: SpanIter) -> Seq<CB> decreases it {
    (bci_rem(*it.char_iter) + txt(refs_flat(it.cons_iter.rem()))).subrange(0, it.remaining_bytes as int)
}
pub open spec fn all_wf_ref(s: Seq<ContentReference>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> wf_ref(s[i]) }

pub open spec fn wf_nc(it: NodeChars) -> bool decreases it { wf_ci(it.0) }
pub open spec fn wf_ci(it: CharsInternal) -> bool decreases it {
    match it { CharsInternal::Direct(s) => true, CharsInternal::BlockSpan(i) => wf_si(i) }
}
pub open spec fn wf_cri(it: ContentReferenceIter) -> bool decreases it {
    it.length == 0 || (wf_nc(it.internal) && it.offset + it.length <= nc_rem(it.internal).len()
        && bnd(nc_rem(it.internal), it.offset as int) && bnd(nc_rem(it.internal), it.offset + it.length))
}
pub open spec fn wf_bci(it: BlockSpanCharIteratorInternal) -> bool decreases it {
    match it { BlockSpanCharIteratorInternal::ContentReference(i) => wf_cri(i), BlockSpanCharIteratorInternal::NullIter(s) => true }
}
pub open spec fn wf_si(it: SpanIter) -> bool decreases it {
    let all = bci_rem(*it.char_iter) + txt(refs_flat(it.cons_iter.rem()));
    wf_bci(*it.char_iter) && all_wf_ref(it.cons_iter.rem()) && it.remaining_bytes <= all.len() && bnd(all, it.remaining_bytes as int)
}
pub proof fn lemma_wf_nc(it: NodeChars)
    requires wf_nc(it), ensures wf_text(nc_rem(it)), decreases it
{ lemma_wf_ci(it.0); }
pub proof fn lemma_wf_ci(it: CharsInternal)
    requires wf_ci(it), ensures wf_text(ci_rem(it)), decreases it
{ match it { CharsInternal::Direct(s) => {}, CharsInternal::BlockSpan(i) => { lemma_wf_si(i); } } }
pub proof fn lemma_wf_cri(it: ContentReferenceIter)
    requires wf_cri(it), ensures wf_text(cri_rem(it)), decreases it
{
    if it.length > 0 { lemma_wf_nc(it.internal); lemma_wf_sub(nc_rem(it.internal), it.offset as int, it.offset + it.length); }
}
pub proof fn lemma_wf_bci(it: BlockSpanCharIteratorInternal)
    requires wf_bci(it), ensures wf_text(bci_rem(it)), decreases it
{ match it { BlockSpanCharIteratorInternal::ContentReference(i) => { lemma_wf_cri(i); }, BlockSpanCharIteratorInternal::NullIter(s) => {} } }
pub proof fn lemma_wf_si(it: SpanIter)
    requires wf_si(it), ensures wf_text(si_rem(it)), wf_text(si_all(it)), wf_text(bci_rem(*it.char_iter)), wf_text(txt(refs_flat(it.cons_iter.rem()))), decreases it
{
    lemma_wf_bci(bd(it.char_iter));
    lemma_wf_refs(it.cons_iter.rem());
    lemma_wf_add(bci_rem(*it.char_iter), txt(refs_flat(it.cons_iter.rem())));
    lemma_wf_sub(si_all(it), 0, it.remaining_bytes as int);
}
pub open spec fn bd<T>(a: Box<T>) -> T { *a }

/// handing out the next segment
pub open spec fn next_seg(before: Seq<Cell>, after: Seq<Cell>, r: Option<LocatedStr>) -> bool {
    match r {
        None => before.len() == 0 && after == before,
        Some(s) => seg_room(s) && before == seg_flat(s) + after,
    }
}
pub open spec fn seg_flat(s: LocatedStr) -> Seq<Cell> { locate(s.contents@, s.location.inner) }
pub open spec fn seg_room(s: LocatedStr) -> bool { loc_room(s.location.inner, s.contents@.len() as int) }
pub open spec fn ns_rem(it: NodeSegmentsIter) -> Seq<Cell> decreases it {
    match it.0 { SegmentsInternal::OneShot(s) => locate(s.contents@, s.location.inner), SegmentsInternal::BlockSpan(i) => ss_rem(i), SegmentsInternal::Exhausted => Seq::empty() }
}
pub open spec fn rs_rem(it: RefSegmentsIter) -> Seq<Cell> decreases it {
    if it.length == 0 { Seq::empty() } else { ns_rem(it.internal).subrange(it.offset as int, it.offset + it.length) }
}
pub open spec fn ss_all(it: SpanSegmentsIter) -> Seq<Cell> decreases it, 0int {
    (match *it.segments_iter { Some(r) => rs_rem(r), None => Seq::empty() }) + refs_flat(it.references_iter.rem())
}
pub open spec fn ss_rem(it: SpanSegmentsIter) -> Seq<Cell> decreases it, 1int {
    if it.length == 0 { Seq::empty() } else { ss_all(it).subrange(it.offset as int, it.offset + it.length) }
}
pub open spec fn wf_ns(it: NodeSegmentsIter) -> bool decreases it {
    match it.0 { SegmentsInternal::OneShot(s) => loc_room(s.location.inner, s.contents@.len() as int), SegmentsInternal::BlockSpan(i) => wf_ss(i), SegmentsInternal::Exhausted => true }
}
pub open spec fn wf_rs(it: RefSegmentsIter) -> bool decreases it {
    it.length == 0 || (wf_ns(it.internal) && it.offset + it.length <= ns_rem(it.internal).len()
        && bnd(txt(ns_rem(it.internal)), it.offset as int) && bnd(txt(ns_rem(it.internal)), it.offset + it.length))
}
/// the part of wf_ss that does not speak of offset and length
pub open spec fn wf_ss0(it: SpanSegmentsIter) -> bool decreases it, 0int {
    (match *it.segments_iter { Some(r) => wf_rs(r), None => it.references_iter.rem().len() == 0 }) && all_wf_ref(it.references_iter.rem())
}
pub open spec fn wf_ss(it: SpanSegmentsIter) -> bool decreases it, 1int {
    wf_ss0(it) && (it.length == 0 || (it.offset + it.length <= ss_all(it).len()
        && bnd(txt(ss_all(it)), it.offset as int) && bnd(txt(ss_all(it)), it.offset + it.length)))
}
pub proof fn lemma_txt_locate(s: Seq<CB>, l: Location)
    ensures txt(locate(s, l)) == s,
{ assert(txt(locate(s, l)) =~= s); }

//@props C01 C02 C04
// ---------------------------------------------------------------- locations
//@fn source_location::Located::new
//@spec
    ensures r.location == location, r.contents == contents,
//@end
//@fn source_location::Located::location
//@spec
    ensures *r == self.location.inner,
//@end
//@fn source_location::Location::advance_line
//@spec
    requires loc_room(*self, 1),
    ensures r == adv(*self, '\n'),
//@end
//@fn source_location::Location::advance_character
//@spec
    requires loc_room(*self, 1),
    ensures forall|c: char| c != '\n' ==> r == #[trigger] adv(*self, c),
//@end
//@fn source_location::Located<&'astr>::slice
//@sub `self.contents[0..bytes]` => `self.contents.sub(0, bytes)`
//@sub `&self.contents[bytes..(bytes + length)]` => `self.contents.sub(bytes, bytes + length)`
//@spec
    requires
        bytes < self.contents@.len(), bytes + length <= self.contents@.len(),
        bnd(self.contents@, bytes as int), bnd(self.contents@, bytes + length), seg_room(*self),
    ensures
        r.contents@ == self.contents@.subrange(bytes as int, bytes + length),
        r.location.inner == loc_at(self.contents@, self.location.inner, bytes as int),
        seg_flat(r) == seg_flat(*self).subrange(bytes as int, bytes + length), seg_room(r),
//@loop 0
        invariant
            bytes < self.contents@.len(), bytes + length <= self.contents@.len(), bnd(self.contents@, 0),
            bnd(self.contents@, bytes as int), bnd(self.contents@, bytes + length), seg_room(*self),
            __it1.rem().len() <= bytes,
            __it1.rem() == self.contents@.subrange(bytes - __it1.rem().len(), bytes as int),
            new_location == loc_at(self.contents@, self.location.inner, bytes - __it1.rem().len()),
        ensures __it1.rem().len() == 0,
        decreases __it1.rem().len(),
//@at loopstart 0
            proof {
                let s = self.contents@;
                let ghost p = bytes - __it1.rem().len() - w(c);
                let ghost old_rem = cbytes(c) + __it1.rem();
                assert(old_rem.len() == w(c) + __it1.rem().len());
                assert(old_rem == s.subrange(p, bytes as int));
                assert(s.subrange(p, p + w(c)) =~= old_rem.subrange(0, w(c)));
                assert(old_rem.subrange(0, w(c)) =~= cbytes(c));
                assert(__it1.rem() =~= old_rem.subrange(w(c), old_rem.len() as int));
                lemma_loc_char(s, self.location.inner, p, c);
                lemma_room(s, self.location.inner, s.len() as int, p);
            }
//@at before `Self { location : Marker`
        proof {
            lemma_locate_sub(self.contents@, self.location.inner, bytes as int, bytes + length);
            lemma_room(self.contents@, self.location.inner, self.contents@.len() as int, bytes as int);
        }
//@end
//@fn source_location::Located<String>::as_str
//@spec
    ensures r.contents@ == self.contents@, r.location == self.location,
//@end
//@fn source_location::From<LocatedStr<'a>> for LocatedString::from
//@sub `other.contents.into()` => `txt_to_owned(other.contents)`
//@impl none
//@sig fn located_to_owned<'a>(other: LocatedStr<'a>) -> (r: LocatedString)
//@spec
    ensures r.contents@ == other.contents@, r.location == other.location,
//@end
//@fn source_location::Located<String>::slice
//@sub `self.as_str().slice(bytes, length).into()` => `located_to_owned(self.as_str().slice(bytes, length))`
//@spec
    requires
        bytes < self.contents@.len(), bytes + length <= self.contents@.len(),
        bnd(self.contents@, bytes as int), bnd(self.contents@, bytes + length), loc_room(self.location.inner, self.contents@.len() as int),
    ensures
        locate(r.contents@, r.location.inner) == locate(self.contents@, self.location.inner).subrange(bytes as int, bytes + length),
        loc_room(r.location.inner, r.contents@.len() as int), r.contents@.len() == length,
//@end
// ---------------------------------------------------------------- nodes
//@fn evaluated::nodes::EvaluatedNode::len
//@spec
    requires wf_node(*self),
    ensures r == node_flat(*self).len(),
//@at start
    proof { lemma_node_block(*self); }
//@end
//@fn evaluated::nodes::EvaluatedNode::chars
//@sig fn chars<'a>(&'a self) -> (r: NodeChars<'a>)
//@spec
    requires wf_node(*self),
    ensures wf_nc(r), nc_rem(r) == txt(node_flat(*self)),
//@at start
    proof { lemma_node_block(*self); }
//@end
//@fn evaluated::nodes::Iterator for Chars::next
//@spec
    requires wf_nc(*old(self)),
    ensures wf_nc(*final(self)), next_char(nc_rem(*old(self)), nc_rem(*final(self)), r),
//@end
//@fn evaluated::nodes::Iterator for CharsInternal::next
//@spec
    requires wf_ci(*old(self)),
    ensures wf_ci(*final(self)), next_char(ci_rem(*old(self)), ci_rem(*final(self)), r),
//@end
//@fn evaluated::nodes::EvaluatedNode::segments
//@sig fn segments<'a>(&'a self) -> (r: NodeSegmentsIter<'a>)
//@spec
    requires wf_node(*self),
    ensures wf_ns(r), ns_rem(r) == node_flat(*self),
//@at start
    proof { lemma_node_block(*self); }
//@end
//@fn evaluated::nodes::Iterator for SegmentsIter::next
//@spec
    requires wf_ns(*old(self)),
    ensures wf_ns(*final(self)), next_seg(ns_rem(*old(self)), ns_rem(*final(self)), r),
//@end

/// a node that holds a block reads as that block
pub proof fn lemma_node_block(n: EvaluatedNode)
    ensures
        match n {
            EvaluatedNode::Constant(ls) => txt(node_flat(n)) == ls.contents@ && node_flat(n).len() == ls.contents@.len(),
            EvaluatedNode::Concat(b) => node_flat(n) == block_flat(*b) && wf_node(n) == wf_block(*b),
            EvaluatedNode::VariableReference(v) => node_flat(n) == block_flat(*v.value) && wf_node(n) == wf_block(*v.value),
            EvaluatedNode::SubstitutionReference(v) => node_flat(n) == block_flat(*v.value) && wf_node(n) == wf_block(*v.value),
            EvaluatedNode::Evaluated(v) => node_flat(n) == block_flat(*v.value) && wf_node(n) == wf_block(*v.value),
        },
{
    match n {
        EvaluatedNode::Constant(ls) => { lemma_txt_locate(ls.contents@, ls.location.inner); }
        EvaluatedNode::Concat(b) => { lemma_block(ad(b)); }
        EvaluatedNode::VariableReference(v) => { lemma_block(ad(v.value)); }
        EvaluatedNode::SubstitutionReference(v) => { lemma_block(ad(v.value)); }
        EvaluatedNode::Evaluated(v) => { lemma_block(ad(v.value)); }
    }
}

pub proof fn lemma_concat_nodes()
    ensures forall|b: Arc<Block>| #![trigger wf_node(EvaluatedNode::Concat(b))] #![trigger node_flat(EvaluatedNode::Concat(b))] wf_node(EvaluatedNode::Concat(b)) == wf_block(*b) && node_flat(EvaluatedNode::Concat(b)) == block_flat(*b),
{
    assert forall|b: Arc<Block>| #![trigger wf_node(EvaluatedNode::Concat(b))] #![trigger node_flat(EvaluatedNode::Concat(b))] wf_node(EvaluatedNode::Concat(b)) == wf_block(*b) && node_flat(EvaluatedNode::Concat(b)) == block_flat(*b) by {
        lemma_node_block(EvaluatedNode::Concat(b));
    }
}

// ---------------------------------------------------------------- references
//@fn evaluated::content_reference::ContentReference::new_from_node
//@spec
    requires wf_node(*node),
    ensures wf_ref(r), r.node == node, ref_flat(r) == node_flat(*node), r.offset == 0, r.length == node_flat(*node).len(),
//@at start
    proof {
        lemma_wf_node(ad(node));
        let f = node_flat(ad(node));
        assert(f.subrange(0, f.len() as int) =~= f);
        if f.len() > 0 { assert(wf_at(txt(f), 0)); }
    }
//@end
//@fn evaluated::content_reference::ContentReference::new_from_node_slice
//@spec
    requires wf_node(*node), offset < node_flat(*node).len(), offset + length <= node_flat(*node).len(),
        bnd(txt(node_flat(*node)), offset as int), bnd(txt(node_flat(*node)), offset + length),
    ensures wf_ref(r), r.node == node, r.offset == offset, r.length == length, ref_flat(r) == node_flat(*node).subrange(offset as int, offset + length),
//@at start
    proof { lemma_wf_node(ad(node)); }
//@end
//@fn evaluated::content_reference::ContentReference::chars_from
//@sig fn chars_from<'a>(&'a self, skip: usize) -> (r: ContentReferenceIter<'a>)
//@spec
    requires wf_ref(*self), skip <= cap(), skip <= self.length ==> bnd(txt(ref_flat(*self)), skip as int),
    ensures wf_cri(r), cri_rem(r) == (if skip <= self.length { txt(ref_flat(*self)).subrange(skip as int, self.length as int) } else { Seq::empty() }),
//@at start
    proof {
        lemma_wf_ref(*self);
        lemma_wf_node(ad(self.node));
        let f = node_flat(ad(self.node));
        let o = self.offset as int;
        let l = self.length as int;
        lemma_txt_sub(f, o, o + l);
        if skip <= l {
            lemma_bnd_sub(txt(f), o, o + l, skip as int);
            assert(txt(f).subrange(o, o + l).subrange(skip as int, l) =~= txt(f).subrange(o + skip, o + l));
        }
    }
//@end
//@fn evaluated::content_reference::ContentReference::chars
//@sig fn chars<'a>(&'a self) -> (r: ContentReferenceIter<'a>)
//@spec
    requires wf_ref(*self),
    ensures wf_cri(r), cri_rem(r) == txt(ref_flat(*self)),
//@at start
    proof {
        lemma_wf_ref(*self);
        let t = txt(ref_flat(*self));
        if t.len() > 0 { assert(wf_at(t, 0)); }
        assert(t.subrange(0, t.len() as int) =~= t);
    }
//@end
//@fn evaluated::content_reference::Iterator for ContentReferenceIter::next
//@spec
    requires wf_cri(*old(self)),
    ensures wf_cri(*final(self)), next_char(cri_rem(*old(self)), cri_rem(*final(self)), r),
//@at start
    let ghost all = nc_rem(old(self).internal);
    let ghost o = old(self).offset as int;
    let ghost l = old(self).length as int;
    proof { if l > 0 { lemma_wf_nc(old(self).internal); } }
//@at after `let mut tr = self.internal.next()?;`
    proof {
        lemma_next_char(all, nc_rem(self.internal), Some(tr));
    }
//@loop 0
        invariant
            wf_nc(self.internal), self.length == l, l > 0, o + l <= all.len(), wf_text(all), bnd(all, o), bnd(all, o + l),
            0 <= self.offset <= o, bnd(all, o - self.offset),
            o - self.offset + w(tr) <= all.len(), bnd(all, o - self.offset + w(tr)), 1 <= w(tr),
            nc_rem(self.internal) == all.subrange(o - self.offset + w(tr), all.len() as int),
            all.subrange(o - self.offset, o - self.offset + w(tr)) == cbytes(tr),
            forall|i: int| 0 < i < w(tr) ==> !#[trigger] bnd(all, o - self.offset + i),
        decreases self.offset,
//@at loopstart 0
        let ghost tr0 = tr;
        let ghost p = o - self.offset;
        proof {
            if self.offset < w(tr) { assert(!bnd(all, p + self.offset)); }
            lemma_wf_sub(all, p + w(tr), all.len() as int);
        }
//@at loopend 0
        proof {
            let b = all.subrange(p + w(tr0), all.len() as int);
            lemma_next_char(b, nc_rem(self.internal), Some(tr));
            assert(b.subrange(w(tr), b.len() as int) =~= all.subrange(p + w(tr0) + w(tr), all.len() as int));
            assert(b.subrange(0, w(tr)) =~= all.subrange(p + w(tr0), p + w(tr0) + w(tr)));
            lemma_bnd_sub(all, p + w(tr0), all.len() as int, w(tr));
            assert forall|i: int| 0 < i < w(tr) implies !#[trigger] bnd(all, o - self.offset + i) by {
                lemma_bnd_sub(all, p + w(tr0), all.len() as int, i);
                assert(!bnd(b, i));
            }
        }
//@at before `self.length -= char_len(tr);`
        proof {
            if l < w(tr) { assert(!bnd(all, o + l)); }
            assert(cri_rem(*old(self)) == all.subrange(o, o + l));
            let rest = all.subrange(o + w(tr), all.len() as int);
            assert(all.subrange(o, o + l) =~= all.subrange(o, o + w(tr)) + rest.subrange(0, l - w(tr)));
            lemma_bnd_sub(all, o + w(tr), all.len() as int, l - w(tr));
            lemma_bnd_sub(all, o + w(tr), all.len() as int, 0);
            assert(l == w(tr) ==> rest.subrange(0, l - w(tr)) =~= Seq::empty());
        }
//@end
//@fn evaluated::content_reference::ContentReference::char_indices
//@sig fn char_indices<'a>(&'a self) -> (r: ContentReferenceIndexIter<'a>)
//@spec
    requires wf_ref(*self),
    ensures r.front_offset == 0, wf_cri(r.indices), cri_rem(r.indices) == txt(ref_flat(*self)),
//@end
//@fn evaluated::content_reference::Iterator for ContentReferenceIndexIter::next
//@spec
    requires wf_cri(old(self).indices), old(self).front_offset + cri_rem(old(self).indices).len() <= cap(),
    ensures
        wf_cri(final(self).indices),
        final(self).front_offset + cri_rem(final(self).indices).len() == old(self).front_offset + cri_rem(old(self).indices).len(),
        match r {
            None => cri_rem(old(self).indices).len() == 0,
            Some((i, c)) => i == old(self).front_offset && next_char(cri_rem(old(self).indices), cri_rem(final(self).indices), Some(c)),
        },
//@at start
    proof { lemma_wf_cri(old(self).indices); }
//@at after `let tr_char = self.indices.next()?;`
    proof { lemma_next_char(cri_rem(old(self).indices), cri_rem(self.indices), Some(tr_char)); }
//@end
//@fn evaluated::content_reference::ContentReference::append_to_string
//@spec
    requires wf_ref(*self),
    ensures final(buffer)@ == old(buffer)@ + txt(ref_flat(*self)),
//@loop 0
        invariant wf_cri(__it1), buffer@ + cri_rem(__it1) == old(buffer)@ + txt(ref_flat(*self)),
        ensures cri_rem(__it1).len() == 0,
//@at loopend 0
            proof { assert(buffer@ + cri_rem(__it1) =~= old(buffer)@ + txt(ref_flat(*self))); }
//@at end
    proof { assert(buffer@ =~= old(buffer)@ + txt(ref_flat(*self))); }
//@end
//@fn evaluated::content_reference::ContentReference::segments
//@sig fn segments<'a>(&'a self) -> (r: RefSegmentsIter<'a>)
//@spec
    requires wf_ref(*self),
    ensures wf_rs(r), rs_rem(r) == ref_flat(*self),
//@at start
    proof { if self.length == 0 { assert(ref_flat(*self) =~= Seq::empty()); } }
//@end

proof fn lemma_seg_cut(all: Seq<Cell>, s: LocatedStr, rest: Seq<Cell>, o: int, l: int)
    requires all == seg_flat(s) + rest, 0 <= o, 0 < l, o + l <= all.len(), bnd(txt(all), o), bnd(txt(all), o + l), wf_text(txt(rest)), seg_room(s),
    ensures
        seg_flat(s).len() == s.contents@.len(), txt(seg_flat(s)) == s.contents@,
        txt(all) == s.contents@ + txt(rest),
        // the segment is skipped as a whole
        s.contents@.len() <= o ==> all.subrange(o, o + l) == rest.subrange(o - s.contents@.len(), o - s.contents@.len() + l)
            && bnd(txt(rest), o - s.contents@.len()) && bnd(txt(rest), o - s.contents@.len() + l),
        // it contributes its part from o on
        o < s.contents@.len() ==> bnd(s.contents@, o),
        o < s.contents@.len() && o + l <= s.contents@.len() ==> bnd(s.contents@, o + l) && all.subrange(o, o + l) == seg_flat(s).subrange(o, o + l),
        o < s.contents@.len() < o + l ==> all.subrange(o, o + l) == seg_flat(s).subrange(o, s.contents@.len() as int) + rest.subrange(0, o + l - s.contents@.len())
            && bnd(txt(rest), 0) && bnd(txt(rest), o + l - s.contents@.len()),
{
    lemma_txt_locate(s.contents@, s.location.inner);
    lemma_txt_add(seg_flat(s), rest);
    let n = s.contents@.len() as int;
    if n <= o { assert(all.subrange(o, o + l) =~= rest.subrange(o - n, o - n + l)); }
    if o < n && o + l <= n {
        assert(all.subrange(o, o + l) =~= seg_flat(s).subrange(o, o + l));
    }
    if o < n && n < o + l { assert(all.subrange(o, o + l) =~= seg_flat(s).subrange(o, n) + rest.subrange(0, o + l - n)); if rest.len() > 0 { assert(wf_at(txt(rest), 0)); } }
}
pub proof fn lemma_wf_ns(it: NodeSegmentsIter)
    requires wf_ns(it), ensures wf_text(txt(ns_rem(it))), decreases it
{
    match it.0 {
        SegmentsInternal::OneShot(s) => { lemma_txt_locate(s.contents@, s.location.inner); }
        SegmentsInternal::BlockSpan(i) => { lemma_wf_ss(i); }
        SegmentsInternal::Exhausted => { assert(txt(ns_rem(it)) =~= Seq::empty()); }
    }
}
pub proof fn lemma_wf_rs(it: RefSegmentsIter)
    requires wf_rs(it), ensures wf_text(txt(rs_rem(it))), decreases it
{
    if it.length > 0 {
        lemma_wf_ns(it.internal);
        let f = ns_rem(it.internal);
        lemma_txt_sub(f, it.offset as int, it.offset + it.length);
        lemma_wf_sub(txt(f), it.offset as int, it.offset + it.length);
    }
}
pub proof fn lemma_wf_ss0(it: SpanSegmentsIter)
    requires wf_ss0(it), ensures wf_text(txt(ss_all(it))), decreases it, 0int
{
    lemma_wf_refs(it.references_iter.rem());
    let inner = match *it.segments_iter { Some(r) => rs_rem(r), None => Seq::empty() };
    match bd(it.segments_iter) { Some(r) => { lemma_wf_rs(r); } None => {} }
    assert(wf_text(txt(inner)));
    lemma_txt_add(inner, refs_flat(it.references_iter.rem()));
    lemma_wf_add(txt(inner), txt(refs_flat(it.references_iter.rem())));
}
pub proof fn lemma_wf_ss(it: SpanSegmentsIter)
    requires wf_ss(it), ensures wf_text(txt(ss_rem(it))), wf_text(txt(ss_all(it))), decreases it, 1int
{
    lemma_wf_ss0(it);
    let f = ss_all(it);
    if it.length > 0 {
        lemma_txt_sub(f, it.offset as int, it.offset + it.length);
        lemma_wf_sub(txt(f), it.offset as int, it.offset + it.length);
    } else { assert(txt(ss_rem(it)) =~= Seq::empty()); }
}
//@fn evaluated::content_reference::Iterator for SegmentsIter::next
//@spec
    requires wf_rs(*old(self)),
    ensures wf_rs(*final(self)), next_seg(rs_rem(*old(self)), rs_rem(*final(self)), r), r.is_some() ==> r.unwrap().contents@.len() > 0,
//@at start
    let ghost want = rs_rem(*old(self));
    proof { if self.length > 0 { lemma_wf_ns(self.internal); } }
//@at after `let mut tr = self.internal.next()?;`
    let ghost mut all = ns_rem(old(self).internal);
    proof {
        lemma_wf_ns(self.internal);
    }
//@loop 0
        invariant
            self.length == old(self).length, self.length > 0, wf_ns(self.internal), seg_room(tr),
            all == seg_flat(tr) + ns_rem(self.internal), self.offset + self.length <= all.len(),
            bnd(txt(all), self.offset as int), bnd(txt(all), self.offset + self.length),
            wf_text(txt(ns_rem(self.internal))),
            want == all.subrange(self.offset as int, self.offset + self.length),
//@at loopstart 0
        proof { lemma_seg_cut(all, tr, ns_rem(self.internal), self.offset as int, self.length as int); all = ns_rem(self.internal); }
//@at loopend 0
        proof { lemma_wf_ns(self.internal); }
//@at before `tr = tr.slice(self.offset, tr.len() - self.offset);`
        let ghost o = self.offset as int;
        let ghost n = tr.contents@.len() as int;
        proof {
            lemma_seg_cut(all, tr, ns_rem(self.internal), o, self.length as int);
        }
        let ghost tr0 = tr;
//@at after `tr = tr.slice(self.offset, tr.len() - self.offset);`
        proof {
            assert(tr.contents@.len() == n - o);
            if o + self.length <= n {
                lemma_bnd_sub(tr0.contents@, o, n, self.length as int);
                assert(seg_flat(tr0).subrange(o, n).subrange(0, self.length as int) =~= seg_flat(tr0).subrange(o, o + self.length));
            } 
            if tr.contents@.len() > 0 { assert(wf_at(tr.contents@, 0)); }
        }
        let ghost tr1 = tr;
//@at before `self.length -= tr.len();`
        proof {
            assert(seg_flat(tr1).len() == tr1.contents@.len());
            assert(seg_flat(tr).len() == tr.contents@.len());
            if o + self.length <= n {
                assert(tr.contents@.len() == self.length);
                assert(seg_flat(tr) =~= want);
                assert(want =~= seg_flat(tr) + Seq::empty());
            } else {
                assert(want =~= seg_flat(tr) + ns_rem(self.internal).subrange(0, self.length - tr.contents@.len()));
            }
        }
//@end

// ---------------------------------------------------------------- spans
//@fn evaluated::block_span::BlockSpan::revalidate_offset
//@spec
    requires wf_span0(*old(self)),
    ensures
        wf_span(*final(self)), span_flat(*final(self)) == span_flat(*old(self)), final(self).length == old(self).length, final(self).parent == old(self).parent,
        span_start(*final(self)) == span_start(*old(self)), final(self).contents@.len() <= old(self).contents@.len(),
        old(self).length == 0 ==> *final(self) == *old(self),
//@at start
    let ghost want = span_flat(*old(self));
    proof { lemma_span_nonempty(*self); }
//@loop 0
        invariant
            wf_span0(*self), self.length == old(self).length, self.parent == old(self).parent, self.length > 0,
            span_start(*self) == span_start(*old(self)), self.contents@.len() <= old(self).contents@.len(),
            want == span_flat(*self), self.contents@.len() > 0, start_span_length == self.contents@[0].length,
        decreases self.contents@.len(),
//@at loopstart 0
        let ghost c0 = self.contents@;
        proof {
            lemma_refs_first(c0);
            lemma_wf_ref(c0[0]);
            lemma_txt_add(ref_flat(c0[0]), refs_flat(c0.drop_first()));
            let o = self.offset as int;
            let l = self.length as int;
            let n = c0[0].length as int;
            assert(refs_flat(c0).subrange(o, o + l) =~= refs_flat(c0.drop_first()).subrange(o - n, o - n + l));
            assert(forall|i: int| #![trigger c0.drop_first()[i]] 0 <= i < c0.len() - 1 ==> c0.drop_first()[i] == c0[i + 1]);
        }
//@at before `start_span_length = self.contents[0].length;` 1
        proof {
            assert(self.contents@ =~= c0.drop_first());
            let p = self.parent.content@;
            let k = p.len() - c0.len();
            assert(p.subrange(0, k + 1).drop_last() =~= p.subrange(0, k));
            assert(c0[0] == p[k]);
            assert(self.contents@ =~= p.subrange(k + 1, p.len() as int));
            lemma_span_nonempty(*self);
        }
//@end
proof fn lemma_span_nonempty(s: BlockSpan)
    requires wf_span0(s),
    ensures s.length > 0 ==> s.contents@.len() > 0,
{
    if s.contents@.len() == 0 { assert(refs_flat(s.contents@).len() == 0); }
}
//@fn evaluated::block_span::BlockSpan::parent
//@sig fn parent(&self) -> (r: &Block)
//@spec
    ensures *r == *self.parent,
//@end
//@fn evaluated::block_span::BlockSpan::len
//@spec
    requires wf_span(*self),
    ensures r == span_flat(*self).len(),
//@end
//@fn evaluated::block_span::BlockSpan::empty
//@sub `parent: &EMPTY_BLOCK` => `parent: empty_block_ref()`
//@sub `contents: &[]` => `contents: empty_refs()`
//@spec
    ensures wf_span(r), span_flat(r).len() == 0, r.parent.sensitivity@ == Set::<VariableName>::empty(),
//@at start
    proof { assert(forall|a: Seq<ContentReference>, b: Seq<ContentReference>| a.len() == 0 && b.len() == 0 ==> #[trigger] is_suffix(a, b)) by {
        assert forall|a: Seq<ContentReference>, b: Seq<ContentReference>| a.len() == 0 && b.len() == 0 implies #[trigger] is_suffix(a, b) by { assert(a =~= b.subrange(0, 0)); }
    } }
//@end
//@fn evaluated::block_span::BlockSpan::chars
//@spec
    requires wf_span(*self),
    ensures wf_si(r), si_rem(r) == span_txt(*self),
//@end
//@fn evaluated::block_span::Iter::new
//@spec
    requires wf_span(*parent),
    ensures wf_si(r), si_rem(r) == span_txt(*parent),
//@at start
    proof { lemma_span_head(*parent); }
//@end
/// the first reference of a span contributes from the offset on
proof fn lemma_span_head(s: BlockSpan)
    requires wf_span(s),
    ensures
        s.contents@.len() > 0 ==> {
            let c = s.contents@;
            let h = c[0];
            let all = (if s.offset <= h.length { txt(ref_flat(h)).subrange(s.offset as int, h.length as int) } else { Seq::empty() }) + txt(refs_flat(c.drop_first()));
            &&& wf_ref(h) && all_wf_ref(c.drop_first())
            &&& s.offset <= h.length ==> bnd(txt(ref_flat(h)), s.offset as int)
            &&& s.length <= all.len() && bnd(all, s.length as int) && all.subrange(0, s.length as int) == span_txt(s)
        },
        s.contents@.len() == 0 ==> s.length == 0 && span_txt(s).len() == 0,
        s.offset <= cap(),
        wf_text(txt(refs_flat(s.contents@))),
{
    let c = s.contents@;
    lemma_wf_refs(c);
    if c.len() > 0 {
        let h = c[0];
        let f = refs_flat(c);
        let o = s.offset as int;
        let l = s.length as int;
        lemma_refs_first(c);
        lemma_wf_ref(h);
        assert(forall|i: int| #![trigger c.drop_first()[i]] 0 <= i < c.len() - 1 ==> c.drop_first()[i] == c[i + 1]);
        lemma_wf_refs(c.drop_first());
        lemma_txt_add(ref_flat(h), refs_flat(c.drop_first()));
        lemma_txt_sub(f, o, o + l);
        let all = (if s.offset <= h.length { txt(ref_flat(h)).subrange(s.offset as int, h.length as int) } else { Seq::empty() }) + txt(refs_flat(c.drop_first()));
        if s.offset <= h.length {
            assert(all =~= txt(f).subrange(o, f.len() as int));
            lemma_bnd_sub(txt(f), o, f.len() as int, l);
            assert(all.subrange(0, l) =~= txt(f).subrange(o, o + l));
            if s.offset < h.length { assert(txt(ref_flat(h))[o] == txt(f)[o]); }
        } else {
            assert(l == 0);
            if all.len() > 0 { lemma_wf_add(Seq::empty(), txt(refs_flat(c.drop_first()))); assert(all =~= txt(refs_flat(c.drop_first()))); assert(wf_at(all, 0)); }
            assert(all.subrange(0, 0) =~= span_txt(s));
        }
    } else {
        assert(refs_flat(c).len() == 0);
    }
}
//@fn evaluated::block_span::Iterator for Iter::next
//@spec
    requires wf_si(*old(self)),
    ensures wf_si(*final(self)), next_char(si_rem(*old(self)), si_rem(*final(self)), r),
//@at start
    let ghost all = si_all(*old(self));
    let ghost n = old(self).remaining_bytes as int;
    proof {
        lemma_wf_si(*old(self));
        if n == 0 { assert(si_rem(*old(self)) =~= Seq::empty()); }
    }
//@loop 0
        invariant
            wf_bci(*self.char_iter), all_wf_ref(self.cons_iter.rem()), self.remaining_bytes == n, 0 < n <= all.len(), wf_text(all), bnd(all, n),
            tr.is_some() ==> all == cbytes(tr.unwrap()) + (bci_rem(*self.char_iter) + txt(refs_flat(self.cons_iter.rem()))),
            tr.is_none() ==> all == txt(refs_flat(self.cons_iter.rem())),
//@at before `while tr.is_none()`
    proof {
        if tr.is_some() { assert(all =~= cbytes(tr.unwrap()) + (bci_rem(*self.char_iter) + txt(refs_flat(self.cons_iter.rem())))); }
        else { assert(all =~= txt(refs_flat(self.cons_iter.rem()))); }
    }
//@at loopstart 0
        let ghost c0 = self.cons_iter.rem();
        proof {
            if c0.len() == 0 { assert(refs_flat(c0).len() == 0); }
            else {
                lemma_refs_first(c0);
                lemma_txt_add(ref_flat(c0[0]), refs_flat(c0.drop_first()));
                assert(forall|i: int| #![trigger c0.drop_first()[i]] 0 <= i < c0.len() - 1 ==> c0.drop_first()[i] == c0[i + 1]);
            }
        }
//@at loopend 0
        proof {
            if tr.is_some() { assert(all =~= cbytes(tr.unwrap()) + (bci_rem(*self.char_iter) + txt(refs_flat(self.cons_iter.rem())))); }
            else { assert(all =~= txt(refs_flat(self.cons_iter.rem()))); }
        }
//@at before `self.remaining_bytes -= char_len(tr.unwrap());`
    proof {
        let c = tr.unwrap();
        let rest = bci_rem(*self.char_iter) + txt(refs_flat(self.cons_iter.rem()));
        lemma_next_char(all, rest, tr);
        if n < w(c) { assert(!bnd(all, n)); }
        lemma_bnd_sub(all, w(c), all.len() as int, n - w(c));
        assert(all.subrange(0, n) =~= cbytes(c) + rest.subrange(0, n - w(c)));
    }
//@end
//@fn evaluated::block_span::BlockSpan::char_indices
//@spec
    requires wf_span(*self),
    ensures wf_xi(r), xi_rem(r) == span_txt(*self), r.head == 0,
//@at start
    proof { lemma_wf_refs(self.contents@); }
//@end
pub open spec fn wf_xi(it: SpanIndexIter) -> bool { wf_si(it.char_iter) && it.head + xi_rem(it).len() <= cap() }
pub open spec fn xi_rem(it: SpanIndexIter) -> Seq<CB> { si_rem(it.char_iter) }
//@fn evaluated::block_span::IndexIter::new
//@spec
    requires wf_span(*parent),
    ensures wf_xi(r), xi_rem(r) == span_txt(*parent), r.head == 0,
//@end
//@fn evaluated::block_span::Iterator for IndexIter::next
//@spec
    requires wf_xi(*old(self)),
    ensures wf_xi(*final(self)), next_index(*old(self), *final(self), r),
//@at start
    proof { lemma_wf_si(old(self).char_iter); }
//@at after `let tr_char = self.char_iter.next()?;`
    proof { lemma_next_char(xi_rem(*old(self)), si_rem(self.char_iter), Some(tr_char)); }
//@end
pub open spec fn next_index(a: SpanIndexIter, b: SpanIndexIter, r: Option<(usize, char)>) -> bool {
    match r {
        None => xi_rem(a).len() == 0 && xi_rem(b) == xi_rem(a) && b.head == a.head,
        Some((i, c)) => i == a.head && b.head == a.head + w(c) && next_char(xi_rem(a), xi_rem(b), Some(c)),
    }
}
//@fn evaluated::block_span::BlockSpan::into_string
//@spec
    requires wf_span(*self),
    ensures r@ == span_txt(*self),
//@at start
    proof { if self.length == 0 { assert(span_txt(*self) =~= Seq::empty()); } }
//@loop 0
        invariant wf_si(__it1), buffer@ + si_rem(__it1) == span_txt(*self),
        ensures si_rem(__it1).len() == 0,
//@at loopend 0
            proof { assert(buffer@ + si_rem(__it1) =~= span_txt(*self)); }
//@end
//@fn evaluated::block_span::BlockSpan::segments
//@spec
    requires wf_span(*self),
    ensures wf_ss(r), ss_rem(r) == span_flat(*self),
//@end
//@fn evaluated::block_span::SegmentsIter::new
//@spec
    requires wf_span(*parent),
    ensures wf_ss(r), ss_rem(r) == span_flat(*parent),
//@at start
    proof {
        lemma_wf_refs(parent.contents@);
        let c = parent.contents@;
        if c.len() > 0 {
            lemma_refs_first(c);
            assert(forall|i: int| #![trigger c.drop_first()[i]] 0 <= i < c.len() - 1 ==> c.drop_first()[i] == c[i + 1]);
        } else { assert(refs_flat(c).len() == 0); }
        if parent.length == 0 { assert(span_flat(*parent) =~= Seq::empty()); }
    }
//@end
//@fn evaluated::block_span::SegmentsIter::next_span
//@spec
    requires wf_ss0(*old(self)),
    ensures
        wf_ss0(*final(self)), final(self).offset == old(self).offset, final(self).length == old(self).length,
        old(self).length == 0 ==> r.is_none() && *final(self) == *old(self),
        old(self).length > 0 ==> next_seg(ss_all(*old(self)), ss_all(*final(self)), r),
//@at start
    let ghost all = ss_all(*old(self));
    proof {
        if self.references_iter.rem().len() == 0 { assert(refs_flat(self.references_iter.rem()) =~= Seq::empty()); }
        assert(self.segments_iter.is_none() ==> ss_all(*self) =~= Seq::empty());
    }
//@loop 0
        invariant
            wf_ss0(*self), self.offset == old(self).offset, self.length == old(self).length, self.length > 0, self.segments_iter.is_some(), all == ss_all(*old(self)),
            tr.is_some() ==> seg_room(tr.unwrap()) && all == seg_flat(tr.unwrap()) + ss_all(*self),
            tr.is_none() ==> all == refs_flat(self.references_iter.rem()) && all == ss_all(*self),
//@at before `while tr.is_none()`
    proof {
        if tr.is_some() { assert(all =~= seg_flat(tr.unwrap()) + ss_all(*self)); }
        else { assert(all =~= refs_flat(self.references_iter.rem())); assert(ss_all(*self) =~= all); }
    }
//@at loopstart 0
        let ghost c0 = self.references_iter.rem();
        proof {
            if c0.len() == 0 { assert(refs_flat(c0) =~= Seq::empty()); }
            else {
                lemma_refs_first(c0);
                assert(forall|i: int| #![trigger c0.drop_first()[i]] 0 <= i < c0.len() - 1 ==> c0.drop_first()[i] == c0[i + 1]);
            }
        }
//@at loopend 0
        proof {
            if tr.is_some() { assert(all =~= seg_flat(tr.unwrap()) + ss_all(*self)); }
            else { assert(all =~= refs_flat(self.references_iter.rem())); assert(ss_all(*self) =~= all); }
        }
//@end
//@fn evaluated::block_span::Iterator for SegmentsIter::next
//@spec
    requires wf_ss(*old(self)),
    ensures wf_ss(*final(self)), next_seg(ss_rem(*old(self)), ss_rem(*final(self)), r), r.is_some() ==> r.unwrap().contents@.len() > 0,
//@at start
    let ghost want = ss_rem(*old(self));
    proof { lemma_wf_ss(*self); if self.length == 0 { assert(want =~= Seq::empty()); } }
//@at after `let mut tr = self.next_span()?;`
    let ghost mut all = ss_all(*old(self));
    proof { lemma_wf_ss0(*self); }
//@loop 0
        invariant
            self.length == old(self).length, self.length > 0, wf_ss0(*self), seg_room(tr),
            all == seg_flat(tr) + ss_all(*self), self.offset + self.length <= all.len(),
            bnd(txt(all), self.offset as int), bnd(txt(all), self.offset + self.length),
            wf_text(txt(ss_all(*self))),
            want == all.subrange(self.offset as int, self.offset + self.length),
//@at loopstart 0
        proof { lemma_seg_cut(all, tr, ss_all(*self), self.offset as int, self.length as int); all = ss_all(*self); }
//@at loopend 0
        proof { lemma_wf_ss0(*self); }
//@at before `if self.offset != 0`
        let ghost o = self.offset as int;
        let ghost n = tr.contents@.len() as int;
        let ghost tr0 = tr;
        proof {
            lemma_seg_cut(all, tr, ss_all(*self), o, self.length as int);
            assert(seg_flat(tr).subrange(0, n) =~= seg_flat(tr));
            assert(tr.contents@.subrange(0, n) =~= tr.contents@);
        }
//@at before `self.offset = 0;`
        proof {
            assert(tr.contents@ == tr0.contents@.subrange(o, n));
            assert(seg_flat(tr) == seg_flat(tr0).subrange(o, n));
            if o + self.length <= n {
                lemma_bnd_sub(tr0.contents@, o, n, self.length as int);
                assert(seg_flat(tr0).subrange(o, n).subrange(0, self.length as int) =~= seg_flat(tr0).subrange(o, o + self.length));
            }
            if tr.contents@.len() > 0 { assert(wf_at(tr.contents@, 0)); }
        }
        let ghost tr1 = tr;
//@at before `self.length -= tr.len();`
        proof {
            assert(seg_flat(tr1).len() == tr1.contents@.len());
            assert(seg_flat(tr).len() == tr.contents@.len());
            if o + self.length <= n {
                assert(tr.contents@.len() == self.length);
                assert(seg_flat(tr1).subrange(0, seg_flat(tr1).len() as int) =~= seg_flat(tr1));
                assert(seg_flat(tr) =~= want);
                assert(want =~= seg_flat(tr) + Seq::empty());
            } else {
                assert(want =~= seg_flat(tr) + ss_all(*self).subrange(0, self.length - tr.contents@.len()));
            }
        }
//@end
//@fn evaluated::block_span::BlockSpan::location
//@spec
    requires wf_span(*self),
    ensures match r { None => span_flat(*self).len() == 0, Some(l) => span_flat(*self).len() > 0 && l == span_flat(*self)[0].l && loc_room(l, 1) },
//@end

// ---------------------------------------------------------------- blocks
//@fn evaluated::Block::empty
//@sub `EMPTY_BLOCK.clone()` => `empty_block_ref().clone()`
//@spec
    ensures wf_block(*r), block_flat(*r).len() == 0, r.sensitivity@ == Set::<VariableName>::empty(), r.content@.len() == 0,
//@end
//@fn evaluated::Block::new
//@spec
    requires wf_refs(content@),
    ensures wf_block(*r), block_flat(*r) == refs_flat(content@), r.sensitivity == sensitivity,
//@end
//@fn evaluated::Block::into_string
//@spec
    requires wf_block(*self),
    ensures r@ == txt(block_flat(*self)),
//@loop 0
        invariant c0 == __it1.rem(), all_wf_ref(__it1.rem()), buffer@ + txt(refs_flat(__it1.rem())) == txt(block_flat(*self)),
        ensures buffer@ =~= txt(block_flat(*self)),
//@at before `while let Some(reference)`
    let ghost mut c0 = __it1.rem();
    proof { assert(buffer@ + txt(refs_flat(__it1.rem())) =~= txt(block_flat(*self))); }
//@at loopstart 0
            proof { lemma_drop_first(c0, __it1.rem()); lemma_txt_add(ref_flat(c0[0]), refs_flat(__it1.rem())); c0 = __it1.rem(); }
//@at loopend 0
            proof { assert(buffer@ + txt(refs_flat(__it1.rem())) =~= txt(block_flat(*self))); }
//@end
pub proof fn lemma_drop_first(c0: Seq<ContentReference>, c1: Seq<ContentReference>)
    requires all_wf_ref(c0), c0.len() > 0, c1 == c0.drop_first(),
    ensures all_wf_ref(c1), refs_flat(c0) == ref_flat(c0[0]) + refs_flat(c1), wf_ref(c0[0]), ref_flat(c0[0]).len() == c0[0].length,
{
    lemma_refs_first(c0);
    lemma_wf_ref(c0[0]);
    assert(forall|i: int| #![trigger c1[i]] 0 <= i < c1.len() ==> c1[i] == c0[i + 1]);
}
//@fn evaluated::Block::len
//@spec
    requires wf_block(*self),
    ensures r == block_flat(*self).len(),
//@loop 0
        invariant c0 == __it1.rem(), all_wf_ref(__it1.rem()), __acc2 + refs_flat(__it1.rem()).len() == block_flat(*self).len(), block_flat(*self).len() <= cap(),
        ensures __it1.rem().len() == 0, __acc2 == block_flat(*self).len(),
//@at before `while let`
    let ghost mut c0 = __it1.rem();
//@at loopstart 0
            proof { lemma_drop_first(c0, __it1.rem()); c0 = __it1.rem(); }
//@end
//@fn evaluated::Block::span
//@sig fn span<'a>(&'a self) -> (r: BlockSpan<'a>)
//@spec
    requires wf_block(*self),
    ensures wf_span(r), span_flat(r) == block_flat(*self), *r.parent == *self, span_start(r) == 0,
//@loop 0
        invariant c0 == __it1.rem(), all_wf_ref(__it1.rem()), __acc2 + refs_flat(__it1.rem()).len() == block_flat(*self).len(), block_flat(*self).len() <= cap(),
        ensures __it1.rem().len() == 0, __acc2 == block_flat(*self).len(),
//@at before `while let`
    let ghost mut c0 = __it1.rem();
//@at loopstart 0
            proof { lemma_drop_first(c0, __it1.rem()); c0 = __it1.rem(); }
//@at before `let mut tr = BlockSpan`
    proof {
        let f = block_flat(*self);
        lemma_wf_refs(self.content@);
        assert(f.subrange(0, f.len() as int) =~= f);
        if f.len() > 0 { assert(wf_at(txt(f), 0)); }
        assert(self.content@ =~= self.content@.subrange(0, self.content@.len() as int));
        assert(refs_flat(self.content@.subrange(0, 0)) =~= Seq::empty());
    }
//@end
//@fn evaluated::Block::raw_sensitivity
//@props C06
//@spec
    ensures r == self.sensitivity,
//@end
//@fn evaluated::Block::sensitivity
//@props C06
//@sig fn sensitivity<'a>(&'a self) -> (r: SetIter<'a, VariableName>)
//@spec
    ensures r.rem() == self.sensitivity@,
//@end
/// an owning iterator over a set: yields each of the remaining elements
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct OwnedSetIter<T> { x: Vec<T> }
impl<T> OwnedSetIter<T> { pub uninterp spec fn rem(&self) -> Set<T>; }
impl<T> ImSet<T> {
    #[verifier::external_body]
    pub fn owned_iter(self) -> (r: OwnedSetIter<T>)
        ensures r.rem() == self@,
    { unimplemented!() }
}
//@fn evaluated::Block::into_sensitivity
//@props C06
//@sig fn into_sensitivity(self) -> (r: OwnedSetIter<VariableName>)
//@sub `self.sensitivity.into_iter()` => `self.sensitivity.owned_iter()`
//@spec
    ensures r.rem() == self.sensitivity@,
//@end
//@fn evaluated::Block::push
//@spec
    requires wf_block(*old(self)), wf_ref(content), block_flat(*old(self)).len() + content.length <= cap(),
    ensures wf_block(*final(self)), block_flat(*final(self)) == block_flat(*old(self)) + ref_flat(content), final(self).sensitivity == old(self).sensitivity,
        final(self).content@ == old(self).content@.push(content),
//@at start
    proof { lemma_refs_push(self.content@, content); lemma_wf_ref(content); }
//@end

/// cutting the first reference of a span at its offset, and the last at its length
pub proof fn lemma_cut_front(r: ContentReference, k: int)
    requires wf_ref(r), 0 <= k <= r.length, bnd(txt(ref_flat(r)), k),
    ensures ({ let q = ContentReference { offset: (r.offset + k) as usize, length: (r.length - k) as usize, node: r.node };
        wf_ref(q) && ref_flat(q) == ref_flat(r).subrange(k, r.length as int) && q.length == r.length - k && q.offset == r.offset + k
            && r.offset + r.length <= cap() }),
{
    lemma_wf_ref(r);
    lemma_wf_node(ad(r.node));
    let f = node_flat(ad(r.node));
    lemma_txt_sub(f, r.offset as int, r.offset + r.length);
    lemma_bnd_sub(txt(f), r.offset as int, r.offset + r.length, k);
    let q = ContentReference { offset: (r.offset + k) as usize, length: (r.length - k) as usize, node: r.node };
    assert(ref_flat(q) =~= ref_flat(r).subrange(k, r.length as int));
}
pub proof fn lemma_cut_back(r: ContentReference, k: int)
    requires wf_ref(r), 0 <= k <= r.length, bnd(txt(ref_flat(r)), k),
    ensures ({ let q = ContentReference { offset: r.offset, length: k as usize, node: r.node };
        wf_ref(q) && ref_flat(q) == ref_flat(r).subrange(0, k) }),
{
    lemma_wf_ref(r);
    let f = node_flat(ad(r.node));
    lemma_txt_sub(f, r.offset as int, r.offset + r.length);
    lemma_bnd_sub(txt(f), r.offset as int, r.offset + r.length, k);
    let q = ContentReference { offset: r.offset, length: k as usize, node: r.node };
    assert(ref_flat(q) =~= ref_flat(r).subrange(0, k));
}

//@fn evaluated::block_span::BlockSpan::to_new_block
//@props C01 C02 C04 C06
//@sub `EMPTY_BLOCK.clone()` => `empty_block_ref().clone()`
//@sub `let mut __out2 = Vec :: new();` => `let mut __out2: ImSet<VariableName> = ImSet :: new();`
//@spec
    requires wf_span(*self),
    ensures wf_block(*r), block_flat(*r) == span_flat(*self), self.length > 0 ==> r.sensitivity@ == self.parent.sensitivity@,
//@at start
    let ghost want = span_flat(*self);
    proof { if self.length == 0 { assert(want =~= Seq::empty()); } else { lemma_span_start(*self); } }
//@at before `let mut remaining_length`
    proof {
        assert(refs_flat(nodes@) =~= Seq::empty());
        lemma_cut_front(self.contents@[0], self.offset as int);
    }
//@loop 0
        invariant
            all_wf_ref(nodes@), wf_ref(to_push), all_wf_ref(contents_iter.rem()), want.len() <= cap(), remaining_length > 0,
            remaining_length <= ref_flat(to_push).len() + refs_flat(contents_iter.rem()).len(),
            bnd(txt(ref_flat(to_push) + refs_flat(contents_iter.rem())), remaining_length as int),
            want == refs_flat(nodes@) + (ref_flat(to_push) + refs_flat(contents_iter.rem())).subrange(0, remaining_length as int),
//@at loopstart 0
        let ghost tp0 = to_push;
        let ghost c0 = contents_iter.rem();
        let ghost n0 = nodes@;
        let ghost rl0 = remaining_length as int;
        proof {
            lemma_wf_ref(to_push);
            lemma_refs_push(nodes@, to_push);
            lemma_wf_refs(c0);
            lemma_txt_add(ref_flat(to_push), refs_flat(c0));
            if c0.len() == 0 { assert(refs_flat(c0).len() == 0); } else { lemma_drop_first(c0, c0.drop_first()); }
            assert((ref_flat(tp0) + refs_flat(c0)).subrange(0, rl0) =~= ref_flat(tp0) + refs_flat(c0).subrange(0, rl0 - tp0.length));
        }
//@at loopend 0
        proof {
            assert(forall|i: int| #![trigger nodes@[i]] 0 <= i < nodes@.len() ==> nodes@[i] == (if i < n0.len() { n0[i] } else { tp0 }));
            assert(want =~= refs_flat(nodes@) + (ref_flat(to_push) + refs_flat(contents_iter.rem())).subrange(0, remaining_length as int));
            assert(txt(refs_flat(c0)) =~= txt(ref_flat(tp0) + refs_flat(c0)).subrange(tp0.length as int, (ref_flat(tp0).len() + refs_flat(c0).len()) as int));
        }
//@at before `to_push.length = remaining_length;`
    let ghost n1 = nodes@;
    proof {
        lemma_wf_ref(to_push);
        lemma_txt_add(ref_flat(to_push), refs_flat(contents_iter.rem()));
        let f = ref_flat(to_push) + refs_flat(contents_iter.rem());
        if remaining_length < to_push.length { assert(txt(f)[remaining_length as int] == txt(ref_flat(to_push))[remaining_length as int]); }
        lemma_cut_back(to_push, remaining_length as int);
        assert(f.subrange(0, remaining_length as int) =~= ref_flat(to_push).subrange(0, remaining_length as int));
    }
//@at after `nodes.push(to_push);` 1
    proof {
        lemma_refs_push(n1, nodes@.last());
        assert(nodes@ =~= n1.push(nodes@.last()));
        assert(refs_flat(nodes@) =~= want);
    }
//@loop 1
        invariant __out2@.union(__it1.rem()) =~= self.parent.sensitivity@,
        ensures __out2@ =~= self.parent.sensitivity@,
//@end
proof fn lemma_span_start(s: BlockSpan)
    requires wf_span(s), s.length > 0,
    ensures
        s.contents@.len() > 0, wf_ref(s.contents@[0]), all_wf_ref(s.contents@.drop_first()), s.offset < s.contents@[0].length,
        bnd(txt(ref_flat(s.contents@[0])), s.offset as int),
        ({ let h = ref_flat(s.contents@[0]).subrange(s.offset as int, s.contents@[0].length as int);
           let f = h + refs_flat(s.contents@.drop_first());
           s.length <= f.len() && f.subrange(0, s.length as int) == span_flat(s) && bnd(txt(f), s.length as int) && f.len() <= cap() }),
{
    let c = s.contents@;
    lemma_drop_first(c, c.drop_first());
    let f = refs_flat(c);
    let o = s.offset as int;
    let h = ref_flat(c[0]).subrange(o, c[0].length as int);
    let g = h + refs_flat(c.drop_first());
    assert(g =~= f.subrange(o, f.len() as int));
    lemma_txt_sub(f, o, f.len() as int);
    lemma_bnd_sub(txt(f), o, f.len() as int, s.length as int);
    assert(g.subrange(0, s.length as int) =~= f.subrange(o, o + s.length));
    assert(txt(ref_flat(c[0]))[o] == txt(f)[o]);
}
//@fn evaluated::block_span::BlockSpan::to_content_reference
//@spec
    requires wf_span(*self),
    ensures wf_ref(r), ref_flat(r) == span_flat(*self), r.offset == 0, r.length == self.length,
//@at start
    proof { lemma_concat_nodes(); }
//@end

//@fn evaluated::content_reference::ContentReference::simplify
//@spec
    requires wf_ref(*old(self)), old(self).length > 0,
    ensures wf_ref(*final(self)), ref_flat(*final(self)) == ref_flat(*old(self)), final(self).length == old(self).length,
//@at start
    let ghost r0 = *old(self);
    let ghost want = ref_flat(r0);
    proof { lemma_node_block(ad(self.node)); lemma_wf_ref(*self); lemma_wf_node(ad(self.node)); }
//@at after `let tr = Arc::new(EvaluatedNode::Constant(s.slice(self.offset, self.length)));`
                proof {
                    lemma_wf_node(ad(tr));
                    lemma_txt_locate(s.contents@, s.location.inner);
                }
//@at after `let block: &mut Block = arc_make_mut(&mut tr_block);`
            let ghost b0 = *block;
            let ghost c0 = block.content@;
            let ghost full = block_flat(b0);
            let ghost __n0: usize = b0.content.len();
            proof {
                assert(c0.subrange(0, c0.len() as int) =~= c0);
                assert(refs_flat(c0.subrange(0, 0)) =~= Seq::empty());
                assert(full.subrange(0, full.len() as int) =~= full);
            }
//@loop 0
                invariant
                    *block == b0, c0 == b0.content@, wf_block(b0), full == refs_flat(c0), self.length == r0.length, self.length > 0, self.node == r0.node,
                    r0.offset + r0.length <= full.len(), want == full.subrange(r0.offset as int, r0.offset + r0.length),
                    0 <= remove_count <= c0.len(), self.offset + refs_flat(c0.subrange(0, remove_count as int)).len() == r0.offset,
                    remove_count < c0.len(), __n0 == c0.len(),
                decreases c0.len() - remove_count,
//@at before `while block.content[remove_count].length <= self.offset`
            proof { if c0.len() == 0 { assert(full.len() == 0); } }
//@at loopstart 0
                proof {
                    lemma_prefix(c0, remove_count as int);
                    if remove_count == c0.len() - 1 { assert(c0.subrange(0, remove_count + 1) =~= c0); }
                }
//@at before `block.content[remove_count].offset += self.offset;`
            let ghost rc = remove_count as int;
            let ghost k = self.offset as int;
            let ghost q = ContentReference { offset: (c0[rc].offset + k) as usize, length: (c0[rc].length - k) as usize, node: c0[rc].node };
            let ghost c1 = c0.update(rc, q);
            proof { lemma_simplify_front(c0, rc, k, r0.offset as int, r0.length as int, want); }
            let ghost tail1 = c1.subrange(rc, c1.len() as int);
//@loop 1
                invariant
                    block.content@ == c1, block.sensitivity == b0.sensitivity, c1.len() == c0.len(), __n0 == c0.len(), rc == remove_count, rc < c1.len(), tail1 == c1.subrange(rc, c1.len() as int),
                    all_wf_ref(c1), self.length == r0.length, self.length > 0, refs_flat(tail1).len() <= cap(), r0.length <= refs_flat(tail1).len(),
                    rc <= last_index <= c1.len(), running_length == refs_flat(tail1.subrange(0, last_index - rc)).len(),
                    last_index > rc ==> running_length - c1[last_index - 1].length < self.length,
                ensures running_length >= self.length, last_index > rc,
                decreases c1.len() - last_index,
//@at before `let mut last_index`
            proof {
                assert(block.content@ =~= c1);
                assert forall|i: int| #![trigger c1[i]] 0 <= i < c1.len() implies wf_ref(c1[i]) by { if i != rc { assert(c1[i] == c0[i]); } }
                assert(refs_flat(tail1.subrange(0, 0)) =~= Seq::empty());
            }
//@at loopstart 1
                proof {
                    let j = last_index - rc;
                    if last_index == c1.len() { assert(tail1.subrange(0, j) =~= tail1); }
                    assert(forall|i: int| #![trigger tail1[i]] 0 <= i < tail1.len() ==> tail1[i] == c1[rc + i]);
                    lemma_prefix(tail1, j);
                }
//@at before `block.content[last_index - 1].length -= running_length - self.length;`
            let ghost li = last_index as int;
            let ghost cut = c1[li - 1].length - (running_length - self.length);
            let ghost res = c1.update(li - 1, ContentReference { offset: c1[li - 1].offset, length: cut as usize, node: c1[li - 1].node }).subrange(rc, li);
            proof { lemma_simplify_back(c1, rc, li, running_length as int, self.length as int, want); }
//@at after `block.content = slice_to_vec(&block.content[remove_count..last_index]);`
            proof { assert(block.content@ =~= res); }
//@at after `block.simplify();`
            let ghost b9 = *block;
//@at before `Arc::new(EvaluatedNode::Concat(tr_block))`
            proof {
                assert(*tr_block == b9);
                lemma_node_block(EvaluatedNode::Concat(tr_block));
            }
//@at before `self.node = new_node;`
        proof {
            lemma_wf_node(ad(new_node));
            let f = node_flat(ad(new_node));
            assert(f == want);
            assert(f.subrange(0, f.len() as int) =~= f);
            assert(wf_at(txt(f), 0));
        }
//@end
/// dropping the references that stand before offset ro, and the first k bytes of the next
#[verifier::spinoff_prover]
proof fn lemma_simplify_front(c0: Seq<ContentReference>, rc: int, k: int, ro: int, rl: int, want: Seq<Cell>)
    requires wf_refs(c0), 0 <= rc < c0.len(), 0 <= k < c0[rc].length, refs_flat(c0.subrange(0, rc)).len() + k == ro, 0 <= rl, ro + rl <= refs_flat(c0).len(),
        want == refs_flat(c0).subrange(ro, ro + rl), bnd(txt(refs_flat(c0)), ro), bnd(txt(refs_flat(c0)), ro + rl),
    ensures ({
        let q = ContentReference { offset: (c0[rc].offset + k) as usize, length: (c0[rc].length - k) as usize, node: c0[rc].node };
        let t = c0.update(rc, q).subrange(rc, c0.len() as int);
        &&& wf_ref(q) && c0[rc].offset + k <= cap() && all_wf_ref(c0.update(rc, q))
        &&& refs_flat(t).len() <= cap() && rl <= refs_flat(t).len() && want == refs_flat(t).subrange(0, rl) && bnd(txt(refs_flat(t)), rl)
    }),
{
    let full = refs_flat(c0);
    let q = ContentReference { offset: (c0[rc].offset + k) as usize, length: (c0[rc].length - k) as usize, node: c0[rc].node };
    let c1 = c0.update(rc, q);
    let p = ro - k;
    let tail = c0.subrange(rc, c0.len() as int);
    let tail1 = c1.subrange(rc, c1.len() as int);
    let rest = tail.drop_first();
    lemma_prefix(c0, rc);
    assert(full == refs_flat(c0.subrange(0, rc)) + (ref_flat(c0[rc]) + refs_flat(rest))) by {
        lemma_refs_split(c0, rc);
        lemma_refs_first(tail);
    }
    lemma_wf_refs(c0);
    assert(ref_flat(c0[rc]) =~= full.subrange(p, p + c0[rc].length));
    assert(bnd(txt(ref_flat(c0[rc])), k)) by {
        lemma_txt_sub(full, p, p + c0[rc].length);
        assert(txt(ref_flat(c0[rc]))[k] == txt(full)[ro]);
    }
    lemma_cut_front(c0[rc], k);
    assert(refs_flat(tail1) == ref_flat(q) + refs_flat(rest)) by {
        assert(tail1 =~= seq![q] + rest);
        lemma_refs_add(seq![q], rest);
        lemma_refs_one(q);
    }
    assert(refs_flat(tail1) =~= full.subrange(ro, full.len() as int));
    assert(want =~= refs_flat(tail1).subrange(0, rl));
    assert(bnd(txt(refs_flat(tail1)), rl)) by {
        lemma_txt_sub(full, ro, full.len() as int);
        lemma_bnd_sub(txt(full), ro, full.len() as int, rl);
    }
    assert forall|i: int| #![trigger c1[i]] 0 <= i < c1.len() implies wf_ref(c1[i]) by { if i != rc { assert(c1[i] == c0[i]); } }
}
/// keeping the references up to li, the last one cut to what is wanted
#[verifier::spinoff_prover]
proof fn lemma_simplify_back(c1: Seq<ContentReference>, rc: int, li: int, run: int, l: int, want: Seq<Cell>)
    requires all_wf_ref(c1), 0 <= rc < li <= c1.len(), 0 < l <= run, run - c1[li - 1].length < l, ({
        let t = c1.subrange(rc, c1.len() as int);
        refs_flat(t).len() <= cap() && l <= refs_flat(t).len() && want == refs_flat(t).subrange(0, l) && bnd(txt(refs_flat(t)), l) && run == refs_flat(t.subrange(0, li - rc)).len()
    }),
    ensures ({
        let cut = c1[li - 1].length - (run - l);
        let res = c1.update(li - 1, ContentReference { offset: c1[li - 1].offset, length: cut as usize, node: c1[li - 1].node }).subrange(rc, li);
        0 < cut <= c1[li - 1].length && wf_refs(res) && refs_flat(res) == want
    }),
{
    let tail1 = c1.subrange(rc, c1.len() as int);
    let m = li - 1 - rc;
    let z = c1[li - 1];
    let cut = z.length - (run - l);
    let zq = ContentReference { offset: z.offset, length: cut as usize, node: z.node };
    let res = c1.update(li - 1, zq).subrange(rc, li);
    assert(forall|i: int| #![trigger tail1[i]] 0 <= i < tail1.len() ==> tail1[i] == c1[rc + i]);
    lemma_prefix(tail1, m);
    lemma_refs_split(tail1, m + 1);
    let pre = refs_flat(tail1.subrange(0, m));
    assert(pre.len() == l - cut);
    assert(0 < cut <= z.length);
    lemma_wf_refs(tail1);
    assert(refs_flat(tail1).subrange(l - cut, l - cut + z.length) =~= ref_flat(z));
    lemma_txt_sub(refs_flat(tail1), l - cut, l - cut + z.length);
    if cut < z.length { assert(txt(ref_flat(z))[cut] == txt(refs_flat(tail1))[l]); }
    lemma_cut_back(z, cut);
    assert(res =~= tail1.subrange(0, m).push(zq));
    lemma_refs_push(tail1.subrange(0, m), zq);
    assert(refs_flat(res) =~= want);
    assert forall|i: int| #![trigger res[i]] 0 <= i < res.len() implies wf_ref(res[i]) by { if i < m { assert(res[i] == c1[rc + i]); } }
}
pub proof fn lemma_prefix(s: Seq<ContentReference>, i: int)
    requires 0 <= i < s.len(), all_wf_ref(s),
    ensures refs_flat(s.subrange(0, i + 1)) == refs_flat(s.subrange(0, i)) + ref_flat(s[i]), ref_flat(s[i]).len() == s[i].length, wf_ref(s[i]),
        refs_flat(s).len() >= refs_flat(s.subrange(0, i + 1)).len(),
{
    assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i));
    lemma_wf_ref(s[i]);
    lemma_refs_split(s, i + 1);
}
//@fn evaluated::Block::simplify
//@spec
    requires wf_block(*old(self)),
    ensures wf_block(*final(self)), block_flat(*final(self)) == block_flat(*old(self)), final(self).sensitivity == old(self).sensitivity,
//@at start
    let ghost c0 = self.content@;
//@loop 0
        invariant
            all_wf_ref(c0), refs_flat(c0).len() <= cap(), __ix1 <= c0.len(), self.content@.len() == c0.len(), self.sensitivity == old(self).sensitivity,
            forall|i: int| #![trigger self.content@[i]] __ix1 <= i < c0.len() ==> self.content@[i] == c0[i],
            all_wf_ref(__out2@), refs_flat(__out2@) == refs_flat(c0.subrange(0, __ix1 as int)),
        ensures __ix1 == c0.len(),
        decreases c0.len() - __ix1,
//@at before `while __ix1`
    proof { assert(refs_flat(__out2@) =~= refs_flat(c0.subrange(0, 0))); }
//@at loopstart 0
            let ghost o0 = __out2@;
            let ghost i0 = __ix1 as int;
            proof { lemma_prefix(c0, i0); assert(self.content@[i0] == c0[i0]); }
//@at loopend 0
            proof {
                if c0[i0].length == 0 { assert(ref_flat(c0[i0]) =~= Seq::empty()); assert(refs_flat(c0.subrange(0, i0 + 1)) =~= refs_flat(c0.subrange(0, i0))); }
                else {
                    let x = __out2@.last();
                    assert(__out2@ =~= o0.push(x));
                    lemma_refs_push(o0, x);
                }
            }
//@at end
    proof { assert(c0.subrange(0, c0.len() as int) =~= c0); }
//@end
//@fn evaluated::Block::push_all_contents
//@props C01 C02 C04 C06
//@spec
    requires wf_block(*old(self)), wf_span(span), block_flat(*old(self)).len() + span.length <= cap(),
    ensures wf_block(*final(self)), block_flat(*final(self)) == block_flat(*old(self)) + span_flat(span),
        span.length > 0 ==> final(self).sensitivity@ =~= old(self).sensitivity@.union(span.parent.sensitivity@),
        span.length == 0 ==> *final(self) == *old(self),
//@at start
    let ghost want = span_flat(span);
    let ghost base = block_flat(*self);
    proof { if span.length == 0 { assert(want =~= Seq::empty()); assert(base + want =~= base); } else { lemma_span_start(span); } }
//@at before `let mut remaining_length`
    proof { lemma_cut_front(span.contents@[0], span.offset as int); assert(base + (want) =~= base + (ref_flat(to_push) + refs_flat(contents_iter.rem())).subrange(0, span.length as int)); }
//@loop 0
        invariant
            all_wf_ref(self.content@), self.sensitivity == old(self).sensitivity, wf_ref(to_push), all_wf_ref(contents_iter.rem()), remaining_length > 0,
            base.len() + want.len() <= cap(),
            remaining_length <= ref_flat(to_push).len() + refs_flat(contents_iter.rem()).len(),
            bnd(txt(ref_flat(to_push) + refs_flat(contents_iter.rem())), remaining_length as int),
            base + want == refs_flat(self.content@) + (ref_flat(to_push) + refs_flat(contents_iter.rem())).subrange(0, remaining_length as int),
//@at loopstart 0
        let ghost tp0 = to_push;
        let ghost c0 = contents_iter.rem();
        let ghost n0 = self.content@;
        let ghost rl0 = remaining_length as int;
        proof {
            lemma_wf_ref(to_push);
            lemma_refs_push(n0, to_push);
            lemma_wf_refs(c0);
            lemma_txt_add(ref_flat(to_push), refs_flat(c0));
            if c0.len() == 0 { assert(refs_flat(c0).len() == 0); } else { lemma_drop_first(c0, c0.drop_first()); }
            assert((ref_flat(tp0) + refs_flat(c0)).subrange(0, rl0) =~= ref_flat(tp0) + refs_flat(c0).subrange(0, rl0 - tp0.length));
        }
//@at loopend 0
        proof {
            assert(forall|i: int| #![trigger self.content@[i]] 0 <= i < self.content@.len() ==> self.content@[i] == (if i < n0.len() { n0[i] } else { tp0 }));
            assert(base + want =~= refs_flat(self.content@) + (ref_flat(to_push) + refs_flat(contents_iter.rem())).subrange(0, remaining_length as int));
            assert(txt(refs_flat(c0)) =~= txt(ref_flat(tp0) + refs_flat(c0)).subrange(tp0.length as int, (ref_flat(tp0).len() + refs_flat(c0).len()) as int));
        }
//@at before `to_push.length = remaining_length;`
    let ghost n1 = self.content@;
    proof {
        lemma_wf_ref(to_push);
        lemma_txt_add(ref_flat(to_push), refs_flat(contents_iter.rem()));
        let f = ref_flat(to_push) + refs_flat(contents_iter.rem());
        if remaining_length < to_push.length { assert(txt(f)[remaining_length as int] == txt(ref_flat(to_push))[remaining_length as int]); }
        lemma_cut_back(to_push, remaining_length as int);
        assert(f.subrange(0, remaining_length as int) =~= ref_flat(to_push).subrange(0, remaining_length as int));
    }
//@at after `self.content.push(to_push);` 1
    proof {
        lemma_refs_push(n1, self.content@.last());
        assert(self.content@ =~= n1.push(self.content@.last()));
        assert(refs_flat(self.content@) =~= base + want);
    }
//@loop 1
        invariant self.sensitivity@.union(__it1.rem()) =~= old(self).sensitivity@.union(span.parent.sensitivity@), self.content@ == c9,
        ensures self.sensitivity@ =~= old(self).sensitivity@.union(span.parent.sensitivity@),
//@at before `if !ptr_eq(`
    let ghost c9 = self.content@;
//@end

// ---------------------------------------------------------------- constructors
//@fn evaluated::nodes::VariableReference::new
//@spec
    ensures r.name == name, r.value == value,
//@end
//@fn evaluated::nodes::SubstitutionReference::new
//@spec
    ensures r.name == name, r.value == value, r.key == key, r.replacement == replacement,
//@end
//@fn evaluated::nodes::Evaluated::new
//@spec
    ensures r.value == value,
//@end
//@fn evaluated::nodes::VariableReference::name
//@spec
    ensures *r == *self.name,
//@end
//@fn evaluated::nodes::SubstitutionReference::name
//@spec
    ensures *r == *self.name,
//@end
//@fn evaluated::nodes::SubstitutionReference::key
//@spec
    ensures *r == *self.key,
//@end
//@fn evaluated::nodes::SubstitutionReference::replacement
//@spec
    ensures *r == *self.replacement,
//@end
//@fn evaluated::nodes::SubstitutionReference::value
//@spec
    ensures *r == *self.value,
//@end
//@fn evaluated::nodes::Evaluated::value
//@spec
    ensures *r == *self.value,
//@end
//@fn evaluated::constant
//@spec
    requires loc_room(contents.location.inner, contents.contents@.len() as int),
    ensures wf_ref(r), ref_flat(r) == locate(contents.contents@, contents.location.inner), r.offset == 0,
//@end
//@fn evaluated::concat
//@spec
    requires wf_block(*contents),
    ensures wf_ref(r), ref_flat(r) == block_flat(*contents), r.offset == 0,
//@at start
    proof { lemma_node_block(EvaluatedNode::Concat(contents)); }
//@end
//@fn evaluated::variable_reference
//@spec
    requires wf_block(*value),
    ensures wf_ref(r), ref_flat(r) == block_flat(*value), r.offset == 0,
//@at start
    proof { lemma_block(ad(value)); }
//@end
//@fn evaluated::substitution_reference
//@spec
    requires wf_block(*value),
    ensures wf_ref(r), ref_flat(r) == block_flat(*value), r.offset == 0,
//@at start
    proof { lemma_block(ad(value)); }
//@end
