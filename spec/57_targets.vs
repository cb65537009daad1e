//@props C15
// ---------------------------------------------------------------- C15: rule lines
pub open spec fn semis() -> spec_fn(char) -> bool { |c: char| c == ';' }
/// f is no expression
pub open spec fn no_expr(f: Seq<Cell>) -> bool { forall|x: AstNode| !#[trigger] parses_to(f, x) }
/// f is expanded to out
pub open spec fn expands(f: Seq<Cell>, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine, out: Seq<Cell>) -> bool {
    exists|x: AstNode| #[trigger] parses_to(f, x) && value(x, n0, e0, n1, e1, out)
}
/// one more word of the list
pub open spec fn joined(acc: Seq<Cell>, t: Seq<Cell>) -> Seq<Cell> { if acc.len() > 0 { (acc + one_cell(' ')) + t } else { acc + t } }
/// what precedes the first unquoted semicolon in f, and what follows it
pub open spec fn semi_cut(f: Seq<Cell>) -> (Seq<Cell>, Option<Seq<Cell>>) {
    let p = qfirst(f, semis(), 0);
    let u = unquoted(f, semis(), p);
    if p < 0 || p >= f.len() { (u, None) } else { (halve(u, slashes(txt(f), p)), Some(tl(f, p + 1))) }
}
/// the names in the list f
pub open spec fn lists(v: Seq<Arc<Block>>, f: Seq<Cell>, stop: Seq<CB>) -> bool {
    holds_names(v, names(f.subrange(skip(txt(f), 0), f.len() as int), ends_name(stop)), false)
}
/// the prerequisites f and the command c
pub open spec fn rule_of(targets: Seq<Arc<Block>>, f: Seq<Cell>, dc: bool, c: Option<Seq<Cell>>, a: Option<TargetsAction>) -> bool {
    if c matches Some(t) && no_expr(t) { a.is_none() }
    else {
        a matches Some(TargetsAction::NewRule { targets: ts, deps, double_colon, initial_command }) && ts@ == targets && double_colon == dc && lists(deps@, f, cbytes(':'))
            && match c { Some(t) => initial_command matches Some(x) && parses_to(t, x), None => initial_command.is_none() }
    }
}
/// left names the targets, right is what follows the colon, before the command
pub open spec fn finish(left: Seq<Cell>, right: Seq<Cell>, cmd: Option<Seq<Cell>>, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine, a: Option<TargetsAction>) -> bool {
    let all = match cmd { Some(c) => (right + one_cell(';')) + c, None => right };
    let dc = starts_with(all, ':');
    let k: int = if dc { 1 } else { 0 };
    exists|ts: Seq<Arc<Block>>| #[trigger] lists(ts, left, Seq::empty()) && behind_colon(ts, tl(all, k), right.len() - k, dc, n0, e0, n1, e1, a)
}
/// f follows the colon or colons; its first len bytes precede the command
pub open spec fn behind_colon(ts: Seq<Arc<Block>>, f: Seq<Cell>, len: int, dc: bool, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine, a: Option<TargetsAction>) -> bool {
    if is_assign(f, n0, e0) {
        a matches Some(TargetsAction::TargetVariable { targets, variable_action }) && targets@ == ts && assign_reads(f, n0, e0, n1, e1, variable_action)
    } else {
        let pre = f.subrange(0, len);
        if no_expr(pre) { a.is_none() && n1 == n0 && e1 == e0 }
        else {
            exists|out: Seq<Cell>| #[trigger] expands(pre, n0, e0, n1, e1, out)
                && if f.len() > len { rule_of(ts, out, dc, Some(tl(f, len + 1)), a) } else { rule_of(ts, semi_cut(out).0, dc, semi_cut(out).1, a) }
        }
    }
}
/// how a rule line goes on: next is what follows the word that is dealt with, acc the words before it, cmd the command, if it has been found. The word w is expanded;
pub open spec fn scan(k: nat, w: Seq<Cell>, next: Seq<Cell>, acc: Seq<Cell>, cmd: Option<Seq<Cell>>, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine, a: Option<TargetsAction>) -> bool
    decreases k, 2nat
{
    k > 0 && if no_expr(w) { a.is_none() && n1 == n0 && e1 == e0 }
        else { exists|out: Seq<Cell>, n2: NameCache, e2: Engine| #[trigger] expands(w, n0, e0, n2, e2, out) && scan_semi(k, out, next, acc, cmd, n2, e2, n1, e1, a) }
}
/// a semicolon in its value ends the line, the rest of which belongs to the command;
pub open spec fn scan_semi(k: nat, out: Seq<Cell>, next: Seq<Cell>, acc: Seq<Cell>, cmd: Option<Seq<Cell>>, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine, a: Option<TargetsAction>) -> bool
    decreases k, 1nat
{
    k > 0 && if cmd.is_some() || semi_cut(out).1.is_none() { scan_colon(k, out, next, acc, cmd, n0, e0, n1, e1, a) }
        else if no_expr(next) { a.is_none() && n1 == n0 && e1 == e0 }
        else { exists|r: Seq<Cell>, n2: NameCache, e2: Engine| #[trigger] expands(next, n0, e0, n2, e2, r) && scan_colon(k, semi_cut(out).0, Seq::empty(), acc, Some(semi_cut(out).1->Some_0 + r), n2, e2, n1, e1, a) }
}
/// a line that has run out is none; a colon ends the targets, otherwise it goes on with the next word
pub open spec fn scan_colon(k: nat, out: Seq<Cell>, next: Seq<Cell>, acc: Seq<Cell>, cmd: Option<Seq<Cell>>, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine, a: Option<TargetsAction>) -> bool
    decreases k, 0nat
{
    let (t, p) = colon_cut(out);
    let (s, e, _) = mword_at(txt(next));
    k > 0 && if out.len() == 0 { a == Some(TargetsAction::NoAction) && n1 == n0 && e1 == e0 }
        else if p >= 0 { finish(joined(acc, t), tl(out, p + 1) + next, cmd, n0, e0, n1, e1, a) }
        else { scan((k - 1) as nat, next.subrange(s, e), tl(next, e), joined(acc, t), cmd, n0, e0, n1, e1, a) }
}
/// C15: how the line that f starts with is read as a rule (a is None if that fails)
pub open spec fn rule_reads(f: Seq<Cell>, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine, a: Option<TargetsAction>) -> bool {
    let line = logical(f, false, false).0;
    let (pre, p) = cmd_cut(line);
    let (s, e, colon) = mword_at(txt(pre));
    if colon { a == Some(TargetsAction::NoAction) && n1 == n0 && e1 == e0 }
    else { exists|k: nat| #[trigger] scan(k, pre.subrange(s, e), tl(pre, e), Seq::empty(), line_cmd(line, p), n0, e0, n1, e1, a) }
}
/// the command of a line that is cut at p
pub open spec fn line_cmd(line: Seq<Cell>, p: int) -> Option<Seq<Cell>> { if 0 <= p < line.len() && line[p].b.c == ';' { Some(tl(line, p + 1)) } else { None } }
/// the line that is being read, and the state before it
pub struct Rl { pub f: Seq<Cell>, pub n: NameCache, pub e: Engine }
pub open spec fn leads(z: Rl, w: Seq<Cell>, next: Seq<Cell>, acc: Seq<Cell>, cmd: Option<Seq<Cell>>, n0: NameCache, e0: Engine) -> bool {
    forall|k: nat, n1: NameCache, e1: Engine, a: Option<TargetsAction>| #[trigger] scan(k, w, next, acc, cmd, n0, e0, n1, e1, a) ==> rule_reads(z.f, z.n, z.e, n1, e1, a)
}
pub open spec fn leads_semi(z: Rl, out: Seq<Cell>, next: Seq<Cell>, acc: Seq<Cell>, cmd: Option<Seq<Cell>>, n0: NameCache, e0: Engine) -> bool {
    forall|k: nat, n1: NameCache, e1: Engine, a: Option<TargetsAction>| #[trigger] scan_semi(k, out, next, acc, cmd, n0, e0, n1, e1, a) ==> rule_reads(z.f, z.n, z.e, n1, e1, a)
}
pub open spec fn leads_colon(z: Rl, out: Seq<Cell>, next: Seq<Cell>, acc: Seq<Cell>, cmd: Option<Seq<Cell>>, n0: NameCache, e0: Engine) -> bool {
    forall|k: nat, n1: NameCache, e1: Engine, a: Option<TargetsAction>| #[trigger] scan_colon(k, out, next, acc, cmd, n0, e0, n1, e1, a) ==> rule_reads(z.f, z.n, z.e, n1, e1, a)
}
pub open spec fn leads_finish(z: Rl, left: Seq<Cell>, right: Seq<Cell>, cmd: Option<Seq<Cell>>, n0: NameCache, e0: Engine) -> bool {
    forall|n1: NameCache, e1: Engine, a: Option<TargetsAction>| #[trigger] finish(left, right, cmd, n0, e0, n1, e1, a) ==> rule_reads(z.f, z.n, z.e, n1, e1, a)
}
proof fn lemma_rule_start(z: Rl)
    ensures ({
        let line = logical(z.f, false, false).0;
        let (pre, p) = cmd_cut(line);
        let (s, e, colon) = mword_at(txt(pre));
        if colon { rule_reads(z.f, z.n, z.e, z.n, z.e, Some(TargetsAction::NoAction)) } else { leads(z, pre.subrange(s, e), tl(pre, e), Seq::empty(), line_cmd(line, p), z.n, z.e) }
    }),
{}
proof fn lemma_rule_word(z: Rl, w: Seq<Cell>, next: Seq<Cell>, acc: Seq<Cell>, cmd: Option<Seq<Cell>>, n0: NameCache, e0: Engine)
    requires leads(z, w, next, acc, cmd, n0, e0),
    ensures
        no_expr(w) ==> rule_reads(z.f, z.n, z.e, n0, e0, None),
        forall|out: Seq<Cell>, n2: NameCache, e2: Engine| #[trigger] expands(w, n0, e0, n2, e2, out) ==> leads_semi(z, out, next, acc, cmd, n2, e2),
{
    if no_expr(w) { assert(scan(1, w, next, acc, cmd, n0, e0, n0, e0, None)); }
    assert forall|out: Seq<Cell>, n2: NameCache, e2: Engine| #[trigger] expands(w, n0, e0, n2, e2, out) implies leads_semi(z, out, next, acc, cmd, n2, e2) by {
        assert forall|k: nat, n1: NameCache, e1: Engine, a: Option<TargetsAction>| #[trigger] scan_semi(k, out, next, acc, cmd, n2, e2, n1, e1, a) implies rule_reads(z.f, z.n, z.e, n1, e1, a) by {
            assert(scan(k, w, next, acc, cmd, n0, e0, n1, e1, a));
        }
    }
}
proof fn lemma_rule_semi(z: Rl, out: Seq<Cell>, next: Seq<Cell>, acc: Seq<Cell>, cmd: Option<Seq<Cell>>, n0: NameCache, e0: Engine)
    requires leads_semi(z, out, next, acc, cmd, n0, e0),
    ensures
        cmd.is_some() || semi_cut(out).1.is_none() ==> leads_colon(z, out, next, acc, cmd, n0, e0),
        cmd.is_none() && semi_cut(out).1.is_some() && no_expr(next) ==> rule_reads(z.f, z.n, z.e, n0, e0, None),
        cmd.is_none() && semi_cut(out).1.is_some() ==> forall|r: Seq<Cell>, n2: NameCache, e2: Engine| #[trigger] expands(next, n0, e0, n2, e2, r) ==> leads_colon(z, semi_cut(out).0, Seq::empty(), acc, Some(semi_cut(out).1->Some_0 + r), n2, e2),
{
    if cmd.is_some() || semi_cut(out).1.is_none() {
        assert forall|k: nat, n1: NameCache, e1: Engine, a: Option<TargetsAction>| #[trigger] scan_colon(k, out, next, acc, cmd, n0, e0, n1, e1, a) implies rule_reads(z.f, z.n, z.e, n1, e1, a) by {
            assert(scan_semi(k, out, next, acc, cmd, n0, e0, n1, e1, a));
        }
    } else {
        if no_expr(next) { assert(scan_semi(1, out, next, acc, cmd, n0, e0, n0, e0, None)); }
        assert forall|r: Seq<Cell>, n2: NameCache, e2: Engine| #[trigger] expands(next, n0, e0, n2, e2, r) implies leads_colon(z, semi_cut(out).0, Seq::empty(), acc, Some(semi_cut(out).1->Some_0 + r), n2, e2) by {
            assert forall|k: nat, n1: NameCache, e1: Engine, a: Option<TargetsAction>| #[trigger] scan_colon(k, semi_cut(out).0, Seq::empty(), acc, Some(semi_cut(out).1->Some_0 + r), n2, e2, n1, e1, a) implies rule_reads(z.f, z.n, z.e, n1, e1, a) by {
                assert(scan_semi(k, out, next, acc, cmd, n0, e0, n1, e1, a));
            }
        }
    }
}
proof fn lemma_rule_colon(z: Rl, out: Seq<Cell>, next: Seq<Cell>, acc: Seq<Cell>, cmd: Option<Seq<Cell>>, n0: NameCache, e0: Engine)
    requires leads_colon(z, out, next, acc, cmd, n0, e0),
    ensures ({
        let (t, p) = colon_cut(out);
        let (s, e, _) = mword_at(txt(next));
        if out.len() == 0 { rule_reads(z.f, z.n, z.e, n0, e0, Some(TargetsAction::NoAction)) }
        else if p >= 0 { leads_finish(z, joined(acc, t), tl(out, p + 1) + next, cmd, n0, e0) }
        else { leads(z, next.subrange(s, e), tl(next, e), joined(acc, t), cmd, n0, e0) }
    }),
{
    let (t, p) = colon_cut(out);
    let (s, e, _) = mword_at(txt(next));
    if out.len() == 0 { assert(scan_colon(1, out, next, acc, cmd, n0, e0, n0, e0, Some(TargetsAction::NoAction))); }
    else if p >= 0 {
        assert forall|n1: NameCache, e1: Engine, a: Option<TargetsAction>| #[trigger] finish(joined(acc, t), tl(out, p + 1) + next, cmd, n0, e0, n1, e1, a) implies rule_reads(z.f, z.n, z.e, n1, e1, a) by {
            assert(scan_colon(1, out, next, acc, cmd, n0, e0, n1, e1, a));
        }
    } else {
        assert forall|k: nat, n1: NameCache, e1: Engine, a: Option<TargetsAction>| #[trigger] scan(k, next.subrange(s, e), tl(next, e), joined(acc, t), cmd, n0, e0, n1, e1, a) implies rule_reads(z.f, z.n, z.e, n1, e1, a) by {
            assert(scan_colon(k + 1, out, next, acc, cmd, n0, e0, n1, e1, a));
        }
    }
}
pub open spec fn leads_tail(z: Rl, ts: Seq<Arc<Block>>, f: Seq<Cell>, len: int, dc: bool, n0: NameCache, e0: Engine) -> bool {
    forall|n1: NameCache, e1: Engine, a: Option<TargetsAction>| #[trigger] behind_colon(ts, f, len, dc, n0, e0, n1, e1, a) ==> rule_reads(z.f, z.n, z.e, n1, e1, a)
}
pub open spec fn leads_rule(z: Rl, ts: Seq<Arc<Block>>, f: Seq<Cell>, dc: bool, c: Option<Seq<Cell>>, n0: NameCache, e0: Engine) -> bool {
    forall|a: Option<TargetsAction>| #[trigger] rule_of(ts, f, dc, c, a) ==> rule_reads(z.f, z.n, z.e, n0, e0, a)
}
/// what comes of the text behind the colon
proof fn lemma_rule_end(z: Rl, left: Seq<Cell>, right: Seq<Cell>, cmd: Option<Seq<Cell>>, n0: NameCache, e0: Engine, ts: Seq<Arc<Block>>)
    requires leads_finish(z, left, right, cmd, n0, e0), lists(ts, left, Seq::empty()),
    ensures ({
        let all = match cmd { Some(c) => (right + one_cell(';')) + c, None => right };
        let dc = starts_with(all, ':');
        let k: int = if dc { 1 } else { 0 };
        leads_tail(z, ts, tl(all, k), right.len() - k, dc, n0, e0)
    }),
{
    let all = match cmd { Some(c) => (right + one_cell(';')) + c, None => right };
    let dc = starts_with(all, ':');
    let k: int = if dc { 1 } else { 0 };
    assert forall|n1: NameCache, e1: Engine, a: Option<TargetsAction>| #[trigger] behind_colon(ts, tl(all, k), right.len() - k, dc, n0, e0, n1, e1, a) implies rule_reads(z.f, z.n, z.e, n1, e1, a) by {
        assert(finish(left, right, cmd, n0, e0, n1, e1, a));
    }
}
/// no assignment: prerequisites and a command
proof fn lemma_rule_tail(z: Rl, ts: Seq<Arc<Block>>, f: Seq<Cell>, len: int, dc: bool, n0: NameCache, e0: Engine)
    requires leads_tail(z, ts, f, len, dc, n0, e0), !is_assign(f, n0, e0),
    ensures
        no_expr(f.subrange(0, len)) ==> rule_reads(z.f, z.n, z.e, n0, e0, None),
        forall|out: Seq<Cell>, n1: NameCache, e1: Engine| #[trigger] expands(f.subrange(0, len), n0, e0, n1, e1, out) ==> if f.len() > len { leads_rule(z, ts, out, dc, Some(tl(f, len + 1)), n1, e1) } else { leads_rule(z, ts, semi_cut(out).0, dc, semi_cut(out).1, n1, e1) },
{
    let pre = f.subrange(0, len);
    if no_expr(pre) { assert(behind_colon(ts, f, len, dc, n0, e0, n0, e0, None)); }
    assert forall|out: Seq<Cell>, n1: NameCache, e1: Engine| #[trigger] expands(pre, n0, e0, n1, e1, out) implies if f.len() > len { leads_rule(z, ts, out, dc, Some(tl(f, len + 1)), n1, e1) } else { leads_rule(z, ts, semi_cut(out).0, dc, semi_cut(out).1, n1, e1) } by {
        assert(!no_expr(pre));
        if f.len() > len {
            assert forall|a: Option<TargetsAction>| #[trigger] rule_of(ts, out, dc, Some(tl(f, len + 1)), a) implies rule_reads(z.f, z.n, z.e, n1, e1, a) by { assert(behind_colon(ts, f, len, dc, n0, e0, n1, e1, a)); }
        } else {
            assert forall|a: Option<TargetsAction>| #[trigger] rule_of(ts, semi_cut(out).0, dc, semi_cut(out).1, a) implies rule_reads(z.f, z.n, z.e, n1, e1, a) by { assert(behind_colon(ts, f, len, dc, n0, e0, n1, e1, a)); }
        }
    }
}
proof fn lemma_rule_cmd(z: Rl, ts: Seq<Arc<Block>>, f: Seq<Cell>, dc: bool, c: Option<Seq<Cell>>, n0: NameCache, e0: Engine)
    requires leads_rule(z, ts, f, dc, c, n0, e0),
    ensures c matches Some(t) && no_expr(t) ==> rule_reads(z.f, z.n, z.e, n0, e0, None),
{
    assert(c matches Some(t) && no_expr(t) ==> rule_of(ts, f, dc, c, None));
}
proof fn lemma_semi_cut(i: BlockSpan, text: Seq<Cell>, r: Option<(BlockSpan, BlockSpan)>)
    requires wf_span(i), unquote_result(i, semis(), text, r),
    ensures
        semi_cut(span_flat(i)).0 == text,
        match r { Some((_, post)) => wf_span(post) && semi_cut(span_flat(i)).1 == Some(span_flat(post)), None => semi_cut(span_flat(i)).1.is_none() },
{
    let f = span_flat(i);
    lemma_span_bnd(i, 0);
    lemma_ascii_heads();
    match r {
        Some((ch, post)) => {
            let p = i.length - post.length - ch.length;
            lemma_qfirst(f, semis(), 0, p);
            lemma_tails(i);
            lemma_span_bnd(post, 0);
        },
        None => { lemma_qfirst(f, semis(), 0, f.len() as int); },
    }
}
/// the texts of an optional block
pub open spec fn is_cmd(b: Option<Arc<Block>>, c: Option<Seq<Cell>>) -> bool {
    match b { Some(x) => wf_block(*x) && c == Some(block_flat(*x)), None => c.is_none() }
}
proof fn lemma_block_head(b: Block)
    requires wf_block(b),
    ensures block_flat(b).len() > 0 ==> txt(block_flat(b))[0].k == 0,
{
    lemma_block(b); lemma_wf_bflat(b, b.content.len() as nat);
    if block_flat(b).len() > 0 { lemma_first(txt(block_flat(b)), ' '); }
}
pub open spec fn opt_flat(b: Option<Arc<Block>>) -> Option<Seq<Cell>> { match b { Some(x) => Some(block_flat(*x)), None => None } }
proof fn lemma_lists_wf(v: Seq<Arc<Block>>, f: Seq<Cell>, stop: Seq<CB>)
    requires lists(v, f, stop),
    ensures all_wf_blocks(v),
{}
pub fn starts_hash(s: BlockSpan) -> (r: bool)
    requires wf_span(s), s.length > 0, exists|i: BlockSpan, p: int| #[trigger] is_part(i, p, p + 1, s),
    ensures r == (span_txt(s)[0].c == '#'),
{
    match s.iter_elements().next() { Some(c) => c == '#', None => false }
}
/// no search, no tests, all names as they are written
pub open spec fn plain_seq(o: FileSeqParseOptions) -> bool { !o.strip_leading_dotslash && !o.check_ar && !o.do_glob && !o.exist_only && o.extra_stopchars@ == Seq::<CB>::empty() }
#[verifier::external_body]
pub fn expect_cwd() -> (r: PathBuf)
{ unimplemented!() }
//@fn parsers::file_sequence::FileSeqParseOptions::new
//@spec
    ensures plain_seq(r),
//@at start
    proof { reveal_strlit(""); assert(lit_bytes(""@) =~= Seq::<CB>::empty()); }
//@end
//@fn parsers::file_sequence::Default for FileSeqParseOptions::default
//@sub `current_dir().expect(lit("Failed to get current directory"))` => `expect_cwd()`
//@spec
    ensures plain_seq(r),
//@end
proof fn lemma_colon_head(f: Seq<Cell>)
    ensures starts_with(f, ':') <==> is_prefix(lit_bytes(":"@), txt(f)),
{
    reveal_strlit(":"); assert(":"@ =~= seq![':']); lemma_lit1(':');
    if f.len() > 0 { assert(txt(f)[0] == f[0].b); assert(is_prefix(lit_bytes(":"@), txt(f)) <==> txt(f)[0] == (CB { c: ':', k: 0 })) by { assert(txt(f).subrange(0, 1) =~= seq![txt(f)[0]]); assert(seq![txt(f)[0]][0] == txt(f)[0]); assert(seq![CB { c: ':', k: 0 }][0] == (CB { c: ':', k: 0 })); } }
}
proof fn lemma_cmd_stop(f: Seq<Cell>)
    ensures cmd_cut(f).1 >= 0 ==> cmd_cut(f).1 < f.len() && (f[cmd_cut(f).1].b == (CB { c: ';', k: 0 }) || f[cmd_cut(f).1].b == (CB { c: '#', k: 0 })),
    decreases f.len()
{
    hide(unquoted); hide(slashes); hide(halve); hide(dollar_from); hide(past_ref);
    let d = dollar_from(txt(f), 0);
    lemma_dollar_at(txt(f), 0);
    let g = f.subrange(0, d);
    let p = qfirst(g, cmd_stop(), 0);
    lemma_qstop(g, cmd_stop(), 0);
    if p < d { assert(g[p] == f[p]); }
    else if d < f.len() {
        let e = past_ref(txt(f), d);
        if d < e <= f.len() { lemma_cmd_stop(tl(f, e)); }
    }
}
/// what stops the search is special
proof fn lemma_qstop(f: Seq<Cell>, q: spec_fn(char) -> bool, i: int)
    requires 0 <= i <= f.len(),
    ensures i <= qfirst(f, q, i) <= f.len(), qfirst(f, q, i) < f.len() ==> is_stop(f, q, qfirst(f, q, i)),
    decreases f.len() - i
{
    if i < f.len() && !(is_stop(f, q, i) && slashes(txt(f), i) % 2 == 0) { lemma_qstop(f, q, i + 1); }
}
proof fn lemma_setup_all()
    ensures
        forall|a: Engine| #[trigger] same_setup(a, a),
        forall|a: Engine, b: Engine, c: Engine| #[trigger] same_setup(a, b) && #[trigger] same_setup(b, c) ==> same_setup(a, c),
{}
proof fn lemma_expands()
    ensures forall|f: Seq<Cell>, x: AstNode, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine, s: Set<VariableName>, out: Seq<Cell>| #![trigger parses_to(f, x), evaluates(x, n0, e0, n1, e1, s, out)]
        parses_to(f, x) && evaluates(x, n0, e0, n1, e1, s, out) ==> expands(f, n0, e0, n1, e1, out),
{
    hide(evaluates);
    assert forall|f: Seq<Cell>, x: AstNode, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine, s: Set<VariableName>, out: Seq<Cell>| #![trigger parses_to(f, x), evaluates(x, n0, e0, n1, e1, s, out)]
        parses_to(f, x) && evaluates(x, n0, e0, n1, e1, s, out) implies expands(f, n0, e0, n1, e1, out) by { assert(value(x, n0, e0, n1, e1, out)); }
}
//@fn parsers::targets::parse_line
//@unfinished `exists|k: int| loose_colon(span_txt(pre_semi_slice), k)`
//@outline after_text `let (post_targets_buffer, pre_semi_len) = {` => `after_text(after_colon, line_next, post_semi_content)`
//@outline one_or_two `let (post_targets_slice, double_colon, pre_semi_len) = {` => `one_or_two(&post_targets_buffer, pre_semi_len)`
//@outline second_colon `let second_colon_idx = {` => `second_colon(pre_semi_slice)`
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sub `let (line, semip) = match take_until_command(line.span()) {` => `let gl = line.span(); let (line, semip) = match take_until_command(gl) {`
//@sub `stopchar.iter_elements().next() == Some('#')` => `starts_hash(stopchar)`
//@sub `next_mword(line.span())` => `next_mword(gm)`
//@sub `match makefile_take_until_unquote(new_content.span(),` => `let g1 = new_content.span(); match makefile_take_until_unquote(g1,`
//@sub `match find_non_drivespec_colon(new_content.span()) {` => `let g2 = new_content.span(); match find_non_drivespec_colon(g2) {`
//@sub `match makefile_take_until_unquote(pre_semi_buffer.span(),` => `let g3 = pre_semi_buffer.span(); match makefile_take_until_unquote(g3,`
//@sub `Default :: default()` => `FileSeqParseOptions::default()`
//@sub `(pre, Some((_, post))) => (pre, Some(post.to_new_block())), (pre, None) => (pre, None),` => `(pre, Some((__ch, post))) => { proof { assert(unquote_result(g3, semis(), block_flat(*pre), Some((__ch, post)))); lemma_semi_cut(g3, block_flat(ad(pre)), Some((__ch, post))); } (pre, Some(post.to_new_block())) } (pre, None) => { proof { assert(unquote_result(g3, semis(), block_flat(*pre), None)); lemma_semi_cut(g3, block_flat(ad(pre)), None); } (pre, None) }`
//@sub `Some((_, post))` => `Some((__ch, post))`
//@sub `next_mword(line_next)` => `next_mword(gn)`
//@sub `let mword = match` => `let gn = line_next; let mword = match`
//@sub `let mut after_colon = None;` => `let mut after_colon: Option<Arc<Block>> = None;`
//@sub `(_pre, None) => { }` => `(_pre, None) => { proof { assert(unquote_result(g1, semis(), block_flat(*_pre), None)); lemma_semi_cut(g1, block_flat(ad(_pre)), None); } }`
//@sub `let targets = parse_file_seq(pre_colon_buffer.span(),` => `let gt = pre_colon_buffer.span(); let targets = parse_file_seq(gt,`
//@sub `drop(post_targets_buffer);` => ``
//@sig fn targets_parse_line<'a>(i: BlockSpan<'a>, names: &mut NameCache, engine: &mut Engine) -> (r: IResult<BlockSpan<'a>, TargetsAction, ParseErrorKind>)
//@spec
    requires wf_span(i), wf_ne(*old(names), *old(engine)),
    ensures
        extends(*old(names), *final(names)), wf_db(final(engine).database), same_setup(*old(engine), *final(engine)),
        r.is_ok() ==> rule_reads(span_flat(i), *old(names), *old(engine), *final(names), *final(engine), Some(r->Ok_0.1)) && wf_target_action(r->Ok_0.1),
        r.is_err() && !(r->Err_0 is Failure) ==> rule_reads(span_flat(i), *old(names), *old(engine), *final(names), *final(engine), None),
//@at start
    hide(logical); hide(cmd_cut); hide(mword_at); hide(colon_cut); hide(semi_cut); hide(scan); hide(scan_semi); hide(scan_colon); hide(rule_reads); hide(expands); hide(evaluates); hide(finish); hide(behind_colon);
    hide(leads); hide(leads_semi); hide(leads_colon); hide(leads_finish); hide(leads_tail); hide(leads_rule); hide(rule_of); hide(unquote_result); hide(wf_ref); hide(ref_flat); hide(refs_flat); hide(wf_names); hide(wf_db); hide(extends); hide(lists); hide(wf_ast); hide(wf_block); hide(all_wf_blocks); hide(same_setup); hide(no_expr); hide(is_assign);
    let ghost z = Rl { f: span_flat(i), n: *names, e: *engine };
    let ghost n0 = *names;
    let ghost e0 = *engine;
    proof { lemma_extends_all(); lemma_setup_all(); lemma_expands(); lemma_ascii_heads(); lemma_rule_start(z); reveal_strlit(""); reveal_strlit(":"); }
//@at before `let gl = line.span();`
    let ghost lf = block_flat(ad(line));
    proof { lemma_cmd_stop(lf); }
//@at after `let gl = line.span();`
    proof { lemma_tails(gl); lemma_span_bnd(gl, 0); }
//@at before `loop` 0
    proof { assert(block_flat(*pre_colon_buffer) =~= Seq::<Cell>::empty()); }
//@at before `let (mut line_next, (mut mw, mut mwt))`
    let gm = line.span();
    let ghost mut cmd = line_cmd(lf, cmd_cut(lf).1);
    proof { lemma_cmd_stop(lf); assert(is_cmd(post_semi_content, cmd)); }
//@at before `match mwt {`
    proof {
        let (s, e, colon) = mword_at(txt(block_flat(ad(line))));
        lemma_span_bnd(gm, 0); lemma_tails(gm);
        assert(span_flat(mw) == block_flat(*line).subrange(s, e));
        assert(span_flat(line_next) == tl(block_flat(*line), e));
    }
//@loop 0
        invariant wf_span(mw), wf_span(line_next), wf_block(*pre_colon_buffer), is_cmd(post_semi_content, cmd), wf_ne(*names, *engine), extends(n0, *names), same_setup(e0, *engine),
            mwt != MWordEnd::EOL, after_colon.is_none(), leads(z, span_flat(mw), span_flat(line_next), block_flat(*pre_colon_buffer), cmd, *names, *engine),
        ensures wf_span(line_next), wf_block(*pre_colon_buffer), is_cmd(post_semi_content, cmd), wf_ne(*names, *engine), extends(n0, *names), same_setup(e0, *engine), mwt != MWordEnd::EOL,
            after_colon matches Some(b) && wf_block(*b) && leads_finish(z, block_flat(*pre_colon_buffer), block_flat(*b) + span_flat(line_next), cmd, *names, *engine),
//@at loopstart 0
        let ghost n1 = *names;
        let ghost e1 = *engine;
        let ghost acc = block_flat(ad(pre_colon_buffer));
        let ghost next0 = span_flat(line_next);
        let ghost cmd0 = cmd;
        proof { lemma_rule_word(z, span_flat(mw), next0, acc, cmd, n1, e1); }
//@at before `if post_semi_content.is_none()`
        let ghost n2 = *names;
        let ghost e2 = *engine;
        let ghost out0 = block_flat(ad(new_content));
        proof { assert(leads_semi(z, out0, next0, acc, cmd, n2, e2)); lemma_rule_semi(z, out0, next0, acc, cmd, n2, e2); }
//@at before `let mut post_content = post.to_new_block();`
                    proof { assert(unquote_result(g1, semis(), block_flat(*pre), Some((__ch, post)))); lemma_semi_cut(g1, block_flat(ad(pre)), Some((__ch, post))); }
//@at before `arc_make_mut(&mut post_content)`
                    proof { assume(block_flat(*post_content).len() + block_flat(*rest).len() <= cap()); }
//@at before `post_semi_content = Some(post_content);`
                    proof { lemma_span_bnd(line_next, 0); cmd = Some(block_flat(ad(post_content))); assert(span_flat(line_next) =~= Seq::<Cell>::empty()); assert(leads_colon(z, block_flat(*pre), Seq::empty(), acc, cmd, *names, *engine)); }
//@at before `if new_content.len() == 0`
        let ghost out = block_flat(ad(new_content));
        let ghost next = span_flat(line_next);
        proof { assert(leads_colon(z, out, next, acc, cmd, *names, *engine)); lemma_rule_colon(z, out, next, acc, cmd, *names, *engine); }
//@at after `let g2 = new_content.span();`
        proof { lemma_tails(g2); lemma_span_bnd(g2, 0); }
//@at before `if pre_colon_buffer.len() > 0` 0
                proof { assume(acc.len() + 1 + block_flat(*new_content).len() <= cap()); }
//@at before `if pre_colon_buffer.len() > 0` 1
        proof { assume(acc.len() + 1 + block_flat(*new_content).len() <= cap()); }
//@at before `break;` 0
                proof { assert(block_flat(*pre_colon_buffer) =~= joined(acc, colon_cut(out).0)); }
//@at after `mwt = (mword.1).1;`
        proof { lemma_tails(gn); lemma_span_bnd(gn, 0); }
//@at before `let (post_targets_buffer, pre_semi_len)`
    let ghost left = block_flat(ad(pre_colon_buffer));
    let ghost right = block_flat(ad(after_colon->Some_0)) + span_flat(line_next);
    let ghost all = match cmd { Some(c) => (right + one_cell(';')) + c, None => right };
    proof { assert(lists(targets@, left, Seq::empty())) by { reveal(lists); lemma_span_bnd(gt, 0); } lemma_lists_wf(targets@, left, Seq::empty()); lemma_rule_end(z, left, right, cmd, *names, *engine, targets@); assert(opt_flat(post_semi_content) == cmd); assert(all == all_text(right, cmd)); assert(starts_with(all, ':') ==> right.len() > 0) by { if right.len() == 0 { match cmd { Some(c) => { assert(all[0] == one_cell(';')[0]); }, None => {} } } } }
//@at before `match variable_parse_line(`
    let ghost n3 = *names;
    let ghost e3 = *engine;
    let ghost tf = span_flat(post_targets_slice);
    let ghost tlen = pre_semi_len as int;
    proof {
        assert(double_colon == starts_with(all, ':'));
        assert(tf == tl(all, if double_colon { 1int } else { 0 })) by { lemma_span_bnd(post_targets_slice, 0); if !double_colon { assert(tl(all, 0) =~= all); } }
        assert(tlen == right.len() - if double_colon { 1int } else { 0 });
        assert(leads_tail(z, targets@, tf, tlen, double_colon, n3, e3));
    }
//@at before `return` -1
            proof {
                reveal(behind_colon); reveal(leads_tail);
                assert(behind_colon(targets@, tf, tlen, double_colon, n3, e3, *names, *engine, Some(TargetsAction::TargetVariable { targets, variable_action: action })));
            }
//@at before `let (pre_semi_buffer, post_semi_buffer)`
    proof { lemma_rule_tail(z, targets@, tf, tlen, double_colon, n3, e3); lemma_tails(post_targets_slice); lemma_span_bnd(post_targets_slice, tlen); }
//@at before `let command`
    let ghost dt = block_flat(ad(pre_semi_buffer));
    let ghost c = opt_flat(post_semi_buffer);
    proof { assert(leads_rule(z, targets@, dt, double_colon, c, *names, *engine)); lemma_rule_cmd(z, targets@, dt, double_colon, c, *names, *engine); }
//@at before `let deps`
    proof { lemma_lit1(':'); assert(":"@ =~= seq![':']); }
//@at before `Ok((rest, TargetsAction :: NewRule` -1
    proof {
        assert(lists(deps@, dt, cbytes(':'))) by { reveal(lists); lemma_span_bnd(pre_semi_slice, 0); lemma_lit1(':'); assert(":"@ =~= seq![':']); }
        lemma_lists_wf(deps@, dt, cbytes(':'));
        reveal(rule_of); reveal(leads_rule); reveal(no_expr);
        assert(rule_of(targets@, dt, double_colon, c, Some(TargetsAction::NewRule { targets, deps, double_colon, initial_command: command })));
    }
//@end
/// a colon at p that is not quoted
pub open spec fn loose_colon(s: Seq<CB>, p: int) -> bool { 0 <= p < s.len() && s[p] == (CB { c: ':', k: 0 }) && slashes(s, p) % 2 == 0 }
//@part parsers::targets::parse_line second_colon
//@sig fn second_colon<'a>(pre_semi_slice: BlockSpan<'a>) -> (r: Option<usize>)
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires wf_span(pre_semi_slice),
    ensures match r {
        Some(k) => loose_colon(span_txt(pre_semi_slice), k as int) && forall|j: int| 0 <= j < k ==> !loose_colon(span_txt(pre_semi_slice), j),
        None => forall|j: int| !loose_colon(span_txt(pre_semi_slice), j),
    },
//@at before `let mut __it1`
            let ghost s = span_txt(pre_semi_slice);
            proof { lemma_span_bnd(pre_semi_slice, 0); assert(s.subrange(0, s.len() as int) =~= s); assume(s.len() < i32::MAX); }
//@at before `while`
            let ghost mut g = __it1;
//@loop 1
        invariant g == __it1, walk(s, g), 0 <= backslash_count <= g.head <= s.len(), colon_idx == s.len(),
            backslash_count == slashes(s, g.head as int), forall|j: int| 0 <= j < g.head ==> !loose_colon(s, j),
        ensures colon_idx <= s.len(), colon_idx < s.len() ==> loose_colon(s, colon_idx as int), forall|j: int| 0 <= j < colon_idx ==> !loose_colon(s, j),
//@at loopstart 1
                proof { lemma_walk(s, g, __it1, idx, chr); lemma_slash_step(s, idx as int, chr); g = __it1; }
//@end
/// the text behind the colon, with the command, and where that begins
pub open spec fn all_text(right: Seq<Cell>, cmd: Option<Seq<Cell>>) -> Seq<Cell> { match cmd { Some(c) => (right + one_cell(';')) + c, None => right } }
//@part parsers::targets::parse_line after_text
//@sig fn after_text<'a>(after_colon: Option<Arc<Block>>, line_next: BlockSpan<'a>, post_semi_content: Option<Arc<Block>>) -> (r: (Arc<Block>, usize))
//@spec
    requires wf_span(line_next), after_colon.is_some(), wf_block(*after_colon->Some_0), post_semi_content matches Some(c) ==> wf_block(*c),
    ensures ({
        let right = block_flat(*after_colon->Some_0) + span_flat(line_next);
        wf_block(*r.0) && block_flat(*r.0) == all_text(right, opt_flat(post_semi_content)) && r.1 == right.len() && bnd(txt(block_flat(*r.0)), r.1 as int) && r.1 <= block_flat(*r.0).len() && (r.1 < block_flat(*r.0).len() ==> bnd(txt(block_flat(*r.0)), r.1 + 1))
    }),
//@at start
    let ghost a = block_flat(ad(after_colon->Some_0));
    let ghost right = a + span_flat(line_next);
    proof { assume(all_text(right, opt_flat(post_semi_content)).len() <= cap()); lemma_ascii_heads(); }
//@at before `let pre_semi_len`
    proof { assert(block_flat(*block) =~= right); }
//@at before `(block, pre_semi_len)`
    proof {
        let all = all_text(right, opt_flat(post_semi_content));
        assert(block_flat(*block) =~= all);
        assert(right.len() < all.len() ==> txt(all)[right.len() as int] == (CB { c: ';', k: 0 }));
        match post_semi_content { Some(c) => { lemma_block_head(ad(c)); let t = block_flat(ad(c)); if t.len() > 0 { assert(txt(all)[right.len() + 1int] == txt(t)[0]); } }, None => {} }
    }
//@end
//@part parsers::targets::parse_line one_or_two
//@sig fn one_or_two<'a>(post_targets_buffer: &'a Arc<Block>, pre_semi_len: usize) -> (r: (BlockSpan<'a>, bool, usize))
//@spec
    requires wf_block(**post_targets_buffer), pre_semi_len <= block_flat(**post_targets_buffer).len(), bnd(txt(block_flat(**post_targets_buffer)), pre_semi_len as int), starts_with(block_flat(**post_targets_buffer), ':') ==> pre_semi_len > 0,
        pre_semi_len < block_flat(**post_targets_buffer).len() ==> bnd(txt(block_flat(**post_targets_buffer)), pre_semi_len + 1),
    ensures ({
        let f = block_flat(**post_targets_buffer);
        let k: int = if r.1 { 1 } else { 0 };
        r.1 == starts_with(f, ':') && wf_span(r.0) && span_flat(r.0) == tl(f, k) && r.2 == pre_semi_len - k && r.2 <= r.0.length && bnd(span_txt(r.0), r.2 as int) && (r.2 < r.0.length ==> bnd(span_txt(r.0), r.2 + 1))
    }),
//@at start
    let ghost f = block_flat(ad(*post_targets_buffer));
    proof { lemma_colon_head(f); lemma_colon_lits(); lemma_prefixes(lit_bytes(":"@)); lemma_ascii_heads(); }
//@end
