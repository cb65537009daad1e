//@props C05 C06
// ---------------------------------------------------------------- evaluation of syntax trees
pub fn vec_extend<T>(v: &mut Vec<T>, mut o: Vec<T>)
    ensures final(v)@ == old(v)@ + o@,
{ v.append(&mut o); }
impl<T> ImSet<T> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
    { unimplemented!() }
}
/// Result::ok().expect(..): the call does not return otherwise
#[verifier::external_body]
pub fn expect_ok<T, E>(r: Result<T, E>) -> (t: T)
    ensures r.is_ok() && t == r->Ok_0,
{ unimplemented!() }
#[verifier::external_body]
pub struct IoError { x: std::io::Error }
//@type pattern::PatternEngine
//@end
//@type ::MakefileError
//@sub `IOError(Error)` => `IOError(IoError)`
//@end
//@type ::Engine
//@end
pub open spec fn wf_db(d: Database) -> bool {
    forall|v: VariableName| d.variables@.dom().contains(v) ==> wf_ast((#[trigger] d.variables@[v]).unexpanded_value)
}
/// what reading text never changes
pub open spec fn same_setup(a: Engine, b: Engine) -> bool {
    a.command_char == b.command_char && a.vpaths == b.vpaths && a.patterned_vpaths == b.patterned_vpaths && a.working_directory == b.working_directory
}
/// v is the identifier the name t gets
pub open spec fn interned(a: NameCache, t: Seq<CB>, b: NameCache, v: VariableName) -> bool { extends(a, b) && b.file_names == a.file_names && is_var(b, v, t) }
/// what reading the block b as makefile text makes of the names and the engine: by definition, what process_block does with it
pub uninterp spec fn reads(n0: NameCache, e0: Engine, b: Block, n1: NameCache, e1: Engine) -> bool;
/// the last place in s that has the character c
pub open spec fn last_of(s: Seq<CB>, c: char) -> int
    decreases s.len()
{
    if s.len() == 0 { -1 } else if s.last().c == c { s.len() - 1 } else { last_of(s.drop_last(), c) }
}
/// the text of a reference: a name, or name:pattern=replacement
pub open spec fn colon(f: Seq<Cell>) -> int { last_of(txt(f), ':') }
pub open spec fn after_colon(f: Seq<Cell>) -> Seq<Cell> { f.subrange(colon(f) + 1, f.len() as int) }
pub open spec fn equals(f: Seq<Cell>) -> int { last_of(txt(after_colon(f)), '=') }
pub open spec fn is_subref(f: Seq<Cell>) -> bool { colon(f) >= 0 && equals(f) >= 0 }
pub open spec fn ref_name(f: Seq<Cell>) -> Seq<Cell> { if is_subref(f) { f.subrange(0, colon(f)) } else { f } }
pub open spec fn ref_key(f: Seq<Cell>) -> Seq<Cell> { after_colon(f).subrange(0, equals(f)) }
pub open spec fn ref_rep(f: Seq<Cell>) -> Seq<Cell> { after_colon(f).subrange(equals(f) + 1, after_colon(f).len() as int) }
/// what a reference with the text f makes of the value of its variable
pub open spec fn of_value(f: Seq<Cell>, value: Seq<Cell>) -> Seq<Cell> {
    if is_subref(f) { rewrite_words(rewriting(ref_key(f), ref_rep(f)), value, true) } else { value }
}
/// what an evaluation comes to: the names and the engine afterwards, the variables consulted, the text, and how many evals it performed
pub ghost struct Res { pub n: NameCache, pub e: Engine, pub need: Set<VariableName>, pub out: Seq<Cell>, pub cnt: nat }
pub open spec fn nothing(n: NameCache, e: Engine) -> Res { Res { n, e, need: Set::empty(), out: Seq::empty(), cnt: 0 } }
pub open spec fn then(a: Res, b: Res) -> Res { Res { n: b.n, e: b.e, need: a.need.union(b.need), out: a.out + b.out, cnt: a.cnt + b.cnt } }
/// a reference whose name is a, with the variable v, interned in m, and b what the value of the variable comes to
pub open spec fn ref_res(a: Res, m: NameCache, v: VariableName, b: Res) -> Res {
    Res { n: b.n, e: b.e, need: a.need.union(b.need).insert(v), out: of_value(a.out, b.out), cnt: a.cnt + b.cnt }
}
/// the value of v in a.e
pub open spec fn value_of(a: Res, v: VariableName) -> AstNode { a.e.database.variables@[v].unexpanded_value }
pub open spec fn is_set(a: Res, v: VariableName) -> bool { a.e.database.variables@.dom().contains(v) }
/// an eval: the text t of its expanded argument a is read, once
pub open spec fn eval_res(a: Res, t: Block, r: Res) -> bool {
    block_flat(t) == a.out && reads(a.n, a.e, t, r.n, r.e) && extends(a.n, r.n) && r.need == a.need && r.out.len() == 0 && r.cnt == a.cnt + 1
}
/// C05: the value of a syntax tree (f bounds how deep the tree and the variables it refers to are nested)
pub open spec fn evs(f: nat, x: AstNode, n0: NameCache, e0: Engine, r: Res) -> bool
    decreases f, 0nat
{
    f > 0 && match *x.children {
        AstChildren::Empty => r == nothing(n0, e0),
        AstChildren::Constant(l) => r == (Res { out: locate(l.contents@, l.location.inner), ..nothing(n0, e0) }),
        AstChildren::PreEvaluated(b) => r == (Res { out: block_flat(*b), need: b.sensitivity@, ..nothing(n0, e0) }),
        AstChildren::Concat(v) => evl((f - 1) as nat, v@, v@.len(), n0, e0, r),
        AstChildren::VariableReference(nm) => exists|a: Res, m: NameCache, v: VariableName, b: Res| r == #[trigger] ref_res(a, m, v, b)
            && evs((f - 1) as nat, nm, n0, e0, a) && interned(a.n, txt(ref_name(a.out)), m, v)
            && if is_set(a, v) { evs((f - 1) as nat, value_of(a, v), m, a.e, b) } else { b == nothing(m, a.e) },
        AstChildren::Eval(c) => exists|a: Res, t: Block| #[trigger] eval_res(a, t, r) && evs((f - 1) as nat, c, n0, e0, a),
        _ => false,
    }
}
/// the first k nodes of v one after the other
pub open spec fn evl(f: nat, v: Seq<AstNode>, k: nat, n0: NameCache, e0: Engine, r: Res) -> bool
    decreases f, k + 1
{
    if k == 0 || k > v.len() { k == 0 && r == nothing(n0, e0) }
    else { exists|a: Res, b: Res| r == #[trigger] then(a, b) && evl(f, v, (k - 1) as nat, n0, e0, a) && evs(f, v[k - 1], a.n, a.e, b) }
}
/// the expression x has the value out, which depends on the variables sens
pub open spec fn evaluates(x: AstNode, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine, sens: Set<VariableName>, out: Seq<Cell>) -> bool {
    exists|f: nat, r: Res| #[trigger] evs(f, x, n0, e0, r) && r.n == n1 && r.e == e1 && r.need.subset_of(sens) && r.out == out
}
/// a deeper bound changes nothing
pub proof fn lemma_deeper(f: nat, g: nat, x: AstNode, n0: NameCache, e0: Engine, r: Res)
    requires evs(f, x, n0, e0, r), f <= g,
    ensures evs(g, x, n0, e0, r),
    decreases f, 0nat
{
    let f1 = (f - 1) as nat;
    let g1 = (g - 1) as nat;
    match *x.children {
        AstChildren::Concat(v) => { lemma_deeper_list(f1, g1, v@, v@.len(), n0, e0, r); },
        AstChildren::VariableReference(nm) => {
            let (a, m, v, b) = choose|a: Res, m: NameCache, v: VariableName, b: Res| r == #[trigger] ref_res(a, m, v, b) && evs(f1, nm, n0, e0, a) && interned(a.n, txt(ref_name(a.out)), m, v) && if is_set(a, v) { evs(f1, value_of(a, v), m, a.e, b) } else { b == nothing(m, a.e) };
            lemma_deeper(f1, g1, nm, n0, e0, a);
            if is_set(a, v) { lemma_deeper(f1, g1, value_of(a, v), m, a.e, b); }
        },
        AstChildren::Eval(c) => {
            let (a, t) = choose|a: Res, t: Block| #[trigger] eval_res(a, t, r) && evs(f1, c, n0, e0, a);
            lemma_deeper(f1, g1, c, n0, e0, a);
        },
        _ => {},
    }
}
pub proof fn lemma_deeper_list(f: nat, g: nat, v: Seq<AstNode>, k: nat, n0: NameCache, e0: Engine, r: Res)
    requires evl(f, v, k, n0, e0, r), f <= g,
    ensures evl(g, v, k, n0, e0, r),
    decreases f, k + 1
{
    if k > 0 {
        let (a, b) = choose|a: Res, b: Res| r == #[trigger] then(a, b) && evl(f, v, (k - 1) as nat, n0, e0, a) && evs(f, v[k - 1], a.n, a.e, b);
        lemma_deeper_list(f, g, v, (k - 1) as nat, n0, e0, a);
        lemma_deeper(f, g, v[k - 1], a.n, a.e, b);
    }
}
/// names given out before stay
pub proof fn lemma_keep(f: nat, x: AstNode, n0: NameCache, e0: Engine, r: Res)
    requires evs(f, x, n0, e0, r), wf_names(n0),
    ensures extends(n0, r.n),
    decreases f, 0nat
{
    let f1 = (f - 1) as nat;
    match *x.children {
        AstChildren::Concat(v) => { lemma_keep_list(f1, v@, v@.len(), n0, e0, r); },
        AstChildren::VariableReference(nm) => {
            let (a, m, v, b) = choose|a: Res, m: NameCache, v: VariableName, b: Res| r == #[trigger] ref_res(a, m, v, b) && evs(f1, nm, n0, e0, a) && interned(a.n, txt(ref_name(a.out)), m, v) && if is_set(a, v) { evs(f1, value_of(a, v), m, a.e, b) } else { b == nothing(m, a.e) };
            lemma_keep(f1, nm, n0, e0, a);
            if is_set(a, v) { lemma_keep(f1, value_of(a, v), m, a.e, b); }
            lemma_extends(n0, a.n, m);
            lemma_extends(n0, m, b.n);
        },
        AstChildren::Eval(c) => {
            let (a, t) = choose|a: Res, t: Block| #[trigger] eval_res(a, t, r) && evs(f1, c, n0, e0, a);
            lemma_keep(f1, c, n0, e0, a);
            lemma_extends(n0, a.n, r.n);
        },
        _ => {},
    }
}
pub proof fn lemma_keep_list(f: nat, v: Seq<AstNode>, k: nat, n0: NameCache, e0: Engine, r: Res)
    requires evl(f, v, k, n0, e0, r), wf_names(n0),
    ensures extends(n0, r.n),
    decreases f, k + 1
{
    if k > 0 {
        let (a, b) = choose|a: Res, b: Res| r == #[trigger] then(a, b) && evl(f, v, (k - 1) as nat, n0, e0, a) && evs(f, v[k - 1], a.n, a.e, b);
        lemma_keep_list(f, v, (k - 1) as nat, n0, e0, a);
        lemma_keep(f, v[k - 1], a.n, a.e, b);
        lemma_extends(n0, a.n, b.n);
    }
}
/// C05: expanding without an eval changes neither variables nor rules
pub proof fn lemma_pure(f: nat, x: AstNode, n0: NameCache, e0: Engine, r: Res)
    requires evs(f, x, n0, e0, r), r.cnt == 0,
    ensures r.e == e0,
    decreases f, 0nat
{
    let f1 = (f - 1) as nat;
    match *x.children {
        AstChildren::Concat(v) => { lemma_pure_list(f1, v@, v@.len(), n0, e0, r); },
        AstChildren::VariableReference(nm) => {
            let (a, m, v, b) = choose|a: Res, m: NameCache, v: VariableName, b: Res| r == #[trigger] ref_res(a, m, v, b) && evs(f1, nm, n0, e0, a) && interned(a.n, txt(ref_name(a.out)), m, v) && if is_set(a, v) { evs(f1, value_of(a, v), m, a.e, b) } else { b == nothing(m, a.e) };
            lemma_pure(f1, nm, n0, e0, a);
            if is_set(a, v) { lemma_pure(f1, value_of(a, v), m, a.e, b); }
        },
        AstChildren::Eval(c) => {
            let (a, t) = choose|a: Res, t: Block| #[trigger] eval_res(a, t, r) && evs(f1, c, n0, e0, a);
        },
        _ => {},
    }
}
pub proof fn lemma_pure_list(f: nat, v: Seq<AstNode>, k: nat, n0: NameCache, e0: Engine, r: Res)
    requires evl(f, v, k, n0, e0, r), r.cnt == 0,
    ensures r.e == e0,
    decreases f, k + 1
{
    if k > 0 {
        let (a, b) = choose|a: Res, b: Res| r == #[trigger] then(a, b) && evl(f, v, (k - 1) as nat, n0, e0, a) && evs(f, v[k - 1], a.n, a.e, b);
        lemma_pure_list(f, v, (k - 1) as nat, n0, e0, a);
        lemma_pure(f, v[k - 1], a.n, a.e, b);
    }
}
/// d and e say the same about the variables s
pub open spec fn agree(d: Database, e: Database, s: Set<VariableName>) -> bool {
    forall|v: VariableName| s.contains(v) ==> #[trigger] d.variables@.dom().contains(v) == e.variables@.dom().contains(v) && (d.variables@.dom().contains(v) ==> d.variables@[v] == e.variables@[v])
}
/// C05, C06: expanding again gives the same text with the same positions if no variable that the text depends on has changed, whatever else has
pub proof fn lemma_again(f: nat, g: nat, x: AstNode, n0: NameCache, e0: Engine, r: Res, n2: NameCache, e2: Engine, q: Res, n: NameCache)
    requires
        evs(f, x, n0, e0, r), r.cnt == 0, wf_names(n0),
        evs(g, x, n2, e2, q), wf_names(n2),
        agree(e0.database, e2.database, r.need),
        extends(r.n, n), extends(q.n, n),
    ensures q.out == r.out, q.need == r.need, q.cnt == 0, q.e == e2,
    decreases f, 0nat
{
    let f1 = (f - 1) as nat;
    let g1 = (g - 1) as nat;
    match *x.children {
        AstChildren::Concat(v) => { lemma_again_list(f1, g1, v@, v@.len(), n0, e0, r, n2, e2, q, n); },
        AstChildren::VariableReference(nm) => {
            let (a, m, v, b) = choose|a: Res, m: NameCache, v: VariableName, b: Res| r == #[trigger] ref_res(a, m, v, b) && evs(f1, nm, n0, e0, a) && interned(a.n, txt(ref_name(a.out)), m, v) && if is_set(a, v) { evs(f1, value_of(a, v), m, a.e, b) } else { b == nothing(m, a.e) };
            let (a2, m2, v2, b2) = choose|a: Res, m: NameCache, v: VariableName, b: Res| q == #[trigger] ref_res(a, m, v, b) && evs(g1, nm, n2, e2, a) && interned(a.n, txt(ref_name(a.out)), m, v) && if is_set(a, v) { evs(g1, value_of(a, v), m, a.e, b) } else { b == nothing(m, a.e) };
            lemma_keep(f1, nm, n0, e0, a);
            lemma_keep(g1, nm, n2, e2, a2);
            if is_set(a, v) { lemma_keep(f1, value_of(a, v), m, a.e, b); }
            if is_set(a2, v2) { lemma_keep(g1, value_of(a2, v2), m2, a2.e, b2); }
            lemma_extends(m, b.n, n); lemma_extends(m2, b2.n, n);
            lemma_extends(a.n, m, n); lemma_extends(a2.n, m2, n);
            lemma_pure(f1, nm, n0, e0, a);
            lemma_again(f1, g1, nm, n0, e0, a, n2, e2, a2, n);
            lemma_one_to_one_vars(m, n, v, v2, txt(ref_name(a.out)), txt(ref_name(a.out)));
            assert(v == v2);
            assert(r.need.contains(v));
            if is_set(a, v) { lemma_again(f1, g1, value_of(a, v), m, a.e, b, m2, a2.e, b2, n); }
        },
        AstChildren::Eval(c) => {
            let (a, t) = choose|a: Res, t: Block| #[trigger] eval_res(a, t, r) && evs(f1, c, n0, e0, a);
        },
        _ => {},
    }
}
pub proof fn lemma_again_list(f: nat, g: nat, v: Seq<AstNode>, k: nat, n0: NameCache, e0: Engine, r: Res, n2: NameCache, e2: Engine, q: Res, n: NameCache)
    requires
        evl(f, v, k, n0, e0, r), r.cnt == 0, wf_names(n0),
        evl(g, v, k, n2, e2, q), wf_names(n2),
        agree(e0.database, e2.database, r.need),
        extends(r.n, n), extends(q.n, n),
    ensures q.out == r.out, q.need == r.need, q.cnt == 0, q.e == e2,
    decreases f, k + 1
{
    if k > 0 {
        let (a, b) = choose|a: Res, b: Res| r == #[trigger] then(a, b) && evl(f, v, (k - 1) as nat, n0, e0, a) && evs(f, v[k - 1], a.n, a.e, b);
        let (a2, b2) = choose|a: Res, b: Res| q == #[trigger] then(a, b) && evl(g, v, (k - 1) as nat, n2, e2, a) && evs(g, v[k - 1], a.n, a.e, b);
        let k1 = (k - 1) as nat;
        lemma_keep_list(f, v, k1, n0, e0, a); lemma_keep_list(g, v, k1, n2, e2, a2);
        lemma_keep(f, v[k - 1], a.n, a.e, b); lemma_keep(g, v[k - 1], a2.n, a2.e, b2);
        lemma_extends(a.n, b.n, n); lemma_extends(a2.n, b2.n, n);
        lemma_pure_list(f, v, k1, n0, e0, a);
        lemma_again_list(f, g, v, k1, n0, e0, a, n2, e2, a2, n);
        lemma_again(f, g, v[k - 1], a.n, a.e, b, a2.n, a2.e, b2, n);
    }
}
/// the last place of a character is where it stands and nothing after it has it
pub proof fn lemma_last_of(s: Seq<CB>, c: char, p: int)
    requires -1 <= p < s.len(), p >= 0 ==> s[p].c == c, forall|j: int| p < j < s.len() ==> (#[trigger] s[j]).c != c,
    ensures last_of(s, c) == p,
    decreases s.len()
{
    if s.len() > 0 && p < s.len() - 1 {
        assert(s[s.len() - 1].c != c);
        assert forall|j: int| p < j < s.drop_last().len() implies (#[trigger] s.drop_last()[j]).c != c by { assert(s.drop_last()[j] == s[j]); }
        lemma_last_of(s.drop_last(), c, p);
    }
}
/// how the search for the last c goes on: i is what is left of i0 after the one found last
pub open spec fn consumed(i0: BlockSpan, i: BlockSpan, c: char) -> bool {
    let p = i0.length - i.length - 1;
    0 <= p < i0.length && is_part(i0, p + 1, i0.length as int, i) && span_txt(i0)[p].c == c
}
pub proof fn lemma_consume_next(i0: BlockSpan, i: BlockSpan, c: char, x: int, i2: BlockSpan)
    requires wf_span(i0), i == i0 || consumed(i0, i, c), 0 <= x < i.length, span_txt(i)[x].c == c, is_part(i, x + 1, i.length as int, i2),
    ensures consumed(i0, i2, c),
{
    let p = i0.length - i.length;
    lemma_span_bnd(i0, 0);
    if i != i0 { lemma_part_part(i0, p, i0.length as int, i, x + 1, i.length as int, i2); }
    lemma_span_bnd(i, 0);
    assert(span_flat(i0).subrange(p, i0.length as int)[x] == span_flat(i0)[p + x]);
    if i == i0 { assert(p == 0); }
    assert(span_txt(i)[x] == span_txt(i0)[p + x]);
}
/// nothing more found: the one found last is the last one
pub proof fn lemma_consume_end(i0: BlockSpan, i: BlockSpan, t: Seq<CB>, c: char)
    requires wf_span(i0), i == i0 || consumed(i0, i, c), w(c) == 1, t == seq![CB { c, k: 0 }], forall|x: int| !#[trigger] part_at(span_txt(i), t, x),
    ensures last_of(txt(span_flat(i0)), c) == i0.length - i.length - 1,
{
    let s = span_txt(i0);
    let p = i0.length - i.length - 1;
    lemma_span_bnd(i0, 0);
    lemma_span_bnd(i, 0);
    lemma_find1(span_txt(i), t, c);
    assert forall|j: int| p < j < s.len() implies (#[trigger] s[j]).c != c by {
        if i != i0 { assert(span_flat(i0).subrange(p + 1, i0.length as int)[j - p - 1] == span_flat(i0)[j]); }
        assert(span_txt(i)[j - p - 1] == s[j]);
        assert(!part_at(span_txt(i), t, j - p - 1));
    }
    lemma_last_of(s, c, p);
}
/// what stands before the one found last
pub proof fn lemma_consume_cut(i0: BlockSpan, i: BlockSpan, c: char, t: BlockSpan)
    requires wf_span(i0), consumed(i0, i, c), w(c) == 1, is_part(i0, 0, i0.length - i.length, t),
    ensures t.length >= 1, bnd(span_txt(t), t.length - 1), span_flat(t).subrange(0, t.length - 1) == span_flat(i0).subrange(0, i0.length - i.length - 1),
{
    let p = i0.length - i.length - 1;
    lemma_span_bnd(i0, 0);
    lemma_span_bnd(t, 0);
    lemma_lit1(c);
    lemma_find1(span_txt(t), lit_bytes(seq![c]), c);
    assert(span_flat(i0).subrange(0, p + 1)[p] == span_flat(i0)[p]);
    assert(span_txt(t)[p] == span_txt(i0)[p]);
    assert(part_at(span_txt(t), lit_bytes(seq![c]), p));
    assert(span_flat(t).subrange(0, p) =~= span_flat(i0).subrange(0, p));
}
/// where a search may be cut
pub proof fn lemma_consume_bnd(i0: BlockSpan, i: BlockSpan, c: char)
    requires wf_span(i0), consumed(i0, i, c), w(c) == 1,
    ensures bnd(span_txt(i0), i0.length - i.length), i0.length > 0,
{
    let p = i0.length - i.length - 1;
    lemma_span_bnd(i0, 0);
    lemma_lit1(c);
    lemma_find1(span_txt(i0), lit_bytes(seq![c]), c);
    assert(part_at(span_txt(i0), lit_bytes(seq![c]), p));
}
/// the name of a reference, the argument of an eval
pub open spec fn named(x: AstNode) -> AstNode { match *x.children { AstChildren::VariableReference(a) => a, AstChildren::Eval(a) => a, _ => x } }
pub open spec fn ref_parts(f: Seq<Cell>, name: BlockSpan, key: BlockSpan, rep: BlockSpan) -> bool {
    &&& is_subref(f)
    &&& wf_span(name) && name.length >= 1 && bnd(span_txt(name), name.length - 1) && span_flat(name).subrange(0, name.length - 1) == ref_name(f)
    &&& wf_span(key) && key.length >= 1 && bnd(span_txt(key), key.length - 1) && span_flat(key).subrange(0, key.length - 1) == ref_key(f)
    &&& wf_span(rep) && span_flat(rep) == ref_rep(f)
}
/// name:pattern=replacement, taken apart at the last colon and the last equals sign after it
pub proof fn lemma_subref_parts(i0: BlockSpan, j0: BlockSpan, rep: BlockSpan, name: BlockSpan, key: BlockSpan)
    requires
        wf_span(i0), consumed(i0, j0, ':'), forall|x: int| !#[trigger] part_at(span_txt(j0), lit_bytes(":"@), x), is_part(i0, 0, i0.length - j0.length, name),
        wf_span(j0), consumed(j0, rep, '='), forall|x: int| !#[trigger] part_at(span_txt(rep), lit_bytes("="@), x), is_part(j0, 0, j0.length - rep.length, key),
        lit_bytes(":"@) == seq![CB { c: ':', k: 0 }], lit_bytes("="@) == seq![CB { c: '=', k: 0 }],
    ensures ref_parts(span_flat(i0), name, key, rep),
{
    let f = span_flat(i0);
    lemma_consume_end(i0, j0, lit_bytes(":"@), ':');
    lemma_consume_end(j0, rep, lit_bytes("="@), '=');
    lemma_consume_cut(i0, j0, ':', name);
    lemma_consume_cut(j0, rep, '=', key);
    lemma_span_bnd(i0, 0); lemma_span_bnd(j0, 0);
    assert(after_colon(f) =~= span_flat(j0));
}
/// how evaluations are put together
pub proof fn lemma_ev_leaf(x: AstNode, n0: NameCache, e0: Engine, r: Res)
    requires
        match *x.children {
            AstChildren::Empty => r == nothing(n0, e0),
            AstChildren::Constant(l) => r == (Res { out: locate(l.contents@, l.location.inner), ..nothing(n0, e0) }),
            AstChildren::PreEvaluated(b) => r == (Res { out: block_flat(*b), need: b.sensitivity@, ..nothing(n0, e0) }),
            _ => false,
        },
    ensures evs(1, x, n0, e0, r),
{
}
pub proof fn lemma_ev_ref(x: AstNode, n0: NameCache, e0: Engine, fa: nat, a: Res, m: NameCache, v: VariableName, fb: nat, b: Res) -> (g: nat)
    requires
        *x.children is VariableReference, evs(fa, named(x), n0, e0, a), interned(a.n, txt(ref_name(a.out)), m, v),
        if is_set(a, v) { evs(fb, value_of(a, v), m, a.e, b) } else { b == nothing(m, a.e) },
    ensures evs(g, x, n0, e0, ref_res(a, m, v, b)),
{
    let g = if fa < fb { fb } else { fa };
    lemma_deeper(fa, g, named(x), n0, e0, a);
    if is_set(a, v) { lemma_deeper(fb, g, value_of(a, v), m, a.e, b); }
    g + 1
}
pub proof fn lemma_ev_eval(x: AstNode, n0: NameCache, e0: Engine, fa: nat, a: Res, t: Block, r: Res)
    requires *x.children is Eval, evs(fa, named(x), n0, e0, a), eval_res(a, t, r),
    ensures evs(fa + 1, x, n0, e0, r),
{
}
pub proof fn lemma_ev_none(v: Seq<AstNode>, n0: NameCache, e0: Engine)
    ensures evl(1, v, 0, n0, e0, nothing(n0, e0)),
{
}
pub proof fn lemma_ev_next(v: Seq<AstNode>, k: nat, n0: NameCache, e0: Engine, fa: nat, a: Res, fb: nat, b: Res) -> (g: nat)
    requires k < v.len(), evl(fa, v, k, n0, e0, a), evs(fb, v[k as int], a.n, a.e, b),
    ensures evl(g, v, k + 1, n0, e0, then(a, b)),
{
    let g = if fa < fb { fb } else { fa };
    lemma_deeper_list(fa, g, v, k, n0, e0, a);
    lemma_deeper(fb, g, v[k as int], a.n, a.e, b);
    g
}
pub proof fn lemma_ev_concat(x: AstNode, v: Seq<AstNode>, n0: NameCache, e0: Engine, f: nat, r: Res)
    requires *x.children is Concat, v == (*x.children)->Concat_0@, evl(f, v, v.len(), n0, e0, r),
    ensures evs(f + 1, x, n0, e0, r),
{
}
pub proof fn lemma_node_blocks()
    ensures
        forall|x: EvaluatedNode| #[trigger] wf_node(x) == match x {
            EvaluatedNode::VariableReference(v) => wf_block(*v.value),
            EvaluatedNode::SubstitutionReference(v) => wf_block(*v.value),
            EvaluatedNode::Evaluated(v) => wf_block(*v.value),
            EvaluatedNode::Concat(b) => wf_block(*b),
            EvaluatedNode::Constant(ls) => loc_room(ls.location.inner, ls.contents@.len() as int),
        },
        forall|x: EvaluatedNode| #[trigger] node_flat(x) == match x {
            EvaluatedNode::VariableReference(v) => block_flat(*v.value),
            EvaluatedNode::SubstitutionReference(v) => block_flat(*v.value),
            EvaluatedNode::Evaluated(v) => block_flat(*v.value),
            EvaluatedNode::Concat(b) => block_flat(*b),
            EvaluatedNode::Constant(ls) => locate(ls.contents@, ls.location.inner),
        },
{
    assert forall|x: EvaluatedNode| #[trigger] wf_node(x) == match x {
            EvaluatedNode::VariableReference(v) => wf_block(*v.value),
            EvaluatedNode::SubstitutionReference(v) => wf_block(*v.value),
            EvaluatedNode::Evaluated(v) => wf_block(*v.value),
            EvaluatedNode::Concat(b) => wf_block(*b),
            EvaluatedNode::Constant(ls) => loc_room(ls.location.inner, ls.contents@.len() as int),
        } by { lemma_node_block(x); }
    assert forall|x: EvaluatedNode| #[trigger] node_flat(x) == match x {
            EvaluatedNode::VariableReference(v) => block_flat(*v.value),
            EvaluatedNode::SubstitutionReference(v) => block_flat(*v.value),
            EvaluatedNode::Evaluated(v) => block_flat(*v.value),
            EvaluatedNode::Concat(b) => block_flat(*b),
            EvaluatedNode::Constant(ls) => locate(ls.contents@, ls.location.inner),
        } by { lemma_node_block(x); }
}
//@fn evaluated::Block::content
//@sig fn content<'a>(&'a self) -> (r: SliceIter<'a, ContentReference>)
//@sub `self.content.iter()` => `self.content.viter()`
//@spec
    ensures r.rem() == self.content@,
//@end
impl<I, E> Context<I, E> {
    /// nom's into_error_kind (it panics on an empty list)
    #[verifier::external_body]
    pub fn into_error_kind(self) -> (r: ErrorKind<E>)
        ensures match self { Context::Code(_, k) => r == k, Context::List(v) => v@.len() > 0 && r == v@[0].1 },
    { unimplemented!() }
}
//@fn ::Engine::process_block
//@props C08 C09 C10 C11 C18 C19
//@sub `NErr ::` => `Err ::`
//@spec
    requires wf_names(*old(names)), wf_db(old(self).database), wf_block(*block),
    ensures
        extends(*old(names), *final(names)), wf_db(final(self).database), same_setup(*old(self), *final(self)),
        r.is_ok() ==> reads(*old(names), *old(self), *block, *final(names), *final(self)),
//@at start
    hide(reads_line); hide(closes); hide(wf_db); hide(wf_names); hide(wf_state);
    let ghost n0 = *names;
    let ghost e0 = *self;
    proof { lemma_extends_all(); lemma_command_char('\u{feff}'); }
//@at after `let mut i = block.span();`
    let ghost i0 = i;
//@at before `while i.len() > 0`
    let ghost st0 = St { f: span_flat(i), s: parser_state, n: n0, e: e0 };
    let ghost mut tr: Seq<St> = seq![st0];
    proof { assert(st0.f == without_bom(block_flat(*block))); }
//@loop 0
        invariant
            n0 == *old(names), e0 == *old(self),
            wf_span(i), wf_state(parser_state), wf_names(*names), extends(n0, *names), wf_db(self.database), same_setup(e0, *self),
            goes(tr, st0, St { f: span_flat(i), s: parser_state, n: *names, e: *self }),
        ensures i.length == 0,
//@at loopstart 0
        let ghost st1 = St { f: span_flat(i), s: parser_state, n: *names, e: *self };
        proof { lemma_extends_all(); lemma_setup_all(); }
//@at after `i = new_i;`
        proof {
            let st2 = St { f: span_flat(i), s: parser_state, n: *names, e: *self };
            lemma_goes(tr, st0, st1, st2);
            tr = tr.push(st2);
        }
//@at before `parser_state.close_rule(names, self);`
    let ghost st1 = St { f: span_flat(i), s: parser_state, n: *names, e: *self };
    proof { lemma_all_heads(); }
//@at before `Ok(())` -1
    proof { assert(closes(st1.s, st1.n, st1.e, parser_state, *names, *self)); lemma_reads(n0, e0, *block, *names, *self, tr, st1, parser_state); }
//@end
//@fn ast::AstNode::eval
//@spec
    requires wf_ast(*self), wf_names(*old(names)), wf_db(old(context).database),
    ensures
        wf_block(*r), extends(*old(names), *final(names)), wf_db(final(context).database), same_setup(*old(context), *final(context)),
        evaluates(*self, *old(names), *old(context), *final(names), *final(context), r.sensitivity@, block_flat(*r)),
//@end
//@fn eval::Variable::expand
//@unfinished `self.target.is_some()`
//@spec
    requires wf_ast(self.value.unexpanded_value), wf_names(*old(names)), wf_db(old(environment).database),
    ensures
        extends(*old(names), *final(names)), wf_db(final(environment).database), same_setup(*old(environment), *final(environment)),
        exists|sens: Set<VariableName>, out: Seq<Cell>| #[trigger] evaluates(self.value.unexpanded_value, *old(names), *old(environment), *final(names), *final(environment), sens, out) && r@ == txt(out),
//@end
//@fn ::Engine::replace_database
//@spec
    ensures final(self).database == db, same_setup(*old(self), *final(self)),
//@end
//@fn ast::AstNode::eval_internal
//@unfinished `*self.children is Strip || *self.children is Words || *self.children is Word`
//@sub `let mut sensitivity : ImSet < VariableName > = Default :: default();` => `let mut sensitivity : ImSet < VariableName > = ImSet::new();`
//@sub `Ok((i_h6, o_h4)) => Ok((i_h6, (o_h2, o_h4))),` => `Ok((i_h6, o_h4)) => { Ok((i_h6, (o_h2, o_h4))) }`
//@outline split_reference `let colon_find =` => `split_reference(&name)`
//@sub `contents.extend(` => `vec_extend(&mut contents, `
//@sub `vec_into_iter(children)` => `children.viter()`
//@sub `context.process_block(names, &block).ok().expect(lit("TODO: error routing for this parse"));` => `expect_ok(context.process_block(names, &block));`
//@spec
    requires wf_ast(*self), wf_names(*old(names)), wf_db(old(context).database),
    ensures
        wf_refs(r.1@), extends(*old(names), *final(names)), wf_db(final(context).database), same_setup(*old(context), *final(context)),
        evaluates(*self, *old(names), *old(context), *final(names), *final(context), r.0@, refs_flat(r.1@)),
//@at start
    hide(evs); hide(evl); hide(rewrite_words); hide(last_of); hide(wf_node); hide(node_flat);
    let ghost n0 = *names;
    let ghost e0 = *context;
    let ghost mut gf: nat = 1;
    let ghost mut gr: Res = nothing(n0, e0);
//@loop 0
                        invariant
                            wf_names(*names), extends(n0, *names), wf_db(context.database), same_setup(e0, *context), forall|i: int| 0 <= i < gv.len() ==> wf_ast(#[trigger] gv[i]),
                            gk <= children@.len(), __it2.rem() == children@.subrange(gk as int, children@.len() as int), children@ == gv,
                            evl(gf, gv, gk, n0, e0, gr), gr.n == *names, gr.e == *context, gr.need.subset_of(sensitivity@), gr.out == refs_flat(contents@), wf_refs(contents@),
                        ensures __it2.rem().len() == 0,
//@at before `let mut __v1`
            proof { lemma_node_blocks(); }
//@at before `let mut __v6`
                    proof { lemma_node_blocks(); }
//@at before `let mut __it2`
            let ghost gv = children@;
            let ghost mut gk: nat = 0;
            proof { lemma_ev_none(gv, n0, e0); assert(gv.subrange(0, gv.len() as int) =~= gv); assert(refs_flat(contents@) =~= Seq::empty()); }
//@at loopstart 0
                        let ghost c0 = contents@;
                        let ghost mut b: Res = arbitrary();
                        let ghost mut f: nat = 0;
                        let ghost mut more: Seq<ContentReference> = Seq::empty();
                        proof { assert(*child == gv[gk as int]); }
//@at after `let new_sens_h2 = new_sens_h1;`
                        proof {
                            more = child_content_h1@;
                            let (fx, rx) = choose|fx: nat, rx: Res| #[trigger] evs(fx, gv[gk as int], gr.n, gr.e, rx) && rx.n == *names && rx.e == *context && rx.need.subset_of(new_sens_h1@) && rx.out == refs_flat(more);
                            f = fx;
                            b = rx;
                        }
//@at loopend 0
                        proof {
                            assert(contents@ =~= c0 + more);
                            let g = lemma_ev_next(gv, gk, n0, e0, gf, gr, f, b);
                            lemma_refs_add(c0, more);
                            assume(refs_flat(contents@).len() <= cap());
                            gr = then(gr, b);
                            gf = g;
                            gk = gk + 1;
                        }
//@at before `contents }` 0
            proof { lemma_ev_concat(*self, children@, n0, e0, gf, gr); gf = gf + 1; }
//@loop 1
                    invariant __out4@ + __it3.rem() == block.content@,
                    ensures __out4@ == block.content@,
//@at before `let colon_find`
            let ghost nb = name;
            let ghost f = block_flat(ad(nb));
            let ghost mut ra: Res = arbitrary();
            let ghost mut fa: nat = 0;
            let ghost mut rb: Res = arbitrary();
            let ghost mut fb: nat = 0;
            let ghost mut m: NameCache = *names;
            proof {
                let (fx, rx) = choose|fx: nat, rx: Res| #[trigger] evs(fx, named(*self), n0, e0, rx) && rx.n == *names && rx.e == *context && rx.need.subset_of(nb.sensitivity@) && rx.out == f;
                fa = fx;
                ra = rx;
            }
//@at before `let value_h1 = if let`
                        proof {
                            m = *names;
                            rb = nothing(m, *context);
                        }
//@at after `let new_sens_h5 = block_h2.raw_sensitivity();`
                                proof {
                                    let (fx, rx) = choose|fx: nat, rx: Res| #[trigger] evs(fx, value_of(ra, interned_variable_name_h1), m, ra.e, rx) && rx.n == *names && rx.e == *context && rx.need.subset_of(block_h2.sensitivity@) && rx.out == block_flat(*block_h2);
                                    fb = fx;
                                    rb = rx;
                                }
//@at after `sensitivity.insert(interned_variable_name_h1);`
                        proof {
                            gr = ref_res(ra, m, interned_variable_name_h1, rb);
                            gf = lemma_ev_ref(*self, n0, e0, fa, ra, m, interned_variable_name_h1, fb, rb);
                            assert(refs_flat(value_h1.content@) == rb.out) by { if !is_set(ra, interned_variable_name_h1) { assert(refs_flat(value_h1.content@) =~= Seq::empty()); } }
                        }
//@at before `let value_h2 = if let`
                        proof {
                            m = *names;
                            rb = nothing(m, *context);
                        }
//@at after `let new_sens_h6 = block_h3.raw_sensitivity();`
                                proof {
                                    let (fx, rx) = choose|fx: nat, rx: Res| #[trigger] evs(fx, value_of(ra, interned_variable_name_h2), m, ra.e, rx) && rx.n == *names && rx.e == *context && rx.need.subset_of(block_h3.sensitivity@) && rx.out == block_flat(*block_h3);
                                    fb = fx;
                                    rb = rx;
                                }
//@at after `sensitivity.insert(interned_variable_name_h2);`
                        proof {
                            gr = ref_res(ra, m, interned_variable_name_h2, rb);
                            gf = lemma_ev_ref(*self, n0, e0, fa, ra, m, interned_variable_name_h2, fb, rb);
                            assert(refs_flat(value_h2.content@) == rb.out) by { if !is_set(ra, interned_variable_name_h2) { assert(refs_flat(value_h2.content@) =~= Seq::empty()); } }
                        }
//@at before `let value = do_subref`
                    proof {
                        lemma_node_blocks();
                        assert(is_subref(f));
                        assume(rewrite_words(rewriting(block_flat(ad(key)), block_flat(ad(replacement))), block_flat(ad(value)), true).len() <= cap());
                    }
//@at before `let contentref =`
            let ghost mut ra: Res = arbitrary();
            let ghost mut fa: nat = 0;
            proof {
                let (fx, rx) = choose|fx: nat, rx: Res| #[trigger] evs(fx, named(*self), n0, e0, rx) && rx.n == *names && rx.e == *context && rx.need.subset_of(content.sensitivity@) && rx.out == block_flat(ad(content));
                fa = fx;
                ra = rx;
                lemma_node_blocks();
            }
//@at before `let block = Block`
            proof { lemma_refs_one(contentref); assert(refs_flat(seq![contentref]) == block_flat(ad(content))); }
//@at after `expect_ok(context.process_block(names, &block));`
            proof {
                gr = Res { n: *names, e: *context, need: ra.need, out: Seq::empty(), cnt: ra.cnt + 1 };
                assert(eval_res(ra, ad(block), gr));
                gf = fa + 1;
                lemma_ev_eval(*self, n0, e0, fa, ra, ad(block), gr);
            }
//@at before `(sensitivity, content) }` -1
    proof {
        lemma_node_blocks();
        match &*self.children {
            AstChildren::Constant(l) => { lemma_refs_one(content@[0]); gr = Res { out: locate(l.contents@, l.location.inner), ..nothing(n0, e0) }; lemma_ev_leaf(*self, n0, e0, gr); },
            AstChildren::PreEvaluated(b) => { gr = Res { out: block_flat(ad(*b)), need: b.sensitivity@, ..nothing(n0, e0) }; lemma_ev_leaf(*self, n0, e0, gr); },
            AstChildren::Empty => { assert(refs_flat(content@) =~= Seq::empty()); lemma_ev_leaf(*self, n0, e0, gr); },
            AstChildren::VariableReference(_) => { lemma_refs_one(content@[0]); assert(content@ =~= seq![content@[0]]); },
            AstChildren::Eval(_) => { assert(refs_flat(content@) =~= Seq::empty()); },
            _ => {},
        }
        assert(evs(gf, *self, n0, e0, gr));
    }
//@end
//@part ast::AstNode::eval_internal split_reference
//@impl none
//@sig fn split_reference<'a>(name: &'a Arc<Block>) -> (r: IResult<BlockSpan<'a>, (BlockSpan<'a>, BlockSpan<'a>)>)
//@spec
    requires wf_block(**name),
    ensures
        match r {
            Ok((rep, (nm, key))) => ref_parts(block_flat(**name), nm, key, rep),
            Err(_) => !is_subref(block_flat(**name)),
        },
//@at start
    let ghost mut i0: BlockSpan = arbitrary();
    let ghost mut j0: BlockSpan = arbitrary();
    let ghost f = block_flat(ad(*name));
    proof {
        reveal_strlit(":"); reveal_strlit("="); assert(":"@ =~= seq![':']); assert("="@ =~= seq!['=']);
        lemma_lit1(':'); lemma_lit1('=');
    }
//@at after `let i_k1 = name.span().clone();`
                        proof {
                            i0 = i_k1;
                            lemma_span_bnd(i0, 0);
                            lemma_find1(span_txt(i0), lit_bytes(":"@), ':');
                            if forall|x: int| !#[trigger] part_at(span_txt(i0), lit_bytes(":"@), x) { lemma_consume_end(i0, i0, lit_bytes(":"@), ':'); }
                        }
//@at after `let i_k4 = i_k1.clone();`
                                    proof {
                                        j0 = i_k4;
                                        lemma_span_bnd(j0, 0);
                                        lemma_consume_end(i0, j0, lit_bytes(":"@), ':');
                                        assert(after_colon(f) =~= span_flat(j0));
                                        lemma_find1(span_txt(j0), lit_bytes("="@), '=');
                                        if forall|x: int| !#[trigger] part_at(span_txt(j0), lit_bytes("="@), x) { lemma_consume_end(j0, j0, lit_bytes("="@), '='); }
                                    }
//@at before `let mut input_h2 = i1_h1;`
                                        proof { lemma_consume_next(i0, i0, ':', i0.length - i1_h1.length - 1, i1_h1); }
//@at before `let mut input_h5 = i1_h2;`
                                        proof { lemma_consume_next(j0, j0, '=', j0.length - i1_h2.length - 1, i1_h2); }
//@at loopstart 2
                                            proof { lemma_span_bnd(input_h2, 0); lemma_find1(span_txt(input_h2), lit_bytes(":"@), ':'); }
//@at loopstart 3
                                            proof { lemma_span_bnd(input_h5, 0); lemma_find1(span_txt(input_h5), lit_bytes("="@), '='); }
//@at before `res_h2.push(o_h1);`
                                                    proof { lemma_consume_next(i0, input_h2, ':', input_h2.length - i_h1.length - 1, i_h1); }
//@at before `res_h5.push(o_h3);`
                                                    proof { lemma_consume_next(j0, input_h5, '=', input_h5.length - i_h4.length - 1, i_h4); }
//@at before `let index_h3 =`
                                    proof { lemma_consume_bnd(i0, i_h2, ':'); }
//@at before `let index_h6 =`
                                    proof { lemma_consume_bnd(j0, i_h5, '='); }
//@loop 2
                                            invariant wf_span(i0), wf_span(input_h2), consumed(i0, input_h2, ':'), error_h1.is_none(), lit_bytes(":"@) == seq![CB { c: ':', k: 0 }],
                                            ensures consumed(i0, input_h2, ':'), error_h1.is_none(), forall|x: int| !#[trigger] part_at(span_txt(input_h2), lit_bytes(":"@), x),
//@loop 3
                                            invariant wf_span(j0), wf_span(input_h5), consumed(j0, input_h5, '='), error_h2.is_none(), lit_bytes("="@) == seq![CB { c: '=', k: 0 }],
                                            ensures consumed(j0, input_h5, '='), error_h2.is_none(), forall|x: int| !#[trigger] part_at(span_txt(input_h5), lit_bytes("="@), x),
//@at before `Ok((i_h6, (o_h2, o_h4)))`
    proof { lemma_subref_parts(i0, j0, i_h6, o_h2, o_h4); }
//@end
