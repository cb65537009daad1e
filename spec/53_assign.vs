//@props C08
// ---------------------------------------------------------------- how assignment lines read (C08)
//@type parsers::variable::AssignmentType
//@attr #[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@end
//@type parsers::variable::parse_line/Modifier
//@attr #[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@end
//@fn parsers::end_of_word
//@spec
    requires wf_span(i),
    ensures
        r.is_ok() <==> i.length == 0 || is_ws(span_txt(i)[0].c),
        r.is_ok() ==> r->Ok_0.0 == i,
        r.is_err() ==> err_kind(r->Err_0) == 1,
//@at start
    proof { lemma_ascii_heads(); }
//@end
pub open spec fn ends_target(c: char) -> bool { is_ws(c) || c == ':' || c == '=' || c == '!' || c == '?' || c == '+' }
/// where the name on the left of an assignment ends
pub open spec fn name_end(s: Seq<CB>, i: int) -> int
    decreases s.len() - i
{
    if 0 <= i < s.len() && !(s[i].k == 0 && ends_target(s[i].c)) { name_end(s, i + 1) } else { i }
}
proof fn lemma_name_end(s: Seq<CB>, i: int, n: int)
    requires 0 <= i <= n <= s.len(), forall|j: int| i <= j < n && (#[trigger] s[j]).k == 0 ==> !ends_target(s[j].c), n < s.len() ==> s[n].k == 0 && ends_target(s[n].c),
    ensures name_end(s, i) == n,
    decreases n - i
{
    if i < n { lemma_name_end(s, i + 1, n); }
}
/// the assignment operator s starts with, and its length
pub open spec fn op_of(s: Seq<CB>) -> Option<(AssignmentType, int)> {
    if is_prefix(lit_bytes("="@), s) { Some((AssignmentType::Recursive, 1)) }
    else if is_prefix(lit_bytes("::="@), s) { Some((AssignmentType::Simple, 3)) }
    else if is_prefix(lit_bytes(":="@), s) { Some((AssignmentType::Simple, 2)) }
    else if is_prefix(lit_bytes("?="@), s) { Some((AssignmentType::Conditional, 2)) }
    else if is_prefix(lit_bytes("!="@), s) { Some((AssignmentType::Bang, 2)) }
    else if is_prefix(lit_bytes("+="@), s) { Some((AssignmentType::Append, 2)) }
    else { None }
}
/// f, up to the operator, the operator, and what follows it
pub open spec fn left_of(f: Seq<Cell>) -> Seq<Cell> { f.subrange(0, name_end(txt(f), 0)) }
pub open spec fn from_op(f: Seq<Cell>) -> Seq<Cell> { unspaced(tl(f, name_end(txt(f), 0))) }
pub open spec fn operator(f: Seq<Cell>) -> Option<(AssignmentType, int)> { op_of(txt(from_op(f))) }
pub open spec fn right_of(f: Seq<Cell>) -> Seq<Cell> { unspaced(tl(from_op(f), operator(f).unwrap().1)) }
proof fn lemma_op_lits()
    ensures
        lit_bytes("="@).len() == 1, lit_bytes("::="@).len() == 3, lit_bytes(":="@).len() == 2, lit_bytes("?="@).len() == 2, lit_bytes("!="@).len() == 2, lit_bytes("+="@).len() == 2,
        wf_text(lit_bytes("="@)), wf_text(lit_bytes("::="@)), wf_text(lit_bytes(":="@)), wf_text(lit_bytes("?="@)), wf_text(lit_bytes("!="@)), wf_text(lit_bytes("+="@)),
{
    reveal_strlit("="); reveal_strlit("::="); reveal_strlit(":="); reveal_strlit("?="); reveal_strlit("!="); reveal_strlit("+=");
    assert("="@ =~= seq!['=']); assert("::="@ =~= seq![':', ':', '=']); assert(":="@ =~= seq![':', '=']); assert("?="@ =~= seq!['?', '=']); assert("!="@ =~= seq!['!', '=']); assert("+="@ =~= seq!['+', '=']);
    lemma_ascii_lit("="@); lemma_ascii_lit("::="@); lemma_ascii_lit(":="@); lemma_ascii_lit("?="@); lemma_ascii_lit("!="@); lemma_ascii_lit("+="@);
}
proof fn lemma_ascii_lit(k: Seq<char>)
    requires forall|i: int| 0 <= i < k.len() ==> w(#[trigger] k[i]) == 1,
    ensures lit_bytes(k).len() == k.len(), wf_text(lit_bytes(k)),
{
    lemma_lit_ascii(k);
    assert forall|i: int| 0 <= i < k.len() implies #[trigger] wf_at(lit_bytes(k), i) by { assert(lit_bytes(k)[i].k == 0); assert(w(k[i]) == 1); }
}
//@fn parsers::variable::parse_assignment_operator
//@outline assign_op `let (i, assignment_type) =` => `assign_op(i)`
//@spec
    requires wf_span(i),
    ensures
        r.is_ok() <==> operator(span_flat(i)).is_some(),
        r.is_ok() ==> ({
            let (rest, (name, t)) = r->Ok_0;
            wf_span(rest) && wf_span(name) && t == operator(span_flat(i)).unwrap().0 && span_flat(name) == left_of(span_flat(i)) && span_flat(rest) == right_of(span_flat(i))
        }),
        r.is_err() ==> !(err_code(r->Err_0) == ErrorKind::Custom(ParseErrorKind::UnternimatedVariable)),
//@at start
    hide(skip); hide(op_of); hide(name_end);
    let ghost i0 = i;
    proof {
        lemma_ascii_heads(); lemma_span_bnd(i, 0);
        let s = span_txt(i);
        assert forall|j: int| #![trigger bnd(s, j)] 0 <= j <= s.len() && (forall|x: int| 0 <= x < j && (#[trigger] s[x]).k == 0 ==> !ends_target(s[x].c)) && (j < s.len() ==> s[j].k == 0 && ends_target(s[j].c)) implies name_end(s, 0) == j by { lemma_name_end(s, 0, j); }
    }
//@end
//@part parsers::variable::parse_assignment_operator assign_op
//@sig fn assign_op<'a>(i: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, AssignmentType, ParseErrorKind>)
//@spec
    requires wf_span(i),
    ensures
        r.is_ok() <==> op_of(span_txt(i)).is_some(),
        r.is_ok() ==> r->Ok_0.1 == op_of(span_txt(i)).unwrap().0 && wf_span(r->Ok_0.0) && is_tail(i, op_of(span_txt(i)).unwrap().1, r->Ok_0.0),
        r.is_err() ==> !(err_code(r->Err_0) is Custom),
//@at start
    hide(is_prefix);
    proof { lemma_op_lits(); lemma_prefixes(lit_bytes("="@)); lemma_prefixes(lit_bytes("::="@)); lemma_prefixes(lit_bytes(":="@)); lemma_prefixes(lit_bytes("?="@)); lemma_prefixes(lit_bytes("!="@)); lemma_prefixes(lit_bytes("+="@)); }
//@end
pub open spec fn flavor_of(t: AssignmentType) -> Flavor {
    match t { AssignmentType::Simple => Flavor::Simple, AssignmentType::Conditional => Flavor::Conditional, AssignmentType::Recursive => Flavor::Recursive, AssignmentType::Bang => Flavor::Shell, AssignmentType::Append => Flavor::Recursive }
}
/// the operator t with the text y on its right
pub open spec fn acts(t: AssignmentType, y: AstNode, k: VariableActionKind) -> bool {
    match k {
        VariableActionKind::Append(x) => t == AssignmentType::Append && x == y,
        VariableActionKind::Define(p) => t != AssignmentType::Append && p.unexpanded_value == y && p.flavor == flavor_of(t) && p.origin == Origin::File,
    }
}
/// the name written as x is v
pub open spec fn names_var(x: AstNode, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine, v: VariableName) -> bool {
    exists|m: NameCache, out: Seq<Cell>| #[trigger] value(x, n0, e0, m, e1, out) && #[trigger] interned(m, trimmed(txt(out)), n1, v)
}
pub open spec fn is_simple(d: Database, v: VariableName) -> bool { d.variables@.dom().contains(v) && d.variables@[v].flavor == Flavor::Simple }
/// y is the value of x at this moment, not x itself
pub open spec fn expanded_at(x: AstNode, at: Location, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine, y: AstNode) -> bool {
    match *y.children {
        AstChildren::PreEvaluated(b) => evaluates(x, n0, e0, n1, e1, b.sensitivity@, block_flat(*b)) && wf_block(*b) && y.source_location.inner == at,
        _ => false,
    }
}
pub open spec fn start_of(f: Seq<Cell>) -> Location { if f.len() > 0 { f[0].l } else { Location::Synthetic } }
/// both sides of the operator in f can be read, as x and y
pub open spec fn sides(f: Seq<Cell>, x: AstNode, y: AstNode) -> bool { operator(f).is_some() && parses_to(left_of(f), x) && parses_to(right_of(f), y) }
pub open spec fn has_sides(f: Seq<Cell>) -> bool { exists|x: AstNode, y: AstNode| #[trigger] sides(f, x, y) }
/// a side of the operator cannot be read because a reference in it is not closed
pub open spec fn stuck(f: Seq<Cell>) -> bool {
    operator(f).is_some() && if parses(left_of(f)) { unclosed(right_of(f)) && !parses(right_of(f)) } else { unclosed(left_of(f)) }
}
/// name and value of the assignment f
pub open spec fn plain_assign(f: Seq<Cell>, m: Modifiers, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine, a: VariableAction) -> bool {
    exists|x: AstNode, y: AstNode, z: AstNode, n2: NameCache, e2: Engine| #[trigger] sides(f, x, y) && #[trigger] names_var(x, n0, e0, n2, e2, a.name) && a.modifiers == m && #[trigger] acts(operator(f).unwrap().0, z, a.action)
        && given(f, y, z, operator(f).unwrap().0, a.name, n2, e2, n1, e1)
}
/// the text right of := is expanded at once, as is what += adds to the variable v that was defined with :=; all other text is kept
pub open spec fn given(f: Seq<Cell>, y: AstNode, z: AstNode, t: AssignmentType, v: VariableName, n2: NameCache, e2: Engine, n1: NameCache, e1: Engine) -> bool {
    if t == AssignmentType::Simple || t == AssignmentType::Append && is_simple(e2.database, v) { expanded_at(y, start_of(right_of(f)), n2, e2, n1, e1, z) }
    else { z == y && n1 == n2 && e1 == e2 }
}
impl Txt {
    #[verifier::external_body]
    pub fn to_txt(&self) -> (r: Txt)
        ensures r@ == self@,
    { unimplemented!() }
}
/// code that is never reached
#[verifier::external_body]
pub fn unreachable_default_msg<T>() -> T
    requires false,
{ unimplemented!() }
//@fn parsers::variable::parse_variable_assignment
//@sub `location.into()` => `location`
//@sub `trim().into()` => `trim().to_txt()`
//@spec
    requires wf_span(i), wf_ne(*old(names), *old(context)),
    ensures
        extends(*old(names), *final(names)), wf_db(final(context).database), same_setup(*old(context), *final(context)),
        r.is_ok() ==> has_sides(span_flat(i)) && plain_assign(span_flat(i), modifiers, *old(names), *old(context), *final(names), *final(context), r->Ok_0.1) && wf_action(r->Ok_0.1),
        r.is_err() ==> *final(names) == *old(names) && *final(context) == *old(context) && !has_sides(span_flat(i)),
        r.is_err() ==> (err_code(r->Err_0) == ErrorKind::Custom(ParseErrorKind::UnternimatedVariable) <==> stuck(span_flat(i))),
//@at start
    hide(evaluates); hide(wf_names); hide(wf_db); hide(wf_ast); hide(extends); hide(skip); hide(name_end); hide(op_of);
    let ghost f = span_flat(i);
    let ghost n0 = *names;
    let ghost e0 = *context;
    proof { lemma_extends_all(); lemma_ascii_heads(); lemma_unspaced_twice(tl(from_op(f), operator(f).unwrap().1)); }
//@at after `let (value_segment, _) = makefile_whitespace(i)?;`
    proof { assert(span_flat(value_segment) == unspaced(span_flat(i))); assert(span_flat(value_segment) == right_of(f)); }
//@at after `let (post_value, mut value_ast) = parse_ast(value_segment)?;`
    let ghost (x, y) = (name_ast, value_ast);
    proof { assert(sides(f, x, y)); }
//@at after `let variable_name = name_ast.eval(names, context);`
    let ghost n1 = *names;
    let ghost e2 = *context;
    let ghost out = block_flat(ad(variable_name));
    proof { assert(value(x, n0, e0, n1, e2, out)); }
//@at before `let append_to_simple =`
    let ghost n2 = *names;
    proof { assert(interned(n1, trimmed(txt(out)), n2, variable_name)); assert(names_var(x, n0, e0, n2, e2, variable_name)); }
//@at before `Ok((post_value,`
    proof { assert(wf_ast(value_ast)) by { reveal(wf_ast); } assert(given(f, y, value_ast, assignment_type, variable_name, n2, e2, *names, *context));
        let (n3, e3) = (*names, *context);
        assert forall|a: VariableAction| a.name == variable_name && a.modifiers == modifiers && acts(assignment_type, value_ast, a.action) implies #[trigger] plain_assign(f, modifiers, n0, e0, n3, e3, a) by {
            assert(sides(f, x, y) && names_var(x, n0, e0, n2, e2, a.name) && acts(operator(f).unwrap().0, value_ast, a.action));
        }
    }
//@end

/// the modifier f starts with, as a whole word, and its length
pub open spec fn modifier_at(s: Seq<CB>) -> Option<(Modifier, int)> {
    if whole_word(s, "define"@) { Some((Modifier::Define, 6)) }
    else if whole_word(s, "export"@) { Some((Modifier::Export, 6)) }
    else if whole_word(s, "override"@) { Some((Modifier::Override, 8)) }
    else if whole_word(s, "private"@) { Some((Modifier::Private, 7)) }
    else if whole_word(s, "undefine"@) { Some((Modifier::Undefine, 8)) }
    else { None }
}
pub open spec fn whole_word(s: Seq<CB>, k: Seq<char>) -> bool { kw_at(s, k) && (s.len() == k.len() || is_ws(s[k.len() as int].c)) }
pub open spec fn with_modifier(m: Modifiers, k: Modifier) -> Modifiers {
    match k {
        Modifier::Export => Modifiers { export: true, ..m },
        Modifier::Override => Modifiers { mod_override: true, ..m },
        Modifier::Private => Modifiers { private: true, ..m },
        Modifier::Define => Modifiers { define: true, ..m },
        Modifier::Undefine => Modifiers { undefine: true, ..m },
    }
}
pub open spec fn no_text(x: AstNode) -> bool { *x.children == AstChildren::Empty }
pub open spec fn acts_empty(t: AssignmentType, k: VariableActionKind) -> bool {
    match k {
        VariableActionKind::Append(x) => t == AssignmentType::Append && no_text(x),
        VariableActionKind::Define(p) => t != AssignmentType::Append && no_text(p.unexpanded_value) && p.flavor == flavor_of(t) && p.origin == Origin::File,
    }
}
/// the first line of a define, behind that word
pub open spec fn define_assign(f: Seq<Cell>, m: Modifiers, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine, a: VariableAction) -> bool {
    a.modifiers == m && if operator(f).is_some() && right_of(f).len() == 0 {
        acts_empty(operator(f).unwrap().0, a.action) && exists|x: AstNode| #[trigger] parses_to(left_of(f), x) && names_var(x, n0, e0, n1, e1, a.name)
    } else {
        acts_empty(AssignmentType::Recursive, a.action) && interned(n0, trimmed(txt(f)), n1, a.name) && e1 == e0
    }
}
/// modifiers may stand in front of an assignment, in any order
pub open spec fn assign_from(f: Seq<Cell>, m: Modifiers, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine, a: VariableAction) -> bool
    decreases f.len()
{
    if has_sides(f) { plain_assign(f, m, n0, e0, n1, e1, a) }
    else if stuck(f) { false }
    else {
        match modifier_at(txt(f)) {
            None => false,
            Some((Modifier::Undefine, _)) => false,
            Some((Modifier::Define, n)) => define_assign(unspaced(tl(f, n)), with_modifier(m, Modifier::Define), n0, e0, n1, e1, a),
            Some((k, n)) => {
                let g = unspaced(tl(f, n));
                g.len() < f.len() && assign_from(g, with_modifier(m, k), n0, e0, n1, e1, a)
            },
        }
    }
}
/// C08: how an assignment line reads
pub open spec fn assign_reads(f: Seq<Cell>, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine, a: VariableAction) -> bool {
    let g = unspaced(f);
    g.len() > 0 && assign_from(g, Modifiers { export: false, mod_override: false, private: false, define: false, undefine: false }, n0, e0, n1, e1, a)
}
proof fn lemma_modifier_words()
    ensures keyword("define"@) && keyword("export"@) && keyword("override"@) && keyword("private"@) && keyword("undefine"@),
        "define"@.len() == 6, "export"@.len() == 6, "override"@.len() == 8, "private"@.len() == 7, "undefine"@.len() == 8,
        forall|s: Seq<CB>| #![trigger kw_at(s, "define"@)] kw_at(s, "define"@) ==> !kw_at(s, "export"@) && !kw_at(s, "override"@) && !kw_at(s, "private"@) && !kw_at(s, "undefine"@),
        forall|s: Seq<CB>| #![trigger kw_at(s, "export"@)] kw_at(s, "export"@) ==> !kw_at(s, "define"@) && !kw_at(s, "override"@) && !kw_at(s, "private"@) && !kw_at(s, "undefine"@),
        forall|s: Seq<CB>| #![trigger kw_at(s, "override"@)] kw_at(s, "override"@) ==> !kw_at(s, "define"@) && !kw_at(s, "export"@) && !kw_at(s, "private"@) && !kw_at(s, "undefine"@),
        forall|s: Seq<CB>| #![trigger kw_at(s, "private"@)] kw_at(s, "private"@) ==> !kw_at(s, "define"@) && !kw_at(s, "export"@) && !kw_at(s, "override"@) && !kw_at(s, "undefine"@),
{
    reveal_strlit("define"); assert("define"@ =~= seq!['d','e','f','i','n','e']);
    reveal_strlit("export"); assert("export"@ =~= seq!['e','x','p','o','r','t']);
    reveal_strlit("override"); assert("override"@ =~= seq!['o','v','e','r','r','i','d','e']);
    reveal_strlit("private"); assert("private"@ =~= seq!['p','r','i','v','a','t','e']);
    reveal_strlit("undefine"); assert("undefine"@ =~= seq!['u','n','d','e','f','i','n','e']);
    assert forall|s: Seq<CB>, k: Seq<char>| #[trigger] kw_at(s, k) implies (k.len() > 0 ==> same_letter(s[0].c, k[0])) by {}
}
pub open spec fn word_text(k: Modifier) -> Seq<char> {
    match k { Modifier::Define => "define"@, Modifier::Export => "export"@, Modifier::Override => "override"@, Modifier::Private => "private"@, Modifier::Undefine => "undefine"@ }
}
//@fn parsers::variable::parse_line
//@unfinished `modifiers.undefine`
//@attr #[verifier::loop_isolation(false)]
//@outline define_head `Modifier :: Define => {` => `proof { lemma_no_define(span_flat(i), with_modifier(mi, Modifier::Define), n0, e0); } let r = define_head(i, modifiers, names, context); proof { if r.is_ok() { assert(assign_from(gi, mi, n0, e0, *names, *context, r->Ok_0.1)); assert(assign_reads(f00, n0, e0, *names, *context, r->Ok_0.1)); } else { assert(forall|n1: NameCache, e1: Engine, a: VariableAction| !#[trigger] assign_from(gi, mi, n0, e0, n1, e1, a)); } } return r;`
//@outline modifier_word `let (new_i, modifier) = match {` => `modifier_word(i)`
//@sub `let mut modifiers : Modifiers = Default :: default();` => `let mut modifiers: Modifiers = Modifiers { export: false, mod_override: false, private: false, define: false, undefine: false };`
//@sub `Ok(v) => return Ok(v),` => `Ok(v) => { proof { assert(assign_from(span_flat(i), modifiers, n0, e0, *names, *context, v.1)); assert(assign_reads(f00, n0, e0, *names, *context, v.1)); } return Ok(v); }`
//@sub `e.clone().into_error_kind()` => `error_code(&e)`
//@sub `trim().into()` => `trim().to_txt()`
//@sig fn variable_parse_line<'a>(i: BlockSpan<'a>, names: &mut NameCache, context: &mut Engine) -> (r: IResult<BlockSpan<'a>, VariableAction, ParseErrorKind>)
//@spec
    requires wf_span(i), wf_ne(*old(names), *old(context)),
    ensures
        extends(*old(names), *final(names)), wf_db(final(context).database), same_setup(*old(context), *final(context)),
        r.is_ok() ==> is_assign(span_flat(i), *old(names), *old(context)) && assign_reads(span_flat(i), *old(names), *old(context), *final(names), *final(context), r->Ok_0.1) && wf_action(r->Ok_0.1),
        r.is_err() ==> *final(names) == *old(names) && *final(context) == *old(context) && !is_assign(span_flat(i), *old(names), *old(context)),
//@at start
    hide(evaluates); hide(wf_names); hide(wf_db); hide(extends); hide(skip); hide(name_end); hide(op_of); hide(plain_assign); hide(modifier_at); hide(assign_from); hide(define_assign); hide(has_sides); hide(stuck);
    let ghost f00 = span_flat(i);
    let ghost f0 = unspaced(f00);
    let ghost m0 = Modifiers { export: false, mod_override: false, private: false, define: false, undefine: false };
    let ghost n0 = *names;
    let ghost e0 = *context;
    proof { lemma_extends_all(); lemma_ascii_heads(); }
//@loop 0
            invariant wf_span(i), wf_ne(n0, e0), *names == n0, *context == e0,
                forall|n1: NameCache, e1: Engine, a: VariableAction| #![trigger assign_from(f0, m0, n0, e0, n1, e1, a)] assign_from(f0, m0, n0, e0, n1, e1, a) == assign_from(span_flat(i), modifiers, n0, e0, n1, e1, a),
//@at loopstart 0
        proof { lemma_assign_from(span_flat(i), modifiers, n0, e0); lemma_line_assigns(span_flat(i), modifiers, f0, m0, n0, e0); }
        let ghost mi = modifiers;
//@at before `i = new_i;`
        let ghost gi = span_flat(i);
        proof { lemma_modifier_words(); lemma_unspaced_shorter(gi, word_text(modifier).len() as int); }
//@end
/// the cases of assign_from
proof fn lemma_assign_from(f: Seq<Cell>, m: Modifiers, n0: NameCache, e0: Engine)
    ensures
        forall|n1: NameCache, e1: Engine, a: VariableAction| #[trigger] assign_from(f, m, n0, e0, n1, e1, a) == (
            if has_sides(f) { plain_assign(f, m, n0, e0, n1, e1, a) } else if stuck(f) { false }
            else {
                match modifier_at(txt(f)) {
                    None => false,
                    Some((Modifier::Undefine, _)) => false,
                    Some((Modifier::Define, n)) => define_assign(unspaced(tl(f, n)), with_modifier(m, Modifier::Define), n0, e0, n1, e1, a),
                    Some((k, n)) => unspaced(tl(f, n)).len() < f.len() && assign_from(unspaced(tl(f, n)), with_modifier(m, k), n0, e0, n1, e1, a),
                }
            }),
{}
proof fn lemma_unspaced_shorter(f: Seq<Cell>, n: int)
    requires 0 < n <= f.len(),
    ensures unspaced(tl(f, n)).len() < f.len(),
{
    lemma_skip_range(txt(tl(f, n)), 0);
}
/// what f reads as the line reads as
proof fn lemma_line_assigns(f: Seq<Cell>, m: Modifiers, f0: Seq<Cell>, m0: Modifiers, n0: NameCache, e0: Engine)
    requires
        m0 == (Modifiers { export: false, mod_override: false, private: false, define: false, undefine: false }), f0.len() > 0,
        forall|n1: NameCache, e1: Engine, a: VariableAction| #![trigger assign_from(f0, m0, n0, e0, n1, e1, a)] assign_from(f0, m0, n0, e0, n1, e1, a) == assign_from(f, m, n0, e0, n1, e1, a),
    ensures
        forall|g: Seq<Cell>, n1: NameCache, e1: Engine, a: VariableAction| #![trigger assign_reads(g, n0, e0, n1, e1, a)] unspaced(g) == f0 ==> assign_reads(g, n0, e0, n1, e1, a) == assign_from(f, m, n0, e0, n1, e1, a),
        forall|g: Seq<Cell>, n1: NameCache, e1: Engine, a: VariableAction| #![trigger is_assign(g, n0, e0), assign_from(f, m, n0, e0, n1, e1, a)] unspaced(g) == f0 && assign_from(f, m, n0, e0, n1, e1, a) ==> is_assign(g, n0, e0),
{
    assert forall|g: Seq<Cell>, n1: NameCache, e1: Engine, a: VariableAction| #![trigger is_assign(g, n0, e0), assign_from(f, m, n0, e0, n1, e1, a)] unspaced(g) == f0 && assign_from(f, m, n0, e0, n1, e1, a) implies is_assign(g, n0, e0) by {
        assert(assign_from(f0, m0, n0, e0, n1, e1, a));
        assert(assign_reads(g, n0, e0, n1, e1, a));
    }
}
#[verifier::external_body]
pub fn error_code<I, E>(e: &Err<I, E>) -> (r: ErrorKind<E>)
    ensures r == err_code(*e),
{ unimplemented!() }
//@part parsers::variable::parse_line modifier_word
//@sig fn modifier_word<'a>(i: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, Modifier, ParseErrorKind>)
//@spec
    requires wf_span(i),
    ensures
        r.is_ok() <==> modifier_at(span_txt(i)).is_some(),
        r.is_ok() ==> modifier_at(span_txt(i)) == Some((r->Ok_0.1, word_text(r->Ok_0.1).len() as int)) && wf_span(r->Ok_0.0) && kw_at(span_txt(i), word_text(r->Ok_0.1)) && word_text(r->Ok_0.1).len() <= i.length
            && span_flat(r->Ok_0.0) == unspaced(tl(span_flat(i), word_text(r->Ok_0.1).len() as int)),
//@at start
    hide(kw_at); hide(skip);
    proof { lemma_modifier_words(); lemma_ascii_heads(); lemma_tails(i); }
//@end
//@part parsers::variable::parse_line define_head
//@sig fn define_head<'a>(i: BlockSpan<'a>, mut modifiers: Modifiers, names: &mut NameCache, context: &mut Engine) -> (r: IResult<BlockSpan<'a>, VariableAction, ParseErrorKind>)
//@spec
    requires wf_span(i), wf_ne(*old(names), *old(context)),
    ensures
        extends(*old(names), *final(names)), wf_db(final(context).database), same_setup(*old(context), *final(context)),
        r.is_ok() ==> define_assign(span_flat(i), with_modifier(modifiers, Modifier::Define), *old(names), *old(context), *final(names), *final(context), r->Ok_0.1),
        r.is_ok() ==> wf_action(r->Ok_0.1),
        r.is_err() ==> *final(names) == *old(names) && *final(context) == *old(context) && no_define(span_flat(i)),
//@at start
    hide(evaluates); hide(wf_names); hide(wf_db); hide(wf_ast); hide(extends); hide(skip); hide(name_end); hide(op_of); hide(define_assign);
    let ghost n0 = *names;
    let ghost e0 = *context;
    let ghost f = span_flat(i);
    let ghost m = with_modifier(modifiers, Modifier::Define);
    proof { lemma_extends_all(); lemma_ascii_heads(); lemma_unspaced_twice(tl(from_op(f), operator(f).unwrap().1)); lemma_empty_wf(); }
//@at before `return Ok((rest, VariableAction {`
    proof {
        let (n1, e1) = (*names, *context);
        assert(interned(n0, trimmed(txt(f)), n1, variable_name));
        assert forall|a: VariableAction| a.name == variable_name && a.modifiers == m && acts_empty(AssignmentType::Recursive, a.action) implies #[trigger] define_assign(f, m, n0, e0, n1, e1, a) by { reveal(define_assign); }
    }
//@at after `let (_, name_ast) = parse_ast(variable_name)?;`
    let ghost x = name_ast;
//@at after `let variable_name = name_ast.eval(names, context);`
    let ghost n2 = *names;
    let ghost out = block_flat(ad(variable_name));
    proof { assert(value(x, n0, e0, n2, *context, out)); }
//@at before `return Ok((trailing, VariableAction {`
    proof {
        let (n1, e1) = (*names, *context);
        assert(interned(n2, trimmed(txt(out)), n1, variable_name));
        assert(names_var(x, n0, e0, n1, e1, variable_name));
        assert forall|a: VariableAction| a.name == variable_name && a.modifiers == m && acts_empty(assignment_type, a.action) implies #[trigger] define_assign(f, m, n0, e0, n1, e1, a) by { reveal(define_assign); }
    }
//@end
/// f cannot be the first line of a define
pub open spec fn no_define(f: Seq<Cell>) -> bool { operator(f).is_some() && right_of(f).len() == 0 && !parses(left_of(f)) }
proof fn lemma_empty_wf()
    ensures forall|y: AstNode| no_text(y) ==> #[trigger] wf_ast(y),
{}
proof fn lemma_no_define(f: Seq<Cell>, m: Modifiers, n0: NameCache, e0: Engine)
    ensures no_define(f) ==> forall|n1: NameCache, e1: Engine, a: VariableAction| !#[trigger] define_assign(f, m, n0, e0, n1, e1, a),
{}
