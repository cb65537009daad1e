//@props C08 C09 C10 C11
// ---------------------------------------------------------------- the state of the line reader
/// str == str
#[verifier::external_body]
pub fn txt_eq(a: &Txt, b: &Txt) -> (r: bool)
    ensures r == (a@ == b@),
{ unimplemented!() }
/// the end of s without the whitespace at its end
pub open spec fn ws_end(s: Seq<CB>, e: int) -> int
    decreases e
{
    if 0 < e <= s.len() && is_ws(s[e - 1].c) { ws_end(s, e - 1) } else { e }
}
/// where s begins after the whitespace it starts with
pub open spec fn ws_start(s: Seq<CB>, a: int) -> int
    decreases s.len() - a
{
    if 0 <= a < s.len() && is_ws(s[a].c) { ws_start(s, a + 1) } else { a }
}
/// s without the whitespace around it
pub open spec fn trimmed(s: Seq<CB>) -> Seq<CB> {
    let a = ws_start(s, 0);
    if a >= s.len() { Seq::empty() } else { s.subrange(a, ws_end(s, s.len() as int)) }
}
impl Txt {
    #[verifier::external_body]
    pub fn trim<'a>(&'a self) -> (r: &'a Txt)
        ensures r@ == trimmed(self@),
    { unimplemented!() }
}
//@type parsers::ConditionalInterpretation
//@attr #[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@end
//@type parsers::ConditionalState
//@end
//@type parsers::DefineState
//@attr #[derive(Clone, Copy)]
//@end
//@type parsers::ParserState
//@end
//@type parsers::conditional::Conditional
//@end
//@type parsers::variable::DefineLineAction
//@attr #[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@end
//@type parsers::variable::DefineLine
//@end
//@type parsers::variable::Action
//@end
//@type parsers::variable::Modifiers
//@attr #[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@end
//@type parsers::variable::VariableAction
//@end
//@type parsers::targets::Action
//@end
pub open spec fn selects(c: ConditionalState) -> bool { c.interpretation == ConditionalInterpretation::Executing }
/// C10: some conditional does not select its current branch
pub open spec fn unselected(cs: Seq<ConditionalState>) -> bool { exists|i: int| 0 <= i < cs.len() && !selects(#[trigger] cs[i]) }
pub open spec fn wf_rule(p: ProtoRule) -> bool {
    all_wf_blocks(p.targets@) && all_wf_blocks(p.deps@) && forall|i: int| 0 <= i < p.recipe.0.len() ==> wf_ast((#[trigger] p.recipe.0[i]).unexpanded_command)
}
pub open spec fn wf_state(s: ParserState) -> bool {
    &&& s.ignoring == unselected(s.conditionals@)
    &&& s.current_rule matches Some(p) ==> wf_rule(p) && s.current_define.is_none()
    &&& s.current_define matches Some(d) ==> d.nesting >= 1
}
/// names, engine
pub ghost struct NE { pub n: NameCache, pub e: Engine }
pub open spec fn wf_ne(n: NameCache, e: Engine) -> bool { wf_names(n) && wf_db(e.database) }
//@fn parsers::ConditionalInterpretation::invert
//@spec
    ensures r == if self == ConditionalInterpretation::Executing { ConditionalInterpretation::NotExecuting } else { ConditionalInterpretation::Executing },
//@end
//@fn parsers::conditional::Conditional::is_inverted
//@spec
    ensures r == (self is IfNDef || self is IfNEq),
//@end
//@fn parsers::ParserState::new
//@spec
    ensures r.conditionals.len() == 0, !r.ignoring, r.current_rule.is_none(), r.current_define.is_none(), wf_state(r),
//@end
//@fn parsers::ParserState::update_ignoring
//@sub `self.conditionals.iter()` => `self.conditionals.viter()`
//@spec
    ensures
        final(self).ignoring == unselected(old(self).conditionals@),
        final(self).conditionals == old(self).conditionals, final(self).current_rule == old(self).current_rule, final(self).current_define == old(self).current_define,
//@at start
    let ghost cs = self.conditionals@;
    let ghost mut k: int = 0;
    proof { assert(cs.subrange(0, cs.len() as int) =~= cs); }
//@loop 0
            invariant
                *self == *old(self), cs == self.conditionals@, 0 <= k <= cs.len(), __it1.rem() == cs.subrange(k, cs.len() as int),
                forall|i: int| 0 <= i < k ==> selects(#[trigger] cs[i]),
            ensures k == cs.len(),
//@at loopstart 0
                proof {
                    assert(*conditional == cs[k]);
                    assert(cs.subrange(k, cs.len() as int).drop_first() =~= cs.subrange(k + 1, cs.len() as int));
                    k = k + 1;
                }
//@end
//@fn parsers::ParserState::currently_processing_rule
//@spec
    ensures r == self.current_rule.is_some(),
//@end
/// the rule p with one more command
pub open spec fn with_command(p: ProtoRule, line: AstNode, q: ProtoRule) -> bool {
    q.targets == p.targets && q.deps == p.deps && q.rule_type == p.rule_type && q.recipe.0@ == p.recipe.0@.push(Command { unexpanded_command: line })
}
//@fn parsers::ProtoRule::push_command_line
//@spec
    ensures with_command(*old(self), line, *final(self)),
//@end
//@fn parsers::ParserState::push_command_line
//@spec
    requires old(self).current_rule.is_some(),
    ensures
        final(self).current_rule.is_some(), with_command(old(self).current_rule->Some_0, line, final(self).current_rule->Some_0),
        final(self).conditionals == old(self).conditionals, final(self).ignoring == old(self).ignoring, final(self).current_define == old(self).current_define,
//@end
// ---------------------------------------------------------------- C10
/// the expression x has the value out
pub open spec fn value(x: AstNode, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine, out: Seq<Cell>) -> bool {
    exists|sens: Set<VariableName>| #[trigger] evaluates(x, n0, e0, n1, e1, sens, out)
}
/// both arguments of an equality test, expanded one after the other, are the same text
pub open spec fn compares(a: AstNode, b: AstNode, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine, same: bool) -> bool {
    exists|m: NameCache, d: Engine, ta: Seq<Cell>, tb: Seq<Cell>| #[trigger] value(a, n0, e0, m, d, ta) && #[trigger] value(b, m, d, n1, e1, tb) && same == (trimmed(txt(ta)) == trimmed(txt(tb)))
}
pub open spec fn when(sel: bool) -> ConditionalInterpretation { if sel { ConditionalInterpretation::Executing } else { ConditionalInterpretation::NotExecuting } }
/// what a directive makes of the conditionals that are open
pub open spec fn cond_step(cs: Seq<ConditionalState>, c: Conditional, n0: NameCache, e0: Engine, ds: Seq<ConditionalState>, n1: NameCache, e1: Engine) -> bool {
    match c {
        Conditional::Else(o) => o.is_none() && n1 == n0 && e1 == e0 && cs.len() > 0 && !cs.last().seen_else
            && ds == cs.drop_last().push(ConditionalState { interpretation: when(!selects(cs.last())), seen_else: true }),
        Conditional::EndIf => n1 == n0 && e1 == e0 && cs.len() > 0 && ds == cs.drop_last(),
        // in unselected lines nothing is expanded
        _ if unselected(cs) => n1 == n0 && e1 == e0 && ds == cs.push(ConditionalState { interpretation: ConditionalInterpretation::NotExecuting, seen_else: false }),
        Conditional::IfEq(a, b) => exists|same: bool| #[trigger] compares(a, b, n0, e0, n1, e1, same) && ds == cs.push(ConditionalState { interpretation: when(same), seen_else: false }),
        Conditional::IfNEq(a, b) => exists|same: bool| #[trigger] compares(a, b, n0, e0, n1, e1, same) && ds == cs.push(ConditionalState { interpretation: when(!same), seen_else: false }),
        _ => false,
    }
}
pub open spec fn wf_cond(c: Conditional) -> bool
    decreases c
{
    match c {
        Conditional::IfDef(a) => wf_ast(a),
        Conditional::IfNDef(a) => wf_ast(a),
        Conditional::IfEq(a, b) => wf_ast(a) && wf_ast(b),
        Conditional::IfNEq(a, b) => wf_ast(a) && wf_ast(b),
        _ => true,
    }
}
/// nothing but how its parts are stored differs
pub open spec fn same_state(a: ParserState, b: ParserState) -> bool {
    a.conditionals@ == b.conditionals@ && a.ignoring == b.ignoring && a.current_rule == b.current_rule && a.current_define == b.current_define
}
pub proof fn lemma_unselected()
    ensures
        forall|s: Seq<ConditionalState>, c: ConditionalState| #![trigger s.push(c)] unselected(s.push(c)) == (unselected(s) || !selects(c)),
{
    assert forall|s: Seq<ConditionalState>, c: ConditionalState| #![trigger s.push(c)] unselected(s.push(c)) == (unselected(s) || !selects(c)) by {
        if unselected(s) { let i = choose|i: int| 0 <= i < s.len() && !selects(#[trigger] s[i]); assert(s.push(c)[i] == s[i]); }
        assert(s.push(c)[s.len() as int] == c);
        if unselected(s.push(c)) { let i = choose|i: int| 0 <= i < s.push(c).len() && !selects(#[trigger] s.push(c)[i]); if i < s.len() { assert(s[i] == s.push(c)[i]); } }
    }
}
//@fn parsers::conditional::ParserState::handle_conditional
//@unfinished `whole is IfDef || whole is IfNDef || (whole matches Conditional::Else(x) && x.is_some())`
//@sub `a == b` => `txt_eq(a, b)`
//@spec
    requires wf_state(*old(self)), wf_cond(conditional), wf_ne(*old(names), *old(engine)),
    ensures
        wf_state(*final(self)), final(self).current_rule == old(self).current_rule, final(self).current_define == old(self).current_define,
        extends(*old(names), *final(names)), wf_db(final(engine).database), same_setup(*old(engine), *final(engine)),
        match r {
            Ok(()) => cond_step(old(self).conditionals@, conditional, *old(names), *old(engine), final(self).conditionals@, *final(names), *final(engine)),
            Err(_) => same_state(*final(self), *old(self)) && *final(names) == *old(names) && *final(engine) == *old(engine) && match conditional {
                Conditional::Else(_) => old(self).conditionals.len() == 0 || old(self).conditionals@.last().seen_else,
                Conditional::EndIf => old(self).conditionals.len() == 0,
                _ => false,
            },
        },
//@at start
    hide(evs);
    let ghost whole = conditional;
    let ghost cs = self.conditionals@;
    let ghost n0 = *names;
    let ghost e0 = *engine;
    proof { lemma_unselected(); }
//@at before `let a = a.eval(names, engine);`
            let ghost ca = a;
            let ghost cb = b;
//@at after `let a = a.eval(names, engine);`
            let ghost m = NE { n: *names, e: *engine };
            let ghost ta = a;
//@at after `let b = b.eval(names, engine);`
            let ghost tb = b;
//@at after `let b = b.trim();`
            proof {
                assert(value(ca, n0, e0, m.n, m.e, block_flat(*ta)) && value(cb, m.n, m.e, *names, *engine, block_flat(*tb)));
                assert(compares(ca, cb, n0, e0, *names, *engine, a@ == b@));
            }
//@at before `return Err(ParseErrorKind::TooManyElses);`
                        proof { assert(self.conditionals@ =~= cs); }
//@at after `top_conditional.seen_else = true;`
                    proof { assert(self.conditionals@ =~= cs.drop_last().push(ConditionalState { interpretation: when(!selects(cs.last())), seen_else: true })); }
//@end
// ---------------------------------------------------------------- C08: assignments
pub open spec fn no_modifiers(m: Modifiers) -> bool { !m.export && !m.mod_override && !m.private && !m.undefine }
/// what the action a does to the database (a define leaves an empty value to append to)
pub open spec fn assigns(d0: Database, a: VariableAction, d1: Database) -> bool {
    match a.action {
        VariableActionKind::Define(p) =>
            if p.flavor == Flavor::Conditional && !a.modifiers.define && d0.variables@.dom().contains(a.name) { d1 == d0 }
            else { d1.rules@ == d0.rules@ && d1.target_variables@ == d0.target_variables@ && d1.variables@ == d0.variables@.insert(a.name, p) },
        VariableActionKind::Append(x) => exists|p: VariableParameters| p.unexpanded_value == x && p.flavor == Flavor::Recursive && p.origin == Origin::File && #[trigger] is_append(d0, a.name, x.source_location.inner, p, true, d1),
    }
}
pub open spec fn wf_action(a: VariableAction) -> bool { match a.action { VariableActionKind::Define(p) => wf_ast(p.unexpanded_value), VariableActionKind::Append(x) => wf_ast(x) } }
pub proof fn lemma_filter_from<T>(s: Seq<T>, p: spec_fn(T) -> bool, i: int)
    requires 0 <= i < s.filter(p).len(),
    ensures exists|j: int| 0 <= j < s.len() && s[j] == s.filter(p)[i],
    decreases s.len()
{
    reveal(Seq::filter);
    let t = s.drop_last();
    if i < t.filter(p).len() {
        lemma_filter_from(t, p, i);
        let j = choose|j: int| 0 <= j < t.len() && t[j] == t.filter(p)[i];
        assert(s[j] == s.filter(p)[i]);
    } else {
        assert(s[s.len() - 1] == s.filter(p)[i]);
    }
}
pub proof fn lemma_join_wf(r: AstNode, loc: Location, s: Seq<AstNode>)
    requires is_join(r, loc, s), forall|i: int| 0 <= i < s.len() ==> wf_ast(#[trigger] s[i]),
    ensures wf_ast(r),
{
    let p = |n: AstNode| non_empty(n);
    let k = s.filter(p);
    assert forall|i: int| 0 <= i < k.len() implies wf_ast(#[trigger] k[i]) by { lemma_filter_from(s, p, i); let j = choose|j: int| 0 <= j < s.len() && s[j] == s.filter(p)[i]; assert(wf_ast(s[j])); }
    if k.len() != 1 { assert(match *r.children { AstChildren::Concat(v) => v@ == k, _ => false }); }
}
pub proof fn lemma_append_wf(d: Database, name: VariableName, loc: Location, p: VariableParameters, space: bool, r: Database)
    requires wf_db(d), is_append(d, name, loc, p, space, r), wf_ast(p.unexpanded_value),
    ensures wf_db(r),
{
    if d.variables@.dom().contains(name) {
        let (o, x) = (d.variables@[name], r.variables@[name]);
        assert(wf_ast(o.unexpanded_value));
        if space {
            let s = choose|s: Seq<AstNode>| #[trigger] is_join(x.unexpanded_value, loc, s) && s.len() == 3 && s[0] == o.unexpanded_value && is_space_node(s[1]) && s[2] == p.unexpanded_value;
            lemma_lit1(' ');
            assert(wf_ast(s[1]));
            lemma_join_wf(x.unexpanded_value, loc, s);
        } else {
            let s = choose|s: Seq<AstNode>| #[trigger] is_join(x.unexpanded_value, loc, s) && s.len() == 2 && s[0] == o.unexpanded_value && s[1] == p.unexpanded_value;
            lemma_join_wf(x.unexpanded_value, loc, s);
        }
    }
}
pub proof fn lemma_append_wf_all()
    ensures forall|d: Database, name: VariableName, loc: Location, p: VariableParameters, space: bool, r: Database|
        wf_db(d) && #[trigger] is_append(d, name, loc, p, space, r) && wf_ast(p.unexpanded_value) ==> wf_db(r),
{
    assert forall|d: Database, name: VariableName, loc: Location, p: VariableParameters, space: bool, r: Database|
        wf_db(d) && #[trigger] is_append(d, name, loc, p, space, r) && wf_ast(p.unexpanded_value) implies wf_db(r) by { lemma_append_wf(d, name, loc, p, space, r); }
}
//@fn parsers::variable::ParserState::handle_global_variable_action
//@unfinished `action.modifiers.export || action.modifiers.mod_override || action.modifiers.private || action.modifiers.undefine`
//@spec
    requires wf_state(*old(self)), old(self).current_rule.is_none(), old(self).current_define.is_none(), wf_action(action), wf_db(old(engine).database),
    ensures
        r.is_ok(), wf_state(*final(self)), same_setup(*old(engine), *final(engine)), wf_db(final(engine).database),
        final(self).conditionals == old(self).conditionals, final(self).current_rule.is_none(),
        final(self).current_define == if action.modifiers.define { Some(DefineState { var: action.name, nesting: 1 }) } else { None::<DefineState> },
        assigns(old(engine).database, action, final(engine).database),
//@at start
    hide(is_append);
    proof { lemma_append_wf_all(); }
//@end
// ---------------------------------------------------------------- C11: lines of a define
/// a line of a define: how deep defines are nested after it
pub open spec fn depth_after(d: int, a: DefineLineAction) -> int {
    match a { DefineLineAction::Append => d, DefineLineAction::IncreaseNesting => d + 1, DefineLineAction::DecreaseNesting => d - 1 }
}
/// the text of the line is appended to the value of the variable
pub open spec fn adds_line(d0: Database, v: VariableName, l: DefineLine, d1: Database) -> bool {
    exists|p: VariableParameters| p.unexpanded_value == l.content && p.flavor == Flavor::Recursive && p.origin == Origin::File && #[trigger] is_append(d0, v, l.location, p, false, d1)
}
//@fn parsers::variable::ParserState::handle_define_line
//@spec
    requires wf_state(*old(self)), old(self).current_define.is_some(), wf_ast(action.content), wf_db(old(engine).database),
    ensures
        r.is_ok(), wf_state(*final(self)), same_setup(*old(engine), *final(engine)), wf_db(final(engine).database),
        final(self).conditionals == old(self).conditionals, final(self).current_rule.is_none(),
        ({
            let d = old(self).current_define->Some_0;
            let n = depth_after(d.nesting as int, action.action);
            if n == 0 { final(self).current_define.is_none() && final(engine).database == old(engine).database }
            else { final(self).current_define == Some(DefineState { var: d.var, nesting: n as u32 }) && adds_line(old(engine).database, d.var, action, final(engine).database) }
        }),
//@at start
    hide(is_append);
    proof { lemma_append_wf_all(); }
//@at before `define.nesting += 1;`
                assume(define.nesting < u32::MAX);
//@end
// ---------------------------------------------------------------- C09: rules
//@fn ::Engine::from_protorule
//@spec
    requires wf_names(*old(names)), wf_rule(rule),
    ensures
        extends(*old(names), *final(names)), final(names).variable_names == old(names).variable_names, same_setup(*old(self), *final(self)),
        final(self).database.variables@ == old(self).database.variables@, final(self).database.target_variables@ == old(self).database.target_variables@,
        adds_rule(old(self).database.rules@, rule, *final(names), final(self).database.rules@),
//@end
/// closing the rule that is open adds it to the database
pub open spec fn closes(s0: ParserState, n0: NameCache, e0: Engine, s1: ParserState, n1: NameCache, e1: Engine) -> bool {
    &&& s1.conditionals == s0.conditionals && s1.ignoring == s0.ignoring && s1.current_define == s0.current_define && s1.current_rule.is_none()
    &&& match s0.current_rule {
            None => n1 == n0 && e1 == e0,
            Some(p) => extends(n0, n1) && n1.variable_names == n0.variable_names && same_setup(e0, e1) && e1.database.variables@ == e0.database.variables@
                && e1.database.target_variables@ == e0.database.target_variables@ && adds_rule(e0.database.rules@, p, n1, e1.database.rules@),
        }
}
//@fn parsers::ParserState::close_rule
//@props C08 C09 C10 C11 C18
//@spec
    requires wf_state(*old(self)), wf_ne(*old(names), *old(engine)),
    ensures closes(*old(self), *old(names), *old(engine), *final(self), *final(names), *final(engine)), wf_state(*final(self)), extends(*old(names), *final(names)), wf_db(final(engine).database), same_setup(*old(engine), *final(engine)),
//@end
pub open spec fn wf_target_action(a: TargetsAction) -> bool {
    match a {
        TargetsAction::NewRule { targets, deps, double_colon, initial_command } => all_wf_blocks(targets@) && all_wf_blocks(deps@) && (initial_command matches Some(c) ==> wf_ast(c)),
        _ => true,
    }
}
/// a rule line opens a rule with its targets, prerequisites and, if there is one, its first command
pub open spec fn opens(a: TargetsAction, r: Option<ProtoRule>) -> bool {
    match a {
        TargetsAction::NoAction => r.is_none(),
        TargetsAction::NewRule { targets, deps, double_colon, initial_command } => r matches Some(p) && p.targets == targets && p.deps == deps
            && p.rule_type == (if double_colon { RuleType::DoubleColon } else { RuleType::Standard })
            && p.recipe.0@ == match initial_command { Some(c) => seq![Command { unexpanded_command: c }], None => Seq::empty() },
        _ => false,
    }
}
//@fn parsers::targets::ParserState::handle_target_action
//@unfinished `action is TargetVariable`
//@spec
    requires wf_state(*old(self)), old(self).current_rule.is_none(), old(self).current_define.is_none(), wf_target_action(action),
    ensures
        r.is_ok(), wf_state(*final(self)), *final(_engine) == *old(_engine), final(self).conditionals == old(self).conditionals, final(self).current_define.is_none(),
        opens(action, final(self).current_rule),
//@end
// ---------------------------------------------------------------- lines
//@type parsers::directives::Action
//@end
#[verifier::external_body]
pub fn begin_panic(m: &Txt) -> !
    requires false,
    ensures false,
{ unimplemented!() }
//@fn parsers::error_out
//@spec
    ensures r.is_err() && r->Err_0 is Error,
//@end
pub open spec fn is_cond(f: Seq<Cell>) -> bool { exists|c: Conditional| #[trigger] cond_reads(f, c) }
pub open spec fn is_assign(f: Seq<Cell>, n0: NameCache, e0: Engine) -> bool { exists|n1: NameCache, e1: Engine, a: VariableAction| #[trigger] assign_reads(f, n0, e0, n1, e1, a) }
pub open spec fn is_dir(f: Seq<Cell>) -> bool { exists|a: DirectivesAction| #[trigger] dir_reads(f, a) }
pub proof fn lemma_command_wf()
    ensures forall|p: ProtoRule, a: AstNode, q: ProtoRule| wf_rule(p) && wf_ast(a) && #[trigger] with_command(p, a, q) ==> wf_rule(q),
{
    assert forall|p: ProtoRule, a: AstNode, q: ProtoRule| wf_rule(p) && wf_ast(a) && #[trigger] with_command(p, a, q) implies wf_rule(q) by {
        assert forall|i: int| 0 <= i < q.recipe.0.len() implies wf_ast((#[trigger] q.recipe.0[i]).unexpanded_command) by { if i < p.recipe.0.len() { assert(q.recipe.0[i] == p.recipe.0[i]); } }
    }
}
/// one after the other
pub proof fn lemma_extends_all()
    ensures
        forall|a: NameCache, b: NameCache| #[trigger] extends(a, b) ==> wf_names(b),
        forall|a: NameCache| wf_names(a) ==> #[trigger] extends(a, a),
        forall|a: NameCache, b: NameCache, c: NameCache| #[trigger] extends(a, b) && #[trigger] extends(b, c) ==> extends(a, c),
{}
/// nothing happens
pub open spec fn unchanged(s0: ParserState, n0: NameCache, e0: Engine, s1: ParserState, n1: NameCache, e1: Engine) -> bool { same_state(s1, s0) && n1 == n0 && e1 == e0 }
pub open spec fn is_comment(f: Seq<Cell>) -> bool { let a = skip(txt(f), 0); a < f.len() && txt(f)[a].c == '#' }
pub open spec fn behind_comment(f: Seq<Cell>) -> Seq<Cell> {
    let a = skip(txt(f), 0);
    f.subrange(a + comment_end(txt(f).subrange(a, f.len() as int), 1), f.len() as int)
}
/// C13: f starts with a recipe line
pub open spec fn is_recipe(f: Seq<Cell>, cmd: char) -> bool { starts_with(f, cmd) && exists|a: AstNode| #[trigger] parses_to(recipe_at(f, cmd).0, a) }
/// a line in a define
pub open spec fn define_step(l: DefineLine, s0: ParserState, n0: NameCache, e0: Engine, s1: ParserState, n1: NameCache, e1: Engine) -> bool {
    let d = s0.current_define->Some_0;
    let n = depth_after(d.nesting as int, l.action);
    &&& n1 == n0 && same_setup(e0, e1) && s1.conditionals@ == s0.conditionals@ && s1.ignoring == s0.ignoring && s1.current_rule.is_none()
    &&& if n == 0 { s1.current_define.is_none() && e1.database == e0.database }
        else { s1.current_define == Some(DefineState { var: d.var, nesting: n as u32 }) && adds_line(e0.database, d.var, l, e1.database) }
}
/// C08: an assignment closes the rule that is open
pub open spec fn assign_step(line: Seq<Cell>, s0: ParserState, n0: NameCache, e0: Engine, s1: ParserState, n1: NameCache, e1: Engine) -> bool {
    exists|a: VariableAction, n2: NameCache, e2: Engine, s3: ParserState, e3: Engine| #[trigger] assign_reads(line, n0, e0, n2, e2, a) && #[trigger] closes(s0, n2, e2, s3, n1, e3)
        && assigns(e3.database, a, e1.database) && same_setup(e3, e1) && s1.conditionals@ == s0.conditionals@ && s1.ignoring == s0.ignoring && s1.current_rule.is_none()
        && s1.current_define == if a.modifiers.define { Some(DefineState { var: a.name, nesting: 1 }) } else { None::<DefineState> }
}
/// C09: a rule line closes the rule that is open and opens another
pub open spec fn rule_line(line: Seq<Cell>, s0: ParserState, n0: NameCache, e0: Engine, s1: ParserState, n1: NameCache, e1: Engine) -> bool {
    exists|a: TargetsAction, n2: NameCache, e2: Engine, s3: ParserState| #[trigger] rule_reads(line, n0, e0, n2, e2, Some(a)) && #[trigger] closes(s0, n2, e2, s3, n1, e1)
        && opens(a, s1.current_rule) && s1.conditionals@ == s0.conditionals@ && s1.ignoring == s0.ignoring && s1.current_define.is_none()
}
/// a logical line outside defines and recipes
pub open spec fn plain_step(line: Seq<Cell>, s0: ParserState, n0: NameCache, e0: Engine, s1: ParserState, n1: NameCache, e1: Engine) -> bool {
    if line.len() == 0 { unchanged(s0, n0, e0, s1, n1, e1) }
    else if is_cond(line) {
        s1.current_rule == s0.current_rule && s1.current_define == s0.current_define && s1.ignoring == unselected(s1.conditionals@)
            && exists|c: Conditional| #[trigger] cond_reads(line, c) && cond_step(s0.conditionals@, c, n0, e0, s1.conditionals@, n1, e1)
    }
    else if s0.ignoring { unchanged(s0, n0, e0, s1, n1, e1) }
    else if is_assign(line, n0, e0) { assign_step(line, s0, n0, e0, s1, n1, e1) }
    else if is_dir(line) { dir_step(line, s0, n0, e0, s1, n1, e1) }
    else if starts_with(line, e0.command_char) { false }
    else { rule_line(line, s0, n0, e0, s1, n1, e1) || same_state(s1, s0) && rule_reads(line, n0, e0, n1, e1, None) }
}
/// what the reader makes of the line that f starts with
pub open spec fn reads_line(f: Seq<Cell>, s0: ParserState, n0: NameCache, e0: Engine, s1: ParserState, n1: NameCache, e1: Engine, rest: Seq<Cell>) -> bool {
    let cmd = e0.command_char;
    let line = logical(f, true, false);
    if s0.current_define.is_none() && is_comment(f) { rest == behind_comment(f) && unchanged(s0, n0, e0, s1, n1, e1) }
    else if s0.current_rule.is_some() && is_recipe(f, cmd) {
        rest == recipe_at(f, cmd).1 && n1 == n0 && e1 == e0 && if s0.ignoring { same_state(s1, s0) } else {
            s1.conditionals@ == s0.conditionals@ && !s1.ignoring && s1.current_define == s0.current_define && s1.current_rule.is_some()
                && exists|a: AstNode| #[trigger] parses_to(recipe_at(f, cmd).0, a) && with_command(s0.current_rule->Some_0, a, s1.current_rule->Some_0)
        }
    }
    else if s0.current_define.is_some() { exists|l: DefineLine| #[trigger] define_reads(f, l, rest) && define_step(l, s0, n0, e0, s1, n1, e1) }
    else { rest == line.1 && plain_step(line.0, s0, n0, e0, s1, n1, e1) }
}
//@fn parsers::ParserState::parse_line
//@props C08 C09 C10 C11 C18
//@sub `Ok(()) => return Ok((i_h1, ())),` => `Ok(()) => { return Ok((i_h1, ())); }`
//@sub `Ok(()) => return Ok((i_h2, ())),` => `Ok(()) => { return Ok((i_h2, ())); }`
//@sub `Ok(()) => return Ok((i_h3, ())),` => `Ok(()) => { return Ok((i_h3, ())); }`
//@sub `Ok(()) => return Ok((i, ())),` => `Ok(()) => { return Ok((i, ())); }`
//@spec
    requires wf_span(i), i.length > 0, wf_state(*old(self)), wf_ne(*old(names), *old(engine)),
    ensures
        extends(*old(names), *final(names)), wf_db(final(engine).database), same_setup(*old(engine), *final(engine)),
        r.is_err() ==> r->Err_0 is Failure,
        r.is_ok() ==> ({
        let rest = r->Ok_0.0;
        &&& wf_span(rest) && is_tail(i, i.length - rest.length, rest)
        &&& wf_state(*final(self))
        &&& reads_line(span_flat(i), *old(self), *old(names), *old(engine), *final(self), *final(names), *final(engine), span_flat(rest))
    }),
//@at start
    hide(logical); hide(recipe_at); hide(comment_end); hide(skip); hide(is_append); hide(is_cond); hide(is_assign); hide(is_dir); hide(wf_db); hide(wf_names); hide(extends); hide(define_reads);
    hide(cond_step); hide(assigns); hide(opens); hide(evs); hide(unselected); hide(adds_rule); hide(wf_rule); hide(with_command); hide(wf_cond); hide(wf_action); hide(wf_ast);
    let ghost i0 = i;
    let ghost s0 = *self;
    let ghost n0 = *names;
    let ghost e0 = *engine;
    let ghost f0 = span_flat(i);
    proof { lemma_command_wf(); lemma_extends_all(); lemma_command_char(engine.command_char); }
//@at before `return Ok((i_h2, ()));`
    proof { assert(is_recipe(f0, e0.command_char)); }
//@end
/// the reader between two lines: what is left to read, its state, the names and the engine
pub ghost struct St { pub f: Seq<Cell>, pub s: ParserState, pub n: NameCache, pub e: Engine }
/// tr leads from a to b, line by line
pub open spec fn goes(tr: Seq<St>, a: St, b: St) -> bool {
    &&& tr.len() > 0 && tr[0] == a && tr.last() == b
    &&& forall|i: int| #![trigger tr[i]] 0 < i < tr.len() ==> reads_line(tr[i - 1].f, tr[i - 1].s, tr[i - 1].n, tr[i - 1].e, tr[i].s, tr[i].n, tr[i].e, tr[i].f)
}
pub open spec fn fresh(s: ParserState) -> bool { s.conditionals@.len() == 0 && !s.ignoring && s.current_rule.is_none() && s.current_define.is_none() }
pub open spec fn without_bom(f: Seq<Cell>) -> Seq<Cell> { if starts_with(f, '\u{feff}') { f.subrange(w('\u{feff}'), f.len() as int) } else { f } }
/// the text f, read line by line, with the rule that is open at its end closed
pub open spec fn runs(f: Seq<Cell>, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine) -> bool {
    exists|tr: Seq<St>, a: St, b: St, s: ParserState| #[trigger] goes(tr, a, b) && a.f == without_bom(f) && fresh(a.s) && a.n == n0 && a.e == e0 && b.f.len() == 0
        && #[trigger] closes(b.s, b.n, b.e, s, n1, e1)
}
proof fn lemma_goes(tr: Seq<St>, a: St, b: St, c: St)
    requires goes(tr, a, b), reads_line(b.f, b.s, b.n, b.e, c.s, c.n, c.e, c.f),
    ensures goes(tr.push(c), a, c),
{
    let t = tr.push(c);
    assert forall|i: int| #![trigger t[i]] 0 < i < t.len() implies reads_line(t[i - 1].f, t[i - 1].s, t[i - 1].n, t[i - 1].e, t[i].s, t[i].n, t[i].e, t[i].f) by {
        if i < tr.len() { assert(t[i] == tr[i]); } else { assert(t[i - 1] == tr.last()); }
    }
}
/// `reads` is defined to be `runs`; only this direction is used
#[verifier::external_body]
proof fn axiom_runs(n0: NameCache, e0: Engine, b: Block, n1: NameCache, e1: Engine)
    requires runs(block_flat(b), n0, e0, n1, e1),
    ensures reads(n0, e0, b, n1, e1),
{ unimplemented!() }
proof fn lemma_reads(n0: NameCache, e0: Engine, b: Block, n1: NameCache, e1: Engine, tr: Seq<St>, z: St, s: ParserState)
    requires tr.len() > 0, goes(tr, tr[0], z), tr[0].f == without_bom(block_flat(b)), fresh(tr[0].s), tr[0].n == n0, tr[0].e == e0, z.f.len() == 0, closes(z.s, z.n, z.e, s, n1, e1),
    ensures reads(n0, e0, b, n1, e1),
{
    axiom_runs(n0, e0, b, n1, e1);
}
