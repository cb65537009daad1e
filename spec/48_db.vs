//@props C08 C09
// ---------------------------------------------------------------- persistent maps (im)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct ImMap<K, V> { x: Vec<(K, V)> }
impl<K, V> ImMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;

    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>)
        ensures r.is_some() <==> self@.dom().contains(*k), r.is_some() ==> *r->Some_0 == self@[*k],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == self@.dom().contains(*k),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
    { unimplemented!() }

    /// the persistent variant: self keeps its value
    #[verifier::external_body]
    pub fn update(&self, k: K, v: V) -> (r: Self)
        ensures r@ == self@.insert(k, v),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures
            r.is_some() <==> old(self)@.dom().contains(*k),
            r.is_none() ==> final(self)@ == old(self)@,
            r.is_some() ==> *r->Some_0 == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->Some_0)),
    { unimplemented!() }
}
impl<K, K2, V> ImMap<K, ImMap<K2, V>> {
    /// entry(k).or_default(), on a map of maps
    #[verifier::external_body]
    pub fn entry_or_default(&mut self, k: K) -> (r: &mut ImMap<K2, V>)
        ensures
            old(self)@.dom().contains(k) ==> *r == old(self)@[k],
            !old(self)@.dom().contains(k) ==> r@ == Map::<K2, V>::empty(),
            final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
}
impl<K, V> Clone for ImMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
impl<T> ImSet<T> {
    /// fxhash::FxHashSet behaves like the persistent set
    #[verifier::external_body]
    pub fn insert(&mut self, t: T) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(t),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vec_retain<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F)
    requires forall|x: &T| f.requires((x,)),
    ensures
        forall|p: spec_fn(T) -> bool| (forall|x: &T, b: bool| #[trigger] f.ensures((x,), b) ==> b == p(*x)) ==> final(v)@ == #[trigger] old(v)@.filter(p),
{ v.retain(|x| f(x)) }
#[verifier::external_body]
pub fn vec_swap_remove<T>(v: &mut Vec<T>, i: usize) -> (r: T)
    requires i < old(v)@.len(),
    ensures r == old(v)@[i as int],
{ v.swap_remove(i) }
#[verifier::external_body]
pub fn mem_replace<T>(o: &mut T, t: T) -> (r: T)
    ensures r == *old(o), *final(o) == t,
{ std::mem::replace(o, t) }
/// Vec::into_iter
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecIntoIter<T> { it: std::vec::IntoIter<T> }
impl<T> VecIntoIter<T> {
    pub uninterp spec fn rem(self) -> Seq<T>;

    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r {
            None => old(self).rem().len() == 0 && final(self).rem() == old(self).rem(),
            Some(c) => old(self).rem().len() > 0 && c == old(self).rem()[0] && final(self).rem() == old(self).rem().drop_first(),
        },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vec_into_iter<T>(v: Vec<T>) -> (r: VecIntoIter<T>)
    ensures r.rem() == v@,
{ unimplemented!() }
// ---------------------------------------------------------------- syntax trees
impl Clone for AstNode {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn children_non_empty(n: &AstNode) -> (r: bool)
    ensures r == non_empty(*n),
{ unimplemented!() }
//@fn ast::empty
//@props C08 C09 C14
//@sub `Location::Synthetic.into()` => `Marker::marker_from(Location::Synthetic)`
//@spec
    ensures *r.children == AstChildren::Empty, r.source_location.inner == Location::Synthetic,
//@end
//@fn ast::constant
//@props C08 C09 C14
//@sub `Marker::from(` => `Marker::marker_from(`
//@spec
    ensures *r.children == AstChildren::Constant(v), r.source_location.inner == v.location.inner,
//@end
//@fn ast::preevaluated
//@props C08 C09 C14
//@sub `source_location.into()` => `Marker::marker_from(source_location)`
//@spec
    ensures *r.children == AstChildren::PreEvaluated(v), r.source_location.inner == source_location,
//@end
//@fn ast::collapsing_concat
//@props C08 C09 C14
//@sub `v.retain(__vx_pred!(node, node.children.as_ref() != &AstChildren::Empty))` => `vec_retain(&mut v, |node: &AstNode| -> (__b: bool) ensures __b == non_empty(*node) { children_non_empty(node) })`
//@sub `v.swap_remove(0)` => `vec_swap_remove(&mut v, 0)`
//@sub `source_location.into()` => `Marker::marker_from(source_location)`
//@spec
    ensures is_join(r, source_location, v@),
//@at start
    let ghost p = |n: AstNode| non_empty(n);
//@end
//@fn ast::AstNode::location
//@props C08 C09 C14
//@spec
    ensures r == self.source_location.inner,
//@end
//@fn ast::AstNode::children
//@props C08 C09 C14 C16
//@spec
    ensures *r == *self.children,
//@end
// ---------------------------------------------------------------- variables
//@type eval::Flavor
//@attr #[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@end
//@type eval::Origin
//@attr #[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@end
//@type eval::VariableParameters
//@end
//@fn eval::VariableParameters::new
//@spec
    ensures r.unexpanded_value == unexpanded_value, r.flavor == flavor, r.origin == origin,
//@end
impl Clone for VariableParameters {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
// ---------------------------------------------------------------- rules
//@type ::Command
//@end
//@type ::RuleType
//@attr #[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@end
//@type ::Recipe
//@end
//@type ::Rule
//@end
//@type parsers::ProtoRule
//@end
//@type ::Database
//@end
impl Clone for Database {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
//@type eval::Variable
//@end
//@fn eval::Variable::new
//@spec
    ensures *r.value == *value, r.target.is_none(),
//@end
//@fn eval::Variable::ast
//@spec
    ensures *r == self.value.unexpanded_value,
//@end
//@fn eval::Variable::new_for_target
//@spec
    ensures *r.value == *value, r.target == Some(fname),
//@end
// ---------------------------------------------------------------- what a user sees of a rule
//@fn ::Recipe::commands
//@spec
    ensures r@ == self.0@,
//@end
//@fn ::Rule::target
//@spec
    ensures *r == self.target,
//@end
//@fn ::Rule::target_fname
//@spec
    ensures r == self.target_fname,
//@end
//@fn ::Rule::recipe
//@spec
    ensures *r == self.recipe,
//@end
//@fn ::Rule::dependencies
//@spec
    ensures r@ == self.deps@,
//@end
/// n is a single blank that stands in no source
pub open spec fn is_space_node(n: AstNode) -> bool {
    *n.children matches AstChildren::Constant(l) && l.contents@ == lit_bytes(seq![' ']) && l.location.inner == Location::Synthetic
}
/// C08: what appending makes of the old parameters of a variable; it stays of the flavor it was
pub open spec fn appended(old: VariableParameters, loc: Location, new: VariableParameters, space: bool, r: VariableParameters) -> bool {
    &&& r.flavor == old.flavor && r.origin == old.origin
    &&& if space { exists|s: Seq<AstNode>| #[trigger] is_join(r.unexpanded_value, loc, s) && s.len() == 3 && s[0] == old.unexpanded_value && is_space_node(s[1]) && s[2] == new.unexpanded_value }
        else { exists|s: Seq<AstNode>| #[trigger] is_join(r.unexpanded_value, loc, s) && s.len() == 2 && s[0] == old.unexpanded_value && s[1] == new.unexpanded_value }
}
pub open spec fn is_append(db: Database, name: VariableName, loc: Location, new: VariableParameters, space: bool, r: Database) -> bool {
    &&& r.rules@ == db.rules@ && r.target_variables@ == db.target_variables@
    &&& if db.variables@.dom().contains(name) { r.variables@.dom().contains(name) && r.variables@ == db.variables@.insert(name, r.variables@[name]) && appended(db.variables@[name], loc, new, space, r.variables@[name]) }
        else { r.variables@ == db.variables@.insert(name, new) }
}
//@fn ::Database::set_variable
//@spec
    ensures r.variables@ == self.variables@.insert(name, value), r.rules@ == self.rules@, r.target_variables@ == self.target_variables@,
//@end
//@fn ::Database::append_to_variable
//@sub `Location::Synthetic.into()` => `Marker::marker_from(Location::Synthetic)`
//@sub `lit(" ").into()` => `txt_to_owned(lit(" "))`
//@spec
    ensures is_append(*self, name, location, content, implicit_space, r),
//@at start
    proof { reveal_strlit(" "); assert(" "@ =~= seq![' ']); }
//@end
//@fn ::Database::get_variable
//@sig fn get_variable<'a>(&'a self, name: VariableName) -> (r: Option<Variable<'a>>)
//@spec
    ensures r.is_some() <==> self.variables@.dom().contains(name), r.is_some() ==> *r->Some_0.value == self.variables@[name] && r->Some_0.target.is_none(),
//@end
/// the variables that are set for the target t alone
pub open spec fn vars_for(db: Database, t: FileName) -> Map<VariableName, VariableParameters> {
    if db.target_variables@.dom().contains(t) { db.target_variables@[t]@ } else { Map::empty() }
}
//@fn ::Database::set_variable_for_target
//@sub `let target = target.into();` => ``
//@sub `tr.target_variables.entry(target).or_default().insert(name, value);` => `tr.target_variables.entry_or_default(target).insert(name, value);`
//@spec
    ensures
        r.variables@ == self.variables@, r.rules@ == self.rules@,
        vars_for(r, target) == vars_for(*self, target).insert(name, value),
        forall|t: FileName| t != target ==> #[trigger] vars_for(r, t) == vars_for(*self, t),
//@end
//@fn ::Database::get_variable_for_target
//@sig fn get_variable_for_target<'a>(&'a self, target: FileName, name: VariableName) -> (r: Option<Variable<'a>>)
//@spec
    ensures r.is_some() <==> vars_for(*self, target).dom().contains(name), r.is_some() ==> *r->Some_0.value == vars_for(*self, target)[name] && r->Some_0.target.is_none(),
//@end
/// the values of a map, each key's once
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct ValuesIter<'a, K, V> { m: &'a ImMap<K, V> }
impl<'a, K, V> ValuesIter<'a, K, V> { pub uninterp spec fn rem(&self) -> Map<K, V>; }
impl<K, V> ImMap<K, V> {
    #[verifier::external_body]
    pub fn values<'a>(&'a self) -> (r: ValuesIter<'a, K, V>)
        ensures r.rem() == self@,
    { unimplemented!() }
}
//@fn ::Database::rules
//@sig fn rules<'a>(&'a self) -> (r: ValuesIter<'a, FileName, Rule>)
//@spec
    ensures r.rem() == self.rules@,
//@end
//@fn ::Database::get_rule
//@sig fn get_rule<'a>(&'a self, target: FileName) -> (r: Option<&'a Rule>)
//@spec
    ensures r.is_some() <==> self.rules@.dom().contains(target), r.is_some() ==> *r->Some_0 == self.rules@[target],
//@end
//@fn ::Database::add_rule
//@spec
    ensures r.rules@ == self.rules@.insert(rule.target_fname, rule), r.variables@ == self.variables@, r.target_variables@ == self.target_variables@,
//@end
// ---------------------------------------------------------------- C09: what a rule does to the rules known
pub open spec fn all_wf_blocks(s: Seq<Arc<Block>>) -> bool { forall|j: int| 0 <= j < s.len() ==> wf_block(*#[trigger] s[j]) }
/// ids are the identifiers of the names bs
pub open spec fn ids_of(n: NameCache, bs: Seq<Arc<Block>>, ids: Seq<FileName>) -> bool {
    ids.len() == bs.len() && forall|j: int| 0 <= j < bs.len() ==> is_file(n, #[trigger] ids[j], txt(block_flat(*bs[j])))
}
pub open spec fn same_recipe(a: Recipe, b: Recipe) -> bool { a.0@ == b.0@ }
/// m2 is m1 with what the rule p says about its target t, which has the identifier id
pub open spec fn rule_step(m1: Map<FileName, Rule>, p: ProtoRule, t: Arc<Block>, id: FileName, dep_ids: Set<FileName>, m2: Map<FileName, Rule>) -> bool {
    &&& m2.dom().contains(id)
    &&& m2 == m1.insert(id, m2[id])
    &&& if p.recipe.0.len() == 0 && m1.dom().contains(id) {
            let (o, n) = (m1[id], m2[id]);
            n.deps@ == o.deps@ + p.deps@ && n.dep_names@ == o.dep_names@.union(dep_ids) && n.recipe == o.recipe && n.target == o.target && n.target_fname == o.target_fname && n.rule_type == o.rule_type
        } else {
            let n = m2[id];
            n.deps@ == p.deps@ && n.dep_names@ == dep_ids && same_recipe(*n.recipe, p.recipe) && n.target == t && n.target_fname == id && n.rule_type == p.rule_type
        }
}
/// what is known after the first k targets of the rule
pub open spec fn rule_steps(ms: Seq<Map<FileName, Rule>>, p: ProtoRule, ids: Seq<FileName>, dep_ids: Set<FileName>, k: int) -> bool {
    ms.len() == k + 1 && forall|j: int| 0 <= j < k ==> rule_step(#[trigger] ms[j], p, p.targets@[j], ids[j], dep_ids, ms[j + 1])
}
/// C09: m2 is what is known after the rule p was added to m1
pub open spec fn adds_rule(m1: Map<FileName, Rule>, p: ProtoRule, names: NameCache, m2: Map<FileName, Rule>) -> bool {
    exists|ms: Seq<Map<FileName, Rule>>, ids: Seq<FileName>, dep_ids: Seq<FileName>| #![trigger rule_steps(ms, p, ids, dep_ids.to_set(), p.targets.len() as int)]
        rule_steps(ms, p, ids, dep_ids.to_set(), p.targets.len() as int) && ms[0] == m1 && ms.last() == m2
        && ids_of(names, p.targets@, ids) && ids_of(names, p.deps@, dep_ids)
}
/// rules of targets that the rule does not name stay as they are
pub proof fn lemma_other_rules(m1: Map<FileName, Rule>, p: ProtoRule, names: NameCache, m2: Map<FileName, Rule>, f: FileName)
    requires
        adds_rule(m1, p, names, m2), wf_names(names),
        forall|j: int| 0 <= j < p.targets.len() ==> !is_file(names, f, txt(block_flat(*#[trigger] p.targets@[j]))),
    ensures m2.dom().contains(f) == m1.dom().contains(f), m1.dom().contains(f) ==> m2[f] == m1[f],
{
    let (ms, ids, dep_ids) = choose|ms: Seq<Map<FileName, Rule>>, ids: Seq<FileName>, dep_ids: Seq<FileName>| #![trigger rule_steps(ms, p, ids, dep_ids.to_set(), p.targets.len() as int)]
        rule_steps(ms, p, ids, dep_ids.to_set(), p.targets.len() as int) && ms[0] == m1 && ms.last() == m2
        && ids_of(names, p.targets@, ids) && ids_of(names, p.deps@, dep_ids);
    lemma_other_steps(ms, p, ids, dep_ids.to_set(), names, f, p.targets.len() as int);
}
pub proof fn lemma_other_steps(ms: Seq<Map<FileName, Rule>>, p: ProtoRule, ids: Seq<FileName>, dep_ids: Set<FileName>, names: NameCache, f: FileName, k: int)
    requires
        0 <= k <= p.targets.len(), rule_steps(ms, p, ids, dep_ids, p.targets.len() as int), ids_of(names, p.targets@, ids), wf_names(names),
        forall|j: int| 0 <= j < p.targets.len() ==> !is_file(names, f, txt(block_flat(*#[trigger] p.targets@[j]))),
    ensures ms[k].dom().contains(f) == ms[0].dom().contains(f), ms[0].dom().contains(f) ==> ms[k][f] == ms[0][f],
    decreases k
{
    if k > 0 {
        lemma_other_steps(ms, p, ids, dep_ids, names, f, k - 1);
        assert(rule_step(ms[k - 1], p, p.targets@[k - 1], ids[k - 1], dep_ids, ms[k - 1 + 1]));
        assert(is_file(names, ids[k - 1], txt(block_flat(*p.targets@[k - 1]))));
    }
}
pub proof fn lemma_ids_extend(a: NameCache, b: NameCache, bs: Seq<Arc<Block>>, ids: Seq<FileName>)
    requires ids_of(a, bs, ids), extends(a, b),
    ensures ids_of(b, bs, ids),
{ }
//@fn ::Database::from_protorule
//@sub `deps.iter()` => `deps.viter()`
//@sub `let mut __out2 = Vec :: new();` => `let mut __out2: ImSet<FileName> = ImSet :: new();`
//@sub `__out2.push(` => `__out2.insert(`
//@sub `vec_into_iter(deps)` => `deps.viter()`
//@sub `vec_into_iter(deps_as_fnames)` => `deps_as_fnames.viter()`
//@sub `rule.targets.into_iter()` => `vec_into_iter(rule.targets)`
//@spec
    requires wf_names(*old(names)), all_wf_blocks(rule.targets@), all_wf_blocks(rule.deps@),
    ensures
        extends(*old(names), *final(names)), final(names).variable_names == old(names).variable_names,
        r.variables@ == self.variables@, r.target_variables@ == self.target_variables@,
        adds_rule(self.rules@, rule, *final(names), r.rules@),
//@at start
    let ghost pr = rule;
    let ghost n0 = *names;
    let ghost mut dids: Seq<FileName> = Seq::empty();
    let ghost mut tids: Seq<FileName> = Seq::empty();
    let ghost mut ms: Seq<Map<FileName, Rule>> = seq![self.rules@];
    let ghost td = pr.targets@;
//@at before `let deps_as_fnames : ImSet < FileName > =`
    proof { assert(td.subrange(0, 0) =~= Seq::empty()); assert(Seq::<FileName>::empty().to_set() =~= Set::empty()); }
//@loop 0
        invariant
            wf_names(*names), extends(n0, *names), names.variable_names == n0.variable_names, all_wf_blocks(pr.deps@),
            dids.len() + __it1.rem().len() == pr.deps.len(), __it1.rem() == pr.deps@.subrange(dids.len() as int, pr.deps.len() as int),
            ids_of(*names, pr.deps@.subrange(0, dids.len() as int), dids), __out2@ == dids.to_set(),
        ensures __it1.rem().len() == 0,
//@at loopstart 0
            let ghost n1 = *names;
            proof { assert(*dep == pr.deps@[dids.len() as int]); }
//@at loopend 0
            proof {
                lemma_ids_extend(n1, *names, pr.deps@.subrange(0, dids.len() as int), dids);
                let id = choose|id: FileName| is_file(*names, id, txt(block_flat(**dep))) && __out2@ == dids.to_set().insert(id);
                assert(pr.deps@.subrange(0, dids.len() as int + 1) =~= pr.deps@.subrange(0, dids.len() as int).push(*dep));
                assert(dids.push(id).to_set() =~= dids.to_set().insert(id)) by { lemma_push_set(dids, id); }
                dids = dids.push(id);
            }
//@at after `let deps_as_fnames = &deps_as_fnames;`
    proof {
        assert(pr.deps@.subrange(0, pr.deps.len() as int) =~= pr.deps@);
        assert(td.subrange(0, td.len() as int) =~= td);
        assert(ids_of(*names, pr.deps@, dids));
        assert(tids =~= Seq::empty());
    }
//@loop 1
            invariant
                wf_names(*names), extends(n0, *names), names.variable_names == n0.variable_names, all_wf_blocks(td), td == pr.targets@,
                ids_of(*names, pr.deps@, dids), deps_as_fnames@ == dids.to_set(), *deps == pr.deps, *recipe == pr.recipe, rule_type == pr.rule_type,
                ids_of(*names, td.subrange(0, tids.len() as int), tids), rule_steps(ms, pr, tids, dids.to_set(), tids.len() as int),
                ms[0] == self.rules@, ms.last() == tr.rules@, tr.variables == self.variables, tr.target_variables == self.target_variables,
                rem_is(__it3.rem(), td, tids.len() as int), pr.recipe.0.len() == 0,
            ensures __it3.rem().len() == 0,
//@at loopstart 1
                let ghost n1 = *names;
                let ghost k = tids.len() as int;
                let ghost m1 = tr.rules@;
                let ghost tg = target;
                proof { assert(target == td[k]); }
//@at loopend 1
                proof {
                    lemma_ids_extend(n1, *names, td.subrange(0, k), tids);
                    lemma_ids_extend(n1, *names, pr.deps@, dids);
                    assert(td.subrange(k, td.len() as int).drop_first() =~= td.subrange(k + 1, td.len() as int));
                    assert(td.subrange(0, k + 1) =~= td.subrange(0, k).push(tg));
                    lemma_steps_push(ms, pr, tids, dids.to_set(), k, target_as_fname, tr.rules@);
                    ms = ms.push(tr.rules@);
                    tids = tids.push(target_as_fname);
                }
//@loop 2
                                invariant
                                    existing_rule.deps@ + __it5.rem() == o.deps@ + pr.deps@,
                                    existing_rule.dep_names == o.dep_names, existing_rule.recipe == o.recipe, existing_rule.target == o.target, existing_rule.target_fname == o.target_fname, existing_rule.rule_type == o.rule_type,
                                ensures __it5.rem().len() == 0,
//@at loopstart 2
                                    let ghost r1 = existing_rule.deps@;
//@at loopend 2
                                    proof { assert(r1.push(*dep) + __it5.rem() =~= r1 + (seq![*dep] + __it5.rem())); }
//@at after `let existing_rule = tr.rules.get_mut(&__k4).unwrap();`
                            let ghost o = *existing_rule;
//@at before `let mut __it6 =`
                            proof { assert(existing_rule.deps@ + Seq::<Arc<Block>>::empty() =~= existing_rule.deps@); }
//@at loopstart 3
                                    let ghost q1 = existing_rule.dep_names@;
//@at loopend 3
                                    proof { assert(existing_rule.dep_names@.union(__it6.rem()) =~= o.dep_names@.union(dids.to_set())); }
//@loop 3
                                invariant
                                    existing_rule.deps@ == o.deps@ + pr.deps@, existing_rule.dep_names@.union(__it6.rem()) == o.dep_names@.union(dids.to_set()),
                                    existing_rule.recipe == o.recipe, existing_rule.target == o.target, existing_rule.target_fname == o.target_fname, existing_rule.rule_type == o.rule_type,
                                ensures existing_rule.dep_names@ == o.dep_names@.union(dids.to_set()),
//@loop 4
                                    invariant __out8@ + __it7.rem() == pr.deps@,
                                    ensures __out8@ == pr.deps@,
//@loop 5
            invariant
                wf_names(*names), extends(n0, *names), names.variable_names == n0.variable_names, all_wf_blocks(td), td == pr.targets@,
                ids_of(*names, pr.deps@, dids), deps_as_fnames@ == dids.to_set(), *deps == pr.deps, *recipe == pr.recipe, rule_type == pr.rule_type,
                ids_of(*names, td.subrange(0, tids.len() as int), tids), rule_steps(ms, pr, tids, dids.to_set(), tids.len() as int),
                ms[0] == self.rules@, ms.last() == tr.rules@, tr.variables == self.variables, tr.target_variables == self.target_variables,
                rem_is(__it9.rem(), td, tids.len() as int), pr.recipe.0.len() != 0,
                rule.deps == pr.deps, rule.rule_type == pr.rule_type,
            ensures __it9.rem().len() == 0,
//@at loopstart 5
                let ghost n1 = *names;
                let ghost k = tids.len() as int;
                let ghost tg = target;
                proof { assert(target == td[k]); }
//@at loopend 5
                proof {
                    lemma_ids_extend(n1, *names, td.subrange(0, k), tids);
                    lemma_ids_extend(n1, *names, pr.deps@, dids);
                    assert(td.subrange(k, td.len() as int).drop_first() =~= td.subrange(k + 1, td.len() as int));
                    assert(td.subrange(0, k + 1) =~= td.subrange(0, k).push(tg));
                    lemma_steps_push(ms, pr, tids, dids.to_set(), k, target_as_fname, tr.rules@);
                    ms = ms.push(tr.rules@);
                    tids = tids.push(target_as_fname);
                }
//@loop 6
                                    invariant __out11@ + __it10.rem() == pr.deps@,
                                    ensures __out11@ == pr.deps@,
//@at before `tr }` -1
    proof {
        assert(tids.len() == td.len());
        assert(td.subrange(0, td.len() as int) =~= td);
        assert(rule_steps(ms, pr, tids, dids.to_set(), pr.targets.len() as int));
    }
//@end
pub open spec fn rem_is(r: Seq<Arc<Block>>, td: Seq<Arc<Block>>, k: int) -> bool { 0 <= k <= td.len() && r == td.subrange(k, td.len() as int) }
pub proof fn lemma_steps_push(ms: Seq<Map<FileName, Rule>>, p: ProtoRule, ids: Seq<FileName>, dep_ids: Set<FileName>, k: int, id: FileName, m2: Map<FileName, Rule>)
    requires k >= 0, ids.len() == k, rule_steps(ms, p, ids, dep_ids, k), rule_step(ms.last(), p, p.targets@[k], id, dep_ids, m2),
    ensures rule_steps(ms.push(m2), p, ids.push(id), dep_ids, k + 1),
{
    assert forall|j: int| 0 <= j < k + 1 implies rule_step(#[trigger] ms.push(m2)[j], p, p.targets@[j], ids.push(id)[j], dep_ids, ms.push(m2)[j + 1]) by {
        if j < k { assert(rule_step(ms[j], p, p.targets@[j], ids[j], dep_ids, ms[j + 1])); }
    }
}
pub proof fn lemma_push_set<T>(s: Seq<T>, x: T)
    ensures s.push(x).to_set() == s.to_set().insert(x),
{
    assert forall|y: T| s.push(x).to_set().contains(y) == s.to_set().insert(x).contains(y) by {
        if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
        assert(s.push(x)[s.len() as int] == x);
        if s.push(x).contains(y) { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == y; if i < s.len() { assert(s[i] == y); } }
    }
    assert(s.push(x).to_set() =~= s.to_set().insert(x));
}
