//@props C17
// ---------------------------------------------------------------- interned names
/// string_interner::DefaultStringInterner: the texts in the order they were interned; a symbol is an index
#[verifier::external_body]
pub struct DefaultStringInterner { x: Vec<Text> }
impl DefaultStringInterner {
    pub uninterp spec fn view(&self) -> Seq<Seq<CB>>;

    #[verifier::external_body]
    pub fn get_or_intern(&mut self, t: Text) -> (r: Sym)
        requires distinct(old(self)@),
        ensures
            0 <= r.n < final(self)@.len(), final(self)@[r.n as int] == t@,
            final(self)@ == if old(self)@.contains(t@) { old(self)@ } else { old(self)@.push(t@) },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get(&self, t: &Txt) -> (r: Option<Sym>)
        ensures match r { Some(s) => 0 <= s.n < self@.len() && self@[s.n as int] == t@, None => !self@.contains(t@) },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn resolve<'a>(&'a self, s: Sym) -> (r: Option<&'a Txt>)
        ensures match r { Some(t) => 0 <= s.n < self@.len() && self@[s.n as int] == t@, None => !(0 <= s.n < self@.len()) },
    { unimplemented!() }
}
/// no text occurs twice
pub open spec fn distinct(s: Seq<Seq<CB>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
//@type ::NameCache
//@end
pub open spec fn wf_names(n: NameCache) -> bool { distinct(n.file_names@) && distinct(n.variable_names@) }
/// every identifier given out stays valid
pub open spec fn extends(a: NameCache, b: NameCache) -> bool {
    a.file_names@.is_prefix_of(b.file_names@) && a.variable_names@.is_prefix_of(b.variable_names@) && wf_names(b)
}
/// f stands for the text t
pub open spec fn is_file(n: NameCache, f: FileName, t: Seq<CB>) -> bool { 0 <= f.0.n < n.file_names@.len() && n.file_names@[f.0.n as int] == t }
pub open spec fn is_var(n: NameCache, v: VariableName, t: Seq<CB>) -> bool { 0 <= v.0.n < n.variable_names@.len() && n.variable_names@[v.0.n as int] == t }

/// C17: identifiers and texts are one to one, now and in every later state
pub proof fn lemma_one_to_one(a: NameCache, b: NameCache, f: FileName, g: FileName, t: Seq<CB>, u: Seq<CB>)
    requires wf_names(a), extends(a, b), is_file(a, f, t), is_file(b, g, u),
    ensures (f == g) == (t == u), is_file(b, f, t),
{ }
pub proof fn lemma_one_to_one_vars(a: NameCache, b: NameCache, f: VariableName, g: VariableName, t: Seq<CB>, u: Seq<CB>)
    requires wf_names(a), extends(a, b), is_var(a, f, t), is_var(b, g, u),
    ensures (f == g) == (t == u), is_var(b, f, t),
{ }
pub proof fn lemma_extends(a: NameCache, b: NameCache, c: NameCache)
    requires extends(a, b), extends(b, c),
    ensures extends(a, c),
{ }
//@fn ::NameCache::intern_file_name
//@spec
    requires wf_names(*old(self)),
    ensures
        extends(*old(self), *final(self)), is_file(*final(self), r, file_name@),
        final(self).variable_names == old(self).variable_names,
        final(self).file_names@ == if old(self).file_names@.contains(file_name@) { old(self).file_names@ } else { old(self).file_names@.push(file_name@) },
//@end
//@fn ::NameCache::file_name
//@spec
    requires wf_names(*self),
    ensures match r { Some(f) => is_file(*self, f, file_name@), None => !self.file_names@.contains(file_name@) },
//@end
//@fn ::NameCache::resolve_file_name
//@sig fn resolve_file_name<'a>(&'a self, f: FileName) -> (r: Option<&'a Txt>)
//@spec
    requires wf_names(*self),
    ensures match r { Some(t) => is_file(*self, f, t@), None => forall|t: Seq<CB>| !is_file(*self, f, t) },
//@end
//@fn ::NameCache::intern_variable_name
//@spec
    requires wf_names(*old(self)),
    ensures
        extends(*old(self), *final(self)), is_var(*final(self), r, variable_name@),
        final(self).file_names == old(self).file_names,
        final(self).variable_names@ == if old(self).variable_names@.contains(variable_name@) { old(self).variable_names@ } else { old(self).variable_names@.push(variable_name@) },
//@end
//@fn ::NameCache::variable_name
//@spec
    requires wf_names(*self),
    ensures match r { Some(v) => is_var(*self, v, variable_name@), None => !self.variable_names@.contains(variable_name@) },
//@end
