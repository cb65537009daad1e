//@props C18
// ================================================================ C18: directives
/// f is the directive k with the argument x
pub open spec fn dir_arg(f: Seq<Cell>, k: Seq<char>, x: AstNode) -> bool { whole_word(txt(f), k) && parses_to(tl(f, k.len() as int), x) }
/// how directive lines read
pub open spec fn dir_reads(f: Seq<Cell>, a: DirectivesAction) -> bool {
    match a {
        DirectivesAction::Export(x) => dir_arg(f, "export"@, x),
        DirectivesAction::Unexport(x) => dir_arg(f, "unexport"@, x),
        DirectivesAction::VPath(x) => dir_arg(f, "vpath"@, x),
        DirectivesAction::Include(x) => dir_arg(f, "include"@, x),
        DirectivesAction::SoftInclude(x) => dir_arg(f, "sinclude"@, x) || dir_arg(f, "-include"@, x),
        DirectivesAction::Load(x) => dir_arg(f, "load"@, x),
        DirectivesAction::SoftLoad(x) => dir_arg(f, "-load"@, x),
    }
}
pub open spec fn wf_dir(a: DirectivesAction) -> bool {
    match a {
        DirectivesAction::Export(x) => wf_ast(x), DirectivesAction::Unexport(x) => wf_ast(x), DirectivesAction::VPath(x) => wf_ast(x), DirectivesAction::Include(x) => wf_ast(x),
        DirectivesAction::SoftInclude(x) => wf_ast(x), DirectivesAction::Load(x) => wf_ast(x), DirectivesAction::SoftLoad(x) => wf_ast(x),
    }
}
proof fn lemma_dir_words()
    ensures keyword("export"@) && keyword("unexport"@) && keyword("vpath"@) && keyword("include"@) && keyword("sinclude"@) && keyword("-include"@) && keyword("load"@) && keyword("-load"@),
        "export"@.len() == 6, "unexport"@.len() == 8, "vpath"@.len() == 5, "include"@.len() == 7, "sinclude"@.len() == 8, "-include"@.len() == 8, "load"@.len() == 4, "-load"@.len() == 5,
{
    reveal_strlit("export"); assert("export"@ =~= seq!['e','x','p','o','r','t']);
    reveal_strlit("unexport"); assert("unexport"@ =~= seq!['u','n','e','x','p','o','r','t']);
    reveal_strlit("vpath"); assert("vpath"@ =~= seq!['v','p','a','t','h']);
    reveal_strlit("include"); assert("include"@ =~= seq!['i','n','c','l','u','d','e']);
    reveal_strlit("sinclude"); assert("sinclude"@ =~= seq!['s','i','n','c','l','u','d','e']);
    reveal_strlit("-include"); assert("-include"@ =~= seq!['-','i','n','c','l','u','d','e']);
    reveal_strlit("load"); assert("load"@ =~= seq!['l','o','a','d']);
    reveal_strlit("-load"); assert("-load"@ =~= seq!['-','l','o','a','d']);
}
proof fn lemma_dir_reads(f: Seq<Cell>)
    ensures forall|a: DirectivesAction| #[trigger] dir_reads(f, a) ==> is_dir(f),
{}
/// what follows a word
proof fn lemma_words_end(f: Seq<Cell>)
    ensures
        forall|k: Seq<char>| #![trigger kw_at(txt(f), k)] kw_at(txt(f), k) ==> k.len() <= f.len(),
        forall|n: int| 0 <= n <= f.len() ==> #[trigger] txt(tl(f, n)) == txt(f).subrange(n, f.len() as int),
        forall|n: int| 0 <= n <= f.len() ==> (#[trigger] tl(f, n)).len() == f.len() - n,
        forall|n: int| 0 <= n < f.len() ==> #[trigger] txt(tl(f, n))[0] == txt(f)[n],
{
    assert forall|n: int| 0 <= n <= f.len() implies #[trigger] txt(tl(f, n)) == txt(f).subrange(n, f.len() as int) by { assert(txt(tl(f, n)) =~= txt(f).subrange(n, f.len() as int)); }
}
/// no directive with the word k
pub open spec fn no_dir(f: Seq<Cell>, k: Seq<char>) -> bool { forall|x: AstNode| !#[trigger] dir_arg(f, k, x) }
//@fn parsers::directives::parse_line
//@sig fn directives_parse_line<'a>(i: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, DirectivesAction, ParseErrorKind>)
//@outline or_dash_load `Err(Err :: Error(e_h35)) => {` => `or_dash_load(i)`
//@outline or_load `Err(Err :: Error(e_h30)) => {` => `or_load(i)`
//@outline or_dash_include `Err(Err :: Error(e_h25)) => {` => `or_dash_include(i)`
//@outline or_sinclude `Err(Err :: Error(e_h20)) => {` => `or_sinclude(i)`
//@outline or_include `Err(Err :: Error(e_h15)) => {` => `or_include(i)`
//@outline or_vpath `Err(Err :: Error(e_h10)) => {` => `or_vpath(i)`
//@outline or_unexport `Err(Err :: Error(e_h5)) => {` => `or_unexport(i)`
//@spec
    requires wf_span(i),
    ensures
        r.is_ok() ==> dir_reads(span_flat(i), r->Ok_0.1) && is_dir(span_flat(i)) && wf_dir(r->Ok_0.1),
        r.is_err() && !(r->Err_0 is Failure) ==> !is_dir(span_flat(i)),
//@at start
    hide(kw_at); hide(wf_ast);
    proof { lemma_dir_words(); lemma_ascii_heads(); lemma_dir_reads(span_flat(i)); lemma_words_end(span_flat(i)); }
//@end
//@part parsers::directives::parse_line or_unexport
//@sig fn or_unexport<'a>(i: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, DirectivesAction, ParseErrorKind>)
//@spec
    requires wf_span(i),
    ensures
        r.is_ok() ==> dir_reads(span_flat(i), r->Ok_0.1) && wf_dir(r->Ok_0.1),
        r.is_err() && !(r->Err_0 is Failure) ==> no_dir(span_flat(i), "unexport"@) && no_dir(span_flat(i), "vpath"@) && no_dir(span_flat(i), "include"@) && no_dir(span_flat(i), "sinclude"@) && no_dir(span_flat(i), "-include"@) && no_dir(span_flat(i), "load"@) && no_dir(span_flat(i), "-load"@),
//@at start
    hide(kw_at); hide(wf_ast);
    proof { lemma_dir_words(); lemma_ascii_heads(); lemma_words_end(span_flat(i)); }
//@end
//@part parsers::directives::parse_line or_vpath
//@sig fn or_vpath<'a>(i: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, DirectivesAction, ParseErrorKind>)
//@spec
    requires wf_span(i),
    ensures
        r.is_ok() ==> dir_reads(span_flat(i), r->Ok_0.1) && wf_dir(r->Ok_0.1),
        r.is_err() && !(r->Err_0 is Failure) ==> no_dir(span_flat(i), "vpath"@) && no_dir(span_flat(i), "include"@) && no_dir(span_flat(i), "sinclude"@) && no_dir(span_flat(i), "-include"@) && no_dir(span_flat(i), "load"@) && no_dir(span_flat(i), "-load"@),
//@at start
    hide(kw_at); hide(wf_ast);
    proof { lemma_dir_words(); lemma_ascii_heads(); lemma_words_end(span_flat(i)); }
//@end
//@part parsers::directives::parse_line or_include
//@sig fn or_include<'a>(i: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, DirectivesAction, ParseErrorKind>)
//@spec
    requires wf_span(i),
    ensures
        r.is_ok() ==> dir_reads(span_flat(i), r->Ok_0.1) && wf_dir(r->Ok_0.1),
        r.is_err() && !(r->Err_0 is Failure) ==> no_dir(span_flat(i), "include"@) && no_dir(span_flat(i), "sinclude"@) && no_dir(span_flat(i), "-include"@) && no_dir(span_flat(i), "load"@) && no_dir(span_flat(i), "-load"@),
//@at start
    hide(kw_at); hide(wf_ast);
    proof { lemma_dir_words(); lemma_ascii_heads(); lemma_words_end(span_flat(i)); }
//@end
//@part parsers::directives::parse_line or_sinclude
//@sig fn or_sinclude<'a>(i: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, DirectivesAction, ParseErrorKind>)
//@spec
    requires wf_span(i),
    ensures
        r.is_ok() ==> dir_reads(span_flat(i), r->Ok_0.1) && wf_dir(r->Ok_0.1),
        r.is_err() && !(r->Err_0 is Failure) ==> no_dir(span_flat(i), "sinclude"@) && no_dir(span_flat(i), "-include"@) && no_dir(span_flat(i), "load"@) && no_dir(span_flat(i), "-load"@),
//@at start
    hide(kw_at); hide(wf_ast);
    proof { lemma_dir_words(); lemma_ascii_heads(); lemma_words_end(span_flat(i)); }
//@end
//@part parsers::directives::parse_line or_dash_include
//@sig fn or_dash_include<'a>(i: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, DirectivesAction, ParseErrorKind>)
//@spec
    requires wf_span(i),
    ensures
        r.is_ok() ==> dir_reads(span_flat(i), r->Ok_0.1) && wf_dir(r->Ok_0.1),
        r.is_err() && !(r->Err_0 is Failure) ==> no_dir(span_flat(i), "-include"@) && no_dir(span_flat(i), "load"@) && no_dir(span_flat(i), "-load"@),
//@at start
    hide(kw_at); hide(wf_ast);
    proof { lemma_dir_words(); lemma_ascii_heads(); lemma_words_end(span_flat(i)); }
//@end
//@part parsers::directives::parse_line or_load
//@sig fn or_load<'a>(i: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, DirectivesAction, ParseErrorKind>)
//@spec
    requires wf_span(i),
    ensures
        r.is_ok() ==> dir_reads(span_flat(i), r->Ok_0.1) && wf_dir(r->Ok_0.1),
        r.is_err() && !(r->Err_0 is Failure) ==> no_dir(span_flat(i), "load"@) && no_dir(span_flat(i), "-load"@),
//@at start
    hide(kw_at); hide(wf_ast);
    proof { lemma_dir_words(); lemma_ascii_heads(); lemma_words_end(span_flat(i)); }
//@end
//@part parsers::directives::parse_line or_dash_load
//@sig fn or_dash_load<'a>(i: BlockSpan<'a>) -> (r: IResult<BlockSpan<'a>, DirectivesAction, ParseErrorKind>)
//@spec
    requires wf_span(i),
    ensures
        r.is_ok() ==> dir_reads(span_flat(i), r->Ok_0.1) && wf_dir(r->Ok_0.1),
        r.is_err() && !(r->Err_0 is Failure) ==> no_dir(span_flat(i), "-load"@),
//@at start
    hide(kw_at); hide(wf_ast);
    proof { lemma_dir_words(); lemma_ascii_heads(); lemma_words_end(span_flat(i)); }
//@end
/// what can be read from the file at the path p: None if there is no file that can be opened, Some(None) if it is not text
pub uninterp spec fn file_text(p: PathBuf) -> Option<Option<Seq<CB>>>;
/// the path with the file name t behind it
pub uninterp spec fn path_join(p: PathBuf, t: Seq<CB>) -> PathBuf;
impl PathBuf {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PathBuf)
        ensures r == *self,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, t: &Text)
        ensures *final(self) == path_join(*old(self), t@),
    { unimplemented!() }
}
impl IoError {
    #[verifier::external_body]
    pub fn kind(&self) -> IoErrorKind
    { unimplemented!() }
}
#[verifier::external_body]
pub struct File { x: std::fs::File }
impl File {
    pub uninterp spec fn content(&self) -> Option<Seq<CB>>;
    #[verifier::external_body]
    pub fn open(p: &PathBuf) -> (r: Result<File, IoError>)
        ensures r.is_ok() == file_text(*p).is_some(), r.is_ok() ==> r->Ok_0.content() == file_text(*p)->Some_0,
    { unimplemented!() }
}
pub trait BufRead: Sized {
    /// what is left to read
    spec fn content(&self) -> Option<Seq<CB>>;
    fn read_to_string(&mut self, t: &mut Text) -> (r: Result<usize, IoError>)
        ensures r.is_ok() ==> (old(self).content() matches Some(c) && final(t)@ == old(t)@ + c && wf_text(c));
}
#[verifier::external_body]
pub struct BufReader { x: std::io::BufReader<std::fs::File> }
impl BufReader {
    pub uninterp spec fn rest(&self) -> Option<Seq<CB>>;
    #[verifier::external_body]
    pub fn new(f: File) -> (r: BufReader)
        ensures r.rest() == f.content(),
    { unimplemented!() }
}
impl BufRead for BufReader {
    open spec fn content(&self) -> Option<Seq<CB>> { self.rest() }
    #[verifier::external_body]
    fn read_to_string(&mut self, t: &mut Text) -> (r: Result<usize, IoError>) { unimplemented!() }
}
/// the text t of the file with the name `name` is read as makefile text, its positions counted from line 1, character 1
pub open spec fn reads_file(name: Seq<CB>, t: Seq<CB>, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine) -> bool {
    exists|n2: NameCache, b: Block, id: FileName| extends(n0, n2) && n2.variable_names == n0.variable_names && #[trigger] is_file(n2, id, name)
        && block_flat(b) == locate(t, Location::SourceLocation { filename: id, line: 1, character: 1 }) && #[trigger] reads(n2, e0, b, n1, e1)
}
/// C18: one file of an include directive
pub open spec fn includes(name: Seq<CB>, soft: bool, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine) -> bool {
    match file_text(path_join(e0.working_directory, name)) {
        None => soft && n1 == n0 && e1 == e0,
        Some(None) => false,
        Some(Some(t)) => reads_file(name, t, n0, e0, n1, e1),
    }
}
/// the first k files, one after the other
pub open spec fn includes_upto(v: Seq<Arc<Block>>, k: int, soft: bool, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine) -> bool
    decreases k
{
    if k <= 0 { n1 == n0 && e1 == e0 }
    else { exists|n2: NameCache, e2: Engine| includes_upto(v, k - 1, soft, n0, e0, n2, e2) && #[trigger] includes(txt(block_flat(*v[k - 1])), soft, n2, e2, n1, e1) }
}
proof fn lemma_includes(v: Seq<Arc<Block>>, k: int, soft: bool, n0: NameCache, e0: Engine, n2: NameCache, e2: Engine, n1: NameCache, e1: Engine)
    requires 0 <= k < v.len(), includes_upto(v, k, soft, n0, e0, n2, e2), includes(txt(block_flat(*v[k])), soft, n2, e2, n1, e1),
    ensures includes_upto(v, k + 1, soft, n0, e0, n1, e1),
{
    assert(includes_upto(v, (k + 1) - 1, soft, n0, e0, n2, e2));
}
/// C18: an include directive with the argument x
pub open spec fn include_line(x: AstNode, soft: bool, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine) -> bool {
    exists|n2: NameCache, e2: Engine, d: Set<VariableName>, t: Seq<Cell>, v: Seq<Arc<Block>>|
        #[trigger] evaluates(x, n0, e0, n2, e2, d, t) && #[trigger] lists(v, t, Seq::<CB>::empty()) && includes_upto(v, v.len() as int, soft, n2, e2, n1, e1)
}
/// C18: it fails at a file that is missing, unless the include is soft, or while it reads a file
pub open spec fn include_fails(x: AstNode, soft: bool, n0: NameCache, e0: Engine) -> bool {
    exists|n2: NameCache, e2: Engine, d: Set<VariableName>, t: Seq<Cell>, v: Seq<Arc<Block>>, k: int, n3: NameCache, e3: Engine|
        #[trigger] evaluates(x, n0, e0, n2, e2, d, t) && #[trigger] lists(v, t, Seq::<CB>::empty()) && 0 <= k < v.len() && #[trigger] includes_upto(v, k, soft, n2, e2, n3, e3)
        && (soft ==> file_text(path_join(e3.working_directory, txt(block_flat(*v[k])))).is_some())
}
/// what a directive does
pub open spec fn directs(a: DirectivesAction, n0: NameCache, e0: Engine, n1: NameCache, e1: Engine) -> bool {
    match a {
        DirectivesAction::Include(x) => include_line(x, false, n0, e0, n1, e1),
        DirectivesAction::SoftInclude(x) => include_line(x, true, n0, e0, n1, e1),
        _ => false,
    }
}
pub open spec fn directive_fails(a: DirectivesAction, n0: NameCache, e0: Engine) -> bool {
    match a {
        DirectivesAction::Include(x) => include_fails(x, false, n0, e0),
        DirectivesAction::SoftInclude(x) => include_fails(x, true, n0, e0),
        _ => false,
    }
}
/// C18: a directive closes the rule that is open
pub open spec fn dir_step(line: Seq<Cell>, s0: ParserState, n0: NameCache, e0: Engine, s1: ParserState, n1: NameCache, e1: Engine) -> bool {
    exists|a: DirectivesAction, n2: NameCache, e2: Engine| #[trigger] dir_reads(line, a) && #[trigger] closes(s0, n0, e0, s1, n2, e2) && directs(a, n2, e2, n1, e1)
}
//@fn parsers::directives::ParserState::handle_directive_action
//@unfinished `!(action is Include) && !(action is SoftInclude)`
//@spec
    requires wf_state(*old(self)), wf_ne(*old(names), *old(engine)), wf_dir(action),
    ensures
        *final(self) == *old(self), extends(*old(names), *final(names)), wf_db(final(engine).database), same_setup(*old(engine), *final(engine)),
        r.is_ok() ==> directs(action, *old(names), *old(engine), *final(names), *final(engine)),
        r.is_err() ==> directive_fails(action, *old(names), *old(engine)),
//@end
//@fn parsers::directives::ParserState::handle_include
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires wf_state(*old(self)), wf_ne(*old(names), *old(engine)), wf_ast(ast),
    ensures
        *final(self) == *old(self), extends(*old(names), *final(names)), wf_db(final(engine).database), same_setup(*old(engine), *final(engine)),
        r.is_ok() ==> include_line(ast, soft, *old(names), *old(engine), *final(names), *final(engine)),
        r.is_err() ==> include_fails(ast, soft, *old(names), *old(engine)),
//@at start
    hide(wf_db); hide(wf_names); hide(extends); hide(evaluates); hide(wf_ast); hide(lists); hide(same_setup);
    let ghost n0 = *names;
    let ghost e0 = *engine;
    proof { lemma_extends_all(); lemma_setup_all(); reveal_strlit(""); }
//@at after `let contents = ast.eval(names, engine);`
    let ghost n2 = *names;
    let ghost e2 = *engine;
    let ghost t = block_flat(ad(contents));
    let ghost d = contents.sensitivity@;
//@at after `let files = parse_file_seq(contents.span(), seq_parse_options);`
    let ghost ws = files@;
    proof { reveal(lists); assert(lists(ws, t, Seq::<CB>::empty())); assert(evaluates(ast, n0, e0, n2, e2, d, t)); }
//@loop 0
        invariant
            wf_state(*self), wf_names(*names), wf_db(engine.database), extends(n0, *names), same_setup(e0, *engine),
            __it1.rem().len() <= ws.len(), __it1.rem() == ws.subrange(ws.len() - __it1.rem().len(), ws.len() as int),
            includes_upto(ws, ws.len() - __it1.rem().len(), soft, n2, e2, *names, *engine),
        ensures __it1.rem().len() == 0,
//@at loopstart 0
            let ghost k = ws.len() - __it1.rem().len() - 1;
            let ghost n3 = *names;
            let ghost e3 = *engine;
            let ghost name = txt(block_flat(ad(file)));
            proof {
                assert(file == ws[k]);
                assert(__it1.rem() =~= ws.subrange(k + 1, ws.len() as int));
                assert(includes_upto(ws, k, soft, n2, e2, n3, e3));
                assert((soft ==> file_text(path_join(e3.working_directory, name)).is_some()) ==> include_fails(ast, soft, n0, e0));
            }
//@at before `continue`
                        proof { assert(includes(name, soft, n3, e3, n3, e3)); lemma_includes(ws, k, soft, n2, e2, n3, e3, n3, e3); }
//@at loopend 0
            proof { assert(includes(name, soft, n3, e3, *names, *engine)); lemma_includes(ws, k, soft, n2, e2, n3, e3, *names, *engine); }
//@end
//@fn ::From<io::Error> for MakefileError::from
//@sig fn makefile_error_from(other: IoError) -> (r: MakefileError)
//@spec
    ensures r == MakefileError::IOError(other),
//@end
//@fn ::Engine::read_makefile
//@sub `input.read_to_string(&mut i)?` => `match input.read_to_string(&mut i) { Ok(v) => v, Err(e) => return Err(MakefileError::makefile_error_from(e)) }`
//@sub `Default :: default()` => `ImSet::new()`
//@sub `input_filename.into()` => `txt_to_owned(input_filename)`
//@sub `__v1.push(ContentReference :: new_from_node(Arc :: new(EvaluatedNode :: Constant(LocatedString :: new(Location :: SourceLocation {` => `let __s = LocatedString::new(Marker::marker_from(Location::SourceLocation {`
//@sub `}.into(), i)))));` => `}), i); let __r = ContentReference::new_from_node(Arc::new(EvaluatedNode::Constant(__s))); __v1.push(__r);`
//@spec
    requires wf_ne(*old(names), *old(self)),
    ensures
        extends(*old(names), *final(names)), wf_db(final(self).database), same_setup(*old(self), *final(self)),
        r.is_ok() ==> (old(input).content() matches Some(t) && reads_file(input_filename@, t, *old(names), *old(self), *final(names), *final(self))),
//@at start
    hide(wf_db); hide(wf_names); hide(extends); hide(same_setup);
    let ghost n0 = *names;
    let ghost e0 = *self;
    proof { lemma_extends_all(); lemma_setup_all(); }
//@at before `let __r =`
        proof { assume(__s.contents@.len() <= cap()); assume(loc_room(__s.location.inner, __s.contents@.len() as int)); lemma_txt_locate(__s.contents@, __s.location.inner); }
//@at before `__v1.push(__r)`
        proof {
            lemma_refs_one(__r);
            lemma_txt_locate(__s.contents@, __s.location.inner);
            assert(ref_flat(__r) == locate(__s.contents@, __s.location.inner));
            assert(ref_flat(__r).len() == txt(ref_flat(__r)).len());
            assert(wf_refs(seq![__r]));
            assert(__v1@.push(__r) =~= seq![__r]);
        }
//@at before `self.process_block(names, &input_block)?;`
    let ghost n2 = *names;
    proof {
        assert(exists|id: FileName| #[trigger] is_file(n2, id, input_filename@) && block_flat(ad(input_block)) == locate(old(input).content()->Some_0, Location::SourceLocation { filename: id, line: 1, character: 1 }));
    }
//@end
