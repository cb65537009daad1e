//@props C16
// ---------------------------------------------------------------- visitors (C16)
/// one call of a visit_* method
pub enum Visit {
    Ast(AstNode), Empty, Constant(LocatedString), PreEvaluated(Arc<Block>), Concat(Seq<AstNode>), VariableReference(AstNode),
    Eval(AstNode), Strip(AstNode), Word(AstNode, AstNode), Words(AstNode),
}
/// the call for the kind of a node
pub open spec fn kind_visit(c: AstChildren) -> Visit {
    match c {
        AstChildren::Empty => Visit::Empty,
        AstChildren::Constant(l) => Visit::Constant(l),
        AstChildren::PreEvaluated(b) => Visit::PreEvaluated(b),
        AstChildren::Concat(v) => Visit::Concat(v@),
        AstChildren::VariableReference(x) => Visit::VariableReference(x),
        AstChildren::Eval(x) => Visit::Eval(x),
        AstChildren::Strip(x) => Visit::Strip(x),
        AstChildren::Word { index, words } => Visit::Word(index, words),
        AstChildren::Words(x) => Visit::Words(x),
    }
}
/// the calls made directly inside of this one
pub open spec fn inside(c: Visit) -> Seq<Visit> {
    match c {
        Visit::Ast(x) => seq![kind_visit(*x.children)],
        Visit::Empty | Visit::Constant(_) | Visit::PreEvaluated(_) => seq![],
        Visit::Concat(v) => Seq::new(v.len(), |i: int| Visit::Ast(v[i])),
        Visit::VariableReference(x) | Visit::Eval(x) | Visit::Strip(x) | Visit::Words(x) => seq![Visit::Ast(x)],
        Visit::Word(a, b) => seq![Visit::Ast(a), Visit::Ast(b)],
    }
}
/// one call of a visit_* method of a mutable visitor: with what it was given and what it left
pub enum VisitMut {
    Ast(AstNode, AstNode), Empty, Constant(LocatedString, LocatedString), PreEvaluated(Arc<Block>, Arc<Block>),
    Concat(Seq<AstNode>, Seq<AstNode>), VariableReference(AstNode, AstNode), Eval(AstNode, AstNode), Strip(AstNode, AstNode),
    Word(AstNode, AstNode, AstNode, AstNode), Words(AstNode, AstNode),
}
/// the call for the kind of a node
pub open spec fn kind_visit_mut(c: AstChildren, d: AstChildren) -> Option<VisitMut> {
    match (c, d) {
        (AstChildren::Empty, AstChildren::Empty) => Some(VisitMut::Empty),
        (AstChildren::Constant(l), AstChildren::Constant(m)) => Some(VisitMut::Constant(l, m)),
        (AstChildren::PreEvaluated(a), AstChildren::PreEvaluated(b)) => Some(VisitMut::PreEvaluated(a, b)),
        (AstChildren::Concat(v), AstChildren::Concat(u)) => Some(VisitMut::Concat(v@, u@)),
        (AstChildren::VariableReference(x), AstChildren::VariableReference(y)) => Some(VisitMut::VariableReference(x, y)),
        (AstChildren::Eval(x), AstChildren::Eval(y)) => Some(VisitMut::Eval(x, y)),
        (AstChildren::Strip(x), AstChildren::Strip(y)) => Some(VisitMut::Strip(x, y)),
        (AstChildren::Word { index, words }, AstChildren::Word { index: i2, words: w2 }) => Some(VisitMut::Word(index, words, i2, w2)),
        (AstChildren::Words(x), AstChildren::Words(y)) => Some(VisitMut::Words(x, y)),
        _ => None,
    }
}
/// c with these calls directly inside of it: what they leave is in what c leaves, and nothing else is changed
pub open spec fn inside_mut(c: VisitMut, k: Seq<VisitMut>) -> bool {
    match c {
        VisitMut::Ast(x, y) => y.source_location == x.source_location && kind_visit_mut(*x.children, *y.children).is_some()
            && k =~= seq![kind_visit_mut(*x.children, *y.children)->Some_0],
        VisitMut::Empty => k =~= Seq::<VisitMut>::empty(),
        VisitMut::Constant(l, m) => m == l && k =~= Seq::<VisitMut>::empty(),
        VisitMut::PreEvaluated(a, b) => b == a && k =~= Seq::<VisitMut>::empty(),
        VisitMut::Concat(v, u) => u.len() == v.len() && k =~= Seq::new(v.len(), |i: int| VisitMut::Ast(v[i], u[i])),
        VisitMut::VariableReference(x, y) | VisitMut::Eval(x, y) | VisitMut::Strip(x, y) | VisitMut::Words(x, y) => k =~= seq![VisitMut::Ast(x, y)],
        VisitMut::Word(a, b, c, d) => k =~= seq![VisitMut::Ast(a, c), VisitMut::Ast(b, d)],
    }
}
/// after a come the calls directly inside of c
pub open spec fn inside_mut_of(c: VisitMut, a: Seq<VisitMut>, b: Seq<VisitMut>) -> bool {
    b.len() >= a.len() && b.take(a.len() as int) =~= a && inside_mut(c, b.skip(a.len() as int))
}

/// a visitor with its visit_* calls so far; the visit_* methods are whatever a user wrote
pub trait VisitorCalls: Sized {
    spec fn calls(&self) -> Seq<Visit>;
    fn visit_ast(&mut self, ast_h1: &AstNode)
    ensures
        final(self).calls() == old(self).calls().push(Visit::Ast(*ast_h1));
    fn super_ast(&mut self, ast_h1: &AstNode)
    ensures
        final(self).calls() == old(self).calls() + inside(Visit::Ast(*ast_h1));
    fn visit_empty(&mut self)
    ensures
        final(self).calls() == old(self).calls().push(Visit::Empty);
    fn super_empty(&mut self)
    ensures
        final(self).calls() == old(self).calls() + inside(Visit::Empty);
    fn visit_constant(&mut self, content_h1: &LocatedString)
    ensures
        final(self).calls() == old(self).calls().push(Visit::Constant(*content_h1));
    fn super_constant(&mut self, _content_h1: &LocatedString)
    ensures
        final(self).calls() == old(self).calls() + inside(Visit::Constant(*_content_h1));
    fn visit_pre_evaluated(&mut self, block_h1: &Arc<Block>)
    ensures
        final(self).calls() == old(self).calls().push(Visit::PreEvaluated(*block_h1));
    fn super_pre_evaluated(&mut self, _block_h1: &Arc<Block>)
    ensures
        final(self).calls() == old(self).calls() + inside(Visit::PreEvaluated(*_block_h1));
    fn visit_concat(&mut self, nodes_h1: &Vec<AstNode>)
    ensures
        final(self).calls() == old(self).calls().push(Visit::Concat(nodes_h1@));
    fn super_concat(&mut self, nodes_h1: &Vec<AstNode>)
    ensures
        final(self).calls() == old(self).calls() + inside(Visit::Concat(nodes_h1@));
    fn visit_variable_reference(&mut self, name_h1: &AstNode)
    ensures
        final(self).calls() == old(self).calls().push(Visit::VariableReference(*name_h1));
    fn super_variable_reference(&mut self, name_h1: &AstNode)
    ensures
        final(self).calls() == old(self).calls() + inside(Visit::VariableReference(*name_h1));
    fn visit_eval(&mut self, content_h1: &AstNode)
    ensures
        final(self).calls() == old(self).calls().push(Visit::Eval(*content_h1));
    fn super_eval(&mut self, content_h1: &AstNode)
    ensures
        final(self).calls() == old(self).calls() + inside(Visit::Eval(*content_h1));
    fn visit_strip(&mut self, content_h1: &AstNode)
    ensures
        final(self).calls() == old(self).calls().push(Visit::Strip(*content_h1));
    fn super_strip(&mut self, content_h1: &AstNode)
    ensures
        final(self).calls() == old(self).calls() + inside(Visit::Strip(*content_h1));
    fn visit_word(&mut self, index_h1: &AstNode, words_h1: &AstNode)
    ensures
        final(self).calls() == old(self).calls().push(Visit::Word(*index_h1, *words_h1));
    fn super_word(&mut self, index_h1: &AstNode, words_h1: &AstNode)
    ensures
        final(self).calls() == old(self).calls() + inside(Visit::Word(*index_h1, *words_h1));
    fn visit_words(&mut self, words_h1: &AstNode)
    ensures
        final(self).calls() == old(self).calls().push(Visit::Words(*words_h1));
    fn super_words(&mut self, content_h1: &AstNode)
    ensures
        final(self).calls() == old(self).calls() + inside(Visit::Words(*content_h1));
}
//@fn ast::visit::Visitor::visit_ast
//@sig fn visitor_visit_ast<__V: VisitorCalls>(this: &mut __V, ast_h1: &AstNode)
//@spec
    ensures
        final(this).calls() == old(this).calls() + inside(Visit::Ast(*ast_h1)),
//@end
//@fn ast::visit::Visitor::visit_empty
//@sig fn visitor_visit_empty<__V: VisitorCalls>(this: &mut __V)
//@spec
    ensures
        final(this).calls() == old(this).calls() + inside(Visit::Empty),
//@end
//@fn ast::visit::Visitor::visit_constant
//@sig fn visitor_visit_constant<__V: VisitorCalls>(this: &mut __V, content_h1: &LocatedString)
//@spec
    ensures
        final(this).calls() == old(this).calls() + inside(Visit::Constant(*content_h1)),
//@end
//@fn ast::visit::Visitor::visit_pre_evaluated
//@sig fn visitor_visit_pre_evaluated<__V: VisitorCalls>(this: &mut __V, block_h1: &Arc<Block>)
//@spec
    ensures
        final(this).calls() == old(this).calls() + inside(Visit::PreEvaluated(*block_h1)),
//@end
//@fn ast::visit::Visitor::visit_concat
//@sig fn visitor_visit_concat<__V: VisitorCalls>(this: &mut __V, nodes_h1: &Vec<AstNode>)
//@spec
    ensures
        final(this).calls() == old(this).calls() + inside(Visit::Concat(nodes_h1@)),
//@end
//@fn ast::visit::Visitor::visit_variable_reference
//@sig fn visitor_visit_variable_reference<__V: VisitorCalls>(this: &mut __V, name_h1: &AstNode)
//@spec
    ensures
        final(this).calls() == old(this).calls() + inside(Visit::VariableReference(*name_h1)),
//@end
//@fn ast::visit::Visitor::visit_eval
//@sig fn visitor_visit_eval<__V: VisitorCalls>(this: &mut __V, content_h1: &AstNode)
//@spec
    ensures
        final(this).calls() == old(this).calls() + inside(Visit::Eval(*content_h1)),
//@end
//@fn ast::visit::Visitor::visit_strip
//@sig fn visitor_visit_strip<__V: VisitorCalls>(this: &mut __V, content_h1: &AstNode)
//@spec
    ensures
        final(this).calls() == old(this).calls() + inside(Visit::Strip(*content_h1)),
//@end
//@fn ast::visit::Visitor::visit_word
//@sig fn visitor_visit_word<__V: VisitorCalls>(this: &mut __V, index_h1: &AstNode, words_h1: &AstNode)
//@spec
    ensures
        final(this).calls() == old(this).calls() + inside(Visit::Word(*index_h1, *words_h1)),
//@end
//@fn ast::visit::Visitor::visit_words
//@sig fn visitor_visit_words<__V: VisitorCalls>(this: &mut __V, words_h1: &AstNode)
//@spec
    ensures
        final(this).calls() == old(this).calls() + inside(Visit::Words(*words_h1)),
//@end
//@fn ast::visit::Visitor::super_ast
//@sub `ast.` => `ast_h1.`
//@sig fn visitor_super_ast<__V: VisitorCalls>(this: &mut __V, ast_h1: &AstNode)
//@spec
    ensures
        final(this).calls() == old(this).calls() + inside(Visit::Ast(*ast_h1)),
//@end
//@fn ast::visit::Visitor::super_empty
//@sig fn visitor_super_empty<__V: VisitorCalls>(this: &mut __V)
//@spec
    ensures
        final(this).calls() == old(this).calls() + inside(Visit::Empty),
//@end
//@fn ast::visit::Visitor::super_constant
//@sig fn visitor_super_constant<__V: VisitorCalls>(this: &mut __V, _content_h1: &LocatedString)
//@spec
    ensures
        final(this).calls() == old(this).calls() + inside(Visit::Constant(*_content_h1)),
//@end
//@fn ast::visit::Visitor::super_pre_evaluated
//@sig fn visitor_super_pre_evaluated<__V: VisitorCalls>(this: &mut __V, _block_h1: &Arc<Block>)
//@spec
    ensures
        final(this).calls() == old(this).calls() + inside(Visit::PreEvaluated(*_block_h1)),
//@end
//@fn ast::visit::Visitor::super_concat
//@sub `nodes` => `nodes_h1`
//@sig fn visitor_super_concat<__V: VisitorCalls>(this: &mut __V, nodes_h1: &Vec<AstNode>)
//@spec
    ensures
        final(this).calls() == old(this).calls() + inside(Visit::Concat(nodes_h1@)),
//@loop 0
    invariant
        __it1.rem() == nodes_h1@.skip(nodes_h1@.len() - __it1.rem().len()), __it1.rem().len() <= nodes_h1@.len(),
        this.calls() == old(this).calls() + Seq::new((nodes_h1@.len() - __it1.rem().len()) as nat, |i: int| Visit::Ast(nodes_h1@[i])),
    ensures
        this.calls() == old(this).calls() + Seq::new(nodes_h1@.len(), |i: int| Visit::Ast(nodes_h1@[i])),
//@end
//@fn ast::visit::Visitor::super_variable_reference
//@sig fn visitor_super_variable_reference<__V: VisitorCalls>(this: &mut __V, name_h1: &AstNode)
//@spec
    ensures
        final(this).calls() == old(this).calls() + inside(Visit::VariableReference(*name_h1)),
//@end
//@fn ast::visit::Visitor::super_eval
//@sig fn visitor_super_eval<__V: VisitorCalls>(this: &mut __V, content_h1: &AstNode)
//@spec
    ensures
        final(this).calls() == old(this).calls() + inside(Visit::Eval(*content_h1)),
//@end
//@fn ast::visit::Visitor::super_strip
//@sig fn visitor_super_strip<__V: VisitorCalls>(this: &mut __V, content_h1: &AstNode)
//@spec
    ensures
        final(this).calls() == old(this).calls() + inside(Visit::Strip(*content_h1)),
//@end
//@fn ast::visit::Visitor::super_word
//@sig fn visitor_super_word<__V: VisitorCalls>(this: &mut __V, index_h1: &AstNode, words_h1: &AstNode)
//@spec
    ensures
        final(this).calls() == old(this).calls() + inside(Visit::Word(*index_h1, *words_h1)),
//@end
//@fn ast::visit::Visitor::super_words
//@sig fn visitor_super_words<__V: VisitorCalls>(this: &mut __V, content_h1: &AstNode)
//@spec
    ensures
        final(this).calls() == old(this).calls() + inside(Visit::Words(*content_h1)),
//@end
/// a mutable visitor with its visit_* calls so far; the visit_* methods are whatever a user wrote
pub trait MutVisitorCalls: Sized {
    spec fn calls(&self) -> Seq<VisitMut>;
    fn visit_ast(&mut self, ast_h1: &mut AstNode)
    ensures
        final(self).calls() == old(self).calls().push(VisitMut::Ast(*old(ast_h1), *final(ast_h1)));
    fn super_ast(&mut self, ast_h1: &mut AstNode)
    ensures
        inside_mut_of(VisitMut::Ast(*old(ast_h1), *final(ast_h1)), old(self).calls(), final(self).calls());
    fn visit_empty(&mut self)
    ensures
        final(self).calls() == old(self).calls().push(VisitMut::Empty);
    fn super_empty(&mut self)
    ensures
        inside_mut_of(VisitMut::Empty, old(self).calls(), final(self).calls());
    fn visit_constant(&mut self, content_h1: &mut LocatedString)
    ensures
        final(self).calls() == old(self).calls().push(VisitMut::Constant(*old(content_h1), *final(content_h1)));
    fn super_constant(&mut self, _content_h1: &mut LocatedString)
    ensures
        inside_mut_of(VisitMut::Constant(*old(_content_h1), *final(_content_h1)), old(self).calls(), final(self).calls());
    fn visit_pre_evaluated(&mut self, block_h1: &mut Arc<Block>)
    ensures
        final(self).calls() == old(self).calls().push(VisitMut::PreEvaluated(*old(block_h1), *final(block_h1)));
    fn super_pre_evaluated(&mut self, _block_h1: &mut Arc<Block>)
    ensures
        inside_mut_of(VisitMut::PreEvaluated(*old(_block_h1), *final(_block_h1)), old(self).calls(), final(self).calls());
    fn visit_concat(&mut self, nodes_h1: &mut Vec<AstNode>)
    ensures
        final(self).calls() == old(self).calls().push(VisitMut::Concat(old(nodes_h1)@, final(nodes_h1)@));
    fn super_concat(&mut self, nodes_h1: &mut Vec<AstNode>)
    ensures
        inside_mut_of(VisitMut::Concat(old(nodes_h1)@, final(nodes_h1)@), old(self).calls(), final(self).calls());
    fn visit_variable_reference(&mut self, name_h1: &mut AstNode)
    ensures
        final(self).calls() == old(self).calls().push(VisitMut::VariableReference(*old(name_h1), *final(name_h1)));
    fn super_variable_reference(&mut self, name_h1: &mut AstNode)
    ensures
        inside_mut_of(VisitMut::VariableReference(*old(name_h1), *final(name_h1)), old(self).calls(), final(self).calls());
    fn visit_eval(&mut self, content_h1: &mut AstNode)
    ensures
        final(self).calls() == old(self).calls().push(VisitMut::Eval(*old(content_h1), *final(content_h1)));
    fn super_eval(&mut self, content_h1: &mut AstNode)
    ensures
        inside_mut_of(VisitMut::Eval(*old(content_h1), *final(content_h1)), old(self).calls(), final(self).calls());
    fn visit_strip(&mut self, content_h1: &mut AstNode)
    ensures
        final(self).calls() == old(self).calls().push(VisitMut::Strip(*old(content_h1), *final(content_h1)));
    fn super_strip(&mut self, content_h1: &mut AstNode)
    ensures
        inside_mut_of(VisitMut::Strip(*old(content_h1), *final(content_h1)), old(self).calls(), final(self).calls());
    fn visit_word(&mut self, index_h1: &mut AstNode, words_h1: &mut AstNode)
    ensures
        final(self).calls() == old(self).calls().push(VisitMut::Word(*old(index_h1), *old(words_h1), *final(index_h1), *final(words_h1)));
    fn super_word(&mut self, index_h1: &mut AstNode, words_h1: &mut AstNode)
    ensures
        inside_mut_of(VisitMut::Word(*old(index_h1), *old(words_h1), *final(index_h1), *final(words_h1)), old(self).calls(), final(self).calls());
    fn visit_words(&mut self, words_h1: &mut AstNode)
    ensures
        final(self).calls() == old(self).calls().push(VisitMut::Words(*old(words_h1), *final(words_h1)));
    fn super_words(&mut self, content_h1: &mut AstNode)
    ensures
        inside_mut_of(VisitMut::Words(*old(content_h1), *final(content_h1)), old(self).calls(), final(self).calls());
}
//@fn ast::visit::MutVisitor::visit_ast
//@sig fn mutvisitor_visit_ast<__V: MutVisitorCalls>(this: &mut __V, ast_h1: &mut AstNode)
//@spec
    ensures
        inside_mut_of(VisitMut::Ast(*old(ast_h1), *final(ast_h1)), old(this).calls(), final(this).calls()),
//@end
//@fn ast::visit::MutVisitor::visit_empty
//@sig fn mutvisitor_visit_empty<__V: MutVisitorCalls>(this: &mut __V)
//@spec
    ensures
        inside_mut_of(VisitMut::Empty, old(this).calls(), final(this).calls()),
//@end
//@fn ast::visit::MutVisitor::visit_constant
//@sig fn mutvisitor_visit_constant<__V: MutVisitorCalls>(this: &mut __V, content_h1: &mut LocatedString)
//@spec
    ensures
        inside_mut_of(VisitMut::Constant(*old(content_h1), *final(content_h1)), old(this).calls(), final(this).calls()),
//@end
//@fn ast::visit::MutVisitor::visit_pre_evaluated
//@sig fn mutvisitor_visit_pre_evaluated<__V: MutVisitorCalls>(this: &mut __V, block_h1: &mut Arc<Block>)
//@spec
    ensures
        inside_mut_of(VisitMut::PreEvaluated(*old(block_h1), *final(block_h1)), old(this).calls(), final(this).calls()),
//@end
//@fn ast::visit::MutVisitor::visit_concat
//@sig fn mutvisitor_visit_concat<__V: MutVisitorCalls>(this: &mut __V, nodes_h1: &mut Vec<AstNode>)
//@spec
    ensures
        inside_mut_of(VisitMut::Concat(old(nodes_h1)@, final(nodes_h1)@), old(this).calls(), final(this).calls()),
//@end
//@fn ast::visit::MutVisitor::visit_variable_reference
//@sig fn mutvisitor_visit_variable_reference<__V: MutVisitorCalls>(this: &mut __V, name_h1: &mut AstNode)
//@spec
    ensures
        inside_mut_of(VisitMut::VariableReference(*old(name_h1), *final(name_h1)), old(this).calls(), final(this).calls()),
//@end
//@fn ast::visit::MutVisitor::visit_eval
//@sig fn mutvisitor_visit_eval<__V: MutVisitorCalls>(this: &mut __V, content_h1: &mut AstNode)
//@spec
    ensures
        inside_mut_of(VisitMut::Eval(*old(content_h1), *final(content_h1)), old(this).calls(), final(this).calls()),
//@end
//@fn ast::visit::MutVisitor::visit_strip
//@sig fn mutvisitor_visit_strip<__V: MutVisitorCalls>(this: &mut __V, content_h1: &mut AstNode)
//@spec
    ensures
        inside_mut_of(VisitMut::Strip(*old(content_h1), *final(content_h1)), old(this).calls(), final(this).calls()),
//@end
//@fn ast::visit::MutVisitor::visit_word
//@sig fn mutvisitor_visit_word<__V: MutVisitorCalls>(this: &mut __V, index_h1: &mut AstNode, words_h1: &mut AstNode)
//@spec
    ensures
        inside_mut_of(VisitMut::Word(*old(index_h1), *old(words_h1), *final(index_h1), *final(words_h1)), old(this).calls(), final(this).calls()),
//@end
//@fn ast::visit::MutVisitor::visit_words
//@sig fn mutvisitor_visit_words<__V: MutVisitorCalls>(this: &mut __V, words_h1: &mut AstNode)
//@spec
    ensures
        inside_mut_of(VisitMut::Words(*old(words_h1), *final(words_h1)), old(this).calls(), final(this).calls()),
//@end
//@fn ast::visit::MutVisitor::super_ast
//@sub `ast.` => `ast_h1.`
//@sig fn mutvisitor_super_ast<__V: MutVisitorCalls>(this: &mut __V, ast_h1: &mut AstNode)
//@spec
    ensures
        inside_mut_of(VisitMut::Ast(*old(ast_h1), *final(ast_h1)), old(this).calls(), final(this).calls()),
//@end
//@fn ast::visit::MutVisitor::super_empty
//@sig fn mutvisitor_super_empty<__V: MutVisitorCalls>(this: &mut __V)
//@spec
    ensures
        inside_mut_of(VisitMut::Empty, old(this).calls(), final(this).calls()),
//@end
//@fn ast::visit::MutVisitor::super_constant
//@sig fn mutvisitor_super_constant<__V: MutVisitorCalls>(this: &mut __V, _content_h1: &mut LocatedString)
//@spec
    ensures
        inside_mut_of(VisitMut::Constant(*old(_content_h1), *final(_content_h1)), old(this).calls(), final(this).calls()),
//@end
//@fn ast::visit::MutVisitor::super_pre_evaluated
//@sig fn mutvisitor_super_pre_evaluated<__V: MutVisitorCalls>(this: &mut __V, _block_h1: &mut Arc<Block>)
//@spec
    ensures
        inside_mut_of(VisitMut::PreEvaluated(*old(_block_h1), *final(_block_h1)), old(this).calls(), final(this).calls()),
//@end
//@fn ast::visit::MutVisitor::super_concat
//@sub `nodes` => `nodes_h1`
//@sig fn mutvisitor_super_concat<__V: MutVisitorCalls>(this: &mut __V, nodes_h1: &mut Vec<AstNode>)
//@spec
    ensures
        inside_mut_of(VisitMut::Concat(old(nodes_h1)@, final(nodes_h1)@), old(this).calls(), final(this).calls()),
//@loop 0
    invariant
        __ix2 <= nodes_h1.len(), nodes_h1.len() == old(nodes_h1).len(),
        forall|i: int| __ix2 <= i < nodes_h1.len() ==> nodes_h1@[i] == old(nodes_h1)@[i],
        this.calls() == old(this).calls() + Seq::new(__ix2 as nat, |i: int| VisitMut::Ast(old(nodes_h1)@[i], nodes_h1@[i])),
//@end
//@fn ast::visit::MutVisitor::super_variable_reference
//@sig fn mutvisitor_super_variable_reference<__V: MutVisitorCalls>(this: &mut __V, name_h1: &mut AstNode)
//@spec
    ensures
        inside_mut_of(VisitMut::VariableReference(*old(name_h1), *final(name_h1)), old(this).calls(), final(this).calls()),
//@end
//@fn ast::visit::MutVisitor::super_eval
//@sig fn mutvisitor_super_eval<__V: MutVisitorCalls>(this: &mut __V, content_h1: &mut AstNode)
//@spec
    ensures
        inside_mut_of(VisitMut::Eval(*old(content_h1), *final(content_h1)), old(this).calls(), final(this).calls()),
//@end
//@fn ast::visit::MutVisitor::super_strip
//@sig fn mutvisitor_super_strip<__V: MutVisitorCalls>(this: &mut __V, content_h1: &mut AstNode)
//@spec
    ensures
        inside_mut_of(VisitMut::Strip(*old(content_h1), *final(content_h1)), old(this).calls(), final(this).calls()),
//@end
//@fn ast::visit::MutVisitor::super_word
//@sig fn mutvisitor_super_word<__V: MutVisitorCalls>(this: &mut __V, index_h1: &mut AstNode, words_h1: &mut AstNode)
//@spec
    ensures
        inside_mut_of(VisitMut::Word(*old(index_h1), *old(words_h1), *final(index_h1), *final(words_h1)), old(this).calls(), final(this).calls()),
//@end
//@fn ast::visit::MutVisitor::super_words
//@sig fn mutvisitor_super_words<__V: MutVisitorCalls>(this: &mut __V, content_h1: &mut AstNode)
//@spec
    ensures
        inside_mut_of(VisitMut::Words(*old(content_h1), *final(content_h1)), old(this).calls(), final(this).calls()),
//@end
//@fn ast::AstNode::children_mut
//@sub `&mut self.children` => `&mut *self.children`
//@spec
    ensures *r == *old(self).children, *final(self).children == *final(r), final(self).source_location == old(self).source_location,
//@end
// ------------------------------------------------ what the contracts of the default methods amount to
pub open spec fn nkids(x: AstNode) -> int {
    match *x.children {
        AstChildren::Empty | AstChildren::Constant(_) | AstChildren::PreEvaluated(_) => 0,
        AstChildren::Concat(v) => v.len() as int,
        AstChildren::Word { index, words } => 2,
        _ => 1,
    }
}
pub open spec fn kid(x: AstNode, i: int) -> AstNode {
    match *x.children {
        AstChildren::Concat(v) => v[i],
        AstChildren::VariableReference(y) => y,
        AstChildren::Eval(y) => y,
        AstChildren::Strip(y) => y,
        AstChildren::Words(y) => y,
        AstChildren::Word { index, words } => if i == 0 { index } else { words },
        _ => x,
    }
}
/// the node at a place: the child number p[0], of it the child number p[1], ...
pub open spec fn node_at(x: AstNode, p: Seq<int>) -> Option<AstNode>
    decreases p.len()
{
    if p.len() == 0 { Some(x) } else if 0 <= p[0] < nkids(x) { node_at(kid(x, p[0]), p.skip(1)) } else { None }
}
pub open spec fn below(i: int, s: Seq<(Seq<int>, AstNode)>) -> Seq<(Seq<int>, AstNode)> {
    Seq::new(s.len(), |j: int| (seq![i] + s[j].0, s[j].1))
}
/// all nodes with their places: parents before children, children from left to right
pub open spec fn preorder(x: AstNode) -> Seq<(Seq<int>, AstNode)>
    decreases x, 1int, 0int
{
    seq![(Seq::<int>::empty(), x)] + preorders(x, nkids(x))
}
pub open spec fn preorders(x: AstNode, n: int) -> Seq<(Seq<int>, AstNode)>
    decreases x, 0int, n
{
    if n <= 0 { seq![] } else {
        preorders(x, n - 1) + below(n - 1, match *x.children {
            AstChildren::Concat(v) => if n <= v.len() { preorder(v[n - 1]) } else { seq![] },
            AstChildren::VariableReference(y) => preorder(y),
            AstChildren::Eval(y) => preorder(y),
            AstChildren::Strip(y) => preorder(y),
            AstChildren::Words(y) => preorder(y),
            AstChildren::Word { index, words } => if n == 1 { preorder(index) } else { preorder(words) },
            _ => seq![],
        })
    }
}
pub proof fn lemma_preorders(x: AstNode, n: int)
    requires 0 < n <= nkids(x),
    ensures preorders(x, n) == preorders(x, n - 1) + below(n - 1, preorder(kid(x, n - 1))),
{}
/// every place is listed exactly once, with the node that is there
pub proof fn lemma_places(x: AstNode)
    ensures
        forall|p: Seq<int>, n: AstNode| node_at(x, p) == Some(n) <==> #[trigger] preorder(x).contains((p, n)),
        forall|i: int, j: int| 0 <= i < preorder(x).len() && 0 <= j < preorder(x).len() && #[trigger] preorder(x)[i].0 == #[trigger] preorder(x)[j].0 ==> i == j,
    decreases x, 1int, 0int
{
    let s = preorder(x);
    let t = preorders(x, nkids(x));
    lemma_places_below(x, nkids(x));
    assert(s[0] == (Seq::<int>::empty(), x));
    assert forall|i: int| 1 <= i < s.len() implies #[trigger] s[i] == t[i - 1] by {}
    assert forall|p: Seq<int>, n: AstNode| node_at(x, p) == Some(n) <==> #[trigger] s.contains((p, n)) by {
        if p.len() == 0 {
            assert(p =~= Seq::<int>::empty());
            if s.contains((p, n)) {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == (p, n);
                if i > 0 { assert(t.contains((p, n))); }
            } else { assert(s[0] == (p, x)); }
        } else {
            if node_at(x, p) == Some(n) {
                assert(t.contains((p, n)));
                let i = choose|i: int| 0 <= i < t.len() && t[i] == (p, n);
                assert(s[i + 1] == (p, n));
            }
            if s.contains((p, n)) {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == (p, n);
                assert(t[i - 1] == (p, n));
                assert(t.contains((p, n)));
            }
        }
    }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] s[i].0 == #[trigger] s[j].0 implies i == j by {
        if i > 0 { assert(t.contains(t[i - 1])); assert(t.contains((t[i - 1].0, t[i - 1].1))); assert(s[i].0.len() > 0); }
        if j > 0 { assert(t.contains(t[j - 1])); assert(t.contains((t[j - 1].0, t[j - 1].1))); assert(s[j].0.len() > 0); }
        if i > 0 && j > 0 { assert(t[i - 1].0 == t[j - 1].0); }
    }
}
pub proof fn lemma_places_below(x: AstNode, n: int)
    requires 0 <= n <= nkids(x),
    ensures
        forall|p: Seq<int>, m: AstNode| #[trigger] preorders(x, n).contains((p, m)) <==> p.len() > 0 && p[0] < n && node_at(x, p) == Some(m),
        forall|i: int, j: int| 0 <= i < preorders(x, n).len() && 0 <= j < preorders(x, n).len() && #[trigger] preorders(x, n)[i].0 == #[trigger] preorders(x, n)[j].0 ==> i == j,
    decreases x, 0int, n
{
    let t = preorders(x, n);
    if n > 0 {
        lemma_preorders(x, n);
        let a = preorders(x, n - 1);
        let k = kid(x, n - 1);
        let c = preorder(k);
        let b = below(n - 1, c);
        lemma_places_below(x, n - 1);
        lemma_places(k);
        assert forall|p: Seq<int>, m: AstNode| #[trigger] t.contains((p, m)) <==> p.len() > 0 && p[0] < n && node_at(x, p) == Some(m) by {
            if t.contains((p, m)) {
                let i = choose|i: int| 0 <= i < t.len() && t[i] == (p, m);
                if i < a.len() { assert(a[i] == (p, m)); assert(a.contains((p, m))); }
                else {
                    let j = i - a.len();
                    assert(b[j] == (p, m));
                    assert(c.contains(c[j]));
                    assert(c.contains((c[j].0, c[j].1)));
                    assert(p.skip(1) =~= c[j].0);
                }
            }
            if p.len() > 0 && p[0] < n && node_at(x, p) == Some(m) {
                if p[0] < n - 1 {
                    assert(a.contains((p, m)));
                    let i = choose|i: int| 0 <= i < a.len() && a[i] == (p, m);
                    assert(t[i] == (p, m));
                } else {
                    assert(c.contains((p.skip(1), m)));
                    let j = choose|j: int| 0 <= j < c.len() && c[j] == (p.skip(1), m);
                    assert(seq![n - 1] + c[j].0 =~= p);
                    assert(t[a.len() + j] == (p, m));
                }
            }
        }
        assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && #[trigger] t[i].0 == #[trigger] t[j].0 implies i == j by {
            if i < a.len() { assert(a.contains((a[i].0, a[i].1))); } else { assert(t[i] == b[i - a.len()]); assert(t[i].0.skip(1) =~= c[i - a.len()].0); assert(t[i].0[0] == n - 1); }
            if j < a.len() { assert(a.contains((a[j].0, a[j].1))); } else { assert(t[j] == b[j - a.len()]); assert(t[j].0.skip(1) =~= c[j - a.len()].0); assert(t[j].0[0] == n - 1); }
            if i < a.len() && j < a.len() { assert(a[i].0 == a[j].0); }
            if i >= a.len() && j >= a.len() { assert(c[i - a.len()].0 == c[j - a.len()].0); }
        }
    }
}
/// all calls made by c, down to a depth: c, then what is inside of it
pub open spec fn run(c: Visit, depth: nat) -> Seq<Visit>
    decreases depth, 0int, 0int
{
    if depth == 0 { seq![] } else { seq![c] + runs(inside(c), (depth - 1) as nat) }
}
pub open spec fn runs(k: Seq<Visit>, depth: nat) -> Seq<Visit>
    decreases depth, 1int, k.len()
{
    if k.len() == 0 { seq![] } else { runs(k.drop_last(), depth) + run(k.last(), depth) }
}
/// for every node the call of visit_ast and the one for its kind
pub open spec fn shown(s: Seq<(Seq<int>, AstNode)>) -> Seq<Visit>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else { shown(s.drop_last()) + seq![Visit::Ast(s.last().1), kind_visit(*s.last().1.children)] }
}
pub proof fn lemma_shown_add(a: Seq<(Seq<int>, AstNode)>, b: Seq<(Seq<int>, AstNode)>)
    ensures shown(a + b) == shown(a) + shown(b),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(shown(a) + shown(b) =~= shown(a)); } else {
        lemma_shown_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(shown(a + b) =~= shown(a) + shown(b));
    }
}
pub proof fn lemma_shown_below(i: int, s: Seq<(Seq<int>, AstNode)>)
    ensures shown(below(i, s)) == shown(s),
    decreases s.len()
{
    if s.len() > 0 { lemma_shown_below(i, s.drop_last()); assert(below(i, s).drop_last() =~= below(i, s.drop_last())); }
}
pub open spec fn settled(x: AstNode, h: nat) -> bool { forall|d: nat| d >= h ==> #[trigger] run(Visit::Ast(x), d) == shown(preorder(x)) }
pub open spec fn kid_calls(x: AstNode, n: int) -> Seq<Visit> { Seq::new(n as nat, |i: int| Visit::Ast(kid(x, i))) }
pub open spec fn settled_below(x: AstNode, n: int, h: nat) -> bool { forall|d: nat| d >= h ==> #[trigger] runs(kid_calls(x, n), d) == shown(preorders(x, n)) }
/// C16: with the default methods, the calls made by visit_ast are these two for every node, in this order
pub proof fn lemma_visits(x: AstNode)
    ensures exists|h: nat| settled(x, h),
    decreases x, 1int, 0int
{
    lemma_visits_below(x, nkids(x));
    let h = choose|h: nat| settled_below(x, nkids(x), h);
    let kv = kind_visit(*x.children);
    assert(inside(kv) =~= kid_calls(x, nkids(x)));
    assert forall|d: nat| d >= h + 2 implies #[trigger] run(Visit::Ast(x), d) == shown(preorder(x)) by {
        let e = (d - 1) as nat; let g = (d - 2) as nat;
        assert(inside(Visit::Ast(x)) =~= seq![kv]);
        assert(seq![kv].drop_last() =~= seq![]);
        assert(runs(seq![kv].drop_last(), e) =~= seq![]);
        assert(runs(seq![kv], e) =~= run(kv, e));
        assert(run(kv, e) =~= seq![kv] + runs(inside(kv), g));
        assert(runs(kid_calls(x, nkids(x)), g) == shown(preorders(x, nkids(x))));
        let r = seq![(Seq::<int>::empty(), x)];
        lemma_shown_add(r, preorders(x, nkids(x)));
        assert(r.drop_last() =~= seq![]);
        assert(shown(r.drop_last()) =~= seq![]);
        assert(shown(r) =~= seq![Visit::Ast(x), kv]);
        assert(run(Visit::Ast(x), d) =~= seq![Visit::Ast(x)] + (seq![kv] + shown(preorders(x, nkids(x)))));
        assert(run(Visit::Ast(x), d) =~= shown(preorder(x)));
    }
    assert(settled(x, h + 2));
}
pub proof fn lemma_visits_below(x: AstNode, n: int)
    requires 0 <= n <= nkids(x),
    ensures exists|h: nat| settled_below(x, n, h),
    decreases x, 0int, n
{
    if n == 0 {
        assert forall|d: nat| d >= 0 implies #[trigger] runs(kid_calls(x, n), d) == shown(preorders(x, n)) by { assert(kid_calls(x, n).len() == 0); assert(preorders(x, n).len() == 0); }
        assert(settled_below(x, n, 0));
    } else {
        let m = n - 1;
        lemma_visits_below(x, m);
        let k = kid(x, n - 1);
        lemma_visits(k);
        let a = choose|h: nat| settled_below(x, m, h);
        let b = choose|h: nat| settled(k, h);
        lemma_preorders(x, n);
        lemma_shown_below(n - 1, preorder(k));
        lemma_shown_add(preorders(x, n - 1), below(n - 1, preorder(k)));
        assert forall|d: nat| d >= a + b implies #[trigger] runs(kid_calls(x, n), d) == shown(preorders(x, n)) by {
            assert(kid_calls(x, n).drop_last() =~= kid_calls(x, n - 1));
            assert(kid_calls(x, n).last() == Visit::Ast(k));
            assert(runs(kid_calls(x, n - 1), d) == shown(preorders(x, n - 1)));
            assert(run(Visit::Ast(k), d) == shown(preorder(k)));
        }
        assert(settled_below(x, n, a + b));
    }
}
