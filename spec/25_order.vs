// The partial order of positions (C03).
//@props C03
pub use std::cmp::Ordering;

/// equality of the outputs of two evaluations (derived PartialEq of Block)
pub uninterp spec fn same_eval(a: Block, b: Block) -> bool;
pub axiom fn axiom_same_eval(a: Block, b: Block, c: Block)
    ensures same_eval(a, a), same_eval(a, b) == same_eval(b, a), same_eval(a, b) && same_eval(b, c) ==> same_eval(a, c);
#[verifier::external_body]
pub fn arc_block_eq(a: &Arc<Block>, b: &Arc<Block>) -> (r: bool)
    ensures r == same_eval(**a, **b),
{ unimplemented!() }
#[verifier::external_body]
pub fn u32_partial_cmp(a: &u32, b: &u32) -> (r: Option<Ordering>)
    ensures r == Some(num_cmp(*a as int, *b as int)),
{ a.partial_cmp(b) }
pub open spec fn num_cmp(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
/// two positions stand in the same source
pub open spec fn same_source(a: Location, b: Location) -> bool {
    match (a, b) {
        (Location::SourceLocation { filename: f, .. }, Location::SourceLocation { filename: g, .. }) => f == g,
        (Location::EvalLocation { tree_node: t, .. }, Location::EvalLocation { tree_node: u, .. }) => same_eval(*t, *u),
        (Location::Synthetic, Location::Synthetic) => true,
        _ => false,
    }
}
pub open spec fn line_of(a: Location) -> int {
    match a { Location::SourceLocation { line, .. } => line as int, Location::EvalLocation { line, .. } => line as int, Location::Synthetic => 0 }
}
pub open spec fn char_of(a: Location) -> int {
    match a { Location::SourceLocation { character, .. } => character as int, Location::EvalLocation { character, .. } => character as int, Location::Synthetic => 0 }
}
/// the meaning of a comparison
pub open spec fn loc_cmp(a: Location, b: Location) -> Option<Ordering> {
    if !same_source(a, b) { None }
    else if line_of(a) != line_of(b) { Some(num_cmp(line_of(a), line_of(b))) }
    else { Some(num_cmp(char_of(a), char_of(b))) }
}
/// the derived equality of positions
pub open spec fn loc_eq(a: Location, b: Location) -> bool {
    same_source(a, b) && line_of(a) == line_of(b) && char_of(a) == char_of(b)
}
pub open spec fn flip(o: Option<Ordering>) -> Option<Ordering> {
    match o { Some(Ordering::Less) => Some(Ordering::Greater), Some(Ordering::Greater) => Some(Ordering::Less), x => x }
}
/// comparable exactly within one source; swapping reverses; equal exactly for equal positions; transitive
pub proof fn lemma_order(a: Location, b: Location, c: Location)
    ensures
        loc_cmp(a, b).is_some() == same_source(a, b),
        loc_cmp(b, a) == flip(loc_cmp(a, b)),
        (loc_cmp(a, b) == Some(Ordering::Equal)) == loc_eq(a, b),
        loc_cmp(a, a) == Some(Ordering::Equal),
        loc_cmp(a, b) == Some(Ordering::Less) && loc_cmp(b, c) == Some(Ordering::Less) ==> loc_cmp(a, c) == Some(Ordering::Less),
{
    match (a, b, c) {
        (Location::EvalLocation { tree_node: t, .. }, Location::EvalLocation { tree_node: u, .. }, Location::EvalLocation { tree_node: v, .. }) => { axiom_same_eval(ad(t), ad(u), ad(v)); }
        (Location::EvalLocation { tree_node: t, .. }, Location::EvalLocation { tree_node: u, .. }, _) => { axiom_same_eval(ad(t), ad(u), ad(t)); }
        (Location::EvalLocation { tree_node: t, .. }, _, _) => { axiom_same_eval(ad(t), ad(t), ad(t)); }
        _ => {}
    }
}
//@fn source_location::PartialOrd for Location::partial_cmp
//@sub `a_node == b_node` => `arc_block_eq(a_node, b_node)`
//@sub `a_character.partial_cmp(b_character)` => `u32_partial_cmp(a_character, b_character)`
//@sub `a_line.partial_cmp(b_line)` => `u32_partial_cmp(a_line, b_line)`
//@spec
    ensures r == loc_cmp(*self, *o),
//@end
//@fn source_location::PartialOrd for Located::partial_cmp
//@impl impl<T> Located<T>
//@spec
    ensures r == loc_cmp(self.location.inner, o.location.inner),
//@end
