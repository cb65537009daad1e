//! Oracles for evaluated text: every block is mirrored by a flat list of
//! (character, location) pairs, maintained independently of the crate.
use crate::util::*;
use hastur::ast;
use hastur::evaluated::{self, nodes, Block, BlockSpan, ContentReference, EvaluatedNode};
use hastur::source_location::{LocatedStr, Location};
use hastur::verif_hooks::located;
use hastur::{Engine, FileName, NameCache};
use nom::{AtEof, Compare, CompareResult, FindSubstring, InputIter, InputLength, InputTake, InputTakeAtPosition, Offset, Slice};
use std::sync::Arc;

/// Independent notion of a position
#[derive(Clone, Debug, PartialEq)]
pub enum Pos { Src(usize, u32, u32), Eval(usize, u32, u32), Syn }

pub type Flat = Vec<(char, Pos)>;

pub fn advance(p: &Pos, c: char) -> Pos {
    match p {
        Pos::Syn => Pos::Syn,
        Pos::Src(f, l, k) => if c == '\n' { Pos::Src(*f, l + 1, 1) } else { Pos::Src(*f, *l, k + 1) },
        Pos::Eval(f, l, k) => if c == '\n' { Pos::Eval(*f, l + 1, 1) } else { Pos::Eval(*f, *l, k + 1) },
    }
}

pub fn flat_of(start: &Pos, s: &str) -> Flat {
    let mut p = start.clone();
    let mut o = vec![];
    for c in s.chars() {
        o.push((c, p.clone()));
        p = advance(&p, c);
    }
    o
}

pub fn text(f: &[(char, Pos)]) -> String { f.iter().map(|x| x.0).collect() }

pub struct World {
    pub names: NameCache,
    pub files: Vec<FileName>,
    pub trees: Vec<Arc<Block>>,
}

impl World {
    pub fn new() -> World {
        let mut names = NameCache::default();
        let files = vec![names.intern_file_name("f0".into()), names.intern_file_name("f1".into())];
        let mut t0 = Block::default();
        t0.push(evaluated::constant(located(Location::Synthetic, "t0".into())));
        let mut t1 = Block::default();
        t1.push(evaluated::constant(located(Location::Synthetic, "t1".into())));
        World { names, files, trees: vec![Arc::new(t0), Arc::new(t1)] }
    }
    pub fn loc(&self, p: &Pos) -> Location {
        match p {
            Pos::Syn => Location::Synthetic,
            Pos::Src(f, l, c) => Location::SourceLocation { line: *l, character: *c, filename: self.files[*f] },
            Pos::Eval(t, l, c) => Location::EvalLocation { tree_node: self.trees[*t].clone(), line: *l, character: *c },
        }
    }
    pub fn pos(&self, l: &Location) -> Option<Pos> {
        match l {
            Location::Synthetic => Some(Pos::Syn),
            Location::SourceLocation { line, character, filename } =>
                self.files.iter().position(|f| f == filename).map(|f| Pos::Src(f, *line, *character)),
            Location::EvalLocation { tree_node, line, character } =>
                self.trees.iter().position(|t| t == tree_node).map(|t| Pos::Eval(t, *line, *character)),
        }
    }
    pub fn segs<'a>(&self, it: impl Iterator<Item = LocatedStr<'a>>) -> Result<Flat, String> {
        let mut o = vec![];
        for s in it {
            let t: &str = &*s;
            if t.is_empty() { continue; }
            let p = self.pos(s.location()).ok_or_else(|| format!("segment {:?} has unknown location {:?}", t, s.location()))?;
            o.extend(flat_of(&p, t));
        }
        Ok(o)
    }
}

#[derive(Clone)]
pub struct M { pub block: Arc<Block>, pub flat: Flat, pub how: String }

const ALPHA: &[&str] = &["a", "b", "ab", "\n", " ", "é", "漢", "😀", "$", "\\", "ba"];

fn rand_pos(r: &mut Rng) -> Pos {
    match r.below(5) {
        0 => Pos::Syn,
        1 => Pos::Eval(r.below(2), 1 + r.below(5) as u32, 1 + r.below(9) as u32),
        _ => Pos::Src(r.below(2), 1 + r.below(50) as u32, 1 + r.below(50) as u32),
    }
}

fn cut(flat: &[(char, Pos)], i: usize) -> usize { flat[..i].iter().map(|x| x.0.len_utf8()).sum() }

fn range(r: &mut Rng, n: usize) -> (usize, usize) {
    let a = r.below(n + 1);
    let b = a + r.below(n - a + 1);
    (a, b)
}

fn leaf(r: &mut Rng, w: &World, max: usize) -> (ContentReference, Flat, String) {
    let p = rand_pos(r);
    let s = r.string(ALPHA, max);
    let fl = flat_of(&p, &s);
    let how = format!("{:?}@{:?}", s, p);
    (evaluated::constant(located(w.loc(&p), s)), fl, how)
}

/// One random way to make a content reference out of a pool
fn reference(r: &mut Rng, w: &World, pool: &[M]) -> (ContentReference, Flat, String) {
    if pool.is_empty() || r.chance(1, 3) { return leaf(r, w, 6); }
    let m = r.pick(pool).clone();
    let other = r.pick(pool).block.clone();
    match r.below(7) {
        0 => (evaluated::concat(m.block.clone()), m.flat, format!("cat({})", m.how)),
        1 => (evaluated::variable_reference(other, m.block.clone()), m.flat, format!("var({})", m.how)),
        2 => (evaluated::substitution_reference(other.clone(), other.clone(), other, m.block.clone()), m.flat, format!("sub({})", m.how)),
        3 => (ContentReference::new_from_node(Arc::new(EvaluatedNode::Evaluated(nodes::Evaluated::new(m.block.clone())))), m.flat, format!("eval({})", m.how)),
        4 => {
            let n = m.flat.len();
            let (a, b) = range(r, n);
            let sp = m.block.span().slice(cut(&m.flat, a)..cut(&m.flat, b));
            (sp.to_content_reference(), m.flat[a..b].to_vec(), format!("ref({}[{}..{}])", m.how, a, b))
        }
        5 => match r.below(3) {
            0 => (ContentReference::space(), vec![(' ', Pos::Syn)], "space".into()),
            1 => (ContentReference::newline(), vec![('\n', Pos::Syn)], "newline".into()),
            _ => (ContentReference::semicolon(), vec![(';', Pos::Syn)], "semicolon".into()),
        },
        _ => {
            let n = m.flat.len();
            if n == 0 { return leaf(r, w, 6); }
            let a = r.below(n);
            let b = a + r.below(n - a + 1);
            let node = match r.below(3) {
                0 => EvaluatedNode::Concat(m.block.clone()),
                1 => EvaluatedNode::VariableReference(nodes::VariableReference::new(other, m.block.clone())),
                _ => EvaluatedNode::Evaluated(nodes::Evaluated::new(m.block.clone())),
            };
            (ContentReference::new_from_node_slice(Arc::new(node), cut(&m.flat, a), cut(&m.flat, b) - cut(&m.flat, a)),
             m.flat[a..b].to_vec(), format!("nslice({}[{}..{}])", m.how, a, b))
        }
    }
}

/// Random block assembled from the pool. `how` describes it.
pub fn build(r: &mut Rng, w: &mut World, pool: &[M]) -> M {
    match r.below(6) {
        0 | 1 => {
            let mut b = Block::default();
            let mut fl = vec![];
            let mut how = String::from("[");
            for _ in 0..1 + r.below(4) {
                let (c, f, h) = reference(r, w, pool);
                b.push(c);
                fl.extend(f);
                how += &h;
                how += " ";
            }
            how += "]";
            M { block: Arc::new(b), flat: fl, how }
        }
        2 if !pool.is_empty() => {
            let m = r.pick(pool).clone();
            let (a, b) = range(r, m.flat.len());
            let sp = m.block.span().slice(cut(&m.flat, a)..cut(&m.flat, b));
            M { block: sp.to_new_block(), flat: m.flat[a..b].to_vec(), how: format!("copy({}[{}..{}])", m.how, a, b) }
        }
        3 if !pool.is_empty() => {
            let base = r.pick(pool).clone();
            let m = r.pick(pool).clone();
            let (a, b) = range(r, m.flat.len());
            let mut blk: Block = (*base.block).clone();
            blk.push_all_contents(m.block.span().slice(cut(&m.flat, a)..cut(&m.flat, b)));
            let mut fl = base.flat.clone();
            fl.extend_from_slice(&m.flat[a..b]);
            M { block: Arc::new(blk), flat: fl, how: format!("append({} += {}[{}..{}])", base.how, m.how, a, b) }
        }
        _ => {
            // Evaluation of already evaluated text: makes a simplified copy
            let mut engine = Engine { database: Default::default(), command_char: '\t', vpaths: vec![], patterned_vpaths: Default::default(), working_directory: "/".into() };
            let mut nodes_ = vec![];
            let mut fl = vec![];
            let mut how = String::from("norm(");
            for _ in 0..1 + r.below(3) {
                let mut b = Block::default();
                for _ in 0..1 + r.below(3) {
                    let (c, f, h) = reference(r, w, pool);
                    b.push(c);
                    fl.extend(f);
                    how += &h;
                    how += " ";
                }
                nodes_.push(ast::preevaluated(Location::Synthetic, Arc::new(b)));
            }
            how += ")";
            let node = ast::collapsing_concat(Location::Synthetic, nodes_);
            let block = node.eval(&mut w.names, &mut engine);
            M { block, flat: fl, how }
        }
    }
}

pub fn check_span_text(sp: BlockSpan, flat: &[(char, Pos)]) -> Result<(), String> {
    let want = text(flat);
    eq("span length", sp.len(), want.len())?;
    eq("span text", sp.into_string(), want.clone())?;
    eq("span chars", sp.chars().collect::<String>(), want.clone())?;
    eq("span char_indices", sp.char_indices().collect::<Vec<_>>(), want.char_indices().collect::<Vec<_>>())?;
    eq("span segments text", sp.segments().map(|s| s.to_string()).collect::<String>(), want.clone())?;
    let nb = sp.to_new_block();
    eq("copied slice", nb.into_string(), want.clone())?;
    eq("copied slice length", nb.len(), want.len())?;
    let mut b = Block::default();
    b.push_all_contents(sp);
    eq("appended slice", b.into_string(), want.clone())?;
    let cr = sp.to_content_reference();
    eq("reference chars", cr.chars().collect::<String>(), want.clone())?;
    eq("reference char_indices", cr.char_indices().collect::<Vec<_>>(), want.char_indices().collect::<Vec<_>>())?;
    let mut s = String::from("x");
    cr.append_to_string(&mut s);
    eq("reference append_to_string", s, format!("x{}", want))
}

pub fn check_block_text(m: &M) -> Result<(), String> {
    let want = text(&m.flat);
    eq("block length", m.block.len(), want.len())?;
    eq("block text", m.block.into_string(), want.clone())?;
    eq("contents text", m.block.content().flat_map(|c| c.chars()).collect::<String>(), want.clone())?;
    check_span_text(m.block.span(), &m.flat)
}

pub fn check_span_loc(w: &World, sp: BlockSpan, flat: &[(char, Pos)]) -> Result<(), String> {
    eq("segments", w.segs(sp.segments())?, flat.to_vec())?;
    let want = flat.first().map(|x| x.1.clone());
    let got = match sp.location() { None => None, Some(l) => Some(w.pos(&l).ok_or("unknown location")?) };
    eq("start location", got, want)?;
    let nb = sp.to_new_block();
    eq("copied slice segments", w.segs(nb.span().segments())?, flat.to_vec())?;
    let mut b = Block::default();
    b.push_all_contents(sp);
    eq("appended slice segments", w.segs(b.span().segments())?, flat.to_vec())?;
    let cr = sp.to_content_reference();
    eq("reference segments", w.segs(cr.segments())?, flat.to_vec())
}

pub fn blocks_case(r: &mut Rng, loc: bool) -> impl FnOnce() -> Result<(), String> {
    let seed = r.next();
    move || {
        let mut r = Rng(seed);
        let mut w = World::new();
        let mut pool: Vec<M> = vec![];
        for _ in 0..2 + r.below(5) {
            let m = build(&mut r, &mut w, &pool);
            let res: Result<(), String> = (|| {
                if loc {
                    eq("block segments", w.segs(m.block.span().segments())?, m.flat.clone())?;
                    let mut fl = vec![];
                    for c in m.block.content() { fl.extend(w.segs(c.segments())?); }
                    eq("content segments", fl, m.flat.clone())?;
                } else {
                    check_block_text(&m)?;
                }
                for _ in 0..4 {
                    let (a, b) = range(&mut r, m.flat.len());
                    let sp = m.block.span().slice(cut(&m.flat, a)..cut(&m.flat, b));
                    let sub = &m.flat[a..b];
                    if loc { check_span_loc(&w, sp, sub)?; } else { check_span_text(sp, sub)?; }
                    // slices of slices, with all three kinds of range
                    let (c, d) = range(&mut r, sub.len());
                    let s2 = sp.slice(cut(sub, c)..);
                    let s3 = s2.slice(..cut(sub, d) - cut(sub, c));
                    if loc { check_span_loc(&w, s2, &sub[c..])?; check_span_loc(&w, s3, &sub[c..d])?; }
                    else { check_span_text(s2, &sub[c..])?; check_span_text(s3, &sub[c..d])?; }
                }
                Ok(())
            })();
            if let Err(e) = res { return Err(format!("{} in {}", e, m.how)); }
            pool.push(m);
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C04

fn spec_cmp(t: &str, p: &str) -> CompareResult {
    if t.starts_with(p) { CompareResult::Ok } else if p.starts_with(t) { CompareResult::Incomplete } else { CompareResult::Error }
}

fn check_ops(r: &mut Rng, sp: BlockSpan, t: &str) -> Result<(), String> {
    eq("input_len", sp.input_len(), t.len())?;
    eq("at_eof", sp.at_eof(), true)?;
    eq("iter_elements", sp.iter_elements().collect::<String>(), t.to_string())?;
    eq("iter_indices", sp.iter_indices().collect::<Vec<_>>(), t.char_indices().collect::<Vec<_>>())?;
    let bounds: Vec<usize> = t.char_indices().map(|x| x.0).chain(Some(t.len())).collect();
    for _ in 0..6 {
        let (i, j) = range(r, bounds.len() - 1);
        let sub = if r.chance(1, 3) { r.string(ALPHA, 3) } else { t[bounds[i]..bounds[j]].to_string() };
        eq(&format!("find_substring {:?}", sub), sp.find_substring(&sub[..]), t.find(&sub[..]))?;
        eq(&format!("compare {:?}", sub), sp.compare(&sub[..]), spec_cmp(t, &sub))?;
        let mut pre = t[..bounds[j]].to_string();
        if r.chance(1, 2) { pre += &r.string(ALPHA, 1); }
        eq(&format!("compare {:?}", pre), sp.compare(&pre[..]), spec_cmp(t, &pre))?;
        let up: String = if r.chance(1, 2) { pre.to_uppercase() } else { pre.clone() };
        eq(&format!("compare_no_case {:?}", up), sp.compare_no_case(&up[..]), spec_cmp(&t.to_lowercase(), &up.to_lowercase()))?;
        let n = i;
        eq(&format!("slice_index {}", n), sp.slice_index(n), Some(bounds[n]))?;
        eq("slice_index past the end", sp.slice_index(bounds.len()), None)?;
        let c = r.pick(&['a', 'b', '\n', ' ', 'é', '漢', '😀', 'z', '\\']).clone();
        eq(&format!("position {:?}", c), sp.position(|x| x == c), t.find(c))?;
        eq(&format!("position not {:?}", c), sp.position(|x| x != c), t.find(|x| x != c))?;
        let k = t.find(c).unwrap_or(t.len());
        let (rest, first) = sp.split_at_position(|x| x == c).map_err(|_| "split_at_position failed".to_string())?;
        eq("split rest", rest.into_string(), t[k..].to_string())?;
        eq("split first", first.into_string(), t[..k].to_string())?;
        eq("split offset", sp.offset(&rest), k)?;
        match sp.split_at_position1(|x| x == c, nom::ErrorKind::Custom(1)) {
            Ok((rest, first)) => {
                if k == 0 { return Err("split_at_position1 accepted an empty match".into()); }
                eq("split1 rest", rest.into_string(), t[k..].to_string())?;
                eq("split1 first", first.into_string(), t[..k].to_string())?;
                eq("split1 offset", sp.offset(&rest), k)?;
            }
            Err(nom::Err::Error(_)) => { if k != 0 { return Err("split_at_position1 rejected a non-empty match".into()); } }
            Err(_) => return Err("split_at_position1 unexpected error".into()),
        }
        eq("take", sp.take(bounds[i]).into_string(), t[..bounds[i]].to_string())?;
        let (rest, first) = sp.take_split(bounds[i]);
        eq("take_split rest", rest.into_string(), t[bounds[i]..].to_string())?;
        eq("take_split first", first.into_string(), t[..bounds[i]].to_string())?;
        eq("take_split offset", sp.offset(&rest), bounds[i])?;
        let s2 = sp.slice(bounds[i]..bounds[j]);
        eq("slice", s2.into_string(), t[bounds[i]..bounds[j]].to_string())?;
        eq("offset of slice", sp.offset(&s2), bounds[i])?;
        let s3 = s2.slice(s2.len()..);
        eq("offset of the end of a slice", sp.offset(&s3), bounds[j])?;
        let (rest2, _) = s2.split_at_position(|_| false).map_err(|_| "split failed".to_string())?;
        eq("offset of the remainder of a slice", sp.offset(&rest2), bounds[j])?;
    }
    Ok(())
}

pub fn nom_case(r: &mut Rng) -> impl FnOnce() -> Result<(), String> {
    let seed = r.next();
    move || {
        let mut r = Rng(seed);
        let mut w = World::new();
        let mut pool: Vec<M> = vec![];
        for _ in 0..1 + r.below(4) {
            let m = build(&mut r, &mut w, &pool);
            let t = text(&m.flat);
            let res: Result<(), String> = (|| {
                check_ops(&mut r, m.block.span(), &t)?;
                let (a, b) = range(&mut r, m.flat.len());
                let (a, b) = (cut(&m.flat, a), cut(&m.flat, b));
                check_ops(&mut r, m.block.span().slice(a..b), &t[a..b])
            })();
            if let Err(e) = res { return Err(format!("{} in {}", e, m.how)); }
            pool.push(m);
        }
        Ok(())
    }
}

/// Exhaustive: every way to cut a short text into constants, every short needle
pub fn nom_exhaustive(c: &mut Ctx) {
    let texts = ["", "a", "é", "ab", "aé", "éa", "aab", "abab", "aéb", "ééa", "a漢a", "😀a", "aaaab", "abaabé"];
    let needles = ["", "a", "b", "é", "ab", "aa", "ba", "éa", "aé", "aab", "漢", "😀", "abc", "aaab", "baa", "abé"];
    let w = World::new();
    for t in texts.iter() {
        let bounds: Vec<usize> = t.char_indices().map(|x| x.0).collect();
        let n = bounds.len();
        for mask in 0..(1usize << n.saturating_sub(1)) {
            let mut parts = vec![];
            let mut last = 0;
            for k in 1..n { if mask >> (k - 1) & 1 == 1 { parts.push(&t[last..bounds[k]]); last = bounds[k]; } }
            parts.push(&t[last..]);
            let input = format!("parts {:?}", parts);
            let ok = c.case(&input, !t.is_empty(), || {
                let mut b = Block::default();
                for p in &parts { b.push(evaluated::constant(located(w.loc(&Pos::Src(0, 1, 1)), p.to_string()))); }
                for i in 0..=n { for j in i..=n {
                    let bi = if i < n { bounds[i] } else { t.len() };
                    let bj = if j < n { bounds[j] } else { t.len() };
                    let sp = b.span().slice(bi..bj);
                    let s = &t[bi..bj];
                    eq("text", sp.into_string(), s.to_string())?;
                    for nd in needles.iter() {
                        eq(&format!("find {:?} in {:?}", nd, s), sp.find_substring(nd), s.find(nd))?;
                        eq(&format!("compare {:?} with {:?}", s, nd), sp.compare(nd), spec_cmp(s, nd))?;
                    }
                } }
                Ok(())
            });
            if !ok { return; }
        }
    }
}

// ---------------------------------------------------------------- C03

fn spec_ord(a: &Pos, b: &Pos) -> Option<std::cmp::Ordering> {
    match (a, b) {
        (Pos::Syn, Pos::Syn) => Some(std::cmp::Ordering::Equal),
        (Pos::Src(f, l, c), Pos::Src(g, m, d)) | (Pos::Eval(f, l, c), Pos::Eval(g, m, d)) =>
            if f != g { None } else { Some((l, c).cmp(&(m, d))) },
        _ => None,
    }
}

pub fn order(c: &mut Ctx) {
    let mut w = World::new();
    // a distinct but equal evaluation tree
    let twin = Arc::new((*w.trees[0]).clone());
    w.trees.push(twin);
    let mut ps = vec![Pos::Syn];
    let lim = 4;
    for f in 0..2 { for l in 1..lim { for k in 1..lim { ps.push(Pos::Src(f, l, k)); ps.push(Pos::Eval(f, l, k)); } } }
    let mut r = Rng::new(c.seed);
    for _ in 0..c.n(60, 400) {
        let l = r.next() as u32 >> r.below(31);
        let k = r.next() as u32 >> r.below(31);
        ps.push(Pos::Src(r.below(2), l, k));
        ps.push(Pos::Eval(r.below(2), l, k));
    }
    for a in &ps { for b in &ps {
        let input = format!("{:?} vs {:?}", a, b);
        let ok = c.case(&input, a != b, || {
            let (la, lb) = (w.loc(a), w.loc(b));
            let want = spec_ord(a, b);
            eq("partial_cmp", la.partial_cmp(&lb), want)?;
            eq("reverse partial_cmp", lb.partial_cmp(&la), want.map(|o| o.reverse()))?;
            eq("equality", la == lb, a == b)?;
            let (sa, sb) = (located(la.clone(), "x".into()), located(lb.clone(), "y".into()));
            eq("located text", sa.partial_cmp(&sb), want)?;
            if let (Pos::Eval(0, l, k), Pos::Eval(g, ..)) = (a, b) {
                // the same positions through a distinct block with equal content
                let l2 = w.loc(&Pos::Eval(2, *l, *k));
                eq("equal evaluation trees", l2.partial_cmp(&lb), if *g == 0 { want } else { None })?;
            }
            Ok(())
        });
        if !ok { return; }
    } }
}

// ---------------------------------------------------------------- C17

pub fn names(c: &mut Ctx) {
    let mut r = Rng::new(c.seed);
    let n = c.n(3000, 60000);
    for _ in 0..n {
        let mut ops: Vec<(u8, String)> = vec![];
        for _ in 0..1 + r.below(24) { ops.push((r.below(5) as u8, r.string(&["a", "b", "c", "é", " ", "/", "."], 3))); }
        let input = format!("{:?}", ops);
        let ok = c.case(&input, ops.len() > 3, || {
            let mut nc = NameCache::default();
            let mut files: Vec<(String, FileName)> = vec![];
            let mut vars: Vec<(String, hastur::VariableName)> = vec![];
            for (op, s) in &ops {
                match op {
                    0 | 1 => {
                        let id = nc.intern_file_name(s.clone());
                        match files.iter().find(|x| x.0 == *s) {
                            Some(x) => eq("same file name again", id == x.1, true)?,
                            None => { eq("fresh file name", files.iter().all(|x| x.1 != id), true)?; files.push((s.clone(), id)); }
                        }
                    }
                    2 | 3 => {
                        let id = nc.intern_variable_name(s.clone());
                        match vars.iter().find(|x| x.0 == *s) {
                            Some(x) => eq("same variable name again", id == x.1, true)?,
                            None => { eq("fresh variable name", vars.iter().all(|x| x.1 != id), true)?; vars.push((s.clone(), id)); }
                        }
                    }
                    _ => {
                        eq("file lookup", nc.file_name(s), files.iter().find(|x| x.0 == *s).map(|x| x.1))?;
                        eq("variable lookup", nc.variable_name(s), vars.iter().find(|x| x.0 == *s).map(|x| x.1))?;
                    }
                }
                for (t, id) in &files {
                    eq("resolve file name", nc.resolve_file_name(*id), Some(&t[..]))?;
                    eq("look up file name", nc.file_name(t), Some(*id))?;
                }
                for (t, id) in &vars { eq("look up variable name", nc.variable_name(t), Some(*id))?; }
            }
            Ok(())
        });
        if !ok { return; }
    }
}

// ---------------------------------------------------------------- C16

pub mod visitors {
    use super::*;
    use hastur::ast::visit::{MutVisitor, Visitor};
    use hastur::ast::{AstChildren, AstNode};
    use hastur::source_location::LocatedString;

    pub fn gen(r: &mut Rng, depth: usize, counter: &mut usize) -> (AstNode, Vec<String>) {
        *counter += 1;
        let id = *counter;
        let l = Location::Synthetic;
        let k = if depth == 0 { r.below(3) } else { r.below(9) };
        match k {
            0 => (ast::empty(), vec!["ast".into(), "empty".into()]),
            1 => (ast::constant(located(l, format!("c{}", id))), vec!["ast".into(), format!("const c{}", id)]),
            2 => {
                let mut b = Block::default();
                b.push(evaluated::constant(located(Location::Synthetic, format!("p{}", id))));
                (ast::preevaluated(l, Arc::new(b)), vec!["ast".into(), format!("pre p{}", id)])
            }
            3 => {
                // two or more non-empty children, so that the node is not collapsed
                let mut ch = vec![];
                let mut ev = vec!["ast".to_string()];
                let n = 2 + r.below(3);
                let mut sub = vec![];
                while ch.len() < n {
                    let (a, e) = gen(r, depth - 1, counter);
                    if let AstChildren::Empty = a.children() { continue; }
                    ch.push(a);
                    sub.extend(e);
                }
                ev.push(format!("concat {}", n));
                ev.extend(sub);
                (ast::collapsing_concat(l, ch), ev)
            }
            4 => { let (a, e) = gen(r, depth - 1, counter); (ast::variable_reference(l, a), chain("var", e)) }
            5 => { let (a, e) = gen(r, depth - 1, counter); (ast::eval(l, a), chain("eval", e)) }
            6 => { let (a, e) = gen(r, depth - 1, counter); (ast::strip(l, a), chain("strip", e)) }
            7 => { let (a, e) = gen(r, depth - 1, counter); (ast::words(l, a), chain("words", e)) }
            _ => {
                let (a, e) = gen(r, depth - 1, counter);
                let (b, f) = gen(r, depth - 1, counter);
                let mut ev = chain("word", e);
                ev.extend(f);
                (ast::word(l, a, b), ev)
            }
        }
    }
    fn chain(n: &str, e: Vec<String>) -> Vec<String> {
        let mut v = vec!["ast".to_string(), n.to_string()];
        v.extend(e);
        v
    }

    struct R(Vec<String>);
    impl<'n> Visitor<'n> for R {
        fn visit_ast(&mut self, a: &'n AstNode) { self.0.push("ast".into()); self.super_ast(a) }
        fn visit_empty(&mut self) { self.0.push("empty".into()); self.super_empty() }
        fn visit_constant(&mut self, c: &'n LocatedString) { self.0.push(format!("const {}", &**c)); self.super_constant(c) }
        fn visit_pre_evaluated(&mut self, b: &'n Arc<Block>) { self.0.push(format!("pre {}", b.into_string())); self.super_pre_evaluated(b) }
        fn visit_concat(&mut self, v: &'n Vec<AstNode>) { self.0.push(format!("concat {}", v.len())); self.super_concat(v) }
        fn visit_variable_reference(&mut self, a: &'n AstNode) { self.0.push("var".into()); self.super_variable_reference(a) }
        fn visit_eval(&mut self, a: &'n AstNode) { self.0.push("eval".into()); self.super_eval(a) }
        fn visit_strip(&mut self, a: &'n AstNode) { self.0.push("strip".into()); self.super_strip(a) }
        fn visit_word(&mut self, a: &'n AstNode, b: &'n AstNode) { self.0.push("word".into()); self.super_word(a, b) }
        fn visit_words(&mut self, a: &'n AstNode) { self.0.push("words".into()); self.super_words(a) }
    }
    /// Overrides nothing but the leaves: recursion is all in the defaults
    struct Leaves(Vec<String>);
    impl<'n> Visitor<'n> for Leaves {
        fn visit_empty(&mut self) { self.0.push("empty".into()); }
        fn visit_constant(&mut self, c: &'n LocatedString) { self.0.push(format!("const {}", &**c)); }
        fn visit_pre_evaluated(&mut self, b: &'n Arc<Block>) { self.0.push(format!("pre {}", b.into_string())); }
    }
    struct W(Vec<String>, usize);
    impl<'n> MutVisitor<'n> for W {
        fn visit_ast(&mut self, a: &'n mut AstNode) { self.0.push("ast".into()); self.super_ast(a) }
        fn visit_empty(&mut self) { self.0.push("empty".into()); self.super_empty() }
        fn visit_constant(&mut self, c: &'n mut LocatedString) {
            self.0.push(format!("const {}", &**c));
            self.1 += 1;
            *c = located(Location::Synthetic, format!("new{}", self.1));
            self.super_constant(c)
        }
        fn visit_pre_evaluated(&mut self, b: &'n mut Arc<Block>) { self.0.push(format!("pre {}", b.into_string())); self.super_pre_evaluated(b) }
        fn visit_concat(&mut self, v: &'n mut Vec<AstNode>) { self.0.push(format!("concat {}", v.len())); self.super_concat(v) }
        fn visit_variable_reference(&mut self, a: &'n mut AstNode) { self.0.push("var".into()); self.super_variable_reference(a) }
        fn visit_eval(&mut self, a: &'n mut AstNode) { self.0.push("eval".into()); self.super_eval(a) }
        fn visit_strip(&mut self, a: &'n mut AstNode) { self.0.push("strip".into()); self.super_strip(a) }
        fn visit_word(&mut self, a: &'n mut AstNode, b: &'n mut AstNode) { self.0.push("word".into()); self.super_word(a, b) }
        fn visit_words(&mut self, a: &'n mut AstNode) { self.0.push("words".into()); self.super_words(a) }
    }
    struct WLeaves(Vec<String>);
    impl<'n> MutVisitor<'n> for WLeaves {
        fn visit_empty(&mut self) { self.0.push("empty".into()); }
        fn visit_constant(&mut self, c: &'n mut LocatedString) { self.0.push(format!("const {}", &**c)); }
        fn visit_pre_evaluated(&mut self, b: &'n mut Arc<Block>) { self.0.push(format!("pre {}", b.into_string())); }
    }

    pub fn run(c: &mut Ctx) {
        let mut r = Rng::new(c.seed);
        for i in 0..c.n(6000, 200000) {
            let mut counter = 0;
            let (mut node, want) = gen(&mut r, 1 + (i / 1000).min(4), &mut counter);
            let input = want.join(" ");
            let ok = c.case(&input, counter > 1, || {
                let mut v = R(vec![]);
                v.visit_ast(&node);
                eq("visitor", v.0, want.clone())?;
                let leaves: Vec<String> = want.iter().filter(|x| *x == "empty" || x.starts_with("const") || x.starts_with("pre")).cloned().collect();
                let mut v = Leaves(vec![]);
                v.visit_ast(&node);
                eq("default recursion", v.0, leaves.clone())?;
                let mut v = WLeaves(vec![]);
                v.visit_ast(&mut node);
                eq("default mutable recursion", v.0, leaves)?;
                let mut w = W(vec![], 0);
                w.visit_ast(&mut node);
                eq("mutable visitor", w.0, want.clone())?;
                let mut k = 0;
                let renamed: Vec<String> = want.iter().map(|x| if x.starts_with("const ") { k += 1; format!("const new{}", k) } else { x.clone() }).collect();
                let mut v = R(vec![]);
                v.visit_ast(&node);
                eq("after a rewrite", v.0, renamed)
            });
            if !ok { return; }
        }
    }
}
