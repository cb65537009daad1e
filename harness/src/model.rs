//! Independent reference semantics for the makefile subset the properties talk
//! about: structured programs, a printer, and an evaluator over flat strings.
use crate::util::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum Style { Paren, Brace, Single }

#[derive(Clone, Debug, PartialEq)]
pub enum P {
    Lit(String),
    Dollar,
    Ref(Expr, Style),
    Sub { name: Expr, key: Expr, repl: Expr, style: Style },
    /// `$(eval ...)`: the statements its text amounts to, and how that text is written
    Eval(Vec<Stmt>, EvalText),
    /// already expanded text, with what it was computed from
    Pre(String, BTreeSet<String>),
}
pub type Expr = Vec<P>;

#[derive(Clone, Debug, PartialEq)]
pub enum EvalText {
    /// the statements themselves, with every dollar doubled
    Quoted,
    /// a single assignment whose value is expanded before the text is read
    Immediate,
    /// a reference to a variable that holds the (doubled) statements
    Via(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op { Rec, Simple, Simple2, Cond, Append }

#[derive(Clone, Debug, PartialEq)]
pub enum Stmt {
    Assign { name: Expr, op: Op, value: Expr },
    Rule { targets: Expr, double: bool, deps: Expr, inline: Option<Expr> },
    Recipe(Expr),
    Cond { neg: bool, form: u8, a: Expr, b: Expr, then: Vec<Stmt>, els: Option<Vec<Stmt>> },
    Define { name: String, head: String, body: Vec<Expr>, indent: String },
    Raw(String),
}

pub fn lit(s: &str) -> Expr { if s.is_empty() { vec![] } else { vec![P::Lit(s.to_string())] } }
pub fn var(s: &str) -> P { P::Ref(lit(s), Style::Paren) }

pub fn print(e: &Expr) -> String {
    let mut o = String::new();
    for p in e {
        match p {
            P::Lit(s) => o += s,
            P::Dollar => o += "$$",
            P::Ref(n, Style::Paren) => o += &format!("$({})", print(n)),
            P::Ref(n, Style::Brace) => o += &format!("${{{}}}", print(n)),
            P::Ref(n, Style::Single) => o += &format!("${}", print(n)),
            P::Sub { name, key, repl, style: Style::Brace } => o += &format!("${{{}:{}={}}}", print(name), print(key), print(repl)),
            P::Sub { name, key, repl, .. } => o += &format!("$({}:{}={})", print(name), print(key), print(repl)),
            // only single-statement programs are printed inline
            P::Eval(s, how) => match how {
                EvalText::Quoted => { let mut t = String::new(); print_stmts(s, &mut t); o += &format!("$(eval {})", t.trim_end_matches('\n').replace('$', "$$")); }
                EvalText::Immediate => { let mut t = String::new(); print_stmts(s, &mut t); o += &format!("$(eval {})", t.trim_end_matches('\n')); }
                EvalText::Via(n) => o += &format!("$(eval $({}))", n),
            },
            P::Pre(..) => panic!("not printable"),
        }
    }
    o
}

pub fn print_stmts(ss: &[Stmt], o: &mut String) {
    for s in ss {
        match s {
            Stmt::Assign { name, op, value } => {
                let op = match op { Op::Rec => "=", Op::Simple => ":=", Op::Simple2 => "::=", Op::Cond => "?=", Op::Append => "+=" };
                *o += &format!("{} {} {}\n", print(name), op, print(value));
            }
            Stmt::Rule { targets, double, deps, inline } => {
                *o += &print(targets);
                *o += if *double { "::" } else { ":" };
                let d = print(deps);
                if !d.is_empty() { *o += " "; *o += &d; }
                if let Some(c) = inline { *o += ";"; *o += &print(c); }
                *o += "\n";
            }
            Stmt::Recipe(e) => { *o += "\t"; *o += &print(e); *o += "\n"; }
            Stmt::Cond { neg, form, a, b, then, els } => {
                let kw = if *neg { "ifneq" } else { "ifeq" };
                match form {
                    0 => *o += &format!("{} ({},{})\n", kw, print(a), print(b)),
                    1 => *o += &format!("{} \"{}\" \"{}\"\n", kw, print(a), print(b)),
                    2 => *o += &format!("{} '{}' '{}'\n", kw, print(a), print(b)),
                    3 => *o += &format!("{} \"{}\" '{}'\n", kw, print(a), print(b)),
                    4 => *o += &format!("  {} (  {} , {}  )\n", kw, print(a), print(b)),
                    _ => *o += &format!("{} '{}' \"{}\"\n", kw, print(a), print(b)),
                }
                print_stmts(then, o);
                if let Some(e) = els { *o += "else\n"; print_stmts(e, o); }
                *o += "endif\n";
            }
            Stmt::Define { head, body, indent, .. } => {
                *o += head;
                for l in body { *o += &print(l); }
                *o += indent;
                *o += "endef\n";
            }
            Stmt::Raw(s) => *o += s,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Var { pub simple: bool, pub value: Expr }

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Rule { pub deps: Vec<String>, pub recipe: Vec<Expr> }

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Env {
    pub vars: BTreeMap<String, Var>,
    pub rules: BTreeMap<String, Rule>,
    /// the rule whose recipe is still being read: targets, prerequisites, commands
    pub open: Option<(Vec<String>, Vec<String>, Vec<Expr>)>,
}

pub struct TooDeep;
type R<T> = Result<T, TooDeep>;

pub fn subst_word(w: &str, key: &str, repl: &str) -> String {
    let (kpre, kpost, keypct) = match find_pct(key) { Some((a, b)) => (a, b, true), None => (String::new(), key.to_string(), false) };
    if !keypct {
        // suffix form: the replacement is taken literally
        return match w.strip_suffix(&unquote_all(key)[..]) { Some(s) => format!("{}{}", s, repl), None => w.to_string() };
    }
    if w.len() >= kpre.len() + kpost.len() && w.starts_with(&kpre[..]) && w.ends_with(&kpost[..]) {
        let stem = &w[kpre.len()..w.len() - kpost.len()];
        match find_pct(repl) { Some((a, b)) => format!("{}{}{}", a, stem, b), None => unquote_all(repl) }
    } else { w.to_string() }
}

/// First unquoted %: (text before with quoting removed, text after untouched)
pub fn find_pct(s: &str) -> Option<(String, String)> {
    let cs: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\\' {
            let mut j = i;
            while j < cs.len() && cs[j] == '\\' { j += 1; }
            let n = j - i;
            if j < cs.len() && cs[j] == '%' {
                for _ in 0..n / 2 { out.push('\\'); }
                if n % 2 == 0 { return Some((out, cs[j + 1..].iter().collect())); }
                out.push('%');
                i = j + 1;
            } else {
                for _ in 0..n { out.push('\\'); }
                i = j;
            }
        } else if cs[i] == '%' {
            return Some((out, cs[i + 1..].iter().collect()));
        } else { out.push(cs[i]); i += 1; }
    }
    None
}
/// Quoting removed from every quoted % of a text without an unquoted one
pub fn unquote_all(s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\\' {
            let mut j = i;
            while j < cs.len() && cs[j] == '\\' { j += 1; }
            let n = j - i;
            if j < cs.len() && cs[j] == '%' { for _ in 0..n / 2 { out.push('\\'); } } else { for _ in 0..n { out.push('\\'); } }
            i = j;
        } else { out.push(cs[i]); i += 1; }
    }
    out
}

pub fn words(s: &str) -> Vec<&str> { s.split(|c| c == ' ' || c == '\t').filter(|w| !w.is_empty()).collect() }

impl Env {
    pub fn eval(&mut self, e: &Expr, depth: usize) -> R<(String, BTreeSet<String>)> {
        if depth > 40 { return Err(TooDeep); }
        let mut out = String::new();
        let mut sens = BTreeSet::new();
        for p in e {
            match p {
                P::Lit(s) => out += s,
                P::Dollar => out += "$",
                P::Pre(s, v) => { out += s; sens.extend(v.iter().cloned()); }
                P::Ref(n, _) => {
                    let (name, s) = self.eval(n, depth + 1)?;
                    sens.extend(s);
                    let (v, s) = self.lookup(&name, depth)?;
                    sens.extend(s);
                    out += &v;
                }
                P::Sub { name, key, repl, .. } => {
                    let (name, s) = self.eval(name, depth + 1)?;
                    sens.extend(s);
                    let (key, s) = self.eval(key, depth + 1)?;
                    sens.extend(s);
                    let (repl, s) = self.eval(repl, depth + 1)?;
                    sens.extend(s);
                    let (v, s) = self.lookup(&name, depth)?;
                    sens.extend(s);
                    out += &words(&v).iter().map(|w| subst_word(w, &key, &repl)).collect::<Vec<_>>().join(" ");
                }
                P::Eval(ss, how) => match how {
                    EvalText::Quoted => self.file(ss, depth + 1)?,
                    EvalText::Via(n) => { sens.insert(n.clone()); self.file(ss, depth + 1)? }
                    EvalText::Immediate => {
                        for s in ss {
                            if let Stmt::Assign { name, op, value } = s {
                                let (n, s1) = self.eval(name, depth + 1)?;
                                let (v, s2) = self.eval(value, depth + 1)?;
                                sens.extend(s1);
                                sens.extend(s2);
                                if v.contains('$') || v.contains('\n') || v.ends_with('\\') || n.chars().any(|c| " \t$=:?+!\\".contains(c)) { return Err(TooDeep); }
                                let v = v.trim_start_matches(|c| c == ' ' || c == '\t').to_string();
                                self.assign(&n, op, &lit(&v), depth + 1)?;
                            }
                        }
                    }
                },
            }
            if out.len() > 20000 { return Err(TooDeep); }
        }
        Ok((out, sens))
    }
    fn lookup(&mut self, name: &str, depth: usize) -> R<(String, BTreeSet<String>)> {
        // a computed name of the form a:b=c is a substitution reference: not modelled
        if let Some(i) = name.find(':') { if name[i..].contains('=') { return Err(TooDeep); } }
        let (v, mut s) = match self.vars.get(name).cloned() {
            Some(v) => self.eval(&v.value, depth + 1)?,
            None => (String::new(), BTreeSet::new()),
        };
        s.insert(name.to_string());
        Ok((v, s))
    }
    pub fn assign(&mut self, name: &str, op: &Op, value: &Expr, depth: usize) -> R<()> {
        match op {
            Op::Rec => { self.vars.insert(name.into(), Var { simple: false, value: value.clone() }); }
            Op::Simple | Op::Simple2 => {
                let (t, s) = self.eval(value, depth + 1)?;
                self.vars.insert(name.into(), Var { simple: true, value: vec![P::Pre(t, s)] });
            }
            Op::Cond => if !self.vars.contains_key(name) {
                self.vars.insert(name.into(), Var { simple: false, value: value.clone() });
            },
            Op::Append => {
                let add = if self.vars.get(name).map_or(false, |v| v.simple) { let (t, s) = self.eval(value, depth + 1)?; vec![P::Pre(t, s)] } else { value.clone() };
                match self.vars.get(name).cloned() {
                    None => { self.vars.insert(name.into(), Var { simple: false, value: value.clone() }); }
                    Some(mut v) => {
                        v.value.push(P::Lit(" ".into()));
                        v.value.extend(add);
                        self.vars.insert(name.into(), v);
                    }
                }
            }
        }
        Ok(())
    }
    pub fn close(&mut self) {
        if let Some((ts, deps, rec)) = self.open.take() {
            for t in ts {
                if rec.is_empty() {
                    self.rules.entry(t).or_default().deps.extend(deps.iter().cloned());
                } else {
                    self.rules.insert(t, Rule { deps: deps.clone(), recipe: rec.clone() });
                }
            }
        }
    }
    /// A complete text of its own: a file, or the argument of an eval
    pub fn file(&mut self, ss: &[Stmt], depth: usize) -> R<()> {
        let open = self.open.take();
        self.run(ss, depth)?;
        self.close();
        self.open = open;
        Ok(())
    }
    fn run(&mut self, ss: &[Stmt], depth: usize) -> R<()> {
        if depth > 40 { return Err(TooDeep); }
        for s in ss {
            match s {
                Stmt::Assign { name, op, value } => {
                    let (n, _) = self.eval(name, depth + 1)?;
                    self.assign(n.trim(), op, value, depth)?;
                    self.close();
                }
                Stmt::Rule { targets, deps, inline, .. } => {
                    let (t, _) = self.eval(targets, depth + 1)?;
                    let (d, _) = self.eval(deps, depth + 1)?;
                    self.close();
                    let own = |s: &str| words(s).iter().map(|x| x.to_string()).collect::<Vec<_>>();
                    self.open = Some((own(&t), own(&d), inline.iter().cloned().collect()));
                }
                Stmt::Recipe(e) => match &mut self.open {
                    Some(o) => o.2.push(e.clone()),
                    None => return Err(TooDeep),
                },
                Stmt::Cond { neg, a, b, then, els, .. } => {
                    let (x, _) = self.eval(a, depth + 1)?;
                    let (y, _) = self.eval(b, depth + 1)?;
                    if (x.trim() == y.trim()) != *neg { self.run(then, depth)?; } else if let Some(e) = els { self.run(e, depth)?; }
                }
                Stmt::Define { name, body, .. } => {
                    let mut v = vec![];
                    for l in body { v.extend(l.iter().cloned()); }
                    self.vars.insert(name.clone(), Var { simple: false, value: v });
                    self.close();
                }
                Stmt::Raw(_) => {}
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------- generators

pub const NAMES: &[&str] = &["a", "b", "c", "d", "e", "long_name", "x.y", "é"];

pub struct G<'r> { pub r: &'r mut Rng, pub alpha: Vec<&'static str>, pub subs: bool, pub evals: bool }

impl<'r> G<'r> {
    pub fn name_lit(&mut self, low: usize) -> String { let n = NAMES.len(); NAMES[low + self.r.below(n - low)].to_string() }
    /// An expression that only refers to names at index >= low (or to computed names)
    pub fn expr(&mut self, low: usize, depth: usize, max: usize) -> Expr {
        let n = self.r.below(max + 1);
        let mut e = vec![];
        for _ in 0..n {
            match self.r.below(10) {
                0..=3 => { let a = self.alpha.clone(); let s = self.r.string(&a, 4); if !s.is_empty() { e.push(P::Lit(s)); } }
                4 => e.push(P::Dollar),
                5 if self.subs && low < NAMES.len() && depth > 0 => {
                    let name = lit(&self.name_lit(low));
                    let (k, r) = (self.pat(), self.pat());
                    e.push(P::Sub { name, key: lit(&k), repl: lit(&r), style: if self.r.chance(1, 4) { Style::Brace } else { Style::Paren } });
                }
                _ if low < NAMES.len() => {
                    if depth > 0 && self.r.chance(1, 4) {
                        // computed name
                        let mut n = vec![var(&self.name_lit(low))];
                        if self.r.chance(1, 2) { n.push(P::Lit(self.r.pick(&["x", "_", "a"]).to_string())); }
                        let st = if self.r.chance(1, 3) { Style::Brace } else { Style::Paren };
                        e.push(P::Ref(n, st));
                    } else {
                        let n = self.name_lit(low);
                        let st = match self.r.below(4) { 0 => Style::Brace, 1 if n.chars().count() == 1 => Style::Single, _ => Style::Paren };
                        e.push(P::Ref(lit(&n), st));
                    }
                }
                _ => { let a = self.alpha.clone(); let s = self.r.string(&a, 3); if !s.is_empty() { e.push(P::Lit(s)); } }
            }
        }
        e
    }
    pub fn pat(&mut self) -> String {
        match self.r.below(6) {
            0 => String::new(),
            1 => self.r.string(&["a", ".c", "é", "%"], 2),
            2 => format!("%{}", self.r.string(&["a", ".c", "é"], 2)),
            3 => format!("{}%{}", self.r.string(&["a", "l", "é"], 2), self.r.string(&["a", ".c"], 2)),
            4 => self.r.string(&["\\%", "a", "\\", "%", "\\\\%"], 3),
            _ => self.r.string(&[".c", ".o", "a"], 2),
        }
    }
}

/// Strip leading blanks of the printed form by dropping leading blank literals
pub fn fix_lead(e: Expr) -> Expr {
    let mut out: Expr = vec![];
    for p in e {
        if out.is_empty() {
            if let P::Lit(s) = &p {
                let t = s.trim_start_matches(|c| c == ' ' || c == '\t');
                if !t.is_empty() { out.push(P::Lit(t.into())); }
                continue;
            }
        }
        out.push(p);
    }
    out
}
/// Drop a trailing run of backslashes from the printed form
pub fn fix_tail(mut e: Expr) -> Expr {
    while let Some(P::Lit(s)) = e.last() {
        let t = s.trim_end_matches('\\').to_string();
        e.pop();
        if !t.is_empty() { e.push(P::Lit(t)); break; }
    }
    e
}
