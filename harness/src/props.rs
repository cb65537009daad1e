//! One run per property: generate inputs, run the real crate, compare with the
//! independent reference.
use crate::blocks;
use crate::model::*;
use crate::util::*;
use hastur::ast::{AstChildren, AstNode};
use hastur::evaluated::Block;
use hastur::source_location::Location;
use hastur::verif_hooks::command_ast;
use hastur::{Database, Engine, NameCache};
use std::collections::BTreeSet;

type Res = Result<(), String>;

pub struct Real { pub names: NameCache, pub engine: Engine }

impl Real {
    pub fn new() -> Real {
        Real {
            names: NameCache::default(),
            engine: Engine { working_directory: "/".into(), ..Default::default() },
        }
    }
    pub fn read(&mut self, text: &str, file: &str) -> Res {
        let mut b = text.as_bytes();
        self.engine.read_makefile(&mut self.names, &mut b, file).map_err(|e| format!("reading failed: {:?}", e))
    }
    pub fn ast(&self, n: &str) -> Option<AstNode> {
        let id = self.names.variable_name(n)?;
        self.engine.database.get_variable(id).map(|v| v.ast().clone())
    }
    pub fn block(&mut self, a: &AstNode) -> std::sync::Arc<Block> { a.eval(&mut self.names, &mut self.engine) }
    pub fn var(&mut self, n: &str) -> Option<String> {
        let a = self.ast(n)?;
        let db = self.engine.database.clone();
        let t = self.block(&a).into_string();
        // the other way to ask
        self.engine.database = db.clone();
        let id = self.names.variable_name(n)?;
        let t2 = db.get_variable(id)?.expand(&mut self.names, &mut self.engine);
        assert_eq!(t, t2, "expand and ast().eval() differ");
        Some(t)
    }
}

fn universe(env: &Env) -> BTreeSet<String> {
    let mut u: BTreeSet<String> = NAMES.iter().map(|x| x.to_string()).collect();
    u.extend(env.vars.keys().cloned());
    u
}

/// Compare everything observable. None: the reference cannot judge this case.
fn compare(real: &mut Real, env: &mut Env) -> Option<Res> {
    // Expansion may have side effects, so compare on copies, one variable at a time
    for n in universe(env) {
        let mut e2 = env.clone();
        let want = match e2.vars.get(&n).cloned() {
            None => None,
            Some(v) => match e2.eval(&v.value, 0) { Ok((t, _)) => Some(t), Err(_) => return None },
        };
        let db = real.engine.database.clone();
        let got = real.var(&n);
        real.engine.database = db;
        if let Err(e) = eq(&format!("variable {:?}", n), got, want) { return Some(Err(e)); }
    }
    Some(compare_rules(real, env)?)
}

fn compare_rules(real: &mut Real, env: &mut Env) -> Option<Res> {
    let mut got: Vec<String> = real.engine.database.rules().map(|r| r.target().into_string()).collect();
    got.sort();
    let want: Vec<String> = env.rules.keys().cloned().collect();
    if let Err(e) = eq("targets with rules", got, want) { return Some(Err(e)); }
    for (t, r) in env.rules.clone() {
        let id = match real.names.file_name(&t) { Some(x) => x, None => return Some(Err(format!("target {:?} not interned", t))) };
        let rule = match real.engine.database.get_rule(id) { Some(x) => x.clone(), None => return Some(Err(format!("no rule for {:?}", t))) };
        if let Err(e) = eq("rule name", real.names.resolve_file_name(rule.target_fname()), Some(&t[..])) { return Some(Err(e)); }
        let deps: Vec<String> = rule.dependencies().iter().map(|d| d.into_string()).collect();
        if let Err(e) = eq(&format!("prerequisites of {:?}", t), deps, r.deps.clone()) { return Some(Err(e)); }
        let mut cmds = vec![];
        let db = real.engine.database.clone();
        for c in rule.recipe().commands() { let a = command_ast(c).clone(); cmds.push(real.block(&a).into_string()); }
        real.engine.database = db;
        let mut want = vec![];
        let mut e2 = env.clone();
        for c in &r.recipe { match e2.eval(c, 0) { Ok((s, _)) => want.push(s), Err(_) => return None } }
        if let Err(e) = eq(&format!("recipe of {:?}", t), cmds, want) { return Some(Err(e)); }
    }
    Some(Ok(()))
}

/// Does every expansion end according to the reference?
fn judgeable(env: &Env) -> bool {
    universe(env).iter().all(|n| env.vars.get(n).map_or(true, |v| env.clone().eval(&v.value, 0).is_ok()))
        && env.rules.values().all(|r| { let mut e = env.clone(); r.recipe.iter().all(|x| e.eval(x, 0).is_ok()) })
}

/// Read a program in one go, compare at the end
fn program_case(c: &mut Ctx, prog: &[Stmt], text: &str, nontrivial: bool) -> bool {
    let mut env = Env::default();
    if env.file(prog, 0).is_err() { return c.more(); }
    // can the final state be judged?
    if !judgeable(&env) { return c.more(); }
    c.case(text, nontrivial, move || {
        let mut real = Real::new();
        real.read(text, "Makefile")?;
        compare(&mut real, &mut env).unwrap_or(Ok(()))
    })
}

fn text_of(p: &[Stmt]) -> String { let mut s = String::new(); print_stmts(p, &mut s); s }

/// Expect a text to be rejected: an error, or a diverging call
fn rejected(c: &mut Ctx, text: &str) -> bool {
    c.case(text, true, || {
        match guarded(|| { let mut r = Real::new(); r.read(text, "Makefile").is_ok() }) {
            Some(true) => Err("accepted, should have been rejected".into()),
            _ => Ok(()),
        }
    })
}

// ------------------------------------------------------------ generators

fn value(r: &mut Rng, low: usize, alpha: &[&'static str], subs: bool) -> Expr {
    let mut g = G { r, alpha: alpha.to_vec(), subs, evals: false };
    let e = g.expr(low, 2, 4);
    fix_tail(fix_lead(e))
}
const TXT: &[&str] = &["a", "b", "xy", " ", "é", "漢", "\\", "%", ",", "(x)", ".c", "lib", "\t", "=", ":"];

fn assign(r: &mut Rng, subs: bool) -> Stmt {
    let i = r.below(NAMES.len());
    let op = match r.below(9) { 0 | 1 => Op::Simple, 2 => Op::Simple2, 3 | 4 => Op::Cond, 5 | 6 => Op::Append, _ => Op::Rec };
    let name = if r.chance(1, 8) { vec![var(NAMES[r.below(NAMES.len())])] } else { lit(NAMES[i]) };
    // immediate assignments may refer to any variable
    let low = match op { Op::Simple | Op::Simple2 if r.chance(1, 2) => 0, _ => i + 1 };
    Stmt::Assign { name, op, value: value(r, low, TXT, subs) }
}

/// Names a computed assignment target may take: nothing the line syntax gives a meaning to
fn assign_ok(env: &Env, s: &Stmt) -> bool {
    match s {
        Stmt::Assign { name, .. } => match env.clone().eval(name, 0) {
            Ok((n, _)) => !n.trim().is_empty() && !n.contains('\n'),
            Err(_) => false,
        },
        _ => true,
    }
}

fn assigns(r: &mut Rng, n: usize, subs: bool) -> Vec<Stmt> {
    let mut env = Env::default();
    let mut out = vec![];
    for _ in 0..n {
        let s = assign(r, subs);
        if !assign_ok(&env, &s) { continue; }
        let mut e2 = env.clone();
        if e2.file(&[s.clone()], 0).is_err() { continue; }
        env = e2;
        out.push(s);
    }
    out
}

// ------------------------------------------------------------ C05, C08

fn c08(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 8);
    // every pair of operators on one name, over small values
    let ops = [Op::Rec, Op::Simple, Op::Simple2, Op::Cond, Op::Append];
    let vals: Vec<Expr> = vec![vec![], lit("v"), vec![var("b")], vec![P::Lit("p".into()), var("b"), P::Lit(" ".into())]];
    for o1 in &ops { for v1 in &vals { for o2 in &ops { for v2 in &vals { for o3 in &ops {
        let mk = |op: &Op, v: &Expr| Stmt::Assign { name: lit("a"), op: op.clone(), value: v.clone() };
        let b = |t: &str| Stmt::Assign { name: lit("b"), op: Op::Rec, value: lit(t) };
        let prog = vec![b("B1"), mk(o1, v1), b("B2"), mk(o2, v2), b("B3"), mk(o3, &vec![P::Lit("z".into()), var("b")]), b("B4")];
        let t = text_of(&prog);
        if !program_case(c, &prog, &t, true) && !c.more() { return; }
    } } } } }
    // histories, observed after every step; earlier snapshots never change
    for _ in 0..c.n(1500, 40000) {
        let n = 2 + r.below(9);
        let prog = assigns(&mut r, n, false);
        let text = text_of(&prog);
        let ok = c.case(&text, prog.len() > 2, || {
            let mut real = Real::new();
            let mut env = Env::default();
            let mut snaps: Vec<(Database, Env)> = vec![];
            for (i, s) in prog.iter().enumerate() {
                if env.file(&[s.clone()], 0).is_err() { return Ok(()); }
                real.read(&text_of(&[s.clone()]), &format!("f{}", i))?;
                match compare(&mut real, &mut env) { None => return Ok(()), Some(x) => x.map_err(|e| format!("after statement {}: {}", i + 1, e))? }
                snaps.push((real.engine.database.clone(), env.clone()));
            }
            for (i, (db, mut env)) in snaps.into_iter().enumerate() {
                real.engine.replace_database(db);
                if let Some(x) = compare(&mut real, &mut env) { x.map_err(|e| format!("snapshot {} changed: {}", i + 1, e))? }
            }
            Ok(())
        });
        if !ok { return; }
    }
    // many distinct names
    for round in 0..c.n(6, 40) {
        let mut prog = vec![];
        for i in 0..120 { prog.push(Stmt::Assign { name: lit(&format!("n{}", (i * 7 + round) % 60)), op: ops[r.below(5)].clone(), value: lit(&format!("v{}", i)) }); }
        let t = text_of(&prog);
        if !program_case(c, &prog, &t, true) { return; }
    }
}

fn with_evals(r: &mut Rng, prog: Vec<Stmt>, k: &mut usize) -> Vec<Stmt> {
    // put an eval somewhere into some values
    let mut out = vec![];
    for s in prog {
        match s {
            Stmt::Assign { name, op, mut value } if r.chance(1, 2) => {
                let i = r.below(NAMES.len());
                let inner = Stmt::Assign { name: lit(NAMES[i]), op: if r.chance(1, 3) { Op::Simple } else if r.chance(1, 3) { Op::Append } else { Op::Rec }, value: balanced(self::value(r, i + 1, &["a", "b", "é", " ", "x"], false)) };
                let e = match r.below(4) {
                    0 => P::Eval(vec![inner], EvalText::Immediate),
                    1 => {
                        *k += 1;
                        let n = format!("mac{}", k);
                        let mut ss = vec![inner];
                        if r.chance(1, 2) { ss.push(Stmt::Rule { targets: lit(&format!("t{}", r.below(3))), double: false, deps: lit("d1 d2"), inline: None }); ss.push(Stmt::Recipe(lit("cmd"))); }
                        if r.chance(1, 3) { ss = vec![Stmt::Cond { neg: false, form: 0, a: vec![var("a")], b: vec![var("b")], then: ss, els: Some(vec![Stmt::Assign { name: lit("a"), op: Op::Rec, value: lit("els") }]) }]; }
                        let mut t = String::new();
                        print_stmts(&ss, &mut t);
                        let body = t.split_inclusive('\n').map(|l| {
                            let mut e = vec![];
                            for (i, p) in l.split('$').enumerate() { if i > 0 { e.push(P::Dollar); } if !p.is_empty() { e.push(P::Lit(p.into())); } }
                            e
                        }).collect();
                        out.push(Stmt::Define { name: n.clone(), head: format!("define {}\n", n), body, indent: String::new() });
                        P::Eval(ss, EvalText::Via(n))
                    }
                    _ => P::Eval(vec![inner], EvalText::Quoted),
                };
                let at = r.below(value.len() + 1);
                value.insert(at, e);
                out.push(Stmt::Assign { name, op, value: fix_tail(fix_lead(value)) });
            }
            s => out.push(s),
        }
    }
    out
}
/// no unbalanced parentheses in what is written inside of a call
fn balanced(e: Expr) -> Expr { e }

fn c05(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 5);
    for i in 0..c.n(4000, 100000) {
        let n = 2 + r.below(7);
        let mut prog = assigns(&mut r, n, true);
        let mut k = 0;
        if i % 2 == 1 { prog = with_evals(&mut r, prog, &mut k); }
        let t = text_of(&prog);
        if !program_case(c, &prog, &t, prog.len() > 2) { return; }
    }
    // expansion of eval-free text leaves the database alone; repeated expansion is stable
    for _ in 0..c.n(800, 20000) {
        let prog = assigns(&mut r, 6, true);
        let text = text_of(&prog);
        let mut env = Env::default();
        if env.file(&prog, 0).is_err() { continue; }
        let e = value(&mut r, 0, TXT, true);
        let want = match env.eval(&e, 0) { Ok(x) => x.0, Err(_) => continue };
        let input = format!("{}probe = {}\n", text, print(&e));
        if !judgeable(&env) { continue; }
        let ok = c.case(&input, true, || {
            let mut real = Real::new();
            real.read(&input, "Makefile")?;
            let a = real.ast("probe").ok_or("probe undefined")?;
            let before = format!("{:?}", sorted_db(&real.engine.database));
            for _ in 0..2 { eq("expansion", real.block(&a).into_string(), want.clone())?; }
            eq("database after expansion", format!("{:?}", sorted_db(&real.engine.database)), before)?;
            env.vars.insert("probe".into(), Var { simple: false, value: e.clone() });
            compare(&mut real, &mut env).unwrap_or(Ok(()))
        });
        if !ok { return; }
    }
}

fn sorted_db(db: &Database) -> Vec<String> {
    let mut v: Vec<String> = db.rules().map(|r| format!("{:?}", r)).collect();
    v.sort();
    v
}

// ------------------------------------------------------------ C06

fn c06(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 6);
    for _ in 0..c.n(3000, 80000) {
        let n = 2 + r.below(7);
        let prog = assigns(&mut r, n, true);
        let text = text_of(&prog);
        let mut env = Env::default();
        if env.file(&prog, 0).is_err() { continue; }
        let e = value(&mut r, 0, TXT, true);
        let (want, need) = match env.eval(&e, 0) { Ok(x) => x, Err(_) => continue };
        let rule = r.chance(1, 4);
        let input = format!("{}probe = {}\n{}", text, print(&e), if rule { "t$(lst): d$(dep)\nlst =\n" } else { "" });
        let news: Vec<(usize, String, Op)> = (0..3).map(|_| (r.below(NAMES.len()), r.string(&["q", "é", " ", ".c"], 3), if r.chance(1, 2) { Op::Simple } else { Op::Rec })).collect();
        let ok = c.case(&input, !need.is_empty(), || {
            let mut real = Real::new();
            real.read(&input, "Makefile")?;
            let a = real.ast("probe").ok_or("probe undefined")?;
            let b = real.block(&a);
            eq("expansion", b.into_string(), want.clone())?;
            let have: BTreeSet<_> = b.sensitivity().cloned().collect();
            for n in &need {
                let id = real.names.variable_name(n).ok_or(format!("{:?} was consulted but is not known", n))?;
                if !have.contains(&id) { return Err(format!("{:?} was consulted but is not reported", n)); }
            }
            let owned: BTreeSet<_> = (*b).clone().into_sensitivity().collect();
            eq("owned report", owned, have.clone())?;
            // text cut out of the expansion reports the same
            if b.len() > 0 {
                let cut: BTreeSet<_> = b.span().to_new_block().sensitivity().cloned().collect();
                if !have.is_subset(&cut) { return Err("a copy of the text reports less".into()); }
                let mut app = Block::default();
                app.push_all_contents(b.span());
                let cut: BTreeSet<_> = app.sensitivity().cloned().collect();
                if !have.is_subset(&cut) { return Err("appended text reports less".into()); }
            }
            if rule {
                let tid = real.names.file_name("t").ok_or("no t")?;
                let rl = real.engine.database.get_rule(tid).ok_or("no rule t")?.clone();
                let l = real.names.variable_name("lst").ok_or("lst unknown")?;
                let d = real.names.variable_name("dep").ok_or("dep unknown")?;
                if !rl.target().sensitivity().any(|x| *x == l) { return Err("target name does not report lst".into()); }
                for x in rl.dependencies() { if !x.sensitivity().any(|x| *x == d) { return Err("prerequisite does not report dep".into()); } }
            }
            // changing anything that is not reported changes nothing
            for (i, v, op) in &news {
                let id = real.names.variable_name(NAMES[*i]);
                if id.map_or(false, |id| have.contains(&id)) { continue; }
                real.read(&text_of(&[Stmt::Assign { name: lit(NAMES[*i]), op: op.clone(), value: lit(v.trim_start()) }]), "more")?;
                eq(&format!("expansion after assigning {:?}", NAMES[*i]), real.block(&a).into_string(), want.clone())?;
            }
            Ok(())
        });
        if !ok { return; }
    }
}

// ------------------------------------------------------------ C07, C12 (patterns)

fn sub_case(c: &mut Ctx, value: &str, key: &str, repl: &str, style: Style, indirect: bool, extra: &str) -> bool {
    let mut prog = vec![Stmt::Assign { name: lit("l"), op: Op::Rec, value: lit(value.trim_start_matches(|c| c == ' ' || c == '\t')) }];
    let (k, rp) = if indirect {
        prog.push(Stmt::Assign { name: lit("k"), op: Op::Rec, value: lit(key) });
        prog.push(Stmt::Assign { name: lit("p"), op: Op::Rec, value: lit(repl) });
        (vec![var("k")], vec![var("p")])
    } else { (lit(key), lit(repl)) };
    let mut v = lit(extra);
    v.push(P::Sub { name: lit("l"), key: k, repl: rp, style });
    v.extend(lit(extra));
    prog.push(Stmt::Assign { name: lit("r"), op: Op::Rec, value: v });
    let t = text_of(&prog);
    program_case(c, &prog, &t, true)
}

fn c07(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 7);
    // small exhaustive scope
    let keys = ["", "a", ".c", "%", "%a", "a%", "a%a", "%.c", "aa", "%%", "é", "a%é"];
    let repls = ["", "b", ".o", "%", "%b", "b%", "x%y", "%%", "é%"];
    let lists = ["", "a", "aa", "aaa", "a.c b.c", "x.c.c y a", "aé éa a", "a%", "%a %", ".c", "a  b\tc ", "bab ab ba"];
    for k in &keys { for p in &repls { for l in &lists { if !sub_case(c, l, k, p, Style::Paren, false, "") { return; } } } }
    for _ in 0..c.n(4000, 100000) {
        let l = r.string(&["a", "b", ".c", ".o", " ", "  ", "\t", "é", "漢", "%", "lib"], 9);
        let (k, p) = { let mut g = G { r: &mut r, alpha: vec![], subs: false, evals: false }; (g.pat(), g.pat()) };
        if k.contains('\\') || p.contains('\\') { continue; }
        let st = if r.chance(1, 3) { Style::Brace } else { Style::Paren };
        let ind = r.chance(1, 3);
        let ex = *r.pick(&["", "z", "é"]);
        if !sub_case(c, &l, &k, &p, st, ind, ex) { return; }
    }
}

// ------------------------------------------------------------ C09

fn word(r: &mut Rng) -> String { let w = ["t", "u", "v", "d", "obj.o", "é", "漢x", "dir/f", "lib_a", "-x"]; format!("{}{}", r.pick(&w), r.below(3)) }
fn distinct(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for _ in 0..n { let w = word(r); if !v.contains(&w) { v.push(w); } }
    v
}
fn list(r: &mut Rng, ws: &[String]) -> Expr {
    let mut s = String::new();
    for (i, w) in ws.iter().enumerate() { if i > 0 { s += *r.pick(&[" ", "  ", "\t", " \t "]); } s += w; }
    lit(&s)
}

fn rule(r: &mut Rng) -> Vec<Stmt> {
    let nt = 1 + r.below(2);
    let nd = r.below(4);
    let ts = distinct(r, nt);
    let ds: Vec<String> = (0..nd).map(|_| word(r)).collect();
    let mut deps = list(r, &ds);
    if r.chance(1, 3) { if !deps.is_empty() { deps.push(P::Lit(" ".into())); } deps.push(var("deps")); }
    let mut targets = list(r, &ts);
    if r.chance(1, 5) { targets = vec![var("tgts")]; }
    // the text of an assignment right after a semicolon would be a target specific variable
    let inline = if r.chance(1, 5) { Some(cmd(r)).filter(|e| !print(e).contains('=')) } else { None };
    let mut out = vec![Stmt::Rule { targets, double: r.chance(1, 6), deps, inline }];
    if r.chance(1, 2) { for _ in 0..1 + r.below(3) { out.push(Stmt::Recipe(cmd(r))); if r.chance(1, 8) { out.push(Stmt::Raw("\n".into())); } if r.chance(1, 10) { out.push(Stmt::Raw("# note\n".into())); } } }
    out
}
fn cmd(r: &mut Rng) -> Expr {
    let mut e = lit(&format!("{}{}", r.pick(&["cc", "echo é", "ifeq (a,b)", "x = y", "a: b", "else", "@x; y"]), r.below(9)));
    if r.chance(1, 3) { e.push(P::Lit(" ".into())); e.push(var(*r.pick(&["a", "b", "deps"]))); }
    if r.chance(1, 6) { e.push(P::Dollar); e.push(P::Lit("p".into())); }
    e
}
fn list_vars(r: &mut Rng) -> Vec<Stmt> {
    let n = r.below(3);
    let d: Vec<String> = (0..n).map(|_| word(r)).collect();
    let n = 1 + r.below(2);
    let t = distinct(r, n);
    vec![
        Stmt::Assign { name: lit("deps"), op: if r.chance(1, 2) { Op::Rec } else { Op::Simple }, value: lit(&d.join(" ")) },
        Stmt::Assign { name: lit("tgts"), op: Op::Rec, value: lit(&t.join(" ")) },
    ]
}

fn c09(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 9);
    for _ in 0..c.n(4000, 100000) {
        let mut prog = list_vars(&mut r);
        for _ in 0..1 + r.below(6) {
            prog.extend(rule(&mut r));
            if r.chance(1, 5) { prog.push(Stmt::Assign { name: lit("a"), op: Op::Rec, value: lit("A") }); }
            if r.chance(1, 6) { let v = list_vars(&mut r); prog.push(v[r.below(2)].clone()); }
        }
        let mut t = text_of(&prog);
        if r.chance(1, 2) { t.pop(); }
        if r.chance(1, 8) && !t.contains('>') {
            // another command character
            let u = t.replace("\n\t", "\n>");
            let mut env = Env::default();
            if env.file(&prog, 0).is_err() || !judgeable(&env) { continue; }
            let v = u.clone();
            if !c.case(&v, prog.len() > 4, move || {
                let mut real = Real::new();
                real.engine.command_char = '>';
                real.read(&u, "Makefile")?;
                compare(&mut real, &mut env).unwrap_or(Ok(()))
            }) { return; }
            continue;
        }
        if !program_case(c, &prog, &t, prog.len() > 4) { return; }
    }
    // separate files, and snapshots of the database
    for _ in 0..c.n(400, 10000) {
        let parts: Vec<Vec<Stmt>> = (0..2 + r.below(3)).map(|_| { let mut p = list_vars(&mut r); p.extend(rule(&mut r)); p.extend(rule(&mut r)); p }).collect();
        let input: String = parts.iter().map(|p| text_of(p)).collect::<Vec<_>>().join("--\n");
        let ok = c.case(&input, true, || {
            let mut real = Real::new();
            let mut env = Env::default();
            let mut snaps = vec![];
            for (i, p) in parts.iter().enumerate() {
                if env.file(p, 0).is_err() { return Ok(()); }
                real.read(&text_of(p), &format!("f{}", i))?;
                if let Some(x) = compare_rules(&mut real, &mut env) { x? }
                snaps.push((real.engine.database.clone(), env.clone()));
            }
            for (db, mut env) in snaps {
                real.engine.replace_database(db.clone());
                if let Some(x) = compare_rules(&mut real, &mut env) { x.map_err(|e| format!("snapshot changed: {}", e))? }
                // adding a rule object replaces the rule of its target, in the copy only
                if let Some(rl) = db.rules().next().cloned() {
                    let d2 = Database::default().add_rule(rl.clone());
                    eq("added rule", d2.get_rule(rl.target_fname()) == Some(&rl), true)?;
                    eq("rules after adding one", d2.rules().count(), 1)?;
                    let d3 = db.add_rule(rl.clone());
                    eq("rules after adding a known one", d3.rules().count(), db.rules().count())?;
                }
            }
            Ok(())
        });
        if !ok { return; }
    }
}

// ------------------------------------------------------------ C10

fn side(r: &mut Rng) -> Expr {
    let mut e = vec![];
    for _ in 0..r.below(3) {
        match r.below(4) { 0 => e.push(var(*r.pick(&["a", "b", "c", "e"]))), 1 => e.push(P::Lit(" ".into())), _ => e.push(P::Lit(r.pick(&["x", "y", "é", "xy"]).to_string())) }
    }
    e
}
fn cond(r: &mut Rng, depth: usize, open: bool) -> Stmt {
    let form = r.below(6) as u8;
    let mut a = side(r);
    let mut b = if r.chance(1, 3) { a.clone() } else { side(r) };
    if form == 0 || form == 4 {
        if r.chance(1, 5) { a.push(P::Lit("(p,q)".into())); }
        if r.chance(1, 5) { b.push(P::Lit("(p)".into())); if r.chance(1, 2) { b.insert(0, P::Lit("m,".into())); } }
    }
    let then = body(r, depth, open);
    let els = if r.chance(1, 2) { Some(body(r, depth, open)) } else { None };
    Stmt::Cond { neg: r.chance(1, 2), form, a, b, then, els }
}
fn body(r: &mut Rng, depth: usize, open: bool) -> Vec<Stmt> {
    let mut out = vec![];
    for _ in 0..r.below(4) {
        match r.below(8) {
            0 | 1 if depth > 0 => out.push(cond(r, depth - 1, open)),
            2 if open => out.push(Stmt::Recipe(lit(&format!("cmd{}", r.below(99))))),
            3 if !open => { out.push(Stmt::Rule { targets: lit(&format!("t{}", r.below(3))), double: false, deps: lit(&format!("d{}", r.below(9))), inline: None }); out.push(Stmt::Recipe(lit(&format!("rc{}", r.below(9))))); }
            4 => out.push(Stmt::Raw(r.pick(&["\n", "# if else endif\n", "   \n"]).to_string())),
            _ if !open => out.push(Stmt::Assign { name: lit(*r.pick(&["a", "b", "c"])), op: if r.chance(1, 3) { Op::Append } else { Op::Simple }, value: lit(*r.pick(&["x", "y", "xy", "é", ""])) }),
            _ => {}
        }
    }
    out
}

/// what the contracts assume about characters (spec/00_pre.vs and axiom_lower of spec/31_nom2.vs), for every character
pub fn characters(c: &mut Ctx) {
    c.case("every character: what the contracts assume about it", true, || {
        for x in (0..0x110000u32).filter_map(std::char::from_u32) {
            let n = x as u32;
            let w = if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 };
            eq(&format!("bytes of {:?}", x), x.len_utf8(), w)?;
            eq(&format!("bytes of {:?} in a string", x), x.to_string().len(), w)?;
            let ws = (9 <= n && n <= 13) || n == 32 || n == 0x85 || n == 0xa0 || n == 0x1680 || (0x2000 <= n && n <= 0x200a) || n == 0x2028 || n == 0x2029 || n == 0x202f || n == 0x205f || n == 0x3000;
            eq(&format!("{:?} is whitespace", x), x.is_whitespace(), ws)?;
            let lower: Vec<char> = x.to_lowercase().collect();
            eq(&format!("lower case of {:?} has 1 to 3 characters", x), 1 <= lower.len() && lower.len() <= 3, true)?;
            for l in "abcdefghijlmnopqrstuvwxyz-".chars() {
                let same = x == l || (l != '-' && x.is_ascii_uppercase() && x.to_ascii_lowercase() == l);
                if same { eq(&format!("lower case of {:?}", x), &lower, &vec![l])?; }
                else if lower[0] == l { eq(&format!("lower case of {:?}", x), &lower, &vec!['i', '\u{307}'])?; }
            }
        }
        Ok(())
    });
}

fn c10(c: &mut Ctx) {
    characters(c);
    let mut r = Rng::new(c.seed ^ 10);
    // every outcome pattern of nested conditionals up to depth 3, every form
    let t = |i: usize| Stmt::Assign { name: lit("log"), op: Op::Append, value: lit(&format!("m{}", i)) };
    for form in 0..6u8 { for bits in 0..64usize {
        let mk = |k: usize, then: Vec<Stmt>, els: Option<Vec<Stmt>>| Stmt::Cond { neg: bits >> k & 1 == 1, form, a: lit("x"), b: lit(if bits >> (k + 3) & 1 == 1 { "x" } else { "y" }), then, els };
        for shape in 0..5 {
            let inner = mk(2, vec![t(5)], if shape == 1 { None } else { Some(vec![t(6)]) });
            let mid = mk(1, vec![t(3), inner.clone(), t(4)], if shape == 2 { None } else { Some(vec![t(7), inner.clone(), t(8)]) });
            let prog = match shape {
                3 => vec![t(0), mk(0, vec![], Some(vec![mid.clone(), t(2)])), t(9)],
                4 => vec![t(0), mid, mk(0, vec![t(1)], None), inner, t(9)],
                _ => vec![t(0), mk(0, vec![t(1), mid.clone(), t(2)], Some(vec![t(10), mid])), t(9)],
            };
            let txt = text_of(&prog);
            if !program_case(c, &prog, &txt, true) { return; }
        }
    } }
    for i in 0..c.n(3000, 80000) {
        let mut prog = vec![
            Stmt::Assign { name: lit("a"), op: Op::Rec, value: lit(*r.pick(&["x", "x ", "y", ""])) },
            Stmt::Assign { name: lit("b"), op: Op::Rec, value: vec![var("a"), P::Lit(r.pick(&["", " ", "y"]).to_string())] },
        ];
        let open = i % 3 == 0;
        if open { prog.push(Stmt::Rule { targets: lit("goal"), double: false, deps: lit("g1"), inline: None }); prog.push(Stmt::Recipe(lit("first"))); }
        for _ in 0..1 + r.below(3) { prog.push(cond(&mut r, 3, open)); if open { prog.push(Stmt::Recipe(lit("after"))); } else { prog.push(Stmt::Assign { name: lit("z"), op: Op::Append, value: lit("after") }); } }
        let t = text_of(&prog);
        if !program_case(c, &prog, &t, true) { return; }
    }
    // the ways of writing the arguments
    for (args, same) in &[("(a(b,c),a(b,c))", true), ("((b,c),(b,d))", false), ("(((a)),((a)))", true), ("(,)", true), ("( , )", true), ("(,x)", false), ("(x,)", false), ("\"\" ''", true), ("'a' \"a\"", true),
        ("'(a,b)' \"(a,b)\"", true), ("\"it's\" \"it's\"", true), ("'a\"b' 'a\"b'", true), ("(a,b,b)", false), ("($(v),$(v))", true), ("($(v),v w)", true), ("($(v), v w )", true), ("(v  w,$(v))", false), ("'$(v)' 'v w'", true),
        ("($(p),a(b,c))", true), ("($(p),$(p))", true), ("($(none),)", true), ("'a''a'", true), ("\"a\"  \"a\"", true), ("\"a\"\t'b'", false), ("(\u{e9}(,),\u{e9}(,))", true), ("('a',a)", false), ("(\"a\",\"a\")", true), ("($(COMMA),$(COMMA))", true), ("(a$(COMMA)b,a$(COMMA)b)", true), ("(a,a)", true), ("(aa,a)", false), ("(a,aa)", false), ("(A,a)", false)] {
        for neg in &[false, true] { for (head, els, end) in &[("", "else\n", "endif\n"), ("  ", "  else  \n", "endif \t\n"), (" ", "else # other\n", " endif # done\n")] { for gap in &[" ", "  ", "\t", " \t"] {
            let text = format!("COMMA = ,\nv = v w\np = a(b,c)\n{}{}{}{}\nr += then\n{}r += else\n{}r += end\n", head, if *neg { "ifneq" } else { "ifeq" }, gap, args, els, end);
            let want = if same != neg { "then end" } else { "else end" };
            if !c.case(&text, true, || {
                let mut real = Real::new();
                real.read(&text, "Makefile")?;
                let a = real.ast("r").ok_or("r is not set")?;
                eq("value of r", real.block(&a).into_string().trim().to_string(), want.to_string())
            }) { return; }
        } } }
    }
    // what is not selected is not even expanded, and only whole words are keywords
    for (text, want) in &[
        ("ifeq (x,y)\nifeq ($(eval r=1),)\nr=2\nelse\nr=3\nendif\nendif\nr += end\n", "end"),
        ("ifeq (x,x)\nr = a\nelse\nifneq '$(eval r=1)' ''\nr=2\nendif\nr = 3\nendif\nr += end\n", "a end"),
        ("ifeq (x,y)\nifeq (x,y)\nr=1\nelse\nifeq \"$(eval r=2)\" ''\nendif\nendif\nelse\nr=4\nendif\nr += end\n", "4 end"),
        ("ifeq (x,y)\nr := $(eval r=1)\n$(eval r=2): dep\nendif\nr += end\n", "end"),
        ("ifeq ($(eval r=1),)\nr += a\nendif\nr += end\n", "1 a end"),
        ("elsewhere = 1\nendif_x = 2\nifeqs = 3\nifneq-a = 4\nifdefs = 5\nr = $(elsewhere)$(endif_x)$(ifeqs)$(ifneq-a)$(ifdefs)\n", "12345"),
        ("ifeq (x,y)\nendifs = 1\nelsewhere: a\nr=1\nelse\nr = 2\nelsewhere: a\nendif\nr += end\n", "2 end"),
        ("ifeq(x,x)\nr=1\nendif\nifneq\"x\" 'x'\nr=2\nendif\nr += end\n", "1 end"),
    ] {
        if !c.case(text, true, || {
            let mut real = Real::new();
            real.read(text, "Makefile")?;
            let a = real.ast("r").ok_or("r is not set")?;
            eq("value of r", real.block(&a).into_string().trim().to_string(), want.to_string())
        }) { return; }
    }
    // misplaced directives are rejected
    for pre in &["", "a = b\n", "ifeq (x,x)\nendif\n", "ifeq (x,y)\nelse\nendif\n"] {
        for bad in &["else\n", "endif\n", "ifeq (x,x)\nelse\nelse\nendif\n", "ifeq (x,y)\nelse\nelse\nendif\n", "ifneq (x,y)\nendif\nendif\n", "ifeq (x,y)\nendif\nelse\n",
                     "ifeq (x,x)\nendif junk\n", "ifeq (x,x)\nendif x\n", "ifeq (x,x)\nelse junk\nendif\n", "ifeq (x,x)\nifeq (x,y)\nelse\nelse\nendif\nendif\n"] {
            if !rejected(c, &format!("{}{}", pre, bad)) { return; }
        }
    }
}

// ------------------------------------------------------------ C11

fn c11(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 11);
    let eols = ["\n", "\n", "\n", "\r\n"];
    for _ in 0..c.n(4000, 100000) {
        let mut prog = vec![Stmt::Assign { name: lit("a"), op: Op::Rec, value: lit("A") }, Stmt::Assign { name: lit("b"), op: Op::Rec, value: vec![var("a"), P::Lit("é".into())] }];
        if r.chance(1, 3) { prog.push(Stmt::Rule { targets: lit("t"), double: false, deps: lit("d"), inline: None }); if r.chance(1, 2) { prog.push(Stmt::Recipe(lit("c"))); } }
        for k in 0..1 + r.below(2) {
            let name = format!("def{}", k);
            let mut bodyl: Vec<Expr> = vec![];
            let mut nest = 0;
            let nl = |r: &mut Rng| P::Lit(r.pick(&eols).to_string());
            for _ in 0..r.below(7) {
                let ind = *r.pick(&["", "", " ", "\t", "  \t"]);
                let mut l: Expr = lit(ind);
                match r.below(11) {
                    9 => l.push(P::Lit(r.pick(&["defined", "defines x", "define-a", "endefine", "endef.", "endef:", "endef# n", "define=1"]).to_string())),
                    // references over several lines
                    10 => {
                        l.push(P::Lit("m".into()));
                        match r.below(3) {
                            0 => l.push(P::Ref(lit(r.pick(&["no\nsuch", "\n", "no\n# such\n\n  one"])), if r.chance(1, 2) { Style::Brace } else { Style::Paren })),
                            1 => l.push(P::Sub { name: lit("b"), key: lit("%é"), repl: lit(r.pick(&["%\nx", "\n%\n\n", "p%\n defined"])), style: Style::Paren }),
                            _ => l.push(P::Ref(vec![P::Lit("n\n".into()), P::Ref(lit("u\nv"), Style::Brace)], Style::Paren)),
                        }
                        if r.chance(1, 2) { l.push(P::Lit(" t".into())); }
                    }
                    0 => { l.push(P::Lit(format!("define in{}{}", nest, r.pick(&["", " =", "  "])))); nest += 1; }
                    1 if nest > 0 => { l.push(P::Lit(format!("endef{}", r.pick(&["", " ", "\t"])))); nest -= 1; }
                    2 => {}
                    3 => l.push(P::Lit(r.pick(&["# note", "else", "endif", "ifeq (a,b)", "x = y # z", "t: d ; c", "line \\", "é漢 \\\\", "include nothing", "#"]).to_string())),
                    4 => { l.push(P::Lit("v = ".into())); l.push(var("b")); l.push(P::Dollar); }
                    5 => { l.push(P::Ref(lit("a"), Style::Brace)); l.push(P::Lit(" tail ".into())); }
                    _ => l.push(P::Lit(r.string(&["a", "é", " ", "\\", ":", "=", "(", "}", "\t", "%"], 6)))
                }
                // what starts like a keyword is one
                let txt = print(&l);
                let tr = txt.trim_start();
                let word = |w: &str| tr.starts_with(w) && tr[w.len()..].chars().next().map_or(true, |c| c.is_whitespace());
                if (word("define") && !tr.starts_with("define in")) || (word("endef") && !tr.trim_end().ends_with("endef")) { continue; }
                l.push(nl(&mut r));
                bodyl.push(l);
            }
            while nest > 0 { bodyl.push(lit("endef\n")); nest -= 1; }
            let head = match r.below(4) { 0 => format!("define {} =\n", name), 1 => format!("define   {}  \n", name), 2 => format!("  define {}\n", name), _ => format!("define {}\n", name) };
            prog.push(Stmt::Define { name, head, body: bodyl, indent: r.pick(&["", "  ", "\t"]).to_string() });
            if r.chance(1, 2) { prog.push(Stmt::Assign { name: lit("c"), op: Op::Simple, value: lit("after") }); }
        }
        let mut t = text_of(&prog);
        if r.chance(1, 4) { t.pop(); }
        if !program_case(c, &prog, &t, true) { return; }
    }
    for bad in &["define x\nendef \tjunk\n", "define x\ndefine y\nendef junk\nendef\n", "define x\nendef junk\n", "define x\na\nendef x\nb = c\n"] { if !rejected(c, bad) { return; } }
}

// ------------------------------------------------------------ C12

/// Write a name so that its specials are literal. `end`: a separator follows.
fn quote(name: &str, specials: &str) -> String {
    let cs: Vec<char> = name.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < cs.len() {
        let mut j = i;
        while j < cs.len() && cs[j] == '\\' { j += 1; }
        let n = j - i;
        let m = if j == cs.len() { 2 * n } else if specials.contains(cs[j]) { 2 * n + 1 } else { n };
        for _ in 0..m { o.push('\\'); }
        if j < cs.len() { o.push(cs[j]); }
        i = j + 1;
    }
    o
}

fn c12(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 12);
    // every count of backslashes before a special, in every place
    for n in 0..9usize { for pre in &["", "x", "é", "x\\y"] { for post in &["z", "é", "\\q"] {
        let bs = "\\".repeat(n);
        let half = "\\".repeat(n / 2);
        // prerequisites, whitespace
        for sp in &[" ", "\t"] {
            let t = format!("t: w {}{}{}{} end\n", pre, bs, sp, post);
            let want: Vec<String> = if n % 2 == 1 { vec!["w".into(), format!("{}{}{}{}", pre, half, sp, post), "end".into()] } else {
                let a = format!("{}{}", pre, half);
                let mut v: Vec<String> = vec!["w".into()];
                if !a.is_empty() { v.push(a); }
                v.push(post.to_string());
                v.push("end".into());
                v
            };
            if !deps_case(c, &t, "t", &want) { return; }
        }
        if n % 2 == 1 {
            let name = format!("{}{}:{}", pre, half, post);
            if !deps_case(c, &format!("t: w {}{}:{} end\n", pre, bs, post), "t", &["w".into(), name.clone(), "end".into()]) { return; }
            // a quoted colon in a target
            if !deps_case(c, &format!("{}{}:{} : d1 d2\n", pre, bs, post), &name, &["d1".into(), "d2".into()]) { return; }
            if !deps_case(c, &format!("{}{} {}: d1 d2\n", pre, bs, post), &format!("{}{} {}", pre, half, post), &["d1".into(), "d2".into()]) { return; }
        } else if (n == 2 || !pre.is_empty()) && n < 4 {
            // an unquoted colon ends the targets and keeps half of the backslashes
            if !deps_case(c, &format!("{}{}: d1 d2\n", pre, bs), &format!("{}{}", pre, half), &["d1".into(), "d2".into()]) { return; }
        }
        // patterns
        for l in &["xz", "x%z", "x\\z", "x\\%z", "x\\\\z", "%z", "éqz", "\\z", "x\\yaz", "x\\y\\%z", "xb\\q"] {
            for rp in &["r%s", "r", "r\\%s"] { if !sub_case(c, l, &format!("{}{}%{}", pre, bs, post), rp, Style::Paren, n % 3 == 0, "") { return; } }
            if !sub_case(c, l, "%z", &format!("{}{}%{}", pre, bs, post), Style::Paren, n % 3 == 1, "") { return; }
        }
    } } }
    let alpha = ["a", "é", "b", " ", ":", "\\", "\\", "%", "漢"];
    for i in 0..c.n(5000, 120000) {
        if i % 2 == 0 {
            let mut names = vec![];
            for _ in 0..1 + r.below(3) { let s = r.string(&alpha, 5); if !s.is_empty() { names.push(s); } }
            // a run of backslashes at the end of the line would be something else
            if names.last().map_or(true, |n| n.ends_with('\\')) { names.push("z".into()); }
            let t = format!("t: {}\n", names.iter().map(|n| quote(n, " \t:")).collect::<Vec<_>>().join(" "));
            if !deps_case(c, &t, "t", &names) { return; }
        } else {
            let l = r.string(&["a", "b", "%", "\\", " ", "é", "\\%"], 8);
            let k = r.string(&["a", "\\", "%", "\\%", "b", "\\\\"], 4);
            let p = r.string(&["a", "\\", "%", "\\%", "b"], 4);
            // an indirect pattern sits at the end of a line
            let ind = r.chance(1, 3) && !k.ends_with('\\') && !p.ends_with('\\');
            if l.ends_with('\\') { continue; }
            if !sub_case(c, &l, &k, &p, Style::Paren, ind, "") { return; }
        }
    }
}

fn deps_case(c: &mut Ctx, text: &str, target: &str, deps: &[String]) -> bool {
    rule_case(c, text, &[target.to_string()], deps, &[])
}
fn rule_case(c: &mut Ctx, text: &str, targets: &[String], deps: &[String], cmds: &[String]) -> bool {
    c.case(text, true, || {
        let mut real = Real::new();
        real.read(text, "Makefile")?;
        let mut got: Vec<String> = real.engine.database.rules().map(|r| r.target().into_string()).collect();
        got.sort();
        let mut want = targets.to_vec();
        want.sort();
        eq("targets", got, want)?;
        for t in targets {
            let id = real.names.file_name(t).ok_or(format!("{:?} not interned", t))?;
            let rl = real.engine.database.get_rule(id).ok_or(format!("no rule for {:?}", t))?.clone();
            eq("prerequisites", rl.dependencies().iter().map(|d| d.into_string()).collect::<Vec<_>>(), deps.to_vec())?;
            let mut got = vec![];
            for x in rl.recipe().commands() { let a = command_ast(x).clone(); got.push(real.block(&a).into_string()); }
            eq("recipe", got, cmds.to_vec())?;
        }
        Ok(())
    })
}

// ------------------------------------------------------------ C13

/// The logical text of physical lines that end in `n` backslashes each (the last one in none)
fn join_logical(lines: &[(String, usize, String)]) -> String {
    let ws = |c: char| c == ' ' || c == '\t';
    let mut out = String::new();
    let mut first = true;
    let mut pending = false;
    for (i, (text, n, pad)) in lines.iter().enumerate() {
        let t = if i == 0 { text.clone() } else { text.trim_start_matches(ws).to_string() };
        let last = i + 1 == lines.len();
        let mut t = if last { format!("{}{}", t, "\\".repeat(*n)) } else if *n == 1 { format!("{}{}", t, pad).trim_end_matches(ws).to_string() } else { format!("{}{}{}", t, pad, "\\".repeat(n / 2)) };
        if i > 0 { t = t.trim_start_matches(ws).to_string(); }
        if pending && !(t.is_empty() && !last) { out.push(' '); pending = false; }
        out += &t;
        if !last { pending = true; }
        let _ = first;
        first = false;
    }
    out
}

fn c13(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 13);
    for _ in 0..c.n(6000, 150000) {
        // a file of several logical lines: assignments, comments, blank lines
        let mut text = String::new();
        let mut want: Vec<(String, String)> = vec![];
        let eol = *r.pick(&["\n", "\n", "\r\n"]);
        for k in 0..1 + r.below(4) {
            match r.below(6) {
                0 => {
                    // a comment, maybe continued
                    text += *r.pick(&["# c", "  # c # d", "\t#", "#a = b", "##"]);
                    for _ in 0..r.below(3) { text += *r.pick(&["\\", " \\", "\\\\\\"]); text += eol; text += *r.pick(&["x = hidden", "more", "# again", ""]); }
                    text += *r.pick(&["", "", "\\\\", " é"]);
                    text += eol;
                }
                1 => { text += *r.pick(&["", " ", "\t \t"]); text += eol; }
                _ => {
                    let n = 1 + r.below(4);
                    let mut lines = vec![];
                    for i in 0..n {
                        let last = i + 1 == n;
                        let mut s = r.string(&["a", "b", " ", "é", "\t", "漢", "\\q", ","], 5);
                        if i == 0 { s = s.trim_start_matches(|c| c == ' ' || c == '\t').to_string(); }
                        let k = if last { *r.pick(&[0, 0, 0, 2, 4]) } else { *r.pick(&[1, 1, 1, 3, 5]) };
                        let pad = if last || !r.chance(1, 2) { String::new() } else { r.pick(&[" ", "\t", "  "]).to_string() };
                        if k > 0 && pad.is_empty() && s.ends_with('\\') { s.push('a'); }
                        lines.push((s, k, pad));
                    }
                    let name = format!("v{}", k);
                    // the first physical line also carries the name and the operator
                    let mut ph = lines.clone();
                    let lead = *r.pick(&["", " ", "  "]);
                    ph[0].0 = format!("{} = {}", name, lines[0].0);
                    for (i, (s, k, pad)) in ph.iter().enumerate() {
                        if i == 0 { text += lead; } else { text += *r.pick(&["", " ", "\t", "   "]); }
                        text += s;
                        text += pad;
                        text += &"\\".repeat(*k);
                        if i + 1 == n && *k % 2 == 0 && r.chance(1, 4) && !(s.ends_with('\\') && *k == 0) && *k == 0 { text += *r.pick(&["# note", "#", "# a = b \\\\", "# continued \\\nhidden = 1"]); }
                        text += eol;
                    }
                    let logical = join_logical(&ph);
                    let v = logical[name.len() + 2..].trim_start_matches(|c| c == ' ' || c == '\t').to_string();
                    want.push((name, v));
                }
            }
        }
        text += "end = E";
        if r.chance(1, 2) { text += eol; }
        let ok = c.case(&text, want.len() > 1, || {
            let mut real = Real::new();
            real.read(&text, "Makefile")?;
            for (n, v) in &want { eq(&format!("variable {}", n), real.var(n), Some(v.clone()))?; }
            eq("variable end", real.var("end"), Some("E".into()))?;
            for n in &["hidden", "x"] { eq(&format!("variable {}", n), real.var(n), None)?; }
            Ok(())
        });
        if !ok { return; }
    }
    // rule lines and recipes
    for _ in 0..c.n(2000, 50000) {
        let eol = *r.pick(&["\n", "\n", "\r\n"]);
        let mut text = String::from("t:");
        let mut deps = vec![];
        for _ in 0..r.below(4) { let w = word(&mut r); if r.chance(1, 3) { text += *r.pick(&["\\", " \\", "\t \\"]); text += eol; text += *r.pick(&["", " ", "\t"]); } text += " "; text += &w; deps.push(w); }
        if r.chance(1, 4) { text += " # dropped"; }
        text += eol;
        let mut cmds = vec![];
        for _ in 0..r.below(4) {
            let n = 1 + r.below(3);
            let mut want = String::new();
            text += "\t";
            for i in 0..n {
                let mut s = r.string(&["a", " ", "é", "b;", "x = y", ":", "\t", "-"], 4);
                if i + 1 == n { if r.chance(1, 5) { s += "\\\\"; } } else { s += *r.pick(&["\\", " \\", "\\\\\\"]); }
                text += &s;
                want += &s;
                if i + 1 < n { text += eol; text += "\t"; want += "\n"; }
            }
            // a recipe line with nothing but a comment is a comment
            if r.chance(1, 6) && !want.split('\n').next().unwrap().trim().is_empty() { text += "# not here"; }
            text += eol;
            cmds.push(want);
        }
        // one backslash directly before a comment is another matter
        if text.contains("\\#") { continue; }
        if !rule_case(c, &text, &["t".into()], &deps, &cmds) { return; }
    }
}

// ------------------------------------------------------------ C14

#[derive(Clone, Debug, PartialEq)]
enum T { Lit(String), Ref(Vec<T>), Eval(Vec<T>), Strip(Vec<T>), Words(Vec<T>), Word(Vec<T>, Vec<T>) }

fn norm(a: &AstNode, out: &mut Vec<T>) {
    let sub = |a: &AstNode| { let mut v = vec![]; norm(a, &mut v); v };
    match a.children() {
        AstChildren::Empty => {}
        AstChildren::Constant(s) => push_lit(out, &**s),
        AstChildren::PreEvaluated(b) => push_lit(out, &b.into_string()),
        AstChildren::Concat(v) => for x in v { norm(x, out); },
        AstChildren::VariableReference(n) => out.push(T::Ref(sub(n))),
        AstChildren::Eval(n) => out.push(T::Eval(sub(n))),
        AstChildren::Strip(n) => out.push(T::Strip(sub(n))),
        AstChildren::Words(n) => out.push(T::Words(sub(n))),
        AstChildren::Word { index, words } => out.push(T::Word(sub(index), sub(words))),
    }
}
fn push_lit(out: &mut Vec<T>, s: &str) {
    if s.is_empty() { return; }
    if let Some(T::Lit(t)) = out.last_mut() { t.push_str(s); } else { out.push(T::Lit(s.into())); }
}

/// Random text together with its meaning. `ctx`: None at top level, the closing character inside of a reference.
fn dollar_text(r: &mut Rng, depth: usize, ctx: Option<char>, args: bool, out: &mut String, t: &mut Vec<T>) {
    for _ in 0..r.below(5) {
        match r.below(9) {
            0 | 1 | 2 => {
                let s = match ctx {
                    None => r.string(&["a", "é", " ", ")", "(", "}", "{", ",", "漢", "\\x", ":", "b"], 4),
                    Some(')') if !args => r.string(&["a", "é", "{", "}", "(p)", "漢", "_", ",", "((", "b"], 3).replace("((", "(q(z))"),
                    Some(_) if !args => r.string(&["a", "é", "(", ")", "{p}", "漢", "_", ",", "b"], 3),
                    _ => r.string(&["a", "é", "{p}", "(p,q)", "{p,q}", " ", "b", "漢"], 3),
                };
                out.push_str(&s);
                push_lit(t, &s);
            }
            3 => { out.push_str("$$"); push_lit(t, "$"); }
            4 => { let ch = *r.pick(&["a", "é", "漢", "@", "<", "1", ":"]); out.push('$'); out.push_str(ch); t.push(T::Ref(vec![T::Lit(ch.into())])); }
            k if depth > 0 => {
                let (o, cl) = if r.chance(1, 3) { ('{', '}') } else { ('(', ')') };
                let mut s = String::new();
                let mut v = vec![];
                // references written with the other kind of bracket are fine inside of a name too,
                // as long as what they contain is balanced for this one
                if k <= 6 {
                    let fname = if r.chance(1, 5) { *r.pick(&["evaluate", "strip", "words", "wordsx", "eval", "word", "strips", "stripé", "eval_x", "words:x=y"]) } else { "" };
                    s.push_str(fname);
                    push_lit(&mut v, fname);
                    if fname.is_empty() || fname.len() > 5 { dollar_text(r, depth - 1, Some(cl), true, &mut s, &mut v); }
                    if fname.is_empty() { if let Some(T::Lit(l)) = v.first() { if ["eval", "strip", "word"].iter().any(|f| l.starts_with(f)) { continue; } } }
                    // text of a function name followed by a blank is a call
                    if !fname.is_empty() && s[fname.len()..].starts_with(|c| c == ' ' || c == '\t') { continue; }
                    out.push('$'); out.push(o); out.push_str(&s); out.push(cl);
                    t.push(T::Ref(v));
                } else {
                    let f = r.below(4);
                    let gap = *r.pick(&[" ", "  ", "\t", " \t"]);
                    let mut one = |r: &mut Rng| { let mut s = String::new(); let mut v = vec![]; dollar_text(r, depth - 1, Some(cl), true, &mut s, &mut v); trim_front(&mut s, &mut v); (s, v) };
                    let (s1, v1) = one(r);
                    let (s2, v2) = one(r);
                    out.push('$'); out.push(o);
                    match f {
                        0 => { out.push_str(&format!("eval{}{}", gap, s1)); t.push(T::Eval(v1)); }
                        1 => { out.push_str(&format!("strip{}{}", gap, s1)); t.push(T::Strip(v1)); }
                        2 => { out.push_str(&format!("words{}{}", gap, s1)); t.push(T::Words(v1)); }
                        _ => { out.push_str(&format!("word{}{},{}{}", gap, s1, r.pick(&["", " "]), s2)); t.push(T::Word(v1, v2)); }
                    }
                    out.push(cl);
                }
            }
            _ => {}
        }
    }
}
fn trim_front(s: &mut String, v: &mut Vec<T>) {
    *s = s.trim_start_matches(|c| c == ' ' || c == '\t').to_string();
    if let Some(T::Lit(l)) = v.first_mut() {
        *l = l.trim_start_matches(|c| c == ' ' || c == '\t').to_string();
        if l.is_empty() { v.remove(0); }
    }
}

fn c14(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 14);
    for i in 0..c.n(8000, 200000) {
        let mut s = String::new();
        let mut t = vec![];
        let depth = 1 + (i / 1500).min(3);
        dollar_text(&mut r, depth, None, false, &mut s, &mut t);
        trim_front(&mut s, &mut t);
        if r.chance(1, 20) { s.push('$'); push_lit(&mut t, "$"); }
        let text = format!("v = {}\n", s);
        let ok = c.case(&text, t.len() > 1, || {
            let mut real = Real::new();
            real.read(&text, "Makefile")?;
            let a = real.ast("v").ok_or("v is not defined")?;
            let mut got = vec![];
            norm(&a, &mut got);
            eq("meaning", got, t.clone())
        });
        if !ok { return; }
    }
    for bad in &["v = $(a\n", "v = ${a\n", "v = $(a(b)\n", "v = x$(a$(b)\n", "v = ${a{b}\n", "v = $(word a)\n", "v = $(word a,b,c)\n", "v = $(strip a,b)\n", "v = $(words a,b)\n"] {
        if !rejected(c, bad) { return; }
    }
}

// ------------------------------------------------------------ C18

struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let d = std::env::temp_dir().join(format!("hastur-scratch-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(d.join("sub")).expect("scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

/// Text made of the pieces that makefile syntax is about, in any order. The variables that are referred to cannot be
/// assigned (no name of theirs is a piece of its own), so nothing refers to itself.
fn soup(r: &mut Rng) -> String {
    const WORDS: &[&str] = &["a", "b", "X", "Y.o", "Z", "\u{e9}", "\u{2028}", "\u{feff}", "1", "%", "x%y", "|", ",", "'", "\"", "(", ")", "}", "~", "?"];
    const REFS: &[&str] = &["$(P)", "${Q}", "$R", "$$", "$(P:a=b)", "$(Q:%.a=%.b)", "${P:%=x%}", "$(V$(S))", "$(eval X = $(P))", "$(eval W", "$(eval $(Q)",
        "$(P", "${Q", "$(P:", "$(P:=", "$(undefd)", "$(if a,b)", "$(V$(S", "$(eval a: $(P)", "$(eval\t", "$( eval x)"];
    const OPS: &[&str] = &["=", ":=", "::=", "+=", "?=", ":", "::", ";", "#", "\\", "\\\\", "\\#", "\\:", "\\;", "\\%", "=", ":", "c:\\x", "\\ ", "a\\:b"];
    const WS: &[&str] = &[" ", "\t", "  ", "\r", "\u{b}", "\u{c}", "\u{a0}", "\u{85}", "\\\n", "\\\r\n", " \\\n\t"];
    const KW: &[&str] = &["define", "endef", "ifeq", "ifneq", "else", "endif", "include", "-include", "sinclude", "ifeq (a,a)", "ifneq 'a' \"a\"", "ifeq ($(P),", "define X", "define Y :=", "endef", "endif",
        "define Z +=", "ifeq ", "ifneq(", "endefx", "elsex", "include nothing", "-include nothing $(P)"];
    const UNF: &[&str] = &["ifdef P", "ifndef X", "else ifeq (a,b)", "export", "unexport X", "override", "private", "undefine", "vpath", "load", "-load", "$(strip a)", "$(words a b)", "$(word 1,a b)", "$(word", "$(strip", "$(words"];
    const ENDS: &[&str] = &["\n", "\n", "\n", "\r\n", "\\\n", "\\\\\n", "\r\r\n", "\n\n", "$\n", " # c\n", "\\"];
    let mut t = String::new();
    if r.chance(1, 30) { t.push('\u{feff}'); }
    let lines = 1 + r.below(9);
    for n in 0..lines {
        let kind = r.below(12);
        match kind {
            0 => t += "\t",
            1 => { t += *r.pick(KW); t += *r.pick(WS); }
            2 => { t += *r.pick(WORDS); t += *r.pick(OPS); }
            3 => { t += *r.pick(WORDS); t += ":"; }
            4 => { t += *r.pick(WORDS); t += *r.pick(WS); t += *r.pick(&["=", ":=", "+=", "?="]); }
            5 => t += *r.pick(KW),
            6 if r.chance(1, 6) => { t += *r.pick(UNF); t += *r.pick(WS); }
            7 => t += *r.pick(WS),
            _ => {}
        }
        for _ in 0..r.below(7) {
            match r.below(14) {
                0..=3 => t += *r.pick(WORDS),
                4..=6 => {
                    let from = if r.chance(1, 3) { REFS } else { &REFS[..13] };
                    let x = *r.pick(from);
                    t += x;
                    let open = x.matches(|c| c == '(' || c == '{').count() - x.matches(|c| c == ')' || c == '}').count();
                    if open > 0 && r.chance(11, 12) { t += *r.pick(WORDS); for _ in 0..open { t += if x.contains('{') { "}" } else { ")" }; } }
                }
                7..=8 => t += *r.pick(OPS),
                9..=12 => t += *r.pick(WS),
                _ => t += if r.chance(1, 3) { *r.pick(KW) } else { ")" },
            }
        }
        if n + 1 < lines || r.chance(2, 3) { t += *r.pick(ENDS); }
    }
    t
}

/// what reading stops at because it is not implemented, and what a text must contain to have it
const UNFINISHED: &[(&str, &[&str])] = &[
    ("not implemented: Static pattern rules", &[":"]),
    ("not implemented: Unimplemented action TargetVariable", &[":"]),
    ("not implemented: Unimplemented action", &["export", "vpath", "load"]),
    ("not implemented: Handling of variable with modifiers", &["export", "override", "private", "undefine"]),
    ("not implemented: undefine modifier", &["undefine"]),
    ("not implemented: Handling `else`", &["else"]),
    ("not implemented: Handling conditional", &["ifdef", "ifndef"]),
    ("not implemented: Node", &["strip", "word"]),
    ("TODO: error routing for this parse", &["eval"]),
];

fn c19(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 19);
    let dir = Scratch::new();
    for n in 0..c.n(60000, 3000000) {
        let body = soup(&mut r);
        let text = if n % 4 == 0 { body } else { format!("P := a.a b.a c:d\nQ = $(P) x%y\nR := a\\#b\\\\ \nS := 1\nV1 = $$ $(Q)\n{}", body) };
        let root = dir.0.clone();
        if !c.case(&text, text.len() > 8, || {
            let mut real = Real::new();
            real.engine.working_directory = root;
            let mut b = text.as_bytes();
            let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = real.engine.read_makefile(&mut real.names, &mut b, "Makefile"); }));
            match got {
                Ok(()) => Ok(()),
                Err(p) => {
                    let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                    let low = text.to_lowercase();
                    if UNFINISHED.iter().any(|(k, ws)| m.starts_with(k) && ws.iter().any(|w| low.contains(w))) { Ok(()) } else { Err(format!("reading panics: {}", m)) }
                }
            }
        }) { return; }
    }
}

/// what one text reads: its own statements, in pieces, and files between them
struct Incl { pieces: Vec<Piece> }
enum Piece { Own(Vec<Stmt>), Files { text: String, files: Vec<(String, Option<Incl>)>, soft: bool } }

fn incl(r: &mut Rng, depth: usize, k: &mut usize, hard_missing: bool) -> Incl {
    let mut pieces = vec![];
    for _ in 0..1 + r.below(3) {
        let mut own = vec![];
        if r.chance(1, 2) { let n = 1 + r.below(3); own.extend(assigns(r, n, false)); }
        if r.chance(1, 2) { own.extend(rule(r)); }
        // where does a variable get defined
        let name = format!("at{}", *k);
        *k += 1;
        if r.chance(1, 2) { own.insert(0, Stmt::Assign { name: lit(&name), op: Op::Rec, value: lit("x") }); }
        pieces.push(Piece::Own(own));
        if depth > 0 && r.chance(3, 4) {
            let soft = r.chance(1, 2);
            let word = if soft { *r.pick(&["-include", "sinclude", "-INCLUDE"]) } else { *r.pick(&["include", "include", "Include"]) };
            let mut text = format!("{}{}", r.pick(&["", "", " ", "   "]), word);
            let mut files = vec![];
            for _ in 0..r.below(4) {
                let n = format!("{}f{}.mk", r.pick(&["", "", "sub/", "./", "a\u{20}b", "\u{e9}", "a:b", "x%y="]), *k);
                *k += 1;
                let there = if r.chance(1, 4) { !(soft || hard_missing) } else { true };
                let q = n.replace(' ', "\\ ");
                if q == n && r.chance(1, 4) {
                    // the name comes out of a variable
                    let v = format!("inc{}", *k);
                    *k += 1;
                    pieces.push(Piece::Own(vec![Stmt::Assign { name: lit(&v), op: Op::Rec, value: lit(&n) }]));
                    text += &format!("{}$({})", r.pick(&[" ", "  ", "\t", " \\\n "]), v);
                } else {
                    text += &format!("{}{}", r.pick(&[" ", "  ", "\t", " \\\n "]), q);
                }
                files.push((n, if there { Some(incl(r, depth - 1, k, hard_missing)) } else { None }));
            }
            text += *r.pick(&["\n", "\n", " \n", " # files\n"]);
            pieces.push(Piece::Files { text, files, soft });
        }
    }
    Incl { pieces }
}
fn incl_text(i: &Incl) -> String {
    i.pieces.iter().map(|p| match p { Piece::Own(s) => text_of(s), Piece::Files { text, .. } => text.clone() }).collect()
}
fn incl_write(i: &Incl, dir: &std::path::Path) {
    for p in &i.pieces { if let Piece::Files { files, .. } = p { for (n, f) in files {
        match f {
            Some(f) => { std::fs::write(dir.join(n), incl_text(f)).expect("scratch file"); incl_write(f, dir); }
            None => { let _ = std::fs::remove_file(dir.join(n)); }
        }
    } } }
}
/// Ok(None): everything was read; Ok(Some(file)): a file that has to be there is missing
fn incl_env(i: &Incl, env: &mut Env, name: &str, at: &mut Vec<(String, String, u32)>) -> Result<Option<String>, ()> {
    let mut line = 1;
    for p in &i.pieces {
        match p {
            Piece::Own(s) => {
                if let Some(Stmt::Assign { name: n, op: Op::Rec, .. }) = s.get(0) { let n = text_of_expr(n); if n.starts_with("at") { at.retain(|x| x.0 != n); at.push((n, name.to_string(), line)); } }
                env.file(s, 0).map_err(|_| ())?;
                line += text_of(s).matches('\n').count() as u32;
            }
            Piece::Files { files, soft, text } => {
                for (n, f) in files {
                    match f {
                        Some(f) => if let Some(m) = incl_env(f, env, n, at)? { return Ok(Some(m)); },
                        None => if !soft { return Ok(Some(n.clone())); },
                    }
                }
                line += text.matches('\n').count() as u32;
            }
        }
    }
    Ok(None)
}
fn text_of_expr(e: &Expr) -> String { let mut s = String::new(); for p in e { if let P::Lit(t) = p { s += t; } } s }

fn c18(c: &mut Ctx) {
    use hastur::{MakefileError, ParseErrorKind};
    use hastur::source_location::Location;
    let mut r = Rng::new(c.seed ^ 18);
    let dir = Scratch::new();
    for n in 0..c.n(1500, 20000) {
        let mut k = 0;
        let main = incl(&mut r, 2, &mut k, n % 3 == 0);
        let mut env = Env::default();
        let mut at = vec![];
        let missing = match incl_env(&main, &mut env, "Makefile", &mut at) { Ok(m) => m, Err(()) => continue };
        if !judgeable(&env) { continue; }
        let text = incl_text(&main);
        let mut shown = format!("{}", text);
        fn show(i: &Incl, s: &mut String) { for p in &i.pieces { if let Piece::Files { files, .. } = p { for (n, f) in files { match f {
            Some(f) => { *s += &format!("==== {:?}\n{}", n, incl_text(f)); show(f, s); }
            None => *s += &format!("==== {:?} is missing\n", n),
        } } } } }
        show(&main, &mut shown);
        let root = dir.0.clone();
        if !c.case(&shown, main.pieces.len() > 1, || {
            incl_write(&main, &root);
            let mut real = Real::new();
            real.engine.working_directory = root.clone();
            let mut b = text.as_bytes();
            let got = real.engine.read_makefile(&mut real.names, &mut b, "Makefile");
            match (&missing, got) {
                (None, Ok(())) => {}
                (Some(m), Err(MakefileError::ParseError(ParseErrorKind::IncludeFailure(std::io::ErrorKind::NotFound, f)))) => eq("the missing file", &f, m)?,
                (m, g) => return Err(format!("missing {:?}, but the result is {:?}", m, g)),
            }
            // also in case of an error, what was read before stays
            if missing.is_none() { compare(&mut real, &mut env).unwrap_or(Ok(()))?; }
            for (v, file, line) in &at {
                let a = match real.ast(v) { Some(a) => a, None => return Err(format!("{} is not defined", v)) };
                let b = real.block(&a);
                match b.span().location() {
                    Some(Location::SourceLocation { filename, line: l, .. }) => {
                        eq(&format!("file of {}", v), real.names.resolve_file_name(filename), Some(&file[..]))?;
                        eq(&format!("line of {}", v), l, *line)?;
                    }
                    x => return Err(format!("{} is at {:?}", v, x)),
                }
            }
            Ok(())
        }) { return; }
    }
}

// ------------------------------------------------------------ C15

fn c15(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 15);
    // names that only begin like a keyword
    for k in &["export", "unexport", "vpath", "include", "sinclude", "-include", "load", "-load", "override", "private", "define", "undefine", "ifeq", "ifneq", "ifdef", "ifndef", "else", "endif", "endef"] {
        for tail in &["s", "er.o", ".mk", "-x", "_", "/y", "\u{e9}", "1"] {
            let t = format!("{}{}", k, tail);
            if !rule_case(c, &format!("{}: d1 {}\n", t, t), &[t.clone()], &["d1".into(), t.clone()], &[]) { return; }
            if !rule_case(c, &format!("{} t2 : {} ;{}\n", t, t, t), &[t.clone(), "t2".into()], &[t.clone()], &[t.clone()]) { return; }
        }
        if !["include", "else", "endif", "endef"].contains(k) && !k.starts_with("if") { if !rule_case(c, &format!("{}: d1\n", k), &[k.to_string()], &["d1".into()], &[]) { return; } }
    }
    for i in 0..c.n(6000, 150000) {
        let mut pre = String::new();
        let nt = 1 + r.below(3);
        let mut ts = distinct(&mut r, nt);
        let mut ds: Vec<String> = (0..r.below(4)).map(|_| word(&mut r)).collect();
        let mut cmds = vec![];
        let gap = |r: &mut Rng| r.pick(&[" ", "  ", "\t", " \t"]).to_string();
        let mut line = String::new();
        let mut lead = false;
        let mut tstr = String::new();
        for (k, t) in ts.iter().enumerate() { if k > 0 { tstr += &gap(&mut r); } tstr += t; }
        let mut dstr = String::new();
        for (k, t) in ds.iter().enumerate() { if k > 0 { dstr += &gap(&mut r); } dstr += t; }
        match r.below(12) {
            0 => { pre += &format!("T = {}\n", tstr); line += "$(T)"; line += *r.pick(&["", " "]); line += ":"; }
            1 => { pre += &format!("H = {}:\n", tstr); line += "$(H)"; }
            2 => { pre += &format!("H = {} : x{}\n", tstr, i % 7); line += "$(H)"; ds.insert(0, format!("x{}", i % 7)); lead = true; }
            3 => { let w = format!("$(P)o$(P)"); pre += "P = p\n"; ts = vec![format!("popq"), ts[0].clone()]; line += &format!("{}q {}:", w, ts[1]); }
            4 => { let k = r.below(2); ts = vec![["c:\\x", "é:\\y"][k].to_string()]; line += &ts[0]; line += ":"; }
            5 => { pre += "D = c:/y/z\n"; ts = vec!["c:/y/z".into()]; line += "$(D):"; }
            6 => { line += "ab:\\x"; ts = vec!["ab".into()]; ds.insert(0, "\\x".into()); lead = true; }
            _ => { line += *r.pick(&["", " ", "  "]); line += &tstr; line += *r.pick(&["", " ", "\t"]); line += *r.pick(&[":", ":", "::"]); }
        }
        match r.below(6) {
            0 => { pre += &format!("S = {}\n", dstr); line += " $(S)"; }
            1 => { pre += &format!("S = {}\n", dstr); line += " e0"; line += " $(S) $(none)"; line += "e1"; let mut v = vec!["e0".to_string()]; if lead { v.insert(0, ds.remove(0)); } v.extend(ds.drain(..)); v.push("e1".into()); ds = v; }
            _ => { line += " "; line += &dstr; }
        }
        match r.below(6) {
            0 => { let k = r.string(&["c", ";", " ", ":", "é", "!", ",", "\t", "a: b"], 4); line += ";"; line += &k; cmds.push(k); }
            1 => { line += " ; run $(P) $$x"; if !pre.contains("P = ") { pre += "P = p\n"; } cmds.push(" run p $x".into()); }
            2 => { pre += "Q = q1 ; late\n"; line += " $(Q)"; ds.push("q1".into()); cmds.push(" late".into()); }
            _ => { line += *r.pick(&["", " ", "\t"]); }
        }
        // what starts like an assignment after the colon is a target specific variable
        let after = ds.join(" ");
        if after.contains('=') { continue; }
        let text = format!("{}{}\n", pre, line);
        if !rule_case(c, &text, &ts, &ds, &cmds) { return; }
    }
    c15_words(c, &mut r);
    // a line without targets defines nothing
    for nothing in &[": a b\n", ":: a\n", "$(none): d\n", "  \n", "$(none)\n"] { if !rule_case(c, nothing, &[], &[], &[]) { return; } }
}

/// A piece of a word of a rule line: (how it is written, what it expands to)
fn piece15(r: &mut Rng, left: bool) -> (String, String) {
    let mut q = |v: &[(&str, &str)]| { let p = r.pick(v); (p.0.to_string(), p.1.to_string()) };
    if left {
        q(&[("t", "t"), ("u/v", "u/v"), ("\u{e9}", "\u{e9}"), ("-+?x", "-+?x"), ("a+b", "a+b"), ("l?b", "l?b"), ("$$", "$"), ("$$(w", "$(w"), ("\\:", ":"),
            ("$(W)", "w1 w2"), ("${W}", "w1 w2"), ("$p", "pp"), ("$(p)", "pp"), ("$(n(m))", "nm"), ("${n{m}}", "nc"), ("$(eval X := 1: 2)x", "x"), ("$(n:m)", ""), ("$($(k))", "pp"), ("${$(k)}", "pp"), ("$(${k})", "pp"),
            ("$(C:.c=.o)", "x.o y.o"), ("${C:%.c=%.d}", "x.d y.d"), ("$(none)", ""), ("(", "("), ("./", "./"), ("$(E)", "\u{6f22}.c"),
            ("$(s;t)", "st"), ("${C:;=z}", "x.c y.c"), ("$(none;)", ""), ("$(n(;))", "ns"), ("${n{;}}", "nt")])
    } else {
        q(&[("t", "t"), ("u/v", "u/v"), ("\u{e9}", "\u{e9}"), ("a+b", "a+b"), ("l?b", "l?b"), ("$$", "$"),
            ("$(W)", "w1 w2"), ("${W}", "w1 w2"), ("$p", "pp"), ("$(p)", "pp"), ("$(n(m))", "nm"), ("${n{m}}", "nc"), ("$(eval X := 1: 2)x", "x"), ("$($(k))", "pp"), ("${$(k)}", "pp"),
            ("$(C:.c=.o)", "x.o y.o"), ("$(none)", ""), ("(", "("), ("./", "./"), ("$(E)", "\u{6f22}.c"), (",", ","), ("%", "%"),
            ("$(s;t)", "st"), ("${C:;=z}", "x.c y.c"), ("$(n(;))", "ns"), ("${n{;}}", "nt")])
    }
}

/// Rule lines out of words that are put together of text and references
fn c15_words(c: &mut Ctx, r: &mut Rng) {
    let pre = "W = w1 w2\np = pp\nn(m) = nm\nn{m} = nc\nk = p\nC = x.c y.c\nE = \u{6f22}.c\nONE = l1 l2 : r1\nSEMI = s1 ; late\nCOL = :\nDRV = c:/d\ns;t = st\nn(;) = ns\nn{;} = nt\n";
    // quoted colons only: no rule
    for line in ["a\\:", "x a\\:", "$(p)\\:", "\u{e9}\\: b\\:", "$(n(;)) a\\:"] {
        let text = format!("{}{}\n", pre, line);
        let ok = c.case(&text, true, || {
            let mut real = Real::new();
            real.read(&text, "Makefile")?;
            eq("number of rules", real.engine.database.rules().count(), 0)
        });
        if !ok { return; }
    }
    for _ in 0..c.n(6000, 150000) {
        let gap = |r: &mut Rng| r.pick(&[" ", " ", "  ", "\t", " \t"]).to_string();
        let (mut line, mut left, mut right) = (r.pick(&["", "", " ", "  "]).to_string(), String::new(), String::new());
        let mut whole = true;
        for k in 0..1 + r.below(3) {
            let (mut w, mut v) = (String::new(), String::new());
            if r.chance(1, 8) { let d = r.pick(&[("c:\\x", "c:\\x"), ("$(DRV)", "c:/d"), ("\u{e9}:\\y", "\u{e9}:\\y"), ("(b:\\z", "(b:\\z")]); w += d.0; v += d.1; }
            else { for _ in 0..1 + r.below(3) { let (a, b) = piece15(r, true); w += &a; v += &b; } }
            // a word that comes to nothing ends the line for this program
            if v.is_empty() || v.trim() != v { whole = false; }
            if k > 0 { line += &gap(r); left += " "; }
            line += &w; left += &v;
        }
        if !whole { continue; }
        match r.below(8) {
            0 => { line += " $(ONE)"; left += " l1 l2"; right += "r1 "; }
            1 => { line += " m$(COL)"; left += " m"; }
            2 => { line += "::"; }
            3 => { line += " :"; }
            4 => { line += " ::"; }
            _ => { line += ":"; }
        }
        if r.chance(1, 3) || line.ends_with(')') { line += " "; }
        let mut first = true;
        for _ in 0..r.below(4) {
            let (mut w, mut v) = (String::new(), String::new());
            for _ in 0..1 + r.below(3) { let (a, b) = piece15(r, false); w += &a; v += &b; }
            if !first || line.ends_with(':') && r.chance(1, 2) { line += &gap(r); }
            right += " ";
            // what starts with a slash after the colon would make it part of a drive specification
            if first && line.ends_with(':') && (w.starts_with('/') || w.starts_with('\\')) { line += " "; }
            line += &w; right += &v;
            first = false;
        }
        let mut cmds = vec![];
        match r.below(8) {
            0 => { line += ";"; cmds.push(String::new()); }
            1 => { line += " ; echo $(p) x ; y: $$z"; cmds.push(" echo pp x ; y: $z".to_string()); }
            2 => { line += " $(SEMI)"; right += " s1 "; cmds.push(" late".to_string()); }
            3 => { line += " # c ; d"; }
            4 => { line += ";\u{e9}: $(W)=x"; cmds.push("\u{e9}: w1 w2=x".to_string()); }
            _ => {}
        }
        if r.chance(1, 3) && cmds.is_empty() { line += "\n\tmore $(p)"; cmds.push("more pp".to_string()); }
        let mut ts: Vec<String> = vec![];
        for t in left.split_whitespace() { if !ts.iter().any(|x| x == t) { ts.push(t.to_string()); } }
        if ts.len() != left.split_whitespace().count() { continue; }
        let ds: Vec<String> = right.split_whitespace().map(|x| x.to_string()).collect();
        let text = format!("{}{}\n", pre, line);
        if !rule_case(c, &text, &ts, &ds, &cmds) { return; }
    }
}

// ------------------------------------------------------------ C02: provenance in files

fn provenance(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 2);
    for _ in 0..c.n(1500, 40000) {
        let n = 2 + r.below(5);
        let mut prog = assigns(&mut r, n, true);
        let mut k = 0;
        if r.chance(1, 2) { prog = with_evals(&mut r, prog, &mut k); }
        prog.extend(list_vars(&mut r));
        for _ in 0..r.below(3) { prog.extend(rule(&mut r)); }
        if r.chance(1, 2) { prog.push(Stmt::Define { name: "def".into(), head: "define def\n".into(), body: vec![vec![P::Lit("l1 ".into()), var("a"), P::Lit("\n".into())], vec![P::Lit("é".into()), var("b"), P::Dollar, P::Lit("\n".into())]], indent: "".into() }); }
        let mut text = text_of(&prog);
        // break some lines
        if r.chance(1, 2) {
            text = text.split_inclusive('\n').map(|l| if !l.starts_with('\t') && !l.contains(';') && r.chance(1, 3) { l.replacen(" = ", " = \\\n  ", 1).replacen(" := ", " := \\\n ", 1) } else { l.to_string() }).collect();
        }
        let mut env = Env::default();
        if env.file(&prog, 0).is_err() { continue; }
        if !judgeable(&env) { continue; }
        let chars: Vec<Vec<char>> = text.split('\n').map(|l| l.chars().chain(Some('\n')).collect()).collect();
        let ok = c.case(&text, true, || {
            let mut real = Real::new();
            real.read(&text, "Makefile")?;
            let file = real.names.file_name("Makefile").ok_or("file name not interned")?;
            let mut blocks = vec![];
            let mut names = universe(&env);
            names.insert("def".into());
            for n in names { if let Some(a) = real.ast(&n) { let db = real.engine.database.clone(); blocks.push((format!("variable {}", n), real.block(&a))); real.engine.database = db; } }
            let rules: Vec<_> = real.engine.database.rules().cloned().collect();
            for rl in rules {
                blocks.push(("target".into(), rl.target().clone()));
                for d in rl.dependencies() { blocks.push(("prerequisite".into(), d.clone())); }
                for x in rl.recipe().commands() { let a = command_ast(x).clone(); let db = real.engine.database.clone(); blocks.push(("command".into(), real.block(&a))); real.engine.database = db; }
            }
            for (what, b) in blocks {
                for s in b.span().segments() {
                    if let Location::SourceLocation { line, character, filename } = s.location() {
                        eq("file", *filename == file, true)?;
                        let (mut l, mut k) = (*line as usize, *character as usize);
                        for ch in s.chars() {
                            let there = if l == 0 || k == 0 { None } else { chars.get(l - 1).and_then(|x| x.get(k - 1)).cloned() };
                            eq(&format!("{}: character at {}:{} (segment {:?})", what, l, k, &*s), Some(ch), there)?;
                            if ch == '\n' { l += 1; k = 1; } else { k += 1; }
                        }
                    } else if !(s.chars().all(|c| c == ' ' || c == '\n' || c == ';')) {
                        return Err(format!("{}: text {:?} has no position in the file", what, &*s));
                    }
                }
            }
            Ok(())
        });
        if !ok { return; }
    }
}

pub fn run(prop: &str, c: &mut Ctx) {
    c.rule = match prop {
        "C01" | "C02" => "random assembly histories of blocks (leaves, concatenations, references, slices, appended slices, simplified copies) with multi-byte text; distinct = distinct histories",
        "C04" => "all byte strings over a small alphabet and piece layouts, then random blocks; distinct = distinct inputs",
        "C03" => "all pairs of positions from a grid plus random ones; distinct = distinct unequal pairs",
        "C16" => "random syntax trees; distinct = distinct traversal orders",
        "C17" => "random intern and lookup histories; distinct = distinct histories",
        _ => "generated makefiles read by the real engine and compared with the reference semantics; distinct = distinct texts",
    }.into();
    let mut r = Rng::new(c.seed);
    match prop {
        "C01" | "C02" => {
            if prop == "C02" { provenance(c); }
            for _ in 0..c.n(6000, 200000) {
                let keep = Rng(r.0);
                let input = format!("history seed {}", keep.0);
                if !c.case(&input, true, blocks::blocks_case(&mut r, prop == "C02")) { return; }
            }
        }
        "C03" => blocks::order(c),
        "C04" => {
            characters(c);
            blocks::nom_exhaustive(c);
            for _ in 0..c.n(6000, 200000) {
                let input = format!("history seed {}", r.0);
                if !c.case(&input, true, blocks::nom_case(&mut r)) { return; }
            }
        }
        "C05" => c05(c),
        "C06" => c06(c),
        "C07" => c07(c),
        "C08" => c08(c),
        "C09" => c09(c),
        "C10" => c10(c),
        "C11" => c11(c),
        "C12" => c12(c),
        "C13" => c13(c),
        "C14" => c14(c),
        "C15" => c15(c),
        "C16" => blocks::visitors::run(c),
        "C17" => blocks::names(c),
        "C18" => c18(c),
        "C19" => c19(c),
        p => panic!("unknown property {}", p),
    }
}
