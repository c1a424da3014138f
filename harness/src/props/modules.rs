//! C09, C10, C11: modules and their object code
use super::program::{def_fns, def_vars, gen_defs};
use crate::core::{no_panic, pass, Def, Env, Outcome, Prop};
use crate::fail;
use crate::lang::{self, Def as D, EvalErr, Expr, Scope, Scoped};
use crate::sheet::{CellM, Content, Fill, Program, RowM};
use crate::src::Src;
use crate::sut::{self, Grid};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::Path;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Broken {
    Missing,
    Code,
    Options,
    Formula,
    Csv,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mod {
    pub name: String,
    pub uses: Vec<String>,
    pub program: Program,
    pub broken: Option<Broken>,
    pub noise: u64,
}

/// the first one is main
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Project {
    pub mods: Vec<Mod>,
}

pub const MODULES: &[&str] = &["main", "lib", "lib2", "lib.v2", "taxes", "Rates", "m_1", "shared", "libs", "a", "a.b", "Foo", "very_long_module_name_2024", "n9", "été", "zz", "m_10"];
/// few, so that they're defined by several modules
const VARS: &[&str] = &["foo", "bar", "a", "rate", "lib", "foo2", "truex", "_p"];
const FNS: &[&str] = &["calc", "tax", "lib", "taxes", "f", "usef", "foo", "a"];
fn pool(n: &str) -> bool {
    VARS.contains(&n) || FNS.contains(&n)
}

impl Mod {
    pub fn source(&self) -> Option<String> {
        let mut src = self.program.write_with(&self.uses, self.noise);
        if self.broken.is_some() && !src.ends_with('\n') {
            src.push('\n');
        }
        Some(match &self.broken {
            None => src,
            Some(Broken::Missing) => return None,
            Some(Broken::Code) => "oops := (1 + \n---\n".to_string(),
            Some(Broken::Options) => format!("{src}[[nonsense=1]]x\n"),
            Some(Broken::Formula) => format!("{src}=foo(\n"),
            Some(Broken::Csv) => format!("{src}\"closed\" already\n"),
        })
    }
}

impl Project {
    pub fn write(&self, dir: &Path) {
        for m in &self.mods {
            if let Some(s) = m.source() {
                fs::write(dir.join(format!("{}.csvpp", m.name)), s).unwrap();
            }
        }
    }
    pub fn get(&self, name: &str) -> Option<&Mod> {
        self.mods.iter().find(|m| m.name == name)
    }
    pub fn show(&self) -> Value {
        let m: serde_json::Map<String, Value> =
            self.mods.iter().map(|m| (m.name.clone(), m.source().map_or(Value::Null, Value::String))).collect();
        Value::Object(m)
    }
    /// everything which gets loaded
    pub fn reachable(&self) -> Vec<String> {
        let mut seen = vec!["main".to_string()];
        let mut i = 0;
        while i < seen.len() {
            if let Some(m) = self.get(&seen[i]) {
                if m.broken.is_none() {
                    for u in &m.uses {
                        if !seen.contains(u) {
                            seen.push(u.clone());
                        }
                    }
                }
            }
            i += 1;
        }
        seen
    }
    pub fn bad(&self) -> Vec<String> {
        self.reachable().into_iter().filter(|n| self.get(n).map_or(true, |m| m.broken.is_some())).collect()
    }
    /// whether a module requires itself, in any number of steps
    pub fn in_cycle(&self, name: &str) -> bool {
        self.below(name).contains(name)
    }
    /// what a module requires, in any number of steps
    fn below(&self, name: &str) -> BTreeSet<String> {
        let mut seen = BTreeSet::new();
        let mut todo = self.get(name).map(|m| m.uses.clone()).unwrap_or_default();
        while let Some(n) = todo.pop() {
            if seen.insert(n.clone()) {
                todo.extend(self.get(&n).map(|m| m.uses.clone()).unwrap_or_default());
            }
        }
        seen
    }
}

// ------------------------------------------------------------------ the model

enum Unclear {
    TooBig,
    /// several required modules define it
    SeveralMeanings,
    /// what isn't defined in it's module would be where it's used
    Captured,
    Cycle,
}

struct Model<'a> {
    p: &'a Project,
    /// each module's definitions, with everything in them evaluated
    exports: BTreeMap<String, Vec<D>>,
}

fn free_names(d: &D, out: &mut BTreeSet<String>) {
    let params: &[String] = if let D::Fn(_, p, _) = d { p } else { &[] };
    d.body().any(&mut |e| {
        if let Expr::Ref(n) | Expr::Call(n, _) = e {
            if !params.contains(n) {
                out.insert(n.clone());
            }
        }
        false
    });
}

fn is_fn(d: &D) -> bool {
    matches!(d, D::Fn(..))
}

impl<'a> Model<'a> {
    fn scope(&mut self, m: &'a Mod, stack: &mut Vec<String>) -> Result<Scope, Unclear> {
        let mut s = Scope::default();
        for d in &m.program.defs {
            s.define(d);
        }
        let mut from: BTreeMap<(bool, String), String> = BTreeMap::new();
        for u in &m.uses {
            // a module in a cycle has a meaning only if it doesn't need it
            let cyclic = stack.contains(u);
            let ex = if cyclic {
                if self.p.get(u).is_some_and(|u| u.program.defs.iter().any(|d| self.needs_others(d))) {
                    return Err(Unclear::Cycle);
                }
                self.p.get(u).map(|m| m.program.defs.clone()).unwrap_or_default()
            } else {
                self.export(u, stack)?
            };
            for d in ex {
                let k = (is_fn(&d), d.name().to_string());
                if m.program.defs.iter().any(|o| o.name() == d.name() && is_fn(o) == is_fn(&d)) {
                    continue;
                }
                if from.get(&k).is_some_and(|f| f != u) {
                    return Err(Unclear::SeveralMeanings);
                }
                from.insert(k, u.clone());
                s.define(&d);
            }
        }
        Ok(s)
    }

    /// whether a definition uses others at all
    fn needs_others(&self, d: &D) -> bool {
        let mut free = BTreeSet::new();
        free_names(d, &mut free);
        let defined = |n: &str| self.p.mods.iter().any(|m| m.program.defs.iter().any(|d| d.name() == n));
        free.iter().any(|n| pool(n) || defined(n))
    }

    fn export(&mut self, name: &str, stack: &mut Vec<String>) -> Result<Vec<D>, Unclear> {
        if let Some(e) = self.exports.get(name) {
            return Ok(e.clone());
        }
        let m = self.p.get(name).expect("a module");
        stack.push(name.to_string());
        let scope = self.scope(m, stack);
        stack.pop();
        let scope = scope?;
        let mut out = vec![];
        for d in &m.program.defs {
            let params: &[String] = if let D::Fn(_, p, _) = d { p } else { &[] };
            let e = scope.eval_body(params, d.body()).map_err(|_| Unclear::TooBig)?;
            out.push(match d {
                D::Var(n, _) => D::Var(n.clone(), e),
                D::Fn(n, p, _) => D::Fn(n.clone(), p.clone(), e),
            });
        }
        // (in a cycle it's a matter of where one enters it)
        if self.p.in_cycle(name) && m.program.defs.iter().any(|d| self.needs_others(d)) {
            return Err(Unclear::Cycle);
        }
        self.exports.insert(name.to_string(), out.clone());
        Ok(out)
    }
}

fn model(p: &Project) -> Result<Grid, Unclear> {
    let mut mo = Model { p, exports: BTreeMap::new() };
    let main = &p.mods[0];
    // what isn't defined in a module may not mean anything where it's used
    let mut all_params = BTreeSet::new();
    let reach = p.reachable();
    for n in &reach {
        for d in &p.get(n).unwrap().program.defs {
            if let D::Fn(_, ps, _) = d {
                all_params.extend(ps.iter().cloned());
            }
        }
    }
    let mut scope = mo.scope(main, &mut vec!["main".into()])?;
    for n in reach.iter().skip(1) {
        let ex = mo.export(n, &mut vec![])?;
        let mut free = BTreeSet::new();
        ex.iter().for_each(|d| free_names(d, &mut free));
        if free.iter().any(|f| all_params.contains(f)) {
            return Err(Unclear::Captured);
        }
        for user in &reach {
            if user != n && p.below(user).contains(n) {
                let u = p.get(user).unwrap();
                let mut visible: BTreeSet<String> = u.program.defs.iter().map(|d| d.name().to_string()).collect();
                visible.extend(u.uses.iter().filter_map(|x| p.get(x)).flat_map(|m| m.program.defs.iter().map(|d| d.name().to_string())));
                visible.extend(u.program.places().into_iter().map(|(n, _)| n));
                if free.iter().any(|f| visible.contains(f)) {
                    return Err(Unclear::Captured);
                }
            }
        }
    }
    scope.places = main.program.places().into_iter().collect();
    main.program.eval(&scope).map_err(|e| match e {
        EvalErr::TooBig => Unclear::TooBig,
        EvalErr::Arity(n) => panic!("the generator made a wrong call of {n}"),
    })
}

// ------------------------------------------------------------------ generating projects

pub struct ProjectShape {
    pub mods: usize,
    pub cycles: bool,
    pub broken: bool,
}

fn some_of(s: &mut Src, of: &[&str], n: usize) -> Vec<String> {
    s.perm(of.len()).into_iter().take(n).map(|i| of[i].to_string()).collect()
}

pub fn gen_project(s: &mut Src, sh: &ProjectShape) -> Project {
    let n = s.wide(1, sh.mods, 14, 12) + 1;
    let mut mods: Vec<Mod> = vec![];
    // from the last one to main
    for i in (0..n).rev() {
        let later: Vec<String> = mods.iter().map(|m| m.name.clone()).collect();
        let mut uses: Vec<String> = vec![];
        for l in later.iter().rev() {
            if s.chance(if i == 0 { 3 } else { 2 }, 5) {
                uses.push(l.clone());
            }
        }
        let order = s.perm(uses.len());
        uses = order.into_iter().map(|i| uses[i].clone()).collect();
        if !uses.is_empty() && s.chance(1, 10) {
            // required twice
            let again = s.pick(&uses).clone();
            uses.push(again);
        }
        let nv = s.us(4);
        let nf = s.us(3);
        let mut vars = some_of(s, VARS, nv);
        let mut funs = some_of(s, FNS, nf);
        // don't leave it unclear which of several modules is meant
        let mut imported: Vec<D> = vec![];
        let mut kept: Vec<String> = vec![];
        for u in uses {
            let m = mods.iter().find(|m| m.name == u).unwrap();
            let unclear = s.chance(1, 30);
            if !kept.contains(&u) && !unclear {
                for d in &m.program.defs {
                    let own = if is_fn(d) { &mut funs } else { &mut vars };
                    if imported.iter().any(|o| o.name() == d.name() && is_fn(o) == is_fn(d)) && !own.iter().any(|n| n == d.name()) {
                        own.push(d.name().to_string());
                    }
                }
            }
            imported.extend(m.program.defs.iter().cloned());
            kept.push(u);
        }
        let (nv, nf) = (vars.len(), funs.len());
        let refs: Vec<String> = def_vars(&imported).into_iter().filter(|n| !vars.contains(n)).collect();
        let fns: Vec<(String, usize)> = def_fns(&imported).into_iter().filter(|(n, _)| !funs.contains(n)).collect();
        let mut defs_refs = refs.clone();
        if s.chance(1, 8) {
            // it isn't defined here, and so doesn't mean anything
            defs_refs.push((*s.pick(&["nowhere", "elsewhere"])).to_string());
        }
        if i > 0 && s.chance(1, 16) {
            // (unless it's defined by those who require it)
            let n = (*s.pick(VARS)).to_string();
            if !vars.contains(&n) {
                defs_refs.push(n);
            }
        }
        let mut names: Vec<String> = (0..nv + nf).map(|i| format!("own_{i}")).collect();
        let mut defs = gen_defs(s, &mut names, nv, nf, 2, &defs_refs, &fns);
        let (mut v, mut f) = (vars.clone().into_iter(), funs.clone().into_iter());
        let map: BTreeMap<(bool, String), String> =
            defs.iter().map(|d| ((is_fn(d), d.name().to_string()), if is_fn(d) { f.next().unwrap() } else { v.next().unwrap() })).collect();
        let to = |n: &str, call: bool| map.get(&(call, n.to_string())).cloned().unwrap_or_else(|| n.to_string());
        for d in &mut defs {
            match d {
                D::Var(n, e) => {
                    *n = to(n, false);
                    *e = e.rename(&to);
                }
                D::Fn(n, ps, e) => {
                    *n = to(n, true);
                    // (parameters might be called like what's defined)
                    let from = ps.clone();
                    let mut called: Vec<String> = (0..from.len()).map(|k| format!("p{}", k + 1)).collect();
                    for c in &mut called {
                        if s.chance(1, 4) {
                            let own = !vars.is_empty() && s.chance(2, 3);
                            *c = if own { s.pick(&vars).clone() } else { (*s.pick(VARS)).to_string() };
                        }
                    }
                    if called.iter().collect::<BTreeSet<_>>().len() < called.len() {
                        called = (0..from.len()).map(|k| format!("p{}", k + 1)).collect();
                    }
                    let q = |k: usize| called[k].clone();
                    *e = e.rename(&|n, call| match from.iter().position(|p| p == n) {
                        Some(k) if !call => q(k),
                        _ => to(n, call),
                    });
                    *ps = (0..from.len()).map(q).collect();
                }
            }
        }
        let rows = if i == 0 {
            let mut cell_refs = refs;
            cell_refs.extend(def_vars(&defs));
            // also what other modules define but aren't imported from
            if s.chance(1, 3) {
                cell_refs.extend(mods.iter().flat_map(|m| def_vars(&m.program.defs)).filter(|n| !vars.contains(n)));
            }
            let mut cell_fns = fns;
            cell_fns.extend(def_fns(&defs));
            if s.chance(1, 4) {
                // (a function which isn't visible is just a call)
                for m in &mods {
                    for (n, _) in def_fns(&m.program.defs) {
                        if !cell_fns.iter().any(|(x, _)| *x == n) && !imported.iter().any(|d| d.name() == n) {
                            cell_fns.push((n, s.us(3)));
                        }
                    }
                }
            }
            let nrows = s.range(1, 3) as usize;
            (0..nrows)
                .map(|y| RowM {
                    fill: if s.chance(1, 8) { Fill::Times(2) } else { Fill::No },
                    var: None,
                    cells: (0..s.range(1, 3))
                        .map(|x| CellM {
                            var: if s.chance(1, 8) { Some(format!("cell{x}{y}")) } else { None },
                            content: Content::Formula({
                                let d = s.us(3);
                                let own_var = format!("cell{x}0");
                                let mut r = cell_refs.clone();
                                r.push(own_var);
                                lang::gen_expr(s, &Scoped { refs: &r, fns: &cell_fns, wild_text: false, empty_args: false }, d)
                            }),
                        })
                        .collect(),
                })
                .collect()
        } else {
            // what's ignored
            (0..s.us(2))
                .map(|_| RowM {
                    fill: if s.chance(1, 3) { Fill::Rest } else { Fill::No },
                    var: None,
                    cells: vec![CellM { var: None, content: Content::Formula(lang::re("foo")) }],
                })
                .collect()
        };
        let broken = if i > 0 && sh.broken && s.chance(1, 5) {
            Some(s.pick(&[Broken::Missing, Broken::Code, Broken::Options, Broken::Formula, Broken::Csv]).clone())
        } else {
            None
        };
        let noise = if s.chance(1, 2) { s.below(1 << 32) } else { 0 };
        mods.push(Mod { name: MODULES[i].to_string(), uses: kept, program: Program { defs, rows }, broken, noise });
    }
    mods.reverse();
    if sh.cycles {
        for _ in 0..s.range(1, 2) {
            let from = s.us(mods.len());
            let to = s.us(mods.len());
            let to = mods[to.min(from)].name.clone();
            let at = s.us(mods[from].uses.len() + 1);
            mods[from].uses.insert(at, to);
        }
    }
    Project { mods }
}

// ------------------------------------------------------------------ C09

#[derive(Clone, Serialize, Deserialize)]
struct C09 {
    project: Project,
    cache: bool,
}

fn gen_c09(s: &mut Src) -> C09 {
    let cycles = s.chance(1, 6);
    let broken = s.chance(1, 5);
    let mut project = gen_project(s, &ProjectShape { mods: 6, cycles, broken });
    if cycles && s.chance(1, 2) {
        // modules whose definitions don't need others have a meaning also in a cycle
        let cyclic: Vec<String> = project.mods.iter().filter(|m| project.in_cycle(&m.name)).map(|m| m.name.clone()).collect();
        for m in project.mods.iter_mut().filter(|m| cyclic.contains(&m.name)) {
            let to = |n: &str, call: bool| {
                if pool(n) {
                    if call { "SUM".into() } else { "A1".into() }
                } else {
                    n.to_string()
                }
            };
            for d in &mut m.program.defs {
                match d {
                    D::Var(_, e) | D::Fn(_, _, e) => *e = e.rename(&to),
                }
            }
        }
    }
    if s.chance(1, 4) {
        rename_all(s, &mut project);
    }
    C09 { project, cache: s.chance(1, 4) }
}

/// the same project with any other names for what it defines
fn rename_all(s: &mut Src, p: &mut Project) {
    let old: Vec<&str> = VARS.iter().chain(FNS).copied().collect::<BTreeSet<_>>().into_iter().collect();
    let new = lang::any_names(s, old.len());
    let map: BTreeMap<&str, String> = old.into_iter().zip(new).collect();
    let to = |n: &str, _: bool| map.get(n).cloned().unwrap_or_else(|| n.to_string());
    for m in &mut p.mods {
        for d in &mut m.program.defs {
            match d {
                D::Var(n, e) => (*n, *e) = (to(n, false), e.rename(&to)),
                D::Fn(n, ps, e) => {
                    (*n, *e) = (to(n, true), e.rename(&to));
                    ps.iter_mut().for_each(|p| *p = to(p, false));
                }
            }
        }
        for c in m.program.rows.iter_mut().flat_map(|r| &mut r.cells) {
            if let Content::Formula(e) = &mut c.content {
                *e = e.rename(&to);
            }
        }
    }
}

fn names_word(msg: &str, word: &str) -> bool {
    let part = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_');
    msg.match_indices(word).any(|(i, _)| {
        let after = &msg[i + word.len()..];
        // `lib` isn't named by `lib.v2`, but it's by `lib.csvpp`
        let longer = part(after.chars().next())
            || after.starts_with('.') && part(after.chars().nth(1)) && !after.starts_with(".csvpp");
        !longer && !part(msg[..i].chars().next_back())
    })
}

fn check_c09(c: &C09, env: &mut Env) -> Outcome {
    let d = env.dir();
    let p = &c.project;
    p.write(&d);
    let o = sut::Opts { cache: c.cache, ..Default::default() };
    let got = sut::compile_file(&d.join("main.csvpp"), &o).map(|m| sut::grid(&m));
    let bad = p.bad();
    let reach = p.reachable();
    if !bad.is_empty() {
        return match got {
            Ok(g) => Outcome::Fail(format!("compiled although {bad:?} can't be loaded: {g:?}")),
            Err(e) => {
                let e = sut::plain(&e);
                match bad.iter().find(|b| !names_word(&e, b)) {
                    Some(b) => Outcome::Fail(format!("the error doesn't name the module {b}: {e}")),
                    None => pass(true, &["a module which can't be loaded"]),
                }
            }
        };
    }
    let cyclic = reach.iter().any(|n| p.in_cycle(n));
    match model(p) {
        Ok(want) => match got {
            Err(e) => Outcome::Fail(format!("rejected: {}", sut::plain(&e))),
            Ok(g) if g != want => Outcome::Fail(format!("(expected vs compiled) {}", sut::diff(&want, &g))),
            Ok(_) => {
                let imports: BTreeSet<String> = p.mods[0].uses.iter().filter_map(|u| p.get(u)).flat_map(|m| m.program.defs.iter().map(|d| d.name().to_string())).collect();
                let used = p.mods[0].program.rows.iter().flat_map(|r| &r.cells).any(|c| {
                    matches!(&c.content, Content::Formula(e) if e.any(&mut |e| matches!(e, Expr::Ref(n) | Expr::Call(n, _) if imports.contains(n))))
                });
                let mut tags = vec![];
                if cyclic {
                    tags.push("a cycle with a meaning");
                }
                if reach.len() > p.mods[0].uses.len() + 1 {
                    tags.push("indirect modules");
                }
                if reach.iter().any(|n| reach.iter().filter(|u| p.get(u).unwrap().uses.contains(n)).count() > 1) {
                    tags.push("a shared module");
                }
                pass(used, &tags)
            }
        },
        Err(u) => pass(
            cyclic,
            &[match u {
                Unclear::TooBig => "only ends: too large",
                Unclear::SeveralMeanings => "only ends: several modules define it",
                Unclear::Captured => "only ends: an undefined name is defined elsewhere",
                Unclear::Cycle => "only ends: a cycle",
            }],
        ),
    }
}

// ------------------------------------------------------------------ C10

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// a module gets another source
    Edit { m: usize, variant: usize },
    Touch { m: usize },
    Remove { m: usize },
    RemoveObject { m: usize },
    /// it's object file can't be written or read
    BlockObject { m: usize, directory: bool },
    Compile {
        main: usize,
        cache: bool,
        key: Option<u8>,
        /// how it's path is written
        #[serde(default)]
        via: u8,
    },
    /// several compilations at the same time: the main module, a key-value and how much later it
    /// starts (in tens of microseconds)
    AtOnce { each: Vec<(usize, Option<u8>, u16)> },
}

#[derive(Clone, Serialize, Deserialize)]
struct C10 {
    /// each has a source for each module
    variants: Vec<Project>,
    names: Vec<String>,
    ops: Vec<Op>,
    /// the steps which happen at the same time (as far as can be told) as the one before
    #[serde(default)]
    same_time: Vec<usize>,
    /// nanoseconds between steps
    #[serde(default = "ten_seconds")]
    unit: u64,
}

fn ten_seconds() -> u64 {
    10_000_000_000
}

const OPTION_ROWS: &[&str] = &[
    "",
    "![[b=all bc=#ff0000]]x,[[n='a note' fs=12]]y\n",
    "[[t=bold t=italic fc=#00aa00]]x,[[dv=number_gt(3)]],=foo\n",
    "![[fill=2 c=#123456]]a,[[nf=percent ha=center]]=bar\n",
    "[[dv=one_of(1, foo, A1)]],[[l wrap=wrap va=top ff=Arial bs=dashed]]é\n",
];

fn gen_c10(s: &mut Src) -> C10 {
    let mods = if s.chance(1, 8) { 13 } else { 3 };
    let variants: Vec<Project> = (0..3).map(|_| gen_project(s, &ProjectShape { mods, cycles: false, broken: false })).collect();
    let all = variants.iter().map(|v| v.mods.len()).max().unwrap_or(0).max(4);
    let names: Vec<String> = MODULES.iter().take(all).map(|m| (*m).to_string()).collect();
    let mut ops = vec![];
    for _ in 0..s.range(2, 10) {
        let m = s.us(all);
        ops.push(match s.weighted(&[12, 16, 2, 2, 2, 1, 5]) {
            0 => Op::Edit { m, variant: s.us(3 * OPTION_ROWS.len()) },
            1 => Op::Compile {
                main: if s.chance(3, 4) { 0 } else { m },
                cache: s.chance(5, 6),
                key: if s.chance(1, 8) { Some(s.below(3) as u8) } else { None },
                via: if s.chance(1, 6) { s.range(1, 3) as u8 } else { 0 },
            },
            2 => Op::Touch { m },
            3 => Op::Remove { m },
            4 => Op::RemoveObject { m },
            6 => Op::AtOnce {
                each: (0..s.range(2, 5))
                    .map(|_| {
                        let main = if s.chance(3, 4) { 0 } else { s.us(all) };
                        (main, if s.chance(1, 8) { Some(s.below(3) as u8) } else { None }, if s.chance(1, 2) { 0 } else { s.below(100) as u16 })
                    })
                    .collect(),
            },
            _ => Op::BlockObject { m, directory: s.chance(1, 2) },
        });
    }
    ops.push(Op::Compile { main: 0, cache: true, key: None, via: 0 });
    let same_time = if s.chance(1, 2) { (0..ops.len()).filter(|_| s.chance(1, 4)).collect() } else { vec![] };
    let unit = *s.pick(&[10_000_000_000, 1, 100, 1_000_000, 4_000_000, 250_000_000, 1_000_000_000, 2_000_000_000, 90_000_000_000_000]);
    C10 { variants, names, ops, same_time, unit }
}

fn variant_source(c: &C10, m: usize, v: usize) -> String {
    let p = &c.variants[v % 3];
    let name = &c.names[m];
    let mut src = p.get(name).and_then(Mod::source).unwrap_or_else(|| "foo := 7\nbar := foo\n---\n=foo,=bar\n".into());
    if !OPTION_ROWS[v / 3].is_empty() && !src.ends_with('\n') {
        src.push('\n');
    }
    format!("{src}{}", OPTION_ROWS[v / 3])
}

/// everything that a compilation amounts to
pub fn result_of(main: &Path, o: &sut::Opts) -> Result<(Grid, String), String> {
    let c = sut::compiler(main, Path::new("out.csv"), o)?;
    let m = c.compile().map_err(|e| e.to_string())?;
    let sheets = csvpp::verif::google_sheets_batch_update(&c, &m, "[]").map_err(|e| e.to_string())?;
    Ok((sut::grid(&m), sheets))
}

type Outcome10 = Result<(Grid, String), String>;

fn differ(a: &Outcome10, b: &Outcome10) -> Option<String> {
    match (a, b) {
        (Ok(a), Ok(b)) if a.0 != b.0 => Some(sut::diff(&a.0, &b.0)),
        (Ok(a), Ok(b)) if a.1 != b.1 => Some("their formats differ".into()),
        (Ok(_), Err(e)) => Some(format!("only the second fails: {}", sut::plain(e))),
        (Err(e), Ok(_)) => Some(format!("only the first fails: {}", sut::plain(e))),
        _ => None,
    }
}

fn mtimes(d: &Path) -> BTreeMap<String, std::time::SystemTime> {
    fs::read_dir(d)
        .unwrap()
        .filter_map(|e| {
            let e = e.ok()?;
            Some((e.file_name().to_string_lossy().to_string(), e.metadata().ok()?.modified().ok()?))
        })
        .collect()
}

fn key_value(key: Option<u8>) -> Vec<String> {
    key.iter().map(|k| format!("{}={k}", VARS[*k as usize])).collect()
}

/// what's been written by this step gets it's time
fn set_new_mtimes(d: &Path, before: &BTreeMap<String, std::time::SystemTime>, tick: u64, unit: u64) -> Vec<String> {
    let written: Vec<String> = mtimes(d).into_iter().filter(|(f, t)| before.get(f) != Some(t)).map(|(f, _)| f).collect();
    for f in &written {
        sut::set_mtime_in(&d.join(f), tick, unit);
    }
    written
}

/// compile it's sources where nothing has been cached
fn from_scratch(d: &Path, clean: &Path, main: &str, key: Option<u8>) -> Outcome10 {
    let _ = fs::remove_dir_all(clean);
    fs::create_dir_all(clean).unwrap();
    for (n, b) in sut::snapshot(d) {
        if n.ends_with(".csvpp") {
            fs::write(clean.join(n), b).unwrap();
        }
    }
    let o = sut::Opts { key_values: key_value(key), ..Default::default() };
    result_of(&clean.join(format!("{main}.csvpp")), &o)
}

fn check_c10(c: &C10, env: &mut Env) -> Outcome {
    let root = env.dir();
    let (d, clean) = (root.join("work"), root.join("clean"));
    fs::create_dir_all(d.join("sub")).unwrap();
    std::os::unix::fs::symlink(&d, root.join("other-name")).unwrap();
    let mut tick = 1;
    let path = |m: usize, ext: &str| d.join(format!("{}.{ext}", c.names[m]));
    for m in 0..c.names.len() {
        fs::write(path(m, "csvpp"), variant_source(c, m, 0)).unwrap();
        sut::set_mtime_in(&path(m, "csvpp"), tick, c.unit);
    }
    let (mut reused, mut compiled, mut edited) = (false, false, false);
    for (i, op) in c.ops.iter().enumerate() {
        tick += u64::from(!c.same_time.contains(&i));
        match op {
            Op::Edit { m, variant } => {
                fs::write(path(*m, "csvpp"), variant_source(c, *m, *variant)).unwrap();
                sut::set_mtime_in(&path(*m, "csvpp"), tick, c.unit);
                edited |= compiled;
            }
            Op::Touch { m } => {
                if path(*m, "csvpp").exists() {
                    sut::set_mtime_in(&path(*m, "csvpp"), tick, c.unit);
                }
            }
            Op::Remove { m } => {
                let _ = fs::remove_file(path(*m, "csvpp"));
                edited |= compiled;
            }
            Op::RemoveObject { m } => {
                let p = path(*m, "csvpo");
                let _ = if p.is_dir() { fs::remove_dir(&p) } else { fs::remove_file(&p) };
            }
            Op::BlockObject { m, directory } => {
                let p = path(*m, "csvpo");
                if !p.is_dir() {
                    let _ = fs::remove_file(&p);
                    if *directory {
                        fs::create_dir(&p).unwrap();
                        sut::set_mtime_in(&p, tick, c.unit);
                    } else {
                        std::os::unix::fs::symlink(d.join("missing/file"), &p).unwrap();
                    }
                }
            }
            Op::AtOnce { each } => {
                let before = mtimes(&d);
                let ready = std::sync::Barrier::new(each.len());
                let got: Vec<Outcome10> = std::thread::scope(|t| {
                    let running: Vec<_> = each
                        .iter()
                        .map(|(main, key, later)| {
                            let (d, ready) = (&d, &ready);
                            t.spawn(move || {
                                let o = sut::Opts { cache: true, key_values: key_value(*key), ..Default::default() };
                                ready.wait();
                                std::thread::sleep(std::time::Duration::from_micros(u64::from(*later) * 10));
                                result_of(&d.join(format!("{}.csvpp", c.names[*main])), &o)
                            })
                        })
                        .collect();
                    running.into_iter().map(|r| r.join().unwrap_or_else(|_| Err("it panicked".into()))).collect()
                });
                let had_objects = before.keys().any(|k| k.ends_with("csvpo"));
                set_new_mtimes(&d, &before, tick, c.unit);
                for ((main, key, _), got) in each.iter().zip(&got) {
                    let want = from_scratch(&d, &clean, &c.names[*main], *key);
                    if let Some(e) = differ(&want, got) {
                        fail!("step {} ({op:?}), compiling {} at the same time as others: without the cache vs with it: {e}", i + 1, c.names[*main]);
                    }
                    reused |= had_objects && want.is_ok() && edited;
                }
                compiled = true;
            }
            Op::Compile { main, cache, key, via } => {
                let key_values = key_value(*key);
                let before = mtimes(&d);
                let had_objects = before.keys().any(|k| k.ends_with("csvpo"));
                let o = sut::Opts { cache: *cache, key_values, ..Default::default() };
                let file = format!("{}.csvpp", c.names[*main]);
                let file = match via {
                    1 => d.join("sub/..").join(file),
                    2 => d.join(format!("./{file}")),
                    3 => root.join("other-name").join(file),
                    _ => d.join(file),
                };
                let got = result_of(&file, &o);
                let written = set_new_mtimes(&d, &before, tick, c.unit);
                if let (false, Some(f)) = (*cache, written.first()) {
                    fail!("step {}: compiling without the cache wrote {f}", i + 1);
                }
                let want = from_scratch(&d, &clean, &c.names[*main], *key);
                if let Some(e) = differ(&want, &got) {
                    fail!("step {} ({op:?}): without the cache vs with it: {e}", i + 1);
                }
                reused |= *cache && had_objects && want.is_ok() && edited;
                compiled |= *cache;
            }
        }
    }
    pass(reused, &[if reused { "compiled with old object files around" } else { "nothing to reuse" }])
}

fn show_c10(c: &C10) -> Value {
    let used: Vec<Value> = c
        .ops
        .iter()
        .map(|o| match o {
            Op::Edit { m, variant } => json!({"edit": c.names[*m], "source": variant_source(c, *m, *variant)}),
            o => json!(format!("{o:?}")),
        })
        .collect();
    let start: serde_json::Map<String, Value> =
        c.names.iter().enumerate().map(|(m, n)| (n.clone(), Value::String(variant_source(c, m, 0)))).collect();
    json!({"start": start, "steps": used, "steps_at_the_same_time_as_the_one_before": c.same_time, "nanoseconds_between_steps": c.unit})
}

// ------------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fault {
    /// only the start has been written (in thousandths of it's length)
    Truncate(u64),
    Empty,
    Garbage(Vec<u8>),
    /// the start is right and what follows isn't
    Overwrite { from: u64, with: Vec<u8> },
    /// more than what was written
    Append(Vec<u8>),
    /// the object code of another module
    Swap(usize),
    /// object code of something else, by an older version
    OldVersion(u8),
    Directory,
}

#[derive(Clone, Serialize, Deserialize)]
struct C11 {
    project: Project,
    other: Project,
    faults: Vec<(usize, Fault)>,
}

fn gen_bytes(s: &mut Src) -> Vec<u8> {
    let n = s.range(1, 40);
    let mut v: Vec<u8> = (0..n).map(|_| *s.pick(&[0u8, 1, 0xff, 0x7f, b'"', b'{', 8, 42])).collect();
    if s.chance(1, 4) {
        v.extend(s.below(u64::MAX - 1).to_le_bytes());
    }
    v
}

fn gen_c11(s: &mut Src) -> C11 {
    let sh = ProjectShape { mods: 3, cycles: false, broken: false };
    let project = gen_project(s, &sh);
    let other = gen_project(s, &sh);
    let faults = (0..s.range(1, 3))
        .map(|_| {
            let m = s.us(4);
            let f = match s.weighted(&[6, 1, 2, 3, 1, 3, 3, 1]) {
                0 => Fault::Truncate(s.below(1000)),
                1 => Fault::Empty,
                2 => Fault::Garbage(gen_bytes(s)),
                3 => Fault::Overwrite { from: s.below(40), with: gen_bytes(s) },
                4 => Fault::Append(gen_bytes(s)),
                5 => Fault::Swap(s.us(4)),
                6 => Fault::OldVersion(s.below(4) as u8),
                _ => Fault::Directory,
            };
            (m, f)
        })
        .collect();
    C11 { project, other, faults }
}

const VERSION: &str = env!("CARGO_PKG_VERSION");

fn check_c11(c: &C11, env: &mut Env) -> Outcome {
    let _ = VERSION;
    let root = env.dir();
    let (d, e) = (root.join("work"), root.join("other"));
    fs::create_dir_all(&d).unwrap();
    fs::create_dir_all(&e).unwrap();
    c.project.write(&d);
    c.other.write(&e);
    let age = |d: &Path, tick| {
        for (f, _) in sut::snapshot(d) {
            sut::set_mtime(&d.join(f), tick);
        }
    };
    age(&d, 1);
    let plain = sut::Opts::default();
    let cached = sut::Opts { cache: true, ..Default::default() };
    let want = result_of(&d.join("main.csvpp"), &plain);
    let first = result_of(&d.join("main.csvpp"), &cached);
    if let Some(e) = differ(&want, &first) {
        fail!("without the cache vs with it: {e}");
    }
    let _ = result_of(&e.join("main.csvpp"), &cached);
    let mut tags = vec![];
    let mut any = false;
    for (m, f) in &c.faults {
        let name = &c.project.mods[m % c.project.mods.len()].name;
        let obj = d.join(format!("{name}.csvpo"));
        let Ok(mut bytes) = fs::read(&obj) else { continue };
        any = true;
        tags.push(match f {
            Fault::Truncate(n) => {
                bytes.truncate((bytes.len() as u64 * n / 1000) as usize);
                "truncated"
            }
            Fault::Empty => {
                bytes.clear();
                "empty"
            }
            Fault::Garbage(g) => {
                bytes = g.clone();
                "garbage"
            }
            Fault::Overwrite { from, with } => {
                // everything from somewhere in it's start
                bytes.truncate(*from as usize);
                bytes.extend(with);
                "overwritten"
            }
            Fault::Append(g) => {
                bytes.extend(g);
                "appended to"
            }
            Fault::Swap(o) => {
                let o = &c.project.mods[o % c.project.mods.len()].name;
                if o == name {
                    continue;
                }
                let Ok(b) = fs::read(d.join(format!("{o}.csvpo"))) else { continue };
                bytes = b;
                "of another module"
            }
            Fault::OldVersion(k) => {
                // what the other project has for it
                let Ok(b) = fs::read(e.join(format!("{name}.csvpo"))) else { continue };
                let Some(b) = older(&b, *k) else { fail!("the object code doesn't start with a version") };
                bytes = b;
                "of an older version"
            }
            Fault::Directory => {
                fs::remove_file(&obj).unwrap();
                fs::create_dir(&obj).unwrap();
                tags.push("a directory");
                continue;
            }
        });
        fs::write(&obj, bytes).unwrap();
    }
    age_objects(&d, 5);
    let got = match no_panic(|| result_of(&d.join("main.csvpp"), &cached)) {
        Ok(g) => g,
        Err(p) => fail!("panic: {p}"),
    };
    if let Some(e) = differ(&want, &got) {
        fail!("without the cache vs with the damaged one: {e}");
    }
    pass(any && want.is_ok(), &tags)
}

fn age_objects(d: &Path, tick: u64) {
    for (f, _) in sut::snapshot(d) {
        if f.ends_with(".csvpo") {
            sut::set_mtime(&d.join(f), tick);
        }
    }
}

/// the same, but claiming to have been written by an older (or no) version
fn older(b: &[u8], k: u8) -> Option<Vec<u8>> {
    let n = u64::from_le_bytes(b.get(..8)?.try_into().ok()?) as usize;
    let v = std::str::from_utf8(b.get(8..8 + n)?).ok()?;
    let mut parts = v.split('.').map(|p| p.parse::<u64>().ok()).collect::<Option<Vec<_>>>()?;
    if parts.len() != 3 {
        return None;
    }
    let new = match k {
        0 => {
            let i = parts.iter().rposition(|p| *p > 0)?;
            parts[i] -= 1;
            parts[i + 1..].iter_mut().for_each(|p| *p = 99);
            format!("{}.{}.{}", parts[0], parts[1], parts[2])
        }
        1 => "0.0.1".to_string(),
        2 => format!("{v}-alpha.1"),
        _ => "not a version".to_string(),
    };
    let mut out = (new.len() as u64).to_le_bytes().to_vec();
    out.extend(new.as_bytes());
    out.extend(&b[8 + n..]);
    Some(out)
}

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![
        Box::new(Def::<C09> {
            id: "C09",
            quick: 24_000,
            thorough: 1_200_000,
            rule: "main uses something that it imports, or a module can't be loaded, or there's a cycle (distinct projects)",
            assumptions: &[
                "which of several required modules with the same definition wins isn't compared",
                "names which a module uses without them being defined for it aren't defined by those which require it",
            ],
            gen: gen_c09,
            check: check_c09,
            show: |c| json!({"modules": c.project.show(), "cache": c.cache}),
        }),
        Box::new(Def::<C10> {
            id: "C10",
            quick: 8_000,
            thorough: 400_000,
            rule: "something was edited after a compilation which wrote object code, and then compiled successfully with the cache (distinct histories)",
            assumptions: &["files never get an older modification time"],
            gen: gen_c10,
            check: check_c10,
            show: show_c10,
        }),
        Box::new(Def::<C11> {
            id: "C11",
            quick: 8_000,
            thorough: 400_000,
            rule: "an object file was damaged and the project compiles (distinct projects and faults)",
            assumptions: &["damage which leaves a well-formed object file of the same version for the same file isn't noticed (there's no checksum)"],
            gen: gen_c11,
            check: check_c11,
            show: |c| json!({"modules": c.project.show(), "faults": format!("{:?}", c.faults)}),
        }),
    ]
}
