//! C06, C07, C08, C12, C22, C23: what programs mean
use super::modules::{self, Project, ProjectShape};
use crate::core::{pass, Def, Env, Outcome, Prop};
use crate::fail;
use crate::opts::{self, Styled};
use crate::lang::{self, Def as D, EvalErr, Expr, Scope, Scoped};
use crate::sheet::{CellM, Content, Fill, Program, RowM};
use crate::src::{mix, Src};
use crate::sut::{self, Grid};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub struct Shape {
    pub vars: usize,
    pub fns: usize,
    pub rows: usize,
    pub cols: usize,
    pub depth: usize,
    pub fills: bool,
    pub cell_vars: bool,
    pub text_cells: bool,
    pub max_fill: usize,
}

/// Definitions which only refer to the ones in `known` and to the ones before them, and are then
/// put in any order
pub fn gen_defs(s: &mut Src, names: &mut Vec<String>, nv: usize, nf: usize, depth: usize, extra_refs: &[String], known_fns: &[(String, usize)]) -> Vec<D> {
    let mut defs = vec![];
    let mut refs: Vec<String> = extra_refs.to_vec();
    let mut fns: Vec<(String, usize)> = known_fns.to_vec();
    let n = nv + nf;
    let mut left_v = nv;
    for i in 0..n {
        let Some(mut name) = names.pop() else { break };
        let is_fn = if left_v == 0 { true } else if n - i <= left_v { false } else { s.chance(1, 2) };
        // a function and a variable can have the same name
        if s.chance(1, 8) {
            if is_fn && !refs.is_empty() {
                let v = s.pick(&refs).clone();
                if !fns.iter().any(|f| f.0 == v) {
                    names.push(std::mem::replace(&mut name, v));
                }
            } else if !is_fn && !fns.is_empty() {
                let f = s.pick(&fns).0.clone();
                if !refs.contains(&f) {
                    names.push(std::mem::replace(&mut name, f));
                }
            }
        }
        let dep = s.us(depth + 1);
        if is_fn {
            let np = if s.chance(1, 25) { s.range(4, 9) as usize } else { s.weighted(&[1, 4, 4, 2]) };
            // parameters might have the same names as anything else
            let params = lang::gen_names(s, np);
            let mut in_scope = refs.clone();
            // more likely to refer to the parameters
            for _ in 0..3 {
                in_scope.extend(params.iter().cloned());
            }
            let body = lang::gen_expr(s, &Scoped { refs: &in_scope, fns: &fns, wild_text: false, empty_args: true }, dep);
            fns.push((name.clone(), np));
            defs.push(D::Fn(name, params, body));
        } else {
            left_v -= 1;
            let e = lang::gen_expr(s, &Scoped { refs: &refs, fns: &fns, wild_text: true, empty_args: false }, dep);
            refs.push(name.clone());
            defs.push(D::Var(name, e));
        }
    }
    let p = s.perm(defs.len());
    p.into_iter().map(|i| defs[i].clone()).collect()
}

pub fn def_fns(defs: &[D]) -> Vec<(String, usize)> {
    defs.iter().filter_map(|d| if let D::Fn(n, p, _) = d { Some((n.clone(), p.len())) } else { None }).collect()
}
pub fn def_vars(defs: &[D]) -> Vec<String> {
    defs.iter().filter_map(|d| if let D::Var(n, _) = d { Some(n.clone()) } else { None }).collect()
}

pub fn gen_program(s: &mut Src, sh: &Shape) -> Program {
    let total = lang::NAMES.len();
    // sometimes there's much more of something
    let big = s.chance(1, 12);
    let odds = if big { 2 } else { 1000 };
    let mut names = lang::gen_names(s, if big { total + 14 } else { total.min(24) });
    let n_rows = s.wide(1, sh.rows, 24, odds * 2);
    let mut infinite = false;
    let mut rows: Vec<RowM> = vec![];
    let mut place_names = vec![];
    for _ in 0..n_rows {
        let fill = if sh.fills && s.chance(2, 5) {
            if !infinite && s.chance(1, 10) {
                infinite = true;
                Fill::Rest
            } else {
                Fill::Times(if s.chance(1, 12) { 0 } else { s.wide(1, sh.max_fill, 120, odds * 4) })
            }
        } else {
            Fill::No
        };
        let cols = s.wide(1, sh.cols, 60, odds * 4);
        let var = if sh.cell_vars && s.chance(1, 5) { names.pop() } else { None };
        place_names.extend(var.clone());
        let cells = (0..cols)
            .map(|_| {
                let var = if sh.cell_vars && s.chance(1, 4) && names.len() > 12 { names.pop() } else { None };
                place_names.extend(var.clone());
                CellM { var, content: Content::Text(String::new()) }
            })
            .collect();
        rows.push(RowM { fill, var, cells });
    }
    let nv = s.wide(0, sh.vars, sh.vars * 4, odds);
    let nf = s.wide(0, sh.fns, sh.fns * 3, odds);
    let defs = gen_defs(s, &mut names, nv, nf, sh.depth, &place_names, &[]);
    let mut defs = defs;
    let mut refs = def_vars(&defs);
    // sometimes a definition goes through many others
    if sh.vars > 1 && s.chance(1, 30) {
        let n = s.range(2, 70) as usize;
        let at = |i: usize| format!("link_{i}_");
        let first = if refs.is_empty() { lang::num(7) } else { lang::re(&s.pick(&refs).clone()) };
        let mut chain: Vec<D> = (0..n)
            .map(|i| {
                let e = if i == 0 { first.clone() } else { lang::re(&at(i - 1)) };
                D::Var(at(i), if s.chance(1, 12) { lang::bin(e, "+", lang::num(1)) } else { e })
            })
            .collect();
        if s.chance(1, 2) {
            chain.reverse();
        }
        defs.extend(chain);
        for _ in 0..refs.len() + 1 {
            refs.push(at(n - 1));
        }
    }
    refs.extend(place_names.iter().cloned());
    refs.extend(place_names);
    let fns = def_fns(&defs);
    for r in &mut rows {
        for c in &mut r.cells {
            c.content = if sh.text_cells && s.chance(1, 4) {
                Content::Text((*s.pick(&["foo", "", "1", "some text", "a:b", "été"])).to_string())
            } else {
                let d = s.wide(0, sh.depth, sh.depth + 4, odds * 8);
                Content::Formula(lang::gen_expr(s, &Scoped { refs: &refs, fns: &fns, wild_text: true, empty_args: true }, d))
            };
        }
    }
    Program { defs, rows }
}

/// rarely it's much larger than what one would write down
pub fn stretch(s: &mut Src, p: &mut Program, odds: u64) {
    if p.rows.is_empty() || !s.chance(1, odds) {
        return;
    }
    let plain = || CellM { var: None, content: Content::Text("x".into()) };
    let kind = s.below(3);
    let mut y = s.us(p.rows.len());
    let rows = s.range(30, 1500) as usize;
    // the cell variables of a fill, moved far to the right
    let on: Vec<usize> = (0..p.rows.len()).filter(|y| matches!(p.rows[*y].fill, Fill::Times(2..=4)) && p.rows[*y].cells.iter().any(|c| c.var.is_some())).collect();
    let far = kind == 0 && !on.is_empty() && s.chance(3, 4);
    if far {
        y = *s.pick(&on);
    }
    let r = &mut p.rows[y];
    let small = match r.fill {
        Fill::No => true,
        Fill::Times(n) => n < 5,
        Fill::Rest => false,
    };
    match kind {
        0 if small => {
            let (x, n) = (if far { 0 } else { s.us(r.cells.len() + 1) }, s.range(20, 800) as usize);
            r.cells.splice(x..x, (0..n).map(|_| plain()));
        }
        1 if small && r.cells.len() < 5 => r.fill = Fill::Times(rows),
        _ => {
            p.rows.splice(y..y, (0..rows).map(|_| RowM { fill: Fill::No, var: None, cells: vec![plain()] }));
        }
    }
}

fn formulas(p: &Program) -> impl Iterator<Item = &Expr> {
    p.rows.iter().flat_map(|r| &r.cells).filter_map(|c| if let Content::Formula(e) = &c.content { Some(e) } else { None })
}

/// the names which formulas or definitions use
fn uses(p: &Program, f: &mut dyn FnMut(&Expr) -> bool) -> bool {
    formulas(p).any(|e| e.any(f)) || p.defs.iter().any(|d| d.body().any(f))
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    pub program: Program,
    pub noise: u64,
}

fn gen_noise(s: &mut Src) -> u64 {
    if s.chance(2, 3) {
        s.below(1 << 32)
    } else {
        0
    }
}

fn compare(want: &Grid, got: &Grid) -> Result<(), String> {
    if want == got {
        Ok(())
    } else {
        Err(format!("(expected vs compiled) {}", sut::diff(want, got)))
    }
}

fn too_big() -> Outcome {
    pass(false, &["discarded: too large"])
}

// ------------------------------------------------------------------ C06

#[derive(Clone, Serialize, Deserialize)]
struct C06 {
    program: Program,
    noise: u64,
    /// a call with the wrong amount of arguments was put somewhere
    arity: bool,
}

fn gen_c06(s: &mut Src) -> C06 {
    let shape = Shape { vars: 3, fns: 5, rows: 2, cols: 3, depth: 3, fills: false, cell_vars: s.chance(1, 4), text_cells: false, max_fill: 3 };
    let mut p = gen_program(s, &shape);
    let mut arity = false;
    let fns = def_fns(&p.defs);
    if !fns.is_empty() && s.chance(1, 5) {
        // somewhere in the program there's a call with too many or too few arguments
        arity = true;
        let (f, n) = s.pick(&fns).clone();
        let n = if n == 0 || s.chance(1, 2) { n + 1 } else { n - 1 };
        let bad = Expr::Call(f.clone(), (0..n).map(|i| lang::num(i as i64)).collect());
        let k = s.us(p.defs.len() + 1);
        if k < p.defs.len() && p.defs[k].name() != f {
            // (unless that would make the definition refer to itself)
            let reaches = |d: &D| {
                let mut seen = vec![d.name().to_string()];
                let mut todo = vec![f.clone()];
                while let Some(x) = todo.pop() {
                    if seen.contains(&x) {
                        if x == d.name() {
                            return true;
                        }
                        continue;
                    }
                    seen.push(x.clone());
                    for d in p.defs.iter().filter(|d| d.name() == x) {
                        d.body().any(&mut |e| {
                            if let Expr::Ref(n) | Expr::Call(n, _) = e {
                                todo.push(n.clone());
                            }
                            false
                        });
                    }
                }
                false
            };
            if !reaches(&p.defs[k]) {
                match &mut p.defs[k] {
                    D::Var(_, e) | D::Fn(_, _, e) => *e = lang::bin(e.clone(), "+", bad),
                }
            }
        } else {
            let r = s.us(p.rows.len());
            let x = s.us(p.rows[r].cells.len());
            p.rows[r].cells[x].content = Content::Formula(lang::call("SUM", vec![lang::num(1), bad]));
        }
    }
    stretch(s, &mut p, 400);
    C06 { program: p, noise: gen_noise(s), arity }
}

/// Expand definitions from the outside in, so that an argument which isn't used is never looked at
fn lazy(scope: &Scope, e: &Expr, fuel: &mut usize) -> Result<Expr, EvalErr> {
    fn subst(e: &Expr, b: &std::collections::BTreeMap<String, Expr>) -> Expr {
        match e {
            Expr::Ref(n) => b.get(n).cloned().unwrap_or_else(|| e.clone()),
            Expr::Call(n, a) => Expr::Call(n.clone(), a.iter().map(|x| subst(x, b)).collect()),
            Expr::Bin(l, o, r) => lang::bin(subst(l, b), o, subst(r, b)),
            e => e.clone(),
        }
    }
    if *fuel == 0 {
        return Err(EvalErr::TooBig);
    }
    *fuel -= 1;
    Ok(match e {
        Expr::Ref(n) => match scope.vars.get(n) {
            Some(v) => lazy(scope, v, fuel)?,
            None => e.clone(),
        },
        Expr::Call(n, a) => match scope.fns.get(n) {
            Some((p, body)) => {
                if p.len() != a.len() {
                    return Err(EvalErr::Arity(n.clone()));
                }
                let b = p.iter().cloned().zip(a.iter().cloned()).collect();
                let e = subst(body, &b);
                *fuel = fuel.saturating_sub(e.size());
                lazy(scope, &e, fuel)?
            }
            None => Expr::Call(n.clone(), a.iter().map(|x| lazy(scope, x, fuel)).collect::<Result<_, _>>()?),
        },
        Expr::Bin(l, o, r) => lang::bin(lazy(scope, l, fuel)?, o, lazy(scope, r, fuel)?),
        e => e.clone(),
    })
}

fn check_c06(c: &C06, env: &mut Env) -> Outcome {
    let scope = c.program.scope();
    let want = c.program.eval(&scope);
    if want == Err(EvalErr::TooBig) {
        return too_big();
    }
    let src = c.program.write(c.noise);
    let got = sut::compile(&env.dir(), &src).map(|m| sut::grid(&m));
    match (want, got) {
        (Ok(w), Ok(g)) => {
            if let Err(e) = compare(&w, &g) {
                fail!("{e}");
            }
            let n = c.program.defs.iter().filter(|d| matches!(d, D::Fn(_, p, _) if !p.is_empty())).count();
            let called = formulas(&c.program).any(|e| e.any(&mut |e| matches!(e, Expr::Call(n, a) if !a.is_empty() && scope.fns.contains_key(n))));
            pass(n > 0 && called, &[if called { "calls a function" } else { "no call" }])
        }
        (Ok(_), Err(e)) => fail!("rejected: {}", sut::plain(&e)),
        (Err(_), Err(e)) => {
            if sut::plain(&e).contains("arguments") {
                pass(true, &["wrong amount of arguments"])
            } else {
                fail!("the error doesn't say that the amount of arguments is wrong: {}", sut::plain(&e))
            }
        }
        (Err(w), Ok(g)) => {
            // it's only acceptable if what's wrong was never looked at
            let mut fuel = 20_000;
            for (x, e) in formulas(&c.program).enumerate() {
                match lazy(&scope, e, &mut fuel) {
                    Ok(_) => (),
                    Err(EvalErr::TooBig) => return too_big(),
                    Err(_) => fail!("a call with the wrong amount of arguments ({w:?}, formula {}) was accepted: {g:?}", x + 1),
                }
            }
            pass(true, &["a wrong call is never evaluated"])
        }
    }
}

// ------------------------------------------------------------------ C07

#[derive(Clone, Serialize, Deserialize)]
struct C07 {
    program: Program,
    noise: u64,
    key_values: Vec<(String, Expr)>,
}

fn gen_c07(s: &mut Src) -> C07 {
    let shape = Shape { vars: 4, fns: 2, rows: 5, cols: 4, depth: 2, fills: true, cell_vars: true, text_cells: true, max_fill: 6 };
    let mut p = gen_program(s, &shape);
    // some of the values come from the command line instead
    let mut key_values = vec![];
    let mut i = 0;
    while i < p.defs.len() {
        if matches!(p.defs[i], D::Var(..)) && s.chance(1, 4) {
            if let D::Var(n, e) = p.defs.remove(i) {
                key_values.push((n, e));
            }
        } else {
            i += 1;
        }
    }
    // names which are defined more than once
    let names: Vec<String> = def_vars(&p.defs).into_iter().chain(p.places().into_iter().map(|x| x.0)).chain(key_values.iter().map(|k| k.0.clone())).collect();
    if !names.is_empty() && s.chance(1, 4) {
        for _ in 0..s.range(1, 2) {
            let n = s.pick(&names).clone();
            let e = lang::gen_expr(s, &Scoped { refs: &[], fns: &[], wild_text: true, empty_args: false }, 1);
            if s.chance(1, 2) {
                let at = s.us(p.defs.len() + 1);
                p.defs.insert(at, D::Var(n, e));
            } else if !key_values.iter().any(|k| k.0 == n) {
                key_values.push((n, e));
            }
        }
    }
    stretch(s, &mut p, 200);
    C07 { program: p, noise: gen_noise(s), key_values }
}

fn kv_args(kv: &[(String, Expr)], noise: u64) -> Vec<String> {
    kv.iter()
        .enumerate()
        .map(|(i, (n, e))| {
            let mut l = lang::Layout::new(if noise == 0 { 0 } else { mix(noise, 77 + i as u64) }, false, false);
            format!("{n}={}", lang::write_expr(e, &mut l))
        })
        .collect()
}

fn check_c07(c: &C07, env: &mut Env) -> Outcome {
    let mut scope = c.program.scope();
    let mut several = false;
    for (n, e) in &c.key_values {
        if scope.places.contains_key(n) || scope.vars.contains_key(n) {
            several = true;
        } else {
            scope.vars.insert(n.clone(), e.clone());
        }
    }
    several |= scope.vars.len() < def_vars(&c.program.defs).len() || scope.vars.keys().any(|k| scope.places.contains_key(k));
    let want = match c.program.eval(&scope) {
        Ok(w) => w,
        Err(_) => return too_big(),
    };
    let src = c.program.write(c.noise);
    let opts = sut::Opts { key_values: kv_args(&c.key_values, c.noise), ..Default::default() };
    match sut::compile_with(&env.dir(), &src, &opts) {
        Err(e) => fail!("rejected: {}", sut::plain(&e)),
        Ok(m) => {
            if let Err(e) = compare(&want, &sut::grid(&m)) {
                fail!("{e}");
            }
        }
    }
    let mut tags = vec![];
    let places = c.program.places();
    let used = |f: &dyn Fn(&str) -> bool| uses(&c.program, &mut |e| matches!(e, Expr::Ref(n) if f(n)));
    if used(&|n| c.key_values.iter().any(|(k, _)| k == n)) {
        tags.push("uses a value of the command line");
    }
    if used(&|n| places.iter().any(|(k, _)| k == n)) {
        tags.push("uses a cell or row variable");
    }
    if used(&|n| places.iter().any(|(k, p)| k == n && matches!(p, lang::Place::FillCell { .. } | lang::Place::FillRow { .. }))) {
        tags.push("uses a variable of a fill");
    }
    if used(&|n| scope.vars.contains_key(n)) {
        tags.push("uses a variable of the code section");
    }
    if several {
        tags.push("a name is defined more than once");
    }
    pass(!tags.is_empty(), &tags)
}

// ------------------------------------------------------------------ C08

#[derive(Clone, Serialize, Deserialize)]
struct C08 {
    rows: Vec<RowM>,
    noise: u64,
}

fn gen_c08(s: &mut Src) -> C08 {
    let n = s.wide(1, 6, 30, 15);
    let mut names = lang::gen_names(s, if n > 6 { 40 } else { 20 });
    let mut rows: Vec<RowM> = (0..n)
        .map(|_| {
            let fill = match s.weighted(&[4, 6, 2]) {
                0 => Fill::No,
                1 => Fill::Times(match s.weighted(&[10, 4, 1, 2]) {
                    0 => s.range(1, 5) as usize,
                    1 => s.range(1, 60) as usize,
                    2 => *s.pick(&[999, 1000, 1001, 998, 1500, 997, 996, 995, 500, 256]),
                    _ => 0,
                }),
                _ => Fill::Rest,
            };
            let var = if s.chance(1, 3) { names.pop() } else { None };
            let cols = s.wide(1, 4, 30, 25);
            let cells = (0..cols)
                .map(|_| CellM {
                    var: if s.chance(1, 3) && names.len() > 4 { names.pop() } else { None },
                    content: Content::Text((*s.pick(&["", "foo", "x y", "1"])).to_string()),
                })
                .collect();
            RowM { fill, var, cells }
        })
        .collect();
    let all: Vec<String> = rows.iter().flat_map(|r| r.var.iter().cloned().chain(r.cells.iter().filter_map(|c| c.var.clone())).collect::<Vec<_>>()).collect();
    if !all.is_empty() {
        for r in &mut rows {
            for c in &mut r.cells {
                if s.chance(2, 3) {
                    let a = lang::re(s.pick(&all).as_str());
                    c.content = Content::Formula(if s.chance(1, 3) { lang::bin(a, "+", lang::num(1)) } else { a });
                }
            }
        }
    }
    if s.chance(1, 1500) {
        // more rows than 16 bits can count
        let y = s.us(rows.len());
        rows[y] = RowM { fill: Fill::Times(s.range(65_530, 66_600) as usize), var: None, cells: vec![CellM { var: None, content: Content::Text("x".into()) }] };
    }
    C08 { rows, noise: gen_noise(s) }
}

fn check_c08(c: &C08, env: &mut Env) -> Outcome {
    let p = Program { defs: vec![], rows: c.rows.clone() };
    let src = p.write(c.noise);
    let got = sut::compile(&env.dir(), &src).map(|m| sut::grid(&m));
    let Some(_) = p.rest() else {
        return match got {
            Ok(g) => Outcome::Fail(format!("more than one infinite fill was accepted ({} rows)", g.len())),
            Err(e) if sut::plain(&e).to_lowercase().contains("infinite") => pass(true, &["several infinite fills"]),
            Err(e) => Outcome::Fail(format!("the error doesn't say that there are several infinite fills: {}", sut::plain(&e))),
        };
    };
    let g = match got {
        Ok(g) => g,
        Err(e) => fail!("rejected: {}", sut::plain(&e)),
    };
    let w = p.eval(&p.scope()).unwrap();
    if w.len() != g.len() {
        fail!("there should be {} rows, but there are {}", w.len(), g.len());
    }
    if let Err(e) = compare(&w, &g) {
        fail!("{e}");
    }
    let fills = p.rows.iter().filter(|r| r.fill != Fill::No).count();
    let places = p.places();
    let refs = formulas(&p).any(|e| e.any(&mut |e| matches!(e, Expr::Ref(n) if places.iter().any(|(k, _)| k == n))));
    let mut tags = vec![];
    if p.rows.iter().any(|r| r.fill == Fill::Rest) {
        tags.push("an infinite fill");
    }
    if fills > 1 {
        tags.push("several fills");
    }
    pass(fills > 0 && refs, &tags)
}

// ------------------------------------------------------------------ C12

#[derive(Clone, Serialize, Deserialize)]
struct C12 {
    sheet: Styled,
    /// definitions which refer to each other
    loops: bool,
    safe: bool,
    /// to a workbook too
    #[serde(default)]
    excel: bool,
    /// how many threads rayon has in each of the runs
    #[serde(default)]
    threads: Vec<usize>,
    /// modules instead of a single program
    #[serde(default)]
    project: Option<Project>,
}

fn gen_c12(s: &mut Src) -> C12 {
    let shape = Shape { vars: 5, fns: 4, rows: 6, cols: 5, depth: 2, fills: true, cell_vars: true, text_cells: true, max_fill: 8 };
    let mut p = gen_program(s, &shape);
    let loops = s.chance(1, 4);
    if loops && p.defs.len() > 1 {
        // let any definition refer to any other
        let v = def_vars(&p.defs);
        let f = def_fns(&p.defs);
        for d in &mut p.defs {
            if s.chance(1, 2) {
                let e = lang::gen_expr(s, &Scoped { refs: &v, fns: &f, wild_text: false, empty_args: false }, 1);
                match d {
                    D::Var(_, b) | D::Fn(_, _, b) => *b = e,
                }
            }
        }
    }
    if s.chance(1, 8) {
        // and calls might be wrong
        if let Some((f, n)) = def_fns(&p.defs).first().cloned() {
            let e = Expr::Call(f, (0..=n).map(|i| lang::num(i as i64)).collect());
            let fns = def_fns(&p.defs);
            let (g, k) = s.pick(&fns).clone();
            p.rows[0].cells[0].content = Content::Formula(Expr::Call(g, (0..k).map(|_| e.clone()).collect()));
        }
    }
    let mut project = None;
    if s.chance(1, 3) {
        // also ones which are unclear, or which require each other
        let cycles = s.chance(1, 2);
        let mut q = modules::gen_project(s, &ProjectShape { mods: 5, cycles, broken: false });
        if s.chance(1, 3) {
            // any definition may refer to any other of any module
            let v: Vec<String> = q.mods.iter().flat_map(|m| def_vars(&m.program.defs)).collect();
            for m in &mut q.mods {
                for d in &mut m.program.defs {
                    if s.chance(1, 3) && !v.is_empty() {
                        let e = lang::gen_expr(s, &Scoped { refs: &v, fns: &[], wild_text: false, empty_args: false }, 1);
                        match d {
                            D::Var(_, b) | D::Fn(_, _, b) => *b = e,
                        }
                    }
                }
            }
        }
        project = Some(q);
    }
    let sheet = if s.chance(1, 2) { opts::gen_styled(s, p, 3, true, true) } else { Styled { rows: vec![], cells: vec![], noise: gen_noise(s), program: p } };
    C12 { sheet, loops, safe: s.chance(1, 3), excel: s.chance(1, 8), threads: vec![1, *s.pick(&[2, 3]), *s.pick(&[4, 8])], project }
}

/// what one compilation and it's output amount to
type Result12 = Result<(Grid, Vec<u8>, String), ()>;

fn run_c12(input: &std::path::Path, out: &std::path::Path, existing: &str, safe: bool, excel: bool) -> Result12 {
    std::fs::write(out, existing).unwrap();
    let o = sut::Opts { safe, ..Default::default() };
    let c = sut::compiler(input, out, &o).map_err(|_| ())?;
    let m = c.compile().map_err(|_| ())?;
    c.target().map_err(|_| ())?.write(&m).map_err(|_| ())?;
    let mut sheets = csvpp::verif::google_sheets_batch_update(&c, &m, "[]").map_err(|_| ())?;
    if excel {
        let book = out.with_extension("xlsx");
        let _ = std::fs::remove_file(&book);
        let c = sut::compiler(input, &book, &o).map_err(|_| ())?;
        let m = c.compile().map_err(|_| ())?;
        // (written twice, so that it's merged with itself)
        for _ in 0..2 {
            c.target().map_err(|_| ())?.write(&m).map_err(|_| ())?;
            sheets.push_str(&super::target::snapshot(&book));
        }
    }
    Ok((sut::grid(&m), std::fs::read(out).unwrap(), sheets))
}

/// with a rayon pool of so many threads (which are kept, as they're expensive to start)
fn with_threads<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    static POOLS: std::sync::Mutex<BTreeMap<usize, std::sync::Arc<rayon::ThreadPool>>> = std::sync::Mutex::new(BTreeMap::new());
    let pool = POOLS
        .lock()
        .unwrap()
        .entry(n)
        .or_insert_with(|| std::sync::Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()))
        .clone();
    pool.install(f)
}

fn check_c12(c: &C12, env: &mut Env) -> Outcome {
    let d = env.dir();
    let src = c.sheet.source();
    let program = &c.sheet.program;
    let input = d.join("main.csvpp");
    match &c.project {
        Some(p) => p.write(&d),
        None => std::fs::write(&input, src).unwrap(),
    }
    let existing = "a,b,c\n1,2,3\n\"x,y\",,z\n";
    if let (Err(EvalErr::TooBig), None) = (program.eval(&program.scope()), &c.project) {
        if !c.loops {
            return too_big();
        }
    }
    // (large workbooks take long)
    let excel = c.excel && program.spans().last().map_or(0, |s| s.1) < 50;
    let first = run_c12(&input, &d.join("out.csv"), existing, c.safe, excel);
    for n in &c.threads {
        let again = with_threads(*n, || run_c12(&input, &d.join("out.csv"), existing, c.safe, excel));
        if again != first {
            fail!("compiling it again gave something else: {}", describe(&first, &again));
        }
    }
    // and while other compilations are running
    let others: Vec<Result12> = std::thread::scope(|t| {
        let h: Vec<_> = (0..2)
            .map(|i| {
                let (input, out) = (input.clone(), d.join(format!("t{i}.csv")));
                t.spawn(move || run_c12(&input, &out, existing, c.safe, excel))
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for o in others {
        if o != first {
            fail!("compiling it at the same time as others gave something else: {}", describe(&first, &o));
        }
    }
    if c.project.is_some() {
        return pass(true, &["several modules", if first.is_ok() { "compiles" } else { "is rejected" }]);
    }
    pass(program.defs.len() > 1, &[if c.loops { "definitions which may refer to each other" } else { "ordinary" }, if first.is_ok() { "compiles" } else { "is rejected" }])
}

fn describe(a: &Result12, b: &Result12) -> String {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            if a.0 != b.0 {
                sut::diff(&a.0, &b.0)
            } else if a.1 != b.1 {
                format!("{:?}\nvs {:?}", String::from_utf8_lossy(&a.1), String::from_utf8_lossy(&b.1))
            } else {
                let i = a.2.bytes().zip(b.2.bytes()).position(|(x, y)| x != y).unwrap_or(0);
                let from = i.saturating_sub(80);
                format!("{:?}\nvs {:?}", a.2.chars().skip(from).take(200).collect::<String>(), b.2.chars().skip(from).take(200).collect::<String>())
            }
        }
        _ => format!("{} vs {}", if a.is_ok() { "compiled" } else { "rejected" }, if b.is_ok() { "compiled" } else { "rejected" }),
    }
}

// ------------------------------------------------------------------ C22, C23

fn gen_c22(s: &mut Src) -> Case {
    let no_code = s.chance(1, 6);
    let (vars, fns) = if no_code { (0, 0) } else { (4, 3) };
    let shape = Shape { vars, fns, rows: 4, cols: 4, depth: 3, fills: s.chance(1, 2), cell_vars: true, text_cells: true, max_fill: 4 };
    let mut p = gen_program(s, &shape);
    if p.defs.is_empty() && !no_code {
        p.defs.push(D::Var("lonely".into(), lang::num(1)));
    }
    Case { program: p, noise: 1 + s.below(1 << 40) }
}

fn check_c22(c: &Case, env: &mut Env) -> Outcome {
    let d = env.dir();
    // the plain layout against a noisy one, which has to say the same
    let plain = c.program.write(0);
    let noisy = c.program.write(c.noise);
    let crlf = c.noise % 4 == 1;
    let noisy = if crlf { noisy.replace('\n', "\r\n") } else { noisy };
    if let Err(EvalErr::TooBig) = c.program.eval(&c.program.scope()) {
        return too_big();
    }
    let a = sut::compile(&d, &plain).map(|m| sut::grid(&m));
    let b = sut::compile(&d, &noisy).map(|m| sut::grid(&m));
    match (a, b) {
        (Ok(a), Ok(b)) => {
            if a != b {
                fail!("the layout changed the result: {}\n{plain}\n{noisy}", sut::diff(&a, &b));
            }
        }
        (Err(e), Ok(_)) => fail!("only the plain layout was rejected: {}", sut::plain(&e)),
        (Ok(_), Err(e)) => fail!("the layout makes it rejected: {}\n{noisy}", sut::plain(&e)),
        (Err(a), Err(_)) => fail!("rejected: {}", sut::plain(&a)),
    }
    let moved = plain.lines().count() != noisy.lines().count();
    let mut tags = vec![];
    if noisy.contains('#') {
        tags.push("comments");
    }
    if crlf {
        tags.push("crlf");
    }
    if moved {
        tags.push("lines added");
    }
    pass(noisy != plain && moved, &tags)
}

#[derive(Clone, Serialize, Deserialize)]
struct C23 {
    program: Program,
    noise: u64,
    order: Vec<usize>,
    /// new names, in the order that they're found
    names: Vec<String>,
    /// for each definition, which variable's new name it gets too if it's a function
    #[serde(default)]
    same: Vec<usize>,
}

fn gen_c23(s: &mut Src) -> C23 {
    let shape = Shape { vars: 5, fns: 4, rows: 4, cols: 3, depth: 2, fills: s.chance(1, 2), cell_vars: true, text_cells: false, max_fill: 3 };
    let p = gen_program(s, &shape);
    let order = s.perm(p.defs.len());
    // all kinds of names, which can't be mistaken for what's used without being defined
    let mut names: Vec<String> = vec![];
    for i in 0..60 {
        let base = *s.pick(&["q", "Qq_", "trueq", "useq", "fnq", "q_q", "Ωq", "falseq", "_q", "q1q", "SUMq", "ifq"]);
        names.push(format!("{base}{}", col_suffix(i)));
    }
    let same = p.defs.iter().map(|_| if s.chance(1, 4) { s.us(6) } else { usize::MAX }).collect();
    C23 { program: p, noise: gen_noise(s), order, names, same }
}

fn col_suffix(i: usize) -> String {
    // mostly such that one is the start of another
    "z".repeat(i % 5) + &(i / 5).to_string().replace('0', "")
        + if i < 5 { "k" } else { "" }
}

fn renamed(c: &C23) -> Program {
    let p = &c.program;
    // variables (and parameters), and functions
    let mut vars: Vec<(String, String)> = vec![];
    let mut fns: Vec<(String, String)> = vec![];
    let mut used = std::collections::HashSet::new();
    let mut fresh = c.names.iter().filter(|n| used.insert((*n).clone())).cloned().collect::<Vec<_>>().into_iter();
    let mut var = |n: &str, vars: &mut Vec<(String, String)>| {
        if !vars.iter().any(|(a, _)| a == n) {
            if let Some(f) = fresh.next() {
                vars.push((n.to_string(), f));
            }
        }
    };
    for d in &p.defs {
        match d {
            D::Var(n, _) => var(n, &mut vars),
            D::Fn(_, ps, _) => ps.iter().for_each(|x| var(x, &mut vars)),
        }
    }
    for (n, _) in p.places() {
        var(&n, &mut vars);
    }
    for r in &p.rows {
        r.var.iter().chain(r.cells.iter().filter_map(|c| c.var.as_ref())).for_each(|n| var(n, &mut vars));
    }
    // functions can be called the same as variables, but needn't be
    for (i, d) in p.defs.iter().enumerate() {
        if let D::Fn(n, ..) = d {
            if fns.iter().any(|(a, _)| a == n) {
                continue;
            }
            let same = c.same.get(i).and_then(|k| vars.get(*k)).map(|v| v.1.clone()).filter(|v| !fns.iter().any(|f| f.1 == *v));
            if let Some(f) = same.or_else(|| fresh.next()) {
                fns.push((n.clone(), f));
            }
        }
    }
    let of = |map: &[(String, String)], n: &str| map.iter().find(|(a, _)| a == n).map_or_else(|| n.to_string(), |(_, b)| b.clone());
    let get = |n: &str| of(&vars, n);
    let f = |n: &str, call: bool| if call { of(&fns, n) } else { of(&vars, n) };
    Program {
        defs: c
            .order
            .iter()
            .map(|i| match &p.defs[*i] {
                D::Var(n, e) => D::Var(get(n), e.rename(&f)),
                D::Fn(n, ps, e) => D::Fn(f(n, true), ps.iter().map(|x| get(x)).collect(), e.rename(&f)),
            })
            .collect(),
        rows: p
            .rows
            .iter()
            .map(|r| RowM {
                fill: r.fill,
                var: r.var.as_ref().map(|n| get(n)),
                cells: r
                    .cells
                    .iter()
                    .map(|c| CellM {
                        var: c.var.as_ref().map(|n| get(n)),
                        content: match &c.content {
                            Content::Formula(e) => Content::Formula(e.rename(&f)),
                            t => t.clone(),
                        },
                    })
                    .collect(),
            })
            .collect(),
    }
}

fn check_c23(c: &C23, env: &mut Env) -> Outcome {
    let d = env.dir();
    if let Err(EvalErr::TooBig) = c.program.eval(&c.program.scope()) {
        return too_big();
    }
    // a parameter which isn't one here would be left as it is, and so show up with it's new name
    let scope = c.program.scope();
    let params: Vec<String> = c.program.defs.iter().flat_map(|d| if let D::Fn(_, p, _) = d { p.clone() } else { vec![] }).collect();
    let free_param = |e: &Expr, own: &[String]| {
        e.any(&mut |e| matches!(e, Expr::Ref(n) if params.contains(n) && !own.contains(n) && !scope.vars.contains_key(n) && !scope.places.contains_key(n)))
    };
    if formulas(&c.program).any(|e| free_param(e, &[]))
        || c.program.defs.iter().any(|d| match d {
            D::Var(_, e) => free_param(e, &[]),
            D::Fn(_, p, e) => free_param(e, p),
        })
    {
        return pass(false, &["discarded: a parameter's name is used outside of its function"]);
    }
    // fills which have no rows leave the names of their variables in place
    if c.program.spans().iter().any(|(a, b)| a == b) {
        return pass(false, &["discarded: an empty fill"]);
    }
    let other = renamed(c);
    let (s1, s2) = (c.program.write(c.noise), other.write(c.noise));
    let a = sut::compile(&d, &s1).map(|m| sut::grid(&m));
    let b = sut::compile(&d, &s2).map(|m| sut::grid(&m));
    match (a, b) {
        (Ok(a), Ok(b)) => {
            if a != b {
                fail!("renaming and reordering the definitions changed the result: {}\n{s1}\n{s2}", sut::diff(&a, &b));
            }
        }
        (Err(e), _) => fail!("rejected: {}", sut::plain(&e)),
        (_, Err(e)) => fail!("rejected after renaming: {}\n{s2}", sut::plain(&e)),
    }
    let moved = c.order.iter().enumerate().any(|(i, o)| i != *o);
    pass(c.program.defs.len() > 1, &[if moved { "reordered" } else { "only renamed" }])
}

pub fn show_case(p: &Program, noise: u64) -> Value {
    Value::String(p.write(noise))
}

pub fn all() -> Vec<Box<dyn Prop>> {
    const BOUNDS: &str = "definitions are not recursive and expand to at most 4000 nodes";
    vec![
        Box::new(Def::<C06> {
            id: "C06",
            quick: 50_000,
            thorough: 2_000_000,
            rule: "a function with parameters is called from a cell, or a call has the wrong amount of arguments (distinct programs)",
            assumptions: &[BOUNDS, "operators of the same level are in parentheses (see C05)", "a wrong call in an argument which isn't used may or may not be reported"],
            gen: gen_c06,
            check: check_c06,
            show: |c| show_case(&c.program, c.noise),
        }),
        Box::new(Def::<C07> {
            id: "C07",
            quick: 40_000,
            thorough: 1_500_000,
            rule: "a formula or definition refers to a variable (distinct programs)",
            assumptions: &[BOUNDS, "no name is the variable of more than one cell or row"],
            gen: gen_c07,
            check: check_c07,
            show: |c| json!({"source": c.program.write(c.noise), "key_values": kv_args(&c.key_values, c.noise)}),
        }),
        Box::new(Def::<C08> {
            id: "C08",
            quick: 25_000,
            thorough: 500_000,
            rule: "there's a fill and a reference to a variable of a cell or row, or several infinite fills (distinct programs)",
            assumptions: &["fills of at most 1500 rows"],
            gen: gen_c08,
            check: check_c08,
            show: |c| show_case(&Program { defs: vec![], rows: c.rows.clone() }, c.noise),
        }),
        Box::new(Def::<C12> {
            id: "C12",
            quick: 4_000,
            thorough: 200_000,
            rule: "at least two definitions (distinct programs)",
            assumptions: &["which one of several errors is reported is not compared"],
            gen: gen_c12,
            check: check_c12,
            show: |c| c.project.as_ref().map_or_else(|| json!({"source": c.sheet.source()}), Project::show),
        }),
        Box::new(Def::<Case> {
            id: "C22",
            quick: 24_000,
            thorough: 1_200_000,
            rule: "the layouts differ in how many lines they have (distinct programs)",
            assumptions: &[BOUNDS],
            gen: gen_c22,
            check: check_c22,
            show: |c| json!({"plain": c.program.write(0), "noisy": c.program.write(c.noise)}),
        }),
        Box::new(Def::<C23> {
            id: "C23",
            quick: 24_000,
            thorough: 1_200_000,
            rule: "at least two definitions were renamed (distinct programs)",
            assumptions: &[BOUNDS],
            gen: gen_c23,
            check: check_c23,
            show: |c| json!({"before": c.program.write(c.noise), "after": renamed(c).write(c.noise)}),
        }),
    ]
}
