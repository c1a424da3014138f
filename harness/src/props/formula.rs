//! C05: what a formula means
use crate::core::{pass, Def, Env, Outcome, Prop};
use crate::fail;
use crate::lang::{self, bin, level, Expr, Layout};
use crate::src::Src;
use crate::sut;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::fs;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Operand {
    Num { signs: String, digits: String, pct: bool, paren: bool },
    Atom(Expr),
    Paren(Box<Flat>),
    Call(String, Vec<Option<Flat>>),
}
/// operands with operators between them, as they're written
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Flat {
    first: Operand,
    rest: Vec<(String, Operand)>,
}

#[derive(Clone, Serialize, Deserialize)]
struct C05 {
    flat: Flat,
    noise: u64,
    /// 0: in a cell, 1: in the code section, 2: from the command line, 3: in a function's body
    route: u8,
}

const TEXTS: &[&str] = &["", "foo", "a b", ",", "(", ")", "#x", "é😀", "say \"hi\"", "\"", "'", ":=", "true", "1", " lead", "=1", "]]"];
const REFS: &[&str] = &[
    "A1", "B2", "$C$3", "A1:B2", "A:A", "1:2", "$1:$2", "Sheet1!A1", "foo", "TRUE", "x_1", "é", "truex", "false1", "Sheet1!A1:B2", "a.b", "!x",
];

fn gen_operand(s: &mut Src, depth: usize) -> Operand {
    match if depth == 0 { s.weighted(&[4, 3, 1, 1]) } else { s.weighted(&[4, 3, 1, 1, 4, 3]) } {
        0 => Operand::Num {
            signs: (*s.pick(&["", "", "", "", "-", "+", "--", "-+", "---", "+-"])).to_string(),
            digits: match s.below(6) {
                0..=2 => s.below(12).to_string(),
                3 => {
                let bits = s.range(1, 59);
                s.below(u64::MAX >> bits).to_string()
            }
                4 => format!("{}.{}", s.below(1000), s.below(1000)),
                _ => (*s.pick(&["9223372036854775807", "0", "1.50", "2.", "007", "0.1", "0.30000000000000004", "123456789012.5", "1.0"])).to_string(),
            },
            pct: s.chance(1, 6),
            paren: s.chance(1, 8),
        },
        1 => Operand::Atom(Expr::Ref(if s.chance(1, 3) { lang::gen_ref(s) } else { (*s.pick(REFS)).to_string() })),
        2 => Operand::Atom(Expr::Bool(s.chance(1, 2))),
        3 => Operand::Atom(Expr::Str((*s.pick(TEXTS)).to_string())),
        4 => Operand::Paren(Box::new(gen_flat(s, depth - 1))),
        _ => {
            let n = s.wide(0, 4, 20, 40);
            let name = (*s.pick(&["SUM", "IF", "f", "STDEV.P", "true_", "T", "fnx", "foo"])).to_string();
            Operand::Call(
                name,
                (0..n).map(|_| if n > 1 && s.chance(1, 8) { None } else { Some(gen_flat(s, depth - 1)) }).collect(),
            )
        }
    }
}

fn gen_flat(s: &mut Src, depth: usize) -> Flat {
    let first = gen_operand(s, depth);
    let n = if s.chance(1, 100) { s.range(6, 30) as usize } else { s.weighted(&[4, 4, 3, 2, 1, 1]) };
    let rest = (0..n).map(|_| ((*s.pick(lang::OPS)).to_string(), gen_operand(s, depth))).collect();
    Flat { first, rest }
}

fn gen_c05(s: &mut Src) -> C05 {
    let depth = s.us(4);
    C05 { flat: gen_flat(s, depth), noise: if s.chance(1, 2) { s.below(1 << 32) } else { 0 }, route: s.below(4) as u8 }
}

fn write_operand(o: &Operand, l: &mut Layout) -> String {
    match o {
        Operand::Num { signs, digits, pct, paren } => {
            let p = if *pct { "%" } else { "" };
            // a sign in front of parentheses applies to what's in them
            match (signs.len(), paren) {
                (2.., true) => format!("{}({}{digits}){p}", &signs[..1], &signs[1..]),
                (_, true) => format!("({signs}{digits}{p})"),
                _ => format!("{signs}{digits}{p}"),
            }
        }
        Operand::Atom(Expr::Str(s)) => format!("\"{}\"", s.replace('"', "\"\"")),
        Operand::Atom(Expr::Bool(b)) => b.to_string(),
        Operand::Atom(e) => e.canon(),
        Operand::Paren(f) => format!("({}{}{})", l.gap(""), write_flat(f, l), l.gap("")),
        Operand::Call(n, a) => {
            let mut out = format!("{n}(");
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push_str(&format!("{},", l.gap("")));
                }
                out.push_str(&l.gap(""));
                if let Some(x) = x {
                    out.push_str(&write_flat(x, l));
                }
            }
            out.push_str(&l.gap(""));
            out.push(')');
            out
        }
    }
}

fn write_flat(f: &Flat, l: &mut Layout) -> String {
    let mut out = write_operand(&f.first, l);
    for (op, o) in &f.rest {
        let (a, b) = (l.gap(" "), l.gap(" "));
        // `!x` following directly would be read as part of the previous reference
        out.push_str(&format!("{a}{op}{b}{}", write_operand(o, l)));
    }
    out
}

/// a number, so that it can be compared
fn norm_num(signs: &str, digits: &str, pct: bool) -> Expr {
    let neg = signs.chars().filter(|c| *c == '-').count() % 2 == 1;
    let body = if digits.contains('.') {
        digits.parse::<f64>().unwrap().to_string()
    } else {
        let d = digits.trim_start_matches('0');
        if d.is_empty() { "0".into() } else { d.to_string() }
    };
    Expr::Num(format!("{}{body}{}", if neg { "-" } else { "" }, if pct { "%" } else { "" }))
}

fn expect_operand(o: &Operand, left: bool) -> Expr {
    match o {
        Operand::Num { signs, digits, pct, .. } => norm_num(signs, digits, *pct),
        Operand::Atom(e) => e.clone(),
        Operand::Paren(f) => expect(f, left),
        Operand::Call(n, a) => Expr::Call(n.clone(), a.iter().map(|x| x.as_ref().map_or(Expr::Empty, |f| expect(f, left))).collect()),
    }
}

/// the tree which the precedence of the operators makes of it; operators of the same level either
/// group to the left or the right
fn expect(f: &Flat, left: bool) -> Expr {
    let operands: Vec<Expr> =
        std::iter::once(&f.first).chain(f.rest.iter().map(|(_, o)| o)).map(|o| expect_operand(o, left)).collect();
    let ops: Vec<&str> = f.rest.iter().map(|(o, _)| o.as_str()).collect();
    build(&operands, &ops, left)
}

fn build(operands: &[Expr], ops: &[&str], left: bool) -> Expr {
    if ops.is_empty() {
        return operands[0].clone();
    }
    // the operator which binds the least is applied last
    let min = ops.iter().map(|o| level(o)).min().unwrap();
    let at = if left { ops.iter().rposition(|o| level(o) == min) } else { ops.iter().position(|o| level(o) == min) }.unwrap();
    bin(build(&operands[..=at], &ops[..at], left), ops[at], build(&operands[at + 1..], &ops[at + 1..], left))
}

// ------------------------------------------------------------------ reading the output

struct Reader<'a> {
    c: Vec<char>,
    i: usize,
    text: &'a str,
}
impl Reader<'_> {
    fn err<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("{m} at character {} of {:?}", self.i, self.text))
    }
    fn ws(&mut self) {
        while self.c.get(self.i).is_some_and(|c| c.is_whitespace()) {
            self.i += 1;
        }
    }
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn op(&mut self) -> Option<String> {
        self.ws();
        let rest: String = self.c[self.i..].iter().take(2).collect();
        let o = ["<=", ">=", "<>"].into_iter().find(|o| rest == *o).map(str::to_string).or_else(|| {
            self.peek().filter(|c| "+-*/^&=<>".contains(*c)).map(|c| c.to_string())
        })?;
        self.i += o.chars().count();
        Some(o)
    }
    fn operand(&mut self) -> Result<Expr, String> {
        self.ws();
        match self.peek() {
            Some('(') => {
                self.i += 1;
                let e = self.expr()?;
                self.ws();
                if self.peek() != Some(')') {
                    return self.err("expected )");
                }
                self.i += 1;
                Ok(e)
            }
            Some('"') => {
                let mut v = String::new();
                self.i += 1;
                loop {
                    match (self.peek(), self.c.get(self.i + 1)) {
                        (Some('"'), Some('"')) => {
                            v.push('"');
                            self.i += 2;
                        }
                        (Some('"'), _) => {
                            self.i += 1;
                            return Ok(Expr::Str(v));
                        }
                        (Some(c), _) => {
                            v.push(c);
                            self.i += 1;
                        }
                        (None, _) => return self.err("unterminated string"),
                    }
                }
            }
            Some(c) if "+-".contains(c) || c.is_ascii_digit() => {
                let mut signs = String::new();
                while let Some(c) = self.peek().filter(|c| "+-".contains(*c)) {
                    signs.push(c);
                    self.i += 1;
                }
                let mut d = String::new();
                while let Some(c) = self.peek().filter(|c| c.is_ascii_digit() || ".:$".contains(*c)) {
                    d.push(c);
                    self.i += 1;
                }
                if d.contains(':') {
                    return Ok(Expr::Ref(format!("{signs}{d}")));
                }
                let pct = self.peek() == Some('%');
                if pct {
                    self.i += 1;
                }
                if d.is_empty() || d.parse::<f64>().is_err() {
                    return self.err("expected a number");
                }
                Ok(norm_num(&signs, &d, pct))
            }
            Some(c) if c.is_alphanumeric() || "_$!:.".contains(c) => {
                let mut n = String::new();
                while let Some(c) = self.peek().filter(|c| c.is_alphanumeric() || "_$!:.".contains(*c)) {
                    n.push(c);
                    self.i += 1;
                }
                if self.peek() == Some('(') {
                    self.i += 1;
                    let mut args = vec![];
                    self.ws();
                    if self.peek() == Some(')') {
                        self.i += 1;
                        return Ok(Expr::Call(n, args));
                    }
                    loop {
                        self.ws();
                        args.push(if matches!(self.peek(), Some(',' | ')')) { Expr::Empty } else { self.expr()? });
                        self.ws();
                        match self.peek() {
                            Some(',') => self.i += 1,
                            Some(')') => {
                                self.i += 1;
                                return Ok(Expr::Call(n, args));
                            }
                            _ => return self.err("expected , or )"),
                        }
                    }
                }
                Ok(match n.as_str() {
                    "TRUE" => Expr::Bool(true),
                    "FALSE" => Expr::Bool(false),
                    _ => Expr::Ref(n),
                })
            }
            _ => self.err("expected a value"),
        }
    }
    fn expr(&mut self) -> Result<Expr, String> {
        let mut operands = vec![self.operand()?];
        let mut ops = vec![];
        while let Some(o) = self.op() {
            ops.push(o);
            operands.push(self.operand()?);
        }
        let ops: Vec<&str> = ops.iter().map(String::as_str).collect();
        // as a spreadsheet reads it
        Ok(build(&operands, &ops, true))
    }
}

/// Read a formula (without it's `=`) the way that a spreadsheet does
pub fn read_formula(text: &str) -> Result<Expr, String> {
    let mut r = Reader { c: text.chars().collect(), i: 0, text };
    let e = r.expr()?;
    r.ws();
    if r.i != r.c.len() {
        return r.err("something follows the formula");
    }
    Ok(e)
}

/// `TRUE` and the like can be written either way, numbers might have a `+`
fn norm(e: &Expr) -> Expr {
    match e {
        Expr::Ref(r) if r == "TRUE" => Expr::Bool(true),
        Expr::Ref(r) if r == "FALSE" => Expr::Bool(false),
        Expr::Call(n, a) => Expr::Call(n.clone(), a.iter().map(norm).collect()),
        Expr::Bin(l, o, r) => bin(norm(l), o, norm(r)),
        e => e.clone(),
    }
}

/// the operands of a chain of the same associative operator, in order
fn chain(e: &Expr, op: &str, out: &mut Vec<Expr>) {
    match e {
        Expr::Bin(l, o, r) if o == op => {
            chain(l, op, out);
            chain(r, op, out);
        }
        e => out.push(assoc(e)),
    }
}
fn assoc(e: &Expr) -> Expr {
    match e {
        Expr::Bin(_, o, _) if ["+", "*", "&"].contains(&o.as_str()) => {
            let mut v = vec![];
            chain(e, o, &mut v);
            Expr::Call(format!("chain {o}"), v)
        }
        Expr::Bin(l, o, r) => bin(assoc(l), o, assoc(r)),
        Expr::Call(n, a) => Expr::Call(n.clone(), a.iter().map(assoc).collect()),
        e => e.clone(),
    }
}

fn source(c: &C05) -> (String, Vec<String>) {
    let in_cell = c.route == 0;
    let mut l = Layout::new(c.noise, c.route != 2, c.route == 1 || c.route == 3);
    let text = write_flat(&c.flat, &mut l);
    let quote = c.noise % 2 == 1;
    if in_cell {
        (format!("---\n{}\n", lang::csv_field(&format!("={text}"), quote)), vec![])
    } else if c.route == 1 {
        (format!("{}other_1 := 1\nv_1 := {text}\nother_2 := 2\n---\n=v_1\n", if c.noise > 0 { "# first\n\n" } else { "" }), vec![])
    } else if c.route == 3 {
        (format!("fn fn_1(p_1) {text}\nother_2 := 2\n---\n=fn_1(5)\n"), vec![])
    } else {
        ("=v_1\n".to_string(), vec![format!("v_1={text}")])
    }
}

fn unquoted(e: &Expr) -> String {
    // as text with quotes is written: without escaping them
    e.canon()
}

fn map_str(e: &Expr, f: &dyn Fn(&str) -> String) -> Expr {
    match e {
        Expr::Str(s) => Expr::Str(f(s)),
        Expr::Call(n, a) => Expr::Call(n.clone(), a.iter().map(|x| map_str(x, f)).collect()),
        Expr::Bin(l, o, r) => bin(map_str(l, f), o, map_str(r, f)),
        e => e.clone(),
    }
}

fn check_c05(c: &C05, env: &mut Env) -> Outcome {
    let d = env.dir();
    let (src, key_values) = source(c);
    let opts = sut::Opts { key_values, ..Default::default() };
    let m = match sut::compile_with(&d, &src, &opts) {
        Ok(m) => m,
        Err(e) => fail!("a valid formula was rejected: {}", sut::plain(&e)),
    };
    let out = m.spreadsheet.rows[0].cells[0].to_string();
    let Some(out) = out.strip_prefix('=') else { fail!("not a formula: {out:?}") };
    let std = norm(&expect(&c.flat, true));
    let right = norm(&expect(&c.flat, false));
    let has_quote = std.any(&mut |e| matches!(e, Expr::Str(s) if s.contains('"')));
    let ops: usize = {
        let mut n = 0;
        std.any(&mut |e| {
            n += usize::from(matches!(e, Expr::Bin(..) | Expr::Call(..)));
            false
        });
        n
    };
    let read = read_formula(out).map(|e| norm(&e));
    let tag = ["cell", "code", "command line", "function body"][c.route as usize];
    let mut known = None;
    match &read {
        Ok(e) if *e == std => (),
        Ok(e) if assoc(e) == assoc(&std) => (),
        Ok(e) if *e == right => known = Some("right-grouping"),
        _ if has_quote => {
            // its text was written without escaping the quotes
            let a = unquoted(&std);
            let b = unquoted(&right);
            let got = drop_plus(out);
            if got == a || got == b {
                known = Some("unescaped-quotes");
            } else {
                fail!("{out:?} should be {a:?}");
            }
        }
        Ok(_) => fail!("={out} means something else than ={}", map_str(&std, &|s| s.replace('"', "\"\"")).canon()),
        Err(e) => fail!("the formula written can't be read: {e}"),
    }
    // what was written reads back as the same formula
    if !has_quote {
        let f = d.join("again.csvpp");
        fs::write(&f, format!("{}\n", lang::csv_field(&format!("={out}"), true))).unwrap();
        match sut::compile_file(&f, &Default::default()) {
            Ok(m) => {
                let again = m.spreadsheet.rows[0].cells[0].to_string();
                if again.strip_prefix('=') != Some(out) {
                    fail!("={out} compiled again is {again}");
                }
            }
            Err(e) => fail!("={out} is rejected when compiled again: {}", sut::plain(&e)),
        }
    }
    if let Some(k) = known {
        return Outcome::Known(k, format!("={} was written as ={out}", src.trim()));
    }
    pass(ops >= 2, &[tag])
}

/// drop the `+` of positive numbers and leading spellings which `norm_num` drops too
fn drop_plus(s: &str) -> String {
    let mut out = String::new();
    let c: Vec<char> = s.chars().collect();
    for (i, ch) in c.iter().enumerate() {
        let starts = i == 0 || c[i - 1] == '(' || (c[i - 1] == ' ');
        let num = c.get(i + 1).is_some_and(char::is_ascii_digit);
        if *ch == '+' && starts && num {
            continue;
        }
        out.push(*ch);
    }
    out
}

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Def::<C05> {
        id: "C05",
        quick: 60_000,
        thorough: 2_000_000,
        rule: "the formula has at least two operators or function calls (distinct formulas)",
        assumptions: &["`(a + b) + c` is the same as `a + (b + c)`, and so for `*` and `&`", "numbers are compared as 64-bit floating point or integer values"],
        gen: gen_c05,
        check: check_c05,
        show: |c| json!({"source": source(c).0, "key_values": source(c).1}),
    })]
}
