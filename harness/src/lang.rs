//! An independent model of the language: expressions, definitions, how to write them down (with
//! any layout) and what they mean.
use crate::src::{Rng, Src};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Expr {
    /// a number, exactly as it's expected to be written to the spreadsheet
    Num(String),
    Bool(bool),
    Str(String),
    Ref(String),
    Call(String, Vec<Expr>),
    Bin(Box<Expr>, String, Box<Expr>),
    Empty,
}

pub const OPS: &[&str] = &["+", "-", "*", "/", "^", "&", "=", "<", ">", "<=", ">=", "<>"];

pub fn level(op: &str) -> u8 {
    match op {
        "^" => 5,
        "*" | "/" => 4,
        "+" | "-" => 3,
        "&" => 2,
        _ => 1,
    }
}

pub fn bin(l: Expr, op: &str, r: Expr) -> Expr {
    Expr::Bin(Box::new(l), op.to_string(), Box::new(r))
}
pub fn num(n: i64) -> Expr {
    Expr::Num(n.to_string())
}
pub fn re(s: &str) -> Expr {
    Expr::Ref(s.to_string())
}
pub fn call(n: &str, a: Vec<Expr>) -> Expr {
    Expr::Call(n.to_string(), a)
}

impl Expr {
    /// How it's expected to appear in the target's formula
    pub fn canon(&self) -> String {
        match self {
            Expr::Num(n) => n.clone(),
            Expr::Bool(b) => if *b { "TRUE" } else { "FALSE" }.to_string(),
            Expr::Str(s) => format!("\"{s}\""),
            Expr::Ref(r) => r.clone(),
            Expr::Call(n, a) => {
                format!("{n}({})", a.iter().map(Expr::canon).collect::<Vec<_>>().join(", "))
            }
            Expr::Bin(l, o, r) => format!("({} {o} {})", l.canon(), r.canon()),
            Expr::Empty => String::new(),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Expr::Call(_, a) => 1 + a.iter().map(Expr::size).sum::<usize>(),
            Expr::Bin(l, _, r) => 1 + l.size() + r.size(),
            _ => 1,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Expr::Call(_, a) => 1 + a.iter().map(Expr::depth).max().unwrap_or(0),
            Expr::Bin(l, _, r) => 1 + l.depth().max(r.depth()),
            _ => 1,
        }
    }
    pub fn any(&self, f: &mut dyn FnMut(&Expr) -> bool) -> bool {
        if f(self) {
            return true;
        }
        match self {
            Expr::Call(_, a) => a.iter().any(|x| x.any(f)),
            Expr::Bin(l, _, r) => l.any(f) || r.any(f),
            _ => false,
        }
    }
    pub fn rename(&self, f: &dyn Fn(&str, bool) -> String) -> Expr {
        match self {
            Expr::Ref(r) => Expr::Ref(f(r, false)),
            Expr::Call(n, a) => Expr::Call(f(n, true), a.iter().map(|x| x.rename(f)).collect()),
            Expr::Bin(l, o, r) => bin(l.rename(f), o, r.rename(f)),
            e => e.clone(),
        }
    }
}

// ------------------------------------------------------------------ definitions

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Def {
    Var(String, Expr),
    Fn(String, Vec<String>, Expr),
}
impl Def {
    pub fn name(&self) -> &str {
        match self {
            Def::Var(n, _) | Def::Fn(n, ..) => n,
        }
    }
    pub fn body(&self) -> &Expr {
        match self {
            Def::Var(_, e) | Def::Fn(_, _, e) => e,
        }
    }
}

/// where a variable defined by a cell or row is
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Place {
    Cell { x: usize, y: usize },
    /// in a fill over the rows from..to (0-based, `to` is exclusive)
    FillCell { x: usize, from: usize, to: usize },
    Row { y: usize },
    FillRow { from: usize, to: usize },
}

pub fn col_name(mut x: usize) -> String {
    let mut s = String::new();
    loop {
        s.insert(0, char::from(b'A' + (x % 26) as u8));
        if x < 26 {
            return s;
        }
        x = x / 26 - 1;
    }
}
pub fn addr(x: usize, y: usize) -> String {
    format!("{}{}", col_name(x), y + 1)
}

impl Place {
    /// the reference it is when used at row `y`
    pub fn reference(&self, at_y: usize) -> String {
        match self {
            Place::Cell { x, y } => addr(*x, *y),
            Place::FillCell { x, from, to } => {
                if (*from..*to).contains(&at_y) {
                    addr(*x, at_y)
                } else {
                    format!("{}:{}", addr(*x, *from), addr(*x, to - 1))
                }
            }
            Place::Row { y } => format!("{}:{}", y + 1, y + 1),
            Place::FillRow { from, to } => {
                if (*from..*to).contains(&at_y) {
                    format!("{}:{}", at_y + 1, at_y + 1)
                } else {
                    format!("{}:{}", from + 1, to)
                }
            }
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Scope {
    pub vars: BTreeMap<String, Expr>,
    pub fns: BTreeMap<String, (Vec<String>, Expr)>,
    pub places: BTreeMap<String, Place>,
}

#[derive(Debug, PartialEq)]
pub enum EvalErr {
    Arity(String),
    /// the model only gives a meaning to definitions which end
    TooBig,
}

impl Scope {
    pub fn define(&mut self, d: &Def) {
        match d {
            Def::Var(n, e) => {
                self.vars.insert(n.clone(), e.clone());
            }
            Def::Fn(n, p, e) => {
                self.fns.insert(n.clone(), (p.clone(), e.clone()));
            }
        }
    }
    /// first definition wins
    pub fn define_weak(&mut self, d: &Def) {
        match d {
            Def::Var(n, e) => {
                self.vars.entry(n.clone()).or_insert_with(|| e.clone());
            }
            Def::Fn(n, p, e) => {
                self.fns.entry(n.clone()).or_insert_with(|| (p.clone(), e.clone()));
            }
        }
    }
    pub fn eval(&self, e: &Expr, y: usize) -> Result<Expr, EvalErr> {
        let mut fuel = 4000;
        self.ev(e, &BTreeMap::new(), y, &mut fuel, 0)
    }
    /// the body of a function in which everything but it's parameters is evaluated
    pub fn eval_body(&self, params: &[String], body: &Expr) -> Result<Expr, EvalErr> {
        let bound = params.iter().map(|p| (p.clone(), Expr::Ref(p.clone()))).collect();
        let mut fuel = 4000;
        self.ev(body, &bound, 0, &mut fuel, 0)
    }
    fn ev(
        &self,
        e: &Expr,
        bound: &BTreeMap<String, Expr>,
        y: usize,
        fuel: &mut usize,
        depth: usize,
    ) -> Result<Expr, EvalErr> {
        if *fuel == 0 || depth > 400 {
            return Err(EvalErr::TooBig);
        }
        *fuel -= 1;
        Ok(match e {
            Expr::Ref(n) => {
                if let Some(v) = bound.get(n) {
                    let s = v.size();
                    if s > *fuel {
                        return Err(EvalErr::TooBig);
                    }
                    *fuel -= s;
                    v.clone()
                } else if let Some(d) = self.vars.get(n) {
                    self.ev(d, &BTreeMap::new(), y, fuel, depth + 1)?
                } else if let Some(p) = self.places.get(n) {
                    Expr::Ref(p.reference(y))
                } else {
                    e.clone()
                }
            }
            Expr::Call(n, args) => {
                let args = args
                    .iter()
                    .map(|a| self.ev(a, bound, y, fuel, depth + 1))
                    .collect::<Result<Vec<_>, _>>()?;
                if let Some((params, body)) = self.fns.get(n) {
                    if params.len() != args.len() {
                        return Err(EvalErr::Arity(n.clone()));
                    }
                    let b = params.iter().cloned().zip(args).collect();
                    self.ev(body, &b, y, fuel, depth + 1)?
                } else {
                    Expr::Call(n.clone(), args)
                }
            }
            Expr::Bin(l, o, r) => bin(
                self.ev(l, bound, y, fuel, depth + 1)?,
                o,
                self.ev(r, bound, y, fuel, depth + 1)?,
            ),
            e => e.clone(),
        })
    }
}

// ------------------------------------------------------------------ generators

/// names which look like keywords, or contain each other
pub const NAMES: &[&str] = &[
    "foo", "bar", "baz", "a", "aa", "ab", "x", "y", "xy", "n1", "foo_bar", "foo2", "truex", "false_",
    "used", "fnord", "use_it", "été", "rate", "total", "price", "_p", "qty", "Foo", "FOO", "zz",
    "var_name", "trueish", "tr", "usex", "true_", "true1", "fn_", "use_", "fn1", "use1", "false0",
];
pub const BUILTINS: &[&str] = &["SUM", "IF", "MAX", "AVERAGE", "STDEV.P", "CELLREF", "AND", "T", "VLOOKUP"];
pub const CELL_REFS: &[&str] = &[
    "A1", "B2", "$C$3", "D$4", "$E5", "A1:B2", "A:A", "1:2", "AA10", "C3:D9", "Sheet1!A1", "Z99", "unknown", "B:D",
];

/// any reference, to cells, other sheets or named values
pub fn gen_ref(s: &mut Src) -> String {
    const FIRST: &[char] = &['$', '!', '_', 'a', 'b', 'R', 'Z', 'é', 'x', 'C'];
    const CHARS: &[char] = &['$', '!', '_', 'a', 'b', 'R', 'Z', 'é', 'x', 'C', '1', '0', '9', ':', '.', 'q', 'Ж'];
    let cell = |s: &mut Src| {
        let letters: String = (0..s.range(1, 3)).map(|_| *s.pick(&['A', 'B', 'Z', 'a', 'x'])).collect();
        let row = s.wide(1, 99, 1_048_576, 6);
        let (c, r) = (s.chance(1, 3), s.chance(1, 3));
        format!("{}{letters}{}{row}", if c { "$" } else { "" }, if r { "$" } else { "" })
    };
    match s.below(9) {
        0 | 1 => cell(s),
        2 => format!("{}:{}", cell(s), cell(s)),
        3 => format!("{}:{}{}", s.wide(1, 99, 1_048_576, 3), *s.pick(&["", "$"]), s.wide(1, 99, 1_048_576, 3)),
        4 => format!("{0}{1}:{0}{1}", *s.pick(&["", "$"]), *s.pick(&["A", "ZZ", "XFD", "b"])),
        5 | 6 => format!("{}!{}", *s.pick(&["Sheet2", "data_1", "$x", "été"]), cell(s)),
        _ => {
            let n = s.wide(0, 7, 40, 10);
            let mut r = s.pick(FIRST).to_string();
            for _ in 0..n {
                r.push(*s.pick(CHARS));
            }
            // (`a:=1` would assign it, and `!` on it's own isn't anything)
            format!("{r}q")
        }
    }
}

pub struct Scoped<'a> {
    /// names of values which can be referred to
    pub refs: &'a [String],
    /// functions with the amount of their arguments
    pub fns: &'a [(String, usize)],
    /// text may contain anything rather than just word characters
    pub wild_text: bool,
    /// arguments can be empty
    pub empty_args: bool,
}

pub fn gen_num(s: &mut Src) -> Expr {
    let sign = *s.pick(&["", "", "", "-", "", "+"]);
    let pct = if s.chance(1, 8) { "%" } else { "" };
    let body = match s.below(8) {
        // (any number a double has all the digits of)
        6 => s.range(1, 9_007_199_254_740_992).to_string(),
        7 => {
            let (n, d) = (s.us(7), s.range(1, 8) as usize);
            let mut t = s.below(10u64.pow(n as u32)).to_string();
            t.push('.');
            for i in 0..d {
                t.push(char::from(b'0' + s.range(u64::from(i + 1 == d), 9) as u8));
            }
            t
        }
        0..=2 => s.below(10).to_string(),
        3 => s.below(100_000).to_string(),
        4 => format!("{}.{}", s.below(1000), *s.pick(&["5", "25", "125", "01", "75"])),
        _ => (*s.pick(&["9223372036854775807", "1000000", "0.5", "0.001", "123456789.125", "0", "4294967296", "2147483648", "99999.99", "65536"])).to_string(),
    };
    Expr::Num(format!("{sign}{body}{pct}"))
}

pub fn gen_text(s: &mut Src, wild: bool) -> String {
    const PLAIN: &[&str] = &["", "a", "foo", "hello world", "x y", "1", "A1"];
    const WILD: &[&str] = &[
        ",", "(", ")", "#", "'", "é", "日本", "=", ":=", "fn ", "use ", "---", "true", "[[", "]]", " ", "😀", "%", "\\", "/",
    ];
    if !wild {
        return (*s.pick(PLAIN)).to_string();
    }
    let n = if s.chance(1, 60) { s.range(20, 400) as usize } else { s.len(4) };
    (0..n).map(|_| if s.chance(1, 2) { *s.pick(WILD) } else { *s.pick(PLAIN) }).collect::<String>().trim().to_string()
}

pub fn gen_expr(s: &mut Src, sc: &Scoped, depth: usize) -> Expr {
    let k = if depth == 0 { s.weighted(&[4, 3, 1, 1, 3]) } else { s.weighted(&[3, 3, 1, 1, 6, 5, 3, 4]) };
    match k {
        0 => gen_num(s),
        1 => Expr::Ref(if s.chance(1, 4) { gen_ref(s) } else { (*s.pick(CELL_REFS)).to_string() }),
        2 => Expr::Bool(s.chance(1, 2)),
        3 => Expr::Str(gen_text(s, sc.wild_text)),
        4 => {
            if sc.refs.is_empty() {
                gen_num(s)
            } else {
                Expr::Ref(s.pick(sc.refs).clone())
            }
        }
        5 => {
            let op = *s.pick(OPS);
            let l = gen_expr(s, sc, depth - 1);
            let r = gen_expr(s, sc, depth - 1);
            bin(l, op, r)
        }
        6 => {
            let n = s.wide(0, 3, 14, 30);
            let name = (*s.pick(BUILTINS)).to_string();
            let mut args: Vec<Expr> = (0..n).map(|_| gen_expr(s, sc, depth - 1)).collect();
            if sc.empty_args && n > 1 && s.chance(1, 6) {
                let i = s.us(n);
                args[i] = Expr::Empty;
            }
            Expr::Call(name, args)
        }
        _ => {
            if sc.fns.is_empty() {
                let n = s.us(3);
                Expr::Call((*s.pick(BUILTINS)).to_string(), (0..n).map(|_| gen_expr(s, sc, depth - 1)).collect())
            } else {
                let (name, n) = s.pick(sc.fns).clone();
                Expr::Call(name, (0..n).map(|_| gen_expr(s, sc, depth - 1)).collect())
            }
        }
    }
}

/// any name (different for each `k`), sometimes a very long one
fn any_name(s: &mut Src, k: usize) -> String {
    const CHARS: &[char] = &['a', 'e', 'k', 'o', 'z', 'A', 'R', 'Z', '_', '0', '9', '5', 'é', 'Ж', 'n', 'u'];
    let len = s.wide(0, 9, 70, 8);
    let rest: String = (0..len).map(|_| *s.pick(CHARS)).collect();
    format!("{}{rest}_{k}", *s.pick(&["w", "Q", "_", "u", "f", "t", "é", "T", "true", "false", "fn", "use", "TRUE"]))
}
pub fn any_names(s: &mut Src, n: usize) -> Vec<String> {
    (0..n).map(|k| any_name(s, k)).collect()
}

/// `n` distinct names
pub fn gen_names(s: &mut Src, n: usize) -> Vec<String> {
    let mut pool: Vec<&str> = NAMES.to_vec();
    (0..n)
        .map(|k| {
            if pool.is_empty() || s.chance(1, 10) {
                return any_name(s, k);
            }
            let i = s.us(pool.len());
            pool.remove(i).to_string()
        })
        .collect()
}

// ------------------------------------------------------------------ writing it down

/// decides how it's laid out; with seed 0 everything is plain
pub struct Layout {
    rng: Option<Rng>,
    pub newlines: bool,
    pub comments: bool,
}
impl Layout {
    pub fn new(seed: u64, newlines: bool, comments: bool) -> Self {
        Layout { rng: if seed == 0 { None } else { Some(Rng::new(seed)) }, newlines, comments }
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.rng.as_mut().map_or(0, |r| r.next() % n)
    }
    /// optional whitespace between two tokens
    pub fn gap(&mut self, plain: &str) -> String {
        if self.rng.is_none() {
            return plain.to_string();
        }
        match self.below(13) {
            0..=5 => plain.to_string(),
            6 | 7 => String::new(),
            8 => " ".into(),
            9 => "  ".into(),
            10 => (*["\t ", "\t", " \t\t"].get(self.below(3) as usize).unwrap()).into(),
            11 => (*["\u{a0}", "\u{3000} ", "\x0b", "\x0c", "  \t  ", " "].get(self.below(6) as usize).unwrap()).into(),
            _ if self.newlines => self.newline(),
            _ => " ".into(),
        }
    }
    pub fn newline(&mut self) -> String {
        match self.below(6) {
            0 if self.comments => {
                let c = *[
                    "# comment", "#", "#fn x(a) a", "# foo := 2", "# \"quoted", "# use bar", "# it's é 日本 ---x", "#)(,",
                ]
                .get(self.below(8) as usize)
                .unwrap();
                format!("{} {c}\n", if self.below(2) == 0 { "" } else { "  " })
            }
            1 => "\n\n".into(),
            2 => "\n   ".into(),
            3 => "\n\t".into(),
            _ => "\n".into(),
        }
    }
    /// where there's usually nothing, and rarely something else
    pub fn tight(&mut self) -> String {
        if self.below(6) == 1 { self.gap("") } else { String::new() }
    }
    /// at least one whitespace character
    pub fn white(&mut self) -> String {
        let g = self.gap(" ");
        if g.starts_with(char::is_whitespace) { g } else { format!(" {g}") }
    }
    /// at least one space
    pub fn space(&mut self) -> String {
        let g = self.gap(" ");
        if g.is_empty() { " ".into() } else { g }
    }
}

/// Write an expression so that it has just one reading (operators of the same level are always in
/// parentheses)
pub fn write_expr(e: &Expr, l: &mut Layout) -> String {
    let s = write_bare(e, l);
    if l.below(9) == 1 && !matches!(e, Expr::Empty) {
        let (a, b) = (l.gap(""), l.gap(""));
        format!("({a}{s}{b})")
    } else {
        s
    }
}

fn write_bare(e: &Expr, l: &mut Layout) -> String {
    match e {
        Expr::Num(n) => n.clone(),
        Expr::Bool(b) => b.to_string(),
        Expr::Str(s) => format!("\"{}\"", s.replace('"', "\"\"")),
        Expr::Ref(r) => r.clone(),
        Expr::Empty => String::new(),
        Expr::Call(n, a) => {
            let mut out = format!("{n}{}(", l.tight());
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push_str(&l.gap(""));
                    out.push(',');
                }
                out.push_str(&l.gap(if i > 0 { " " } else { "" }));
                out.push_str(&write_expr(x, l));
            }
            out.push_str(&l.gap(""));
            out.push(')');
            out
        }
        Expr::Bin(a, o, b) => {
            let lv = level(o);
            let mut side = |x: &Expr, l: &mut Layout| match x {
                Expr::Bin(_, o2, _) if level(o2) <= lv => {
                    let (p, q) = (l.gap(""), l.gap(""));
                    format!("({p}{}{q})", write_bare(x, l))
                }
                x => write_expr(x, l),
            };
            let left = side(a, l);
            let right = side(b, l);
            // a signed number needs something between it and the operator to be read as one
            format!("{left}{}{o}{}{right}", l.gap(" "), l.gap(" "))
        }
    }
}

pub fn write_def(d: &Def, l: &mut Layout) -> String {
    match d {
        Def::Var(n, e) => {
            let (a, b) = (l.space(), l.gap(" "));
            format!("{}{n}{a}:={b}{}", l.tight(), write_expr(e, l))
        }
        Def::Fn(n, p, e) => {
            let mut out = format!("{}fn{}{n}{}(", l.tight(), l.white(), l.tight());
            for (i, x) in p.iter().enumerate() {
                if i > 0 {
                    out.push_str(&l.gap(""));
                    out.push(',');
                }
                out.push_str(&l.gap(if i > 0 { " " } else { "" }));
                out.push_str(x);
            }
            out.push_str(&l.gap(""));
            out.push(')');
            out.push_str(&l.gap(" "));
            out.push_str(&write_expr(e, l));
            out
        }
    }
}

/// all of the definitions, one after another
pub fn write_defs(uses: &[String], defs: &[Def], l: &mut Layout) -> String {
    let mut out = String::new();
    for u in uses {
        out.push_str(&format!("{}use{}{u}", l.tight(), l.white()));
        out.push_str(&l.newline());
    }
    for d in defs {
        out.push_str(&write_def(d, l));
        out.push_str(&l.newline());
    }
    if !out.is_empty() && !out.ends_with('\n') {
        out.push('\n');
    }
    out
}

/// a csv field, quoted when it has to be (or if `quote`)
pub fn csv_field(value: &str, quote: bool) -> String {
    if quote || value.contains([',', '"', '\n', '\r', '\\']) || value.starts_with('#') {
        format!("\"{}\"", value.replace('"', "\"\""))
    } else {
        value.to_string()
    }
}
