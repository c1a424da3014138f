//! C13, C14: options of cells and rows
use super::formula::read_formula;
use super::program::{gen_program, stretch, Shape};
use crate::core::{no_panic, pass, Def, Env, Outcome, Prop};
use crate::fail;
use crate::lang::Expr;
use crate::opts::{self, Args, Item, Opt, Rule, Styled, RULES};
use crate::sheet::{CellM, Content, Fill, Program, RowM};
use crate::src::Src;
use crate::sut::{self, Opts};
use csvpp::{Compiler, Module};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::path::Path;
use umya_spreadsheet as u;

// ------------------------------------------------------------------ Google's requests

pub struct Request {
    pub x: i64,
    pub y: i64,
    pub sheet: Value,
    pub rows: Vec<Vec<Value>>,
}

pub fn google_requests(c: &Compiler, m: &Module, existing: &str) -> Result<Vec<Request>, String> {
    let s = csvpp::verif::google_sheets_batch_update(c, m, existing).map_err(|e| e.to_string())?;
    let v: Value = serde_json::from_str(&s).map_err(|e| e.to_string())?;
    let mut out = vec![];
    for r in v["requests"].as_array().cloned().unwrap_or_default() {
        let u = &r["updateCells"];
        if u.is_null() {
            return Err(format!("a request which isn't an update of cells: {r}"));
        }
        if u["fields"].as_str() != Some("*") {
            return Err(format!("the fields are {}", u["fields"]));
        }
        if !u["range"].is_null() {
            return Err("both a start and a range".into());
        }
        out.push(Request {
            x: u["start"]["columnIndex"].as_i64().unwrap_or(0),
            y: u["start"]["rowIndex"].as_i64().unwrap_or(0),
            sheet: u["start"]["sheetId"].clone(),
            rows: u["rows"]
                .as_array()
                .cloned()
                .unwrap_or_default()
                .iter()
                .map(|r| r["values"].as_array().cloned().unwrap_or_default())
                .collect(),
        });
    }
    Ok(out)
}

/// all cells of a program which is written to a new sheet
pub fn google_grid(c: &Compiler, m: &Module) -> Result<Vec<Vec<Value>>, String> {
    let mut g: Vec<Vec<Value>> = vec![];
    for r in google_requests(c, m, "[]")? {
        if r.x != 0 || r.y != g.len() as i64 {
            return Err(format!("a request starts at {},{} after {} rows", r.x, r.y, g.len()));
        }
        g.extend(r.rows.iter().map(|r| r.iter().map(opts::simplify).collect()));
    }
    Ok(g)
}

fn prepare(dir: &Path, source: &str, o: &Opts) -> Result<(Compiler, Module), String> {
    std::fs::write(dir.join("main.csvpp"), source).unwrap();
    let c = sut::compiler(&dir.join("main.csvpp"), &dir.join("out.csv"), o)?;
    let m = c.compile().map_err(|e| e.to_string())?;
    Ok((c, m))
}

// ------------------------------------------------------------------ C13

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mistake {
    UnknownName(String),
    UnknownValue(String),
    RowOptionsLater,
    Twice,
    FillOfCell,
    Unclosed,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C13 {
    sheet: Styled,
    mistake: Option<Mistake>,
}

fn gen_c13(s: &mut Src) -> C13 {
    let sh = Shape { vars: 1, fns: 1, rows: 4, cols: 4, depth: 1, fills: true, cell_vars: true, text_cells: true, max_fill: 3 };
    let mut p = gen_program(s, &sh);
    for r in &mut p.rows {
        if r.fill == Fill::Rest {
            r.fill = Fill::Times(4);
        }
        for c in &mut r.cells {
            if s.chance(1, 2) {
                c.content = Content::Text((*s.pick(&["foo", "1", "", "a b", "50%", "x]]", "été", "-5", "[1]", "a [[t=b]]"])).to_string());
            }
        }
    }
    stretch(s, &mut p, 500);
    let sheet = opts::gen_styled(s, p, 6, true, false);
    let mistake = if s.chance(1, 12) {
        Some(match s.below(6) {
            0 => Mistake::UnknownName((*s.pick(&["foo=1", "bold", "texts=b", "colour=fff", "borderstyles=1", "xx", "hal=l", "T=b"])).to_string()),
            1 => Mistake::UnknownValue(
                (*s.pick(&[
                    "t=x", "ha=t", "va=l", "b=x", "bs=4", "nf=x", "w=x", "text=", "c=ff", "c=#12345", "c=xyz", "fs=x", "fs=256", "fs=-1", "n='a",
                    "fc=1234567", "ha", "t", "halign=lef", "nf=currencies", "f=x", "fill=-1",
                ]))
                .to_string(),
            ),
            2 => Mistake::RowOptionsLater,
            3 => Mistake::Twice,
            4 => Mistake::FillOfCell,
            _ => Mistake::Unclosed,
        })
    } else {
        None
    };
    C13 { sheet, mistake }
}

impl C13 {
    fn source(&self) -> String {
        let mut src = self.sheet.source();
        if self.mistake.is_some() && !src.ends_with('\n') {
            src.push('\n');
        }
        match &self.mistake {
            None => src,
            Some(m) => format!(
                "{src}{}\n",
                match m {
                    Mistake::UnknownName(t) => format!("a,[[t=b {t}]]b"),
                    Mistake::UnknownValue(t) => format!("\"![[t=b {t}]]b\""),
                    Mistake::RowOptionsLater => "a,![[t=b]]b".to_string(),
                    Mistake::Twice => "[[t=b]][[t=i]]b".to_string(),
                    Mistake::FillOfCell => "[[fill=2]]b".to_string(),
                    Mistake::Unclosed => "[[t=b".to_string(),
                }
            ),
        }
    }
}

fn check_c13(c: &C13, env: &mut Env) -> Outcome {
    let dir = env.dir();
    let source = c.source();
    let r = prepare(&dir, &source, &Opts::default());
    if let Some(m) = &c.mistake {
        return match r {
            Err(_) => pass(true, &["rejected"]),
            Ok(_) => Outcome::Fail(format!("{m:?} was accepted in\n{source}")),
        };
    }
    let Some(model) = c.sheet.model() else { return pass(false, &["too big"]) };
    let (comp, m) = match r {
        Ok(r) => r,
        Err(e) => fail!("failed with {}\nfor\n{source}", sut::plain(&e)),
    };
    let g = match google_grid(&comp, &m) {
        Ok(g) => g,
        Err(e) => fail!("{e}\nfor\n{source}"),
    };
    if g.len() != model.len() {
        fail!("{} rows rather than {} for\n{source}", g.len(), model.len());
    }
    for (y, row) in model.iter().enumerate() {
        if g[y].len() != row.len() {
            fail!("row {} has {} cells rather than {} for\n{source}", y + 1, g[y].len(), row.len());
        }
        for (x, cell) in row.iter().enumerate() {
            let want = opts::google_cell(cell);
            if g[y][x] != want {
                fail!("cell {}: expected\n{want}\nbut has\n{}\nfor\n{source}", crate::lang::addr(x, y), g[y][x]);
            }
            let lock = m.spreadsheet.rows[y].cells[x].lock;
            if lock != cell.style.lock {
                fail!("cell {}: lock is {lock} for\n{source}", crate::lang::addr(x, y));
            }
        }
    }
    let both = c.sheet.rows.iter().zip(&c.sheet.cells).any(|(r, cs)| !r.is_empty() && cs.iter().any(|c| !c.is_empty()));
    let many = c.sheet.cells.iter().flatten().chain(&c.sheet.rows).any(|o| o.len() > 1);
    let mut tags = vec![];
    if both {
        tags.push("row and cell options");
    }
    if many {
        tags.push("several options");
    }
    if c.sheet.has_fill() {
        tags.push("fill");
    }
    pass(both || many, &tags)
}

// ------------------------------------------------------------------ C14

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C14 {
    sheet: Styled,
    mistake: Option<String>,
}

const WRONG: &[&str] = &[
    "foo", "date_after", "date_after()", "date_after(1)", "date_after(2020-13-45)", "date_after(2020-01-01", "date_after(2020-01-01 2020-01-02)",
    "date_between(2020-01-01)", "date_between(2020-01-01 5)", "number_between(1)", "number_between(1 2 3)", "number_equal_to(foo)",
    "number_equal_to()", "num_gt(1", "in_list()", "in_list", "in_range()", "in_range(!)", "text_contains()", "text_contains('a' 'b')",
    "text_eq", "is_date(1)", "date_afters(2020-01-01)", "number_greater(1)", "numbers", "custom", "c()", "in_list('a'", "num_eq(1-2)",
    "number_equal_to('1')", "is_emails", "number_equal_to(99999999999999999999)", "date_eq(30/30/2020)", "date_eq(foo)",
];

/// a rule with a day which there isn't
fn wrong_date(s: &mut Src) -> String {
    let y = s.range(1970, 2069);
    let (m, d) = match s.below(6) {
        0 => (0, s.range(1, 28)),
        1 => (s.range(13, 31), s.range(1, 12)),
        2 => (s.range(1, 12), 0),
        3 => (s.range(1, 12), s.range(32, 99)),
        4 => (*s.pick(&[4, 6, 9, 11]), 31),
        _ => (2, if y % 4 == 0 { 30 } else { 29 }),
    };
    let date = match s.below(4) {
        0 => format!("{y:04}-{m:02}-{d:02}"),
        1 => format!("{m:02}/{d:02}/{y:04}"),
        2 => format!("{m}/{d}/{:02}", y % 100),
        _ => format!("{m}/{d}/{y:04}"),
    };
    match s.below(4) {
        0 => format!("date_between({date} 2024-01-01)"),
        1 => format!("date_not_between(1/1/2024 {date})"),
        _ => format!("{}({date})", s.pick(&["date_after", "date_lt", "date_eq", "date_gte", "date_lte"])),
    }
}

fn gen_c14(s: &mut Src) -> C14 {
    let n = s.wide(1, 3, 20, 20);
    let mut rows = vec![];
    for _ in 0..n {
        let fill = if s.chance(1, 5) { Fill::Times(s.wide(1, 3, 40, 10)) } else { Fill::No };
        let k = s.wide(1, 3, 35, 30);
        let cells = (0..k)
            .map(|_| CellM {
                var: None,
                content: if s.chance(1, 3) { Content::Formula(Expr::Num("5".into())) } else { Content::Text((*s.pick(&["", "foo", "5"])).to_string()) },
            })
            .collect();
        rows.push(RowM { fill, var: None, cells });
    }
    let mut sheet = opts::gen_styled(s, Program { defs: vec![], rows }, 2, false, false);
    let mut any = false;
    for r in &mut sheet.cells {
        for c in r {
            if s.chance(1, 2) {
                any = true;
                c.push(Opt::Validate(opts::gen_rule(s)));
            }
        }
    }
    for r in &mut sheet.rows {
        if !any || s.chance(1, 6) {
            any = true;
            r.push(Opt::Validate(opts::gen_rule(s)));
        }
    }
    let mistake = if s.chance(1, 8) { Some(if s.chance(1, 2) { (*s.pick(WRONG)).to_string() } else { wrong_date(s) }) } else { None };
    C14 { sheet, mistake }
}

impl C14 {
    fn source(&self) -> String {
        let mut src = self.sheet.source();
        if self.mistake.is_some() && !src.ends_with('\n') {
            src.push('\n');
        }
        match &self.mistake {
            None => src,
            Some(m) => format!("{src}a,[[validate={m}]]b\n"),
        }
    }
}

/// Excel's number of a day
fn serial(d: &(i32, u32, u32)) -> i64 {
    // days since 1970-01-01 (proleptic Gregorian)
    let (y, m, d) = (i64::from(d.0) - i64::from(d.1 <= 2), i64::from(d.1), i64::from(d.2));
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe - 719_468 + 25569
}

/// what a formula is for a cell that has the text `cell` in it
fn truth(e: &Expr, addr: &str, cell: &str) -> Result<V, String> {
    let ev = |e: &Expr| truth(e, addr, cell);
    Ok(match e {
        Expr::Num(n) => n.parse().map(V::Num).map_err(|_| n.clone())?,
        Expr::Str(s) => V::Text(s.clone()),
        Expr::Bool(b) => V::Bool(*b),
        Expr::Ref(r) if r.replace('$', "") == addr => V::Text(cell.to_string()),
        Expr::Bin(l, o, r) => {
            let (l, r) = (ev(l)?, ev(r)?);
            if let (V::Err, _) | (_, V::Err) = (&l, &r) {
                return Ok(V::Err);
            }
            let o = o.as_str();
            match (l, r) {
                (V::Text(l), V::Text(r)) if o == "&" => V::Text(l + &r),
                (V::Text(l), V::Text(r)) if o == "=" => V::Bool(l.to_lowercase() == r.to_lowercase()),
                (V::Text(l), V::Text(r)) if o == "<>" => V::Bool(l.to_lowercase() != r.to_lowercase()),
                (V::Num(l), V::Num(r)) => match o {
                    "=" => V::Bool(l == r),
                    "<>" => V::Bool(l != r),
                    "<" => V::Bool(l < r),
                    ">" => V::Bool(l > r),
                    "<=" => V::Bool(l <= r),
                    ">=" => V::Bool(l >= r),
                    "+" => V::Num(l + r),
                    "-" => V::Num(l - r),
                    "*" => V::Num(l * r),
                    _ => return Err(format!("operator {o}")),
                },
                _ => V::Bool(o == "<>"),
            }
        }
        Expr::Call(f, a) => {
            let a = a.iter().map(ev).collect::<Result<Vec<_>, _>>()?;
            let f = f.to_uppercase();
            match (f.as_str(), &a[..]) {
                ("ISERROR", [x]) => V::Bool(*x == V::Err),
                ("ISNUMBER", [x]) => V::Bool(matches!(x, V::Num(_))),
                ("NOT", [V::Bool(b)]) => V::Bool(!b),
                ("AND", x) => V::Bool(x.iter().all(|x| *x == V::Bool(true))),
                ("OR", x) => V::Bool(x.iter().any(|x| *x == V::Bool(true))),
                (_, x) if x.contains(&V::Err) => V::Err,
                ("LEN", [V::Text(t)]) => V::Num(t.chars().count() as f64),
                ("LOWER", [V::Text(t)]) => V::Text(t.to_lowercase()),
                ("UPPER", [V::Text(t)]) => V::Text(t.to_uppercase()),
                ("EXACT", [V::Text(x), V::Text(y)]) => V::Bool(x == y),
                ("LEFT", [V::Text(t), V::Num(n)]) => V::Text(t.chars().take(*n as usize).collect()),
                ("COUNTIF", [V::Text(t), V::Text(p)]) => V::Num(f64::from(u8::from(wild(p, t, true)))),
                ("MATCH", [V::Text(p), V::Text(t), V::Num(n)]) if *n == 0.0 => if wild(p, t, true) { V::Num(1.0) } else { V::Err },
                ("SEARCH", [V::Text(p), V::Text(t)]) => if wild(p, t, false) { V::Num(1.0) } else { V::Err },
                ("FIND", [V::Text(p), V::Text(t)]) => if t.contains(p.as_str()) { V::Num(1.0) } else { V::Err },
                // a text which isn't a date
                ("DAY" | "DATEVALUE" | "MONTH" | "YEAR", [V::Text(_)]) => V::Err,
                _ => return Err(format!("{f} with {a:?}")),
            }
        }
        e => return Err(format!("{e:?}")),
    })
}

#[derive(Clone, Debug, PartialEq)]
enum V {
    Num(f64),
    Text(String),
    Bool(bool),
    Err,
}

/// `?`, `*` and `~` as in Excel; the whole text, or somewhere in it
fn wild(p: &str, t: &str, whole: bool) -> bool {
    fn go(p: &[char], t: &[char]) -> bool {
        match p {
            [] => t.is_empty(),
            ['*', rest @ ..] => (0..=t.len()).any(|i| go(rest, &t[i..])),
            ['?', rest @ ..] => !t.is_empty() && go(rest, &t[1..]),
            ['~', c @ ('*' | '?' | '~'), rest @ ..] | [c, rest @ ..] => t.first() == Some(c) && go(rest, &t[1..]),
        }
    }
    let (p, t): (Vec<char>, Vec<char>) = (p.to_lowercase().chars().collect(), t.to_lowercase().chars().collect());
    if whole {
        return go(&p, &t);
    }
    let mut any = vec!['*'];
    any.extend(p);
    any.push('*');
    go(&any, &t)
}

/// texts to try on a rule, and whether they're valid
fn examples(r: &Rule) -> Vec<(String, bool)> {
    let t = &r.text;
    let other = format!("{}~", t.chars().rev().skip(1).collect::<String>());
    let texts = vec![t.clone(), String::new(), format!("x{t}"), format!("{t}x"), format!("a {t} b"), other, t.to_uppercase(), "foo".into(), format!("{t}{t}"), "x?".into()];
    let has = |x: &str| x.to_lowercase().contains(&t.to_lowercase());
    match r.google() {
        "TEXT_CONTAINS" => texts.into_iter().map(|x| (x.clone(), has(&x))).collect(),
        "TEXT_NOT_CONTAINS" => texts.into_iter().map(|x| (x.clone(), !has(&x))).collect(),
        "TEXT_EQ" => texts.into_iter().map(|x| (x.clone(), x.to_lowercase() == t.to_lowercase())).collect(),
        "TEXT_IS_EMAIL" => vec![("a@b.com".into(), true), ("foo".into(), false), ("first.last@example.org".into(), true), ("a.com".into(), false), (String::new(), false), ("a@b".into(), false)],
        "TEXT_IS_URL" => vec![("http://example.com".into(), true), ("https://example.com/x?y=z".into(), true), ("foo".into(), false), (String::new(), false), ("a@b.com".into(), false)],
        "DATE_IS_VALID" => vec![("foo".into(), false)],
        _ => vec![],
    }
}

fn check_excel_rule(r: &Rule, addr: &str, v: &u::DataValidation) -> Result<(), String> {
    use u::DataValidationOperatorValues as O;
    use u::DataValidationValues as T;
    let got = format!(
        "{:?} {:?} {:?} {:?}",
        v.get_type(),
        v.get_operator(),
        v.get_formula1(),
        v.get_formula2()
    );
    let op = match r.google().trim_start_matches("DATE_").trim_start_matches("NUMBER_") {
        "AFTER" | "GREATER" => O::GreaterThan,
        "BEFORE" | "LESS" => O::LessThan,
        "BETWEEN" => O::Between,
        "EQ" => O::Equal,
        "NOT_EQ" => O::NotEqual,
        "NOT_BETWEEN" => O::NotBetween,
        "ON_OR_AFTER" | "GREATER_THAN_EQ" => O::GreaterThanOrEqual,
        "ON_OR_BEFORE" | "LESS_THAN_EQ" => O::LessThanOrEqual,
        _ => O::Equal,
    };
    let numbers: Option<Vec<i64>> = match r.args() {
        Args::Date | Args::Dates => Some(r.dates.iter().map(serial).collect()),
        Args::Num | Args::Nums => Some(r.nums.clone()),
        _ => None,
    };
    if let Some(n) = numbers {
        let date = matches!(r.args(), Args::Date | Args::Dates);
        let kind_ok = if date { v.get_type() == &T::Date } else { matches!(v.get_type(), T::Decimal | T::Whole) };
        // (between is what's written if there's no operator)
        let op_ok = v.get_operator() == &op;
        let f: Vec<&str> = [v.get_formula1(), v.get_formula2()].into_iter().filter(|f| !f.is_empty()).collect();
        let want: Vec<String> = n.iter().map(ToString::to_string).collect();
        if kind_ok && op_ok && f == want {
            return Ok(());
        }
        return Err(format!("expected {op:?} {want:?} but it is {got}"));
    }
    match r.google() {
        "ONE_OF_RANGE" => {
            if v.get_type() == &T::List && v.get_formula1().trim_start_matches('=') == r.text {
                return Ok(());
            }
        }
        "ONE_OF_LIST" => {
            let f = v.get_formula1();
            if v.get_type() == &T::List && f.len() >= 2 && f.starts_with('"') && f.ends_with('"') {
                let items: Vec<String> = f[1..f.len() - 1].replace("\"\"", "\"").split(',').map(|t| t.trim().to_string()).collect();
                if items == r.values() {
                    return Ok(());
                }
            }
        }
        "CUSTOM_FORMULA" => {
            if v.get_type() == &T::Custom && v.get_formula1().trim_start_matches('=') == r.text.trim_start_matches('=') {
                return Ok(());
            }
        }
        _ => {
            if v.get_type() != &T::Custom {
                return Err(format!("the type is {got}"));
            }
            let f = v.get_formula1().trim_start_matches('=');
            let e = read_formula(&format!("={f}")).or_else(|_| read_formula(f)).map_err(|e| format!("{e} in {got}"))?;
            for (t, want) in examples(r) {
                match truth(&e, addr, &t) {
                    Err(m) => return Err(format!("Excel can't evaluate {m} of {got}")),
                    Ok(v) if (v == V::Bool(true)) == want => (),
                    Ok(v) => return Err(format!("{got} is {v:?} if the cell has {t:?}")),
                }
            }
            return Ok(());
        }
    }
    Err(format!("it is {got}"))
}

fn check_c14(c: &C14, env: &mut Env) -> Outcome {
    let dir = env.dir();
    let source = c.source();
    let r = no_panic(|| prepare(&dir, &source, &Opts::default()));
    let r = match r {
        Ok(r) => r,
        Err(p) => fail!("panic: {p} for\n{source}"),
    };
    if let Some(m) = &c.mistake {
        return match r {
            Err(_) => pass(true, &["rejected"]),
            Ok(_) => Outcome::Fail(format!("{m:?} was accepted in\n{source}")),
        };
    }
    let Some(model) = c.sheet.model() else { return pass(false, &[]) };
    let (comp, m) = match r {
        Ok(r) => r,
        Err(e) => fail!("failed with {}\nfor\n{source}", sut::plain(&e)),
    };
    let g = match google_grid(&comp, &m) {
        Ok(g) => g,
        Err(e) => fail!("{e}\nfor\n{source}"),
    };
    let xlsx = dir.join("out.xlsx");
    if let Err(e) = sut::build(&dir.join("main.csvpp"), &xlsx, &Opts::default()) {
        fail!("failed to write Excel: {e}\nfor\n{source}");
    }
    let book = match u::reader::xlsx::read(&xlsx) {
        Ok(b) => b,
        Err(e) => fail!("the workbook can't be read: {e:?}\nfor\n{source}"),
    };
    let Some(sheet) = book.get_sheet_by_name("main") else { fail!("no sheet is called main") };
    let all: Vec<u::DataValidation> = sheet.get_data_validations().map(|v| v.get_data_validation_list().to_vec()).unwrap_or_default();
    let mut tags = vec![];
    let mut expected = 0;
    for (y, row) in model.iter().enumerate() {
        for (x, cell) in row.iter().enumerate() {
            let addr = crate::lang::addr(x, y);
            let want = opts::google_cell(cell);
            let got = g.get(y).and_then(|r| r.get(x)).cloned().unwrap_or(Value::Null);
            if got["dataValidation"] != want["dataValidation"] {
                fail!("the request for {addr} has {}\nrather than {}\nfor\n{source}", got["dataValidation"], want["dataValidation"]);
            }
            let here: Vec<&u::DataValidation> = all.iter().filter(|v| covers(&v.get_sequence_of_references().get_sqref(), x, y)).collect();
            match (&cell.style.rule, &here[..]) {
                (None, []) => (),
                (Some(r), [v]) => {
                    expected += 1;
                    tags.push(r.google());
                    if let Err(e) = check_excel_rule(r, &addr, v) {
                        fail!("in Excel, {} of {addr}: {e}\nfor\n{source}", r.google());
                    }
                }
                (r, v) => fail!("{addr} has {} validations in Excel rather than {}\nfor\n{source}", v.len(), usize::from(r.is_some())),
            }
        }
    }
    // nothing outside
    for v in &all {
        let sq = v.get_sequence_of_references().get_sqref();
        for y in 0..model.len() + 3 {
            for x in 0..8 {
                if covers(&sq, x, y) && model.get(y).map_or(true, |r| x >= r.len()) {
                    fail!("a validation in Excel is on {sq} for\n{source}");
                }
            }
        }
    }
    tags.sort_unstable();
    tags.dedup();
    pass(expected > 0, &tags)
}

/// whether a list of references covers a cell
pub fn covers(sqref: &str, x: usize, y: usize) -> bool {
    sqref.split_whitespace().any(|r| {
        let (a, b) = r.split_once(':').unwrap_or((r, r));
        match (point(a), point(b)) {
            (Some(a), Some(b)) => (a.0..=b.0).contains(&x) && (a.1..=b.1).contains(&y),
            _ => false,
        }
    })
}

pub fn point(a: &str) -> Option<(usize, usize)> {
    let a = a.replace('$', "");
    let n = a.find(|c: char| c.is_ascii_digit())?;
    let x = a[..n].bytes().fold(0usize, |x, b| x * 26 + usize::from(b - b'A') + 1);
    Some((x.checked_sub(1)?, a[n..].parse::<usize>().ok()?.checked_sub(1)?))
}

fn show13(c: &C13) -> Value {
    json!(c.source())
}
fn show14(c: &C14) -> Value {
    json!(c.source())
}

#[allow(unused)]
fn unused(_: Item) {
    let _ = RULES;
}

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![
        Box::new(Def {
            id: "C13",
            quick: 20_000,
            thorough: 150_000,
            rule: "the program has more than one option in one pair of brackets, or a row and a cell of it which both have options, or a mistake that must be rejected",
            assumptions: &[
                "options of a row are written before those of the first cell, and an option which doesn't add up is stated once per pair of brackets",
                "effects are observed in the requests for Google Sheets (C15 does so for Excel) and, for `lock`, on the compiled cell",
            ],
            gen: gen_c13,
            check: check_c13,
            show: show13,
        }),
        Box::new(Def {
            id: "C14",
            quick: 12_000,
            thorough: 100_000,
            rule: "at least one cell has a validation, or a wrong validation must be rejected",
            assumptions: &[
                "values in lists have no commas or double quotes (Excel has no way to write the former)",
                "formulas which are written to Excel for conditions it doesn't have are judged by evaluating them on example texts",
            ],
            gen: gen_c14,
            check: check_c14,
            show: show14,
        }),
    ]
}
