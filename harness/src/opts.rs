//! The model of the options of cells and rows: how they're written down, what a cell has in the
//! end, and how that looks in the requests for Google Sheets.
use crate::lang::{csv_field, Expr, Layout};
use crate::sheet::{Content, Fill, Program};
use crate::src::{mix, Src};
use crate::sut::Grid;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::BTreeSet;

pub type Rgb = (u8, u8, u8);

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Item {
    Date(i32, u32, u32),
    Num(String),
    Text(String),
    Word(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Rule {
    pub kind: usize,
    pub dates: Vec<(i32, u32, u32)>,
    pub nums: Vec<i64>,
    pub text: String,
    pub items: Vec<Item>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Opt {
    Border(usize),
    BorderColor(Rgb),
    BorderStyle(usize),
    Color(Rgb),
    FontColor(Rgb),
    FontFamily(String),
    FontSize(u8),
    HAlign(usize),
    Lock,
    Note(String),
    NumberFormat(usize),
    Text(usize),
    VAlign(usize),
    Wrap(usize),
    Validate(Rule),
}

/// long name, short name, Google's name
type Names = (&'static str, &'static str, &'static str);
pub const SIDES: &[Names] = &[("all", "a", ""), ("top", "t", "top"), ("bottom", "b", "bottom"), ("left", "l", "left"), ("right", "r", "right")];
pub const BORDER_STYLES: &[Names] = &[
    ("solid", "1", "SOLID"),
    ("dashed", "dash", "DASHED"),
    ("dotted", "dot", "DOTTED"),
    ("double", "dbl", "DOUBLE"),
    ("solid_medium", "2", "SOLID_MEDIUM"),
    ("solid_thick", "3", "SOLID_THICK"),
];
pub const HALIGN: &[Names] = &[("center", "c", "CENTER"), ("left", "l", "LEFT"), ("right", "r", "RIGHT")];
pub const VALIGN: &[Names] = &[("center", "c", "MIDDLE"), ("top", "t", "TOP"), ("bottom", "b", "BOTTOM")];
pub const WRAP: &[Names] = &[("wrap", "w", "WRAP"), ("overflow", "o", "OVERFLOW_CELL"), ("clip", "c", "CLIP")];
pub const NUMBER_FORMATS: &[Names] = &[
    ("text", "text", "TEXT"),
    ("currency", "c", "CURRENCY"),
    ("date", "d", "DATE"),
    ("datetime", "dt", "DATE_TIME"),
    ("number", "n", "NUMBER"),
    ("percent", "p", "PERCENT"),
    ("time", "t", "TIME"),
    ("scientific", "s", "SCIENTIFIC"),
];
pub const TEXT: &[Names] = &[("bold", "b", "bold"), ("italic", "i", "italic"), ("strikethrough", "s", "strikethrough"), ("underline", "u", "underline")];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Args {
    None,
    Date,
    Dates,
    Num,
    Nums,
    Text,
    List,
    Range,
}
/// the documented names, Google's name and the arguments
pub const RULES: &[(&[&str], &str, Args)] = &[
    (&["custom", "c"], "CUSTOM_FORMULA", Args::Text),
    (&["date_after", "date_gt"], "DATE_AFTER", Args::Date),
    (&["date_before", "date_lt"], "DATE_BEFORE", Args::Date),
    (&["date_between", "date_btwn"], "DATE_BETWEEN", Args::Dates),
    (&["date_equal_to", "date_eq"], "DATE_EQ", Args::Date),
    (&["date_is_valid", "is_date"], "DATE_IS_VALID", Args::None),
    (&["date_not_between", "date_nbtwn"], "DATE_NOT_BETWEEN", Args::Dates),
    (&["date_on_or_after", "date_gte"], "DATE_ON_OR_AFTER", Args::Date),
    (&["date_on_or_before", "date_lte"], "DATE_ON_OR_BEFORE", Args::Date),
    (&["number_between", "number_btwn", "num_btwn"], "NUMBER_BETWEEN", Args::Nums),
    (&["number_equal_to", "number_eq", "num_eq"], "NUMBER_EQ", Args::Num),
    (&["number_greater_than", "number_gt", "num_gt"], "NUMBER_GREATER", Args::Num),
    (&["number_greater_than_or_equal_to", "number_gte", "num_gte"], "NUMBER_GREATER_THAN_EQ", Args::Num),
    (&["number_less_than", "number_lt", "num_lt"], "NUMBER_LESS", Args::Num),
    (&["number_less_than_or_equal_to", "number_lte", "num_lte"], "NUMBER_LESS_THAN_EQ", Args::Num),
    (&["number_not_between", "number_nbtwn", "num_nbtwn"], "NUMBER_NOT_BETWEEN", Args::Nums),
    (&["number_not_equal_to", "number_neq", "num_neq"], "NUMBER_NOT_EQ", Args::Num),
    (&["text_contains"], "TEXT_CONTAINS", Args::Text),
    (&["text_does_not_contain"], "TEXT_NOT_CONTAINS", Args::Text),
    (&["text_equal_to", "text_eq"], "TEXT_EQ", Args::Text),
    (&["is_valid_email", "is_email"], "TEXT_IS_EMAIL", Args::None),
    (&["is_valid_url", "is_url"], "TEXT_IS_URL", Args::None),
    (&["in_list"], "ONE_OF_LIST", Args::List),
    (&["in_range"], "ONE_OF_RANGE", Args::Range),
];

impl Rule {
    pub fn google(&self) -> &'static str {
        RULES[self.kind].1
    }
    pub fn args(&self) -> Args {
        RULES[self.kind].2
    }
    /// the values of the condition, as they're sent to Google Sheets
    pub fn values(&self) -> Vec<String> {
        match self.args() {
            Args::None => vec![],
            Args::Date | Args::Dates => self.dates.iter().map(iso).collect(),
            Args::Num | Args::Nums => self.nums.iter().map(ToString::to_string).collect(),
            Args::Text | Args::Range => vec![self.text.clone()],
            Args::List => self
                .items
                .iter()
                .map(|i| match i {
                    Item::Date(y, m, d) => iso(&(*y, *m, *d)),
                    Item::Num(n) | Item::Word(n) => n.clone(),
                    Item::Text(t) => t.clone(),
                })
                .collect(),
        }
    }
    fn write(&self, l: &mut Layout) -> String {
        let (names, _, args) = RULES[self.kind];
        let mut out = cased(names[l.below(names.len() as u64) as usize], l);
        if args == Args::None {
            return out;
        }
        let mut parts: Vec<String> = match args {
            Args::Date | Args::Dates => self.dates.iter().map(|d| write_date(d, l)).collect(),
            Args::Num | Args::Nums => self.nums.iter().map(ToString::to_string).collect(),
            Args::Text => vec![write_string(&self.text, l)],
            Args::Range => vec![self.text.clone()],
            _ => self
                .items
                .iter()
                .map(|i| match i {
                    Item::Date(y, m, d) => write_date(&(*y, *m, *d), l),
                    Item::Num(n) | Item::Word(n) => n.clone(),
                    Item::Text(t) => quoted(t),
                })
                .collect(),
        };
        let mut gap = |l: &mut Layout| (if l.below(5) == 1 { " " } else { "" }).to_string();
        out.push_str(&gap(l));
        out.push('(');
        out.push_str(&gap(l));
        let sep = if l.below(5) == 1 { "  " } else { " " };
        out.push_str(&parts.drain(..).collect::<Vec<_>>().join(sep));
        out.push_str(&gap(l));
        out.push(')');
        out
    }
}

pub fn iso(d: &(i32, u32, u32)) -> String {
    format!("{:04}-{:02}-{:02}", d.0, d.1, d.2)
}
fn write_date(d: &(i32, u32, u32), l: &mut Layout) -> String {
    match l.below(6) {
        0 | 1 => iso(d),
        2 => format!("{:02}/{:02}/{:04}", d.1, d.2, d.0),
        // 70 to 99 are of the last century
        3 if (1970..2070).contains(&d.0) => format!("{}/{}/{:02}", d.1, d.2, d.0 % 100),
        _ => format!("{}/{}/{:04}", d.1, d.2, d.0),
    }
}
fn quoted(t: &str) -> String {
    format!("'{}'", t.replace('\\', "\\\\").replace('\'', "\\'"))
}
fn write_string(t: &str, l: &mut Layout) -> String {
    if !t.is_empty() && t.chars().all(char::is_alphanumeric) && l.below(2) == 1 {
        t.to_string()
    } else {
        quoted(t)
    }
}
fn cased(t: &str, l: &mut Layout) -> String {
    match l.below(8) {
        1 => t.to_uppercase(),
        2 => t.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect(),
        _ => t.to_string(),
    }
}
fn write_rgb(c: Rgb, l: &mut Layout) -> String {
    let hash = if l.below(2) == 1 { "#" } else { "" };
    let short = [c.0, c.1, c.2].iter().all(|v| v >> 4 == v & 15) && l.below(2) == 1;
    let s = if short { format!("{:x}{:x}{:x}", c.0 & 15, c.1 & 15, c.2 & 15) } else { format!("{:02x}{:02x}{:02x}", c.0, c.1, c.2) };
    format!("{hash}{}", if l.below(2) == 1 { s.to_uppercase() } else { s })
}

impl Opt {
    pub fn kind(&self) -> &'static str {
        self.names().0
    }
    fn names(&self) -> (&'static str, &'static str) {
        match self {
            Opt::Border(_) => ("border", "b"),
            Opt::BorderColor(_) => ("bordercolor", "bc"),
            Opt::BorderStyle(_) => ("borderstyle", "bs"),
            Opt::Color(_) => ("color", "c"),
            Opt::FontColor(_) => ("fontcolor", "fc"),
            Opt::FontFamily(_) => ("fontfamily", "ff"),
            Opt::FontSize(_) => ("fontsize", "fs"),
            Opt::HAlign(_) => ("halign", "ha"),
            Opt::Lock => ("lock", "l"),
            Opt::Note(_) => ("note", "n"),
            Opt::NumberFormat(_) => ("numberformat", "nf"),
            Opt::Text(_) => ("text", "t"),
            Opt::VAlign(_) => ("valign", "va"),
            Opt::Wrap(_) => ("wrap", "w"),
            Opt::Validate(_) => ("validate", "dv"),
        }
    }
    pub fn additive(&self) -> bool {
        matches!(self, Opt::Border(_) | Opt::Text(_))
    }
    pub fn write(&self, l: &mut Layout) -> String {
        let (long, short) = self.names();
        let name = if l.below(2) == 1 { short } else { long };
        let named = |t: &[Names], i: usize, l: &mut Layout| {
            let n = if l.below(2) == 1 { t[i].1 } else { t[i].0 };
            cased(n, l)
        };
        let value = match self {
            Opt::Lock => return name.to_string(),
            Opt::Border(i) => named(SIDES, *i, l),
            Opt::BorderStyle(i) => named(BORDER_STYLES, *i, l),
            Opt::HAlign(i) => named(HALIGN, *i, l),
            Opt::VAlign(i) => named(VALIGN, *i, l),
            Opt::Wrap(i) => named(WRAP, *i, l),
            Opt::NumberFormat(i) => named(NUMBER_FORMATS, *i, l),
            Opt::Text(i) => named(TEXT, *i, l),
            Opt::BorderColor(c) | Opt::Color(c) | Opt::FontColor(c) => write_rgb(*c, l),
            Opt::FontFamily(t) | Opt::Note(t) => write_string(t, l),
            Opt::FontSize(n) => n.to_string(),
            Opt::Validate(r) => r.write(l),
        };
        let (a, b) = if l.below(5) == 1 { (" ", " ") } else { ("", "") };
        format!("{name}{a}={b}{value}")
    }
}

/// what a cell has in the end
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Style {
    pub borders: BTreeSet<usize>,
    pub border_color: Option<Rgb>,
    pub border_style: usize,
    pub color: Option<Rgb>,
    pub font_color: Option<Rgb>,
    pub font_family: Option<String>,
    pub font_size: Option<u8>,
    pub halign: usize,
    pub lock: bool,
    pub note: Option<String>,
    pub number_format: usize,
    pub text: BTreeSet<usize>,
    pub valign: usize,
    pub wrap: usize,
    pub rule: Option<Rule>,
}

impl Style {
    pub fn apply(&mut self, opts: &[Opt]) {
        for o in opts {
            match o.clone() {
                Opt::Border(0) => self.borders.extend(1..=4),
                Opt::Border(i) => {
                    self.borders.insert(i);
                }
                Opt::BorderColor(c) => self.border_color = Some(c),
                Opt::BorderStyle(i) => self.border_style = i,
                Opt::Color(c) => self.color = Some(c),
                Opt::FontColor(c) => self.font_color = Some(c),
                Opt::FontFamily(f) => self.font_family = Some(f),
                Opt::FontSize(n) => self.font_size = Some(n),
                Opt::HAlign(i) => self.halign = i,
                Opt::Lock => self.lock = true,
                Opt::Note(n) => self.note = Some(n),
                Opt::NumberFormat(i) => self.number_format = i,
                Opt::Text(i) => {
                    self.text.insert(i);
                }
                Opt::VAlign(i) => self.valign = i,
                Opt::Wrap(i) => self.wrap = i,
                Opt::Validate(r) => self.rule = Some(r),
            }
        }
    }

    /// without anything that's empty or the same as not stating it
    pub fn google_format(&self) -> Value {
        let mut f = Map::new();
        f.insert("horizontalAlignment".into(), json!(HALIGN[self.halign].2));
        f.insert("verticalAlignment".into(), json!(VALIGN[self.valign].2));
        f.insert("wrapStrategy".into(), json!(WRAP[self.wrap].2));
        f.insert("numberFormat".into(), json!({"type": NUMBER_FORMATS[self.number_format].2}));
        let style = |c: Rgb| json!({"rgbColor": hex(c)});
        if let Some(c) = self.color {
            f.insert("backgroundColorStyle".into(), style(c));
        }
        if !self.borders.is_empty() {
            let mut b = Map::new();
            for i in &self.borders {
                let mut side = json!({"style": BORDER_STYLES[self.border_style].2});
                if let Some(c) = self.border_color {
                    side["colorStyle"] = style(c);
                }
                b.insert(SIDES[*i].2.into(), side);
            }
            f.insert("borders".into(), Value::Object(b));
        }
        let mut t = Map::new();
        for i in &self.text {
            t.insert(TEXT[*i].2.into(), json!(true));
        }
        if let Some(x) = &self.font_family {
            t.insert("fontFamily".into(), json!(x));
        }
        if let Some(x) = self.font_size {
            t.insert("fontSize".into(), json!(x));
        }
        if let Some(c) = self.font_color {
            t.insert("foregroundColorStyle".into(), style(c));
        }
        if !t.is_empty() {
            f.insert("textFormat".into(), Value::Object(t));
        }
        Value::Object(f)
    }
}

pub fn hex(c: Rgb) -> String {
    format!("#{:02x}{:02x}{:02x}", c.0, c.1, c.2)
}

/// what a cell has as it's value
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Blank,
    Text(String),
    Number(f64),
    Bool(bool),
    Formula(String),
}

pub fn val(c: &Content, e: Option<Expr>) -> Val {
    match (c, e) {
        (Content::Text(t), _) if t.is_empty() => Val::Blank,
        (Content::Text(t), _) => Val::Text(t.clone()),
        (_, Some(Expr::Num(n))) if !n.starts_with(['-', '+']) && !n.ends_with('%') => Val::Number(n.parse().unwrap()),
        (_, Some(Expr::Bool(b))) => Val::Bool(b),
        (_, Some(Expr::Str(t))) => Val::Text(t),
        (_, Some(e)) => Val::Formula(e.canon()),
        (_, None) => Val::Blank,
    }
}

/// A program with options
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Styled {
    pub program: Program,
    pub rows: Vec<Vec<Opt>>,
    pub cells: Vec<Vec<Vec<Opt>>>,
    pub noise: u64,
}

#[derive(Clone, Debug)]
pub struct Compiled {
    pub val: Val,
    pub style: Style,
}

impl Styled {
    pub fn source(&self) -> String {
        self.program.write_styled(&[], self.noise, &|y, x, l| match x {
            None => self.rows.get(y).map(|o| o.iter().map(|o| o.write(l)).collect()).unwrap_or_default(),
            Some(x) => self.cells.get(y).and_then(|r| r.get(x)).map(|o| o.iter().map(|o| o.write(l)).collect()).unwrap_or_default(),
        })
    }
    pub fn model(&self) -> Option<Vec<Vec<Compiled>>> {
        let scope = self.program.scope();
        let mut g = vec![];
        for (i, (r, (from, to))) in self.program.rows.iter().zip(self.program.spans()).enumerate() {
            for y in from..to {
                let mut row = vec![];
                for (x, c) in r.cells.iter().enumerate() {
                    let mut style = Style::default();
                    style.apply(&self.rows[i]);
                    style.apply(&self.cells[i][x]);
                    let e = match &c.content {
                        Content::Text(_) => None,
                        Content::Formula(e) => Some(scope.eval(e, y).ok()?),
                    };
                    row.push(Compiled { val: val(&c.content, e), style });
                }
                g.push(row);
            }
        }
        Some(g)
    }
    pub fn grid(&self) -> Option<Grid> {
        self.program.eval(&self.program.scope()).ok()
    }
    pub fn has_fill(&self) -> bool {
        self.program.rows.iter().any(|r| r.fill != Fill::No)
    }
}

// ------------------------------------------------------------------ Google's cells

/// (serde_json doesn't read the last digit exactly)
fn number(n: f64) -> Value {
    json!(format!("{n:.13e}"))
}

/// What a cell is to Google Sheets, without what's not set
pub fn google_cell(c: &Compiled) -> Value {
    let mut m = Map::new();
    match &c.val {
        Val::Blank => None,
        Val::Text(t) => Some(json!({"stringValue": t})),
        Val::Number(n) => Some(json!({"numberValue": number(*n)})),
        Val::Bool(b) => Some(json!({"boolValue": b})),
        Val::Formula(f) => Some(json!({"formulaValue": format!("={f}")})),
    }
    .map(|v| m.insert("userEnteredValue".into(), v));
    m.insert("userEnteredFormat".into(), c.style.google_format());
    if let Some(n) = &c.style.note {
        if !n.is_empty() {
            m.insert("note".into(), json!(n));
        }
    }
    if let Some(r) = &c.style.rule {
        let mut cond = json!({"type": r.google()});
        let v = r.values();
        if !v.is_empty() {
            cond["values"] = v.into_iter().map(|v| json!({"userEnteredValue": v})).collect();
        }
        m.insert("dataValidation".into(), json!({"condition": cond}));
    }
    Value::Object(m)
}

/// the same form for a cell of a request
pub fn simplify(v: &Value) -> Value {
    match v {
        Value::Object(o) => {
            let mut m = Map::new();
            for (k, v) in o {
                if k == "rgbColor" {
                    let ch = |n: &str| (v[n].as_f64().unwrap_or(0.0) * 255.0).round() as u8;
                    m.insert(k.clone(), json!(hex((ch("red"), ch("green"), ch("blue")))));
                    continue;
                }
                let s = simplify(v);
                let empty = match &s {
                    Value::Null => true,
                    Value::Object(o) => o.is_empty(),
                    Value::Array(a) => a.is_empty(),
                    Value::String(t) => t.is_empty() && k == "note",
                    Value::Bool(b) => !b && k != "boolValue",
                    Value::Number(n) if k == "numberValue" => {
                        m.insert(k.clone(), number(n.as_f64().unwrap_or(f64::NAN)));
                        continue;
                    }
                    _ => false,
                };
                if !empty {
                    m.insert(k.clone(), s);
                }
            }
            // a list's values are texts as they're written in formulas
            if m.get("type") == Some(&json!("ONE_OF_LIST")) {
                if let Some(Value::Array(a)) = m.get_mut("values") {
                    for v in a {
                        if let Some(t) = v["userEnteredValue"].as_str() {
                            if t.len() > 1 && t.starts_with('"') && t.ends_with('"') {
                                v["userEnteredValue"] = json!(t[1..t.len() - 1]);
                            }
                        }
                    }
                }
            }
            Value::Object(m)
        }
        Value::Array(a) => Value::Array(a.iter().map(simplify).collect()),
        v => v.clone(),
    }
}

// ------------------------------------------------------------------ generators

const TEXTS: &[&str] = &[
    "a", "foo", "Hello World", "1", ",", "\"", "]]", "[[", "'", "\\", "é", "日本", "😀", "/", ")", "(", "=", "=A1", "#", "%", "<b>&", ";", "?*~",
];

/// some text without whitespace around it
pub fn gen_string(s: &mut Src, bad: &[char]) -> String {
    if s.chance(1, 3) {
        return (*s.pick(&["foo", "Note", "x1", "été", "日本"])).to_string();
    }
    let n = if s.chance(1, 200) { s.range(20, 300) as usize } else { s.len(4) };
    let t: String = (0..=n)
        .map(|_| match s.below(6) {
            0 => " ".to_string(),
            1 => char::from(s.range(0x21, 0x7e) as u8).to_string(),
            _ => (*s.pick(TEXTS)).to_string(),
        })
        .collect();
    let t: String = t.chars().filter(|c| !bad.contains(c)).collect();
    t.trim().to_string()
}

fn gen_rgb(s: &mut Src) -> Rgb {
    let mut b = || {
        if s.chance(1, 2) { *s.pick(&[0u8, 0xff, 0x11, 0xaa, 0x88, 0x77]) } else { s.below(256) as u8 }
    };
    (b(), b(), b())
}

fn gen_date(s: &mut Src) -> (i32, u32, u32) {
    let y = if s.chance(1, 8) { *s.pick(&[1969, 1970, 2000, 2068, 2069, 2070, 2100, 2400, 9999]) } else { s.range(1901, 2099) as i32 };
    let m = s.range(1, 12) as u32;
    let days = match m {
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    };
    (y, m, if s.chance(1, 5) { days } else { s.range(1, u64::from(days)) as u32 })
}

pub fn gen_rule(s: &mut Src) -> Rule {
    let kind = s.us(RULES.len());
    let mut r = Rule { kind, dates: vec![], nums: vec![], text: String::new(), items: vec![] };
    let num = |s: &mut Src| match s.below(4) {
        0 => s.below(10) as i64,
        1 => -(s.below(1000) as i64),
        2 => s.below(1_000_000) as i64,
        _ => *s.pick(&[0, -1, 100, 1_234_567_890, 42, i64::from(i32::MAX), 2_147_483_648, -2_147_483_649, 16_777_217, 9_007_199_254_740_993, i64::MAX, -i64::MAX, i64::MIN]),
    };
    match RULES[kind].2 {
        Args::None => (),
        Args::Date => r.dates.push(gen_date(s)),
        Args::Dates => {
            r.dates.push(gen_date(s));
            r.dates.push(gen_date(s));
        }
        Args::Num => r.nums.push(num(s)),
        Args::Nums => {
            r.nums.push(num(s));
            r.nums.push(num(s));
        }
        Args::Text => {
            r.text = gen_string(s, &[]);
            if r.text.is_empty() {
                r.text = "x".into();
            }
            if kind == 0 {
                r.text = (*s.pick(&["A1>0", "=A1>B2", "ISNUMBER(A1)", "=LEN(A1)<5", "foo", "AND(A1=1,B2=\"x\")"])).to_string();
            }
        }
        Args::Range => r.text = (*s.pick(&["A1:B2", "A1", "B:C", "C3:D10", "2:5", "AA1:AB9", "F7"])).to_string(),
        Args::List => {
            let n = s.wide(1, 4, 70, 12);
            for _ in 0..n {
                let i = match s.below(6) {
                    0 => {
                        let (y, m, d) = gen_date(s);
                        Item::Date(y, m, d)
                    }
                    1 => Item::Num(format!("{}", num(s))),
                    2 => Item::Num({
                        let d = s.len(12).max(1);
                        let frac: String = (0..d).map(|i| char::from(b'0' + if i + 1 == d { s.range(1, 9) } else { s.range(0, 9) } as u8)).collect();
                        format!("{}{}.{frac}", if s.chance(1, 4) { "-" } else { "" }, s.below(1000))
                    }),
                    3 => Item::Word((*s.pick(&["foo", "bar", "yes", "No", "x_1", "été"])).to_string()),
                    _ => Item::Text({
                        let t = gen_string(s, &[',', '"']);
                        if t.is_empty() { "x".into() } else { t }
                    }),
                };
                r.items.push(i);
            }
        }
    }
    r
}

/// up to `max` options of different kinds (or ones which add to each other)
pub fn gen_opts(s: &mut Src, max: usize, colors: bool, rules: bool) -> Vec<Opt> {
    let n = if max > 1 && s.chance(1, 20) { 12 } else { s.len(max) };
    let mut v: Vec<Opt> = vec![];
    for _ in 0..n {
        let o = match s.below(15) {
            0 => Opt::Text(s.us(TEXT.len())),
            1 => Opt::HAlign(s.us(HALIGN.len())),
            2 => Opt::VAlign(s.us(VALIGN.len())),
            3 => Opt::Border(s.us(SIDES.len())),
            4 => Opt::BorderStyle(s.us(BORDER_STYLES.len())),
            5 => Opt::NumberFormat(s.us(NUMBER_FORMATS.len())),
            6 => Opt::Wrap(s.us(WRAP.len())),
            7 => Opt::FontSize(if s.chance(1, 8) { 255 } else { s.range(1, 40) as u8 }),
            8 => Opt::FontFamily(if s.chance(1, 2) { (*s.pick(&["Arial", "Helvetica", "Times New Roman", "x"])).to_string() } else { gen_string(s, &['<', '>', '&', '"', '\'', '\n', '\r', '\t']) }),
            9 => Opt::Note(gen_string(s, &[])),
            10 => Opt::Lock,
            11 if colors => Opt::Color(gen_rgb(s)),
            12 if colors => Opt::FontColor(gen_rgb(s)),
            13 if colors => Opt::BorderColor(gen_rgb(s)),
            14 if rules => Opt::Validate(gen_rule(s)),
            _ => Opt::Text(s.us(TEXT.len())),
        };
        if v.iter().all(|p| p.kind() != o.kind() || (o.additive() && *p != o)) {
            v.push(o);
        }
    }
    v
}

pub fn gen_styled(s: &mut Src, program: Program, max: usize, colors: bool, rules: bool) -> Styled {
    let rows = program.rows.iter().map(|_| if s.chance(2, 5) { gen_opts(s, max, colors, rules) } else { vec![] }).collect();
    let cells = program
        .rows
        .iter()
        .map(|r| r.cells.iter().map(|_| if s.chance(1, 2) { gen_opts(s, max, colors, rules) } else { vec![] }).collect())
        .collect();
    let noise = if s.chance(1, 5) { 0 } else { mix(s.below(1 << 30), 7) | 1 };
    Styled { program, rows, cells, noise }
}

/// write options between brackets, in any order
pub fn brackets(mut opts: Vec<String>, l: &mut Layout) -> String {
    for i in (1..opts.len()).rev() {
        let j = i - l.below(i as u64 + 1) as usize;
        opts.swap(i, j);
    }
    let sep = match l.below(10) {
        1 => "  ",
        2 => " / ",
        3 if l.newlines => "\n",
        _ => " ",
    };
    let pad = if l.below(6) == 1 { " " } else { "" };
    format!("[[{pad}{}{pad}]]", opts.join(sep))
}

#[allow(unused)]
pub fn field(v: &str) -> String {
    csv_field(v, true)
}
