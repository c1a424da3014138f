//! C01, C02, C03: sources as comma separated values
use crate::core::{pass, Def, Env, Outcome, Prop};
use crate::fail;
use crate::src::Src;
use crate::sut::{self, Grid};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::fs;

// ------------------------------------------------------------------ C01

#[derive(Clone, Serialize, Deserialize)]
struct C01 {
    source: String,
    expected: Grid,
}

const PIECES: &[&str] = &[
    "a", "foo", "Hello World", "1", "-5", "3.14", " ", ",", "\"", "\"\"", "'", "\n", "é", "日本語", "😀", "\t", "(", ")", "#",
    "\\", "/", "%", "=", "[", "]]", "!", ":=", "fn f(x) x", "use foo", "---", "1/2/2020", "\u{a0}x", "$5.00", "{}", "+1", ";", "|",
    "\u{301}", "TRUE", "A1:B2", "''", "a,b", "\n\n",
];

fn gen_value(s: &mut Src) -> String {
    let n = if s.chance(1, 150) { s.range(30, 400) as usize } else { s.len(6) };
    let v: String = (0..n).map(|_| *s.pick(PIECES)).collect();
    let v = v.trim().to_string();
    // anything which is special to csv++ isn't plain csv
    if v.starts_with('=') || v.starts_with("[[") || v.starts_with("![[") || v.contains("\\\n") {
        format!("v{}", v.replace("\\\n", "\\ \n"))
    } else {
        v
    }
}

fn gen_c01(s: &mut Src) -> C01 {
    let header = s.weighted(&[3, 2, 1, 1]);
    let eol = if s.chance(1, 4) { "\r\n" } else { "\n" };
    let tall = header > 0 && s.chance(1, 3000);
    let rows = if tall { s.range(900, 6000) as usize } else { s.wide(1, 6, 60, 40) };
    let wide = s.chance(1, 40) && !tall;
    let far = s.chance(1, 20);
    let mut expected: Grid = vec![];
    let mut out = (*[
        "",
        "---\n",
        "# nothing but a comment\n---\n",
        "foo := 1\nfn bar(a) a\n\n ---  \n",
    ]
    .get(header)
    .unwrap())
    .to_string();
    for y in 0..rows {
        let cols = if wide { s.range(1, if far { 400 } else { 70 }) as usize } else { s.len(if tall { 1 } else { 5 }) + 1 };
        let mut row = vec![];
        for x in 0..cols {
            let mut v = if tall { (*s.pick(PIECES)).trim().replace(['=', '[', '\n', '\\', '#'], "") } else { gen_value(s) };
            if !tall && s.chance(1, 60_000) && !v.is_empty() {
                v = format!("v{}", v.repeat(s.range(100, 9000) as usize));
                if v.contains("\\\n") {
                    v = v.replace('\\', "");
                }
            }
            if header == 0 && v.lines().any(|l| l.trim() == "---") {
                v = v.replace("---", "--");
            }
            let must = v.contains([',', '\n', '\\', '\r'])
                || v.starts_with('"')
                || (x == 0 && v.starts_with('#'))
                || (x == 0 && y == 0 && cols == 1 && v.is_empty())
                || (header == 0 && v.trim() == "---");
            let quote = must || s.chance(1, 5);
            let pad = |s: &mut Src| if s.chance(1, 6) { *s.pick(&[" ", "  ", "\t"]) } else { "" };
            let before = if x == 0 && v.starts_with('#') { "" } else { pad(s) };
            let after = pad(s);
            if x > 0 {
                out.push(',');
            }
            out.push_str(before);
            if quote {
                let inner = if s.chance(1, 8) { " " } else { "" };
                out.push_str(&format!("\"{inner}{}\"", v.replace('"', "\"\"")));
            } else {
                out.push_str(&v);
            }
            out.push_str(after);
            row.push(v);
        }
        expected.push(row);
        if y + 1 < rows || s.chance(3, 4) {
            out.push_str(eol);
        }
    }
    C01 { source: out, expected }
}

fn check_c01(c: &C01, env: &mut Env) -> Outcome {
    let d = env.dir();
    let (input, output) = (d.join("main.csvpp"), d.join("out.csv"));
    fs::write(&input, &c.source).unwrap();
    if let Err(e) = sut::build(&input, &output, &Default::default()) {
        fail!("plain csv was rejected: {e}");
    }
    let text = fs::read_to_string(&output).unwrap();
    let got = match sut::read_csv(&text) {
        Ok(g) => g,
        Err(e) => fail!("the output is not csv ({e}): {text:?}"),
    };
    let (want, got) = (sut::trimmed(c.expected.clone()), sut::trimmed(got));
    if want != got {
        fail!("values changed: {}\noutput: {text:?}", sut::diff(&want, &got));
    }
    // compiling what was written gives the same thing again
    let special = want.iter().flatten().any(|v| v.lines().any(|l| l.trim() == "---"))
        || want.iter().any(|r| r.first().is_some_and(|v| v.starts_with('#') && !v.contains([',', '"', '\n'])))
        || want.iter().flatten().any(|v| v.contains('\\'))
        || want.first().is_some_and(|r| r.is_empty());
    if !special {
        let (i2, o2) = (d.join("again.csvpp"), d.join("again.csv"));
        fs::write(&i2, &text).unwrap();
        if let Err(e) = sut::build(&i2, &o2, &Default::default()) {
            fail!("its own output was rejected: {e}\n{text:?}");
        }
        let t2 = fs::read_to_string(&o2).unwrap();
        if t2 != text {
            fail!("compiling its own output changed it:\n{text:?}\n{t2:?}");
        }
    }
    let quoted = c.source.contains('"');
    let wide = want.iter().any(|r| r.len() > 1);
    pass(
        quoted || want.len() > 1 || wide,
        &[if quoted { "quoted" } else { "unquoted" }, if c.source.contains("\r\n") { "crlf" } else { "lf" }],
    )
}

// ------------------------------------------------------------------ C02

#[derive(Clone, Serialize, Deserialize)]
struct C02 {
    /// the code section (without the separator), if there is one
    code: Option<String>,
    separator: String,
    csv: String,
}

const CSV_ALPHABET: &[&str] = &[
    "a", "b1", "é", ",", ",", ",", "\n", "\n", "\"", "\"", "\"\"", "\\\n", "\\\r\n", "\\", "#", " ", "\t", "--", "\r\n", "日", "x y", "\u{2003}", "😀", "e\u{301}", "\r",
    "\u{c}", "\u{b}", "\u{85}", "\u{2028}", "\u{feff}", "\u{a0}", "'", ";",
];

/// rarely something is much longer than usual
fn stretched(s: &mut Src, csv: String, lines: usize) -> String {
    if !s.chance(1, 1500) {
        return csv;
    }
    let at = csv.char_indices().map(|(i, _)| i).nth(s.us(csv.chars().count().max(1))).unwrap_or(0);
    let n = s.range(300, 12_000) as usize;
    let piece = *s.pick(&["x", "é ", "a,", "a\n", "\"\"", "\n", "\\\n"]);
    let n = if piece.contains('\n') { n.min(lines) } else { n };
    format!("{}{}{}", &csv[..at], piece.repeat(n), &csv[at..])
}

fn gen_c02(s: &mut Src) -> C02 {
    let code = if s.chance(1, 2) {
        let n = s.us(5);
        let l: Vec<&str> = (0..n)
            .map(|_| *s.pick(&["", "# c", "foo := 1", "fn f(a) a", "  ", "# --- not it", "bar := \"---\"", "x := (1 +", "x := 2"]))
            .collect();
        let mut out = String::new();
        for (i, x) in l.iter().enumerate() {
            out.push_str(x);
            out.push('\n');
            if x.ends_with("+") {
                out.push_str(&format!("  {i})\n"));
            }
        }
        Some(out)
    } else {
        None
    };
    let separator = (*s.pick(&["---\n", "  ---\n", "---  \n", "\t---\t\n", "---\r\n", "---"])).to_string();
    let n = if s.chance(1, 100) { s.range(50, 600) as usize } else { s.len(24) + s.len(24) };
    let csv: String = (0..n).map(|_| *s.pick(CSV_ALPHABET)).collect();
    // (looking for the separator takes long when there is none)
    let csv = stretched(s, csv, if code.is_some() { 12_000 } else { 600 });
    // without a code section the first separator which shows up would end one
    let csv = if s.chance(1, 12) && code.is_some() { format!("a\n---\n{csv}") } else { csv };
    let csv = if separator == "---" && code.is_some() { String::new() } else { csv };
    C02 { code, separator, csv }
}

/// the records, as documented for the csv section
fn model_records(input: &str) -> Result<Grid, String> {
    let c: Vec<char> = input.chars().collect();
    let at = |i: usize| c.get(i).copied();
    // how long a newline, or a continuation, is
    let newline = |i: usize| match (at(i), at(i + 1)) {
        (Some('\n'), _) => 1,
        (Some('\r'), Some('\n')) => 2,
        _ => 0,
    };
    let continues = |i: usize| if at(i) == Some('\\') && newline(i + 1) > 0 { 1 + newline(i + 1) } else { 0 };
    let mut i = 0;
    while newline(i) > 0 {
        i += newline(i);
    }
    let mut out = vec![];
    'records: while i < c.len() {
        if c[i] == '#' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            i += 1;
            continue;
        }
        let mut fields = vec![];
        loop {
            loop {
                if at(i).is_some_and(|x| x.is_whitespace() && x != '\n') {
                    i += 1;
                } else if continues(i) > 0 {
                    i += continues(i);
                } else {
                    break;
                }
            }
            let mut v = String::new();
            match at(i) {
                None => {
                    if !fields.is_empty() {
                        out.push(fields);
                    }
                    break 'records;
                }
                Some('"') => {
                    i += 1;
                    loop {
                        match (at(i), at(i + 1)) {
                            (Some('"'), Some('"')) => {
                                v.push('"');
                                i += 2;
                            }
                            (Some('"') | None, _) => {
                                i += 1;
                                break;
                            }
                            (Some(x), _) => {
                                v.push(x);
                                i += 1;
                            }
                        }
                    }
                    while at(i).is_some_and(|x| x != '\n' && x.is_whitespace()) {
                        i += 1;
                    }
                    if !matches!(at(i), None | Some(',' | '\n')) {
                        return Err("something follows a quoted field".into());
                    }
                }
                Some(_) => {
                    while let Some(x) = at(i) {
                        if continues(i) > 0 {
                            i += continues(i);
                        } else if x == ',' || x == '\n' {
                            break;
                        } else {
                            v.push(x);
                            i += 1;
                        }
                    }
                }
            }
            fields.push(v.trim().to_string());
            let end = at(i);
            i += 1;
            if end != Some(',') {
                break;
            }
        }
        out.push(fields);
    }
    Ok(out)
}

fn source_c02(c: &C02) -> String {
    match &c.code {
        Some(code) => format!("{code}{}{}", c.separator, c.csv),
        None => c.csv.clone(),
    }
}

fn check_c02(c: &C02, env: &mut Env) -> Outcome {
    let d = env.dir();
    let source = source_c02(c);
    // lines are read as they are with text files: `\r\n` ends a line too.  When there's no code
    // section then the source is read as it is
    let csv = if c.code.is_some() { c.csv.replace("\r\n", "\n") } else { c.csv.clone() };
    let csv = if c.code.is_some() { csv.strip_suffix('\n').unwrap_or(&csv).to_string() } else { csv };
    let want = model_records(&csv);
    let got = sut::compile(&d, &source).map(|m| {
        m.spreadsheet.rows.iter().map(|r| r.cells.iter().map(|c| c.parsed_value.clone()).collect()).collect::<Grid>()
    });
    match (want, got) {
        (Ok(w), Ok(g)) => {
            // an empty last field or record is only there depending on how the file ends
            let norm = |g: &Grid| {
                let mut g = g.clone();
                while g.last().is_some_and(|r| r.iter().all(String::is_empty)) {
                    g.pop();
                }
                if let Some(l) = g.last_mut() {
                    while l.len() > 1 && l.last().is_some_and(String::is_empty) {
                        l.pop();
                    }
                }
                g
            };
            if norm(&w) != norm(&g) {
                fail!("records differ (expected vs compiled): {}", sut::diff(&w, &g));
            }
            let n: usize = w.iter().map(Vec::len).sum();
            pass(n >= 2, &[if c.code.is_some() { "with code section" } else { "without code section" }, "accepted"])
        }
        (Err(w), Ok(g)) => fail!("accepted, but {w}: {g:?}"),
        (Ok(w), Err(e)) => fail!("rejected, but it is {w:?}: {e}"),
        (Err(_), Err(_)) => pass(true, &["rejected"]),
    }
}

// ------------------------------------------------------------------ C03

#[derive(Clone, Serialize, Deserialize)]
struct C03 {
    csv: String,
    lines_above: usize,
}

fn gen_c03(s: &mut Src) -> C03 {
    let n = if s.chance(1, 100) { s.range(50, 600) as usize } else { s.len(30) + s.len(30) };
    let csv = (0..n).map(|_| *s.pick(CSV_ALPHABET)).collect();
    C03 {
        csv: stretched(s, csv, 12_000),
        lines_above: if s.chance(1, 3) { s.wide(0, 8, 5000, 6) } else { 0 },
    }
}

fn check_c03(c: &C03, _env: &mut Env) -> Outcome {
    let config = csvp::Config { separator: ',', lines_above: c.lines_above };
    let lines: Vec<Vec<char>> = c.csv.split('\n').map(|l| l.chars().collect()).collect();
    let (records, want) = match (csvp::parse(&c.csv, &config), model_records(&c.csv)) {
        (Ok(r), Ok(w)) => (r, w),
        (Err(csvp::Error::ParseError { position, .. }), Err(_)) => {
            // it has to be somewhere in the source, at what follows the quoted field
            let l = position.line_number.wrapping_sub(c.lines_above);
            let at = lines.get(l).and_then(|l| l.get(position.line_offset));
            match at {
                Some(x) if !x.is_whitespace() && *x != ',' => (),
                at => fail!("the error is located at {position:?} which is {at:?}"),
            }
            let before: String = lines[l][..position.line_offset].iter().collect();
            if l == 0 && !before.contains('"') {
                fail!("the error is located at {position:?} which doesn't follow a quoted field");
            }
            return pass(true, &["error"]);
        }
        (Ok(_), Err(w)) => fail!("accepted, but {w}"),
        (Err(e), Ok(_)) => fail!("rejected: {e:?}"),
    };
    let mut located = 0;
    let mut last = (0usize, 0usize);
    let mut seen_any = false;
    for (y, r) in records.iter().enumerate() {
        for (x, f) in r.iter().enumerate() {
            if (f.address.column.x, f.address.row.y) != (x, y) {
                fail!("field {x},{y} has the address {:?}", f.address);
            }
            if want.get(y).and_then(|r| r.get(x)).is_some_and(|v| *v != f.value) {
                fail!("field {x},{y} is {:?} rather than {:?}", f.value, want[y][x]);
            }
            for (o, ch) in f.value.char_indices() {
                // (not all of a very long one, because finding a position takes longer then)
                if o > 1500 && o % 1001 > 2 {
                    continue;
                }
                let Some(p) = f.position_for_offset(o) else {
                    fail!("no position for offset {o} of {:?}", f.value);
                };
                let l = p.line_number.wrapping_sub(c.lines_above);
                // a newline in a quoted field is at the end of it's line
                let at = lines.get(l).and_then(|l| if p.line_offset == l.len() { Some('\n') } else { l.get(p.line_offset).copied() });
                if at != Some(ch) {
                    fail!("offset {o} ({ch:?}) of {:?} is located at {p:?} which is {at:?}", f.value);
                }
                if seen_any && (l, p.line_offset) <= last {
                    fail!("offset {o} of {:?} is located at {p:?} which isn't after {last:?}", f.value);
                }
                last = (l, p.line_offset);
                seen_any = true;
                located += 1;
            }
            if f.position_for_offset(f.value.len()).is_some() {
                fail!("there's a position past the end of {:?}", f.value);
            }
            if !f.value.is_empty() {
                let (Some(e), Some(p)) = (f.eof_position(), f.position_for_offset(f.value.len() - 1)) else {
                    fail!("no position for the end of {:?}", f.value);
                };
                if (e.line_number, e.line_offset) != (p.line_number, p.line_offset + 1) {
                    fail!("the end of {:?} is located at {e:?}, but its last character at {p:?}", f.value);
                }
            }
        }
    }
    pass(located >= 3 && (lines.len() > 1 || records.len() > 1), &[if c.csv.contains("\\\n") || c.csv.contains("\\\r\n") { "continued lines" } else { "plain" }])
}

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![
        Box::new(Def::<C01> {
            id: "C01",
            quick: 60_000,
            thorough: 1_200_000,
            rule: "the source has a quoted field, several rows or several columns (distinct sources)",
            assumptions: &["blank cells at the end of a row and blank rows at the end of a file are not significant", "fields are compared without surrounding whitespace"],
            gen: gen_c01,
            check: check_c01,
            show: |c| json!({"source": c.source}),
        }),
        Box::new(Def::<C02> {
            id: "C02",
            quick: 60_000,
            thorough: 3_000_000,
            rule: "at least two fields, or a source which has to be rejected (distinct sources)",
            assumptions: &["an empty field or record at the very end of the file is not significant"],
            gen: gen_c02,
            check: check_c02,
            show: |c| Value::String(source_c02(c)),
        }),
        Box::new(Def::<C03> {
            id: "C03",
            quick: 400_000,
            thorough: 20_000_000,
            rule: "at least three characters of fields were located in a source with several lines, or an error was (distinct sources)",
            assumptions: &[],
            gen: gen_c03,
            check: check_c03,
            show: |c| Value::String(c.csv.clone()),
        }),
    ]
}
