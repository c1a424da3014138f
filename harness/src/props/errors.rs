//! C20: errors name the place of the mistake
use super::program::{gen_program, Shape};
use crate::core::{no_panic, pass, Def, Env, Outcome, Prop};
use crate::fail;
use crate::lang::{self, addr, Layout};
use crate::sheet::{Fill, Program};
use crate::src::{mix, Src};
use crate::sut::{self, Opts};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

/// where the mistake is
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Place {
    /// before this many of the definitions
    Code(usize),
    /// in a field of a row before this many of the rows
    Cell(usize),
    /// the same, but text that follows a quoted field
    Csv(usize),
    /// the same, but it's only found when the formula is evaluated
    Eval(usize),
    /// a definition of a required module, which is wrong once it's evaluated
    EvalCode(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C20 {
    program: Program,
    noise: u64,
    place: Place,
    /// the text with the mistake, which is at `‸`
    fault: String,
    /// fields before it in it's row, as they're written
    before: Vec<String>,
    after: Vec<String>,
    quoted: bool,
    /// in a module which is required (if it's in code) through this many others
    module: Option<usize>,
    crlf: bool,
    /// so many more lines are before it
    #[serde(default)]
    pad: usize,
}

/// mistakes in the code section
const CODE: &[&str] = &[
    "zz := 1 + ‸~ 3",
    "zz := ‸@",
    "zz := 1 & ‸* 3",
    "zz := \"日本é\" & ‸~",
    "zz := 1 ‸2",
    "zz ‸= 5",
    "fn ‸5(a) a",
    "fn zz ‸a",
    "zz := (1‸, 2)",
    "fn zz(a, ‸5) a",
    "‸:= 3",
    "zz := ‸)",
    "zz := quux(1 ‸2)",
    "zz := quux(1, ‸/ 2)",
    "fn zz(a) a + ‸~",
    "fn zz(a, b) (a + b ‸b",
    "zz := # a comment é\n  ‸*",
    "zz :=\n\n\t 1 +\n ‸~",
    "zz := \"two\nlines\" ‸~",
    "zz := A1:B2 & ‸@ 1",
    "zz ‸zz := 1",
    "# é\n zz := -1.5 - ‸* 2",
    "fn zz(‸1) 2",
];

/// mistakes in formulas
const FORMULAS: &[&str] = &[
    "=1 + ‸~ 2",
    "=‸~",
    "=1 +‸* 2",
    "=quux(1, ‸/ 3)",
    "=\"é 日本\" & ‸@",
    "=\"say \"\"x\"\"\" & ‸~",
    "=(1 + 2) ‸3",
    "=1 ‸)",
    "=A1 ‸B2",
    "=quux(1, 2) ‸quux",
    "=(A1 & \"b\" ‸\"c\")",
    "=\n  1 +\n   ‸~",
    "=quux(\"a\nb\", ‸~)",
    "=‸* 2",
    "=1 + (‸)",
    "=TRUE ‸TRUE",
];

/// mistakes in options
const OPTIONS: &[&str] = &[
    "[[‸foo=1]]x",
    "[[t=‸x]]",
    "[[t=b ha=‸q]]a",
    "[[text=bold / halign=‸middle]]=1",
    "[[t=b  ‸bar]]",
    "[[b=t bs=‸thin]]x",
    "[[nf=‸foo]]5",
    "[[n='é 日本' va=‸up]]",
    "[[n='it\\'s' w=‸x]]",
    "[[\n t=b\n ha=‸q]]",
    "[[n=‸\"é\" t=b]]",
    "[[dv=‸foo]]",
    "[[fs=‸x]]5",
    "[[c=‸x]]5",
    "[[t‸]]",
    "[[ha=c ‸ha2=c]]",
];
const ROW_OPTIONS: &[&str] = &["![[‸foo=2]]x", "![[t=b]][[t=‸x]]x", "![[t=‸q]]", "![[fill=2 ‸fil=3]]", "![[ha=r / t=‸z]][[t=b]]=1", "![[f=3]]=1 + ‸~", "![[t=b]] [[ha=c]] =‸~"];

/// (the field's quoted part, then what may not be there)
const CSV: &[&str] = &["\"a\"‸b", "\"a\" ‸b", "\"é \"\"日本\"\"\"‸x y", "\"two\nlines\"‸'", "\"\"‸x", "\"=1\"  ‸+ 2"];
/// (a function of one argument is called with another number of them)
const EVAL: &[&str] = &["=zf(1, 2)", "=1 + zf()", "=\"é\" & quux(zf(1, 2, 3))", "=zf(zf(1, 2))", "=zv", "![[t=b]]=zf(1, 2)", "[[t=b]]=zf()"];

const EVAL_CODE: &[&str] = &["zq9 := zf(1, 2)", "fn zq9(a) zf(a, 1)", "zq9 := 1 + quux(zf())", "fn zq9(a, b) \"é\" & zf(a, zf(b))", "zq9 := zf(zf(1, 2))"];

fn gen(s: &mut Src) -> C20 {
    let sh = Shape { vars: 3, fns: 2, rows: 4, cols: 3, depth: 2, fills: true, cell_vars: true, text_cells: true, max_fill: 3 };
    let mut program = gen_program(s, &sh);
    for r in &mut program.rows {
        if r.fill == Fill::Rest {
            r.fill = Fill::Times(2);
        }
    }
    let noise = if s.chance(1, 4) { 0 } else { mix(s.below(1 << 30), 3) | 1 };
    let kind = s.below(10);
    let row = s.us(program.rows.len() + 1);
    let place = match kind {
        0..=2 => Place::Code(s.us(program.defs.len() + 1)),
        3..=6 => Place::Cell(row),
        7 => Place::Csv(row),
        8 => Place::EvalCode(s.us(program.defs.len() + 1)),
        _ => Place::Eval(row),
    };
    let others: &[&str] = &["a", "", "5", "\"a,b\"", "\"two\nlines\"", "é日本", "=1 + 2", "\"=quux(1, 2)\"", "[[t=b]]x", "\"[[ha=c t=i]] x \"\"y\"\"\"", "  padded ", "\\\n  x", "\"# no comment\""];
    let columns = if s.chance(1, 30) { *s.pick(&[25, 26, 27, 60, 701, 702, 703, 800]) } else { s.len(3) };
    let mut before: Vec<String> = (0..columns).map(|_| (*s.pick(others)).to_string()).collect();
    // a blank line, or a comment, isn't a row
    if before.first().is_some_and(|b| b.trim().is_empty()) {
        before[0] = "z".into();
    }
    let fault = match place {
        Place::Code(_) => *s.pick(CODE),
        Place::Csv(_) => *s.pick(CSV),
        Place::Eval(_) => *s.pick(EVAL),
        Place::EvalCode(_) => *s.pick(EVAL_CODE),
        Place::Cell(_) if before.is_empty() && s.chance(1, 3) => *s.pick(ROW_OPTIONS),
        Place::Cell(_) if s.chance(1, 2) => *s.pick(OPTIONS),
        Place::Cell(_) => *s.pick(FORMULAS),
    };
    if fault.starts_with('!') {
        before.clear();
    }
    let after = (0..s.len(2)).map(|_| (*s.pick(others)).to_string()).collect();
    let module = if matches!(place, Place::EvalCode(_)) || matches!(place, Place::Code(_)) && s.chance(1, 3) { Some(s.us(3)) } else { None };
    if s.chance(1, 30) && !before.is_empty() {
        let n = s.range(50, 600) as usize;
        before[0] = "long é,".repeat(n).replace(',', " ");
    }
    let pad = if s.chance(1, 12) { s.range(0, 12) as usize + *s.pick(&[3, 3, 90, 90, 250, 990, 990, 2000, 9990]) } else { 0 };
    // tabs instead of some of the spaces
    let tabs = if s.chance(1, 6) { s.below(256) } else { 0 };
    let mut n = 0;
    let fault: String = fault
        .chars()
        .map(|c| {
            n += u64::from(c == ' ');
            if c == ' ' && tabs >> (n % 8) & 1 == 1 { '\t' } else { c }
        })
        .collect();
    C20 { program, noise, place, fault, before, after, quoted: s.chance(1, 3), module, crlf: s.chance(1, 6), pad }
}

const MARK: char = '‸';

impl C20 {
    fn padding(&self, line: &str) -> String {
        format!("{line}\n").repeat(self.pad)
    }

    /// rows of it
    fn pad_rows(&self) -> usize {
        if matches!(self.place, Place::Cell(_) | Place::Csv(_)) && self.noise % 7 != 0 { self.pad } else { 0 }
    }

    /// the source (of the file with the mistake), with the mark
    fn marked(&self) -> String {
        let mut l = Layout::new(self.noise, true, true);
        let p = &self.program;
        let mut out = String::new();
        let at = if let Place::Code(i) | Place::EvalCode(i) = self.place { i.min(p.defs.len()) } else { p.defs.len() };
        let in_code = !matches!(self.place, Place::Cell(_) | Place::Csv(_)) || self.noise % 7 == 0;
        let mut code = if in_code { self.padding("# pad") } else { String::new() };
        code.push_str(&lang::write_defs(&[], &p.defs[..at], &mut l));
        if let Place::EvalCode(_) = self.place {
            code.push_str("fn zf(q) q + 1\n");
        }
        if let Place::Code(_) | Place::EvalCode(_) = self.place {
            code.push_str(&self.fault);
            code.push('\n');
        }
        if let Place::Eval(_) = self.place {
            code.push_str("fn zf(q) q + 1\nzv := zf(1, 2)\n");
        }
        code.push_str(&lang::write_defs(&[], &p.defs[at..], &mut l));
        out.push_str(&code);
        if !code.is_empty() || self.noise % 2 == 0 {
            out.push_str("---\n");
        }
        let row = match self.place {
            Place::Code(_) | Place::EvalCode(_) => None,
            Place::Cell(r) | Place::Csv(r) | Place::Eval(r) => Some(r.min(p.rows.len())),
        };
        let part = |rows: &[crate::sheet::RowM]| Program { defs: vec![], rows: rows.to_vec() }.write_rows(self.noise);
        let Some(r) = row else {
            out.push_str(&part(&p.rows));
            return out;
        };
        if !in_code {
            out.push_str(&self.padding("pad,5"));
        }
        out.push_str(&part(&p.rows[..r]));
        let mut fields = self.before.clone();
        let must = self.fault.contains([',', '"', '\n', '\\']);
        fields.push(match self.place {
            Place::Csv(_) => self.fault.clone(),
            _ if must || self.quoted => format!("\"{}\"", self.fault.replace('"', "\"\"")),
            _ => self.fault.clone(),
        });
        fields.extend(self.after.iter().cloned());
        out.push_str(&fields.join(","));
        out.push('\n');
        out.push_str(&part(&p.rows[r..]));
        out
    }

    /// the files, the name of the one with the mistake, and it's line and column (if it has one)
    fn files(&self) -> (Vec<(String, String)>, String, Option<(usize, usize)>) {
        let marked = self.marked();
        let marked = if self.crlf { marked.replace('\n', "\r\n") } else { marked };
        let position = marked.find(MARK).map(|i| {
            let before = &marked[..i];
            let line = before.matches('\n').count() + 1;
            let col = before.rsplit('\n').next().unwrap_or("").chars().count();
            (line, col)
        });
        let text = marked.replace(MARK, "");
        let Some(n) = self.module else {
            return (vec![("main.csvpp".into(), text)], "main.csvpp".into(), position);
        };
        let mut files = vec![];
        for i in 0..n {
            let next = if i + 1 == n { "lib".to_string() } else { format!("m{}", i + 1) };
            files.push((format!("m{i}.csvpp"), format!("use {next}\nv{i} := {i}\n---\n")));
        }
        let first = if n == 0 { "lib" } else { "m0" };
        files.push(("lib.csvpp".into(), text));
        files.push(("main.csvpp".into(), format!("use {first}\n---\na,b\n")));
        (files, "lib.csvpp".into(), position)
    }

    /// the cell's address, in the source or once it's expanded
    fn cell(&self, expanded: bool) -> Option<String> {
        let r = match self.place {
            Place::Code(_) | Place::EvalCode(_) => return None,
            Place::Cell(r) | Place::Csv(r) | Place::Eval(r) => r.min(self.program.rows.len()),
        };
        let y = if expanded {
            self.program.rows[..r]
                .iter()
                .map(|r| match r.fill {
                    Fill::Times(n) => n,
                    _ => 1,
                })
                .sum()
        } else {
            r
        };
        Some(addr(self.before.len(), y + self.pad_rows()))
    }
}

fn check(c: &C20, env: &mut Env) -> Outcome {
    let dir = env.dir();
    let (files, name, position) = c.files();
    sut::write_files(&dir, &files);
    let shown = || files.iter().map(|(n, t)| format!("--- {n}\n{t}")).collect::<String>();
    let message = match no_panic(|| sut::compile_file(&dir.join("main.csvpp"), &Opts::default())) {
        Ok(Ok(_)) => fail!("it was accepted although it has the mistake {:?}\n{}", c.fault, shown()),
        Ok(Err(e)) => sut::plain(&e),
        Err(p) => fail!("panic: {p}\n{}", shown()),
    };
    let source = &files.iter().find(|f| f.0 == name).unwrap().1;
    if !message.contains(&name) {
        fail!("the error doesn't name {name}: {message}\nfor\n{}", shown());
    }
    // what kind of place it names
    let head = message.lines().find(|l| l.contains(&name) && (l.contains("Syntax error") || l.contains("Error evaluating"))).unwrap_or("");
    let section_ok = match c.place {
        Place::Code(_) => head.contains("code section"),
        Place::Cell(_) => head.contains(&format!("cell {} ", c.cell(false).unwrap())),
        Place::Eval(_) => head.contains(&format!("cell {} ", c.cell(true).unwrap())),
        Place::Csv(_) | Place::EvalCode(_) => !head.is_empty(),
    };
    if !section_ok {
        fail!("the error names the wrong place ({:?}, cell {:?}): {message}\nfor\n{}", c.place, c.cell(false), shown());
    }
    if let Err(e) = check_counts(&c.fault, &message) {
        fail!("{e}: {message}\nfor\n{}", shown());
    }
    let tags = [match c.place {
        Place::Code(_) if c.module.is_some() => "required module",
        Place::Code(_) => "code",
        Place::Cell(_) if c.fault.starts_with(['[', '!']) => "options",
        Place::Cell(_) => "formula",
        Place::Csv(_) => "csv",
        Place::Eval(_) => "evaluation",
        Place::EvalCode(_) => "evaluation of a required module",
    }];
    let Some((line, col)) = position else {
        return pass(true, &tags);
    };
    // in options it's the token's last character which is marked
    let token = if c.fault.contains("‸\"") {
        // (a quote is written twice in a quoted field)
        2
    } else if c.fault.starts_with(['[', '!']) {
        c.fault.split(MARK).nth(1).map_or(0, |t| t.chars().take_while(|c| c.is_alphanumeric() || *c == '_').count())
    } else {
        0
    };
    if let Err(e) = check_position(&message, source, line, (col, col + token.saturating_sub(1))) {
        fail!("{e}\nin {message}\nfor\n{}", shown());
    }
    pass(line > 1, &tags)
}

/// if the message states how many arguments the function takes and was given, that's right
fn check_counts(fault: &str, message: &str) -> Result<(), String> {
    let words: Vec<&str> = message.split_whitespace().collect();
    let number = |w: &str| words.iter().position(|x| x.eq_ignore_ascii_case(w)).and_then(|i| words.get(i + 1)?.trim_matches(|c: char| !c.is_ascii_digit()).parse::<usize>().ok());
    let (Some(takes), Some(given)) = (number("expected"), number("received")) else { return Ok(()) };
    let fault = fault.replace('\t', " ");
    let was = if fault.contains("zf(1, 2, 3)") { 3 } else if fault.contains("zf()") { 0 } else { 2 };
    if !message.contains("argument") || (takes, given) == (1, was) {
        return Ok(());
    }
    Err(format!("it says {takes} arguments rather than 1 are expected, or {given} rather than {was} were given"))
}

/// the message states the line, and shows it with a marker under the column
fn check_position(message: &str, source: &str, line: usize, cols: (usize, usize)) -> Result<(), String> {
    let lines: Vec<&str> = source.lines().map(|l| l.trim_end_matches('\r')).collect();
    let stated = message
        .lines()
        .find_map(|l| l.trim_start().strip_prefix("On line ")?.split(|c: char| !c.is_ascii_digit()).next()?.parse::<usize>().ok())
        .ok_or("no line is stated")?;
    if stated != line {
        return Err(format!("line {stated} is stated rather than {line}"));
    }
    // the lines which are shown are those around the marker
    let all: Vec<&str> = message.lines().collect();
    let mark_of = |l: &str| {
        let t = l.trim_start();
        let m = t.strip_prefix(": ")?;
        let dashes = m.strip_suffix('^')?;
        // (the column which the text starts at)
        dashes.chars().all(|c| c == '-').then(|| l.chars().count() - t.chars().count() + 2 + dashes.len())
    };
    let marks: Vec<usize> = (0..all.len()).filter(|i| mark_of(all[*i]).is_some()).collect();
    let [marker] = marks[..] else { return Err(format!("there are {} markers", marks.len())) };
    let at = mark_of(all[marker]).unwrap();
    // a line's number, the column it's text starts at, and the text
    let numbered = |l: &str| {
        let t = l.trim_start();
        let digits: String = t.chars().take_while(char::is_ascii_digit).collect();
        let rest = t[digits.len()..].trim_start_matches(' ').strip_prefix(':')?;
        let start = l.chars().count() - rest.chars().count() + 1;
        Some((digits.parse::<usize>().ok()?, start, rest.strip_prefix(' ').unwrap_or(rest).to_string()))
    };
    let Some((n, start, _)) = marker.checked_sub(1).and_then(|i| numbered(all[i])) else { return Err("the marker isn't below a line".into()) };
    if n != line {
        return Err(format!("the marker is below line {n} rather than {line}"));
    }
    if at < start + cols.0 || at > start + cols.1 {
        return Err(format!("the marker is at column {} rather than {cols:?}", at as i64 - start as i64));
    }
    let same = |n: usize, text: &str| {
        let want = n.checked_sub(1).and_then(|i| lines.get(i)).copied();
        if want.map(str::trim_end) == Some(text.trim_end()) {
            Ok(())
        } else {
            Err(format!("line {n} is shown as {text:?} rather than {want:?}"))
        }
    };
    // (how many lines there are before and after it isn't stated)
    let before = line.min(4);
    for i in 0..before {
        match marker.checked_sub(1 + i).and_then(|j| numbered(all[j])) {
            Some((n, _, text)) if n == line - i => same(n, &text)?,
            Some((n, ..)) => return Err(format!("line {n} is shown rather than {}", line - i)),
            None => break,
        }
    }
    for i in 1..=3.min(lines.len().saturating_sub(line)) {
        match all.get(marker + i).and_then(|l| numbered(l)) {
            Some((n, _, text)) if n == line + i => same(n, &text)?,
            Some((n, ..)) => return Err(format!("line {n} is shown rather than {}", line + i)),
            None => break,
        }
    }
    Ok(())
}

fn show(c: &C20) -> Value {
    let (files, name, position) = c.files();
    json!({"files": files, "mistake_in": name, "line_and_column": position, "cell": c.cell(false)})
}

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Def {
        id: "C20",
        quick: 20_000,
        thorough: 600_000,
        rule: "the mistake is not on the first line (or it is one which has no line, found in evaluating)",
        assumptions: &[
            "the place of a mistake is that of the first token which can't continue what's before it",
            "a syntax error names the cell's address in the source, and an error of evaluating the one it has after fills are expanded",
        ],
        gen,
        check,
        show,
    })]
}
