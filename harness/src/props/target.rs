//! C15 to C18: what's written to the targets, and how it's merged with what is there
use super::options::{covers, google_requests, point};
use super::program::{gen_program, stretch, Shape};
use crate::core::{no_panic, pass, Def, Env, Outcome, Prop};
use crate::fail;
use crate::lang::addr;
use crate::opts::{self, Compiled, Rgb, Style, Styled, Val};
use crate::sheet::{Content, Fill, Program};
use crate::src::Src;
use crate::sut::{self, Grid, Opts};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use umya_spreadsheet as u;

// ------------------------------------------------------------------ reading workbooks

#[derive(Clone, Debug, PartialEq)]
pub struct CellSnap {
    pub kind: String,
    pub value: String,
    pub formula: String,
    pub style: String,
    pub link: String,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct SheetSnap {
    pub name: String,
    pub state: String,
    pub cells: BTreeMap<(usize, usize), CellSnap>,
    pub comments: BTreeMap<(usize, usize), (String, String)>,
    /// cells with several of them
    pub several: BTreeSet<(usize, usize)>,
    pub validations: BTreeSet<String>,
    pub dims: BTreeSet<String>,
}

fn rich_text(t: &u::RichText) -> String {
    t.get_text().to_string()
}

fn style_digest(s: &u::Style) -> String {
    let mut o = vec![];
    if let Some(f) = s.get_font() {
        o.push(format!(
            "font {} {} b{} i{} u{} s{} {:?}",
            f.get_name(),
            f.get_size(),
            f.get_bold(),
            f.get_italic(),
            format!("{:?}", f.get_font_underline().get_val()),
            f.get_strikethrough(),
            f.get_color().get_argb()
        ));
    }
    if let Some(c) = s.get_background_color() {
        o.push(format!("fill {:?}", c.get_argb()));
    }
    if let Some(b) = s.get_borders() {
        for b in [b.get_left(), b.get_right(), b.get_top(), b.get_bottom()] {
            o.push(format!("border {} {:?}", b.get_border_style(), b.get_color().get_argb()));
        }
    }
    if let Some(a) = s.get_alignment() {
        o.push(format!("{:?} {:?} {}", a.get_horizontal(), a.get_vertical(), a.get_wrap_text()));
    }
    if let Some(n) = s.get_number_format() {
        o.push(format!("nf {}", n.get_format_code()));
    }
    if let Some(p) = s.get_protection() {
        o.push(format!("locked {}", p.get_locked()));
    }
    o.join("; ")
}

fn snap_sheet(w: &u::Worksheet) -> SheetSnap {
    let mut s = SheetSnap { name: w.get_name().to_string(), state: w.get_sheet_state().to_string(), ..Default::default() };
    for c in w.get_cell_collection() {
        let k = c.get_coordinate();
        let snap = CellSnap {
            kind: c.get_data_type().to_string(),
            value: c.get_value().to_string(),
            formula: c.get_formula().to_string(),
            style: style_digest(c.get_style()),
            link: c.get_hyperlink().map_or_else(String::new, |l| l.get_url().to_string()),
        };
        // a cell without any content is the same as no cell (the library sometimes keeps it)
        if !(snap.value.is_empty() && snap.formula.is_empty() && snap.style.is_empty() && snap.link.is_empty()) {
            s.cells.insert((*k.get_row_num() as usize - 1, *k.get_col_num() as usize - 1), snap);
        }
    }
    for c in w.get_comments() {
        let k = c.get_coordinate();
        let at = ((*k.get_row_num() as usize).wrapping_sub(1), (*k.get_col_num() as usize).wrapping_sub(1));
        if s.comments.insert(at, (c.get_author().to_string(), rich_text(c.get_text()))).is_some() {
            s.several.insert(at);
        }
    }
    if let Some(v) = w.get_data_validations() {
        for v in v.get_data_validation_list() {
            s.validations.insert(format!(
                "{} {:?} {:?} {:?} {:?}",
                v.get_sequence_of_references().get_sqref(),
                v.get_type(),
                v.get_operator(),
                v.get_formula1(),
                v.get_formula2()
            ));
        }
    }
    for c in w.get_column_dimensions() {
        // (the default width)
        if *c.get_width() != 8.38 {
            s.dims.insert(format!("column {} {}", c.get_col_num(), c.get_width()));
        }
    }
    for r in w.get_row_dimensions() {
        if *r.get_height() != 0.0 {
            s.dims.insert(format!("row {} {}", r.get_row_num(), r.get_height()));
        }
    }
    for m in w.get_merge_cells() {
        s.dims.insert(format!("merged {}", m.get_range()));
    }
    for c in w.get_column_dimensions() {
        if *c.get_hidden() {
            s.dims.insert(format!("hidden column {}", c.get_col_num()));
        }
    }
    for r in w.get_row_dimensions() {
        if *r.get_hidden() {
            s.dims.insert(format!("hidden row {}", r.get_row_num()));
        }
    }
    if let Some(c) = w.get_tab_color() {
        s.dims.insert(format!("tab {}", c.get_argb()));
    }
    if let Some(a) = w.get_auto_filter() {
        s.dims.insert(format!("filter {}", a.get_range().get_range()));
    }
    for v in w.get_sheets_views().get_sheet_view_list() {
        s.dims.insert(format!("zoom {}", v.get_zoom_scale()));
        if let Some(p) = v.get_pane() {
            s.dims.insert(format!("pane {} {} {}", p.get_horizontal_split(), p.get_vertical_split(), p.get_top_left_cell().get_coordinate()));
        }
    }
    let p = w.get_page_setup();
    s.dims.insert(format!("page {:?} {} {}", p.get_orientation(), p.get_paper_size(), p.get_scale()));
    s.dims.insert(format!("header {}", w.get_header_footer().get_odd_header().get_value()));
    for c in w.get_conditional_formatting_collection() {
        s.dims.insert(format!("conditional {} {}", c.get_sequence_of_references().get_sqref(), c.get_conditional_collection().len()));
    }
    for d in w.get_defined_names() {
        s.dims.insert(format!("name {} {}", d.get_name(), d.get_address()));
    }
    s
}

/// what a workbook has besides its sheets
fn snap_book(b: &u::Spreadsheet) -> Vec<String> {
    let p = b.get_properties();
    let mut v = vec![
        format!("active {}", b.get_workbook_view().get_active_tab()),
        format!("title {} {} {}", p.get_title(), p.get_creator(), p.get_description()),
    ];
    v.extend(b.get_defined_names().iter().map(|d| format!("name {} {}", d.get_name(), d.get_address())));
    v
}

/// all there is in a workbook
pub fn snapshot(p: &Path) -> String {
    read_book(p).map_or_else(|e| e, |b| format!("{b:?}"))
}

fn read_book(p: &Path) -> Result<Vec<SheetSnap>, String> {
    let b = u::reader::xlsx::read(p).map_err(|e| format!("the workbook can't be read: {e:?}"))?;
    Ok(b.get_sheet_collection().iter().map(snap_sheet).collect())
}

// ------------------------------------------------------------------ what a cell is expected to be

/// the tests of the repository expect the wrong order of the channels: recorded as a known finding
fn color_ok(got: &str, want: Rgb, quirk: &mut bool) -> bool {
    let h = opts::hex(want)[1..].to_uppercase();
    let got = got.to_uppercase();
    if got == format!("FF{h}") {
        return true;
    }
    if got == format!("{h}FF") {
        *quirk = true;
        return true;
    }
    false
}

const HALIGN: &[&str] = &["center", "left", "right"];
const VALIGN: &[&str] = &["center", "top", "bottom"];
const BORDERS: &[&str] = &["thin", "dashed", "dotted", "double", "medium", "thick"];
const FORMATS: &[&[&str]] = &[
    &["@"],
    &["$#,##0_-", "$#,##0", "\"$\"#,##0.00_-", "$#,##0.00"],
    &["yyyy-mm-dd"],
    &["d/m/yy h:mm"],
    &["0"],
    &["0%"],
    &["h:mm AM/PM"],
    &["0.00E+00"],
];

fn check_value(c: &u::Cell, want: &Val) -> Result<(), String> {
    let (kind, value, formula) = (c.get_data_type(), c.get_value(), c.get_formula());
    let ok = match want {
        Val::Blank => value.is_empty() && formula.is_empty(),
        Val::Text(t) => formula.is_empty() && kind == "s" && value == t.as_str(),
        Val::Number(n) => formula.is_empty() && kind == "n" && value.parse::<f64>().is_ok_and(|v| (v - n).abs() <= n.abs() * 1e-12),
        Val::Bool(b) => formula.is_empty() && kind == "b" && (value == if *b { "TRUE" } else { "FALSE" } || value == if *b { "1" } else { "0" }),
        Val::Formula(f) => formula == f,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("expected {want:?} but it is of type {kind:?} with the value {value:?} and the formula {formula:?}"))
    }
}

fn check_style(s: &u::Style, want: &Style, quirk: &mut bool) -> Result<(), String> {
    let plain = u::Font::default();
    let font = s.get_font().unwrap_or(&plain);
    let underline = format!("{:?}", font.get_font_underline().get_val());
    let text = [
        ("bold", *font.get_bold()),
        ("italic", *font.get_italic()),
        ("strikethrough", *font.get_strikethrough()),
        ("underline", underline != "None"),
    ];
    for (i, (n, has)) in text.iter().enumerate() {
        if *has != want.text.contains(&i) {
            return Err(format!("{n} is {has}"));
        }
    }
    if want.text.contains(&3) && underline != "Single" {
        return Err(format!("underlined as {underline}"));
    }
    if let Some(n) = &want.font_family {
        if font.get_name() != n {
            return Err(format!("the font is {:?} rather than {n:?}", font.get_name()));
        }
    } else if opts_font(font.get_name()) {
        return Err(format!("the font is {:?}", font.get_name()));
    }
    if let Some(n) = want.font_size {
        if (font.get_size() - f64::from(n)).abs() > 1e-9 {
            return Err(format!("the font size is {} rather than {n}", font.get_size()));
        }
    } else if ![0.0, 10.0, 11.0, 12.0].contains(font.get_size()) {
        return Err(format!("the font size is {}", font.get_size()));
    }
    let fc = font.get_color().get_argb();
    match want.font_color {
        Some(c) if !color_ok(fc, c, quirk) => return Err(format!("the font's color is {fc} rather than {}", opts::hex(c))),
        None if !["", "FF000000", "000000FF"].contains(&fc) => return Err(format!("the font's color is {fc}")),
        _ => (),
    }
    let bg = s.get_background_color().map(|c| c.get_argb().to_string()).unwrap_or_default();
    match want.color {
        Some(c) if !color_ok(&bg, c, quirk) => return Err(format!("the background is {bg:?} rather than {}", opts::hex(c))),
        None if !["", "FFFFFFFF"].contains(&bg.as_str()) => return Err(format!("the background is {bg:?}")),
        _ => (),
    }
    let plain = u::Style::get_default_value();
    let Some(b) = s.get_borders().or(plain.get_borders()) else {
        return if want.borders.is_empty() { Ok(()) } else { Err("there are no borders".into()) };
    };
    for (i, (n, side)) in [("top", b.get_top()), ("bottom", b.get_bottom()), ("left", b.get_left()), ("right", b.get_right())].into_iter().enumerate() {
        let style = side.get_border_style();
        if !want.borders.contains(&(i + 1)) {
            if style != "none" && !style.is_empty() {
                return Err(format!("the {n} border is {style:?}"));
            }
            continue;
        }
        if style != BORDERS[want.border_style] {
            return Err(format!("the {n} border is {style:?} rather than {:?}", BORDERS[want.border_style]));
        }
        let c = side.get_color().get_argb();
        if let Some(w) = want.border_color {
            if !color_ok(c, w, quirk) {
                return Err(format!("the {n} border's color is {c:?} rather than {}", opts::hex(w)));
            }
        } else if !["", "FF000000", "000000FF"].contains(&c) {
            return Err(format!("the {n} border's color is {c:?}"));
        }
    }
    let plain = u::Alignment::default();
    let a = s.get_alignment().unwrap_or(&plain);
    let (h, v) = (format!("{:?}", a.get_horizontal()).to_lowercase(), format!("{:?}", a.get_vertical()).to_lowercase());
    if h != HALIGN[want.halign] || v != VALIGN[want.valign] {
        return Err(format!("aligned {h} and {v} rather than {} and {}", HALIGN[want.halign], VALIGN[want.valign]));
    }
    if *a.get_wrap_text() != (want.wrap == 0) {
        return Err(format!("wrapping is {}", a.get_wrap_text()));
    }
    let nf = s.get_number_format().map(|n| n.get_format_code().to_string()).unwrap_or_default();
    if !FORMATS[want.number_format].contains(&nf.as_str()) {
        return Err(format!("the number format is {nf:?} rather than that of {}", opts::NUMBER_FORMATS[want.number_format].0));
    }
    Ok(())
}

/// fonts which are only there if an option says so
fn opts_font(n: &str) -> bool {
    ["Helvetica", "Times New Roman", "x"].contains(&n)
}

/// the cell which should be as it was compiled
fn check_cell(w: &u::Worksheet, x: usize, y: usize, want: &Compiled, quirk: &mut bool) -> Result<(), String> {
    let Some(c) = w.get_cell(addr(x, y)) else {
        return if want.val == Val::Blank && want.style == Style::default() { Ok(()) } else { Err("there is no such cell".into()) };
    };
    check_value(c, &want.val)?;
    check_style(c.get_style(), &want.style, quirk)
}

// ------------------------------------------------------------------ generating programs

fn small(s: &mut Src, fills: bool) -> Program {
    let sh = Shape { vars: 2, fns: 1, rows: 6, cols: 5, depth: 2, fills, cell_vars: true, text_cells: true, max_fill: 4 };
    let mut p = gen_program(s, &sh);
    for r in &mut p.rows {
        if r.fill == Fill::Rest {
            r.fill = Fill::Times(3);
        }
        for c in &mut r.cells {
            if s.chance(1, 3) {
                c.content = Content::Text((*s.pick(&["foo", "", "5", "a,b", "x \"y\" z", "<&>'", "été 日本", "TRUE", "-1.5", "two\nlines", "50%", "a  b"])).to_string());
            }
        }
    }
    stretch(s, &mut p, 400);
    p
}

fn gen_sheet_name(s: &mut Src) -> Option<String> {
    s.chance(1, 2).then(|| (*s.pick(&["Foo", "two words", "a&b <c>", "été", "it's", "Sheet1", "main", "\"q\"", "a.b", "2024"])).to_string())
}

fn shrunk_rows(sheet: &Styled, model: &[Vec<Compiled>]) -> bool {
    sheet.program.rows.iter().any(|r| r.fill == Fill::Times(0)) || model.is_empty()
}

// ------------------------------------------------------------------ C15

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C15 {
    sheet: Styled,
    name: Option<String>,
    extension: String,
}

fn gen_c15(s: &mut Src) -> C15 {
    let p = small(s, true);
    let colors = s.chance(1, 3);
    let sheet = opts::gen_styled(s, p, 5, colors, false);
    let extension = if s.chance(1, 5) { (*s.pick(&["xlsm", "xltx", "xltm", "XLSX"])).to_string() } else { "xlsx".to_string() };
    C15 { sheet, name: gen_sheet_name(s), extension }
}

fn check_c15(c: &C15, env: &mut Env) -> Outcome {
    let dir = env.dir();
    let source = c.sheet.source();
    let Some(model) = c.sheet.model() else { return pass(false, &["too big"]) };
    std::fs::write(dir.join("main.csvpp"), &source).unwrap();
    let out = dir.join(format!("out.{}", c.extension));
    let o = Opts { sheet_name: c.name.clone(), ..Opts::default() };
    match no_panic(|| sut::build(&dir.join("main.csvpp"), &out, &o)) {
        Ok(Ok(())) => (),
        Ok(Err(e)) => fail!("failed with {}\nfor\n{source}", sut::plain(&e)),
        Err(p) => fail!("panic: {p}\nfor\n{source}"),
    }
    let book = match u::reader::xlsx::read(&out) {
        Ok(b) => b,
        Err(e) => fail!("the workbook can't be read: {e:?}\nfor\n{source}"),
    };
    let name = c.name.clone().unwrap_or_else(|| "main".into());
    let names: Vec<&str> = book.get_sheet_collection().iter().map(u::Worksheet::get_name).collect();
    if names != [name.as_str()] {
        fail!("the sheets are {names:?} rather than {name:?}\nfor\n{source}");
    }
    let w = book.get_sheet_by_name(&name).unwrap();
    let mut quirk = false;
    let mut comments = BTreeMap::new();
    let mut notes = 0;
    for (y, row) in model.iter().enumerate() {
        for (x, cell) in row.iter().enumerate() {
            if let Err(e) = check_cell(w, x, y, cell, &mut quirk) {
                fail!("{}: {e}\nfor\n{source}", addr(x, y));
            }
            if let Some(n) = &cell.style.note {
                notes += 1;
                comments.insert((y, x), n.clone());
            }
        }
    }
    let snap = snap_sheet(w);
    let got: BTreeMap<(usize, usize), String> = snap.comments.iter().map(|(k, v)| (*k, v.1.clone())).collect();
    let nonempty = |m: &BTreeMap<(usize, usize), String>| m.iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| (*k, v.clone())).collect::<BTreeMap<_, _>>();
    if !snap.several.is_empty() {
        fail!("there are several comments on {:?}\nfor\n{source}", snap.several);
    }
    if nonempty(&got) != nonempty(&comments) || got.len() > comments.len() {
        fail!("the comments are {got:?} rather than {comments:?}\nfor\n{source}");
    }
    for ((y, x), c) in &snap.cells {
        if model.get(*y).and_then(|r| r.get(*x)).is_none() && (!c.value.is_empty() || !c.formula.is_empty()) {
            fail!("{} is {c:?}\nfor\n{source}", addr(*x, *y));
        }
    }
    if !snap.validations.is_empty() {
        fail!("there are validations: {:?}\nfor\n{source}", snap.validations);
    }
    if quirk {
        // exactly the recorded finding, and otherwise right
        return Outcome::Known("excel-colors", "colors in Excel files are written as RRGGBBAA where the format has AARRGGBB".into());
    }
    let styled = model.iter().flatten().any(|c| c.style != Style::default());
    let kinds: BTreeSet<&str> = model
        .iter()
        .flatten()
        .map(|c| match c.val {
            Val::Blank => "blank",
            Val::Text(_) => "text",
            Val::Number(_) => "number",
            Val::Bool(_) => "boolean",
            Val::Formula(_) => "formula",
        })
        .collect();
    let mut tags: Vec<&str> = kinds.iter().copied().collect();
    if notes > 0 {
        tags.push("notes");
    }
    if styled {
        tags.push("styles");
    }
    pass((styled || kinds.len() > 2) && !model.is_empty(), &tags)
}

// ------------------------------------------------------------------ C16

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C16 {
    program: Program,
    noise: u64,
    existing: Option<String>,
    invalid_utf8: bool,
    safe: bool,
    times: usize,
}

fn gen_c16(s: &mut Src) -> C16 {
    let program = small(s, true);
    let existing = s.chance(9, 10).then(|| {
        let tall = s.chance(1, 300);
        let rows = if tall { s.range(900, 1600) } else { s.wide(0, 8, 60, 20) as u64 };
        let wide = s.chance(1, 20) && !tall;
        let mut out = String::new();
        let crlf = s.chance(1, 5);
        for y in 0..rows {
            if s.chance(1, 25) {
                out.push_str(if crlf { "\r\n" } else { "\n" });
                continue;
            }
            let cols = s.range(1, if wide { 60 } else { 7 });
            for x in 0..cols {
                if x > 0 {
                    out.push(',');
                }
                let v = if s.chance(1, 3) {
                    ""
                } else {
                    *s.pick(&["old", " padded ", "a,b", "say \"x\"", "two\nlines", "=A1", "日本", "1", "#", "\\", "a\r\nb", " ", "'", "[[t=b]]x", "0", "-"])
                };
                let must = v.contains([',', '"', '\n', '\r']) || (v.is_empty() && cols == 1);
                if must || s.chance(1, 5) {
                    out.push_str(&format!("\"{}\"", v.replace('"', "\"\"")));
                } else {
                    out.push_str(v);
                }
            }
            if y + 1 < rows || s.chance(4, 5) {
                out.push_str(if crlf { "\r\n" } else { "\n" });
            }
        }
        out
    });
    C16 {
        program,
        noise: s.below(1 << 20),
        existing,
        invalid_utf8: s.chance(1, 60),
        safe: s.chance(1, 2),
        times: s.range(1, 3) as usize,
    }
}

/// the merged file
fn merge_csv(old: &Grid, new: &Grid, safe: bool) -> Grid {
    let widest = |g: &Grid| g.iter().map(Vec::len).max().unwrap_or(0);
    let (rows, cols) = if safe { (new.len().max(old.len()), widest(new).max(widest(old))) } else { (new.len(), widest(new)) };
    let at = |g: &Grid, x: usize, y: usize| g.get(y).and_then(|r| r.get(x)).cloned();
    (0..rows)
        .map(|y| {
            (0..cols)
                .map(|x| match (at(old, x, y), at(new, x, y)) {
                    (Some(o), Some(_)) if safe && !o.is_empty() => o,
                    (_, Some(n)) => n,
                    (o, None) => o.unwrap_or_default(),
                })
                .collect()
        })
        .collect()
}

fn check_c16(c: &C16, env: &mut Env) -> Outcome {
    let dir = env.dir();
    let source = c.program.write(c.noise);
    let Ok(new) = c.program.eval(&c.program.scope()) else { return pass(false, &["too big"]) };
    if new.is_empty() {
        return pass(false, &["no rows"]);
    }
    std::fs::write(dir.join("main.csvpp"), &source).unwrap();
    let out = dir.join("out.csv");
    let o = Opts { safe: c.safe, ..Opts::default() };
    let old_text = c.existing.clone().unwrap_or_default();
    let mut bytes = old_text.clone().into_bytes();
    if c.invalid_utf8 {
        bytes.extend_from_slice(b"x,\xff\xfe,y\n");
    }
    if c.existing.is_some() || c.invalid_utf8 {
        std::fs::write(&out, &bytes).unwrap();
    }
    let describe = || format!("for\n{source}\nwritten to {:?} with safe={}", c.existing, c.safe);
    let build = || no_panic(|| sut::build(&dir.join("main.csvpp"), &out, &o));
    if c.invalid_utf8 {
        return match build() {
            Err(p) => Outcome::Fail(format!("panic: {p} {}", describe())),
            // (replacing all of it is fine unless something has to be kept)
            Ok(Ok(())) if c.safe => Outcome::Fail(format!("a file which can't be read was written to {}", describe())),
            Ok(Ok(())) => pass(false, &["not readable"]),
            Ok(Err(_)) => {
                if std::fs::read(&out).unwrap() != bytes {
                    fail!("writing failed but changed the file {}", describe());
                }
                pass(true, &["not readable"])
            }
        };
    }
    let old = match sut::read_csv(&old_text) {
        Ok(g) => g,
        Err(e) => panic!("the generated file is wrong: {e}: {old_text:?}"),
    };
    let want = merge_csv(&old, &new, c.safe);
    // the known finding: blank lines of the existing file are skipped
    let without_blank: Grid = {
        let text = &old_text;
        let mut g = old.clone();
        // (a quoted empty field isn't a blank line)
        let blank = blank_lines(text);
        let mut i = 0;
        g.retain(|_| {
            i += 1;
            !blank.contains(&(i - 1))
        });
        g
    };
    let mut quirk = false;
    let mut first = vec![];
    for i in 0..c.times {
        match build() {
            Ok(Ok(())) => (),
            Ok(Err(e)) => fail!("failed with {} {}", sut::plain(&e), describe()),
            Err(p) => fail!("panic: {p} {}", describe()),
        }
        let bytes = std::fs::read(&out).unwrap();
        if i == 0 {
            let text = match String::from_utf8(bytes.clone()) {
                Ok(t) => t,
                Err(e) => fail!("the output isn't UTF-8: {e} {}", describe()),
            };
            let got = match sut::read_csv(&text) {
                Ok(g) => g,
                Err(e) => fail!("the output isn't well-formed: {e}: {text:?} {}", describe()),
            };
            if got != want {
                if got == merge_csv(&without_blank, &new, c.safe) {
                    quirk = true;
                } else {
                    fail!("{}\nexpected {want:?}\nbut have {got:?}\n{}", sut::diff(&want, &got), describe());
                }
            }
            if !text.is_empty() && !text.ends_with('\n') {
                fail!("the last record isn't complete: {text:?} {}", describe());
            }
            first = bytes;
        } else if bytes != first {
            fail!("writing it again changed the file from {:?} to {:?} {}", String::from_utf8_lossy(&first), String::from_utf8_lossy(&bytes), describe());
        }
    }
    // nothing but the output
    let files: Vec<String> = sut::snapshot(&dir).into_iter().map(|f| f.0).collect();
    if files != ["main.csvpp", "out.csv"] {
        fail!("there are also other files: {files:?} {}", describe());
    }
    if quirk {
        return Outcome::Known("csv-blank-lines", "blank lines of an existing CSV file are skipped, so that the rows below are merged one row too high".into());
    }
    let overlap = old.iter().zip(&new).any(|(o, n)| o.iter().zip(n).any(|(o, n)| !o.is_empty() && o != n));
    let beyond = old.len() > new.len() || old.iter().zip(&new).any(|(o, n)| o.len() > n.len());
    let mut tags = vec![if c.safe { "safe" } else { "overwriting" }];
    if overlap {
        tags.push("conflicts");
    }
    if beyond {
        tags.push("existing cells outside");
    }
    if c.times > 1 {
        tags.push("written again");
    }
    pass(overlap || beyond, &tags)
}

/// the records of a file which are blank lines
fn blank_lines(text: &str) -> Vec<usize> {
    let (mut v, mut record, mut quoted, mut empty) = (vec![], 0, false, true);
    for ch in text.chars() {
        match ch {
            '"' => {
                quoted = !quoted;
                empty = false;
            }
            '\r' if !quoted => (),
            '\n' if !quoted => {
                if empty {
                    v.push(record);
                }
                record += 1;
                empty = true;
            }
            _ => empty = false,
        }
    }
    v
}

// ------------------------------------------------------------------ C17

#[derive(Clone, Debug, Serialize, Deserialize)]
enum OldValue {
    Text(String),
    Number(f64),
    Bool(bool),
    Formula(String),
    Blank,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OldCell {
    x: u32,
    y: u32,
    value: OldValue,
    bold: bool,
    italic: bool,
    size: Option<u8>,
    fill: Option<String>,
    border: bool,
    align: bool,
    format: Option<String>,
    /// bits: underlined, struck through, wrapped, colored, at the bottom, a link
    #[serde(default)]
    more: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OldSheet {
    name: String,
    cells: Vec<OldCell>,
    comments: Vec<(u32, u32, String)>,
    validations: Vec<(u32, u32, u32)>,
    widths: Vec<(u32, u8)>,
    heights: Vec<(u32, u8)>,
    merged: Option<String>,
    hidden: bool,
    /// bits: a tab color, a filter, a zoom, a pane, a hidden column, a hidden row, a page, a header
    #[serde(default)]
    more: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C17 {
    sheets: Vec<OldSheet>,
    target: String,
    default_name: bool,
    sheet: Styled,
    safe: bool,
    times: usize,
    #[serde(default)]
    active: usize,
    #[serde(default)]
    named: bool,
}

fn gen_old_sheet(s: &mut Src, name: String) -> OldSheet {
    let mut cells: Vec<OldCell> = vec![];
    let wide = s.chance(1, 8);
    for _ in 0..s.len(10) {
        let (x, y) = (s.range(1, if wide { 60 } else { 8 }) as u32, s.range(1, if wide { 80 } else { 12 }) as u32);
        if cells.iter().any(|c| (c.x, c.y) == (x, y)) {
            continue;
        }
        let value = match s.below(6) {
            0 | 1 => OldValue::Text((*s.pick(&["old", "été", "a & b", "<x>", "two\nlines", "12", "\"q\""])).to_string()),
            2 => OldValue::Number(*s.pick(&[1.0, -2.5, 1e10, 0.0, 42.0])),
            3 => OldValue::Bool(s.chance(1, 2)),
            4 => OldValue::Formula((*s.pick(&["A1+1", "SUM(A1:B2)", "\"x\"&B1", "IF(A1>1,2,3)"])).to_string()),
            _ => OldValue::Blank,
        };
        let plain = s.chance(1, 2);
        cells.push(OldCell {
            x,
            y,
            value,
            bold: !plain && s.chance(1, 2),
            italic: !plain && s.chance(1, 3),
            size: (!plain && s.chance(1, 3)).then(|| s.range(6, 30) as u8),
            fill: (!plain && s.chance(1, 3)).then(|| (*s.pick(&["FFFF0000", "FF00FF00", "FF123456"])).to_string()),
            border: !plain && s.chance(1, 3),
            align: !plain && s.chance(1, 3),
            format: (!plain && s.chance(1, 3)).then(|| (*s.pick(&["0.00", "0%", "yyyy-mm-dd", "#,##0"])).to_string()),
            more: if !plain && s.chance(1, 3) { s.below(64) as u8 } else { 0 },
        });
    }
    let mut comments: Vec<(u32, u32, String)> = vec![];
    for _ in 0..s.len(3) {
        let (x, y) = (s.range(1, if wide { 40 } else { 7 }) as u32, s.range(1, if wide { 40 } else { 10 }) as u32);
        if comments.iter().all(|c| (c.0, c.1) != (x, y)) {
            comments.push((x, y, (*s.pick(&["a note", "été", "<b>"])).to_string()));
        }
    }
    let mut validations: Vec<(u32, u32, u32)> = vec![];
    for _ in 0..s.len(3) {
        let (x, y, n) = (s.range(1, 7) as u32, s.range(1, 10) as u32, s.below(100) as u32);
        if validations.iter().all(|c| (c.0, c.1) != (x, y)) {
            validations.push((x, y, n));
        }
    }
    OldSheet {
        name,
        cells,
        comments,
        validations,
        widths: if s.chance(1, 3) { vec![(s.range(1, 6) as u32, s.range(3, 60) as u8)] } else { vec![] },
        heights: if s.chance(1, 3) { vec![(s.range(1, 6) as u32, s.range(8, 60) as u8)] } else { vec![] },
        merged: s.chance(1, 5).then(|| (*s.pick(&["A9:B10", "F2:G4"])).to_string()),
        hidden: false,
        more: if s.chance(1, 3) { s.below(256) as u8 } else { 0 },
    }
}

fn gen_c17(s: &mut Src) -> C17 {
    let mut names: Vec<String> = ["Sheet1", "main", "Data", "été & co", "a b"].iter().map(|s| (*s).to_string()).collect();
    let p = s.perm(names.len());
    names = p.into_iter().map(|i| names[i].clone()).collect();
    let n = s.range(1, 3) as usize;
    let mut sheets: Vec<OldSheet> = (0..n).map(|i| gen_old_sheet(s, names[i].clone())).collect();
    if n > 1 && s.chance(1, 6) {
        sheets[n - 1].hidden = true;
    }
    let target = if s.chance(4, 5) { sheets[s.us(n)].name.clone() } else { names[n].clone() };
    let default_name = target == "main" && s.chance(1, 2);
    let p = small(s, true);
    let max = if s.chance(1, 2) { 0 } else { 3 };
    let sheet = opts::gen_styled(s, p, max, false, true);
    let (safe, times) = (s.chance(1, 2), s.range(1, 2) as usize);
    C17 { sheets, target, default_name, sheet, safe, times, active: if s.chance(1, 2) { s.us(n) } else { 0 }, named: s.chance(1, 4) }
}

fn old_book(c: &C17, p: &Path) {
    let sheets = &c.sheets;
    let mut b = u::new_file_empty_worksheet();
    for sh in sheets {
        let w = b.new_sheet(&sh.name).unwrap();
        for c in &sh.cells {
            let cell = w.get_cell_mut((c.x, c.y));
            match &c.value {
                OldValue::Text(t) => drop(cell.set_value_string(t.clone())),
                OldValue::Number(n) => drop(cell.set_value_number(*n)),
                OldValue::Bool(b) => drop(cell.set_value_bool(*b)),
                OldValue::Formula(f) => drop(cell.set_formula(f.clone())),
                OldValue::Blank => drop(cell.set_blank()),
            }
            let st = cell.get_style_mut();
            if c.bold {
                st.get_font_mut().set_bold(true);
            }
            if c.italic {
                st.get_font_mut().set_italic(true);
            }
            if let Some(n) = c.size {
                st.get_font_mut().set_size(f64::from(n));
            }
            if let Some(f) = &c.fill {
                st.set_background_color(f.clone());
            }
            if c.border {
                st.get_borders_mut().get_top_mut().set_border_style("thick");
            }
            if c.align {
                st.get_alignment_mut().set_horizontal(u::HorizontalAlignmentValues::Right);
            }
            if let Some(f) = &c.format {
                st.get_number_format_mut().set_format_code(f.clone());
            }
            let on = |i: u8| c.more >> i & 1 == 1;
            if on(0) {
                st.get_font_mut().set_underline("single");
            }
            if on(1) {
                st.get_font_mut().set_strikethrough(true);
            }
            if on(2) {
                st.get_alignment_mut().set_wrap_text(true);
            }
            if on(3) {
                st.get_font_mut().get_color_mut().set_argb("FF0000FF");
            }
            if on(4) {
                st.get_alignment_mut().set_vertical(u::VerticalAlignmentValues::Bottom);
            }
            if on(5) {
                w.get_cell_mut((c.x, c.y)).get_hyperlink_mut().set_url("https://example.com/a");
            }
        }
        for (x, y, t) in &sh.comments {
            let mut c = u::Comment::default();
            c.set_author("someone");
            c.get_text_mut().set_text(t.clone());
            c.get_coordinate_mut().set_col_num(*x);
            c.get_coordinate_mut().set_row_num(*y);
            w.add_comments(c);
        }
        if !sh.validations.is_empty() {
            let mut list = u::DataValidations::default();
            for (x, y, n) in &sh.validations {
                let mut v = u::DataValidation::default();
                v.set_type(u::DataValidationValues::Whole);
                v.set_operator(u::DataValidationOperatorValues::GreaterThan);
                v.set_formula1(n.to_string());
                v.get_sequence_of_references_mut().set_sqref(addr(*x as usize - 1, *y as usize - 1));
                list.add_data_validation_list(v);
            }
            w.set_data_validations(list);
        }
        for (x, n) in &sh.widths {
            w.get_column_dimension_by_number_mut(x).set_width(f64::from(*n));
        }
        for (y, n) in &sh.heights {
            w.get_row_dimension_mut(y).set_height(f64::from(*n));
        }
        if let Some(m) = &sh.merged {
            w.add_merge_cells(m.clone());
        }
        if sh.hidden {
            w.set_sheet_state("hidden".to_string());
        }
        let on = |i: u8| sh.more >> i & 1 == 1;
        if on(0) {
            w.get_tab_color_mut().set_argb("FF00FF00");
        }
        if on(1) {
            w.set_auto_filter("A1:C4");
        }
        if on(2) || on(3) {
            let mut v = u::SheetView::default();
            if on(2) {
                v.set_zoom_scale(150);
            }
            if on(3) {
                let mut p = u::Pane::default();
                p.set_vertical_split(1.0);
                p.get_top_left_cell_mut().set_coordinate("A2");
                p.set_state(u::PaneStateValues::Frozen);
                v.set_pane(p);
            }
            let views = w.get_sheet_views_mut();
            views.get_sheet_view_list_mut().clear();
            views.add_sheet_view_list_mut(v);
        }
        if on(4) {
            w.get_column_dimension_by_number_mut(&4).set_hidden(true);
        }
        if on(5) {
            w.get_row_dimension_mut(&3).set_hidden(true);
        }
        if on(6) {
            w.get_page_setup_mut().set_orientation(u::OrientationValues::Landscape).set_paper_size(9);
        }
        if on(7) {
            w.get_header_footer_mut().get_odd_header_mut().set_value("a header");
        }
    }
    if c.named {
        let name = sheets[0].name.clone();
        b.get_sheet_mut(&0).unwrap().add_defined_name("total", &format!("'{name}'!$A$1")).unwrap();
        b.get_properties_mut().set_title("the title");
        b.get_properties_mut().set_creator("someone");
    }
    b.set_active_sheet(c.active as u32);
    u::writer::xlsx::write(&b, p).unwrap();
}

fn sqref_of(v: &str) -> &str {
    v.split(' ').next().unwrap_or("")
}

fn check_c17(c: &C17, env: &mut Env) -> Outcome {
    let dir = env.dir();
    let source = c.sheet.source();
    let Some(model) = c.sheet.model() else { return pass(false, &["too big"]) };
    let out = dir.join("out.xlsx");
    old_book(c, &out);
    // what the library itself does not keep is not the compiler's doing
    let noop = dir.join("noop.xlsx");
    let b = u::reader::xlsx::read(&out).unwrap();
    u::writer::xlsx::write(&b, &noop).unwrap();
    let before = u::reader::xlsx::read(&noop).unwrap();
    let whole = snap_book(&before);
    let before: Vec<SheetSnap> = before.get_sheet_collection().iter().map(snap_sheet).collect();
    std::fs::remove_file(&noop).unwrap();
    std::fs::write(dir.join("main.csvpp"), &source).unwrap();
    let o = Opts { safe: c.safe, sheet_name: (!c.default_name).then(|| c.target.clone()), ..Opts::default() };
    let describe = || format!("on sheet {:?} with safe={} for\n{source}", c.target, c.safe);
    let build = || no_panic(|| sut::build(&dir.join("main.csvpp"), &out, &o));
    match build() {
        Ok(Ok(())) => (),
        Ok(Err(e)) => fail!("failed with {} {}", sut::plain(&e), describe()),
        Err(p) => fail!("panic: {p} {}", describe()),
    }
    let book = match u::reader::xlsx::read(&out) {
        Ok(b) => b,
        Err(e) => fail!("the workbook can't be read: {e:?} {}", describe()),
    };
    let after: Vec<SheetSnap> = book.get_sheet_collection().iter().map(snap_sheet).collect();
    // the sheets, in order, with the new one at the end
    let mut names: Vec<&str> = before.iter().map(|s| s.name.as_str()).collect();
    let added = !names.contains(&c.target.as_str());
    if added {
        names.push(&c.target);
    }
    let got: Vec<&str> = after.iter().map(|s| s.name.as_str()).collect();
    if names != got {
        fail!("the sheets are {got:?} rather than {names:?} {}", describe());
    }
    let now = snap_book(&book);
    if now != whole {
        fail!("the workbook changed from {whole:?} to {now:?} {}", describe());
    }
    let empty = SheetSnap::default();
    let mut kept = 0;
    let mut replaced = 0;
    let mut around = 0;
    for s in &after {
        let old = before.iter().find(|b| b.name == s.name).unwrap_or(&empty);
        if s.name != c.target {
            if s != old {
                fail!("sheet {:?} changed from {old:?}\nto {s:?} {}", s.name, describe());
            }
            continue;
        }
        if !added && (s.state != old.state || s.dims != old.dims) {
            fail!("the sheet changed from {} {:?} to {} {:?} {}", old.state, old.dims, s.state, s.dims, describe());
        }
        let w = book.get_sheet_by_name(&c.target).unwrap();
        let has_value = |k: &CellSnap| !k.value.is_empty() || !k.formula.is_empty();
        // compiled cells, and whether they were written
        let mut written = BTreeMap::new();
        for (y, row) in model.iter().enumerate() {
            for (x, cell) in row.iter().enumerate() {
                let was = old.cells.get(&(y, x));
                let now = s.cells.get(&(y, x));
                let mut quirk = false;
                let as_compiled = check_cell(w, x, y, cell, &mut quirk);
                match was {
                    Some(k) if c.safe && has_value(k) => {
                        kept += 1;
                        if now != Some(k) {
                            fail!("{} was {k:?} and is {now:?} {}", addr(x, y), describe());
                        }
                        written.insert((y, x), Some(false));
                    }
                    // (a cell without a value may be kept or written)
                    Some(k) if c.safe && now == Some(k) => {
                        written.insert((y, x), if as_compiled.is_ok() { None } else { Some(false) });
                    }
                    was => {
                        if was.is_some_and(has_value) {
                            replaced += 1;
                        }
                        if let Err(e) = as_compiled {
                            fail!("{} was {was:?}: {e} {}", addr(x, y), describe());
                        }
                        written.insert((y, x), Some(true));
                    }
                }
            }
        }
        let all: BTreeSet<(usize, usize)> = old.cells.keys().chain(s.cells.keys()).copied().collect();
        for (y, x) in all {
            if written.contains_key(&(y, x)) {
                continue;
            }
            around += 1;
            let (was, now) = (old.cells.get(&(y, x)), s.cells.get(&(y, x)));
            if was != now {
                fail!("{} changed from {was:?} to {now:?} {}", addr(x, y), describe());
            }
        }
        if let Some((y, x)) = s.several.difference(&old.several).next() {
            fail!("there are several comments on {} {}", addr(*x, *y), describe());
        }
        // comments: the ones of written cells with a note, and all the others as they were
        let all: BTreeSet<(usize, usize)> = old.comments.keys().chain(s.comments.keys()).copied().chain(written.keys().copied()).collect();
        for k in all {
            let (was, now) = (old.comments.get(&k), s.comments.get(&k));
            let note = model.get(k.0).and_then(|r| r.get(k.1)).and_then(|c| c.style.note.clone()).filter(|n| !n.is_empty());
            let new_ok = now.map(|n| n.1.clone()) == note || (note.is_none() && (was == now || now.map_or(true, |n| n.1.is_empty())));
            let ok = match written.get(&k) {
                Some(Some(true)) => new_ok,
                Some(None) => new_ok || was == now,
                Some(Some(false)) | None => was == now,
            };
            if !ok {
                fail!("the comment of {} changed from {was:?} to {now:?} {}", addr(k.1, k.0), describe());
            }
        }
        // validations
        for v in &old.validations {
            let Some((x, y)) = point(sqref_of(v)) else { continue };
            let rule = model.get(y).and_then(|r| r.get(x)).is_some_and(|c| c.style.rule.is_some());
            let may_go = match written.get(&(y, x)) {
                Some(Some(true) | None) => true,
                Some(Some(false)) | None => false,
            };
            if !s.validations.contains(v) && !may_go {
                fail!("the validation {v} is missing {}", describe());
            }
            if s.validations.contains(v) && rule && written.get(&(y, x)) == Some(&Some(true)) {
                fail!("the old validation {v} is still there besides the new one {}", describe());
            }
        }
        for v in s.validations.difference(&old.validations) {
            let on: Vec<_> = written.iter().filter(|((y, x), _)| covers(sqref_of(v), *x, *y)).collect();
            let ok = on.len() == 1 && *on[0].1 != Some(false) && model[on[0].0 .0][on[0].0 .1].style.rule.is_some();
            if !ok {
                fail!("there is a new validation {v} {}", describe());
            }
        }
        for (k, w) in &written {
            if *w == Some(true) && model[k.0][k.1].style.rule.is_some() && !s.validations.iter().any(|v| covers(sqref_of(v), k.1, k.0)) {
                fail!("{} has no validation {}", addr(k.1, k.0), describe());
            }
        }
    }
    for _ in 1..c.times {
        match build() {
            Ok(Ok(())) => (),
            Ok(Err(e)) => fail!("failed the second time with {} {}", sut::plain(&e), describe()),
            Err(p) => fail!("panic: {p} {}", describe()),
        }
        match read_book(&out) {
            Ok(again) if again == after => (),
            Ok(again) => {
                let i = again.iter().zip(&after).position(|(a, b)| a != b).unwrap_or(0);
                fail!("writing again changed {:?}\nto {:?} {}", after.get(i), again.get(i), describe())
            }
            Err(e) => fail!("after writing again: {e} {}", describe()),
        }
    }
    let files: Vec<String> = sut::snapshot(&dir).into_iter().map(|f| f.0).collect();
    if files != ["main.csvpp", "out.xlsx"] {
        fail!("there are also other files: {files:?} {}", describe());
    }
    let mut tags = vec![if c.safe { "safe" } else { "overwriting" }];
    for (t, n) in [("kept values", kept), ("replaced values", replaced), ("cells around", around), ("sheet added", usize::from(added)), ("other sheets", c.sheets.len() - 1 + usize::from(added))] {
        if n > 0 {
            tags.push(t);
        }
    }
    let _ = shrunk_rows(&c.sheet, &model);
    pass(kept + replaced + around > 0, &tags)
}

// ------------------------------------------------------------------ C18

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C18 {
    sheet: Styled,
    x: u32,
    y: u32,
    safe: bool,
    /// the existing cells, of which 0 is none
    existing: Vec<Vec<u8>>,
}

fn gen_c18(s: &mut Src) -> C18 {
    let mut p = small(s, true);
    let big = s.chance(1, 4);
    if big {
        // sizes around the limit of a request
        let i = s.us(p.rows.len());
        let n = match s.below(5) {
            0 => 1000 - s.below(8) as usize,
            1 => 1000 + s.below(4) as usize,
            2 => s.range(1001, 1500) as usize,
            3 => 2000 - s.below(6) as usize,
            _ => s.range(1, 60) as usize,
        };
        p.rows[i].fill = Fill::Times(n);
        if n > 100 {
            p.rows[i].cells.truncate(2);
        }
    }
    let colors = s.chance(1, 2);
    let max = if s.chance(1, 2) { 0 } else { 4 };
    let sheet = opts::gen_styled(s, p, max, colors, true);
    let off = |s: &mut Src| if s.chance(1, 2) { 0 } else { s.range(1, 7) as u32 };
    let existing = if s.chance(1, 4) {
        vec![]
    } else {
        let n = if big && s.chance(1, 2) { s.range(1, 6) as usize + 998 } else { s.range(1, 10) as usize };
        let cols = if s.chance(1, 12) { 60 } else { 9 };
        (0..n).map(|_| (0..s.below(cols)).map(|_| s.below(6) as u8).collect()).collect()
    };
    C18 { sheet, x: off(s), y: off(s), safe: s.chance(1, 2), existing }
}

fn existing_cell(kind: u8, x: usize, y: usize) -> Value {
    match kind {
        0 => Value::Null,
        1 => json!({"userEnteredValue": {"stringValue": format!("old {x} {y}")}}),
        2 => json!({"userEnteredValue": {"numberValue": (x * 100 + y) as f64 + 0.5}, "userEnteredFormat": {"textFormat": {"bold": true}}, "note": format!("note {y}")}),
        4 => json!({"userEnteredValue": {"boolValue": y % 2 == 0}, "dataValidation": {
            "condition": {"type": "NUMBER_GREATER", "values": [{"userEnteredValue": "5"}]}, "strict": true, "inputMessage": "more", "showCustomUi": true}}),
        5 => json!({"userEnteredValue": {"stringValue": "a é"}, "textFormatRuns": [{"startIndex": 2, "format": {"italic": true}}],
            "userEnteredFormat": {"numberFormat": {"type": "TEXT"}, "borders": {"top": {"style": "DASHED"}}, "padding": {"left": 3}}}),
        _ => json!({"userEnteredValue": {"formulaValue": format!("=A{}", y + 1)}, "userEnteredFormat": {"horizontalAlignment": "RIGHT"}}),
    }
}

fn check_c18(c: &C18, env: &mut Env) -> Outcome {
    let dir = env.dir();
    let source = c.sheet.source();
    let Some(model) = c.sheet.model() else { return pass(false, &["too big"]) };
    std::fs::write(dir.join("main.csvpp"), &source).unwrap();
    let o = Opts { safe: c.safe, x: c.x, y: c.y, ..Opts::default() };
    let describe = || {
        let mut t = source.clone();
        if t.len() > 4000 {
            t = t.chars().take(4000).collect();
        }
        format!("at {},{} with safe={} over {:?} for\n{t}", c.x, c.y, c.safe, c.existing.iter().take(12).collect::<Vec<_>>())
    };
    let existing: Vec<Vec<Value>> =
        c.existing.iter().enumerate().map(|(y, r)| r.iter().enumerate().map(|(x, k)| existing_cell(*k, x, y)).collect()).collect();
    let text = serde_json::to_string(&existing).unwrap();
    let r = no_panic(|| {
        let comp = sut::compiler(&dir.join("main.csvpp"), &dir.join("out.csv"), &o)?;
        let m = comp.compile().map_err(|e| e.to_string())?;
        google_requests(&comp, &m, &text)
    });
    let requests = match r {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => fail!("failed with {} {}", sut::plain(&e), describe()),
        Err(p) => fail!("panic: {p} {}", describe()),
    };
    // expand them
    let mut got: BTreeMap<(i64, i64), Value> = BTreeMap::new();
    for r in &requests {
        for (dy, row) in r.rows.iter().enumerate() {
            for (dx, v) in row.iter().enumerate() {
                if got.insert((r.y + dy as i64, r.x + dx as i64), opts::simplify(v)).is_some() {
                    fail!("{},{} is written twice {}", r.x + dx as i64, r.y + dy as i64, describe());
                }
            }
        }
    }
    let old = |x: i64, y: i64| -> Option<&Value> {
        existing.get(usize::try_from(y).ok()?).and_then(|r| r.get(usize::try_from(x).ok()?)).filter(|v| !v.is_null())
    };
    let (mut kept, mut replaced) = (0, 0);
    for (y, row) in model.iter().enumerate() {
        for (x, cell) in row.iter().enumerate() {
            let at = (y as i64 + i64::from(c.y), x as i64 + i64::from(c.x));
            let want = match old(at.1, at.0) {
                Some(v) if c.safe => {
                    kept += 1;
                    opts::simplify(v)
                }
                o => {
                    replaced += usize::from(o.is_some());
                    opts::google_cell(cell)
                }
            };
            match got.remove(&at) {
                Some(v) if v == want => (),
                v => fail!("column {} row {}: expected\n{want}\nbut have\n{v:?} {}", at.1, at.0, describe()),
            }
        }
    }
    // whatever else is written is what's there anyway
    for ((y, x), v) in &got {
        let was = old(*x, *y).map(opts::simplify).unwrap_or_else(|| json!({}));
        if *v != was {
            fail!("column {x} row {y} is changed from {was} to {v} {}", describe());
        }
    }
    let mut tags = vec![];
    for (t, b) in [
        ("several requests", model.len() > 1000),
        ("offset", c.x + c.y > 0),
        ("kept", kept > 0),
        ("replaced", replaced > 0),
        ("fill", c.sheet.has_fill()),
    ] {
        if b {
            tags.push(t);
        }
    }
    pass(tags.len() > 1, &tags)
}

fn show15(c: &C15) -> Value {
    json!({"source": c.sheet.source(), "sheet": c.name, "extension": c.extension})
}
fn show16(c: &C16) -> Value {
    json!({"source": c.program.write(c.noise), "existing": c.existing, "safe": c.safe, "times": c.times})
}
fn show17(c: &C17) -> Value {
    json!({"source": c.sheet.source(), "sheets": c.sheets, "target": c.target, "safe": c.safe, "times": c.times})
}
fn show18(c: &C18) -> Value {
    json!({"source": c.sheet.source(), "x": c.x, "y": c.y, "safe": c.safe, "existing": c.existing})
}

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![
        Box::new(Def {
            id: "C15",
            quick: 10_000,
            thorough: 100_000,
            rule: "there are cells with options, or cells with values of at least three kinds",
            assumptions: &["workbooks are read with the library which writes them", "the number format of currencies may be any of four with a dollar sign"],
            gen: gen_c15,
            check: check_c15,
            show: show15,
        }),
        Box::new(Def {
            id: "C16",
            quick: 24_000,
            thorough: 250_000,
            rule: "the existing file has a value which differs from the compiled one at the same place, or cells outside of what's compiled",
            assumptions: &["an empty existing cell has no value, so it's written also with --safe"],
            gen: gen_c16,
            check: check_c16,
            show: show16,
        }),
        Box::new(Def {
            id: "C17",
            quick: 4_000,
            thorough: 60_000,
            rule: "the sheet has values which are kept or replaced, or cells outside of what's compiled",
            assumptions: &[
                "what the spreadsheet library loses by reading and writing a workbook is not the compiler's doing",
                "whether an existing cell that is formatted but has no value is written with --safe isn't specified",
                "comments and validations of overwritten cells which have no new ones may stay or go",
            ],
            gen: gen_c17,
            check: check_c17,
            show: show17,
        }),
        Box::new(Def {
            id: "C18",
            quick: 8_000,
            thorough: 60_000,
            rule: "at least two of: more than one request, an offset, kept values, replaced values, a fill",
            assumptions: &["the requests are obtained with a hook and not sent", "an existing cell without a value isn't generated"],
            gen: gen_c18,
            check: check_c18,
            show: show18,
        }),
    ]
}
