//! C04: whatever the source is, compiling it ends, and without a panic
use super::program::{gen_program, Shape};
use crate::core::{pass, Def, Env, Outcome, Prop};
use crate::fail;
use crate::src::Src;
use crate::sut;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::fs;

#[derive(Clone, Serialize, Deserialize)]
struct C04 {
    kind: String,
    main: String,
    /// `lib.csvpp`
    lib: Option<String>,
    key_values: Vec<String>,
    /// bytes to overwrite (which might leave it without being UTF-8)
    bytes: Vec<(usize, u8)>,
    /// how deep to nest a formula (only for the known finding)
    #[serde(default)]
    deep: usize,
}

const CHARS: &[&str] = &[
    "a", "f", "x", "A", "1", "0", "9", "é", "日", "😀", "\u{301}", "\u{a0}", "\u{feff}", "\u{2028}", " ", "\t", "\n", "\r\n", "\r", "\0", ",", "\"", "'", "(",
    ")", "[", "]", "[[", "]]", "![[", "!", "#", "\\", "\\\n", "/", "%", "=", ":=", ":", "+", "-", "*", "^", "&", "<", ">", "<>", "$", ".", "_", "{", "}", "|",
    "~", "`", "@", "?", ";", "---", "\n---\n", "fn ", "use ", "1e9", "0x1", "1.", ".5", "''", "\"\"", "%%",
];

const CODE_TOKENS: &[&str] = &[
    "fn", "use", "foo", "bar", "lib", "a", "b", ":=", ":=", "(", ")", "(", ")", ",", "+", "-", "*", "/", "^", "&", "=", "<>", "<=", ">=", "<", ">", "%", "\n",
    "\n", "# c\n", "1", "2.5", "99999999999999999999999", "1.7976931348623157e999", "-1", "+-+1", "\"text\"", "\"", "\"\"", "'x'", "true", "false", "TRUE", "A1", "A1:B2",
    "$C$3", "1:2", "A:A", "Sheet1!A1", "'My Sheet'!A1", "été", "日本", "STDEV.P(", "sum(", "foo(", "bar(", "IF(", "fn foo(a, b)", "fn bar() ", "foo :=", "bar :=", "!", "{1;2}",
    "#REF!", "ZZZZZZ99999999999", ".", "..", "1.2.3",
];

const OPTION_TOKENS: &[&str] = &[
    "![[", "[[", "]]", "]]", "[", "]", "=", "=", " ", "/", "b", "border", "bc", "bordercolor", "bs", "borderstyle", "c", "color", "dv", "validate", "f", "fill", "fc", "ff", "fs",
    "fontsize", "ha", "halign", "l", "lock", "n", "note", "nf", "t", "text", "v", "var", "va", "w", "wrap", "all", "top", "none", "bold", "u", "#fff", "#FFFFFF", "#é12", "#12", "12",
    "256", "-1", "3", "'a note'", "'it''s'", "'", "'é'", "'\\'", "(", ")", ",", "date_gt(", "date_between(", "1/2/2020", "13/45/99", "2020-01-01", "99/99/9999", "12:30:00", "num_btwn(",
    "in_list(", "in_range(", "A1", "A1:B2", "custom(", "is_date", "text_eq(", "foo", "var=foo", "f=3", "fill=2", "\n", ",", "=foo", "=SUM(A1)", "x", "=", "=(", "b=all", "dv=", "nf=currency",
    "fs=12", "t=b", "bc=#f00", "n='x'", "validate=in_list(1 2 'x')", "\u{301}",
];

fn tokens(s: &mut Src, of: &[&str], max: usize) -> String {
    let n = s.len(max);
    let mut out = String::new();
    for _ in 0..n {
        let t: &str = *s.pick(of);
        out.push_str(t);
        if s.chance(1, 2) {
            out.push(' ');
        }
    }
    out
}

/// don't let a fill be too large to be tried
fn limit_fills(t: &str) -> String {
    let mut out = String::new();
    let mut digits = 0;
    let mut value = 0;
    let mut after_equals = false;
    for c in t.chars() {
        if c.is_ascii_digit() && after_equals {
            digits += 1;
            value = (value * 10 + c.to_digit(10).unwrap()).min(100_000);
            if digits > 4 || (digits == 4 && value > 1200) {
                continue;
            }
        } else {
            digits = 0;
            value = 0;
            after_equals = c == '=' || (after_equals && (c.is_whitespace() || c == '\'' || c == '"' || c == '\\' || c == '+'));
        }
        out.push(c);
    }
    out
}

/// operators and parentheses in one formula are limited
fn limit_nesting(t: &str) -> String {
    let mut depth = 0;
    let mut ops = 0;
    let mut out = String::new();
    for c in t.chars() {
        match c {
            '(' => {
                depth += 1;
                if depth > 60 {
                    continue;
                }
            }
            ')' => depth = (depth - 1i32).max(0),
            '+' | '-' | '*' | '/' | '^' | '&' | '=' | '<' | '>' | '%' => {
                ops += 1;
                if ops > 2000 {
                    continue;
                }
            }
            _ => (),
        }
        out.push(c);
    }
    out
}

fn mutate(s: &mut Src, text: &str, other: &str) -> String {
    let mut c: Vec<char> = text.chars().collect();
    let o: Vec<char> = other.chars().collect();
    for _ in 0..s.range(1, 4) {
        let at = s.us(c.len() + 1);
        let n = s.range(1, 8) as usize;
        let to = (at + n).min(c.len());
        match s.below(9) {
            0 => {
                c.drain(at..to);
            }
            8 => {
                let x = s.pick(CHARS).repeat(s.wide(8, 60, 400, 8));
                c.splice(at..at, x.chars());
            }
            1 => {
                let x: Vec<char> = s.pick(CHARS).chars().collect();
                c.splice(at..at, x);
            }
            2 => {
                let x: Vec<char> = s.pick(CHARS).chars().collect();
                c.splice(at..to, x);
            }
            3 => {
                let x = c[at..to].to_vec();
                c.splice(at..at, x);
            }
            4 => {
                let b = s.us(c.len() + 1);
                let e = (b + n).min(c.len());
                let x = c[b..e].to_vec();
                c.splice(at..at, x);
            }
            5 if !o.is_empty() => {
                let b = s.us(o.len());
                let e = (b + 4 * n).min(o.len());
                c.splice(at..at, o[b..e].to_vec());
            }
            6 => c.truncate(at),
            _ => {
                let x: Vec<char> = s.pick(OPTION_TOKENS).chars().collect();
                c.splice(at..at, x);
            }
        }
    }
    c.into_iter().collect()
}

const EXAMPLES: &[&str] = &[
    "[[b=all bc=#ff0000 bs=dashed]]x,[[c=#abc fc=#012345 ff=Arial fs=12]]y,[[ha=center va=top w=wrap]]z\n",
    "![[fill=3 t=bold]][[n='a note' l]]x,[[var=q]]=q + 1\n",
    "[[dv=date_between(1/2/2020 3/4/2021)]],[[dv=in_list(1 2.5 'x' foo)]],[[dv=in_range(A1:B2)]],[[dv=custom('=A1 > 2')]]\n",
    "[[dv=date_after(2020-01-02)]],[[dv=num_btwn(1 2)]],[[dv=is_date]],[[validate=text_contains('é')]]\n",
    "\"=foo(\"\"x\"\", 1)\",\\\n  =bar,=1 + 2 * -3%\n# comment\n=A1:B2,=$C$3\n",
    "foo := 1\nfn bar(a, b) a + b * foo\nuse lib\n---\n=bar(1, 2),=foo\n",
    "use lib\nuse nothing\n---\n=x\n",
];

/// cycles of definitions, of several lengths
fn rings(s: &mut Src) -> String {
    let (mut defs, mut cells, mut all) = (vec![], vec![], 1);
    for r in 0..s.range(1, 3) {
        let n = s.range(1, 24) as usize;
        all *= n;
        if r > 0 && all > 200 {
            break;
        }
        let function = s.chance(1, 3);
        for i in 0..n {
            let next = format!("r{r}_{}", (i + 1) % n);
            let with = if s.chance(1, 6) { " + 1" } else { "" };
            defs.push(if function { format!("fn r{r}_{i}(x) {next}(x{with})\n") } else { format!("r{r}_{i} := {next}{with}\n") });
        }
        cells.push(if function { format!("r{r}_0(2)") } else { format!("r{r}_{}", s.us(n)) });
    }
    if s.chance(1, 3) {
        defs.reverse();
    }
    let fill = if s.chance(1, 6) { "![[fill=2]]" } else { "" };
    format!("{}---\n{fill}={}\n", defs.concat(), cells.join(" + "))
}

/// definitions which refer to each other in any way
fn cyclic(s: &mut Src) -> String {
    if s.chance(1, 3) {
        return rings(s);
    }
    let n = s.range(1, 4) as usize;
    let mut out = String::new();
    let base = *s.pick(&["v", "v", "name_"]);
    let name = |i: u64| format!("{base}{i}");
    for i in 0..n {
        let term = |s: &mut Src| match s.below(4) {
            0 => "1".to_string(),
            1 => name(s.below(n as u64)),
            2 => format!("{}({})", name(s.below(n as u64)), name(s.below(n as u64))),
            _ => format!("SUM({})", name(s.below(n as u64))),
        };
        let (a, b) = (term(s), term(s));
        if s.chance(1, 2) {
            let param = *s.pick(&["x", "v0", "v1", "name_0"]);
            out.push_str(&format!("fn {base}{i}({param}) {a} + {b}\n"));
        } else {
            out.push_str(&format!("{base}{i} := {a} + {b}\n"));
        }
    }
    out.push_str("---\n");
    for _ in 0..s.range(1, 3) {
        let cell = *s.pick(&["=~0", "=~0,=~1", "=~1", "=~0(1)", "=~2(1)", "=~0(~1)", "[[var=~2]]=~2", "![[fill=2 var=~1]]", "![[fill=2]]=~1", "[[dv=in_list(~0 1)]]x"]);
        out.push_str(&cell.replace('~', base));
        out.push('\n');
    }
    out
}

/// fills around the most rows there can be, and what refers to them
fn fills(s: &mut Src) -> String {
    let mut out = String::new();
    for _ in 0..s.range(1, 5) {
        let n = *s.pick(&["", "", "=0", "=1", "=2", "=500", "=998", "=999", "=1000", "=1001", "=1200"]);
        let var = *s.pick(&["", " var=v0", " var=v1"]);
        let cell = *s.pick(&["a", "=v0", "=v1 + v0", "[[var=v2]]x,=v2", "[[v=v0]]=v0", ""]);
        match s.below(4) {
            0 => out.push_str(&format!("{cell},=v1\n")),
            _ => out.push_str(&format!("![[{}{n}{var}]]{cell},=v0\n", s.pick(&["fill", "f"]))),
        }
    }
    out
}

/// much more of something than usual
fn long(s: &mut Src) -> String {
    const UNITS: &[&str] = &[
        "a,", ",", "a\n", "\n", "# c\n", "\\\n", " ", "\t", "é", "😀", "x", "0", "\"\"", "\"a\",", "[[t=b]]x,", "[[n='é']]\n", "![[f]]\n", "![[f=2]]=foo\n", "=foo,", "=1 & 2,", "b=b ", "foo + ",
        "foo := 1\n", "use lib\n", "fn foo(a) a\n", "a, ", "1 2 ", "'x' ", "foo(", ")", "-", "%", ":", "]", "[", "\r\n",
    ];
    let unit: &str = *s.pick(UNITS);
    let n = (*s.pick(&[20, 27, 99, 100, 101, 128, 256, 257, 703, 999, 1000, 1001, 1024, 2000]) + s.us(3)).min(if s.chance(1, 40) { 20_000 } else { 3000 });
    let wrap = *s.pick(&[
        ("", "\n---\n=foo\n"), ("---\n", ""), ("", ""), ("foo := \"", "\"\n---\n=foo"), ("foo := ", "1\n---\n=foo"), ("---\n=quux(", "1)\n"), ("---\n[[n='", "' t=b]]x\n"),
        ("---\n[[dv=in_list(", ")]]\n"), ("fn foo(", "b) b\n---\n=foo(1)\n"), ("x := 1\n---\n", "=~\n"), ("", "x := ~\n---\n"), ("---\n\"", "\",=1 + ~\n"), ("---\n[[var=", "]]1,=foo\n"),
        ("---\n[[c=", "]]x\n"), ("---\n[[b=x ", " ]]x\n"), ("---\n=1 + ", " (\n"), ("foo := )", "\n---\n"), ("---\n\"a\" ", "\n"), ("---\n[[dv=date_after(", ")]]\n"),
    ]);
    let mut out = format!("{}{}{}", wrap.0, unit.repeat(n), wrap.1);
    if s.chance(1, 3) {
        // which all refer to the one before
        let defs: String = (0..n).map(|i| if i == 0 { "w_0_ := 1\n".into() } else { format!("w_{i}_ := w_{}_\n", i - 1) }).collect();
        let n = n.min(300);
        let defs = if n < 300 { defs } else { defs.lines().take(n).map(|l| format!("{l}\n")).collect() };
        out = format!("{defs}---\n=w_{}_,{unit}\n", n - 1);
    }
    out
}

fn gen_source(s: &mut Src) -> (String, String) {
    let program = |s: &mut Src| {
        let shape = Shape { vars: 3, fns: 2, rows: 3, cols: 3, depth: 2, fills: true, cell_vars: true, text_cells: true, max_fill: 3 };
        let p = gen_program(s, &shape);
        let noise = s.below(1 << 30);
        let t = p.write(noise);
        if s.chance(1, 2) {
            format!("{t}{}", s.pick(EXAMPLES))
        } else {
            t
        }
    };
    match s.weighted(&[2, 3, 4, 6, 2, 1, 1]) {
        0 => ("characters".into(), {
            let n = s.len(40);
            (0..n).map(|_| *s.pick(CHARS)).collect()
        }),
        1 => ("tokens of code".into(), {
            let code = tokens(s, CODE_TOKENS, 24);
            if s.chance(2, 3) {
                format!("{code}\n---\n={}", tokens(s, CODE_TOKENS, 12))
            } else {
                format!("={code}")
            }
        }),
        2 => ("tokens of options".into(), {
            let head = if s.chance(1, 3) { "foo := 1\n---\n" } else { "" };
            let start = *s.pick(&["", "[[", "![["]);
            format!("{head}{start}{}", tokens(s, OPTION_TOKENS, 24))
        }),
        3 => ("a mutated program".into(), {
            let t = if s.chance(1, 3) { (*s.pick(EXAMPLES)).to_string() } else { program(s) };
            let o = if s.chance(1, 2) { (*s.pick(EXAMPLES)).to_string() } else { String::new() };
            mutate(s, &t, &o)
        }),
        4 => ("definitions which refer to each other".into(), cyclic(s)),
        5 => ("fills".into(), fills(s)),
        _ => ("much of something".into(), long(s)),
    }
}

fn gen_c04(s: &mut Src) -> C04 {
    let (kind, main) = gen_source(s);
    let lib = if s.chance(1, 3) || (main.contains("use lib") && s.chance(3, 4)) { Some(gen_source(s).1) } else { None };
    let main = if lib.is_some() && !main.contains("use lib") && main.contains("---") { format!("use lib\n{main}") } else { main };
    let key_values = if s.chance(1, 6) {
        (0..s.range(1, 2))
            .map(|_| {
                let v = tokens(s, CODE_TOKENS, 5);
                if s.chance(3, 4) { format!("{}={v}", s.pick(&["foo", "v0", "bar", "", "été"])) } else { v }
            })
            .collect()
    } else {
        vec![]
    };
    let bytes = if s.chance(1, 20) { vec![(s.us(main.len() + 1), s.below(256) as u8)] } else { vec![] };
    let clean = |t: String| limit_nesting(&limit_fills(&t));
    C04 { kind, main: clean(main), lib: lib.map(clean), key_values, bytes, deep: 0 }
}

fn check_c04(c: &C04, env: &mut Env) -> Outcome {
    let d = env.dir();
    let mut main = c.main.clone().into_bytes();
    if c.deep > 0 {
        main = format!("={}1{}", "(".repeat(c.deep), ")".repeat(c.deep)).into_bytes();
    }
    for (at, b) in &c.bytes {
        if let Some(x) = main.get_mut(*at) {
            *x = *b;
        }
    }
    let input = d.join("main.csvpp");
    fs::write(&input, &main).unwrap();
    if let Some(l) = &c.lib {
        fs::write(d.join("lib.csvpp"), l).unwrap();
    }
    let o = sut::Opts { key_values: c.key_values.clone(), ..Default::default() };
    let mut tags = vec![c.kind.as_str()];
    let compiler = match sut::compiler(&input, &d.join("out.csv"), &o) {
        Ok(c) => c,
        Err(e) => return shown(&e, &["rejected (command line)"]),
    };
    let module = match compiler.compile() {
        Ok(m) => m,
        Err(e) => {
            tags.push("rejected");
            return shown(&e.to_string(), &tags);
        }
    };
    tags.push("compiles");
    let _ = module.to_string();
    if let Err(e) = compiler.target().and_then(|t| t.write(&module)) {
        let _ = e.to_string();
        tags.push("not written");
    }
    if let Err(e) = csvpp::verif::google_sheets_batch_update(&compiler, &module, "[]") {
        let _ = e.to_string();
    }
    let cells: usize = module.spreadsheet.rows.iter().map(|r| r.cells.len()).sum();
    if cells < 4000 {
        match sut::compiler(&input, &d.join("out.xlsx"), &o) {
            Ok(excel) => {
                if let Err(e) = excel.target().and_then(|t| t.write(&module)) {
                    let _ = e.to_string();
                }
            }
            Err(e) => fail!("only rejected for excel: {e}"),
        }
    }
    pass(true, &tags)
}

fn shown(e: &str, tags: &[&str]) -> Outcome {
    if e.trim().is_empty() {
        fail!("it's rejected with an empty message");
    }
    pass(true, tags)
}

fn show(c: &C04) -> Value {
    json!({"main": c.main, "lib": c.lib, "key_values": c.key_values, "bytes": c.bytes, "deep": c.deep})
}

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Def::<C04> {
        id: "C04",
        quick: 60_000,
        thorough: 3_000_000,
        rule: "all (distinct sources)",
        assumptions: &[
            "parentheses are nested at most 60 deep and there are at most 2000 operators (see the known finding)",
            "fills have at most 1200 rows, and definitions expand to what fits into memory",
        ],
        gen: gen_c04,
        check: check_c04,
        show,
    })]
}
