//! C19 (backups) and C21 (the command line), on the process itself
use crate::core::{pass, Def, Env, Outcome, Prop};
use crate::fail;
use crate::src::Src;
use crate::sut::{self, Grid};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{SystemTime, UNIX_EPOCH};
use umya_spreadsheet as u;

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    out: String,
    err: String,
}

impl Ran {
    fn ok(&self) -> bool {
        self.code == Some(0)
    }

    fn text(&self) -> String {
        format!("exit {:?} signal {:?}\n{}{}", self.code, self.signal, sut::plain(&self.out), sut::plain(&self.err))
    }
}

/// a name in which this character stands for a byte that's not UTF-8
const RAW: char = '\u{f8ff}';
fn os(name: &str) -> OsString {
    let mut b = vec![];
    for (i, part) in name.split(RAW).enumerate() {
        if i > 0 {
            b.push(0xff);
        }
        b.extend(part.as_bytes());
    }
    OsString::from_vec(b)
}

fn run(dir: &Path, args: &[String], file_size_limit: Option<u64>) -> Ran {
    let mut c = Command::new(sut::cli());
    c.args(args.iter().map(|a| os(a))).current_dir(dir).stdin(Stdio::null());
    c.env("TZ", "UTC").env("HOME", dir.join("home")).env("NO_COLOR", "1").env_remove("GOOGLE_APPLICATION_CREDENTIALS").env_remove("RUST_LOG");
    if let Some(limit) = file_size_limit {
        unsafe {
            c.pre_exec(move || {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let l = libc::rlimit { rlim_cur: limit, rlim_max: limit };
                if libc::setrlimit(libc::RLIMIT_FSIZE, &l) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
    }
    let o = c.output().expect("running csvpp");
    Ran {
        code: o.status.code(),
        signal: o.status.signal(),
        out: String::from_utf8_lossy(&o.stdout).to_string(),
        err: String::from_utf8_lossy(&o.stderr).to_string(),
    }
}

#[derive(Clone, PartialEq, Debug)]
enum Node {
    Dir,
    File(Vec<u8>),
}

/// everything below `dir`
fn tree(dir: &Path) -> BTreeMap<PathBuf, Node> {
    let mut out = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in fs::read_dir(&d).unwrap().flatten() {
            let p = e.path();
            let rel = p.strip_prefix(dir).unwrap().to_path_buf();
            if p.is_dir() {
                out.insert(rel, Node::Dir);
                todo.push(p);
            } else {
                out.insert(rel, Node::File(fs::read(&p).unwrap_or_default()));
            }
        }
    }
    out
}

/// what was added, and what was changed or removed
fn changes(a: &BTreeMap<PathBuf, Node>, b: &BTreeMap<PathBuf, Node>) -> (Vec<PathBuf>, Vec<PathBuf>) {
    let added = b.keys().filter(|k| !a.contains_key(*k)).cloned().collect();
    let changed = a.iter().filter(|(k, v)| b.get(*k) != Some(v)).map(|(k, _)| k.clone()).collect();
    (added, changed)
}

/// in UTC
fn civil(secs: u64) -> (i64, u64, u64, u64, u64, u64) {
    let days = (secs / 86400) as i64;
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + i64::from(m <= 2);
    let s = secs % 86400;
    (y, m as u64, d as u64, s / 3600, s / 60 % 60, s % 60)
}

/// the timestamps which a backup may have, from the coarsest one
fn stamp(secs: u64, kind: usize) -> String {
    let (y, mo, d, h, mi, s) = civil(secs);
    let (h12, half) = (if h % 12 == 0 { 12 } else { h % 12 }, if h < 12 { "AM" } else { "PM" });
    match kind {
        0 => format!("{y:04}_{mo:02}_{d:02}"),
        1 => format!("{y:04}_{mo:02}_{d:02}-{h12:02}_{mi:02}{half}"),
        _ => format!("{y:04}_{mo:02}_{d:02}-{h12:02}_{mi:02}_{s:02}{half}"),
    }
}

fn now() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs()
}

const VALUES: &[&str] = &["a", "b c", "5", "x,y", "say \"hi\"", "é日本", "two\nlines", "zz", "0.5", "#no"];

fn gen_grid(s: &mut Src, width: usize, height: usize) -> Grid {
    (0..height.max(1)).map(|_| (0..width.max(1)).map(|_| (*s.pick(VALUES)).to_string()).collect()).collect()
}

/// source whose cells are these
fn source_of(g: &Grid) -> String {
    let rows: Vec<String> = g.iter().map(|r| r.iter().map(|c| format!("\"{}\"", c.replace('"', "\"\""))).collect::<Vec<_>>().join(",")).collect();
    format!("---\n{}\n", rows.join("\n"))
}

fn write_xlsx(path: &Path, sheet: &str, g: &Grid) {
    let mut book = u::new_file_empty_worksheet();
    let ws = book.new_sheet(sheet).unwrap();
    fill_sheet(ws, g);
    u::writer::xlsx::write(&book, path).unwrap();
}

fn fill_sheet(ws: &mut u::Worksheet, g: &Grid) {
    for (y, r) in g.iter().enumerate() {
        for (x, v) in r.iter().enumerate() {
            if !v.is_empty() {
                ws.get_cell_mut((x as u32 + 1, y as u32 + 1)).set_value_string(v.clone());
            }
        }
    }
}

/// the values (and formulas) of a sheet
fn read_xlsx(path: &Path, sheet: &str) -> Result<Grid, String> {
    let book = u::reader::xlsx::read(path).map_err(|e| format!("the workbook can't be read: {e:?}"))?;
    let ws = book.get_sheet_by_name(sheet).ok_or_else(|| format!("there's no sheet {sheet:?}"))?;
    let mut out: Grid = vec![];
    for c in ws.get_cell_collection() {
        let (x, y) = (*c.get_coordinate().get_col_num() as usize - 1, *c.get_coordinate().get_row_num() as usize - 1);
        while out.len() <= y {
            out.push(vec![]);
        }
        while out[y].len() <= x {
            out[y].push(String::new());
        }
        out[y][x] = if c.get_formula().is_empty() { c.get_value().to_string() } else { format!("={}", c.get_formula()) };
    }
    Ok(sut::trimmed(out))
}

fn is_excel(ext: &str) -> bool {
    ["xlsx", "xlsm", "xltx", "xltm"].contains(&ext.to_lowercase().as_str())
}

// ------------------------------------------------------------------ C19

#[derive(Clone, Serialize, Deserialize)]
struct Obstacle {
    kind: usize,
    /// seconds after the start
    after: u64,
    dir: bool,
    /// a symbolic link to nothing
    #[serde(default)]
    link: bool,
}

#[derive(Clone, Serialize, Deserialize)]
struct C19 {
    stem: String,
    ext: String,
    /// where the output is: 0 in the working directory, 1 `./`, 2 a directory below, 3 absolute, 4 through `..`
    place: usize,
    /// what is there to start with
    existing: Option<Vec<u8>>,
    existing_grid: Option<Grid>,
    runs: Vec<Grid>,
    obstacles: Vec<Obstacle>,
    safe: bool,
    cache: bool,
    short: bool,
    /// the output is a directory
    is_dir: bool,
    /// how many backups are made at the same time, in the end
    #[serde(default)]
    at_once: usize,
}

const STEMS: &[&str] = &["out", "a.b", "v1.2.3", "日本é", "with space", "100%Y", "{}", "it's", "-dash", ".hidden", "x-2024_01_01", "a..b", "UPPER.csv", "out.xlsx", "tab\there", "trailing."];

fn gen_c19(s: &mut Src) -> C19 {
    let ext = (*s.pick(&["csv", "csv", "csv", "CSV", "xlsx", "xlsm"])).to_string();
    let mut stem = (*s.pick(STEMS)).to_string();
    if s.chance(1, 12) {
        stem = "l".repeat(*s.pick(&[200, 236, 238, 239, 240, 241, 245, 251]) as usize);
    }
    let mut existing = None;
    let mut existing_grid = None;
    let (w, h) = (s.us(3) + 1, s.us(4) + 1);
    match s.below(8) {
        0 => (),
        1 => existing = Some((0..s.us(200)).map(|_| s.below(256) as u8).collect()),
        2 => existing = Some(vec![]),
        _ => existing_grid = Some(gen_grid(s, w, h)),
    }
    // a large one, which isn't copied at once
    if let Some(g) = &mut existing_grid {
        if s.chance(1, 20) {
            g.extend((0..3000).map(|i| vec![format!("a longer value {i}"), "z".repeat(20)]));
        }
    }
    let runs = (0..s.us(5) + 1)
        .map(|_| {
            let (w, h) = (s.us(3) + 1, s.us(3) + 1);
            gen_grid(s, w, h)
        })
        .collect();
    let mut obstacles: Vec<Obstacle> = vec![];
    let all = s.us(4);
    for kind in 0..all {
        for after in if kind == 2 { 0..30 } else { 0..1 } {
            let (dir, link) = (s.chance(1, 8), s.chance(1, 8));
            obstacles.push(Obstacle { kind, after, dir, link });
        }
        if kind == 1 {
            obstacles.push(Obstacle { kind, after: 60, dir: false, link: false });
        }
    }
    C19 { stem, ext, place: s.us(5), existing, existing_grid, runs, obstacles, safe: s.chance(1, 3), cache: s.chance(1, 3), short: s.chance(1, 2), is_dir: s.chance(1, 40), at_once: if s.chance(1, 3) { s.us(4) + 2 } else { 0 } }
}

fn check_c19(c: &C19, env: &mut Env) -> Outcome {
    let dir = env.dir();
    fs::create_dir(dir.join("sub")).unwrap();
    fs::create_dir(dir.join("home")).unwrap();
    let name = format!("{}.{}", c.stem, c.ext);
    let (arg, rel) = match c.place {
        0 => (name.clone(), PathBuf::from(&name)),
        1 => (format!("./{name}"), PathBuf::from(&name)),
        2 => (format!("sub/{name}"), PathBuf::from(format!("sub/{name}"))),
        3 => (dir.join(&name).to_string_lossy().to_string(), PathBuf::from(&name)),
        _ => (format!("sub/../{name}"), PathBuf::from(&name)),
    };
    let output = dir.join(&rel);
    // (the file's name is too long for any file)
    if name.len() > 255 {
        return pass(false, &["too long"]);
    }
    if c.is_dir {
        fs::create_dir(&output).unwrap();
    } else if let Some(b) = &c.existing {
        fs::write(&output, b).unwrap();
    } else if let Some(g) = &c.existing_grid {
        if is_excel(&c.ext) {
            write_xlsx(&output, "main", g);
        } else {
            fs::write(&output, sut::write_csv(g)).unwrap();
        }
    }
    let start = now();
    let parent = rel.parent().unwrap_or(Path::new("")).to_path_buf();
    for o in &c.obstacles {
        let p = dir.join(&parent).join(format!("{}-{}.{}", c.stem, stamp(start + o.after, o.kind), c.ext));
        if p.to_string_lossy().rsplit('/').next().unwrap_or("").len() > 255 || p.exists() {
            continue;
        }
        if o.dir {
            fs::create_dir(&p).unwrap();
        } else if o.link {
            let _ = std::os::unix::fs::symlink("linked", &p);
        } else {
            fs::write(&p, format!("in the way {} {}", o.kind, o.after)).unwrap();
        }
    }
    // other files, with similar names
    for n in [
        format!("{}-2023_01_01.{}", c.stem, c.ext),
        format!("{}.bak", c.stem),
        "notes.txt".into(),
        format!("{}.xlsxtmp", c.stem),
        format!("{}.tmp", c.stem),
        format!("{name}.tmp"),
        format!("{name}~"),
        ".csvpp-0.tmp".into(),
    ] {
        if n.len() <= 255 && !dir.join(&parent).join(&n).exists() {
            fs::write(dir.join(&parent).join(&n), "precious").unwrap();
        }
    }
    let mut copies = 0;
    for (i, g) in c.runs.iter().enumerate() {
        fs::write(dir.join("main.csvpp"), source_of(g)).unwrap();
        let before = tree(&dir);
        let mut args: Vec<String> = vec![if c.short { "-b" } else { "--backup" }.into(), format!("--output-filename={arg}")];
        if c.safe {
            args.push("--safe".into());
        }
        if !c.cache {
            args.push("--no-cache".into());
        }
        args.push("main.csvpp".into());
        let from = now();
        let r = run(&dir, &args, None);
        let to = now();
        let after = tree(&dir);
        let about = || format!("run {} of {args:?}: {}\nbefore {:?}\nafter  {:?}", i + 1, r.text(), before.keys().collect::<Vec<_>>(), after.keys().collect::<Vec<_>>());
        if r.signal.is_some() || r.err.contains("panicked") || r.code == Some(101) {
            fail!("it panicked or was killed: {}", about());
        }
        let (added, changed) = changes(&before, &after);
        let added: Vec<&PathBuf> = added.iter().filter(|p| p.extension().is_none_or(|e| e != "csvpo")).collect();
        let changed: Vec<&PathBuf> = changed.iter().filter(|p| p.extension().is_none_or(|e| e != "csvpo")).collect();
        if let Some(other) = changed.iter().find(|p| ***p != rel) {
            fail!("{other:?} was changed: {}", about());
        }
        let previous = before.get(&rel).cloned();
        let backups: Vec<&&PathBuf> = added.iter().filter(|p| ***p != rel).collect();
        for b in &backups {
            let file = b.file_name().unwrap().to_string_lossy().to_string();
            let ok = b.parent() == Some(&parent)
                && file.strip_prefix(&format!("{}-", c.stem)).and_then(|t| t.strip_suffix(&format!(".{}", c.ext))).is_some_and(|t| {
                    (from..=to).any(|s| t.starts_with(&stamp(s, 0)))
                        // a time, if there is one, is the present
                        && (t.len() == 10 || (from..=to).any(|s| t == stamp(s, 1) || t == stamp(s, 2) || t.starts_with(stamp(s, 2).trim_end_matches(['A', 'P', 'M']))))
                });
            if !ok {
                fail!("{b:?} was added: {}", about());
            }
            if Some(&after[**b]) != previous.as_ref() {
                fail!("the backup {b:?} differs from what the output was: {}", about());
            }
        }
        let long = c.stem.len() > 200;
        if r.ok() {
            let Some(Node::File(_)) = after.get(&rel) else { fail!("there's no output: {}", about()) };
            if previous.is_some() && backups.len() != 1 {
                fail!("{} backups were made: {}", backups.len(), about());
            }
            copies += backups.len();
            if c.is_dir {
                fail!("it succeeded although the output is a directory: {}", about());
            }
            // the new content
            if !c.safe {
                let got = if is_excel(&c.ext) { read_xlsx(&output, "main") } else { sut::read_csv(&fs::read_to_string(&output).unwrap_or_default()) };
                match got {
                    Ok(got) if g.iter().enumerate().all(|(y, r)| r.iter().enumerate().all(|(x, v)| got.get(y).and_then(|r| r.get(x)) == Some(v))) => (),
                    got => fail!("the output is {got:?} rather than {g:?}: {}", about()),
                }
            }
        } else {
            if changed.iter().any(|p| **p == rel) || added.iter().any(|p| **p == rel) {
                fail!("it failed, but wrote the output: {}", about());
            }
            let unreadable = c.existing.is_some() || c.is_dir;
            if previous.is_some() && !long && !unreadable {
                fail!("it failed: {}", about());
            }
            if backups.len() > 1 {
                fail!("{} backups were made: {}", backups.len(), about());
            }
            copies += backups.len();
        }
    }
    let before = tree(&dir);
    if let (Some(previous @ Node::File(_)), true) = (before.get(&rel), c.at_once > 0) {
        let ready = std::sync::Barrier::new(c.at_once);
        let done: Vec<Result<(), String>> = std::thread::scope(|t| {
            let running: Vec<_> = (0..c.at_once)
                .map(|_| {
                    t.spawn(|| {
                        let compiler = sut::compiler(&dir.join("main.csvpp"), &output, &sut::Opts { backup: true, ..Default::default() });
                        ready.wait();
                        let compiler = compiler?;
                        let target = compiler.target().map_err(|e| e.to_string())?;
                        target.write_backup().map_err(|e| e.to_string())
                    })
                })
                .collect();
            running.into_iter().map(|r| r.join().unwrap_or_else(|_| Err("it panicked".into()))).collect()
        });
        let (added, changed) = changes(&before, &tree(&dir));
        let made = done.iter().filter(|d| d.is_ok()).count();
        if !changed.is_empty() {
            fail!("{} backups at the same time changed {changed:?}", c.at_once);
        }
        let after = tree(&dir);
        if added.len() != made || added.iter().any(|a| after.get(a) != Some(previous)) {
            fail!("{} backups at the same time ({done:?}) made {added:?} (lengths {:?})", c.at_once, added.iter().map(|a| match &after[a] { Node::File(f) => f.len(), Node::Dir => 0 }).collect::<Vec<_>>());
        }
        copies += made;
    }
    let mut tags = vec![if is_excel(&c.ext) { "excel" } else { "csv" }];
    if !c.obstacles.is_empty() {
        tags.push("names taken");
    }
    if c.is_dir || c.stem.len() > 200 {
        tags.push("backup may fail");
    }
    pass(copies > 0, &tags)
}

// ------------------------------------------------------------------ C21

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
enum Source {
    /// a grid of values and, at the end, of the value of a variable
    Valid,
    /// the text is this, which isn't accepted
    Bad(String),
    /// it requires a module which isn't there
    MissingModule,
    BadModule,
    /// there's no such file
    Missing,
    NotUtf8,
    Directory,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
enum Existing {
    None,
    Grid(Grid),
    /// which can't be read as what the extension says
    Garbage,
    Directory,
}

#[derive(Clone, Serialize, Deserialize)]
struct C21 {
    source: Source,
    grid: Grid,
    /// name without the directory
    output: String,
    /// a directory which has to exist, or doesn't
    output_dir: String,
    existing: Existing,
    safe: bool,
    backup: bool,
    no_cache: bool,
    verbose: usize,
    sheet: Option<String>,
    input: String,
    key_values: Vec<String>,
    /// further arguments, with which it has to fail
    wrong: Vec<String>,
    no_output: bool,
    /// long names of options, and `=` between them and values
    style: u64,
    limit: Option<u64>,
    again: bool,
    /// it requires a module
    #[serde(default)]
    module: bool,
}

const BAD: &[&str] = &[
    "a := 1 +\n---\nb", "---\n=1 + ~\n", "---\n[[t=q]]x\n", "---\n\"a\"b,c\n", "fn f(a) a\n---\n\"=f(1, 2)\"\n", "fn f(a) a\n---\n=f()\n",
    "---\n![[fill]]a\n![[fill]]b\n", "a := 1\n=\n---\n", "---\n[[t=b\n", "use\n---\n", "fn f(a a\n---\n", "---\nx,\"=SUM(1\",y\n",
];

const WRONG: &[&[&str]] = &[
    &["--nonsense"],
    &["-g", "someid"],
    &["--google-sheet-id", "not/ok"],
    &["-q"],
    &["another.csvpp"],
    &["-vvvvv"],
    &["-x", "no"],
    &["-y", "-1"],
    &["--x-offset=99999999999999"],
    &["-k=nothing"],
    &["-k=a=1 2"],
    &["-k=a=("],
    &["-k=a"],
    &["-k=b=~"],
    &["--safe=maybe"],
    &["-o", "twice.csv"],
];

const GOOGLE: &[&[&str]] = &[
    &["-g", "an_Id-1"],
    &["-g", "1BxiMVs0XRA5nFMdKvBdBZjgmUUqptlbs74OgvE2upms-x_Y"],
    &["-g", "a-b"],
    &["-g", "_"],
    &["--google-sheet-id=x", "--google-account-credentials", "absent.json"],
    &["-g", "x", "--google-account-credentials=notes.txt"],
    &["-g", "x", "--google-account-credentials", "creds.json"],
    &["-g", "x", "-g", "y"],
    &["-g", ""],
];

fn gen_c21(s: &mut Src) -> C21 {
    let source = match s.below(10) {
        0 => Source::Bad((*s.pick(BAD)).to_string()),
        1 => s.pick(&[Source::MissingModule, Source::BadModule, Source::Missing, Source::NotUtf8, Source::Directory]).clone(),
        _ => Source::Valid,
    };
    let (w, h) = (s.us(3) + 1, s.us(4) + 1);
    let mut grid = gen_grid(s, w, h);
    if s.chance(1, 12) {
        grid = (0..2000).map(|i| vec![format!("row {i}"), "x".repeat(10)]).collect();
    }
    let output = (*s.pick(&[
        "out.csv", "out.csv", "out.csv", "out.csv", "out.xlsx", "out.xlsx", "OUT.CSV", "my.out.csv", "é 日本.csv", "out.XLSX", "t.xltx", "m.xlsm", "out.txt", "out", ".csv", "out.csvpp", "out.csv.bak", "out.", "out.ods", "main.csv",
        "out.Csv", "Out.cSV", "out.Xlsx", "a.xLSX", "t.Xltm", "out.xls", ".xlsx", "out.csv ", "out.\u{f8ff}", "o\u{f8ff}.csv", "o\u{f8ff}.xlsx",
    ]))
    .to_string();
    let existing = match s.below(12) {
        0..=4 => Existing::None,
        5 => Existing::Garbage,
        6 => Existing::Directory,
        _ => {
            let (w, h) = (s.us(4) + 1, s.us(5) + 1);
            Existing::Grid(gen_grid(s, w, h))
        }
    };
    let mut wrong = vec![];
    if s.chance(1, 8) {
        wrong = s.pick(WRONG).iter().map(|x| (*x).to_string()).collect();
    }
    let no_output = wrong.is_empty() && s.chance(1, 25);
    if no_output && s.chance(2, 3) {
        // there's no network, and there are no credentials
        wrong = s.pick(GOOGLE).iter().map(|x| (*x).to_string()).collect();
    }
    let key_values = (0..if s.chance(1, 20) { s.range(4, 20) as usize } else { s.len(3) })
        .map(|i| {
            let v = *s.pick(&["1", "-2.5", "true", "\"te xt\"", "A1", "B2:C3", "other", "1 + 2", "foo(1, 2)", "\"a=b\"", "50%", "\"é\""]);
            format!("v{}={v}", i)
        })
        .collect();
    let backup = s.chance(1, 5) && !output.contains(RAW);
    C21 {
        source,
        grid,
        output,
        output_dir: (*s.pick(&["", "", "", "./", "sub/", "sub/../", "missing/", "notes.txt/"])).to_string(),
        existing,
        safe: s.chance(1, 3),
        backup,
        no_cache: s.chance(1, 2),
        verbose: *s.pick(&[0, 0, 0, 1, 2, 3, 4]),
        sheet: if s.chance(1, 3) { Some((*s.pick(&["Tab", "My Sheet", "日本", "x", "Sheet1"])).to_string()) } else { None },
        input: (*s.pick(&["main.csvpp", "main.csvpp", "./main.csvpp", "sub/main.csvpp", "/main.csvpp", "my prog.csvpp", "Budget_2.csvpp", "data.csv", "noext", "prog.txt", "prog.csvpo", "sub/prog.csvpo"])).to_string(),
        key_values,
        wrong,
        no_output,
        style: s.below(1 << 16),
        limit: if s.chance(1, 15) { Some(*s.pick(&[0, 1, 100, 1000, 4096, 8192, 20000])) } else { None },
        again: s.chance(1, 4),
        module: s.chance(1, 2),
    }
}

/// what's written for a variable with this value
fn written(v: &str) -> String {
    match v {
        "1 + 2" => "=(1 + 2)".into(),
        "true" => "=TRUE".into(),
        v => format!("={v}"),
    }
}

struct Run21 {
    args: Vec<String>,
    input: PathBuf,
    output: PathBuf,
    sheet: String,
}

fn arguments(c: &C21, dir: &Path) -> Run21 {
    let input_arg = if let Some(n) = c.input.strip_prefix('/') { dir.join(n).to_string_lossy().to_string() } else { c.input.clone() };
    let input = dir.join(c.input.trim_start_matches('/'));
    let output_arg = format!("{}{}", c.output_dir, c.output);
    let output = match c.output_dir.as_str() {
        "sub/" | "missing/" | "notes.txt/" => dir.join(os(&output_arg)),
        _ => dir.join(os(&c.output)),
    };
    let mut bits = c.style;
    let mut pick = || {
        let b = bits & 1 == 1;
        bits >>= 1;
        b
    };
    // an option and it's value
    let mut opt = |short: &str, long: &str, v: Option<&str>| -> Vec<String> {
        let name = if short.is_empty() || pick() { long } else { short };
        match v {
            None => vec![name.to_string()],
            Some(v) if pick() => vec![format!("{name}={v}")],
            Some(v) => vec![name.to_string(), v.to_string()],
        }
    };
    let mut parts: Vec<Vec<String>> = vec![];
    if !c.no_output {
        parts.push(opt("-o", "--output-filename", Some(&output_arg)));
    }
    if c.safe {
        parts.push(opt("-s", "--safe", None));
    }
    if c.backup {
        parts.push(opt("-b", "--backup", None));
    }
    if c.no_cache {
        parts.push(opt("", "--no-cache", None));
    }
    if c.verbose > 0 {
        parts.push(vec![format!("-{}", "v".repeat(c.verbose))]);
    }
    if let Some(n) = &c.sheet {
        parts.push(opt("-n", "--sheet-name", Some(n)));
    }
    let separate = pick();
    let first = pick();
    if pick() {
        parts.reverse();
    }
    let mut args: Vec<String> = parts.concat();
    if first {
        args.insert(0, input_arg.clone());
    } else {
        args.push(input_arg);
    }
    // these take any number of values, so they're at the end
    if !c.key_values.is_empty() {
        if separate {
            for kv in &c.key_values {
                args.extend(["-k".to_string(), kv.clone()]);
            }
        } else {
            args.push("--key-values".into());
            args.extend(c.key_values.iter().cloned());
        }
    }
    args.extend(c.wrong.iter().cloned());
    let stem = input.file_stem().unwrap().to_string_lossy().to_string();
    Run21 { args, input, output, sheet: c.sheet.clone().unwrap_or(stem) }
}

fn check_c21(c: &C21, env: &mut Env) -> Outcome {
    let dir = env.dir();
    fs::create_dir(dir.join("sub")).unwrap();
    fs::create_dir(dir.join("home")).unwrap();
    fs::write(dir.join("notes.txt"), "precious").unwrap();
    fs::write(dir.join("creds.json"), "{\"type\": \"service_account\"}").unwrap();
    for place in ["", "sub"] {
        for n in [".csvpp-0.tmp", "out.xlsxtmp", "out.tmp", "out.csv.tmp", "out.xlsx.tmp", "out.csv~"] {
            if c.style & 0x8000 == 0 {
                fs::write(dir.join(place).join(n), "precious").unwrap();
            }
        }
    }
    fs::write(dir.join("sub/other.csvpp"), "x := 1\n---\n").unwrap();
    let r = arguments(c, &dir);
    // the source
    let mut expected = c.grid.clone();
    let mut text = source_of(&c.grid);
    if !c.key_values.is_empty() {
        let names: Vec<String> = c.key_values.iter().map(|kv| kv.split('=').next().unwrap().to_string()).collect();
        text.push_str(&names.iter().map(|n| format!("={n}")).collect::<Vec<_>>().join(","));
        text.push('\n');
        expected.push(c.key_values.iter().map(|kv| written(kv.split_once('=').unwrap().1)).collect());
    }
    if c.module && c.source != Source::Missing && c.source != Source::Directory {
        text = format!("use lib_x\n{text}=lib_var\n");
        fs::write(r.input.with_file_name("lib_x.csvpp"), "lib_var := 7\n---\n").unwrap();
        expected.push(vec!["=7".into()]);
    }
    // all rows are as wide as the widest
    let width = expected.iter().map(Vec::len).max().unwrap_or(0);
    match &c.source {
        Source::Valid => fs::write(&r.input, &text).unwrap(),
        Source::Bad(t) => fs::write(&r.input, t).unwrap(),
        Source::MissingModule => fs::write(&r.input, format!("use absent\n{text}")).unwrap(),
        Source::BadModule => {
            fs::write(&r.input, format!("use broken\n{text}")).unwrap();
            fs::write(r.input.with_file_name("broken.csvpp"), "a := :=\n---\n").unwrap();
        }
        Source::Missing => (),
        Source::NotUtf8 => fs::write(&r.input, b"---\na,\xff\xfe,b\n").unwrap(),
        Source::Directory => fs::create_dir(&r.input).unwrap(),
    }
    // the output
    let ext = Path::new(&os(&c.output)).extension().map_or(String::new(), |e| e.to_string_lossy().to_lowercase());
    let dir_exists = !matches!(c.output_dir.as_str(), "missing/" | "notes.txt/");
    let supported = ext == "csv" || is_excel(&ext);
    let mut old: Grid = vec![];
    if dir_exists && !r.output.exists() {
        match &c.existing {
            Existing::None => (),
            Existing::Directory => fs::create_dir(&r.output).unwrap(),
            Existing::Garbage => fs::write(&r.output, b"\xff\xfe garbage \x00,\"").unwrap(),
            Existing::Grid(g) => {
                old = g.clone();
                if is_excel(&ext) {
                    write_xlsx(&r.output, &r.sheet, g);
                } else {
                    fs::write(&r.output, sut::write_csv(g)).unwrap();
                }
            }
        }
    }
    let readable = matches!(c.existing, Existing::None | Existing::Grid(_));
    let backup_ok = !c.backup || matches!(c.existing, Existing::Grid(_));
    let should = c.source == Source::Valid && c.wrong.is_empty() && !c.no_output && supported && dir_exists && readable && backup_ok;
    let before = tree(&dir);
    let ran = run(&dir, &r.args, c.limit);
    let after = tree(&dir);
    let about = || format!("csvpp {:?}: {}\nbefore {:?}\nafter  {:?}\n--- source\n{}", r.args, ran.text(), before.keys().collect::<Vec<_>>(), after.keys().collect::<Vec<_>>(), text.chars().take(300).collect::<String>());
    let object = |p: &Path| p.extension().is_some_and(|e| e == "csvpo");
    let crashed = ran.signal.is_some() || ran.code == Some(101) || ran.err.contains("panicked");
    let rel = r.output.strip_prefix(&dir).unwrap().to_path_buf();
    let (added, changed) = changes(&before, &after);
    if crashed {
        fail!("it crashed: {}", about());
    }
    // nothing else is touched, whatever happens
    let stem = Path::new(&c.output).file_stem().map_or(String::new(), |s| s.to_string_lossy().to_string());
    for p in changed.iter().chain(&added) {
        let is_backup = c.backup && added.contains(p) && p.file_name().is_some_and(|n| n.to_string_lossy().starts_with(&format!("{stem}-"))) && Some(&after[p]) == before.get(&rel);
        let cached = object(p) && !c.no_cache && added.contains(p);
        let partial_backup = c.backup && c.limit.is_some() && added.contains(p);
        if *p != rel && !is_backup && !cached && !partial_backup {
            fail!("{p:?} was changed or added: {}", about());
        }
    }
    let touched = changed.contains(&rel) || added.contains(&rel);
    if !ran.ok() {
        if should && c.limit.is_none() {
            fail!("it failed: {}", about());
        }
        if ran.err.trim().is_empty() && ran.out.trim().is_empty() {
            fail!("it failed without an error: {}", about());
        }
        if touched && !(should && c.limit.is_some()) {
            fail!("it failed, but wrote the output: {}", about());
        }
        // whether an id is made of letters only doesn't matter
        if let [flag, id] = &c.wrong[..] {
            if flag == "-g" && c.verbose == 0 && c.source == Source::Valid && id.contains(['-', '_']) && id.chars().all(|c| c.is_ascii_alphanumeric() || "-_".contains(c)) {
                let plain = id.replace(['-', '_'], "x");
                let args: Vec<String> = r.args.iter().map(|a| if a == id { plain.clone() } else { a.clone() }).collect();
                let other = run(&dir, &args, None);
                if other.err.replace(&plain, id) != ran.err || other.code != ran.code {
                    fail!("it's different with the id {plain}: {}\n{}", other.text(), about());
                }
            }
        }
        let tag = if c.limit.is_some() && should {
            "the disk is full"
        } else if c.source != Source::Valid {
            "the source is rejected"
        } else if !c.wrong.is_empty() || c.no_output || !supported {
            "the arguments are rejected"
        } else {
            "the output can't be written"
        };
        return pass(true, &[tag]);
    }
    if !should {
        fail!("it succeeded: {}", about());
    }
    // what was written
    let want: Grid = if is_excel(&ext) || c.safe {
        let height = expected.len().max(old.len());
        let w = width.max(old.iter().map(Vec::len).max().unwrap_or(0));
        (0..height)
            .map(|y| {
                (0..w)
                    .map(|x| {
                        let new = expected.get(y).and_then(|r| r.get(x));
                        let was = old.get(y).and_then(|r| r.get(x)).filter(|v| !v.is_empty());
                        match (new, was) {
                            (_, Some(o)) if c.safe => o.clone(),
                            (Some(n), _) => n.clone(),
                            (None, Some(o)) => o.clone(),
                            (None, None) => String::new(),
                        }
                    })
                    .collect()
            })
            .collect()
    } else {
        (0..expected.len())
            .map(|y| (0..width).map(|x| expected[y].get(x).or_else(|| old.get(y).and_then(|r| r.get(x))).cloned().unwrap_or_default()).collect())
            .collect()
    };
    let want = sut::trimmed(want);
    let read = || -> Result<Grid, String> {
        if is_excel(&ext) {
            read_xlsx(&r.output, &r.sheet)
        } else {
            let b = fs::read(&r.output).map_err(|e| e.to_string())?;
            Ok(sut::trimmed(sut::read_csv(&String::from_utf8(b).map_err(|e| e.to_string())?)?))
        }
    };
    match read() {
        Ok(got) if same_values(&got, &want, is_excel(&ext)) => (),
        Ok(got) => fail!("the output is not what it should be: {}\n{}", sut::diff(&got, &want), about()),
        Err(e) => fail!("the output can't be read ({e}): {}", about()),
    }
    if c.no_cache && added.iter().any(|p| object(p)) {
        fail!("an object file was written with --no-cache: {}", about());
    }
    if c.backup && !added.iter().any(|p| Some(&after[p]) == before.get(&rel)) {
        fail!("no backup was made: {}", about());
    }
    if c.again {
        // a second time, possibly from the cache
        let second = run(&dir, &r.args, None);
        if !second.ok() {
            fail!("it failed the second time: {}\n{}", second.text(), about());
        }
        match read() {
            Ok(got) if same_values(&got, &want, is_excel(&ext)) => (),
            Ok(got) => fail!("the output differs the second time: {}\n{}", sut::diff(&got, &want), about()),
            Err(e) => fail!("the output can't be read the second time ({e}): {}", about()),
        }
    }
    let mut tags = vec![if is_excel(&ext) { "writes excel" } else { "writes csv" }];
    if matches!(c.existing, Existing::Grid(_)) {
        tags.push(if c.safe { "merged safely" } else { "merged" });
    }
    if !c.key_values.is_empty() {
        tags.push("key values");
    }
    pass(true, &tags)
}

/// (a formula which is only a value is written as that value to a workbook, which C15 is about)
fn same_values(a: &Grid, b: &Grid, excel: bool) -> bool {
    if !excel {
        return a == b;
    }
    let value = |v: &String| {
        let v = v.strip_prefix('=').unwrap_or(v);
        let v = v.strip_prefix('"').and_then(|v| v.strip_suffix('"')).unwrap_or(v);
        if v == "50%" { "0.5".to_string() } else { v.to_string() }
    };
    let norm = |g: &Grid| -> Grid { g.iter().map(|r| r.iter().map(value).collect()).collect() };
    norm(a) == norm(b)
}

fn show<C: Serialize>(c: &C) -> Value {
    let v = json!(c);
    let s = v.to_string();
    if s.len() > 3000 {
        json!(s.chars().take(3000).collect::<String>())
    } else {
        v
    }
}

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![
        Box::new(Def::<C19> {
            id: "C19",
            quick: 4_000,
            thorough: 60_000,
            rule: "at least one backup was made",
            assumptions: &["nothing else writes to the directory meanwhile", "the clock isn't set back"],
            gen: gen_c19,
            check: check_c19,
            show: show::<C19>,
        }),
        Box::new(Def::<C21> {
            id: "C21",
            quick: 10_000,
            thorough: 150_000,
            rule: "every run of the command counts: its exit code, what it printed and all files are compared with what is expected",
            assumptions: &["no network, so that Google Sheets can't be written to", "a failure of writing the output itself may leave it incomplete"],
            gen: gen_c21,
            check: check_c21,
            show: show::<C21>,
        }),
    ]
}
