//! Driving the real compiler, and independent readers of what it writes
use csvpp::{CliArgs, Compiler, Module};
use std::fs;
use std::path::{Path, PathBuf};
use std::time::{Duration, SystemTime};

#[derive(Clone, Debug, Default)]
pub struct Opts {
    pub key_values: Vec<String>,
    pub cache: bool,
    pub safe: bool,
    pub backup: bool,
    pub sheet_name: Option<String>,
    pub x: u32,
    pub y: u32,
}

pub fn args(input: &Path, output: &Path, o: &Opts) -> CliArgs {
    CliArgs {
        backup: o.backup,
        google_account_credentials: None,
        google_sheet_id: None,
        input_filename: input.to_path_buf(),
        key_values: o.key_values.clone(),
        no_cache: !o.cache,
        output_filename: Some(output.to_path_buf()),
        safe: o.safe,
        sheet_name: o.sheet_name.clone(),
        verbose: 0,
        x_offset: o.x,
        y_offset: o.y,
    }
}

pub fn compiler(input: &Path, output: &Path, o: &Opts) -> Result<Compiler, String> {
    Compiler::try_from(&args(input, output, o)).map_err(|e| e.to_string())
}

pub fn compile_file(input: &Path, o: &Opts) -> Result<Module, String> {
    compiler(input, Path::new("out.csv"), o)?.compile().map_err(|e| e.to_string())
}

/// compile `source` as the only module
pub fn compile(dir: &Path, source: &str) -> Result<Module, String> {
    compile_with(dir, source, &Opts::default())
}

pub fn compile_with(dir: &Path, source: &str, o: &Opts) -> Result<Module, String> {
    let f = dir.join("main.csvpp");
    fs::write(&f, source).unwrap();
    compile_file(&f, o)
}

/// compile and write to `output`
pub fn build(input: &Path, output: &Path, o: &Opts) -> Result<(), String> {
    let c = compiler(input, output, o)?;
    let m = c.compile().map_err(|e| e.to_string())?;
    let t = c.target().map_err(|e| e.to_string())?;
    if o.backup {
        t.write_backup().map_err(|e| e.to_string())?;
    }
    t.write(&m).map_err(|e| e.to_string())
}

pub type Grid = Vec<Vec<String>>;

/// the value of each cell, as it's written to a csv file
pub fn grid(m: &Module) -> Grid {
    m.spreadsheet.rows.iter().map(|r| r.cells.iter().map(|c| c.to_string()).collect()).collect()
}

pub fn trimmed(mut g: Grid) -> Grid {
    for r in &mut g {
        while r.last().is_some_and(|c| c.is_empty()) {
            r.pop();
        }
    }
    while g.last().is_some_and(|r| r.is_empty()) {
        g.pop();
    }
    g
}

/// A strict reader of comma separated values (RFC 4180): records end with `\n` or `\r\n`, a field is
/// either entirely quoted or has no quotes at all
pub fn read_csv(s: &str) -> Result<Grid, String> {
    let mut rows = vec![];
    let mut row = vec![];
    let mut it = s.chars().peekable();
    if s.is_empty() {
        return Ok(rows);
    }
    loop {
        let mut field = String::new();
        if it.peek() == Some(&'"') {
            it.next();
            loop {
                match it.next() {
                    None => return Err("unterminated quote".into()),
                    Some('"') if it.peek() == Some(&'"') => {
                        it.next();
                        field.push('"');
                    }
                    Some('"') => break,
                    Some(c) => field.push(c),
                }
            }
            match it.peek() {
                None | Some(',' | '\n' | '\r') => (),
                Some(c) => return Err(format!("{c:?} after a closing quote")),
            }
        } else {
            while let Some(c) = it.peek() {
                match c {
                    ',' | '\n' | '\r' => break,
                    '"' => return Err("quote inside an unquoted field".into()),
                    c => field.push(*c),
                }
                it.next();
            }
        }
        row.push(field);
        match it.next() {
            Some(',') => continue,
            Some('\r') => {
                if it.next() != Some('\n') {
                    return Err("carriage return without newline".into());
                }
                rows.push(std::mem::take(&mut row));
            }
            Some('\n') => rows.push(std::mem::take(&mut row)),
            None => {
                rows.push(std::mem::take(&mut row));
                return Ok(rows);
            }
            Some(c) => return Err(format!("unexpected {c:?}")),
        }
        if it.peek().is_none() {
            return Ok(rows);
        }
    }
}

pub fn write_csv(g: &Grid) -> String {
    let mut out = String::new();
    for r in g {
        for (i, c) in r.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            if c.contains([',', '"', '\n', '\r']) {
                out.push_str(&format!("\"{}\"", c.replace('"', "\"\"")));
            } else {
                out.push_str(c);
            }
        }
        out.push('\n');
    }
    out
}

/// set a file's modification time to a whole number of ticks after a fixed point
pub fn set_mtime(p: &Path, tick: u64) {
    set_mtime_in(p, tick, 10_000_000_000);
}

/// with ticks of so many nanoseconds
pub fn set_mtime_in(p: &Path, tick: u64, unit: u64) {
    let t = SystemTime::UNIX_EPOCH + Duration::from_secs(1_600_000_000) + Duration::from_nanos(tick * unit);
    let f = if p.is_dir() { fs::File::open(p) } else { fs::File::options().write(true).open(p) };
    f.unwrap().set_modified(t).unwrap();
}

pub fn write_files(dir: &Path, files: &[(String, String)]) {
    for (n, c) in files {
        fs::write(dir.join(n), c).unwrap();
    }
}

/// every file below `dir` with it's content
pub fn snapshot(dir: &Path) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = fs::read_dir(dir)
        .unwrap()
        .filter_map(|e| {
            let p = e.ok()?.path();
            if p.is_file() {
                Some((p.file_name()?.to_string_lossy().to_string(), fs::read(&p).ok()?))
            } else {
                None
            }
        })
        .collect();
    v.sort();
    v
}

pub fn diff(a: &Grid, b: &Grid) -> String {
    for y in 0..a.len().max(b.len()) {
        let (ra, rb) = (a.get(y), b.get(y));
        if ra != rb {
            return format!("row {}: {ra:?} vs {rb:?}", y + 1);
        }
    }
    "no difference".into()
}

/// the csvpp binary which is built next to this one
pub fn cli() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("csvpp")
}

/// strip terminal colors
pub fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            for c in it.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}
