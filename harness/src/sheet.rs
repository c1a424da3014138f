//! The model of a spreadsheet section: rows with fills, and cells which can define variables
use crate::opts::brackets;
use crate::lang::{self, csv_field, Def, EvalErr, Expr, Layout, Place, Scope};
use crate::sut::Grid;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fill {
    No,
    Times(usize),
    Rest,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Content {
    Text(String),
    Formula(Expr),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CellM {
    pub var: Option<String>,
    pub content: Content,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct RowM {
    pub fill: Fill,
    pub var: Option<String>,
    pub cells: Vec<CellM>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Program {
    pub defs: Vec<Def>,
    pub rows: Vec<RowM>,
}

pub const ROWS_MAX: usize = 1000;

impl Program {
    /// how many rows an infinite fill has (none if there's more than one)
    pub fn rest(&self) -> Option<usize> {
        let n = self.rows.iter().filter(|r| r.fill == Fill::Rest).count();
        if n > 1 {
            return None;
        }
        let others: usize = self
            .rows
            .iter()
            .map(|r| match r.fill {
                Fill::No => 1,
                Fill::Times(n) => n,
                Fill::Rest => 0,
            })
            .sum();
        Some(ROWS_MAX.saturating_sub(others))
    }

    /// for each row of the source, the rows (from..to) which it's expanded to
    pub fn spans(&self) -> Vec<(usize, usize)> {
        let rest = self.rest().unwrap_or(0);
        let mut y = 0;
        self.rows
            .iter()
            .map(|r| {
                let n = match r.fill {
                    Fill::No => 1,
                    Fill::Times(n) => n,
                    Fill::Rest => rest,
                };
                y += n;
                (y - n, y)
            })
            .collect()
    }

    pub fn places(&self) -> Vec<(String, Place)> {
        let mut v = vec![];
        for (r, (from, to)) in self.rows.iter().zip(self.spans()) {
            if from == to {
                continue;
            }
            let filled = r.fill != Fill::No;
            if let Some(n) = &r.var {
                v.push((n.clone(), if filled { Place::FillRow { from, to } } else { Place::Row { y: from } }));
            }
            for (x, c) in r.cells.iter().enumerate() {
                if let Some(n) = &c.var {
                    v.push((n.clone(), if filled { Place::FillCell { x, from, to } } else { Place::Cell { x, y: from } }));
                }
            }
        }
        v
    }

    pub fn scope(&self) -> Scope {
        let mut s = Scope::default();
        for d in &self.defs {
            s.define(d);
        }
        s.places = self.places().into_iter().collect();
        s
    }

    /// what each cell has in the end
    pub fn eval(&self, scope: &Scope) -> Result<Grid, EvalErr> {
        let mut g = vec![];
        for (r, (from, to)) in self.rows.iter().zip(self.spans()) {
            for y in from..to {
                g.push(
                    r.cells
                        .iter()
                        .map(|c| {
                            Ok(match &c.content {
                                Content::Text(t) => t.clone(),
                                Content::Formula(e) => format!("={}", scope.eval(e, y)?.canon()),
                            })
                        })
                        .collect::<Result<Vec<_>, _>>()?,
                );
            }
        }
        Ok(g)
    }

    pub fn write_rows(&self, noise: u64) -> String {
        self.write_rows_styled(noise, &|_, _, _| vec![])
    }

    /// with further options of the row (if there's no column) or cell
    pub fn write_rows_styled(&self, noise: u64, more: &dyn Fn(usize, Option<usize>, &mut Layout) -> Vec<String>) -> String {
        let mut out = String::new();
        for (y, r) in self.rows.iter().enumerate() {
            let mut l = Layout::new(if noise == 0 { 0 } else { crate::src::mix(noise, y as u64) }, true, false);
            let mut opts = vec![];
            match r.fill {
                Fill::No => (),
                Fill::Times(n) => opts.push(format!("{}={n}", if l.below(2) == 0 { "fill" } else { "f" })),
                Fill::Rest => opts.push((if l.below(2) == 0 { "fill" } else { "f" }).to_string()),
            }
            if let Some(v) = &r.var {
                opts.push(format!("{}={v}", if l.below(2) == 0 { "var" } else { "v" }));
            }
            opts.extend(more(y, None, &mut l));
            if l.below(6) == 1 {
                out.push_str("# a comment, \"which is\" =ignored\n");
            }
            for (x, c) in r.cells.iter().enumerate() {
                let mut f = String::new();
                if x == 0 && !opts.is_empty() {
                    f.push_str(&format!("!{}", brackets(opts.clone(), &mut l)));
                }
                let mut own = more(y, Some(x), &mut l);
                if let Some(v) = &c.var {
                    own.push(format!("{}={v}", if l.below(2) == 0 { "var" } else { "v" }));
                }
                if !own.is_empty() {
                    if x == 0 && !opts.is_empty() && l.below(6) == 1 {
                        f.push(' ');
                    }
                    f.push_str(&brackets(own, &mut l));
                }
                if !f.is_empty() && l.below(4) == 1 {
                    f.push(' ');
                }
                match &c.content {
                    Content::Text(t) => f.push_str(t),
                    Content::Formula(e) => f.push_str(&format!("={}{}{}", l.tight(), lang::write_expr(e, &mut l), l.tight())),
                }
                if x > 0 {
                    out.push(',');
                    if l.below(5) == 1 {
                        out.push_str("  ");
                    }
                    // formulas can be continued on the next line
                    if l.below(8) == 1 {
                        out.push_str("\\\n  ");
                    }
                }
                // (blank lines at the start are skipped, and so is an empty field at the very end)
                let quote = l.below(4) == 1 || (f.is_empty() && x + 1 == r.cells.len());
                out.push_str(&csv_field(&f, quote));
            }
            out.push('\n');
        }
        out
    }

    pub fn write(&self, noise: u64) -> String {
        self.write_with(&[], noise)
    }

    pub fn write_with(&self, uses: &[String], noise: u64) -> String {
        self.write_styled(uses, noise, &|_, _, _| vec![])
    }

    pub fn write_styled(&self, uses: &[String], noise: u64, more: &dyn Fn(usize, Option<usize>, &mut Layout) -> Vec<String>) -> String {
        let mut out = self.write_rows_styled(noise, more);
        let mut end = Layout::new(if noise == 0 { 0 } else { crate::src::mix(noise, 1 << 20) }, true, false);
        match end.below(8) {
            1 => out.push_str("# the end\n"),
            2 => out.push_str("# the end, \"really"),
            // (an empty field at the very end wouldn't be one)
            3 if !out.ends_with(",\n") && !out.ends_with("\n\n") => {
                out.pop();
            }
            _ => (),
        }
        let rows = out;
        if self.defs.is_empty() && uses.is_empty() && noise % 3 == 0 {
            return rows;
        }
        let mut l = Layout::new(noise, true, true);
        let head = match l.below(12) {
            1 => "\n",
            2 => "# ---\n",
            3 => "\t\n  \n",
            _ => "",
        };
        let defs = lang::write_defs(uses, &self.defs, &mut l);
        let (a, b) = match l.below(10) {
            1 => (" ", ""),
            2 => ("", "  "),
            3 => ("\t", "\t "),
            _ => ("", ""),
        };
        format!("{head}{defs}{a}---{b}\n{rows}")
    }
}
