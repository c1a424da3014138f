use crate::core::Prop;
mod csv;
mod errors;
mod process;
mod fuzz;
pub mod modules;
pub mod formula;
pub mod options;
pub mod program;
mod target;

pub fn all() -> Vec<Box<dyn Prop>> {
    let mut v = vec![];
    v.extend(csv::all());
    v.extend(formula::all());
    v.extend(program::all());
    v.extend(fuzz::all());
    v.extend(modules::all());
    v.extend(options::all());
    v.extend(target::all());
    v.extend(errors::all());
    v.extend(process::all());
    v
}
