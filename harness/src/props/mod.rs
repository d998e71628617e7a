use crate::engine::Prop;

mod lex;
mod syntax;
mod ops;
mod lang;
mod lang2;
mod lib;
mod text;
mod total;
mod proc;
mod files;
pub mod modes;
mod shell;
mod term;
mod names;
mod around;
mod cost;
mod prelude;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(lex::props());
    v.extend(syntax::props());
    v.extend(ops::props());
    v.extend(lang::props());
    v.extend(lang2::props());
    v.extend(lib::props());
    v.extend(text::props());
    v.extend(total::props());
    v.extend(proc::props());
    v.extend(files::props());
    v.extend(modes::props());
    v.extend(shell::props());
    v.extend(term::props());
    v.extend(names::props());
    v.extend(around::props());
    v.extend(prelude::props());
    v.extend(cost::props());
    v
}
