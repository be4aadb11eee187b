//! C03, C04, C10-C14, C18-C23, C26: the command line and the code it generates, end to end.
mod batch;
mod command;
mod faults;
mod lexers;
mod names;
mod order;
mod parsers;
mod table;
use mccore::run::{main_with, Ctx};

static CHECKS: &[(&str, &str, fn(&Ctx))] = &[
    ("C03", "model_checking", lexers::c03),
    ("C04", "model_checking", lexers::c04),
    ("C10", "model_checking", parsers::c10),
    ("C11", "model_checking", parsers::c11),
    ("C12", "model_checking", parsers::c12),
    ("C13", "model_checking", parsers::c13),
    ("C14", "model_checking", parsers::c14),
    ("C18", "model_checking", command::c18),
    ("C19", "model_checking", command::c19),
    ("C20", "model_checking", table::c20),
    ("C21", "model_checking", parsers::c21),
    ("C22", "model_checking", order::c22),
    ("C23", "model_checking", faults::c23),
    ("C26", "model_checking", names::c26),
];
fn main() {
    main_with(CHECKS)
}
