//! Shared machinery of the model-checking harness: exhaustive enumerators, reference models
//! (grammars, LR/LL automata, regular expressions, lexers), the check runner and the driver of
//! the lapex command line. Nothing in here depends on a lapex crate.
pub mod cfg;
pub mod cli;
pub mod families;
pub mod lexref;
pub mod lr;
pub mod regex;
pub mod run;
pub mod spec;
pub mod trace;
