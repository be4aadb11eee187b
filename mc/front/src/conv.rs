//! What the readers under test return, in the terms of the reference models.
use crate::refread::P;
use lapex_input::{Characters, Pattern, ProductionPattern};
use mccore::regex::{product, Ast};

pub fn prod(p: &ProductionPattern) -> P {
    match p {
        ProductionPattern::Sequence { elements } => P::Seq(elements.iter().map(prod).collect()),
        ProductionPattern::Alternative { elements } => P::Alt(elements.iter().map(prod).collect()),
        ProductionPattern::OneOrMany { inner } => P::Plus(Box::new(prod(inner))),
        ProductionPattern::ZeroOrMany { inner } => P::Star(Box::new(prod(inner))),
        ProductionPattern::Optional { inner } => P::Opt(Box::new(prod(inner))),
        ProductionPattern::Rule { rule_name } => P::Name(rule_name.to_string()),
        ProductionPattern::Epsilon => P::Eps,
    }
}

fn chars(c: &Characters) -> (char, char) {
    match c {
        Characters::Single(c) => (*c, *c),
        Characters::Range(a, b) => (*a, *b),
    }
}

pub fn regex(p: &Pattern) -> Ast {
    match p {
        Pattern::Sequence { elements } => Ast::Seq(elements.iter().map(regex).collect()),
        Pattern::Alternative { elements } => Ast::Alt(elements.iter().map(regex).collect()),
        Pattern::Repetition { min, max, inner } => Ast::Rep(Box::new(regex(inner)), *min, *max),
        Pattern::CharSet { chars: c, negated } => Ast::Class(c.iter().map(chars).collect(), *negated),
        Pattern::Char { chars: c } => {
            let (a, b) = chars(c);
            if a == b {
                Ast::Chr(a)
            } else {
                Ast::Class(vec![(a, b)], false)
            }
        }
    }
}

/// Explores the product of both derivative automata; a string on which they differ, if any. Also the states explored.
pub fn differ(a: &Ast, b: &Ast) -> (usize, usize, Option<String>) {
    if a == b {
        return (1, 0, None);
    }
    let p = product(&[a, b]);
    let n = p.accept.len();
    for s in 0..n {
        if p.accept[s].len() == 1 {
            let w: String = p.access[s].iter().filter_map(|c| char::from_u32(*c)).collect();
            return (n, n * p.starts.len(), Some(format!("{:?} ({})", w, if p.accept[s][0] == 0 { "denoted by the regex, not by what was read" } else { "matched by what was read, not denoted by the regex" })));
        }
    }
    (n, n * p.starts.len(), None)
}
