//! Reference tokenizer: longest viable prefix, then highest precedence.
use crate::regex::{lit, product, Ast, Product};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
    pub name: String,
    pub prec: Option<u16>,
    pub literal: Option<String>,
    pub ast: Ast,
}

impl Tok {
    pub fn lit(name: &str, s: &str) -> Tok {
        Tok { name: name.into(), prec: None, literal: Some(s.into()), ast: lit(s) }
    }
    pub fn re(name: &str, ast: Ast) -> Tok {
        Tok { name: name.into(), prec: None, literal: None, ast }
    }
    pub fn with(mut self, p: u16) -> Tok {
        self.prec = Some(p);
        self
    }
    pub fn precedence(&self) -> usize {
        match (self.prec, &self.literal) {
            (Some(p), _) => p as usize,
            (None, Some(l)) => 2 * l.chars().count(),
            (None, None) => self.ast.precedence(),
        }
    }
    pub fn decl(&self) -> String {
        let p = self.prec.map(|p| format!("[{}]", p)).unwrap_or_default();
        match &self.literal {
            Some(l) => format!("token {}{} = \"{}\";", self.name, p, l),
            None => format!("token {}{} = /{}/;", self.name, p, self.ast.regex()),
        }
    }
}

pub struct LexModel {
    pub toks: Vec<Tok>,
    pub product: Product,
    /// winning token of each state, or Err(tied tokens, precedence)
    pub winner: Vec<Option<Result<usize, (Vec<usize>, usize)>>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Lexeme {
    /// token index, start and end in characters
    Tok(usize, usize, usize),
    Eof(usize),
    Err(usize),
}

impl LexModel {
    pub fn new(toks: &[Tok]) -> LexModel {
        let asts: Vec<&Ast> = toks.iter().map(|t| &t.ast).collect();
        let product = product(&asts);
        let winner = product
            .accept
            .iter()
            .map(|acc| {
                let best = acc.iter().map(|i| toks[*i].precedence()).max()?;
                let top: Vec<usize> = acc.iter().copied().filter(|i| toks[*i].precedence() == best).collect();
                Some(if top.len() == 1 { Ok(top[0]) } else { Err((top, best)) })
            })
            .collect();
        LexModel { toks: toks.to_vec(), product, winner }
    }
    /// Groups of tokens that tie on some string.
    pub fn ties(&self) -> Vec<(Vec<usize>, usize)> {
        let mut v: Vec<_> = self.winner.iter().filter_map(|w| w.as_ref().and_then(|r| r.as_ref().err().cloned())).collect();
        v.sort();
        v.dedup();
        v
    }
    pub fn nullable(&self) -> bool {
        !self.product.accept[0].is_empty()
    }
    /// Lexemes up to and including the first end-of-file or error.
    pub fn run(&self, text: &[char]) -> Vec<Lexeme> {
        let mut out = Vec::new();
        let mut i = 0;
        loop {
            if i == text.len() {
                out.push(Lexeme::Eof(i));
                return out;
            }
            let mut st = 0;
            let mut j = i;
            while j < text.len() {
                let n = self.product.next[st][self.product.class(text[j] as u32)];
                if !self.product.alive[n] {
                    break;
                }
                st = n;
                j += 1;
            }
            match &self.winner[st] {
                Some(Ok(t)) if j > i => {
                    out.push(Lexeme::Tok(*t, i, j));
                    i = j;
                }
                _ => {
                    out.push(Lexeme::Err(i));
                    return out;
                }
            }
        }
    }
}

fn chars_ast(v: &[Ast]) -> Vec<Ast> {
    v.to_vec()
}

/// All patterns of exactly `size` nodes over the given leaves.
pub fn asts(size: usize, leaves: &[Ast], reps: &[(u32, Option<u32>)]) -> Vec<Ast> {
    if size == 0 {
        return vec![];
    }
    if size == 1 {
        return chars_ast(leaves);
    }
    let mut out = Vec::new();
    for p in asts(size - 1, leaves, reps) {
        for (n, m) in reps {
            out.push(Ast::Rep(Box::new(p.clone()), *n, *m));
        }
    }
    for a in 1..size - 1 {
        let b = size - 1 - a;
        if b == 0 {
            continue;
        }
        for p in asts(a, leaves, reps) {
            for q in asts(b, leaves, reps) {
                out.push(Ast::Seq(vec![p.clone(), q.clone()]));
                out.push(Ast::Alt(vec![p.clone(), q]));
            }
        }
    }
    out
}
