//! Grammar specifications as written by a user: tokens, EBNF productions, tags, entry.
use crate::cfg::{Bnf, Sym};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Pat {
    T(u16),
    N(u16),
    Seq(Vec<Pat>),
    Alt(Vec<Pat>),
    Opt(Box<Pat>),
    Star(Box<Pat>),
    Plus(Box<Pat>),
    Eps,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Prod {
    pub nt: u16,
    pub tag: Option<String>,
    pub pat: Pat,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Spec {
    pub label: String,
    pub toks: Vec<String>,
    pub nts: Vec<String>,
    pub prods: Vec<Prod>,
    pub entry: u16,
}

pub fn seq(v: Vec<Pat>) -> Pat {
    match v.len() {
        0 => Pat::Eps,
        1 => v.into_iter().next().unwrap(),
        _ => Pat::Seq(v),
    }
}

/// Token i's literal text: distinct, none a prefix of another.
pub fn tok_text(i: usize) -> String {
    if i < 26 {
        ((b'a' + i as u8) as char).to_string()
    } else {
        format!("{}{}.", (b'A' + (i / 26 % 26) as u8) as char, i)
    }
}

impl Pat {
    pub fn size(&self) -> usize {
        match self {
            Pat::T(_) | Pat::N(_) | Pat::Eps => 1,
            Pat::Seq(v) | Pat::Alt(v) => 1 + v.iter().map(|p| p.size()).sum::<usize>(),
            Pat::Opt(p) | Pat::Star(p) | Pat::Plus(p) => 1 + p.size(),
        }
    }
    pub fn nullable(&self) -> bool {
        match self {
            Pat::T(_) | Pat::N(_) => false,
            Pat::Eps | Pat::Opt(_) | Pat::Star(_) => true,
            Pat::Seq(v) => v.iter().all(|p| p.nullable()),
            Pat::Alt(v) => v.iter().any(|p| p.nullable()),
            Pat::Plus(p) => p.nullable(),
        }
    }
    /// A repetition of something that may be empty: infinitely many readings.
    pub fn loops_on_empty(&self) -> bool {
        match self {
            Pat::T(_) | Pat::N(_) | Pat::Eps => false,
            Pat::Seq(v) | Pat::Alt(v) => v.iter().any(|p| p.loops_on_empty()),
            Pat::Opt(p) => p.loops_on_empty(),
            Pat::Star(p) | Pat::Plus(p) => p.nullable() || p.loops_on_empty(),
        }
    }
    pub fn is_plain(&self) -> bool {
        match self {
            Pat::T(_) | Pat::N(_) | Pat::Eps => true,
            Pat::Seq(v) => v.iter().all(|p| matches!(p, Pat::T(_) | Pat::N(_))),
            _ => false,
        }
    }
    pub fn nts(&self, out: &mut Vec<u16>) {
        match self {
            Pat::N(n) => out.push(*n),
            Pat::Seq(v) | Pat::Alt(v) => v.iter().for_each(|p| p.nts(out)),
            Pat::Opt(p) | Pat::Star(p) | Pat::Plus(p) => p.nts(out),
            _ => {}
        }
    }
    fn render(&self, s: &Spec, top: bool, out: &mut String) {
        match self {
            Pat::T(t) => out.push_str(&s.toks[*t as usize]),
            Pat::N(n) => out.push_str(&s.nts[*n as usize]),
            Pat::Eps => out.push_str(if top { "!" } else { "(!)" }),
            Pat::Seq(v) => {
                if !top {
                    out.push('(');
                }
                for (i, p) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(' ');
                    }
                    p.render(s, false, out);
                }
                if !top {
                    out.push(')');
                }
            }
            Pat::Alt(v) => {
                if !top {
                    out.push('(');
                }
                for (i, p) in v.iter().enumerate() {
                    if i > 0 {
                        out.push_str(" | ");
                    }
                    match p {
                        // a sequence inside an alternative needs no parentheses
                        Pat::Seq(_) => p.render(s, true, out),
                        _ => p.render(s, false, out),
                    }
                }
                if !top {
                    out.push(')');
                }
            }
            Pat::Opt(p) | Pat::Star(p) | Pat::Plus(p) => {
                match **p {
                    // a postfix operator applies to a name or a parenthesised pattern
                    Pat::Opt(_) | Pat::Star(_) | Pat::Plus(_) => {
                        out.push('(');
                        p.render(s, true, out);
                        out.push(')');
                    }
                    _ => p.render(s, false, out),
                }
                out.push(match self {
                    Pat::Opt(_) => '?',
                    Pat::Star(_) => '*',
                    _ => '+',
                });
            }
        }
    }
    pub fn text(&self, s: &Spec) -> String {
        let mut o = String::new();
        self.render(s, true, &mut o);
        o
    }

    /// Does the word over leaf symbols match this pattern?
    pub fn matches(&self, w: &[Sym]) -> bool {
        self.ends(w, 0).contains(&w.len())
    }
    /// All positions where a match starting at `i` can end.
    fn ends(&self, w: &[Sym], i: usize) -> Vec<usize> {
        fn uniq(mut v: Vec<usize>) -> Vec<usize> {
            v.sort_unstable();
            v.dedup();
            v
        }
        match self {
            Pat::T(t) => {
                if w.get(i) == Some(&Sym::T(*t)) {
                    vec![i + 1]
                } else {
                    vec![]
                }
            }
            Pat::N(n) => {
                if w.get(i) == Some(&Sym::N(*n)) {
                    vec![i + 1]
                } else {
                    vec![]
                }
            }
            Pat::Eps => vec![i],
            Pat::Seq(v) => {
                let mut cur = vec![i];
                for p in v {
                    cur = uniq(cur.into_iter().flat_map(|c| p.ends(w, c)).collect());
                }
                cur
            }
            Pat::Alt(v) => uniq(v.iter().flat_map(|p| p.ends(w, i)).collect()),
            Pat::Opt(p) => {
                let mut e = p.ends(w, i);
                e.push(i);
                uniq(e)
            }
            Pat::Star(p) | Pat::Plus(p) => {
                let mut seen = if matches!(self, Pat::Star(_)) { vec![i] } else { p.ends(w, i) };
                let mut todo = seen.clone();
                while let Some(c) = todo.pop() {
                    for e in p.ends(w, c) {
                        if !seen.contains(&e) {
                            seen.push(e);
                            todo.push(e);
                        }
                    }
                }
                uniq(seen)
            }
        }
    }
}

impl Spec {
    pub fn new(label: &str, ntok: usize, nnt: usize) -> Spec {
        Spec {
            label: label.to_string(),
            toks: (0..ntok).map(tok_name).collect(),
            nts: (0..nnt).map(nt_name).collect(),
            prods: Vec::new(),
            entry: 0,
        }
    }
    pub fn p(mut self, nt: u16, pat: Pat) -> Spec {
        self.prods.push(Prod { nt, tag: None, pat });
        self
    }
    pub fn token_decl(&self, i: usize) -> String {
        format!("token {} = \"{}\";", self.toks[i], tok_text(i))
    }
    pub fn prod_decl(&self, i: usize) -> String {
        let p = &self.prods[i];
        let tag = p.tag.as_ref().map(|t| format!("[{}]", t)).unwrap_or_default();
        format!("prod {}{} = {};", self.nts[p.nt as usize], tag, p.pat.text(self))
    }
    /// The grammar file.
    pub fn text(&self) -> String {
        let mut o = String::new();
        for i in 0..self.toks.len() {
            o.push_str(&self.token_decl(i));
            o.push('\n');
        }
        o.push_str(&format!("entry {};\n", self.nts[self.entry as usize]));
        for i in 0..self.prods.len() {
            o.push_str(&self.prod_decl(i));
            o.push('\n');
        }
        o
    }
    /// One-line form used to label cases.
    pub fn brief(&self) -> String {
        let mut o = String::new();
        if !self.label.is_empty() {
            o.push_str(&format!("[{}] ", self.label));
        }
        if self.prods.len() > 60 {
            o.push_str(&format!("{} tokens, {} productions, entry {}", self.toks.len(), self.prods.len(), self.nts[self.entry as usize]));
            return o;
        }
        o.push_str(&format!("entry {};", self.nts[self.entry as usize]));
        for i in 0..self.prods.len() {
            o.push(' ');
            o.push_str(&self.prod_decl(i));
        }
        o
    }

    /// Plain context-free grammar with the same language; helper symbols follow the named ones.
    pub fn bnf(&self) -> Bnf {
        self.expand(false)
    }
    /// The expansion under which repetitions can be LL(1): h = ! | x h.
    pub fn bnf_ll(&self) -> Bnf {
        self.expand(true)
    }
    fn expand(&self, ll: bool) -> Bnf {
        let mut b = Bnf { names: self.nts.clone(), nt: self.toks.len(), nn: self.nts.len(), rules: Vec::new(), start: self.entry };
        fn go(q: &Pat, b: &mut Bnf) -> Vec<Sym> {
            match q {
                Pat::T(t) => vec![Sym::T(*t)],
                Pat::N(n) => vec![Sym::N(*n)],
                Pat::Eps => vec![],
                Pat::Seq(v) => v.iter().flat_map(|p| go(p, b)).collect(),
                Pat::Alt(v) => {
                    let h = b.fresh();
                    for p in v {
                        let r = go(p, b);
                        b.rules.push((h, r));
                    }
                    vec![Sym::N(h)]
                }
                Pat::Opt(p) => {
                    let h = b.fresh();
                    let r = go(p, b);
                    b.rules.push((h, r));
                    b.rules.push((h, vec![]));
                    vec![Sym::N(h)]
                }
                Pat::Star(p) | Pat::Plus(p) => {
                    let h = b.fresh();
                    let mut r = go(p, b);
                    if matches!(q, Pat::Star(_)) {
                        b.rules.push((h, vec![]));
                        r.push(Sym::N(h));
                        b.rules.push((h, r));
                        return vec![Sym::N(h)];
                    }
                    if r.is_empty() {
                        b.rules.push((h, vec![]));
                        return vec![Sym::N(h)];
                    }
                    b.rules.push((h, r.clone()));
                    let mut rr = r;
                    rr.push(Sym::N(h));
                    b.rules.push((h, rr));
                    vec![Sym::N(h)]
                }
            }
        }
        // x* is lowered to (x+)? first
        fn lower(p: &Pat) -> Pat {
            match p {
                Pat::Star(q) => Pat::Opt(Box::new(Pat::Plus(Box::new(lower(q))))),
                Pat::Plus(q) => Pat::Plus(Box::new(lower(q))),
                Pat::Opt(q) => Pat::Opt(Box::new(lower(q))),
                Pat::Seq(v) => Pat::Seq(v.iter().map(lower).collect()),
                Pat::Alt(v) => Pat::Alt(v.iter().map(lower).collect()),
                x => x.clone(),
            }
        }
        for p in &self.prods {
            let r = if ll { go(&p.pat, &mut b) } else { go(&lower(&p.pat), &mut b) };
            b.rules.push((p.nt, r));
        }
        b
    }

    pub fn is_plain(&self) -> bool {
        self.prods.iter().all(|p| p.pat.is_plain())
    }
    pub fn has_tags(&self) -> bool {
        self.prods.iter().any(|p| p.tag.is_some())
    }
}

pub fn tok_name(i: usize) -> String {
    if i < 26 {
        ((b'A' + i as u8) as char).to_string()
    } else {
        format!("T{}", i)
    }
}
pub fn nt_name(i: usize) -> String {
    const N: [&str; 8] = ["s", "x", "y", "z", "u", "v", "w", "q"];
    if i < 8 {
        N[i].to_string()
    } else {
        format!("n{}", i)
    }
}
