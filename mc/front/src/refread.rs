//! Reference reader of grammar files, written from the documented syntax: maximal-munch tokens and recursive
//! descent, total on every text (None = not a grammar file). Independent of the code under test.

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum P {
    Name(String),
    Seq(Vec<P>),
    Alt(Vec<P>),
    Opt(Box<P>),
    Star(Box<P>),
    Plus(Box<P>),
    Eps,
}

/// Byte range in the text.
pub type Span = (usize, usize);

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TokDecl {
    pub name: String,
    pub prec: Option<u16>,
    /// with its quotes or slashes
    pub body: String,
    pub span: Span,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ProdDecl {
    pub name: String,
    pub tag: Option<String>,
    pub pat: P,
    pub span: Span,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct File {
    pub toks: Vec<TokDecl>,
    pub prods: Vec<ProdDecl>,
    pub entry: String,
    pub entry_span: Span,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Token,
    Entry,
    Prod,
    Punct(u8),
    Digit,
    Ident,
    Str,
    Regex,
}

/// Lexical tokens with their byte ranges; None if some character starts no token.
pub fn lex(t: &str) -> Option<Vec<(K, Span)>> {
    let b = t.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    while i < b.len() {
        let s = i;
        match b[i] {
            b' ' | b'\t' | b'\n' => {
                i += 1;
                continue;
            }
            c @ (b'=' | b';' | b'(' | b')' | b'[' | b']' | b'?' | b'!' | b'*' | b'+' | b'|') => {
                i += 1;
                out.push((K::Punct(c), (s, i)));
            }
            b'0' => {
                i += 1;
                out.push((K::Digit, (s, i)));
            }
            b'1'..=b'9' => {
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                out.push((K::Digit, (s, i)));
            }
            b'a'..=b'z' | b'A'..=b'Z' => {
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
                let k = match &t[s..i] {
                    "token" => K::Token,
                    "entry" => K::Entry,
                    "prod" => K::Prod,
                    _ => K::Ident,
                };
                out.push((k, (s, i)));
            }
            q @ (b'"' | b'/') => {
                i += 1;
                loop {
                    match b.get(i) {
                        None | Some(b'\n') => return None,
                        Some(b'\\') => {
                            // an escape covers one character
                            let n = t[i + 1..].chars().next()?;
                            i += 1 + n.len_utf8();
                        }
                        Some(c) if *c == q => {
                            i += 1;
                            break;
                        }
                        Some(_) => i += 1,
                    }
                }
                out.push((if q == b'"' { K::Str } else { K::Regex }, (s, i)));
            }
            _ => return None,
        }
    }
    Some(out)
}

struct R<'a> {
    t: &'a str,
    k: Vec<(K, Span)>,
    i: usize,
}
impl<'a> R<'a> {
    fn peek(&self) -> Option<K> {
        self.k.get(self.i).map(|x| x.0)
    }
    fn eat(&mut self, k: K) -> Option<Span> {
        if self.peek() == Some(k) {
            self.i += 1;
            Some(self.k[self.i - 1].1)
        } else {
            None
        }
    }
    fn p(&mut self, c: u8) -> Option<Span> {
        self.eat(K::Punct(c))
    }
    fn text(&self, s: Span) -> String {
        self.t[s.0..s.1].to_string()
    }
    fn pattern(&mut self) -> Option<P> {
        if self.p(b'!').is_some() {
            return Some(P::Eps);
        }
        let mut alts = vec![self.concat()?];
        while self.p(b'|').is_some() {
            alts.push(self.concat()?);
        }
        Some(if alts.len() == 1 { alts.pop().unwrap() } else { P::Alt(alts) })
    }
    fn concat(&mut self) -> Option<P> {
        let mut v = vec![self.unary()?];
        while matches!(self.peek(), Some(K::Ident) | Some(K::Punct(b'('))) {
            v.push(self.unary()?);
        }
        Some(if v.len() == 1 { v.pop().unwrap() } else { P::Seq(v) })
    }
    fn unary(&mut self) -> Option<P> {
        let item = if let Some(s) = self.eat(K::Ident) {
            P::Name(self.text(s))
        } else {
            self.p(b'(')?;
            let x = self.pattern()?;
            self.p(b')')?;
            x
        };
        Some(if self.p(b'?').is_some() {
            P::Opt(Box::new(item))
        } else if self.p(b'*').is_some() {
            P::Star(Box::new(item))
        } else if self.p(b'+').is_some() {
            P::Plus(Box::new(item))
        } else {
            item
        })
    }
}

pub fn read(t: &str) -> Option<File> {
    let mut r = R { t, k: lex(t)?, i: 0 };
    let mut toks = Vec::new();
    let mut prods = Vec::new();
    let mut entry: Option<(String, Span)> = None;
    while let Some(k) = r.peek() {
        let start = r.k[r.i].1 .0;
        r.i += 1;
        match k {
            K::Entry => {
                let n = r.eat(K::Ident)?;
                let e = r.p(b';')?.1;
                if entry.is_some() {
                    return None;
                }
                entry = Some((r.text(n), (start, e)));
            }
            K::Prod => {
                let n = r.eat(K::Ident)?;
                let name = r.text(n);
                let mut tag = None;
                if r.p(b'[').is_some() {
                    let s = r.eat(K::Ident)?;
                    tag = Some(r.text(s));
                    r.p(b']')?;
                }
                r.p(b'=')?;
                let pat = r.pattern()?;
                let e = r.p(b';')?.1;
                prods.push(ProdDecl { name, tag, pat, span: (start, e) });
            }
            K::Token => {
                let n = r.eat(K::Ident)?;
                let name = r.text(n);
                let mut prec = None;
                if r.p(b'[').is_some() {
                    let s = r.eat(K::Digit)?;
                    prec = Some(r.text(s).parse::<u16>().ok()?);
                    r.p(b']')?;
                }
                r.p(b'=')?;
                let s = r.eat(K::Str).or_else(|| r.eat(K::Regex))?;
                let body = r.text(s);
                let e = r.p(b';')?.1;
                toks.push(TokDecl { name, prec, body, span: (start, e) });
            }
            _ => return None,
        }
    }
    let (entry, entry_span) = entry?;
    Some(File { toks, prods, entry, entry_span })
}

/// Nested sequences and alternatives flattened, alternatives unordered, "!" inside a sequence dropped:
/// equal results denote the same pattern.
pub fn norm(p: &P) -> P {
    match p {
        P::Seq(v) => {
            let mut o = Vec::new();
            for x in v {
                match norm(x) {
                    P::Seq(w) => o.extend(w),
                    P::Eps => {}
                    y => o.push(y),
                }
            }
            match o.len() {
                0 => P::Eps,
                1 => o.pop().unwrap(),
                _ => P::Seq(o),
            }
        }
        P::Alt(v) => {
            let mut o = Vec::new();
            for x in v {
                match norm(x) {
                    P::Alt(w) => o.extend(w),
                    y => o.push(y),
                }
            }
            o.sort();
            if o.len() == 1 {
                o.pop().unwrap()
            } else {
                P::Alt(o)
            }
        }
        P::Opt(x) => P::Opt(Box::new(norm(x))),
        P::Star(x) => P::Star(Box::new(norm(x))),
        P::Plus(x) => P::Plus(Box::new(norm(x))),
        x => x.clone(),
    }
}

/// 1-based line and column in characters.
pub fn line_col(t: &str, at: usize) -> (usize, usize) {
    let before = &t[..at];
    let line = before.matches('\n').count() + 1;
    let col = before.rsplit('\n').next().unwrap().chars().count() + 1;
    (line, col)
}
