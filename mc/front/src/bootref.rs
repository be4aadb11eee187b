//! Reference reader of the bootstrap subset: names of letters and underscores, single-line rules, blanks only
//! between the parts of a rule, alternatives only inside parentheses.
use crate::refread::P;
use mccore::regex::Ast;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Body {
    Lit(String),
    Re(Ast),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct BFile {
    pub toks: Vec<(String, Body)>,
    pub prods: Vec<(String, P)>,
    pub entry: Vec<String>,
    pub dots: bool,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Boot {
    Ok(BFile),
    /// not the subset's syntax: must be refused
    Refuse,
    /// regex characters whose role the subset does not define (unbalanced brackets, braces, ^ $ ...)
    Open,
}
enum Stop {
    Refuse,
    Open,
    /// refused under every reading of an unbalanced bracket
    Never,
}
fn open(e: Stop) -> Stop {
    match e {
        Stop::Never => Stop::Never,
        _ => Stop::Open,
    }
}
type R<T> = Result<T, Stop>;

struct In<'a> {
    b: &'a [u8],
    i: usize,
    dots: bool,
}
impl<'a> In<'a> {
    fn peek(&self) -> Option<u8> {
        self.b.get(self.i).copied()
    }
    fn tag(&mut self, s: &str) -> R<()> {
        if self.b[self.i..].starts_with(s.as_bytes()) {
            self.i += s.len();
            Ok(())
        } else {
            Err(Stop::Refuse)
        }
    }
    fn blanks(&mut self) -> R<()> {
        let s = self.i;
        while matches!(self.peek(), Some(b' ' | b'\t')) {
            self.i += 1;
        }
        if s == self.i {
            Err(Stop::Refuse)
        } else {
            Ok(())
        }
    }
    fn white(&mut self) -> bool {
        let s = self.i;
        while matches!(self.peek(), Some(b' ' | b'\t' | b'\n' | b'\r')) {
            self.i += 1;
        }
        self.i > s
    }
    fn name(&mut self) -> R<String> {
        let s = self.i;
        while matches!(self.peek(), Some(c) if c.is_ascii_alphabetic() || c == b'_') {
            self.i += 1;
        }
        if s == self.i {
            return Err(Stop::Refuse);
        }
        Ok(String::from_utf8(self.b[s..self.i].to_vec()).unwrap())
    }
    fn post(&mut self) -> Option<u8> {
        match self.peek() {
            Some(c @ (b'*' | b'+' | b'?')) => {
                self.i += 1;
                Some(c)
            }
            _ => None,
        }
    }
    fn chr(&mut self) -> R<char> {
        match self.peek() {
            None => Err(Stop::Refuse),
            Some(b'\\') => {
                self.i += 1;
                let c = self.peek().ok_or(Stop::Refuse)?;
                self.i += 1;
                Ok(match c {
                    b'n' => '\n',
                    b'r' => '\r',
                    b't' => '\t',
                    b'\\' => '\\',
                    b'/' => '/',
                    b'u' => {
                        self.tag("{")?;
                        let s = self.i;
                        while matches!(self.peek(), Some(c) if c.is_ascii_hexdigit()) {
                            self.i += 1;
                        }
                        let h = std::str::from_utf8(&self.b[s..self.i]).unwrap().to_string();
                        self.tag("}")?;
                        if h.len() < 4 || h.len() > 6 {
                            return Err(Stop::Refuse);
                        }
                        char::from_u32(u32::from_str_radix(&h, 16).unwrap()).ok_or(Stop::Refuse)?
                    }
                    _ => return Err(Stop::Refuse),
                })
            }
            Some(c) if !c.is_ascii() => Err(Stop::Refuse),
            Some(b']' | b'/' | b')' | b'|' | b'+' | b'*' | b'?' | b'\t' | b'\r' | b'\n') => Err(Stop::Refuse),
            Some(c) => {
                self.i += 1;
                Ok(c as char)
            }
        }
    }
    fn set(&mut self) -> R<Ast> {
        self.tag("[")?;
        let neg = self.tag("^").is_ok();
        let mut v = Vec::new();
        loop {
            match self.peek() {
                Some(b']') if !v.is_empty() => {
                    self.i += 1;
                    break;
                }
                // an empty set, and a bracket that closes nothing if the other one is a character
                Some(b']') => return Err(Stop::Never),
                Some(b'[' | b'&' | b'~') => return Err(Stop::Open),
                Some(b'-') if self.b.get(self.i + 1) == Some(&b'-') => return Err(Stop::Open),
                _ => {}
            }
            let a = self.chr()?;
            if self.peek() == Some(b'-') {
                let save = self.i;
                self.i += 1;
                match self.peek() {
                    Some(b'-' | b'[') => return Err(Stop::Open),
                    _ => {}
                }
                match self.chr() {
                    Ok(b) => {
                        if a > b {
                            return Err(Stop::Open);
                        }
                        v.push((a, b));
                        continue;
                    }
                    Err(_) => self.i = save,
                }
            }
            v.push((a, a));
        }
        Ok(Ast::Class(v, neg))
    }
    fn re_seq(&mut self) -> R<Ast> {
        let mut v = Vec::new();
        loop {
            let e = match self.peek() {
                Some(b'(') => {
                    self.i += 1;
                    let mut alts = Vec::new();
                    loop {
                        alts.push(self.re_seq().map_err(open)?);
                        if self.tag("|").is_err() {
                            break;
                        }
                    }
                    self.tag(")").map_err(|_| Stop::Open)?;
                    Ast::Alt(alts)
                }
                Some(b'[') => self.set().map_err(open)?,
                Some(b'.') => {
                    self.i += 1;
                    self.dots = true;
                    Ast::Class(vec![], true)
                }
                Some(b'{' | b'}' | b'^' | b'$' | b'\0') => return Err(Stop::Open),
                None | Some(b')' | b'|' | b'/' | b']' | b'*' | b'+' | b'?') => break,
                _ => match self.chr() {
                    Ok(c) => Ast::Chr(c),
                    Err(e) => return Err(e),
                },
            };
            v.push(match self.post() {
                Some(b'*') => Ast::Rep(Box::new(e), 0, None),
                Some(b'+') => Ast::Rep(Box::new(e), 1, None),
                Some(_) => Ast::Rep(Box::new(e), 0, Some(1)),
                None => e,
            });
        }
        if v.is_empty() {
            return Err(Stop::Refuse);
        }
        Ok(Ast::Seq(v))
    }
    fn pat(&mut self) -> R<P> {
        let mut v = Vec::new();
        loop {
            let e = if self.tag("(").is_ok() {
                let mut alts = vec![self.pat()?];
                while self.tag(" | ").is_ok() {
                    alts.push(self.pat()?);
                }
                self.tag(")")?;
                if alts.len() == 1 {
                    alts.pop().unwrap()
                } else {
                    P::Alt(alts)
                }
            } else {
                P::Name(self.name()?)
            };
            v.push(match self.post() {
                Some(b'*') => P::Star(Box::new(e)),
                Some(b'+') => P::Plus(Box::new(e)),
                Some(_) => P::Opt(Box::new(e)),
                None => e,
            });
            // blanks continue the sequence unless they belong to " | " or nothing follows
            let save = self.i;
            if self.blanks().is_err() || !matches!(self.peek(), Some(c) if c.is_ascii_alphabetic() || c == b'_' || c == b'(') {
                self.i = save;
                break;
            }
        }
        Ok(P::Seq(v))
    }
}

pub fn read(t: &str) -> Boot {
    let mut p = In { b: t.as_bytes(), i: 0, dots: false };
    match file(&mut p) {
        Ok(f) => Boot::Ok(f),
        Err(Stop::Refuse | Stop::Never) => Boot::Refuse,
        Err(Stop::Open) => Boot::Open,
    }
}

fn file(p: &mut In) -> R<BFile> {
    let mut f = BFile { toks: vec![], prods: vec![], entry: vec![], dots: false };
    p.white();
    let mut n = 0;
    while p.i < p.b.len() {
        if n > 0 && !p.b[p.i - 1].is_ascii_whitespace() {
            return Err(Stop::Refuse);
        }
        n += 1;
        if p.tag("token").is_ok() {
            p.blanks()?;
            let name = p.name()?;
            p.blanks()?;
            p.tag("=")?;
            p.blanks()?;
            let body = if p.tag("\"").is_ok() {
                let s = p.i;
                while matches!(p.peek(), Some(c) if c != b'"') {
                    if !p.peek().unwrap().is_ascii() {
                        return Err(Stop::Refuse);
                    }
                    p.i += 1;
                }
                let l = String::from_utf8(p.b[s..p.i].to_vec()).unwrap();
                p.tag("\"")?;
                if l.is_empty() || l.contains('\\') || l.chars().any(|c| c.is_control()) {
                    return Err(Stop::Open);
                }
                Body::Lit(l)
            } else {
                p.tag("/")?;
                let a = p.re_seq()?;
                p.tag("/")?;
                Body::Re(a)
            };
            p.tag(";")?;
            f.toks.push((name, body));
        } else if p.tag("prod").is_ok() {
            p.blanks()?;
            let name = p.name()?;
            p.blanks()?;
            p.tag("=")?;
            p.blanks()?;
            let pat = p.pat()?;
            p.tag(";")?;
            f.prods.push((name, pat));
        } else {
            p.tag("entry")?;
            p.blanks()?;
            f.entry.push(p.name()?);
            p.tag(";")?;
        }
        p.white();
    }
    if f.entry.len() != 1 {
        return Err(Stop::Refuse);
    }
    f.dots = p.dots;
    Ok(f)
}
