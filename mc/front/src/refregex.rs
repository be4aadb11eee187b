//! Reference reading of regex text, written from the documented regex syntax, independent of the code under test.
use mccore::regex::{Ast, Set, MAX};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Read {
    Ok(Ast),
    /// has an empty alternative or group: may be refused, but not misread
    Maybe(Ast),
    /// must be refused
    Reject,
    /// not specified by the property (empty alternatives, flags, class set operations, ...)
    Open,
}

enum Stop {
    Reject,
    Open,
}
type P<T> = Result<T, Stop>;

struct In {
    c: Vec<char>,
    i: usize,
    empty: bool,
}
impl In {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn at(&self, k: usize) -> Option<char> {
        self.c.get(self.i + k).copied()
    }
    fn bump(&mut self) -> Option<char> {
        let c = self.peek();
        self.i += 1;
        c
    }
}

pub struct Tables {
    pub digit: Set,
    pub word: Set,
    pub space: Set,
}
impl Tables {
    /// The Unicode tables come from the regex-syntax crate (trusted); White_Space is checked against std.
    pub fn new() -> Tables {
        fn get(s: &str) -> Set {
            match regex_syntax::parse(s).unwrap().into_kind() {
                regex_syntax::hir::HirKind::Class(regex_syntax::hir::Class::Unicode(u)) => {
                    Set::of(&u.iter().map(|r| (r.start() as u32, r.end() as u32)).collect::<Vec<_>>())
                }
                _ => unreachable!(),
            }
        }
        let t = Tables { digit: get(r"\d"), word: get(r"\w"), space: get(r"\s") };
        for c in 0..=MAX {
            if let Some(ch) = char::from_u32(c) {
                assert_eq!(t.space.has(c), ch.is_whitespace());
                if ch.is_ascii() {
                    assert_eq!(t.digit.has(c), ch.is_ascii_digit());
                    assert_eq!(t.word.has(c), ch.is_ascii_alphanumeric() || ch == '_');
                } else if c < 0x250 && ch.is_alphabetic() {
                    assert!(t.word.has(c));
                }
            }
        }
        t
    }
}

pub fn class_of(s: &Set) -> Ast {
    // ranges never straddle the surrogates: split where they would
    let mut r = Vec::new();
    for (a, b) in &s.0 {
        for (x, y) in [(*a, (*b).min(0xD7FF)), ((*a).max(0xE000), *b)] {
            if x <= y {
                r.push((char::from_u32(x).unwrap(), char::from_u32(y).unwrap()));
            }
        }
    }
    Ast::Class(r, false)
}

pub fn read(text: &str, t: &Tables) -> Read {
    let mut p = In { c: text.chars().collect(), i: 0, empty: false };
    let r = alternation(&mut p, t, 0).and_then(|a| if p.i < p.c.len() { Err(Stop::Reject) } else { Ok(a) });
    match r {
        Ok(a) if p.empty => Read::Maybe(a),
        Ok(a) => Read::Ok(a),
        // what is repeated zero times does not matter
        Err(Stop::Reject) if text.contains("{0}") || text.contains("{0,0}") => Read::Open,
        Err(Stop::Reject) => Read::Reject,
        Err(Stop::Open) => {
            // unspecified constructs in a text that is malformed anyway stay unspecified
            Read::Open
        }
    }
}

fn alternation(p: &mut In, t: &Tables, depth: usize) -> P<Ast> {
    let mut alts = Vec::new();
    loop {
        let mut seq = Vec::new();
        loop {
            match p.peek() {
                None | Some('|') => break,
                Some(')') => {
                    if depth == 0 {
                        return Err(Stop::Reject);
                    }
                    break;
                }
                Some(_) => match item(p, t, depth)? {
                    Some(a) => seq.push(a),
                    None => {}
                },
            }
        }
        if seq.is_empty() {
            p.empty = true;
        }
        alts.push(if seq.len() == 1 { seq.pop().unwrap() } else { Ast::Seq(seq) });
        if p.peek() == Some('|') {
            p.bump();
            continue;
        }
        break;
    }
    Ok(if alts.len() == 1 { alts.pop().unwrap() } else { Ast::Alt(alts) })
}

fn item(p: &mut In, t: &Tables, depth: usize) -> P<Option<Ast>> {
    let mut a = match p.bump().unwrap() {
        '(' => {
            if p.peek() == Some('?') {
                if p.at(1) == Some(':') {
                    p.i += 2;
                } else {
                    return Err(Stop::Open);
                }
            }
            let a = alternation(p, t, depth + 1)?;
            if p.bump() != Some(')') {
                return Err(Stop::Reject);
            }
            a
        }
        '[' => class(p, t)?,
        '.' => Ast::Class(vec![('\n', '\n')], true),
        '^' | '$' => return Err(Stop::Reject),
        '*' | '+' | '?' | '{' => return Err(Stop::Reject),
        '\\' => match escape(p, t)? {
            Esc::Char(c) => Ast::Chr(c),
            Esc::Set(s) => class_of(&s),
        },
        c => Ast::Chr(c),
    };
    loop {
        let (n, m) = match p.peek() {
            Some('*') => {
                p.bump();
                (0, None)
            }
            Some('+') => {
                p.bump();
                (1, None)
            }
            Some('?') => {
                p.bump();
                (0, Some(1))
            }
            Some('{') => {
                p.bump();
                counts(p)?
            }
            _ => break,
        };
        if p.peek() == Some('?') {
            // lazy; {0} and {1} leave nothing to be lazy about
            return Err(if (n, m) == (1, Some(1)) || (n, m) == (0, Some(0)) || p.empty { Stop::Open } else { Stop::Reject });
        }
        if m == Some(0) && n == 0 {
            p.empty = true;
        }
        a = Ast::Rep(Box::new(a), n, m);
    }
    Ok(Some(a))
}

fn number(p: &mut In) -> P<Option<u32>> {
    let mut v: Option<u32> = None;
    while let Some(d) = p.peek().and_then(|c| c.to_digit(10)) {
        v = Some(v.unwrap_or(0) * 10 + d);
        if v.unwrap() > 10000 {
            return Err(Stop::Open);
        }
        p.bump();
    }
    if p.peek().map(|c| c.is_whitespace()).unwrap_or(false) {
        return Err(Stop::Open);
    }
    Ok(v)
}

fn counts(p: &mut In) -> P<(u32, Option<u32>)> {
    if p.peek().map(|c| c.is_whitespace()).unwrap_or(false) {
        return Err(Stop::Open);
    }
    let n = number(p)?.ok_or(Stop::Reject)?;
    match p.bump() {
        Some('}') => Ok((n, Some(n))),
        Some(',') => {
            if p.peek() == Some('}') {
                p.bump();
                return Ok((n, None));
            }
            if p.peek().map(|c| c.is_whitespace()).unwrap_or(false) {
                return Err(Stop::Open);
            }
            let m = number(p)?.ok_or(Stop::Reject)?;
            if p.bump() != Some('}') || n > m {
                return Err(Stop::Reject);
            }
            Ok((n, Some(m)))
        }
        _ => Err(Stop::Reject),
    }
}

enum Esc {
    Char(char),
    Set(Set),
}

fn hex(p: &mut In, digits: usize) -> P<char> {
    let mut v = 0u32;
    if p.peek() == Some('{') {
        p.bump();
        let mut n = 0;
        while let Some(c) = p.peek() {
            if c == '}' {
                break;
            }
            if c.is_whitespace() {
                return Err(Stop::Open);
            }
            v = v.checked_mul(16).ok_or(Stop::Reject)?.checked_add(c.to_digit(16).ok_or(Stop::Reject)?).ok_or(Stop::Reject)?;
            n += 1;
            p.bump();
        }
        if n == 0 || p.bump() != Some('}') {
            return Err(Stop::Reject);
        }
    } else {
        for _ in 0..digits {
            let c = p.bump().ok_or(Stop::Reject)?;
            if c.is_whitespace() {
                return Err(Stop::Open);
            }
            v = v * 16 + c.to_digit(16).ok_or(Stop::Reject)?;
        }
    }
    char::from_u32(v).ok_or(Stop::Reject)
}

fn escape(p: &mut In, t: &Tables) -> P<Esc> {
    let c = p.bump().ok_or(Stop::Reject)?;
    Ok(match c {
        'n' => Esc::Char('\n'),
        'r' => Esc::Char('\r'),
        't' => Esc::Char('\t'),
        'f' => Esc::Char('\u{c}'),
        'v' => Esc::Char('\u{b}'),
        'a' => Esc::Char('\u{7}'),
        'd' => Esc::Set(t.digit.clone()),
        'D' => Esc::Set(t.digit.negate()),
        'w' => Esc::Set(t.word.clone()),
        'W' => Esc::Set(t.word.negate()),
        's' => Esc::Set(t.space.clone()),
        'S' => Esc::Set(t.space.negate()),
        'x' => Esc::Char(hex(p, 2)?),
        'u' => Esc::Char(hex(p, 4)?),
        'U' => Esc::Char(hex(p, 8)?),
        'p' | 'P' => return Err(Stop::Open),
        // assertions and back references
        c if c.is_ascii_alphanumeric() => return Err(Stop::Reject),
        '<' | '>' => return Err(Stop::Reject),
        '_' | ' ' => return Err(Stop::Open),
        c if c.is_ascii_punctuation() => Esc::Char(c),
        _ => return Err(Stop::Reject),
    })
}

fn class(p: &mut In, t: &Tables) -> P<Ast> {
    let mut neg = false;
    if p.peek() == Some('^') {
        p.bump();
        neg = true;
    }
    let mut r: Vec<(u32, u32)> = Vec::new();
    let mut first = true;
    while p.peek() == Some('-') {
        p.bump();
        r.push(('-' as u32, '-' as u32));
        first = false;
    }
    if first && p.peek() == Some(']') {
        p.bump();
        // "]" first is itself
        r.push((']' as u32, ']' as u32));
    }
    loop {
        match p.peek() {
            None => return Err(Stop::Reject),
            Some(']') => {
                p.bump();
                break;
            }
            Some('[') => return Err(Stop::Open),
            Some('&') if p.at(1) == Some('&') => return Err(Stop::Open),
            Some('-') if p.at(1) == Some('-') => return Err(Stop::Open),
            Some('~') if p.at(1) == Some('~') => return Err(Stop::Open),
            _ => {}
        }
        let a = atom(p, t)?;
        let range = p.peek() == Some('-') && p.at(1) != Some(']') && p.at(1) != Some('-');
        if p.peek() == Some('-') && p.at(1) == Some('-') {
            return Err(Stop::Open);
        }
        match a {
            Esc::Set(s) => {
                if range {
                    // a class cannot bound a range
                    return Err(if p.at(1).is_none() { Stop::Reject } else { Stop::Reject });
                }
                r.extend(s.0)
            }
            Esc::Char(c) => {
                if range {
                    p.bump();
                    match p.peek() {
                        None => return Err(Stop::Reject),
                        Some('[') => return Err(Stop::Open),
                        _ => {}
                    }
                    match atom(p, t)? {
                        Esc::Char(d) if c <= d => r.push((c as u32, d as u32)),
                        _ => return Err(Stop::Reject),
                    }
                } else {
                    r.push((c as u32, c as u32));
                }
            }
        }
    }
    let s = Set::of(&r);
    Ok(class_of(&if neg { s.negate() } else { s }))
}

fn atom(p: &mut In, t: &Tables) -> P<Esc> {
    match p.bump() {
        None => Err(Stop::Reject),
        Some('\\') => {
            if matches!(p.peek(), Some('b' | 'B' | 'A' | 'z')) {
                return Err(Stop::Reject);
            }
            escape(p, t)
        }
        Some(c) => Ok(Esc::Char(c)),
    }
}
