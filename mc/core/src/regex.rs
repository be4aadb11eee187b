//! Reference regular expressions over Unicode scalar values: derivatives (Brzozowski), exact.
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const MAX: u32 = 0x10FFFF;

/// Sorted, disjoint, non-adjacent inclusive ranges.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Set(pub Vec<(u32, u32)>);

impl Set {
    pub fn of(r: &[(u32, u32)]) -> Set {
        let mut v = r.to_vec();
        v.sort();
        let mut o: Vec<(u32, u32)> = Vec::new();
        for (a, b) in v {
            if a > b {
                continue;
            }
            match o.last_mut() {
                Some(l) if a <= l.1 + 1 => l.1 = l.1.max(b),
                _ => o.push((a, b)),
            }
        }
        Set(o)
    }
    pub fn has(&self, c: u32) -> bool {
        self.0.iter().any(|(a, b)| *a <= c && c <= *b)
    }
    /// Complement within the Unicode scalar values.
    pub fn negate(&self) -> Set {
        let mut o = Vec::new();
        let mut from = 0u32;
        for (a, b) in self.0.iter().chain(std::iter::once(&(MAX + 1, MAX + 1))) {
            if *a > from {
                o.push((from, a - 1));
            }
            from = b + 1;
        }
        let mut r = Vec::new();
        for (a, b) in o {
            if a < 0xD800 {
                r.push((a, b.min(0xD7FF)));
            }
            if b > 0xDFFF {
                r.push((a.max(0xE000), b));
            }
        }
        Set(r)
    }
}

/// A token pattern as written.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ast {
    Chr(char),
    /// ranges, negated
    Class(Vec<(char, char)>, bool),
    Seq(Vec<Ast>),
    Alt(Vec<Ast>),
    Rep(Box<Ast>, u32, Option<u32>),
}

pub fn star(a: Ast) -> Ast {
    Ast::Rep(Box::new(a), 0, None)
}
pub fn plus(a: Ast) -> Ast {
    Ast::Rep(Box::new(a), 1, None)
}
pub fn opt(a: Ast) -> Ast {
    Ast::Rep(Box::new(a), 0, Some(1))
}
pub fn lit(s: &str) -> Ast {
    Ast::Seq(s.chars().map(Ast::Chr).collect())
}

impl Ast {
    pub fn set(&self) -> Option<Set> {
        match self {
            Ast::Chr(c) => Some(Set::of(&[(*c as u32, *c as u32)])),
            Ast::Class(r, neg) => {
                let s = Set::of(&r.iter().map(|(a, b)| (*a as u32, *b as u32)).collect::<Vec<_>>());
                Some(if *neg { s.negate() } else { s })
            }
            _ => None,
        }
    }
    pub fn precedence(&self) -> usize {
        match self {
            Ast::Chr(_) | Ast::Class(..) => 1,
            Ast::Seq(v) => v.iter().map(|a| a.precedence()).sum(),
            Ast::Alt(v) => v.iter().map(|a| a.precedence()).min().unwrap_or(0),
            Ast::Rep(a, n, _) => *n as usize * a.precedence(),
        }
    }
    pub fn re(&self) -> R {
        match self {
            Ast::Chr(_) | Ast::Class(..) => Re::set(self.set().unwrap()),
            Ast::Seq(v) => v.iter().rev().fold(Rc::new(Re::Eps), |acc, a| Re::cat(a.re(), acc)),
            Ast::Alt(v) => v.iter().fold(Rc::new(Re::Nil), |acc, a| Re::alt(acc, a.re())),
            Ast::Rep(a, n, m) => Re::rep(a.re(), *n, *m),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Ast::Chr(_) | Ast::Class(..) => 1,
            Ast::Seq(v) | Ast::Alt(v) => 1 + v.iter().map(|a| a.size()).sum::<usize>(),
            Ast::Rep(a, _, _) => 1 + a.size(),
        }
    }
    pub fn nullable(&self) -> bool {
        self.re().nullable()
    }
    fn sets(&self, out: &mut Vec<Set>) {
        match self {
            Ast::Chr(_) | Ast::Class(..) => out.push(self.set().unwrap()),
            Ast::Seq(v) | Ast::Alt(v) => v.iter().for_each(|a| a.sets(out)),
            Ast::Rep(a, _, _) => a.sets(out),
        }
    }
    /// Regex text for a grammar file.
    pub fn regex(&self) -> String {
        let mut o = String::new();
        self.render(0, &mut o);
        o
    }
    // level 0: alternation allowed, 1: sequence allowed, 2: atom
    fn render(&self, level: u8, o: &mut String) {
        match self {
            Ast::Chr(c) => o.push_str(&esc(*c)),
            Ast::Class(r, neg) => {
                o.push('[');
                if *neg {
                    o.push('^');
                }
                for (a, b) in r {
                    o.push_str(&esc_set(*a));
                    if a != b {
                        o.push('-');
                        o.push_str(&esc_set(*b));
                    }
                }
                o.push(']');
            }
            Ast::Seq(v) => {
                if level >= 2 {
                    o.push('(');
                }
                v.iter().for_each(|a| a.render(if v.len() == 1 { level.min(1) } else { 1 }, o));
                if level >= 2 {
                    o.push(')');
                }
            }
            Ast::Alt(v) => {
                if level >= 1 {
                    o.push('(');
                }
                for (i, a) in v.iter().enumerate() {
                    if i > 0 {
                        o.push('|');
                    }
                    a.render(1, o);
                }
                if level >= 1 {
                    o.push(')');
                }
            }
            Ast::Rep(a, n, m) => {
                match **a {
                    Ast::Rep(..) => {
                        o.push('(');
                        a.render(0, o);
                        o.push(')');
                    }
                    _ => a.render(2, o),
                }
                match (n, m) {
                    (0, None) => o.push('*'),
                    (1, None) => o.push('+'),
                    (0, Some(1)) => o.push('?'),
                    (n, None) => o.push_str(&format!("{{{},}}", n)),
                    (n, Some(m)) if n == m => o.push_str(&format!("{{{}}}", n)),
                    (n, Some(m)) => o.push_str(&format!("{{{},{}}}", n, m)),
                }
            }
        }
    }
}

fn esc(c: char) -> String {
    match c {
        '\n' => "\\n".into(),
        '\r' => "\\r".into(),
        '\t' => "\\t".into(),
        '\\' | '/' | '.' | '*' | '+' | '?' | '(' | ')' | '[' | ']' | '{' | '}' | '|' | '^' | '$' | '#' | '&' | '-' | '~' => format!("\\{}", c),
        c if (c as u32) < 0x20 || c == '\u{7f}' => format!("\\x{:02x}", c as u32),
        c => c.to_string(),
    }
}
fn esc_set(c: char) -> String {
    esc(c)
}

pub type R = Rc<Re>;

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Re {
    Nil,
    Eps,
    Set(Set),
    Cat(R, R),
    Alt(BTreeSet<R>),
    Rep(R, u32, Option<u32>),
}

impl Re {
    pub fn set(s: Set) -> R {
        if s.0.is_empty() {
            Rc::new(Re::Nil)
        } else {
            Rc::new(Re::Set(s))
        }
    }
    pub fn cat(a: R, b: R) -> R {
        match (&*a, &*b) {
            (Re::Nil, _) | (_, Re::Nil) => Rc::new(Re::Nil),
            (Re::Eps, _) => b,
            (_, Re::Eps) => a,
            (Re::Cat(x, y), _) => {
                let r = Re::cat(y.clone(), b);
                Re::cat(x.clone(), r)
            }
            _ => Rc::new(Re::Cat(a, b)),
        }
    }
    pub fn alt(a: R, b: R) -> R {
        let mut s = BTreeSet::new();
        for x in [a, b] {
            match &*x {
                Re::Nil => {}
                Re::Alt(v) => s.extend(v.iter().cloned()),
                _ => {
                    s.insert(x);
                }
            }
        }
        match s.len() {
            0 => Rc::new(Re::Nil),
            1 => s.into_iter().next().unwrap(),
            _ => Rc::new(Re::Alt(s)),
        }
    }
    pub fn rep(a: R, n: u32, m: Option<u32>) -> R {
        if m == Some(0) {
            return Rc::new(Re::Eps);
        }
        match &*a {
            Re::Eps => return a,
            Re::Nil => return Rc::new(if n == 0 { Re::Eps } else { Re::Nil }),
            _ => {}
        }
        if n == 1 && m == Some(1) {
            return a;
        }
        Rc::new(Re::Rep(a, n, m))
    }
    pub fn nullable(&self) -> bool {
        match self {
            Re::Nil | Re::Set(_) => false,
            Re::Eps => true,
            Re::Cat(a, b) => a.nullable() && b.nullable(),
            Re::Alt(v) => v.iter().any(|a| a.nullable()),
            Re::Rep(a, n, _) => *n == 0 || a.nullable(),
        }
    }
    pub fn d(&self, c: u32) -> R {
        match self {
            Re::Nil | Re::Eps => Rc::new(Re::Nil),
            Re::Set(s) => Rc::new(if s.has(c) { Re::Eps } else { Re::Nil }),
            Re::Cat(a, b) => {
                let l = Re::cat(a.d(c), b.clone());
                if a.nullable() {
                    Re::alt(l, b.d(c))
                } else {
                    l
                }
            }
            Re::Alt(v) => v.iter().fold(Rc::new(Re::Nil), |acc, a| Re::alt(acc, a.d(c))),
            Re::Rep(a, n, m) => {
                let rest = Re::rep(a.clone(), n.saturating_sub(1), m.map(|m| m - 1));
                Re::cat(a.d(c), rest)
            }
        }
    }
    /// Is the language empty? (all constructors above keep Nil exact)
    pub fn is_nil(&self) -> bool {
        matches!(self, Re::Nil)
    }
    pub fn matches(self: &Rc<Self>, s: &str) -> bool {
        let mut r = self.clone();
        for c in s.chars() {
            r = r.d(c as u32);
            if r.is_nil() {
                return false;
            }
        }
        r.nullable()
    }
}

/// Class boundaries of a set of patterns: the first code point of every maximal interval on which
/// all of them behave alike (scalar values only).
pub fn class_starts(asts: &[&Ast]) -> Vec<u32> {
    let mut sets = Vec::new();
    for a in asts {
        a.sets(&mut sets);
    }
    let mut b = BTreeSet::new();
    b.insert(0);
    b.insert(1);
    for s in &sets {
        for (x, y) in &s.0 {
            b.insert(*x);
            b.insert(*y + 1);
        }
    }
    b.insert(0xE000);
    b.into_iter().filter(|c| *c <= MAX && !(0xD800..=0xDFFF).contains(c)).collect()
}

/// First and last scalar of every class; the last one may sit just before a surrogate gap.
pub fn class_reps(asts: &[&Ast]) -> Vec<u32> {
    let st = class_starts(asts);
    let mut out = BTreeSet::new();
    for (i, s) in st.iter().enumerate() {
        out.insert(*s);
        let mut e = if i + 1 < st.len() { st[i + 1] - 1 } else { MAX };
        if (0xD800..=0xDFFF).contains(&e) {
            e = 0xD7FF;
        }
        if e >= *s {
            out.insert(e);
        }
    }
    out.into_iter().collect()
}

/// Product of the derivative automata of several patterns, explored completely.
pub struct Product {
    /// which patterns match exactly here
    pub accept: Vec<Vec<usize>>,
    /// is any token still possible
    pub alive: Vec<bool>,
    /// transitions by index into `starts`
    pub next: Vec<Vec<usize>>,
    pub starts: Vec<u32>,
    /// shortest string (class starts) leading to each state
    pub access: Vec<Vec<u32>>,
}

pub fn product(asts: &[&Ast]) -> Product {
    let starts = class_starts(asts);
    let init: Vec<R> = asts.iter().map(|a| a.re()).collect();
    let mut index: BTreeMap<Vec<R>, usize> = BTreeMap::new();
    let mut states = vec![init.clone()];
    let mut access = vec![vec![]];
    index.insert(init, 0);
    let mut next: Vec<Vec<usize>> = Vec::new();
    let mut i = 0;
    while i < states.len() {
        let mut row = Vec::new();
        for c in &starts {
            let t: Vec<R> = states[i].iter().map(|r| r.d(*c)).collect();
            let n = states.len();
            let id = *index.entry(t.clone()).or_insert(n);
            if id == n {
                states.push(t);
                let mut a = access[i].clone();
                a.push(*c);
                access.push(a);
            }
            row.push(id);
        }
        next.push(row);
        i += 1;
    }
    let accept = states.iter().map(|s| (0..s.len()).filter(|i| s[*i].nullable()).collect()).collect();
    let alive = states.iter().map(|s| s.iter().any(|r| !r.is_nil())).collect();
    Product { accept, alive, next, starts, access }
}

impl Product {
    pub fn class(&self, c: u32) -> usize {
        match self.starts.binary_search(&c) {
            Ok(i) => i,
            Err(i) => i - 1,
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    // slow matcher straight from the definition
    fn ends(a: &Ast, s: &[u32], i: usize) -> BTreeSet<usize> {
        match a {
            Ast::Chr(_) | Ast::Class(..) => {
                if i < s.len() && a.set().unwrap().has(s[i]) {
                    [i + 1].into()
                } else {
                    BTreeSet::new()
                }
            }
            Ast::Seq(v) => v.iter().fold([i].into(), |cur: BTreeSet<usize>, a| cur.iter().flat_map(|j| ends(a, s, *j)).collect()),
            Ast::Alt(v) => v.iter().flat_map(|a| ends(a, s, i)).collect(),
            Ast::Rep(a, n, m) => {
                let mut out = BTreeSet::new();
                let mut cur: BTreeSet<usize> = [i].into();
                let lim = m.unwrap_or(*n + s.len() as u32 + 1);
                for k in 0..=lim {
                    if k >= *n {
                        out.extend(cur.iter());
                    }
                    cur = cur.iter().flat_map(|j| ends(a, s, *j)).collect();
                    if cur.is_empty() {
                        break;
                    }
                }
                out
            }
        }
    }
    #[test]
    fn derivatives_agree() {
        let a = || Ast::Chr('a');
        let b = || Ast::Chr('b');
        let mut pats = vec![a(), Ast::Class(vec![('a', 'b')], false), Ast::Class(vec![('a', 'a')], true)];
        let base = pats.clone();
        for p in &base {
            for (n, m) in [(0, None), (1, None), (0, Some(1)), (2, None), (2, Some(2)), (1, Some(3)), (0, Some(2))] {
                pats.push(Ast::Rep(Box::new(p.clone()), n, m));
            }
        }
        let l2 = pats.clone();
        for p in &l2 {
            for q in &l2 {
                pats.push(Ast::Seq(vec![p.clone(), q.clone()]));
                pats.push(Ast::Alt(vec![p.clone(), q.clone()]));
            }
            for (n, m) in [(0, None), (2, Some(3)), (2, None)] {
                pats.push(Ast::Rep(Box::new(Ast::Seq(vec![p.clone(), b()])), n, m));
                pats.push(Ast::Rep(Box::new(Ast::Alt(vec![p.clone(), lit("ab")])), n, m));
            }
        }
        let mut words: Vec<Vec<u32>> = vec![vec![]];
        let mut last = words.clone();
        for _ in 0..5 {
            let mut n = Vec::new();
            for w in &last {
                for c in ['a', 'b', 'c'] {
                    let mut v = w.clone();
                    v.push(c as u32);
                    n.push(v);
                }
            }
            words.extend(n.iter().cloned());
            last = n;
        }
        for p in &pats {
            let r = p.re();
            let pr = product(&[p]);
            for w in &words {
                let s: String = w.iter().map(|c| char::from_u32(*c).unwrap()).collect();
                let e = ends(p, w, 0).contains(&w.len());
                assert_eq!(r.matches(&s), e, "{} {}", p.regex(), s);
                let st = w.iter().fold(0, |st, c| pr.next[st][pr.class(*c)]);
                assert_eq!(!pr.accept[st].is_empty(), e);
            }
        }
    }
}
