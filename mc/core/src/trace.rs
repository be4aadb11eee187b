//! Callbacks of generated parsers: which rule a visitor method stands for, and whether a sequence of
//! calls is the derivation it claims to be.
use crate::cfg::Sym;
use crate::spec::Spec;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Method {
    pub name: String,
    pub doc: Option<String>,
}

fn unquote(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some(d) => o.push(d),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// Methods of `trait Visitor` in a generated Rust file, in order, without `shift`.
pub fn methods_rust(text: &str) -> Vec<Method> {
    let mut v = Vec::new();
    let Some(at) = text.find("trait Visitor") else { return v };
    let b: Vec<char> = text[at..].chars().collect();
    let mut i = 0;
    let mut depth = 0;
    let mut doc: Option<String> = None;
    let mut want_doc = false;
    while i < b.len() {
        let c = b[i];
        if c == '/' && b.get(i + 1) == Some(&'/') {
            let s: String = b[i..].iter().take_while(|c| **c != '\n').collect();
            i += s.chars().count();
            doc = Some(s.trim_start_matches('/').trim().to_string());
            continue;
        }
        if c == '"' {
            let mut j = i + 1;
            while j < b.len() && b[j] != '"' {
                j += if b[j] == '\\' { 2 } else { 1 };
            }
            let s: String = b[i + 1..j.min(b.len())].iter().collect();
            if want_doc {
                doc = Some(unquote(&s).trim().to_string());
                want_doc = false;
            }
            i = j + 1;
            continue;
        }
        if c == '{' {
            depth += 1;
        }
        if c == '}' {
            depth -= 1;
            if depth == 0 {
                break;
            }
        }
        if c.is_alphanumeric() || c == '_' {
            let s: String = b[i..].iter().take_while(|c| c.is_alphanumeric() || **c == '_').collect();
            i += s.chars().count();
            if s == "doc" {
                want_doc = true;
            } else if s == "fn" {
                let rest: String = b[i..].iter().collect();
                let name: String = rest.trim_start().chars().take_while(|c| c.is_alphanumeric() || *c == '_' || *c == '#').collect();
                let d = doc.take();
                if name != "shift" {
                    v.push(Method { name, doc: d });
                }
            }
            continue;
        }
        i += 1;
    }
    v
}

/// Methods of the generated C++ visitor, without `shift` and `token`.
pub fn methods_cpp(text: &str) -> Vec<Method> {
    let mut v = Vec::new();
    let mut doc = None;
    for l in text.lines() {
        let l = l.trim();
        if let Some(d) = l.strip_prefix("//") {
            doc = Some(d.trim().to_string());
        } else if let Some(r) = l.strip_prefix("virtual") {
            let r = r.trim_start();
            let Some(p) = r.find('(') else { continue };
            let name = r[..p].split_whitespace().last().unwrap_or("").to_string();
            let d = doc.take();
            if name != "shift" && name != "token" && !name.contains('~') {
                v.push(Method { name, doc: d });
            }
        }
    }
    v
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Sy {
    T(u16),
    N(u16),
    /// a helper symbol
    H(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MRule {
    pub lhs: Sy,
    pub rhs: Vec<Sy>,
}

pub fn symbol(s: &str, g: &Spec) -> Sy {
    let name = match s.rfind('(') {
        Some(i) if s.ends_with(')') => &s[..i],
        _ => s,
    };
    if let Some(t) = g.toks.iter().position(|x| x == name) {
        Sy::T(t as u16)
    } else if let Some(n) = g.nts.iter().position(|x| x == name) {
        Sy::N(n as u16)
    } else {
        Sy::H(s.to_string())
    }
}

/// Reads `x(1) -> A(0) <anon>(5)`.
pub fn rule(doc: &str, g: &Spec) -> Option<MRule> {
    let (l, r) = doc.split_once("->")?;
    Some(MRule { lhs: symbol(l.trim(), g), rhs: r.split_whitespace().filter(|s| *s != "<eps>").map(|s| symbol(s, g)).collect() })
}

pub fn rules(ms: &[Method], g: &Spec) -> Result<Vec<MRule>, String> {
    ms.iter()
        .map(|m| {
            let d = m.doc.as_ref().ok_or_else(|| format!("callback {} does not say which rule it stands for", m.name))?;
            rule(d, g).ok_or_else(|| format!("callback {} is documented as {:?}, which is no rule", m.name, d))
        })
        .collect()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ev {
    /// token, data
    Shift(u16, u32),
    /// method
    Call(usize),
}

/// A completed rule of a written production: the method that was called and the symbols it covers,
/// helpers expanded.
pub struct Done {
    pub method: usize,
    pub nt: u16,
    pub word: Vec<Sym>,
}

fn show(s: &Sy, g: &Spec) -> String {
    match s {
        Sy::T(t) => g.toks[*t as usize].clone(),
        Sy::N(n) => g.nts[*n as usize].clone(),
        Sy::H(h) => h.clone(),
    }
}

/// Plays the calls on a stack. Every reduction must find the symbols of its rule on top of the stack.
/// Returns what is left on the stack and the completed rules.
pub fn replay(evs: &[Ev], rules: &[MRule], g: &Spec) -> Result<(Vec<Sy>, Vec<Done>), String> {
    let mut stack: Vec<(Sy, Vec<Sym>)> = Vec::new();
    let mut done = Vec::new();
    for e in evs {
        match e {
            Ev::Shift(t, _) => stack.push((Sy::T(*t), vec![Sym::T(*t)])),
            Ev::Call(m) => {
                let r = &rules[*m];
                if stack.len() < r.rhs.len() || !stack[stack.len() - r.rhs.len()..].iter().zip(&r.rhs).all(|(a, b)| a.0 == *b) {
                    return Err(format!(
                        "a reduction to {} by {:?} was reported when the symbols read so far are {:?}",
                        show(&r.lhs, g),
                        r.rhs.iter().map(|s| show(s, g)).collect::<Vec<_>>(),
                        stack.iter().map(|s| show(&s.0, g)).collect::<Vec<_>>()
                    ));
                }
                let kids = stack.split_off(stack.len() - r.rhs.len());
                let mut word = Vec::new();
                for (k, flat) in kids {
                    match k {
                        Sy::T(t) => word.push(Sym::T(t)),
                        Sy::N(n) => word.push(Sym::N(n)),
                        Sy::H(_) => word.extend(flat),
                    }
                }
                if let Sy::N(n) = r.lhs {
                    if !g.prods.iter().any(|p| p.nt == n && p.pat.matches(&word)) {
                        return Err(format!("{} was completed from {:?}, which none of its productions allows", show(&r.lhs, g), show_word(&word, g)));
                    }
                    done.push(Done { method: *m, nt: n, word: word.clone() });
                }
                stack.push((r.lhs.clone(), word));
            }
        }
    }
    Ok((stack.into_iter().map(|s| s.0).collect(), done))
}

pub fn show_word(w: &[Sym], g: &Spec) -> String {
    w.iter()
        .map(|s| match s {
            Sym::T(t) => g.toks[*t as usize].clone(),
            Sym::N(n) => g.nts[*n as usize].clone(),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn show_events(evs: &[Ev], ms: &[Method], g: &Spec) -> String {
    let mut v: Vec<String> = evs
        .iter()
        .take(60)
        .map(|e| match e {
            Ev::Shift(t, d) => format!("shift {} #{}", g.toks.get(*t as usize).cloned().unwrap_or_else(|| format!("?{}", t)), d),
            Ev::Call(m) => ms.get(*m).map(|m| m.name.clone()).unwrap_or_else(|| format!("?{}", m)),
        })
        .collect();
    if evs.len() > 60 {
        v.push("...".into());
    }
    v.join(", ")
}
