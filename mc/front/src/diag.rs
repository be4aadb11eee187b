//! C17, second part: what the command line shows for conflicts and ties, in files of every layout.
use crate::LIMIT;
use mccore::cfg::Sym;
use mccore::cli::{fresh_dir, strip_ansi, Algo, Gen, Lang};
use mccore::families;
use mccore::lexref::{asts, LexModel, Tok};
use mccore::lr::{automaton, Conflicts, Kind};
use mccore::regex::{star, Ast};
use mccore::run::{Ctx, Fail, Outcome, Tally};
use mccore::spec::{Pat, Spec};
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Decl {
    Tok(usize),
    Prod(usize),
    Entry,
}

struct Placed {
    decl: Decl,
    line: usize,
    col: usize,
    text: String,
}

pub const LAYOUTS: usize = 7;

/// Writes the declarations in one of the layouts and notes where each of them ends up.
fn lay_out(decls: &[(Decl, String)], layout: usize) -> (String, Vec<Placed>) {
    let (inner, before_semicolon, between, head): (&str, &str, &str, &str) = match layout {
        0 => (" ", "", "\n", ""),
        1 => (" ", "", " ", ""),
        2 => ("\t ", "", "", "\t"),
        3 => ("\n  ", "\n", "\n\n\t", ""),
        4 => (" ", " ", " ", ""),
        5 => ("\n", "\t", " ", " \n"),
        _ => (" ", "", "\n \t", "\n\n\t  "),
    };
    let mut order: Vec<usize> = (0..decls.len()).collect();
    if layout == 5 {
        order.reverse();
    }
    let mut text = String::from(head);
    let mut out = Vec::new();
    for (k, i) in order.into_iter().enumerate() {
        let (decl, d) = &decls[i];
        if layout == 4 || layout == 6 {
            text.push_str(&format!("token ZZ{} = \"é→😀{}\";", k, k));
            text.push_str(if layout == 4 { " " } else { "\t" });
        }
        let d = d.strip_suffix(';').unwrap();
        let mut s = d.split(' ').collect::<Vec<_>>().join(inner);
        s.push_str(before_semicolon);
        s.push(';');
        let line = 1 + text.matches('\n').count();
        let col = 1 + text.chars().rev().take_while(|c| *c != '\n').count();
        out.push(Placed { decl: *decl, line, col, text: s.clone() });
        text.push_str(&s);
        text.push_str(between);
    }
    (text, out)
}

#[derive(Debug)]
struct Section {
    line: usize,
    col: usize,
    text: String,
    notes: Vec<String>,
}
#[derive(Debug)]
struct Diagnostic {
    message: String,
    sections: Vec<Section>,
}

/// Reads the messages back.
fn parse(err: &str, file: &str) -> Result<Vec<Diagnostic>, String> {
    let clean = strip_ansi(err);
    let mut out: Vec<Diagnostic> = Vec::new();
    for l in clean.lines() {
        if let Some(m) = l.strip_prefix("error: ") {
            out.push(Diagnostic { message: m.to_string(), sections: Vec::new() });
        } else if let Some(p) = l.trim_start().strip_prefix("--> ") {
            let p = p.strip_prefix(file).and_then(|p| p.strip_prefix(':')).ok_or(format!("does not name the grammar file: {:?}", l))?;
            let (a, b) = p.split_once(':').ok_or(format!("no line and column in {:?}", l))?;
            let n = |x: &str| x.trim().parse::<usize>().map_err(|_| format!("no position in {:?}", l));
            out.last_mut().ok_or("a position before any message")?.sections.push(Section { line: n(a)?, col: n(b)?, text: String::new(), notes: Vec::new() });
        } else if let Some(t) = l.strip_prefix("  |  ") {
            let s = out.last_mut().and_then(|d| d.sections.last_mut()).ok_or("text before any position")?;
            s.notes.push(t.to_string());
        } else if l.trim().is_empty() || l == "  |" {
            if let Some(s) = out.last_mut().and_then(|d| d.sections.last_mut()) {
                if l == "  |" {
                    s.notes.push(String::new());
                }
            }
        } else {
            return Err(format!("unexpected line {:?}", l));
        }
    }
    for d in &mut out {
        for s in &mut d.sections {
            // blank, the rule's text, ~~~~, blank, notes
            let u = s.notes.iter().position(|l| !l.is_empty() && l.chars().all(|c| c == '~')).ok_or(format!("no rule text is shown in {:?}", s))?;
            if u < 1 || !s.notes[0].is_empty() {
                return Err(format!("no rule text is shown in {:?}", s));
            }
            s.text = s.notes[1..u].join("\n");
            s.notes = s.notes[u + 1..].iter().filter(|l| !l.trim().is_empty()).map(|l| l.trim().to_string()).collect();
        }
    }
    Ok(out)
}

/// `x(1) -> A(0) B(1) •` as names.
fn item(t: &str) -> Option<(Option<String>, Vec<String>)> {
    let t = t.trim().strip_suffix('•')?.trim();
    let name = |s: &str| match s.rfind('(') {
        Some(i) if !s.starts_with("<anon>") => s[..i].to_string(),
        _ => s.to_string(),
    };
    let (l, r) = match t.split_once("->") {
        Some((l, r)) => (Some(name(l.trim())), r),
        None => (None, t),
    };
    Some((l, r.split_whitespace().filter(|s| *s != "<eps>").map(name).collect()))
}

fn find<'a>(placed: &'a [Placed], s: &Section) -> Result<&'a Placed, String> {
    placed.iter().find(|p| p.line == s.line && p.col == s.col && p.text == s.text).ok_or_else(|| {
        format!(
            "shows {}:{} {:?}, which is not where and how a rule is written; the rules are {:?}",
            s.line,
            s.col,
            s.text,
            placed.iter().map(|p| format!("{}:{} {:?}", p.line, p.col, p.text)).collect::<Vec<_>>()
        )
    })
}

fn grammar_case(g: &Spec, layout: usize, algo: Algo, dir: &std::path::Path, tally: &mut Tally) -> Outcome {
    let b = g.bnf();
    let mut decls: Vec<(Decl, String)> = (0..g.toks.len()).map(|i| (Decl::Tok(i), g.token_decl(i))).collect();
    let entry = (Decl::Entry, format!("entry {};", g.nts[g.entry as usize]));
    let prods: Vec<(Decl, String)> = (0..g.prods.len()).map(|i| (Decl::Prod(i), g.prod_decl(i))).collect();
    if layout % 2 == 0 {
        decls.push(entry);
        decls.extend(prods);
    } else {
        decls.extend(prods);
        decls.push(entry);
    }
    let (text, placed) = lay_out(&decls, layout);
    let kind = match algo {
        Algo::LR0 => Kind::Lr0,
        Algo::Lalr => Kind::Lalr,
        _ => Kind::Lr1,
    };
    let model = automaton(&b, kind);
    let want: Conflicts = model.conflicts(&b);
    if want.is_empty() {
        return Ok(());
    }
    tally.add("states", model.states.len() as u64);
    let target = fresh_dir(dir, "d");
    let file = target.with_extension("lapex");
    let ran = Gen::new(algo, Lang::Rust).text(&text, &target, LIMIT);
    let _ = std::fs::remove_dir_all(&target);
    let _ = std::fs::remove_file(&file);
    tally.add("transitions", 1);
    let fail = |d: String| Err(Fail::new(format!("{} layout {} {}", algo.arg(), layout, g.brief()), format!("grammar file {:?} with -a {}: {}\n{}", text, algo.arg(), d, strip_ansi(&ran.err))));
    if ran.ok() {
        return fail("has conflicts but was accepted".into());
    }
    let ds = match parse(&ran.err, &file.display().to_string()) {
        Ok(d) => d,
        Err(e) => return fail(e),
    };
    if ds.is_empty() || ds.iter().any(|d| d.sections.is_empty()) {
        return fail("no diagnostic with a position is shown".into());
    }
    let plain = g.is_plain();
    let mut sr = BTreeSet::new();
    let mut rr = BTreeSet::new();
    for d in &ds {
        let mut named = Vec::new();
        for s in &d.sections {
            let p = match find(&placed, s) {
                Ok(p) => p,
                Err(e) => return fail(e),
            };
            tally.add("sections_checked", 1);
            let Some((lhs, rhs)) = s.notes.last().and_then(|t| item(t)) else {
                return fail(format!("no item is shown in {:?}", s));
            };
            let ok = match (p.decl, &lhs) {
                (Decl::Entry, None) => rhs == [g.nts[g.entry as usize].clone()],
                (Decl::Prod(i), Some(l)) => {
                    let prod = &g.prods[i];
                    if plain {
                        let name = |x: &Sym| match x {
                            Sym::T(t) => g.toks[*t as usize].clone(),
                            Sym::N(n) => g.nts[*n as usize].clone(),
                        };
                        *l == g.nts[prod.nt as usize] && rhs == b.rules[i].1.iter().map(name).collect::<Vec<_>>()
                    } else {
                        // a helper of the production consists of symbols that are written in it
                        let decl = g.prod_decl(i);
                        let body = decl.split_once('=').unwrap().1;
                        let words: BTreeSet<&str> = body.split(|c: char| !c.is_ascii_alphanumeric()).collect();
                        (l == "<anon>" || l.starts_with("<anon>(") || *l == g.nts[prod.nt as usize]) && rhs.iter().all(|x| x.starts_with("<anon>") || words.contains(x.as_str()))
                    }
                }
                _ => false,
            };
            if !ok {
                return fail(format!("the item {:?} is shown for the rule {:?}", s.notes.last(), s.text));
            }
            named.push(match p.decl {
                Decl::Prod(i) => i,
                _ => b.rules.len(),
            });
        }
        let s = &d.sections[0];
        if d.message.contains("shift-reduce") {
            let token = s.notes.iter().position(|n| n.contains("shift token")).and_then(|i| s.notes.get(i + 1)).cloned().unwrap_or_default();
            let Some(t) = g.toks.iter().position(|x| *x == token) else {
                return fail(format!("names {:?} as the token to shift", token));
            };
            if plain && !want.shift_reduce.contains(&(named[0], t as u16)) {
                return fail(format!("reports a shift-reduce conflict between {} and {:?}, which is none", token, s.text));
            }
            sr.insert((named[0], t as u16));
        } else if d.message.contains("reduce-reduce") {
            if named.len() < 2 {
                return fail("reports a reduce-reduce conflict of one rule".into());
            }
            for a in &named {
                if plain && !named.iter().any(|c| want.reduce_reduce.contains(&(*a.min(c), *a.max(c)))) {
                    return fail("shows a rule for a reduce-reduce conflict that competes with none of the others".into());
                }
                for c in &named {
                    rr.insert((*a.min(c), *a.max(c)));
                }
            }
        } else {
            return fail(format!("unknown message {:?}", d.message));
        }
    }
    if plain {
        for (r, t) in &want.shift_reduce {
            // a state with several complete items may be reported as a reduce-reduce conflict
            if !sr.contains(&(*r, *t)) && !rr.iter().any(|(a, c)| a == r || c == r) {
                return fail(format!("does not show rule {} for its conflict with {}", b.show_rule(*r), g.toks[*t as usize]));
            }
        }
        for (r, s) in &want.reduce_reduce {
            if !rr.contains(&(*r, *s)) {
                return fail(format!("does not show rules {} and {} in conflict", r, s));
            }
        }
    }
    tally.add("diagnosed_grammars", 1);
    Ok(())
}

fn token_case(toks: &[Tok], layout: usize, dir: &std::path::Path, tally: &mut Tally) -> Outcome {
    let m = LexModel::new(toks);
    let ties = m.ties();
    if ties.is_empty() {
        return Ok(());
    }
    let mut decls: Vec<(Decl, String)> = toks.iter().enumerate().map(|(i, t)| (Decl::Tok(i), t.decl())).collect();
    decls.push((Decl::Entry, "entry s;".into()));
    decls.push((Decl::Prod(0), format!("prod s = {};", toks[0].name)));
    let (text, placed) = lay_out(&decls, layout);
    tally.add("states", m.winner.len() as u64);
    let target = fresh_dir(dir, "p");
    let file = target.with_extension("lapex");
    let ran = Gen::new(Algo::LR1, Lang::Rust).with_lexer().text(&text, &target, LIMIT);
    let _ = std::fs::remove_dir_all(&target);
    let _ = std::fs::remove_file(&file);
    tally.add("transitions", 1);
    let fail = |d: String| Err(Fail::new(format!("tokens layout {} {:?}", layout, toks.iter().map(|t| t.decl()).collect::<Vec<_>>()), format!("grammar file {:?}: {}\n{}", text, d, strip_ansi(&ran.err))));
    if ran.ok() {
        return fail("has tied tokens but was accepted".into());
    }
    let ds = match parse(&ran.err, &file.display().to_string()) {
        Ok(d) => d,
        Err(e) => return fail(e),
    };
    if ds.is_empty() {
        return fail("no diagnostic is shown".into());
    }
    for d in &ds {
        if !d.message.contains("precedence") {
            return fail(format!("unknown message {:?}", d.message));
        }
        let mut group = Vec::new();
        for s in &d.sections {
            let p = match find(&placed, s) {
                Ok(p) => p,
                Err(e) => return fail(e),
            };
            tally.add("sections_checked", 1);
            let Decl::Tok(i) = p.decl else { return fail(format!("shows {:?}, which is no token", s.text)) };
            if s.notes.last() != Some(&toks[i].name) {
                return fail(format!("names token {:?} for the rule {:?}", s.notes.last(), s.text));
            }
            group.push(i);
        }
        group.sort();
        if !ties.iter().any(|(t, _)| *t == group) {
            return fail(format!("shows the tokens {:?}, the tied groups are {:?}", group, ties));
        }
    }
    tally.add("diagnosed_token_sets", 1);
    Ok(())
}

/// Conflicts between rules of `k` symbols, with names of `w` characters, next to `k` other rules.
fn lengthy(k: usize, w: usize) -> Vec<Spec> {
    let t = |i: usize| Pat::T(i as u16);
    let body: Vec<Pat> = (0..k).map(|i| t(i % 3)).collect();
    let seq = |v: Vec<Pat>| Pat::Seq(v);
    let mut with_operator = vec![Pat::N(0)];
    with_operator.extend(body.iter().cloned());
    with_operator.push(Pat::N(0));
    let mut out = vec![
        // the same long rule for two symbols
        Spec::new("lengthy-rr", 3, 3).p(0, Pat::N(1)).p(0, Pat::N(2)).p(1, seq(body.clone())).p(2, seq(body.clone())),
        // a long operator without associativity
        Spec::new("lengthy-sr", 3, 1).p(0, seq(with_operator.clone())).p(0, t(2)),
        // both in one production of many alternatives
        Spec::new("lengthy-alt", 3, 2)
            .p(0, Pat::Alt((0..k).map(|i| seq((0..=i % 4).map(|j| t((i + j) % 3)).collect())).chain([seq(with_operator)]).collect()))
            .p(1, Pat::Alt((0..k).map(|i| if i % 2 == 0 { t(0) } else { Pat::N(0) }).collect())),
        // every rule competes with every other
        {
            let mut s = Spec::new("lengthy-many", 3, 1 + k.min(40));
            for i in 1..=k.min(40) as u16 {
                s = s.p(0, Pat::N(i)).p(i, seq(vec![t(0), t(1)]));
            }
            s
        },
    ];
    for s in &mut out {
        s.label = format!("{}{}-{}", s.label, k, w);
        if w > 0 {
            for x in s.toks.iter_mut().chain(s.nts.iter_mut()) {
                *x = format!("{}{}", x, "n".repeat(w));
            }
        }
    }
    out
}

enum Case {
    Grammar(Spec, usize, Algo),
    Tokens(Vec<Tok>, usize),
}

pub fn check(ctx: &Ctx) {
    let mut cases = Vec::new();
    let mut all: Vec<Spec> = families::shapes();
    all.extend(families::contexts().into_iter().step_by(ctx.pick(2, 1)));
    for g in all {
        for l in 0..LAYOUTS {
            for a in Algo::LR {
                cases.push(Case::Grammar(g.clone(), l, a));
            }
        }
    }
    for (k, w) in [(5, 300), (80, 0), (80, 40), (300, 3)] {
        for g in lengthy(k, w) {
            for l in 0..LAYOUTS {
                for a in Algo::LR {
                    cases.push(Case::Grammar(g.clone(), l, a));
                }
            }
        }
    }
    let mut fam = families::plain(2, 1, 3, 4, 2);
    fam.extend(families::plain(1, 2, 3, 5, 3));
    fam.extend(families::plain(2, 2, 4, ctx.pick(4, 5), 3));
    fam.extend(families::ebnf_single(ctx.pick(4, 5)));
    if ctx.thorough() {
        fam.extend(families::ebnf_double(4));
    }
    for (i, g) in fam.into_iter().enumerate() {
        for (j, a) in Algo::LR.into_iter().enumerate() {
            if ctx.thorough() || j == i % 3 {
                cases.push(Case::Grammar(g.clone(), (i / 3 + j) % LAYOUTS, a));
            }
        }
    }
    // token sets that tie: all pairs and some triples of small patterns, with and without explicit precedences
    let ch = |c: char| Ast::Chr(c);
    let leaves = [ch('a'), Ast::Class(vec![('a', 'b')], false), ch('é')];
    let mut pats: Vec<Ast> = asts(ctx.pick(2, 3), &leaves, &[]);
    pats.push(star(ch('a')));
    pats.push(Ast::Alt(vec![ch('a'), ch('é')]));
    pats.retain(|p| !p.nullable());
    let mut toks: Vec<Tok> = vec![Tok::lit("?", "a"), Tok::lit("?", "é"), Tok::lit("?", "ab"), Tok::lit("?", "a").with(1), Tok::lit("?", "é").with(1)];
    toks.extend(pats.iter().map(|p| Tok::re("?", p.clone())));
    toks.push(Tok::re("?", leaves[1].clone()).with(2));
    let named = |v: &[&Tok]| -> Vec<Tok> {
        v.iter()
            .enumerate()
            .map(|(i, t)| {
                let mut t = (*t).clone();
                t.name = ["FIRST", "B", "THIRD_ONE"][i].into();
                t
            })
            .collect()
    };
    let mut n = 0;
    for a in &toks {
        for b in &toks {
            for l in 0..LAYOUTS {
                cases.push(Case::Tokens(named(&[a, b]), l));
            }
            for c in &toks {
                n += 1;
                if !ctx.thorough() || n % 7 == 0 {
                    cases.push(Case::Tokens(named(&[a, b, c]), n % LAYOUTS));
                }
            }
        }
    }
    // long declarations of tied tokens
    for k in [60, 300, 2000] {
        let word = "aé".repeat(k / 2);
        for (p, q) in [
            (Tok::lit("?", &word), Tok::lit("?", &word)),
            (Tok::re("?", Ast::Seq(word.chars().map(ch).collect())).with(1), Tok::lit("?", &word)),
            (Tok::re("?", Ast::Alt((0..k.min(300)).map(|i| Ast::Seq(vec![ch('a'); 1 + i % 9])).collect())), Tok::lit("?", "aa").with(0)),
        ] {
            let mut v = named(&[&p, &q]);
            for l in 0..LAYOUTS {
                cases.push(Case::Tokens(v.clone(), l));
                v[l % 2].name = format!("N{}", "x".repeat(k / 2 + l));
            }
        }
    }
    let dir = ctx.scratch();
    ctx.par(
        &cases,
        LIMIT,
        |c| match c {
            Case::Grammar(g, l, a) => format!("diagnostics -a {} layout {} of {}", a.arg(), l, g.brief()),
            Case::Tokens(t, l) => format!("precedence diagnostics layout {} of {:?}", l, t.iter().map(|t| t.decl()).collect::<Vec<_>>()),
        },
        |c, tally| match c {
            Case::Grammar(g, l, a) => grammar_case(g, *l, *a, &dir, tally),
            Case::Tokens(t, l) => token_case(t, *l, &dir, tally),
        },
    );
}
