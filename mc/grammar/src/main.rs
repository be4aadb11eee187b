//! C06-C09: grammar expansion, LL(1) and LR table construction of lapex-parser, checked against
//! independently built automata and exhaustive bounded languages.
use lapex_input::{EntryRule, ProductionPattern, ProductionRule, RuleSet, SourcePos, SourceSpan, Spanned, TokenPattern, TokenRule};
use lapex_parser::grammar::{Grammar, Rule, Symbol};
use lapex_parser::ll_parser::{self, LLParserError};
use lapex_parser::lr_parser::{self, ActionGotoTable, Conflict, GenerationResult, TableEntry};
use mccore::cfg::{Bnf, Sym};
use mccore::cli::{fresh_dir, Algo, Gen, Lang};
use mccore::families;
use mccore::lr::{self, automaton, ll1, Kind};
use mccore::run::{main_with, Ctx, Fail, Outcome, Tally};
use mccore::spec::{tok_text, Pat, Spec};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq)]
enum Style {
    /// a production body that is one symbol is that symbol (what the generated reader yields)
    Bare,
    /// every body and group is a sequence (what the bootstrap reader yields)
    Wrapped,
}

fn pattern<'a>(p: &Pat, s: &'a Spec, st: Style) -> ProductionPattern<'a> {
    let wrap = |p: ProductionPattern<'a>| if st == Style::Wrapped { ProductionPattern::Sequence { elements: vec![p] } } else { p };
    match p {
        Pat::T(t) => ProductionPattern::Rule { rule_name: &s.toks[*t as usize] },
        Pat::N(n) => ProductionPattern::Rule { rule_name: &s.nts[*n as usize] },
        Pat::Eps => ProductionPattern::Epsilon,
        Pat::Seq(v) => ProductionPattern::Sequence { elements: v.iter().map(|p| pattern(p, s, st)).collect() },
        Pat::Alt(v) => ProductionPattern::Alternative { elements: v.iter().map(|p| wrap(pattern(p, s, st))).collect() },
        Pat::Opt(p) => ProductionPattern::Optional { inner: Box::new(pattern(p, s, st)) },
        Pat::Star(p) => ProductionPattern::ZeroOrMany { inner: Box::new(pattern(p, s, st)) },
        Pat::Plus(p) => ProductionPattern::OneOrMany { inner: Box::new(pattern(p, s, st)) },
    }
}

fn span(line: usize) -> SourceSpan {
    SourceSpan { start: SourcePos { line: line as _, col: 1 }, end: SourcePos { line: line as _, col: 9 } }
}

fn rule_set(s: &Spec, st: Style) -> RuleSet<'_> {
    let mut line = 1;
    let mut next = || {
        line += 1;
        line
    };
    let toks = s
        .toks
        .iter()
        .enumerate()
        .map(|(i, t)| Spanned::new(span(next()), TokenRule { name: t, precedence: None, pattern: TokenPattern::Literal { characters: tok_text(i).chars().collect() } }))
        .collect();
    let prods = s
        .prods
        .iter()
        .map(|p| {
            let pat = pattern(&p.pat, s, st);
            let pat = if st == Style::Wrapped && !matches!(p.pat, Pat::Seq(_)) { ProductionPattern::Sequence { elements: vec![pat] } } else { pat };
            Spanned::new(span(next()), ProductionRule { name: &s.nts[p.nt as usize], tag: p.tag.as_deref(), pattern: pat })
        })
        .collect();
    RuleSet::new(Spanned::new(span(1), EntryRule { name: &s.nts[s.entry as usize] }), toks, prods)
}

/// The rules lapex works on, over the numbering of the spec; helpers follow the named symbols.
struct View {
    bnf: Bnf,
    sym: HashMap<Symbol, Sym>,
    /// spec production each rule is attributed to
    origin: Vec<usize>,
}

fn view(g: &Grammar, s: &Spec) -> Result<View, String> {
    let mut sym: HashMap<Symbol, Sym> = HashMap::new();
    let mut seen: BTreeSet<Sym> = BTreeSet::new();
    let mut b = Bnf { names: s.nts.clone(), nt: s.toks.len(), nn: s.nts.len(), rules: vec![], start: s.entry };
    for t in g.terminals() {
        let Symbol::Terminal(i) = t else { return Err(format!("{:?} listed as a terminal", t)) };
        let name = g.get_token_name(i);
        let k = s.toks.iter().position(|n| n == name).ok_or(format!("unknown token name {}", name))?;
        if !seen.insert(Sym::T(k as u16)) || sym.insert(t, Sym::T(k as u16)).is_some() {
            return Err(format!("token {} listed twice", name));
        }
    }
    for n in g.non_terminals() {
        let x = match g.get_production_name(&n) {
            Some(name) => {
                let k = s.nts.iter().position(|m| m == name).ok_or(format!("unknown production name {}", name))?;
                Sym::N(k as u16)
            }
            None => Sym::N(b.fresh()),
        };
        if !seen.insert(x) || sym.insert(n, x).is_some() {
            return Err(format!("symbol {:?} ({}) listed twice", n, g.get_symbol_name(&n)));
        }
    }
    let mut used = vec![false; s.nts.len()];
    s.prods.iter().for_each(|p| used[p.nt as usize] = true);
    for i in 0..s.toks.len() {
        if !seen.contains(&Sym::T(i as u16)) {
            return Err(format!("token {} is missing", s.toks[i]));
        }
    }
    for i in 0..s.nts.len() {
        if used[i] && !seen.contains(&Sym::N(i as u16)) {
            return Err(format!("production {} is missing", s.nts[i]));
        }
    }
    let mut origin = Vec::new();
    for r in g.rules() {
        let l = r.lhs().ok_or("rule without left-hand side".to_string())?;
        let Some(Sym::N(l)) = sym.get(&l).copied() else { return Err(format!("rule for unknown symbol {:?}", l)) };
        let mut rhs = Vec::new();
        for x in r.rhs() {
            match x {
                Symbol::Epsilon => {}
                x => rhs.push(*sym.get(x).ok_or(format!("unknown symbol {:?} in a rule", x))?),
            }
        }
        b.rules.push((l, rhs));
        let line = r.rule().span.start.line as usize;
        if line < 2 + s.toks.len() || line >= 2 + s.toks.len() + s.prods.len() {
            return Err(format!("rule {} is attributed to no production", r.display(g)));
        }
        origin.push(line - 2 - s.toks.len());
    }
    match sym.get(g.entry_point()) {
        Some(Sym::N(e)) if *e == s.entry => {}
        x => return Err(format!("entry point is {:?}", x)),
    }
    Ok(View { bnf: b, sym, origin })
}

/// Where no operator is used, the rules are the written ones, each as often as it is written.
fn as_written(s: &Spec, v: &View) -> Result<(), String> {
    let plain = |p: &Pat| matches!(p, Pat::T(_) | Pat::N(_) | Pat::Eps);
    if !s.prods.iter().all(|p| plain(&p.pat) || matches!(&p.pat, Pat::Seq(v) if v.iter().all(plain))) {
        return Ok(());
    }
    let (mut a, mut b) = (s.bnf().rules, v.bnf.rules.clone());
    a.sort();
    b.sort();
    if a != b {
        return Err(format!("works on the rules {}, not on those written", (0..v.bnf.rules.len()).map(|i| v.bnf.show_rule(i)).collect::<Vec<_>>().join("; ")));
    }
    Ok(())
}

fn fail(s: &Spec, what: &str, detail: String) -> Fail {
    Fail::new(format!("{} {}", s.brief(), what), format!("grammar: {}\n{}", s.text().replace('\n', " "), detail))
}

// ---------------------------------------------------------------- C06

/// Language of one production over the symbols written in it: named nonterminals become letters.
fn leaf_bnf(rules: &[(u16, Vec<Sym>)], nt: usize, named: usize, nn: usize) -> Bnf {
    // letter nt + k stands for named nonterminal k; rules of `nn` (the body) and of helpers remain
    Bnf {
        names: (0..=nn).map(|i| format!("n{}", i)).collect(),
        nt: nt + named,
        nn: nn + 1,
        rules: rules
            .iter()
            .map(|(l, r)| {
                (
                    *l,
                    r.iter()
                        .map(|s| match s {
                            Sym::N(n) if (*n as usize) < named => Sym::T((nt + *n as usize) as u16),
                            x => *x,
                        })
                        .collect(),
                )
            })
            .collect(),
        start: nn as u16,
    }
}

fn letters(p: &Pat, nt: usize, out: &mut BTreeSet<u16>) {
    match p {
        Pat::T(t) => {
            out.insert(*t);
        }
        Pat::N(n) => {
            out.insert(nt as u16 + *n);
        }
        Pat::Eps => {}
        Pat::Seq(v) | Pat::Alt(v) => v.iter().for_each(|p| letters(p, nt, out)),
        Pat::Opt(p) | Pat::Star(p) | Pat::Plus(p) => letters(p, nt, out),
    }
}

fn c06_one(s: &Spec, style: Style, k: usize, t: &mut Tally) -> Outcome {
    let rs = rule_set(s, style);
    let g = Grammar::from_rule_set(&rs).map_err(|e| fail(s, "refused", format!("refused with {:?}", e)))?;
    let v = view(&g, s).map_err(|e| fail(s, "shape", e))?;
    let named = s.nts.len();
    // each written production yields exactly one rule of its own symbol
    let mut count = vec![0; s.prods.len()];
    let mut owner: BTreeMap<u16, usize> = BTreeMap::new();
    for (i, (l, _)) in v.bnf.rules.iter().enumerate() {
        if (*l as usize) < named {
            count[v.origin[i]] += 1;
            if s.prods[v.origin[i]].nt != *l {
                return Err(fail(s, "origin", format!("rule {} is attributed to production {}", v.bnf.show_rule(i), s.prod_decl(v.origin[i]))));
            }
        } else if *owner.entry(*l).or_insert(v.origin[i]) != v.origin[i] {
            return Err(fail(s, "shared helper", format!("helper symbol of {} is shared with {}", s.prod_decl(v.origin[i]), s.prod_decl(owner[l]))));
        }
    }
    if let Some(i) = count.iter().position(|c| *c != 1) {
        return Err(fail(s, "count", format!("production {} has {} rules of its own", s.prod_decl(i), count[i])));
    }
    for (i, (_, r)) in v.bnf.rules.iter().enumerate() {
        for x in r {
            if let Sym::N(x) = x {
                if *x as usize >= named && owner.get(x) != Some(&v.origin[i]) {
                    return Err(fail(s, "shared helper", format!("production {} uses the helper of another one", s.prod_decl(v.origin[i]))));
                }
            }
        }
    }
    // token strings of every named symbol
    if !s.toks.is_empty() && s.toks.len() <= 6 {
        let k = if s.toks.len() > 3 { k.min(3) } else { k };
        let want = s.bnf().langs(k);
        let got = v.bnf.langs(k);
        for n in 0..named as u16 {
            for i in 0..want.strings.total() {
                t.add("transitions", 1);
                if want.has(n, i) != got.has(n, i) {
                    let w: Vec<&str> = want.strings.string(i).iter().map(|c| s.toks[*c as usize].as_str()).collect();
                    return Err(fail(
                        s,
                        "language",
                        format!("{} {} {:?} as written, but {} after expansion", s.nts[n as usize], if want.has(n, i) { "derives" } else { "does not derive" }, w, if got.has(n, i) { "does" } else { "does not" }),
                    ));
                }
            }
        }
    }
    // every production on its own, with multiplicities
    for (pi, p) in s.prods.iter().enumerate() {
        let mine: Vec<(u16, Vec<Sym>)> = v
            .bnf
            .rules
            .iter()
            .enumerate()
            .filter(|(i, _)| v.origin[*i] == pi)
            .map(|(_, (l, r))| (if (*l as usize) < named { v.bnf.nn as u16 } else { *l }, r.clone()))
            .collect();
        let got = leaf_bnf(&mine, s.toks.len(), named, v.bnf.nn);
        let one = Spec { label: String::new(), toks: s.toks.clone(), nts: s.nts.clone(), prods: vec![p.clone()], entry: p.nt };
        let rb = one.bnf();
        let rules: Vec<(u16, Vec<Sym>)> = rb.rules.iter().map(|(l, r)| (if (*l as usize) < named { rb.nn as u16 } else { *l }, r.clone())).collect();
        let want = leaf_bnf(&rules, s.toks.len(), named, rb.nn);
        let mut ls = BTreeSet::new();
        letters(&p.pat, s.toks.len(), &mut ls);
        let ls: Vec<u16> = ls.into_iter().collect();
        if ls.len() > 6 || s.toks.len() > 40 {
            continue;
        }
        let k = if ls.len() > 3 { 3 } else { k };
        for w in mccore::cfg::all_strings(ls.len(), k) {
            let w: Vec<u16> = w.into_iter().map(|c| ls[c as usize]).collect();
            t.add("states", 1);
            let (a, b) = (want.count_trees(&w), got.count_trees(&w));
            let syms: Vec<Sym> = w.iter().map(|c| if (*c as usize) < s.toks.len() { Sym::T(*c) } else { Sym::N(*c - s.toks.len() as u16) }).collect();
            assert_eq!(a != Some(0), p.pat.matches(&syms), "{} {:?}", s.brief(), w);
            let (a, b) = if p.pat.loops_on_empty() { (a.map(|n| n.min(1)).or(Some(1)), b.map(|n| n.min(1)).or(Some(1))) } else { (a, b) };
            if a != b {
                return Err(fail(s, "structure", format!("production {} matches the symbols {:?} in {:?} ways as written, in {:?} ways after expansion (None: infinitely many)", s.prod_decl(pi), syms, a, b)));
            }
        }
    }
    t.add("traces_validated_against_impl", 1);
    Ok(())
}

/// More symbols than their index can count: either refused, or all of them kept apart.
/// `kind`: 0 so many tokens, 1 so many productions, 2 so many operators.
fn many_symbols(kind: usize, n: usize, t: &mut Tally) -> Outcome {
    let kinds = ["tokens", "productions", "operators"];
    let fail = |what: &str, d: String| Fail::new(format!("{} {} {}", what, n, kinds[kind]), format!("with {} {}: {}", n, kinds[kind], d));
    let (nt, np) = (if kind == 0 { n } else { 2 }, if kind == 1 { n } else { 1 });
    let toks: Vec<String> = (0..nt).map(|i| format!("T{}", i)).collect();
    let prods: Vec<String> = (0..np).map(|i| format!("p{}", i)).collect();
    let tok = |i: usize| ProductionPattern::Rule { rule_name: &toks[i] };
    let tr = (0..nt).map(|i| Spanned::new(span(2 + i), TokenRule { name: &toks[i], precedence: None, pattern: TokenPattern::Literal { characters: format!("t{};", i).chars().collect() } })).collect();
    // p0 = first middle last; p(i) = p(i-1) T(i mod)
    let pr = (0..np)
        .map(|i| {
            let elements = match (i, kind) {
                (0, 2) => (0..n).map(|j| ProductionPattern::Optional { inner: Box::new(tok(j % 2)) }).collect(),
                (0, _) => vec![tok(0), tok(nt / 2), tok(nt - 1)],
                (i, _) => vec![ProductionPattern::Rule { rule_name: &prods[i - 1] }, tok(i % nt)],
            };
            Spanned::new(span(2 + nt + i), ProductionRule { name: &prods[i], tag: None, pattern: ProductionPattern::Sequence { elements } })
        })
        .collect();
    let rs = RuleSet::new(Spanned::new(span(1), EntryRule { name: &prods[0] }), tr, pr);
    t.add("transitions", (nt + np + if kind == 2 { n } else { 0 }) as u64);
    let g = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Grammar::from_rule_set(&rs))) {
        Ok(Ok(g)) => g,
        _ if n + 4 > u16::MAX as usize => {
            t.add("too_many_symbols_refused", 1);
            return Ok(());
        }
        Ok(Err(e)) => return Err(fail("refused", format!("refused with {:?}", e))),
        Err(_) => return Err(fail("panic", "expanding the grammar panics".into())),
    };
    let mut seen = BTreeSet::new();
    let named: BTreeSet<String> = g.terminals_with_names().map(|(s, n)| (seen.insert(s), n.to_string()).1).collect();
    if named.len() != nt || seen.len() != nt {
        return Err(fail("tokens", format!("{} token symbols carry {} names", seen.len(), named.len())));
    }
    let nts: BTreeSet<Symbol> = g.non_terminals().collect();
    let want = np + if kind == 2 { n } else { 0 };
    if nts.len() != want || g.non_terminals().count() != want {
        return Err(fail("productions", format!("{} production symbols, {} of them different, where {} are needed", g.non_terminals().count(), nts.len(), want)));
    }
    let name = |s: &Symbol| match s {
        Symbol::Terminal(i) => g.get_token_name(*i).to_string(),
        s => g.get_production_name(s).unwrap_or("").to_string(),
    };
    let mut helpers: BTreeMap<Symbol, BTreeSet<String>> = BTreeMap::new();
    for r in g.rules() {
        let l = r.lhs().unwrap();
        let got: Vec<String> = r.rhs().iter().map(|s| name(s)).collect();
        let line = r.rule().span.start.line as usize;
        let i = line.wrapping_sub(2 + nt);
        if i >= np {
            return Err(fail("origin", format!("a rule is attributed to line {}", line)));
        }
        if g.get_production_name(&l).is_none() {
            if kind != 2 || !helpers.entry(l).or_default().insert(got.concat()) {
                return Err(fail("rules", format!("unexpected rule {:?} -> {:?}", l, got)));
            }
            continue;
        }
        let want = match (i, kind) {
            (0, 2) => vec![String::new(); n],
            (0, _) => vec![toks[0].clone(), toks[nt / 2].clone(), toks[nt - 1].clone()],
            (i, _) => vec![prods[i - 1].clone(), toks[i % nt].clone()],
        };
        if name(&l) != prods[i] || got != want {
            return Err(fail("rules", format!("production {} of {:?} yields a rule {} of {:?}", prods[i], &want[..want.len().min(4)], name(&l), &got[..got.len().min(4)])));
        }
        if kind == 2 {
            let distinct: BTreeSet<&Symbol> = r.rhs().iter().collect();
            if distinct.len() != n {
                return Err(fail("shared helper", format!("{} operators use {} helpers", n, distinct.len())));
            }
        }
    }
    if let Some((h, v)) = helpers.iter().find(|(_, v)| v.len() != 2) {
        return Err(fail("rules", format!("helper {:?} has the alternatives {:?}", h, v)));
    }
    Ok(())
}

fn c06(ctx: &Ctx) {
    let mut cases = families::ebnf_single(ctx.pick(6, 7));
    cases.extend(families::ebnf_double(ctx.pick(6, 6)));
    cases.extend(families::operators(ctx.pick(5, 6)));
    cases.extend(families::rows(5, 9));
    cases.extend(families::shapes());
    cases.extend(families::tagged());
    cases.extend(families::plain(2, 2, ctx.pick(3, 4), 5, 3));
    // several EBNF productions side by side, of one or two symbols
    let pats = families::patterns(3, &[Pat::T(0), Pat::T(1)], 2);
    let pats2: Vec<Pat> = families::patterns(2, &[Pat::T(0), Pat::N(1)], 2).into_iter().chain([Pat::Eps, Pat::N(1)]).collect();
    for p in &pats {
        for q in &pats {
            cases.push(Spec::new("", 2, 2).p(0, p.clone()).p(0, q.clone()).p(1, Pat::T(0)));
            cases.push(Spec::new("", 2, 2).p(0, p.clone()).p(1, q.clone()));
        }
        for q in &pats2 {
            cases.push(Spec::new("", 2, 2).p(0, q.clone()).p(1, p.clone()).p(1, Pat::T(1)));
        }
    }
    // empty patterns inside operators
    let epats = families::patterns(ctx.pick(4, 5), &[Pat::Eps, Pat::T(0)], 3);
    for p in &epats {
        cases.push(Spec::new("", 1, 1).p(0, p.clone()));
    }
    cases.push(families::wide(30));
    cases.push(families::deep(20));
    cases.extend(families::operators_galore(ctx.pick(7, 8), 100));
    ctx.count("grammars", cases.len() as u64);
    ctx.sample(cases[cases.len() / 5].brief());
    ctx.sample(cases[cases.len() / 2].brief());
    ctx.sample(cases[cases.len() - 5].brief());
    let k = ctx.pick(4, 5);
    ctx.info("bound", format!("token strings up to length {} per symbol; symbol strings up to length {} per production, with derivation counts", k, k));
    ctx.par(&cases, Duration::from_secs(120), |s| s.brief(), |s, t| {
        // these choose between words of that length
        let k = if s.label.starts_with("galore-choice") { ctx.pick(7, 8) } else { k };
        c06_one(s, Style::Bare, k, t)?;
        c06_one(s, Style::Wrapped, k, t)
    });
    // around the number of symbols an index can count
    let m = u16::MAX as usize;
    let sizes = [255, 256, 257, 32767, 32768, 32769, m - 8, m - 1, m, m + 1, m + 2, m + 3, m + 9, 2 * m + 3];
    let many: Vec<(usize, usize)> = (0..3).flat_map(|k| sizes.iter().map(move |n| (k, *n))).collect();
    ctx.count("symbol_counts", many.len() as u64);
    ctx.par(&many, Duration::from_secs(120), |c| format!("{} symbols of kind {}", c.1, c.0), |c, t| many_symbols(c.0, c.1, t));
    ctx.assume("grammars are built through lapex_input::RuleSet, in the two pattern shapes the two grammar readers produce");
}

// ---------------------------------------------------------------- C07

fn c07_one(s: &Spec, k: usize, t: &mut Tally) -> Outcome {
    let rs = rule_set(s, Style::Bare);
    let g = Grammar::from_rule_set(&rs).map_err(|e| fail(s, "refused", format!("refused with {:?}", e)))?;
    let v = view(&g, s).map_err(|e| fail(s, "shape", e))?;
    as_written(s, &v).map_err(|e| fail(s, "rules", e))?;
    let want = ll1(&v.bnf);
    let conv = |r: &Vec<Symbol>| -> Option<Vec<Sym>> { r.iter().filter(|x| **x != Symbol::Epsilon).map(|x| v.sym.get(x).copied()).collect() };
    let conflicts: Vec<_> = want.iter().filter(|(_, v)| v.len() > 1).collect();
    let la_of = |x: &Symbol| match x {
        Symbol::End => Some(v.bnf.nt as u16),
        x => match v.sym.get(x) {
            Some(Sym::T(t)) => Some(*t),
            _ => None,
        },
    };
    let table = match ll_parser::generate_table(&g) {
        Err(LLParserError::ParserTableConflict { non_terminal, terminal, production, existing_production }) => {
            let e = |m: &str| Err(fail(s, "conflict", format!("reported conflict {:?} on {:?} between {:?} and {:?}: {}", non_terminal, terminal, production, existing_production, m)));
            if conflicts.is_empty() {
                return e("the grammar is LL(1)");
            }
            t.add("not_ll1", 1);
            let (Some(Sym::N(n)), Some(a)) = (v.sym.get(&non_terminal), la_of(&terminal)) else { return e("unknown symbols") };
            let (Some(p), Some(q)) = (conv(&production), conv(&existing_production)) else { return e("unknown symbols in the productions") };
            let Some(rs) = want.get(&(*n, a)) else { return e("no alternative is selected by that token") };
            let ok = rs.iter().any(|i| rs.iter().any(|j| i != j && v.bnf.rules[*i].1 == p && v.bnf.rules[*j].1 == q));
            if !ok {
                return e("these alternatives do not compete");
            }
            return Ok(());
        }
        Err(e) => return Err(fail(s, "error", format!("generation failed with {:?}", e))),
        Ok(x) => x,
    };
    if let Some(((n, a), rs)) = conflicts.first() {
        return Err(fail(s, "missed conflict", format!("generation succeeded although {} has {} alternatives on lookahead {} ({})", v.bnf.names[*n as usize], rs.len(), a, rs.iter().map(|r| v.bnf.show_rule(*r)).collect::<Vec<_>>().join(" / "))));
    }
    t.add("ll1", 1);
    let back: HashMap<Sym, Symbol> = v.sym.iter().map(|(a, b)| (*b, *a)).collect();
    let mut chosen: BTreeMap<(u16, u16), Vec<Sym>> = BTreeMap::new();
    for n in 0..v.bnf.nn as u16 {
        let Some(nt) = back.get(&Sym::N(n)) else { continue };
        for a in 0..=v.bnf.nt as u16 {
            let la = if a as usize == v.bnf.nt { Symbol::End } else { back[&Sym::T(a)] };
            let got = table.get_production(*nt, &la);
            let exp = want.get(&(n, a)).map(|r| &v.bnf.rules[r[0]].1);
            t.add("transitions", 1);
            let gc = match got {
                Some(r) => Some(conv(r).ok_or_else(|| fail(s, "entry", "table entry with unknown symbols".into()))?),
                None => None,
            };
            if gc.as_ref() != exp {
                return Err(fail(s, "table", format!("table of {} on lookahead {}: {:?}, FIRST/FOLLOW select {:?}", v.bnf.names[n as usize], a, gc, exp)));
            }
            if let Some(r) = gc {
                chosen.insert((n, a), r);
            }
        }
    }
    // predictive parsing with the table
    if v.bnf.nt > 6 {
        return Ok(());
    }
    let k = if v.bnf.nt > 3 { k.min(4) } else { k };
    let langs = v.bnf.langs(k);
    for i in 0..langs.strings.total() {
        let w = langs.strings.string(i);
        let mut stack = vec![Sym::N(v.bnf.start)];
        let mut pos = 0;
        let mut steps = 0;
        let ok = loop {
            steps += 1;
            t.add("states", 1);
            if steps > 20000 {
                return Err(fail(s, "loop", format!("predictive parsing of {:?} does not end", w)));
            }
            let a = w.get(pos).copied().unwrap_or(v.bnf.nt as u16);
            match stack.pop() {
                None => break pos == w.len(),
                Some(Sym::T(x)) => {
                    if x != a || pos == w.len() {
                        break false;
                    }
                    pos += 1;
                }
                Some(Sym::N(n)) => match chosen.get(&(n, a)) {
                    None => break false,
                    Some(r) => stack.extend(r.iter().rev()),
                },
            }
        };
        t.add("traces_validated_against_impl", 1);
        if ok != langs.has(v.bnf.start, i) {
            return Err(fail(s, "parse", format!("predictive parsing {} {:?}, the grammar {}", if ok { "accepts" } else { "rejects" }, w, if ok { "does not derive it" } else { "derives it" })));
        }
    }
    Ok(())
}

fn all_grammars(ctx: &Ctx) -> Vec<Spec> {
    let mut v = families::plain(2, 2, 4, 6, 3);
    if ctx.thorough() {
        v.extend(families::plain(2, 2, 5, 7, 3));
        v.extend(families::plain(3, 2, 5, 6, 2));
    } else {
        v.extend(families::plain(3, 2, 4, 5, 2));
    }
    v.extend(families::plain(1, 3, 4, 6, 3));
    v.extend(families::ebnf_single(ctx.pick(5, 6)));
    v.extend(families::ebnf_double(ctx.pick(4, 5)));
    v.extend(families::shapes());
    v.extend(families::contexts());
    v.extend(families::tagged());
    v.extend(families::rivals(ctx.pick(5, 6)));
    v.extend(families::followers(ctx.pick(4, 5)));
    v.extend([families::words(300), families::unit_chain(300), families::groups(17), families::options(40), families::merged(60), families::binary(60, false), families::binary(60, true)]);
    for back in [false, true] {
        v.extend([families::chain(300, back, false), families::chain(300, back, true)]);
    }
    v.push(families::wide(40));
    v.push(families::long(300));
    v.push(families::deep(40));
    // the entry is not the first symbol, and several symbols are declared before it
    for s in families::plain(2, 2, 3, 4, 2) {
        if s.nts.len() == 2 {
            let mut r = s.clone();
            r.entry = 1;
            v.push(r);
            let mut r = s.clone();
            r.prods.reverse();
            v.push(r);
        }
    }
    // the same rule twice
    v.extend(families::repeated(&families::plain(2, 2, 3, ctx.pick(4, 5), 2)));
    ctx.count("grammars", v.len() as u64);
    for i in [v.len() / 7, v.len() / 3, v.len() - 40] {
        ctx.sample(v[i].brief());
    }
    ctx.info(
        "enumeration",
        format!(
            "all grammars up to renaming with <=2 nonterminals, <=2 tokens, {}; 3 nonterminals: {}; 1 nonterminal, 3 tokens, <=4 rules; EBNF patterns; context and shape families",
            ctx.pick("<=4 rules, <=6 symbols, right-hand sides <=3", "<=5 rules, <=7 symbols, right-hand sides <=3"),
            ctx.pick("<=4 rules, <=5 symbols, right-hand sides <=2", "<=5 rules, <=6 symbols, right-hand sides <=2")
        ),
    );
    v
}

fn c07(ctx: &Ctx) {
    let cases = all_grammars(ctx);
    let k = ctx.pick(5, 6);
    ctx.par(&cases, Duration::from_secs(60), |s| s.brief(), |s, t| c07_one(s, k, t));
    command_line(ctx, &cases, &[Algo::LL1]);
}

/// The command line on the same grammars: what it accepts and refuses, judged by the automata of the
/// grammar as lapex expands it.
fn command_line(ctx: &Ctx, cases: &[Spec], algos: &[Algo]) {
    let base = ctx.scratch();
    let n = (cases.len() / ctx.pick(700, 6000)).max(1);
    let some: Vec<(usize, &Spec)> = cases.iter().enumerate().filter(|(i, s)| i % n == 0 || !s.label.is_empty() && !(s.label.starts_with("ctx") && i % 4 != 0)).collect();
    ctx.par(&some, Duration::from_secs(300), |(_, s)| format!("command {}", s.brief()), |(i, s), t| {
        let rs = rule_set(s, Style::Bare);
        let g = Grammar::from_rule_set(&rs).map_err(|e| fail(s, "refused", format!("refused with {:?}", e)))?;
        let v = view(&g, s).map_err(|e| fail(s, "shape", e))?;
        for (k, a) in algos.iter().enumerate() {
            let lang = match a {
                Algo::LL1 => Lang::Cpp,
                Algo::Glr => Lang::Rust,
                _ if (i + k) % 2 == 0 => Lang::Rust,
                _ => Lang::Cpp,
            };
            let kind = match a {
                Algo::LR0 => Some(Kind::Lr0),
                Algo::Lalr => Some(Kind::Lalr),
                Algo::LR1 => Some(Kind::Lr1),
                _ => None,
            };
            let want = match kind {
                _ if *a == Algo::Glr => true,
                None => ll1(&v.bnf).values().all(|r| r.len() == 1),
                Some(k) => automaton(&v.bnf, k).conflicts(&v.bnf).is_empty(),
            };
            let dir = fresh_dir(&base, "cmd");
            let r = Gen::new(*a, lang).text(&s.text(), &dir, Duration::from_secs(60));
            t.add("commands run", 1);
            if r.ok() != want || r.code.is_none() {
                return Err(fail(s, "command", format!("generate -l {} -a {}: the grammar {}; {}", lang.arg(), a.arg(), if want { "has no conflict" } else { "has conflicts" }, r.describe())));
            }
            if !want && r.err.trim().is_empty() {
                return Err(fail(s, "command", format!("generate -l {} -a {}: refused without a message", lang.arg(), a.arg())));
            }
            let _ = std::fs::remove_dir_all(&dir);
            let _ = std::fs::remove_file(dir.with_extension("lapex"));
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C08

fn c08_one(s: &Spec, t: &mut Tally) -> Outcome {
    let rs = rule_set(s, Style::Bare);
    let g = Grammar::from_rule_set(&rs).map_err(|e| fail(s, "refused", format!("refused with {:?}", e)))?;
    let v = view(&g, s).map_err(|e| fail(s, "shape", e))?;
    as_written(s, &v).map_err(|e| fail(s, "rules", e))?;
    let aug = v.bnf.rules.len();
    let idx = |r: &Rule| -> Option<usize> {
        if r.lhs().is_none() {
            return Some(aug);
        }
        g.rules().iter().position(|q| std::ptr::eq(q, r))
    };
    let name = |i: usize| if i == aug { format!("<entry> -> {}", v.bnf.names[v.bnf.start as usize]) } else { v.bnf.show_rule(i) };
    for (alg, kind) in [("lr0", Kind::Lr0), ("lalr", Kind::Lalr), ("lr1", Kind::Lr1), ("glr", Kind::Lalr)] {
        let a = automaton(&v.bnf, kind);
        let want = a.conflicts(&v.bnf);
        t.add("states", a.states.len() as u64);
        t.add("transitions", a.trans.iter().map(|t| t.len() as u64).sum());
        t.add("traces_validated_against_impl", 1);
        // (refused, reported conflicts)
        fn conv<'g, 'r, const N: usize>(r: GenerationResult<'g, 'r, N>) -> (bool, Vec<Conflict<'g, 'r>>) {
            match r {
                GenerationResult::NoConflicts(_) => (false, vec![]),
                GenerationResult::AllowedConflicts { conflicts, .. } => (false, conflicts),
                GenerationResult::BadConflicts(c) => (true, c),
            }
        }
        let (refused, got) = match alg {
            "lr0" => conv(lr_parser::generate_table::<0>(&g, false, false)),
            "lalr" => conv(lr_parser::generate_table::<1>(&g, false, true)),
            "lr1" => conv(lr_parser::generate_table::<1>(&g, false, false)),
            _ => conv(lr_parser::generate_table::<1>(&g, true, true)),
        };
        let show = |c: &mccore::lr::Conflicts| {
            let mut o = Vec::new();
            for (r, t) in &c.shift_reduce {
                o.push(format!("shift {} / reduce {}", s.toks[*t as usize], name(*r)));
            }
            for (a, b) in &c.reduce_reduce {
                o.push(format!("reduce {} / reduce {}", name(*a), name(*b)));
            }
            o.join("; ")
        };
        if alg == "glr" {
            if refused {
                return Err(fail(s, "glr refused", "GLR generation was refused".to_string()));
            }
        } else {
            if refused && got.is_empty() {
                return Err(fail(s, alg, format!("{} refused without a conflict", alg)));
            }
            if refused != !want.is_empty() {
                return Err(fail(s, alg, format!("{} generation {}, but the automaton has {}", alg, if refused { "refused" } else { "succeeded" }, if want.is_empty() { "no conflict".to_string() } else { format!("conflicts: {}", show(&want)) })));
            }
            t.add(if refused { "refused" } else { "accepted" }, 1);
        }
        for c in &got {
            let bad = |m: String| Err(fail(s, alg, format!("{}: reported {}; real conflicts: {}", alg, m, show(&want))));
            match c {
                Conflict::ShiftReduce { item_to_reduce, shift_symbol, .. } => {
                    let Some(r) = idx(item_to_reduce.rule()) else { return bad("an unknown rule".into()) };
                    let Some(Sym::T(x)) = v.sym.get(shift_symbol) else { return bad(format!("a shift of {:?}", shift_symbol)) };
                    if item_to_reduce.symbol_after_dot().is_some() {
                        return bad(format!("an incomplete item of {}", name(r)));
                    }
                    if !want.shift_reduce.contains(&(r, *x)) {
                        return bad(format!("shift {} / reduce {}", s.toks[*x as usize], name(r)));
                    }
                }
                Conflict::ReduceReduce { items, .. } => {
                    let rs: Option<Vec<usize>> = items.iter().map(|i| idx(i.rule())).collect();
                    let Some(rs) = rs else { return bad("an unknown rule".into()) };
                    let set: BTreeSet<usize> = rs.iter().copied().collect();
                    if set.len() < 2 || set.len() != rs.len() {
                        return bad(format!("a reduce/reduce conflict of {:?}", rs.iter().map(|r| name(*r)).collect::<Vec<_>>()));
                    }
                    for i in &set {
                        for j in &set {
                            if i < j && !want.reduce_reduce.contains(&(*i, *j)) {
                                return bad(format!("reduce {} / reduce {}", name(*i), name(*j)));
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn c08(ctx: &Ctx) {
    let cases = all_grammars(ctx);
    ctx.par(&cases, Duration::from_secs(60), |s| s.brief(), |s, t| c08_one(s, t));
    command_line(ctx, &cases, &[Algo::LR0, Algo::LR1, Algo::Lalr, Algo::Glr]);
}

// ---------------------------------------------------------------- C09

struct Machine {
    /// actions[state][lookahead]
    actions: Vec<Vec<Vec<Act>>>,
    goto: Vec<BTreeMap<u16, usize>>,
    entry: usize,
}
#[derive(Clone, Copy, Debug)]
enum Act {
    Shift(usize),
    Reduce(usize),
    Accept,
}

fn machine(g: &Grammar, v: &View, table: &ActionGotoTable) -> Result<Machine, String> {
    let nt = v.bnf.nt;
    let mut m = Machine { actions: vec![vec![Vec::new(); nt + 1]; table.states()], goto: vec![BTreeMap::new(); table.states()], entry: table.entry_state() };
    for st in 0..table.states() {
        for (sym, e) in table.iter_state_terminals(st, g) {
            let a = match sym {
                Symbol::End => nt,
                x => match v.sym.get(&x) {
                    Some(Sym::T(t)) => *t as usize,
                    _ => return Err(format!("column {:?}", x)),
                },
            };
            for e in e.map(|v| v.as_slice()).unwrap_or(&[]) {
                match e {
                    TableEntry::Shift { target } => m.actions[st][a].push(Act::Shift(*target)),
                    TableEntry::Reduce { rule } => {
                        let r = g.rules().iter().position(|q| std::ptr::eq(q, *rule)).ok_or("reduce by an unknown rule")?;
                        m.actions[st][a].push(Act::Reduce(r))
                    }
                    TableEntry::Accept => m.actions[st][a].push(Act::Accept),
                    TableEntry::Error => {}
                }
            }
        }
        for (sym, e) in table.iter_state_non_terminals(st, g) {
            let Some(Sym::N(n)) = v.sym.get(&sym) else { return Err(format!("column {:?}", sym)) };
            for e in e.map(|v| v.as_slice()).unwrap_or(&[]) {
                match e {
                    TableEntry::Shift { target } => {
                        if m.goto[st].insert(*n, *target).is_some() {
                            return Err(format!("two gotos in state {}", st));
                        }
                    }
                    TableEntry::Error => {}
                    e => return Err(format!("goto entry {}", e)),
                }
            }
        }
    }
    Ok(m)
}

/// The table next to the canonical LR(1) automaton of the grammar, over every viable prefix of any length: all pairs
/// of states that some prefix leads to. On a token that can come next the table has exactly the actions of the
/// automaton (a GLR table may have further reductions); on others it shifts nothing, and reduces only by rules that
/// are complete there.
fn against_lr1(m: &Machine, b: &Bnf, lr1: &lr::Automaton, glr: bool, t: &mut Tally) -> Result<(), String> {
    let mut seen = BTreeSet::from([(m.entry, 0usize)]);
    let mut todo = vec![(m.entry, 0usize, Vec::<Sym>::new())];
    let mut at = 0;
    while at < todo.len() {
        let (x, y, path) = todo[at].clone();
        at += 1;
        let mut step = |x: usize, y: usize, s: Sym, todo: &mut Vec<(usize, usize, Vec<Sym>)>| {
            if seen.insert((x, y)) {
                let mut p = path.clone();
                p.push(s);
                todo.push((x, y, p));
            }
        };
        for a in 0..=b.nt as u16 {
            let c = lr1.cell(b, y, a);
            let acts = &m.actions[x][a as usize];
            let say = |e: String| Err(format!("after {:?}, on token {} ({:?}): {}", path, a, acts, e));
            t.add("transitions", 1);
            let shifts: Vec<usize> = acts.iter().filter_map(|q| if let Act::Shift(n) = q { Some(*n) } else { None }).collect();
            let reduces: Vec<usize> = acts.iter().filter_map(|q| if let Act::Reduce(n) = q { Some(*n) } else { None }).collect();
            let accepts = acts.iter().filter(|q| matches!(q, Act::Accept)).count();
            if shifts.len() != c.shift.is_some() as usize {
                return say(format!("{} shifts", shifts.len()));
            }
            if accepts != c.accept as usize {
                return say(format!("{} accepts", accepts));
            }
            if let Some(r) = c.reduce.iter().find(|r| reduces.iter().filter(|q| q == r).count() != 1) {
                return say(format!("the reduction by {} is not there, or twice", b.show_rule(*r)));
            }
            if let Some(r) = reduces.iter().find(|r| !lr1.states[y].contains_key(&(**r, b.rules[**r].1.len()))) {
                return say(format!("the rule {} is not complete", b.show_rule(*r)));
            }
            if !glr && c.actions() == 1 && acts.len() != 1 {
                return say("further actions".into());
            }
            if let (Some(n), Some(k)) = (shifts.first(), c.shift) {
                step(*n, k, Sym::T(a), &mut todo);
            }
        }
        for (s, k) in &lr1.trans[y] {
            if let Sym::N(n) = s {
                match m.goto[x].get(n) {
                    Some(g) => step(*g, *k, *s, &mut todo),
                    None => return Err(format!("after {:?}: no goto on symbol {}", path, n)),
                }
            }
        }
    }
    t.add("pairs of states of the table and of the canonical LR(1) automaton", seen.len() as u64);
    Ok(())
}

/// Depth-first exploration of every run of the table on `w`; returns the reduction sequences.
fn runs(m: &Machine, b: &Bnf, w: &[u16], cap: u64, t: &mut Tally) -> Result<Vec<Vec<usize>>, String> {
    struct St<'a> {
        m: &'a Machine,
        b: &'a Bnf,
        w: &'a [u16],
        steps: u64,
        cap: u64,
        out: Vec<Vec<usize>>,
    }
    fn go(s: &mut St, states: &mut Vec<usize>, syms: &mut Vec<Sym>, pos: usize, red: &mut Vec<usize>) -> Result<(), String> {
        s.steps += 1;
        if red.len() > 2000 {
            return Err("the run does not end".into());
        }
        if s.steps > s.cap {
            return Err("cut".into());
        }
        let a = s.w.get(pos).copied().unwrap_or(s.b.nt as u16) as usize;
        let top = *states.last().unwrap();
        for k in 0..s.m.actions[top][a].len() {
            match s.m.actions[top][a][k] {
                Act::Shift(n) => {
                    if pos == s.w.len() {
                        return Err("shift of the end of input".into());
                    }
                    states.push(n);
                    syms.push(Sym::T(a as u16));
                    go(s, states, syms, pos + 1, red)?;
                    states.pop();
                    syms.pop();
                }
                Act::Reduce(r) => {
                    let (l, rhs) = &s.b.rules[r];
                    if syms.len() < rhs.len() || syms[syms.len() - rhs.len()..] != rhs[..] {
                        return Err(format!("reduction by {} with {:?} on the stack", s.b.show_rule(r), syms));
                    }
                    let keep = states.len() - rhs.len();
                    let old_states = states.split_off(keep);
                    let old_syms = syms.split_off(keep - 1);
                    let n = *s.m.goto[*states.last().unwrap()].get(l).ok_or_else(|| format!("no goto after reducing by {}", s.b.show_rule(r)))?;
                    states.push(n);
                    syms.push(Sym::N(*l));
                    red.push(r);
                    go(s, states, syms, pos, red)?;
                    red.pop();
                    states.truncate(keep);
                    syms.truncate(keep - 1);
                    states.extend(old_states);
                    syms.extend(old_syms);
                }
                Act::Accept => {
                    if pos != s.w.len() || syms[..] != [Sym::N(s.b.start)] {
                        return Err(format!("accepts with {:?} on the stack at token {}", syms, pos));
                    }
                    s.out.push(red.clone());
                }
            }
        }
        Ok(())
    }
    let mut s = St { m, b, w, steps: 0, cap, out: vec![] };
    let r = go(&mut s, &mut vec![m.entry], &mut vec![], 0, &mut vec![]);
    t.add("transitions", s.steps);
    r?;
    Ok(s.out)
}

fn c09_one(s: &Spec, k: usize, t: &mut Tally) -> Outcome {
    let rs = rule_set(s, Style::Bare);
    let g = Grammar::from_rule_set(&rs).map_err(|e| fail(s, "refused", format!("refused with {:?}", e)))?;
    let v = view(&g, s).map_err(|e| fail(s, "shape", e))?;
    as_written(s, &v).map_err(|e| fail(s, "rules", e))?;
    let endless = v.bnf.cyclic() || v.bnf.hidden_left_recursion();
    let productive = v.bnf.all_productive();
    let small = v.bnf.nt <= 6;
    let words: Vec<Vec<u16>> = if small {
        mccore::cfg::all_strings(v.bnf.nt, if v.bnf.nt > 3 { k.min(4) } else { k })
    } else {
        vec![]
    };
    // sentences of long or wide grammars, and all their one-token changes
    let mut words = words;
    if s.label.starts_with("long") {
        let w: Vec<u16> = v.bnf.rules[0].1.iter().map(|x| if let Sym::T(t) = x { *t } else { 0 }).take(60).collect();
        words = vec![w];
    }
    let truth: Vec<(Vec<u16>, Option<u64>)> = words.into_iter().filter(|w| w.len() < 60).map(|w| { let c = v.bnf.count_trees(&w); (w, c) }).collect();
    let lr1 = (productive && v.bnf.nt < 127).then(|| lr::automaton(&v.bnf, lr::Kind::Lr1));
    for (alg, kind) in [("lr0", 0), ("lalr", 1), ("lr1", 2), ("glr", 3)] {
        fn tab<'g, 'r, const N: usize>(r: GenerationResult<'g, 'r, N>) -> Option<ActionGotoTable<'g, 'r>> {
            match r {
                GenerationResult::NoConflicts(t) => Some(t),
                GenerationResult::AllowedConflicts { table, .. } => Some(table),
                GenerationResult::BadConflicts(_) => None,
            }
        }
        if alg == "lr0" && !productive {
            t.add("lr0_skipped_unproductive", 1);
            continue;
        }
        let table = match kind {
            0 => tab(lr_parser::generate_table::<0>(&g, false, false)),
            1 => tab(lr_parser::generate_table::<1>(&g, false, true)),
            2 => tab(lr_parser::generate_table::<1>(&g, false, false)),
            _ => tab(lr_parser::generate_table::<1>(&g, true, true)),
        };
        let Some(table) = table else { continue };
        let m = machine(&g, &v, &table).map_err(|e| fail(s, alg, format!("{} table: {}", alg, e)))?;
        t.add("states", m.actions.len() as u64);
        if alg != "glr" {
            for (st, row) in m.actions.iter().enumerate() {
                for (a, c) in row.iter().enumerate() {
                    if c.len() > 1 {
                        return Err(fail(s, alg, format!("{} table has {} actions in state {} on {}", alg, c.len(), st, a)));
                    }
                }
            }
        }
        if let Some(a) = &lr1 {
            against_lr1(&m, &v.bnf, a, alg == "glr", t).map_err(|e| fail(s, alg, format!("{} table {}", alg, e)))?;
            t.add("tables compared with the canonical automaton", 1);
        }
        if alg == "glr" && endless {
            t.add("glr_skipped_endless", 1);
            continue;
        }
        for (w, trees) in &truth {
            if alg == "glr" && trees.map_or(true, |n| n > 2000) {
                t.add("glr_words_with_too_many_derivations", 1);
                continue;
            }
            let out = match runs(&m, &v.bnf, w, 3_000_000, t) {
                Ok(o) => o,
                Err(e) if e == "cut" => {
                    t.add("glr_words_cut", 1);
                    continue;
                }
                Err(e) => return Err(fail(s, alg, format!("{} table on {:?}: {}", alg, w, e))),
            };
            t.add("traces_validated_against_impl", 1);
            let distinct: BTreeSet<&Vec<usize>> = out.iter().collect();
            if distinct.len() != out.len() || Some(out.len() as u64) != *trees {
                return Err(fail(
                    s,
                    alg,
                    format!("{} table on {:?}: {} successful runs ({} distinct), the grammar has {} derivations", alg, w, out.len(), distinct.len(), trees.map(|n| n.to_string()).unwrap_or("infinitely many".into())),
                ));
            }
        }
        t.add("tables", 1);
    }
    Ok(())
}

fn c09(ctx: &Ctx) {
    let cases = all_grammars(ctx);
    let k = ctx.pick(5, 6);
    ctx.info("bound", format!("all token strings up to length {} (4 for more than 3 tokens), every run of the table", k));
    ctx.par(&cases, Duration::from_secs(120), |s| s.brief(), |s, t| c09_one(s, k, t));
    ctx.assume("GLR tables of grammars with cycles or hidden left recursion are not run: they have unboundedly many runs");
}

fn main() {
    main_with(&[("C06", "model_checking", c06), ("C07", "model_checking", c07), ("C08", "model_checking", c08), ("C09", "model_checking", c09)]);
}
