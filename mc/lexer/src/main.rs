//! C01, C02: the token automaton built by lapex-lexer, checked state by state against the
//! product of the derivative automata of the written patterns.
mod units;
use lapex_automaton::AutomatonState;
use lapex_input::{Characters, LapexInputParser, Pattern, Spanned, TokenPattern, TokenRule};
use lapex_lexer::{apply_precedence_to_dfa, generate_alphabet, generate_nfa};
use mccore::lexref::{asts, LexModel, Tok};
use mccore::regex::{class_reps, lit, opt, plus, star, Ast};
use mccore::run::{main_with, Ctx, Fail, Outcome, Tally};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::time::Duration;

fn pattern(a: &Ast) -> Pattern {
    match a {
        Ast::Chr(c) => Pattern::Char { chars: Characters::Single(*c) },
        Ast::Class(r, neg) => {
            if r.len() == 1 && !neg && r[0].0 != r[0].1 {
                return Pattern::Char { chars: Characters::Range(r[0].0, r[0].1) };
            }
            Pattern::CharSet {
                chars: r.iter().map(|(a, b)| if a == b { Characters::Single(*a) } else { Characters::Range(*a, *b) }).collect(),
                negated: *neg,
            }
        }
        Ast::Seq(v) => Pattern::Sequence { elements: v.iter().map(pattern).collect() },
        Ast::Alt(v) => Pattern::Alternative { elements: v.iter().map(pattern).collect() },
        Ast::Rep(a, n, m) => Pattern::Repetition { min: *n, max: *m, inner: Box::new(pattern(a)) },
    }
}

fn rules(toks: &[Tok]) -> Vec<Spanned<TokenRule<'_>>> {
    toks.iter()
        .map(|t| {
            Spanned::zero(TokenRule {
                name: &t.name,
                precedence: t.prec,
                pattern: match &t.literal {
                    Some(l) => TokenPattern::Literal { characters: l.chars().collect() },
                    None => TokenPattern::Pattern { pattern: pattern(&t.ast) },
                },
            })
        })
        .collect()
}

fn show(toks: &[Tok]) -> String {
    toks.iter().map(|t| t.decl()).collect::<Vec<_>>().join(" ")
}

fn is_scalar(c: u32) -> bool {
    char::from_u32(c).is_some()
}

struct Dfa {
    accept: Vec<Vec<String>>,
    next: Vec<BTreeMap<usize, usize>>,
}

/// Explores the product of the implementation automaton and the model and calls `at` on every
/// pair of states with an access string.
fn explore(toks: &[Tok], model: &LexModel, dfa: &Dfa, class: &dyn Fn(u32) -> Option<usize>, chars: &[u32], tally: &mut Tally, at: &dyn Fn(Option<&Vec<String>>, usize) -> Result<(), String>) -> Outcome {
    let dead = usize::MAX;
    let mut seen: HashMap<(usize, usize), Option<((usize, usize), u32)>> = HashMap::new();
    let mut todo = VecDeque::new();
    seen.insert((0, 0), None);
    todo.push_back((0usize, 0usize));
    let path = |seen: &HashMap<(usize, usize), Option<((usize, usize), u32)>>, mut s: (usize, usize)| {
        let mut v = Vec::new();
        while let Some(Some((p, c))) = seen.get(&s) {
            v.push(char::from_u32(*c).unwrap());
            s = *p;
        }
        v.reverse();
        v.into_iter().collect::<String>()
    };
    // every model state, reached by its access string and left by every class, as a run of its own
    for (m, acc) in model.product.access.iter().enumerate() {
        for last in std::iter::once(None).chain(model.product.starts.iter().map(Some)) {
            let mut d = Some(0usize);
            let mut st = 0usize;
            for c in acc.iter().chain(last) {
                d = d.and_then(|d| class(*c).and_then(|k| dfa.next[d].get(&k).copied()));
                st = model.product.next[st][model.product.class(*c)];
            }
            if last.is_none() {
                assert_eq!(st, m);
            }
            tally.add("traces_validated_against_impl", 1);
            if let Err(e) = at(d.map(|d| &dfa.accept[d]), st) {
                let w: String = acc.iter().chain(last).map(|c| char::from_u32(*c).unwrap()).collect();
                return Err(Fail::new(format!("{} on {:?}", show(toks), w), format!("tokens {}; string {:?}: {}", show(toks), w, e)));
            }
        }
        if model.product.access.len() > 400 {
            break;
        }
    }
    while let Some((d, m)) = todo.pop_front() {
        tally.add("states", 1);
        let acc = if d == dead { None } else { Some(&dfa.accept[d]) };
        if let Err(e) = at(acc, m) {
            let w = path(&seen, (d, m));
            return Err(Fail::new(format!("{} on {:?}", show(toks), w), format!("tokens {}; string {:?}: {}", show(toks), w, e)));
        }
        if d == dead && !model.product.alive[m] {
            continue;
        }
        for &c in chars {
            let Some(k) = class(c) else {
                return Err(Fail::new(format!("{} class U+{:04X}", show(toks), c), format!("tokens {}: U+{:04X} is in no class of the alphabet", show(toks), c)));
            };
            let d2 = if d == dead { dead } else { dfa.next[d].get(&k).copied().unwrap_or(dead) };
            let m2 = model.product.next[m][model.product.class(c)];
            tally.add("transitions", 1);
            if !seen.contains_key(&(d2, m2)) {
                seen.insert((d2, m2), Some(((d, m), c)));
                todo.push_back((d2, m2));
            }
        }
    }
    Ok(())
}

/// Deterministic automata never have two transitions for one class.
fn edges<'a>(it: impl Iterator<Item = (&'a usize, usize)>) -> Result<BTreeMap<usize, usize>, String> {
    let mut m = BTreeMap::new();
    for (k, t) in it {
        if let Some(o) = m.insert(*k, t) {
            if o != t {
                return Err(format!("two transitions on alphabet class {}", k));
            }
        }
    }
    Ok(m)
}

fn check_language(toks: &[Tok], tally: &mut Tally) -> Outcome {
    let model = LexModel::new(toks);
    let rs = rules(toks);
    let alphabet = generate_alphabet(&rs);
    let bad = |e: String| Fail::new(format!("{} alphabet", show(toks)), format!("tokens {}: {}", show(toks), e));
    // every scalar value in exactly one class, looked up correctly
    let ranges = alphabet.get_ranges();
    let mut probes: HashSet<u32> = HashSet::new();
    for (i, r) in ranges.iter().enumerate() {
        for (j, q) in ranges.iter().enumerate() {
            if i < j && r.start() <= q.end() && q.start() <= r.end() {
                return Err(bad(format!("alphabet classes {:?} and {:?} overlap", r, q)));
            }
        }
        for c in [*r.start(), *r.end(), r.start().saturating_sub(1), *r.end() + 1] {
            probes.insert(c);
        }
    }
    let asts: Vec<&Ast> = toks.iter().map(|t| &t.ast).collect();
    probes.extend(class_reps(&asts));
    let mut chars: Vec<u32> = probes.into_iter().filter(|c| is_scalar(*c)).collect();
    chars.sort();
    for &c in &chars {
        let home: Vec<usize> = (0..ranges.len()).filter(|i| ranges[*i].contains(&c)).collect();
        let found = alphabet.find_range(c);
        if home.len() != 1 || found != Some(home[0]) {
            return Err(bad(format!("U+{:04X} lies in classes {:?} and is looked up as {:?}", c, home, found)));
        }
        tally.add("alphabet_lookups", 1);
    }
    let (entry, nfa) = generate_nfa(&alphabet, &rs);
    let full = nfa.powerset_construction(entry);
    let mut dfa = Dfa { accept: vec![], next: vec![] };
    for (i, (id, s)) in full.states().enumerate() {
        assert_eq!(id.index(), i);
        let mut acc: Vec<String> = match s {
            AutomatonState::Accepting(v) => v.iter().map(|r| r.inner.name.to_string()).collect(),
            AutomatonState::Intermediate(_) => vec![],
        };
        acc.sort();
        acc.dedup();
        dfa.accept.push(acc);
        dfa.next.push(edges(full.transitions_from(id).map(|(k, t)| (k, t.index()))).map_err(bad)?);
    }
    explore(toks, &model, &dfa, &|c| alphabet.find_range(c), &chars, tally, &|acc, m| {
        let mut want: Vec<String> = model.product.accept[m].iter().map(|i| toks[*i].name.clone()).collect();
        want.sort();
        let empty = vec![];
        let got = acc.unwrap_or(&empty);
        if *got != want {
            return Err(format!("automaton accepts as {:?}, the patterns match it as {:?}", got, want));
        }
        Ok(())
    })
}

fn check_precedence(toks: &[Tok], tally: &mut Tally) -> Outcome {
    let model = LexModel::new(toks);
    let rs = rules(toks);
    let alphabet = generate_alphabet(&rs);
    let (entry, nfa) = generate_nfa(&alphabet, &rs);
    let ties = model.ties();
    match apply_precedence_to_dfa(nfa.powerset_construction(entry)) {
        Err(e) => {
            tally.add("tied_sets", 1);
            let mut got: Vec<String> = e.rules.iter().map(|r| r.inner.clone()).collect();
            got.sort();
            let ok = ties.iter().any(|(t, p)| {
                let mut n: Vec<String> = t.iter().map(|i| toks[*i].name.clone()).collect();
                n.sort();
                n == got && *p == e.precedence
            });
            if !ok {
                return Err(Fail::new(
                    format!("{} error", show(toks)),
                    format!("tokens {}: precedence error names {:?} at precedence {}, but the tied groups are {:?} (token index, precedence)", show(toks), got, e.precedence, ties),
                ));
            }
            Ok(())
        }
        Ok(full) => {
            if !ties.is_empty() {
                return Err(Fail::new(format!("{} missed tie", show(toks)), format!("tokens {}: accepted although {:?} tie (token indices, precedence)", show(toks), ties[0])));
            }
            let mut dfa = Dfa { accept: vec![], next: vec![] };
            let bad = |e: String| Fail::new(format!("{} dfa", show(toks)), format!("tokens {}: {}", show(toks), e));
            for (i, (id, s)) in full.states().enumerate() {
                assert_eq!(id.index(), i);
                dfa.accept.push(match s {
                    AutomatonState::Accepting(v) => vec![v.name.to_string()],
                    AutomatonState::Intermediate(_) => vec![],
                });
                dfa.next.push(edges(full.transitions_from(id).map(|(k, t)| (k, t.index()))).map_err(bad)?);
            }
            let asts: Vec<&Ast> = toks.iter().map(|t| &t.ast).collect();
            let chars = class_reps(&asts);
            explore(toks, &model, &dfa, &|c| alphabet.find_range(c), &chars, tally, &|acc, m| {
                let want: Vec<String> = match &model.winner[m] {
                    Some(Ok(t)) => vec![toks[*t].name.clone()],
                    _ => vec![],
                };
                let empty = vec![];
                let got = acc.unwrap_or(&empty);
                if *got != want {
                    return Err(format!("automaton says {:?}, highest precedence is {:?}", got, want));
                }
                Ok(())
            })
        }
    }
}

/// The precedences that follow from the rules as written in a grammar file.
fn check_read(toks: &[Tok], tally: &mut Tally) -> Outcome {
    let text = format!("{}\nentry s;\nprod s = {};\n", toks.iter().map(|t| t.decl()).collect::<Vec<_>>().join("\n"), toks[0].name);
    let rules = lapex_input_gen::GeneratedLapexInputParser.parse_lapex(&text).map_err(|e| Fail::new(format!("{} reading", show(toks)), format!("{} is not read: {}", text, e)))?;
    tally.add("rules_read_from_text", rules.token_rules.len() as u64);
    for t in toks {
        let Some(r) = rules.token_rules.iter().find(|r| r.inner.name == t.name) else {
            return Err(Fail::new(format!("{} reading", show(toks)), format!("{}: token {} is not read", text, t.name)));
        };
        if r.inner.precedence() != t.precedence() {
            return Err(Fail::new(format!("{} precedence", show(toks)), format!("{}: token {} has precedence {}, should be {}", text, t.name, r.inner.precedence(), t.precedence())));
        }
    }
    Ok(())
}

const REPS: [(u32, Option<u32>); 9] =
    [(0, None), (1, None), (0, Some(1)), (2, None), (2, Some(2)), (1, Some(2)), (0, Some(2)), (1, Some(3)), (1, Some(1))];

fn cls(r: &[(char, char)]) -> Ast {
    Ast::Class(r.to_vec(), false)
}
fn ncls(r: &[(char, char)]) -> Ast {
    Ast::Class(r.to_vec(), true)
}

/// Character sets at the edges of the alphabet computation.
fn edge_sets() -> Vec<Ast> {
    let pts = ['\u{1}', '\u{2}', 'a', 'b', 'c', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10fffe}', '\u{10ffff}'];
    let mut v = Vec::new();
    for (i, a) in pts.iter().enumerate() {
        v.push(Ast::Chr(*a));
        for b in &pts[i..] {
            v.push(cls(&[(*a, *b)]));
            v.push(ncls(&[(*a, *b)]));
        }
    }
    for (i, a) in pts.iter().enumerate() {
        for b in &pts[i + 1..] {
            v.push(cls(&[(*a, *a), (*b, *b)]));
            v.push(ncls(&[(*b, *b), (*a, *a)]));
        }
    }
    // overlapping, touching and nested ranges in one set
    let l = ['a', 'b', 'c', 'd', 'e', 'f'];
    for a in 0..6 {
        for b in a..6 {
            for c in 0..6 {
                for d in c..6 {
                    v.push(cls(&[(l[a], l[b]), (l[c], l[d])]));
                    v.push(ncls(&[(l[a], l[b]), (l[c], l[d])]));
                }
            }
        }
    }
    v
}

fn c01(ctx: &Ctx) {
    let a = Ast::Chr('a');
    let b = Ast::Chr('b');
    let leaves = [a.clone(), b.clone(), cls(&[('a', 'c')]), ncls(&[('b', 'b')])];
    let max = ctx.pick(5, 6);
    let mut cases: Vec<Vec<Tok>> = Vec::new();
    for s in 1..=max {
        for p in asts(s, &leaves, &REPS) {
            cases.push(vec![Tok::re("T", p)]);
        }
    }
    ctx.info("patterns", format!("all patterns of up to {} nodes over leaves a, b, [a-c], [^b] with {} repetition kinds", max, REPS.len()));
    // larger repetition bounds, alone and nested
    for n in 0..=7u32 {
        for m in n.max(1)..=8 {
            for body in [a.clone(), Ast::Seq(vec![a.clone(), b.clone()]), Ast::Alt(vec![a.clone(), lit("ab")]), opt(a.clone()), star(b.clone()), Ast::Seq(vec![opt(a.clone()), opt(b.clone())]), plus(cls(&[('a', 'b')]))] {
                cases.push(vec![Tok::re("T", Ast::Rep(Box::new(body.clone()), n, Some(m)))]);
                cases.push(vec![Tok::re("T", Ast::Seq(vec![Ast::Rep(Box::new(body.clone()), n, Some(m)), b.clone()]))]);
                if m == n.max(1) {
                    cases.push(vec![Tok::re("T", Ast::Seq(vec![Ast::Rep(Box::new(body), n, None), b.clone()]))]);
                }
            }
        }
    }
    let edges = edge_sets();
    for e in &edges {
        cases.push(vec![Tok::re("T", e.clone())]);
        cases.push(vec![Tok::re("T", Ast::Seq(vec![plus(e.clone()), Ast::Chr('b')])), Tok::re("U", cls(&[('a', 'e')]))]);
    }
    // pairs of rules sharing one automaton
    let small: Vec<Ast> = (1..=3).flat_map(|s| asts(s, &[a.clone(), cls(&[('a', 'b')])], &[(0, None), (1, None), (0, Some(1)), (2, Some(2)), (1, Some(2))])).collect();
    for (i, p) in small.iter().enumerate() {
        for q in &small[..=i] {
            cases.push(vec![Tok::re("P", p.clone()), Tok::re("Q", q.clone())]);
        }
    }
    // literals, keywords against identifiers, several tokens
    let id = Ast::Seq(vec![cls(&[('a', 'z')]), star(cls(&[('a', 'z'), ('0', '9'), ('_', '_')]))]);
    let num = Ast::Seq(vec![plus(cls(&[('0', '9')])), opt(Ast::Seq(vec![Ast::Chr('.'), plus(cls(&[('0', '9')]))]))]);
    let strg = Ast::Seq(vec![Ast::Chr('"'), star(Ast::Alt(vec![ncls(&[('"', '"'), ('\\', '\\')]), Ast::Seq(vec![Ast::Chr('\\'), ncls(&[('\n', '\n')])])])), Ast::Chr('"')]);
    let com = Ast::Seq(vec![lit("/*"), star(Ast::Alt(vec![ncls(&[('*', '*')]), Ast::Seq(vec![plus(Ast::Chr('*')), ncls(&[('*', '*'), ('/', '/')])])])), plus(Ast::Chr('*')), Ast::Chr('/')]);
    let pool: Vec<Tok> = vec![
        Tok::re("IDENT", id),
        Tok::re("NUM", num),
        Tok::re("STR", strg),
        Tok::re("COM", com),
        Tok::lit("IF", "if"),
        Tok::lit("IN", "in"),
        Tok::lit("INT", "int"),
        Tok::lit("EQ", "="),
        Tok::lit("EQEQ", "=="),
        Tok::lit("UML", "äöü"),
        Tok::lit("EMO", "😀a"),
        Tok::re("WS", plus(cls(&[(' ', ' '), ('\t', '\n')]))),
    ];
    let subset = ctx.pick(3, 4);
    for m in 1u32..1 << pool.len() {
        if m.count_ones() as usize <= subset || m.count_ones() as usize >= pool.len() - 1 {
            cases.push((0..pool.len()).filter(|i| m >> i & 1 == 1).map(|i| pool[i].clone()).collect());
        }
    }
    // long literals and many tokens
    cases.push(vec![Tok::lit("L", &"ab".repeat(200))]);
    cases.push((0..300).map(|i| Tok::lit(&format!("K{}", i), &format!("k{}", i))).collect());
    cases.push(vec![Tok::re("R", Ast::Rep(Box::new(cls(&[('a', 'b')])), 64, Some(128)))]);
    // bounds beyond powers of two, and wide differences of the bounds
    for n in [511u32, 513, 1000, 1025, 2049] {
        for (min, max) in [(0, Some(n)), (1, Some(n)), (n, None), (n, Some(n)), (n / 2, Some(n))] {
            cases.push(vec![Tok::re("R", Ast::Rep(Box::new(a.clone()), min, max))]);
        }
        cases.push(vec![Tok::re("R", Ast::Seq(vec![Ast::Rep(Box::new(cls(&[('a', 'b')])), 1, Some(n)), Ast::Chr('c')])), Tok::lit("S", "abab")]);
    }
    for n in [255u32, 256, 257, 300] {
        cases.push(vec![Tok::re("R", Ast::Rep(Box::new(a.clone()), n, None))]);
        cases.push(vec![Tok::re("R", Ast::Rep(Box::new(a.clone()), n, Some(n)))]);
        cases.push(vec![Tok::re("R", Ast::Rep(Box::new(a.clone()), 2, Some(n))), Tok::re("S", Ast::Rep(Box::new(cls(&[('a', 'b')])), n, Some(n + 1)))]);
        cases.push(vec![Tok::lit("L", &"abc".repeat(n as usize)), Tok::lit("M", &"abc".repeat(n as usize - 1))]);
        // more than 256 classes of the alphabet, in one set, in many tokens, and as ranges
        let ch = |i: u32| char::from_u32(0x4000 + 2 * i).unwrap();
        cases.push((0..n).map(|i| Tok::re(&format!("K{}", i), Ast::Seq(vec![Ast::Chr(ch(i)), star(Ast::Chr(ch((i * 7 + 1) % n)))]))).collect());
        let many: Vec<(char, char)> = (0..n).map(|i| (ch(i), ch(i))).collect();
        cases.push(vec![Tok::re("R", plus(Ast::Class(many.clone(), false)))]);
        cases.push(vec![Tok::re("R", plus(Ast::Class(many, true)))]);
        cases.push(vec![Tok::re("R", Ast::Alt((0..n).map(|i| Ast::Seq(vec![Ast::Chr(ch(i)), Ast::Chr('z')])).collect()))]);
    }
    ctx.count("token_sets", cases.len() as u64);
    ctx.sample(format!("first: {}", show(&cases[0])));
    ctx.sample(format!("middle: {}", show(&cases[cases.len() / 3])));
    ctx.sample(format!("pool subset: {}", show(&cases[cases.len() - 10])));
    ctx.par(&cases, Duration::from_secs(60), |c| if c.len() < 20 { show(c) } else { format!("{} tokens", c.len()) }, |c, t| check_language(c, t));
    // the same construction in the command line, with the stack it has there
    let k = ctx.pick(4000, 8000);
    let long: Vec<(String, String)> = vec![
        ("literal".into(), format!("token A = \"{}\";", "ab".repeat(k))),
        ("counted".into(), format!("token A = /[a-c]{{1,{}}}/;", k)),
        ("exact".into(), format!("token A = /x{{{}}}y/;", k)),
        ("optional".into(), format!("token A = /(a?){{{}}}b/;", k / 20)),
        ("choice".into(), format!("token A = /{}/;", (0..k / 20).map(|i| format!("{}z", char::from_u32(0x4000 + i as u32).unwrap())).collect::<Vec<_>>().join("|"))),
        ("tokens".into(), (0..k / 10).map(|i| format!("token A{} = /[a-z]{{{}}}{}/;", i, i % 50 + 1, i)).collect::<Vec<_>>().join("\n") + "\ntoken A = \"-\";"),
    ];
    let base = ctx.scratch();
    ctx.par(&long, Duration::from_secs(300), |c| format!("long {}", c.0), |(what, decl), t| {
        use mccore::cli::{fresh_dir, Algo, Gen, Lang};
        let dir = fresh_dir(&base, "long");
        let r = Gen::new(Algo::Lalr, Lang::Cpp).with_lexer().text(&format!("{}\nentry s;\nprod s = A;\n", decl), &dir, Duration::from_secs(280));
        t.add("commands_run", 1);
        let _ = std::fs::remove_dir_all(&dir);
        if !r.ok() {
            let head: String = decl.chars().take(200).collect();
            return Err(Fail::new(format!("long {}", what), format!("generate fails for {}...: {}", head, r.describe())));
        }
        Ok(())
    });
    ctx.assume("character classes are probed at the first and last scalar value of every class of the patterns and of the generated alphabet; within a class patterns and automaton cannot tell characters apart");
}

fn c02(ctx: &Ctx) {
    let a = Ast::Chr('a');
    let ab = cls(&[('a', 'b')]);
    let mut pool: Vec<Tok> = vec![
        Tok::lit("T", "a"),
        Tok::lit("T", "ab"),
        Tok::lit("T", "aba"),
        Tok::lit("T", "b"),
        Tok::lit("T", "äb"),
    ];
    for p in [
        a.clone(),
        ab.clone(),
        lit("ab"),
        plus(ab.clone()),
        plus(plus(ab.clone())),
        Ast::Seq(vec![a.clone(), star(ab.clone())]),
        Ast::Seq(vec![ab.clone(), opt(ab.clone())]),
        Ast::Rep(Box::new(ab.clone()), 2, Some(2)),
        Ast::Rep(Box::new(ab.clone()), 2, Some(3)),
        Ast::Rep(Box::new(lit("ab")), 1, Some(2)),
        Ast::Rep(Box::new(Ast::Rep(Box::new(ab.clone()), 2, Some(3))), 2, None),
        Ast::Alt(vec![a.clone(), lit("ab")]),
        Ast::Alt(vec![lit("ab"), lit("aba"), lit("b")]),
        Ast::Alt(vec![lit("aba"), lit("bab")]),
        Ast::Seq(vec![Ast::Alt(vec![lit("ab"), a.clone()]), Ast::Alt(vec![lit("ba"), ab.clone()])]),
        Ast::Seq(vec![ab.clone(), ab.clone(), ab.clone()]),
        ncls(&[('c', 'c')]),
        plus(ncls(&[('a', 'a')])),
        Ast::Seq(vec![cls(&[('ä', 'ö')]), Ast::Chr('b')]),
    ] {
        pool.push(Tok::re("T", p));
    }
    let precs: Vec<Option<u16>> = vec![None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(6), Some(255), Some(256), Some(258), Some(32768), Some(65535)];
    let all: Vec<Tok> = pool.iter().flat_map(|t| precs.iter().map(move |p| Tok { prec: *p, ..t.clone() })).collect();
    let name = |v: Vec<&Tok>| -> Vec<Tok> { v.into_iter().enumerate().map(|(i, t)| Tok { name: format!("T{}", i), ..t.clone() }).collect() };
    let mut cases = Vec::new();
    // every ordered pair: both orders of writing are covered
    for p in &all {
        cases.push(name(vec![p]));
        for q in &all {
            cases.push(name(vec![p, q]));
        }
    }
    // every ordered triple of default-precedence rules, and of a smaller pool with precedences
    for p in &pool {
        for q in &pool {
            for r in &pool {
                cases.push(name(vec![p, q, r]));
            }
        }
    }
    let few: Vec<Tok> = [0usize, 5, 6, 8, 10]
        .iter()
        .flat_map(|i| [None, Some(1u16), Some(2), Some(3)].into_iter().map(|p| Tok { prec: p, ..pool[*i].clone() }))
        .collect();
    for p in &few {
        for q in &few {
            for r in &few {
                cases.push(name(vec![p, q, r]));
                if ctx.thorough() {
                    for s in &few {
                        cases.push(name(vec![p, q, r, s]));
                    }
                }
            }
        }
    }
    // groups of four and five with ties below the top or not at all
    let ws = Tok::re("T", plus(ab.clone()));
    for m in 0..4u16.pow(4) {
        let v: Vec<Tok> = (0..4)
            .map(|i| {
                let k = m / 4u16.pow(i) % 4;
                let base = [&pool[5], &ws, &pool[6], &pool[16]][i as usize];
                Tok { prec: if k == 0 { None } else { Some(k) }, ..base.clone() }
            })
            .collect();
        cases.push(name(v.iter().collect()));
    }
    // default precedences around 256 against each other and against explicit ones
    let rep = |n: u32, m: Option<u32>| Ast::Rep(Box::new(a.clone()), n, m);
    let mut large: Vec<Tok> = Vec::new();
    for n in [1usize, 63, 64, 127, 128, 129] {
        large.push(Tok::lit("T", &"a".repeat(n)));
    }
    for n in [2u32, 64, 128, 254, 256, 258] {
        large.push(Tok::re("T", rep(n, None)));
    }
    large.push(Tok::re("T", Ast::Rep(Box::new(rep(16, Some(16))), 16, None)));
    large.push(Tok::re("T", Ast::Rep(Box::new(rep(16, Some(17))), 16, Some(17))));
    for p in [0u16, 1, 2, 126, 127, 128, 254, 255, 256, 257, 258] {
        large.push(Tok { prec: Some(p), ..Tok::re("T", plus(a.clone())) });
    }
    for (i, p) in large.iter().enumerate() {
        for q in &large[..=i] {
            cases.push(name(vec![p, q]));
            cases.push(name(vec![q, p]));
        }
    }
    // many rules for the same strings: one winner, or ties of several sizes at and below the top
    for n in [5usize, 9, 17, 33, 65, 129, 257, 300] {
        for step in [1usize, 2, 7] {
            for tie in [1usize, 2, 3, 4, 40] {
                if tie > n {
                    continue;
                }
                let v: Vec<Tok> = (0..n)
                    .map(|i| {
                        let k = i * step % n;
                        // ranks 0..tie share the top, the two lowest always tie
                        let p = if k < tie { 1000 } else if k + 2 >= n { 1 } else { 900 - k as u16 };
                        Tok { prec: Some(p), ..Tok::re("T", plus(if k % 2 == 0 { ab.clone() } else { a.clone() })) }
                    })
                    .collect();
                if step == 1 || n % step != 0 {
                    cases.push(name(v.iter().collect()));
                }
            }
        }
    }
    ctx.count("token_sets", cases.len() as u64);
    ctx.sample(show(&cases[cases.len() / 4]));
    ctx.sample(show(&cases[cases.len() / 2]));
    ctx.sample(show(&cases[cases.len() - 1]));
    ctx.info("enumeration", format!("all ordered pairs over {} rules ({} patterns x {} precedences), all ordered triples over the {} patterns, all triples{} over {} rules with precedences, 256 quadruples", all.len(), pool.len(), precs.len(), pool.len(), ctx.pick("", " and quadruples"), few.len()));
    ctx.par(&cases, Duration::from_secs(60), |c| show(c), |c, t| {
        check_precedence(c, t)?;
        check_read(c, t)
    });
    let n = (cases.len() / ctx.pick(1500, 12000)).max(1);
    let some: Vec<Vec<Tok>> = cases.into_iter().enumerate().filter(|(i, _)| i % n == 0).map(|(_, c)| c).collect();
    let base = ctx.scratch();
    ctx.par(&some, Duration::from_secs(100), |c| format!("command {}", show(c)), |c, t| check_command(&base, c, t));
}

/// The command line on the same rules: fails exactly for ties, and names the rules of one of them.
fn check_command(base: &std::path::Path, toks: &[Tok], tally: &mut Tally) -> Outcome {
    use mccore::cli::{fresh_dir, strip_ansi, Algo, Gen, Lang};
    let text = format!("{}\nentry start_rule;\nprod start_rule = {};\n", toks.iter().map(|t| t.decl()).collect::<Vec<_>>().join("\n"), toks[0].name);
    let ties = LexModel::new(toks).ties();
    let lang = if text.len() % 2 == 0 { Lang::Rust } else { Lang::Cpp };
    let algo = [Algo::LR0, Algo::LR1, Algo::Lalr][text.len() % 3];
    let t = fresh_dir(base, "cmd");
    let r = Gen::new(algo, lang).with_lexer().text(&text, &t, Duration::from_secs(60));
    tally.add("commands_run", 1);
    let say = |e: String| Err(Fail::new(format!("{} command", show(toks)), format!("generate -l {} -a {}: {}; {}\ngrammar:\n{}", lang.arg(), algo.arg(), e, r.describe(), text)));
    if ties.is_empty() != r.ok() || r.code.is_none() {
        return say(format!("the tied groups are {:?} (token indices, precedence)", ties));
    }
    if !r.ok() {
        let err = strip_ansi(&r.err);
        let names: std::collections::BTreeSet<&str> = err.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
        if !ties.iter().any(|(g, _)| g.iter().all(|i| names.contains(toks[*i].name.as_str()))) {
            return say(format!("no group of {:?} (token indices, precedence) is named", ties));
        }
    }
    let _ = std::fs::remove_dir_all(&t);
    let _ = std::fs::remove_file(t.with_extension("lapex"));
    Ok(())
}

fn main() {
    main_with(&[("C01", "model_checking", c01), ("C02", "model_checking", c02), ("C24", "model_checking", units::c24), ("C25", "model_checking", units::c25)]);
}
