//! C26: names of tokens, productions and tags. Every name of a pool in every role, and every pair of different
//! names in one grammar, unless the generated identifiers are known to collide (those are the listed findings).
use crate::batch::*;
use crate::lexers;
use crate::parsers::*;
use mccore::cli::{Algo, Lang};
use mccore::families as fam;
use mccore::lexref::Tok;
use mccore::run::{Ctx, Fail, Tally};
use mccore::spec::{tok_text, Pat, Prod, Spec};
use std::collections::{BTreeSet, HashSet};

/// Names that differ in case, underscores and digits, keywords of all languages involved, words that the
/// generated code uses itself.
fn pool() -> Vec<String> {
    let mut v: Vec<String> = "a A b ab aB Ab AB a_b A_B a_B a__b a_b_ ab_ a1 a_1 a1_ a_1_2 a12 a1b a_1b x X x_ X_ x__ xa xA Xa XA x_a X_A x1 x_1 x2 x_2 x_y x_y_1 \
        fn self Self super crate type match loop async dyn abstract box try union static ref mut impl use where yield raw \
        class int template virtual namespace new delete operator typename this default switch and not xor char \
        shift reduce Visitor Parser parser lexer TokenType State Symbol NonTerminal Terminal EndOfFile end_of_file Err Error Ok None Some Option Vec \
        Rule0 Rule1 Anon1 ANON1 Tk TkA TK_A Nt NtA NT_A TK tk nt eof err data std stack next parse start end position got expected main T V usize uint32_t \
        tokens token_a entry_rule entrypoint prods prod1 Token Entry Prod Tokens ENTRY lapex"
        .split_whitespace()
        .map(|s| s.to_string())
        .collect();
    v.push(format!("l{}", "ong_name".repeat(40)));
    v.push("Z9_".repeat(30));
    v
}

fn camel(n: &str) -> String {
    n.split('_').filter(|s| !s.is_empty()).map(|s| format!("{}{}", s[..1].to_uppercase(), s[1..].to_lowercase())).collect()
}

/// The identifier of a token; equal ones cannot be in one grammar.
fn token_id(lang: Lang, n: &str) -> String {
    match lang {
        Lang::Rust => camel(n),
        Lang::Cpp => n.to_string(),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
enum Role {
    /// one rule, with an optional part
    One,
    /// two rules
    Two,
}

/// The callbacks of a production, more rather than fewer.
fn callbacks(ll: bool, n: &str, role: Role, rules: usize, tags: &[Option<String>]) -> Vec<String> {
    if ll || role == Role::One {
        return vec![n.to_string()];
    }
    let mut v = Vec::new();
    if tags.iter().any(|t| t.is_none()) || tags.len() < rules {
        v.extend((1..=rules).map(|i| format!("{}_{}", n, i)));
    }
    v.extend(tags.iter().flatten().map(|t| format!("{}_{}", n, t)));
    v
}

struct Build {
    lang: Lang,
    ll: bool,
    prods: Vec<(String, Role)>,
    used: BTreeSet<String>,
    calls: BTreeSet<String>,
    toks: Vec<String>,
    ids: BTreeSet<String>,
}
const PRODS: usize = 8;
impl Build {
    fn new(lang: Lang, ll: bool, entry: &str) -> Build {
        let mut b = Build { lang, ll, prods: vec![], used: BTreeSet::new(), calls: BTreeSet::new(), toks: vec![], ids: BTreeSet::new() };
        b.used.insert(entry.to_string());
        b.calls.extend(callbacks(ll, entry, Role::Two, PRODS, &[]));
        b.prods.push((entry.to_string(), Role::Two));
        b
    }
    fn fits(&self, n: &str, r: Role) -> bool {
        self.prods.len() <= PRODS && !self.used.contains(n) && callbacks(self.ll, n, r, 2, &[]).iter().all(|c| !self.calls.contains(c))
    }
    fn add(&mut self, n: &str, r: Role) {
        self.used.insert(n.to_string());
        self.calls.extend(callbacks(self.ll, n, r, 2, &[]));
        self.prods.push((n.to_string(), r));
    }
    fn fits_tok(&self, n: &str) -> bool {
        self.toks.len() < 2 * (self.prods.len() - 1) && !self.used.contains(n) && !self.ids.contains(&token_id(self.lang, n))
    }
    fn add_tok(&mut self, n: &str) {
        self.used.insert(n.to_string());
        self.ids.insert(token_id(self.lang, n));
        self.toks.push(n.to_string());
    }
    /// entry: one rule for each other production; those start with a token of their own.
    fn spec(&self, label: &str) -> Spec {
        let k = self.prods.len() - 1;
        let mut s = Spec::new(label, self.toks.len(), self.prods.len());
        s.toks = self.toks.clone();
        s.nts = self.prods.iter().map(|p| p.0.clone()).collect();
        let t = |i: usize| Pat::T((i % self.toks.len()) as u16);
        for i in 1..=k {
            s.prods.push(Prod { nt: 0, tag: None, pat: Pat::N(i as u16) });
        }
        for i in 1..=k {
            let (a, b) = (t(2 * i - 2), t(2 * i - 1));
            match self.prods[i].1 {
                Role::One => s.prods.push(Prod { nt: i as u16, tag: None, pat: Pat::Seq(vec![a, Pat::Opt(Box::new(b))]) }),
                Role::Two => {
                    s.prods.push(Prod { nt: i as u16, tag: None, pat: Pat::Seq(vec![a, Pat::N(i as u16)]) });
                    s.prods.push(Prod { nt: i as u16, tag: None, pat: b });
                }
            }
        }
        s
    }
}

fn related(a: &str, b: &str) -> bool {
    let p = |s: &str| s.chars().filter(|c| *c != '_').flat_map(|c| c.to_lowercase()).collect::<String>();
    let (a, b) = (p(a), p(b));
    a.starts_with(&b) || b.starts_with(&a)
}

/// Grammars that together have every name in every role, every pair of names as productions (related ones in
/// every pair of roles; all of them if `every_role`) and every pair of names as tokens.
fn cover(lang: Lang, ll: bool, every_role: bool) -> (Vec<Spec>, u64, u64) {
    let names = pool();
    let n = names.len();
    let roles = [Role::One, Role::Two];
    let mut prods: HashSet<(usize, Role, usize, Role)> = HashSet::new();
    let mut left: Vec<(usize, Role, usize, Role)> = Vec::new();
    for i in 0..n {
        for j in 0..i {
            for r in roles {
                for s in roles {
                    let mut b = Build::new(lang, ll, "entry_point_9");
                    if !b.fits(&names[i], r) {
                        continue;
                    }
                    b.add(&names[i], r);
                    if !b.fits(&names[j], s) {
                        continue;
                    }
                    if every_role || related(&names[i], &names[j]) {
                        prods.insert((i, r, j, s));
                        left.push((i, r, j, s));
                    }
                }
            }
        }
    }
    let mut toks: HashSet<(usize, usize)> = HashSet::new();
    for i in 0..n {
        for j in 0..i {
            if token_id(lang, &names[i]) != token_id(lang, &names[j]) {
                toks.insert((i, j));
            }
        }
    }
    let total = (prods.len() as u64, toks.len() as u64);
    let mut out = Vec::new();
    left.reverse();
    let mut round = 0usize;
    while !prods.is_empty() || !toks.is_empty() {
        while left.last().map_or(false, |p| !prods.contains(p)) {
            left.pop();
        }
        // the entry has every name in turn
        let entry = (round * 7 + round / n) % n;
        let mut b = Build::new(lang, ll, &names[entry]);
        let mut have: Vec<(usize, Role)> = Vec::new();
        if let Some((i, r, j, s)) = left.last().copied() {
            let mut e = entry;
            while e == i || e == j || {
                let mut x = Build::new(lang, ll, &names[e]);
                !x.fits(&names[i], r) || {
                    x.add(&names[i], r);
                    !x.fits(&names[j], s)
                }
            } {
                e = (e + 1) % n;
            }
            b = Build::new(lang, ll, &names[e]);
            b.add(&names[i], r);
            b.add(&names[j], s);
            have.extend([(i, r), (j, s)]);
        }
        // a pair of token names that is missing
        let reserved = toks.iter().filter(|(i, j)| !b.used.contains(&names[*i]) && !b.used.contains(&names[*j])).min().copied();
        if let Some((i, j)) = reserved {
            b.used.insert(names[i].clone());
            b.used.insert(names[j].clone());
        }
        let key = |a: (usize, Role), b: (usize, Role)| if a.0 > b.0 { (a.0, a.1, b.0, b.1) } else { (b.0, b.1, a.0, a.1) };
        while b.prods.len() <= PRODS {
            let mut best = None;
            for k in 0..n {
                let i = (k + round) % n;
                for r in roles {
                    if b.fits(&names[i], r) {
                        let gain = have.iter().filter(|h| prods.contains(&key(**h, (i, r)))).count();
                        if best.map_or(true, |(g, _, _)| gain > g) {
                            best = Some((gain, i, r));
                        }
                    }
                }
            }
            let (_, i, r) = best.unwrap();
            b.add(&names[i], r);
            have.push((i, r));
        }
        for (x, a) in have.iter().enumerate() {
            for c in &have[..x] {
                prods.remove(&key(*a, *c));
            }
        }
        let mut mine: Vec<usize> = Vec::new();
        if let Some((i, j)) = reserved {
            for x in [i, j] {
                b.used.remove(&names[x]);
                b.add_tok(&names[x]);
                mine.push(x);
            }
        }
        while b.toks.len() < 2 * PRODS {
            let mut best = None;
            for k in 0..n {
                let i = (k + round) % n;
                if b.fits_tok(&names[i]) {
                    let gain = mine.iter().filter(|h| toks.contains(&((**h).max(i), (**h).min(i)))).count();
                    if best.map_or(true, |(g, _)| gain > g) {
                        best = Some((gain, i));
                    }
                }
            }
            let (_, i) = best.unwrap();
            b.add_tok(&names[i]);
            mine.push(i);
        }
        for (x, a) in mine.iter().enumerate() {
            for c in &mine[..x] {
                toks.remove(&(*a.max(c), *a.min(c)));
            }
        }
        out.push(b.spec(&format!("names{}", round)));
        round += 1;
    }
    (out, total.0, total.1)
}

/// Every name of the pool as a tag, next to every other in one production, on productions of several names.
fn tags() -> Vec<Spec> {
    let names = pool();
    let mut out = Vec::new();
    let owners = ["x", "a", "AB", "x_y", "fn", "Rule1", "Visitor", "end"];
    let mut k = 0;
    // 2 to 4 tags in each of 8 productions, every name in turn
    for step in [1usize, 2, 3, 5, 7, 11, 13, 17] {
        let mut at = 0;
        while at < names.len() {
            let mut s = Spec::new(&format!("tags{}", k), 26, owners.len() + 1);
            let mut calls = BTreeSet::new();
            s.nts = ["entry_point_9"].iter().chain(owners.iter()).map(|x| x.to_string()).collect();
            for i in 1..=owners.len() {
                s.prods.push(Prod { nt: 0, tag: Some(names[(at + i * step) % names.len()].clone()), pat: Pat::N(i as u16) });
            }
            // the tags of the entry may be equal by accident
            let mut seen = BTreeSet::new();
            for p in &mut s.prods {
                if !seen.insert(p.tag.clone()) {
                    p.tag = None;
                }
            }
            for i in 1..=owners.len() {
                let mut mine: Vec<Option<String>> = Vec::new();
                let rules = 2 + i % 2;
                for r in 0..rules {
                    let t = names[(at + r * step) % names.len()].clone();
                    let bad = mine.contains(&Some(t.clone())) || calls.contains(&format!("{}_{}", owners[i - 1], t)) || owners.contains(&format!("{}_{}", owners[i - 1], t).as_str());
                    mine.push(if bad || (r == 2 && i % 4 == 3) { None } else { Some(t) });
                }
                // a number must not be a tag of another one, nor the name of a production
                calls.extend(callbacks(false, owners[i - 1], Role::Two, rules, &mine));
                for (r, t) in mine.iter().enumerate() {
                    s.prods.push(Prod { nt: i as u16, tag: t.clone(), pat: Pat::T((3 * (i - 1) + r) as u16) });
                }
                at += rules;
            }
            out.push(s);
            k += 1;
        }
    }
    out
}

/// Pairs that do collide, by the mechanism; listed as findings.
fn colliding(ctx: &Ctx) {
    let lr = |t: &[&str], n: &[&str], rules: Vec<(u16, Option<&str>, Pat)>| {
        let mut s = Spec::new("collision", t.len(), n.len());
        s.toks = t.iter().map(|x| x.to_string()).collect();
        s.nts = n.iter().map(|x| x.to_string()).collect();
        s.prods = rules.into_iter().map(|(nt, tag, pat)| Prod { nt, tag: tag.map(|x| x.to_string()), pat }).collect();
        s
    };
    let (t, n) = (Pat::T, Pat::N);
    let two = |tag: Option<&'static str>, other: &'static str| {
        lr(
            &["A", "B", "C"],
            &["s", "x", other],
            vec![(0, None, Pat::Seq(vec![n(1), n(2)])), (1, tag, t(0)), (1, None, t(1)), (2, None, t(2))],
        )
    };
    let mut cases: Vec<(&str, Spec, Vec<(Algo, Lang)>)> = Vec::new();
    let all = vec![(Algo::Lalr, Lang::Rust), (Algo::Glr, Lang::Rust), (Algo::Lalr, Lang::Cpp), (Algo::LL1, Lang::Cpp)];
    let rust = all[..2].to_vec();
    cases.push(("token-case", lr(&["AB", "ab"], &["s"], vec![(0, None, Pat::Seq(vec![t(0), t(1)]))]), all.clone()));
    cases.push(("token-underscore", lr(&["a_b", "a_B"], &["s"], vec![(0, None, Pat::Seq(vec![t(0), t(1)]))]), all.clone()));
    for k in ["EOF", "ERR"] {
        cases.push((if k == "EOF" { "token-eof" } else { "token-err" }, lr(&[k, "B"], &["s"], vec![(0, None, Pat::Seq(vec![t(0), t(1)]))]), all.clone()));
    }
    cases.push(("production-case", lr(&["A", "B"], &["s", "xa", "XA"], vec![(0, None, Pat::Seq(vec![n(1), n(2)])), (1, None, t(0)), (2, None, t(1))]), all.clone()));
    cases.push(("callback-number", two(None, "x_1"), all.clone()));
    cases.push(("callback-number-2", two(None, "x_2"), all.clone()));
    cases.push(("callback-tag", two(Some("y"), "x_y"), rust.clone()));
    cases.push((
        "callback-equal-tags",
        lr(&["A", "B"], &["s"], vec![(0, Some("y"), t(0)), (0, Some("y"), t(1))]),
        rust,
    ));
    for k in 0..8 {
        let name = format!("anon{}", k);
        // the helper of the optional part has one of these numbers, and two rules
        cases.push((
            "callback-helper",
            lr(&["A", "B", "C"], &["s", &name], vec![(0, None, Pat::Seq(vec![Pat::Opt(Box::new(t(0))), n(1)])), (1, None, t(1)), (1, None, t(2))]),
            all.clone(),
        ));
    }
    let base = ctx.scratch();
    let cases: Vec<(&str, Spec, Algo, Lang)> = cases.into_iter().flat_map(|(k, s, how)| how.into_iter().map(move |(a, l)| (k, s.clone(), a, l))).collect();
    ctx.par(
        &cases,
        LIMIT,
        |c| format!("{} -l {} -a {} {}", c.0, c.3.arg(), c.2.arg(), c.1.brief()),
        |(key, s, a, l), tally: &mut Tally| {
            let m = Model::new(s, 60);
            let j = Job::new(s, *a, *l, inputs(&m, 60));
            let d = run_jobs(&base, std::slice::from_ref(&j)).pop().unwrap();
            let r = check(&j, &d, &m, tally);
            cleanup(std::slice::from_ref(&d));
            r.map_err(|f| Fail::new(format!("{}-{}-{}", key, l.arg(), a.arg()), format!("-l {} -a {}: {}\ngrammar:\n{}", l.arg(), a.arg(), f.detail, s.text())))
        },
    );
    ctx.count("pairs of names whose identifiers collide, by algorithm and language", cases.len() as u64);
}

fn check(j: &Job, d: &Done, m: &Model, tally: &mut Tally) -> mccore::run::Outcome {
    thread_local! { static NAMES: Names = Default::default(); }
    NAMES.with(|names| {
        names.lock().unwrap().clear();
        if j.algo == Algo::LL1 {
            ll_check(j, d, m, tally)
        } else {
            tag_check(j, d, m, names, tally)
        }
    })
}

pub fn c26(ctx: &Ctx) {
    let full = ctx.thorough();
    let mut plan: Vec<Plan> = Vec::new();
    for (lang, ll, algos) in [
        (Lang::Rust, false, vec![Algo::Lalr, Algo::Glr]),
        (Lang::Cpp, false, vec![Algo::Lalr]),
        (Lang::Cpp, true, vec![Algo::LL1]),
    ] {
        let started = std::time::Instant::now();
        let (v, p, t) = cover(lang, ll, full);
        if std::env::var("TIMES").is_ok() {
            eprintln!("cover {} in {:?}", v.len(), started.elapsed());
        }
        ctx.count("pairs of production names and roles", p);
        ctx.count("pairs of token names", t);
        ctx.count("grammars of names", v.len() as u64);
        for (i, s) in v.iter().enumerate() {
            if i % (v.len() / 3).max(1) == 0 {
                ctx.sample(s.brief());
            }
        }
        let n = v.len();
        // both kinds of parsers have the same names: each grammar with one of them, in turn, unless thorough
        for (k, a) in algos.iter().enumerate() {
            let mine: Vec<Spec> = v.iter().enumerate().filter(|(i, _)| full || i % algos.len() == k || n < 10).map(|x| x.1.clone()).collect();
            let p = plans(&mine, &[*a], lang, ctx.pick(200, 600));
            if p.len() != mine.len() {
                panic!("a grammar with {} does not fit the algorithm", a.arg());
            }
            plan.extend(p);
        }
    }
    let t = tags();
    ctx.count("grammars with tags", t.len() as u64);
    plan.extend(plans(&t, &[Algo::Lalr, Algo::Glr], Lang::Rust, 60));
    plan.extend(plans(&fam::tagged().into_iter().take(3).collect::<Vec<_>>(), &[Algo::Lalr], Lang::Cpp, 60));
    ctx.count("grammars and algorithms", plan.len() as u64);
    explore(ctx, &plan, false, false, check);

    // token names through the lexers
    for lang in [Lang::Rust, Lang::Cpp] {
        let names = pool();
        let mut sets: Vec<Vec<String>> = Vec::new();
        // a name goes to the first set where it fits: every pair was together in a parser already
        for n in &names {
            match sets.iter_mut().find(|s| s.len() < 24 && s.iter().all(|o| token_id(lang, o) != token_id(lang, n))) {
                Some(s) => s.push(n.clone()),
                None => sets.push(vec![n.clone()]),
            }
        }
        let cases: Vec<lexers::Case> = sets.iter().map(|s| lexers::Case::new(s.iter().enumerate().map(|(i, n)| Tok::lit(n, &tok_text(i))).collect(), 0, 40)).collect();
        lexers::explore(ctx, &cases, lang);
    }
    colliding(ctx);

    ctx.info(
        "bounds",
        format!("{} names: each as token, production with one rule, production with several rules, entry and tag; every pair of them that has different identifiers as tokens and as productions{}", pool().len(), if full { " in every pair of roles" } else { ", related pairs in every pair of roles" }),
    );
}
