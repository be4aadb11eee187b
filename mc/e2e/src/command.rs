//! C18: ill-formed grammar files are refused, well-formed ones processed. C19: the options of the command line.
use crate::parsers::{every, handles, LIMIT};
use mccore::cfg::{Strings, Sym};
use mccore::cli::{fresh_dir, run, supported, Algo, Lang, Ran, LAPEX};
use mccore::families as fam;
use mccore::lexref::{LexModel, Lexeme, Tok};
use mccore::lr::{automaton, Kind};
use mccore::regex::{plus, star, Ast};
use mccore::run::{Ctx, Fail, Outcome, Tally};
use mccore::spec::{Pat, Spec};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::process::Command;
use std::time::Duration;

/// Generation of the small grammars takes milliseconds.
const GEN_LIMIT: Duration = Duration::from_secs(60);

pub fn combos() -> Vec<(Algo, Lang)> {
    let mut v = Vec::new();
    for l in [Lang::Rust, Lang::Cpp] {
        for a in Algo::ALL {
            if supported(a, l) {
                v.push((a, l));
            }
        }
    }
    v
}

/// Every file below a directory, with its contents.
pub fn tree(d: &Path) -> BTreeMap<String, Vec<u8>> {
    fn go(base: &Path, d: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let name = p.strip_prefix(base).unwrap().display().to_string();
            if name.starts_with(".std") {
                continue;
            }
            if p.is_dir() {
                out.insert(format!("{}/", name), vec![]);
                go(base, &p, out);
            } else {
                out.insert(name, std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    let mut o = BTreeMap::new();
    go(d, d, &mut o);
    o
}

fn token_files(l: Lang) -> Vec<&'static str> {
    match l {
        Lang::Rust => vec!["tokens.rs"],
        Lang::Cpp => vec!["tokens.h", "tokens.cpp"],
    }
}
fn lexer_files(l: Lang) -> Vec<&'static str> {
    match l {
        Lang::Rust => vec!["lexer.rs"],
        Lang::Cpp => vec!["lexer.h", "lexer.cpp"],
    }
}
fn main_parser_file(l: Lang) -> &'static str {
    match l {
        Lang::Rust => "parser.rs",
        Lang::Cpp => "parser.cpp",
    }
}

fn invoke(dir: &Path, cwd: &Path, args: &[String], limit: Duration) -> Ran {
    let mut c = Command::new("bash");
    // bounded memory: a runaway is a failure, not the end of the sandbox
    c.arg("-c").arg("ulimit -v 6000000; exec \"$@\"").arg("lapex").arg(LAPEX).args(args);
    c.current_dir(cwd).env("RUST_BACKTRACE", "0");
    run(c, dir, limit)
}

fn gen_args(a: Algo, l: Lang, table: bool, lexer: bool, target: &Path, grammar: &Path) -> Vec<String> {
    let mut v: Vec<String> = ["generate", "-l", l.arg(), "-a", a.arg()].iter().map(|s| s.to_string()).collect();
    if table {
        v.push("--table".into());
    }
    if !lexer {
        v.push("--no-lexer".into());
    }
    v.extend(["--target".to_string(), target.display().to_string(), grammar.display().to_string()]);
    v
}

// ---------------------------------------------------------------- C18

#[derive(Clone)]
struct Bad {
    what: String,
    text: String,
    /// the algorithms that handle the grammar it was made from
    combos: Vec<(Algo, Lang)>,
}

struct Doc {
    toks: Vec<String>,
    entry: Vec<String>,
    prods: Vec<String>,
}
impl Doc {
    fn of(s: &Spec) -> Doc {
        Doc {
            toks: (0..s.toks.len()).map(|i| s.token_decl(i)).collect(),
            entry: vec![format!("entry {};", s.nts[s.entry as usize])],
            prods: (0..s.prods.len()).map(|i| s.prod_decl(i)).collect(),
        }
    }
    /// In one of several orders of the declarations.
    fn text(&self, order: usize) -> String {
        let (t, e, p) = (self.toks.join("\n"), self.entry.join("\n"), self.prods.join("\n"));
        let mut v = match order % 4 {
            0 => vec![t, e, p],
            1 => vec![p, e, t],
            2 => vec![e, t, p],
            _ => vec![t, p, e],
        };
        v.push(String::new());
        v.join("\n")
    }
}

/// Every way to replace one name in a pattern.
fn replacements(p: &Pat, with: &Pat) -> Vec<Pat> {
    let mut o = Vec::new();
    match p {
        Pat::T(_) | Pat::N(_) => o.push(with.clone()),
        Pat::Eps => {}
        Pat::Seq(v) | Pat::Alt(v) => {
            for i in 0..v.len() {
                for q in replacements(&v[i], with) {
                    let mut w = v.clone();
                    w[i] = q;
                    o.push(if matches!(p, Pat::Seq(_)) { Pat::Seq(w) } else { Pat::Alt(w) });
                }
            }
        }
        Pat::Opt(q) => o.extend(replacements(q, with).into_iter().map(|q| Pat::Opt(Box::new(q)))),
        Pat::Star(q) => o.extend(replacements(q, with).into_iter().map(|q| Pat::Star(Box::new(q)))),
        Pat::Plus(q) => o.extend(replacements(q, with).into_iter().map(|q| Pat::Plus(Box::new(q)))),
    }
    o
}

fn accepted_by(s: &Spec) -> Vec<(Algo, Lang)> {
    let (b, bl) = (s.bnf(), s.bnf_ll());
    combos().into_iter().filter(|(a, _)| *a == Algo::Glr || handles(if *a == Algo::LL1 { &bl } else { &b }, *a)).collect()
}

fn bases() -> Vec<Spec> {
    let (t, n) = (Pat::T, Pat::N);
    let opt = |p: Pat| Pat::Opt(Box::new(p));
    let star = |p: Pat| Pat::Star(Box::new(p));
    let plus = |p: Pat| Pat::Plus(Box::new(p));
    let sq = |v: Vec<Pat>| Pat::Seq(v);
    vec![
        Spec::new("nest", 5, 2).p(0, sq(vec![t(0), n(1), t(1)])).p(1, t(2)).p(1, sq(vec![t(3), n(1), t(4)])),
        Spec::new("one", 1, 1).p(0, t(0)),
        Spec::new("unreachable", 3, 3).p(0, sq(vec![t(0), n(1)])).p(1, t(1)).p(2, sq(vec![t(2), n(1)])).p(2, n(2)),
        Spec::new("entry last", 3, 2).p(1, sq(vec![t(0), t(1)])).p(0, sq(vec![n(1), t(2)])),
        Spec::new("operators", 6, 2)
            .p(0, sq(vec![t(0), opt(sq(vec![t(1), n(1)])), star(Pat::Alt(vec![t(2), sq(vec![t(3), n(1)])])), t(4)]))
            .p(1, Pat::Alt(vec![t(5), sq(vec![t(0), star(t(1)), t(2)])])),
        Spec::new("many", 4, 2).p(0, sq(vec![plus(n(1)), t(3)])).p(1, sq(vec![t(0), plus(Pat::Alt(vec![t(1), t(2)])), t(3)])).p(1, opt(t(1))),
        Spec::new("ambiguous", 2, 1).p(0, sq(vec![n(0), t(1), n(0)])).p(0, t(0)),
        Spec::new("left", 2, 1).p(0, sq(vec![n(0), t(1), t(0)])).p(0, t(0)),
    ]
}

fn ill_formed(max: usize) -> Vec<Bad> {
    let mut out: Vec<Bad> = Vec::new();
    for s in bases() {
        let c = accepted_by(&s);
        let mut k = 0;
        let mut add = |what: &str, f: &dyn Fn(&mut Doc)| {
            let mut d = Doc::of(&s);
            f(&mut d);
            k += 1;
            out.push(Bad { what: format!("{}: {}", s.label, what), text: d.text(k), combos: c.clone() });
        };
        // an undeclared symbol in each place of each pattern
        for (i, p) in s.prods.iter().enumerate() {
            for name in ["nosuch", "NOSUCH"] {
                let mut s2 = s.clone();
                s2.toks.push(name.into());
                for q in replacements(&p.pat, &Pat::T(s2.toks.len() as u16 - 1)) {
                    let mut s3 = s2.clone();
                    s3.prods[i].pat = q;
                    let line = s3.prod_decl(i);
                    add(&format!("undeclared symbol: {}", line), &|d| d.prods[i] = line.clone());
                }
            }
            // a name that differs by its case only
            let line = s.prod_decl(i);
            let (l, r) = line.split_once('=').unwrap();
            for (a, b) in s.toks.iter().map(|t| (t.clone(), t.to_lowercase())).chain(s.nts.iter().map(|n| (n.clone(), n.to_uppercase()))) {
                let words: Vec<String> = r.split(' ').map(|w| w.to_string()).collect();
                if s.toks.contains(&b) || s.nts.contains(&b) {
                    continue;
                }
                if let Some(j) = words.iter().position(|w| w.trim_matches(|c| "()?*+;|".contains(c)) == a) {
                    let mut w = words.clone();
                    w[j] = w[j].replace(&a, &b);
                    let line = format!("{}={}", l, w.join(" "));
                    add(&format!("undeclared symbol: {}", line), &|d| d.prods[i] = line.clone());
                }
            }
        }
        let used = |x: &Sym| s.bnf().rules.iter().any(|(_, r)| r.contains(x));
        for i in 0..s.toks.len() {
            if used(&Sym::T(i as u16)) {
                add(&format!("token {} is not declared", s.toks[i]), &|d| {
                    d.toks.remove(i);
                });
            }
            for (what, lit) in [("the same text", mccore::spec::tok_text(i)), ("another text", "zz".to_string())] {
                let line = format!("token {} = \"{}\";", s.toks[i], lit);
                add(&format!("{} twice, with {}, at the end", s.toks[i], what), &|d| d.toks.push(line.clone()));
                add(&format!("{} twice, with {}, at the start", s.toks[i], what), &|d| d.toks.insert(0, line.clone()));
                add(&format!("{} twice, with {}, after the productions", s.toks[i], what), &|d| d.prods.push(line.clone()));
            }
            for pat in [s.toks[(i + 1) % s.toks.len()].clone(), "!".to_string(), s.nts[0].clone()] {
                let line = format!("prod {} = {};", s.toks[i], pat);
                add(&format!("{} is a token and a production", s.toks[i]), &|d| d.prods.push(line.clone()));
                add(&format!("{} is a production and a token", s.toks[i]), &|d| d.prods.insert(0, line.clone()));
            }
        }
        for i in 0..s.nts.len() {
            let by_others = s.bnf().rules.iter().any(|(l, r)| *l != i as u16 && r.contains(&Sym::N(i as u16)));
            if i != 0 && by_others {
                add(&format!("production {} is not declared", s.nts[i]), &|d| d.prods.retain(|p| !p.starts_with(&format!("prod {} ", s.nts[i]))));
            }
            for line in [format!("token {} = \"zz\";", s.nts[i]), format!("token {} = /z+/;", s.nts[i]), format!("token {}[3] = \"a\";", s.nts[i])] {
                add(&format!("{} is a production and a token", s.nts[i]), &|d| d.toks.push(line.clone()));
                add(&format!("{} is a token and a production", s.nts[i]), &|d| d.toks.insert(0, line.clone()));
                add(&format!("{} is a production and then a token", s.nts[i]), &|d| d.prods.push(line.clone()));
            }
        }
        let e = format!("entry {};", s.nts[s.entry as usize]);
        add("no entry", &|d| d.entry.clear());
        add("two entries", &|d| d.entry.push(e.clone()));
        add("an entry at the start and at the end", &|d| {
            d.toks.insert(0, e.clone());
            d.entry.clear();
            d.prods.push(e.clone())
        });
        for i in 0..s.nts.len() {
            let f = format!("entry {};", s.nts[i]);
            add("two entries", &|d| d.prods.insert(0, f.clone()));
            add("two entries", &|d| d.prods.push(f.clone()));
        }
        add("no production of the entry", &|d| d.prods.retain(|p| !p.starts_with(&format!("prod {} ", s.nts[s.entry as usize]))));
        for x in ["nosuch", "entry0", &s.nts[0].to_uppercase(), &format!("{}{}", s.nts[0], s.nts[0])] {
            if !s.toks.iter().any(|t| t == x) && !s.nts.iter().any(|t| t == x) {
                add(&format!("unknown entry {}", x), &|d| d.entry[0] = format!("entry {};", x));
            }
        }
        for x in &s.toks {
            add(&format!("token {} as entry", x), &|d| d.entry[0] = format!("entry {};", x));
        }
        // the syntax
        let all = Doc::of(&s).text(0);
        let mut syntax: Vec<(String, String)> = Vec::new();
        for (i, ch) in all.char_indices() {
            if ";=\"".contains(ch) {
                syntax.push((format!("{:?} at {} is missing", ch, i), format!("{}{}", &all[..i], &all[i + 1..])));
            }
            if ch == ';' {
                for x in ["|", ")", "(", "=", "]", "[", "/", "\"", "0"] {
                    syntax.push((format!("{:?} before the semicolon at {}", x, i), format!("{}{}{}", &all[..i], x, &all[i..])));
                }
                for x in ["?", "a", "=", ")", "\"", "7", "#", "é"] {
                    syntax.push((format!("{:?} after the semicolon at {}", x, i), format!("{}{}{}", &all[..i + 1], x, &all[i + 1..])));
                }
            }
        }
        for kw in ["token", "prod", "entry"] {
            for (i, _) in all.match_indices(kw) {
                syntax.push((format!("{} at {} is misspelt", kw, i), format!("{}x{}", &all[..i], &all[i..])));
                syntax.push((format!("{} at {} is missing", kw, i), format!("{}{}", &all[..i], &all[i + kw.len()..])));
                syntax.push((format!("{} at {} is repeated", kw, i), format!("{}{} {}", &all[..i], kw, &all[i..])));
            }
        }
        for k in 1..all.trim_end().len() {
            if all.is_char_boundary(k) && !all[..k].ends_with(';') && !all[..k].ends_with('\n') {
                syntax.push((format!("cut off after {} bytes", k), all[..k].to_string()));
            }
        }
        for x in ["token", "prod", "entry", "token Z", "prod z =", "@", "{", "// comment", "entry s", ";"] {
            syntax.push((format!("{:?} at the end", x), format!("{}{}\n", all, x)));
            syntax.push((format!("{:?} at the start", x), format!("{}\n{}", x, all)));
        }
        for (i, (what, text)) in syntax.into_iter().enumerate() {
            // one of the algorithms each: the reader comes first
            let one = c[i % c.len()];
            out.push(Bad { what: format!("{}: {}", s.label, what), text, combos: vec![one] });
        }
    }
    // one undeclared symbol, anywhere in any pattern
    fn count(p: &Pat) -> usize {
        match p {
            Pat::T(1) => 1,
            Pat::T(_) | Pat::N(_) | Pat::Eps => 0,
            Pat::Seq(v) | Pat::Alt(v) => v.iter().map(count).sum(),
            Pat::Opt(q) | Pat::Star(q) | Pat::Plus(q) => count(q),
        }
    }
    let mut k = 0;
    for size in 2..=max {
        for p in fam::patterns(size, &[Pat::T(0), Pat::T(1)], 4) {
            if count(&p) != 1 {
                continue;
            }
            let mut s = Spec::new("pattern", 2, 2).p(0, p).p(1, Pat::T(0));
            s.toks[1] = "nosuch".into();
            let line = s.prod_decl(0);
            k += 1;
            let (first, last) = if k % 2 == 0 { (line.clone(), s.prod_decl(1)) } else { (s.prod_decl(1), line.clone()) };
            // the generalised algorithm refuses nothing else
            out.push(Bad { what: format!("undeclared symbol: {}", line), text: format!("{}\nentry {};\n{}\n{}\n", s.token_decl(0), s.nts[0], first, last), combos: vec![(Algo::Glr, Lang::Rust)] });
        }
    }
    for (what, text) in [("an empty file", ""), ("only spaces", " \n\t"), ("only an entry", "entry s;"), ("only a token", "token A = \"a\";"), ("only a production", "prod s = !;"), ("no productions", "token A = \"a\"; entry A;")] {
        out.push(Bad { what: what.into(), text: text.into(), combos: combos() });
    }
    out
}

fn refuse(base: &Path, b: &Bad, tally: &mut Tally) -> Outcome {
    let dir = fresh_dir(base, "bad");
    let g = dir.join("g.lapex");
    std::fs::write(&g, &b.text).unwrap();
    for (i, (a, l)) in b.combos.iter().enumerate() {
        let t = fresh_dir(&dir, "t");
        let (table, lexer) = (i % 2 == 0, (i + b.text.len()) % 2 == 0);
        let r = invoke(&dir, &dir, &gen_args(*a, *l, table, lexer, &t, &g), GEN_LIMIT);
        tally.add("ill-formed grammars refused", 1);
        let say = |e: String| {
            Err(Fail::new(
                format!("-l {} -a {} {}", l.arg(), a.arg(), b.what),
                format!("{}; {}\ncommand: generate -l {} -a {}{}{}\ngrammar:\n{}", e, r.describe(), l.arg(), a.arg(), if table { " --table" } else { "" }, if lexer { "" } else { " --no-lexer" }, b.text),
            ))
        };
        if r.timeout {
            return say("the command does not end".into());
        }
        match r.code {
            Some(0) => return say(format!("the grammar is ill-formed ({}) but the command succeeds", b.what)),
            None => return say("the command was killed".into()),
            _ => {}
        }
        if r.err.trim().is_empty() {
            return say("the command fails without a message".into());
        }
        let files = tree(&t);
        let fine: Vec<&str> = token_files(*l).into_iter().chain(lexer_files(*l)).collect();
        if let Some(f) = files.keys().find(|f| !fine.contains(&f.as_str())) {
            return say(format!("the grammar is ill-formed ({}) but the file {} is written", b.what, f));
        }
        if let Some(f) = lexer_files(*l).iter().find(|f| !lexer && files.contains_key(**f)) {
            return say(format!("{} is written despite --no-lexer", f));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

#[derive(Clone)]
struct Good {
    what: String,
    text: String,
    combos: Vec<(Algo, Lang, bool)>, // must be accepted
    lexer: bool,
}

fn process(base: &Path, g: &Good, limit: Duration, tally: &mut Tally) -> Outcome {
    let dir = fresh_dir(base, "good");
    let file = dir.join("g.lapex");
    std::fs::write(&file, &g.text).unwrap();
    for (i, (a, l, must)) in g.combos.iter().enumerate() {
        let t = fresh_dir(&dir, "t");
        let r = invoke(&dir, &dir, &gen_args(*a, *l, i % 2 == 0, g.lexer, &t, &file), limit);
        tally.add("well-formed grammars processed", 1);
        let text = if g.text.len() < 5000 { g.text.clone() } else { format!("({} bytes)", g.text.len()) };
        let say = |e: &str| Err(Fail::new(format!("-l {} -a {} {}", l.arg(), a.arg(), g.what), format!("{}; {}\ngrammar ({}):\n{}", e, r.describe(), g.what, text)));
        if r.timeout {
            return say("the command does not end");
        }
        if r.code.is_none() {
            return say("the command crashes");
        }
        if r.ok() {
            if !t.join(main_parser_file(*l)).exists() && !(*l == Lang::Cpp && t.join("parser.h").exists()) {
                return say("the command succeeds without writing a parser");
            }
            tally.add("of them generated", 1);
            continue;
        }
        if *must {
            return say("a well-formed grammar that the algorithm can handle is refused");
        }
        if *a != Algo::LL1 && r.code == Some(101) {
            return say("the command crashes");
        }
        if r.err.trim().is_empty() {
            return say("the command fails without a message");
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

fn good(s: &Spec, order: usize, lexer: bool) -> Good {
    let (b, bl) = (s.bnf(), s.bnf_ll());
    let loops = s.prods.iter().any(|p| p.pat.loops_on_empty());
    let mut c = Vec::new();
    let mut known: BTreeMap<Algo, bool> = BTreeMap::new();
    for (a, l) in combos() {
        let must = *known.entry(a).or_insert_with(|| a == Algo::Glr || !loops && handles(if a == Algo::LL1 { &bl } else { &b }, a));
        c.push((a, l, must));
    }
    Good { what: s.brief(), text: Doc::of(s).text(order), combos: c, lexer }
}

fn nested(k: usize, f: &dyn Fn(String, usize) -> String, leaf: &str) -> String {
    let mut s = leaf.to_string();
    for i in 0..k {
        s = f(s, i);
    }
    s
}

/// Large and unusual, with the algorithms that must accept them.
fn large(ctx: &Ctx) -> Vec<Good> {
    let mut v = Vec::new();
    let lr = |ll: bool| -> Vec<(Algo, Lang, bool)> { combos().into_iter().map(|(a, l)| (a, l, if a == Algo::LL1 { ll } else { true })).collect() };
    let mut add = |what: &str, text: String, c: Vec<(Algo, Lang, bool)>, lexer: bool| v.push(Good { what: what.into(), text, combos: c, lexer });
    let only = |m: &[Algo]| -> Vec<(Algo, Lang, bool)> { combos().into_iter().map(|(a, l)| (a, l, m.contains(&a))).collect() };
    let not_lr0 = [Algo::LL1, Algo::LR1, Algo::Lalr, Algo::Glr];
    add("no tokens", "entry s; prod s = !;".into(), lr(true), true);
    add("no tokens, an unproductive entry", "entry s; prod s = s;".into(), only(&[Algo::Glr]), true);
    add("no tokens, nested empty", "entry s; prod s = x y; prod x = !; prod y = x x;".into(), lr(true), true);
    for k in ctx.pick(vec![100, 400], vec![100, 400, 1500]) {
        let toks: String = (0..k).map(|i| format!("token T{} = \"t{}.\";\n", i, i)).collect();
        add(&format!("{} tokens that are not used", k), format!("{}entry s;\nprod s = T0;\n", toks), lr(true), k <= 400);
        let alts: Vec<String> = (0..k).map(|i| format!("T{}", i)).collect();
        add(&format!("a choice of {} tokens", k), format!("{}entry s;\nprod s = {};\n", toks, alts.join(" | ")), lr(true), k <= 100);
        add(&format!("{} tokens in a row", k), format!("{}entry s;\nprod s = {};\n", toks, alts.join(" ")), lr(true), k <= 100);
        let prods: String = (0..k).map(|i| format!("prod s = T{};\n", i)).collect();
        add(&format!("{} productions of one symbol", k), format!("{}entry s;\n{}", toks, prods), lr(true), k <= 100);
    }
    for k in ctx.pick(vec![60, 250], vec![60, 250, 800]) {
        let p: String = (0..k).map(|i| format!("prod p{} = A p{};\nprod p{} = B;\n", i, i + 1, i)).collect();
        add(&format!("a chain of {} productions", k), format!("token A = \"a\"; token B = \"b\"; entry p0;\n{}prod p{} = A;", p, k), lr(true), true);
        let p: String = (0..k).map(|i| format!("prod p{} = p{};\n", i, i + 1)).collect();
        add(&format!("a chain of {} unit productions", k), format!("token A = \"a\"; entry p0;\n{}prod p{} = A;", p, k), lr(true), true);
        let p: String = (0..k).rev().map(|i| format!("prod p{} = p{} A;\n", i, i + 1)).collect();
        add(&format!("a chain of {} left corners, written backwards", k), format!("token A = \"a\"; entry p0;\n{}prod p{} = A;", p, k), lr(true), true);
        let p: String = (0..k).map(|i| format!("prod u{} = u{} A;\nprod u{} = u{};\n", i, (i + 1) % k, i, (i * 7 + 3) % k)).collect();
        add(&format!("{} useless productions", k), format!("token A = \"a\"; entry s; prod s = A;\n{}", p), only(&[Algo::LR0, Algo::LR1, Algo::Lalr, Algo::Glr]), true);
    }
    for k in ctx.pick(vec![30, 200], vec![30, 200, 500]) {
        add(&format!("{} groups", k), format!("token A = \"a\"; entry s; prod s = {};", nested(k, &|s, _| format!("({})", s), "A")), lr(true), true);
        let p = nested(k, &|s, _| format!("A ({})", s), "A");
        add(&format!("{} nested sequences", k), format!("token A = \"a\"; entry s; prod s = {};", p), lr(true), true);
        let p = nested(k, &|s, _| format!("(A {})?", s), "A");
        add(&format!("{} nested options", k), format!("token A = \"a\"; entry s; prod s = {};", p), only(&not_lr0), true);
        let p = nested(k, &|s, _| format!("(B | A ({}))", s), "A");
        add(&format!("{} nested alternatives", k), format!("token A = \"a\"; token B = \"b\"; entry s; prod s = {};", p), lr(true), true);
        let p = nested(k, &|s, _| format!("(A {} B)*", s), "A");
        add(&format!("{} nested repetitions", k.min(100)), format!("token A = \"a\"; token B = \"b\"; entry s; prod s = {};", if k <= 100 { p } else { nested(100, &|s, _| format!("(A {} B)*", s), "A") }), only(&[Algo::Glr]), true);
    }
    let name = "n".repeat(3000);
    add("long names", format!("token {} = \"a\"; entry {}; prod {} = {};", name.to_uppercase(), name, name, name.to_uppercase()), lr(true), true);
    add("a long literal", format!("token A = \"{}\"; entry s; prod s = A;", "ab".repeat(ctx.pick(300, 1000))), lr(true), true);
    add("a long regex", format!("token A = /{}/; entry s; prod s = A;", "(a|b)[c-e]?".repeat(ctx.pick(60, 150))), lr(true), true);
    add("a counted regex", format!("token A = /[ab]{{{},{}}}/; entry s; prod s = A;", ctx.pick(100, 300), ctx.pick(200, 500)), lr(true), true);
    add("a nested regex", format!("token A = /{}/; entry s; prod s = A;", nested(ctx.pick(40, 90), &|s, _| format!("({}b)", s), "a")), lr(true), true);
    // the number of states of the token automaton; the recursion of an earlier version did not survive it
    add("a very long literal", format!("token A = \"{}\"; token B = /b+/; entry s; prod s = A B;", "ab".repeat(ctx.pick(4000, 8000))), vec![(Algo::Lalr, Lang::Cpp, true), (Algo::Lalr, Lang::Rust, true)], true);
    add("a token of many characters", format!("token A = /[a-z]{{1,{}}}/; entry s; prod s = A;", ctx.pick(3000, 6000)), vec![(Algo::Lalr, Lang::Rust, true)], true);
    add("one line", "token A = \"a\";token B=\"b\";entry s;prod s=A x B;prod x=A;".into(), lr(true), true);
    add("many empty lines", format!("token A = \"a\";{}entry s;{}prod s = A;{}", "\n".repeat(3000), "\n".repeat(70000), " ".repeat(70000)), lr(true), true);
    // names
    for n in ["a_", "a__b", "a__", "x_1_", "A_B__C", "aB_cD", "tokens", "tokenA", "prod1", "entry_", "entry0", "prods", "z9", "type", "self", "crate", "Self", "super", "int", "class", "None", "Some", "Err", "Ok"] {
        add(&format!("production {}", n), format!("token Q = \"a\"; token R = \"b\"; entry {n}; prod {n} = Q; prod {n} = R z0 Q; prod z0 = Q;", n = n), lr(true), true);
        add(&format!("token {}", n), format!("token Q = \"q\"; token {n} = \"b\"; entry s0; prod s0 = Q; prod s0 = {n} z0 Q; prod z0 = Q;", n = n), lr(true), true);
        add(&format!("tag {}", n), format!("token Q = \"q\"; token R = \"b\"; entry s0; prod s0[{n}] = Q; prod s0 = R z0 Q; prod z0[{n}] = Q; prod z0 = R;", n = n), lr(true), true);
    }
    // tokens that overlap, or that may be empty
    add("a token that may be empty", "token A = /a*/; token B = \"b\"; entry s; prod s = A B;".into(), lr(true), true);
    add("tokens that overlap", "token A[2] = /[a-z]+/; token B = \"if\"; token C = /./; entry s; prod s = A B C;".into(), lr(true), true);
    v
}

pub fn c18(ctx: &Ctx) {
    let base = ctx.scratch();
    let bad = ill_formed(ctx.pick(5, 6));
    ctx.count("ill-formed grammar files", bad.len() as u64);
    for b in every(bad.clone(), (bad.len() / 6).max(1)) {
        ctx.sample(b.what.clone());
    }
    ctx.par(&bad, LIMIT, |b| b.what.clone(), |b, t| refuse(&base, b, t));

    let big = large(ctx);
    ctx.count("large or unusual grammar files", big.len() as u64);
    let limit = Duration::from_secs(ctx.pick(240, 700));
    // one command each, for balance
    let mut one: Vec<Good> = Vec::new();
    for g in &big {
        for c in &g.combos {
            one.push(Good { combos: vec![*c], ..g.clone() });
        }
    }
    one.sort_by_key(|g| std::cmp::Reverse(g.text.len()));
    ctx.par(&one, LIMIT, |g| g.what.clone(), |g, t| process(&base, g, limit, t));

    let mut specs = fam::shapes();
    specs.extend(every(fam::contexts(), ctx.pick(8, 1)));
    specs.extend(every(fam::tagged(), ctx.pick(8, 1)));
    specs.extend(fam::ebnf_single(ctx.pick(3, 4)));
    specs.extend(every(fam::ebnf_double(4), ctx.pick(11, 1)));
    // everything, with useless, cyclic and unreachable productions
    specs.extend(every(fam::plain(2, 2, 4, 4, 3), ctx.pick(23, 2)));
    specs.extend(every(fam::plain(3, 2, 5, 5, 2), ctx.pick(900, 60)));
    specs.extend(every(fam::plain(2, 1, 4, 6, 3), ctx.pick(15, 2)));
    let defined = |s: &Spec| {
        let b = s.bnf();
        b.rules.iter().flat_map(|(_, r)| r).all(|x| match x {
            Sym::N(n) => b.rules.iter().any(|(l, _)| l == n),
            _ => true,
        }) && b.rules.iter().any(|(l, _)| *l == s.entry)
    };
    specs.retain(defined);
    ctx.count("small well-formed grammars", specs.len() as u64);
    for s in every(specs.clone(), (specs.len() / 8).max(1)) {
        ctx.sample(s.brief());
    }
    let specs: Vec<(usize, Spec)> = specs.into_iter().enumerate().collect();
    ctx.par(&specs, LIMIT, |(_, s)| s.brief(), |(i, s), t| process(&base, &good(s, *i, i % 5 == 0), GEN_LIMIT, t));
}

// ---------------------------------------------------------------- C19

/// The files that generation writes.
fn expected(a: Algo, l: Lang, table: bool, lexer: bool) -> BTreeSet<String> {
    let mut v: Vec<&str> = token_files(l);
    if lexer {
        v.extend(lexer_files(l));
    }
    match l {
        Lang::Rust => v.push("parser.rs"),
        Lang::Cpp => v.extend(["parser.h", "parser.cpp", "parser_impl.h", "visitor.h"]),
    }
    if table && a != Algo::LL1 {
        v.push("table");
    }
    v.into_iter().map(|s| s.to_string()).collect()
}

#[derive(Clone)]
struct Form {
    spec: Spec,
    algo: Algo,
    lang: Lang,
    table: bool,
    lexer: bool,
    /// how the command is written
    form: usize,
}
impl Form {
    fn brief(&self) -> String {
        format!("-l {} -a {} table={} lexer={} form={} {}", self.lang.arg(), self.algo.arg(), self.table, self.lexer, self.form, self.spec.brief())
    }
}

fn args_of(f: &Form, target: &str, grammar: &str) -> Vec<String> {
    let (a, l) = (f.algo.arg(), f.lang.arg());
    let mut opts: Vec<Vec<String>> = match f.form % 4 {
        0 => vec![vec!["-l".into(), l.into()], vec!["-a".into(), a.into()], vec!["--target".into(), target.into()]],
        1 => vec![vec![format!("--target={}", target)], vec![format!("--algorithm={}", a)], vec![format!("--language={}", l)]],
        2 => vec![vec!["--algorithm".into(), a.into()], vec!["--language".into(), l.into()], vec!["--target".into(), target.into()]],
        _ => vec![vec![format!("-a{}", a)], vec!["--target".into(), target.into()], vec![format!("-l{}", l)]],
    };
    if f.table {
        opts.insert(f.form % 3, vec!["--table".into()]);
    }
    if !f.lexer {
        opts.insert(f.form % 2, vec!["--no-lexer".into()]);
    }
    let mut v: Vec<String> = vec!["generate".into()];
    let file = vec![grammar.to_string()];
    let at = [0, opts.len(), 1, 2][f.form % 4];
    opts.insert(at, file);
    v.extend(opts.into_iter().flatten());
    v
}

/// Names of files and directories.
const NAMES: [&str; 20] = [
    "a b/é", "plain", " lead", "trail ", "  ", "tab\tname", "it's", "a\"b", "$HOME", "~", "a=b", "%s{}", "*", "back\\slash", ".hidden", "x.rs", "..a", "line\nfeed", "😀",
    "long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-name",
];

fn options(base: &Path, f: &Form, tally: &mut Tally) -> Outcome {
    let dir = fresh_dir(base, "opt");
    let home = dir.join("home");
    let name = NAMES[f.form / 4 % NAMES.len()];
    let flat = name.replace('/', "_");
    let (odd, cwd_name) = (format!("out/{}", name), if f.form / 4 % 3 == 0 { format!("cwd {}", flat) } else { "cwd".to_string() });
    for d in ["grammars/deep", "t1", &odd, &format!("{}/generated", cwd_name)] {
        std::fs::create_dir_all(home.join(d)).unwrap();
    }
    let text = f.spec.text();
    let gname = match f.form % 4 {
        0 => format!("grammars/deep/{}", flat),
        2 => "grammars/deep/my grammar.lapex".to_string(),
        1 => format!("{}/g", cwd_name),
        _ => format!("{}/g{}", cwd_name, flat),
    };
    std::fs::write(home.join(&gname), &text).unwrap();
    let before = tree(&home);
    let cwd = home.join(&cwd_name);
    // where the output should go, and how that is said
    let (target, said): (&str, String) = match f.form % 4 {
        0 => (&odd, home.join(&odd).display().to_string()),
        1 if f.form / 4 % 2 == 0 => ("t1", "../t1/".into()),
        1 => (&odd, format!("../{}", odd)),
        2 => (&cwd_name, ".".into()),
        _ => (&odd, format!("{}/../home/{}", home.display(), odd)),
    };
    let gpath = match f.form % 2 {
        0 => home.join(&gname).display().to_string(),
        _ => gname[cwd_name.len() + 1..].to_string(),
    };
    let args = args_of(f, &said, &gpath);
    let r = invoke(&dir, &cwd, &args, GEN_LIMIT);
    let after = tree(&home);
    tally.add("commands run", 1);
    let say = |e: String| Err(Fail::new(f.brief(), format!("{}; {}\ncommand: {}\ngrammar:\n{}", e, r.describe(), args.join(" "), text)));
    let loops = f.spec.prods.iter().any(|p| p.pat.loops_on_empty());
    let can = f.algo == Algo::Glr || handles(&if f.algo == Algo::LL1 { f.spec.bnf_ll() } else { f.spec.bnf() }, f.algo);
    if r.timeout || r.code.is_none() {
        return say("the command does not end".into());
    }
    let prefix = format!("{}/", target);
    let new: BTreeSet<String> = after.keys().filter(|k| !before.contains_key(*k)).cloned().collect();
    if let Some(k) = before.keys().find(|k| after.get(*k) != before.get(*k)) {
        return say(format!("the command changes {}", k));
    }
    if let Some(k) = new.iter().find(|k| !k.starts_with(&prefix)) {
        return say(format!("the command writes {}", k));
    }
    let made: BTreeSet<String> = new.iter().map(|k| k[prefix.len()..].to_string()).collect();
    if can && !loops && !r.ok() {
        return say("the algorithm can handle the grammar, but the command fails".into());
    }
    if !can && r.ok() && f.spec.is_plain() {
        return say(format!("{} cannot handle the grammar, but the command succeeds", f.algo.arg()));
    }
    if !r.ok() {
        tally.add("refused", 1);
        if r.err.trim().is_empty() {
            return say("the command fails without a message".into());
        }
        let fine: Vec<&str> = token_files(f.lang).into_iter().chain(lexer_files(f.lang)).collect();
        if let Some(k) = made.iter().find(|k| !fine.contains(&k.as_str()) || !f.lexer && lexer_files(f.lang).contains(&k.as_str())) {
            return say(format!("the command fails but writes {}", k));
        }
        let _ = std::fs::remove_dir_all(&dir);
        return Ok(());
    }
    let want = expected(f.algo, f.lang, f.table, f.lexer);
    if made != want {
        return say(format!("the command writes {:?} instead of {:?}", made, want));
    }
    // again, elsewhere, with the other settings of the switches, and over older files
    let content = |t: &Path, name: &str| std::fs::read(t.join(name)).unwrap_or_default();
    let mine = home.join(target);
    for (table, lexer, stale) in [(f.table, f.lexer, false), (!f.table, f.lexer, false), (f.table, !f.lexer, true)] {
        let t = fresh_dir(&dir, "again");
        if stale {
            for n in expected(f.algo, f.lang, true, true) {
                std::fs::write(t.join(n), "x".repeat(200_000)).unwrap();
            }
        }
        let q = invoke(&dir, &dir, &gen_args(f.algo, f.lang, table, lexer, &t, &home.join(&gname)), GEN_LIMIT);
        tally.add("commands run", 1);
        if !q.ok() {
            return say(format!("the same command with table={} lexer={} fails: {}", table, lexer, q.describe()));
        }
        let exp = expected(f.algo, f.lang, table, lexer);
        if !stale {
            let have: BTreeSet<String> = tree(&t).into_keys().collect();
            if have != exp {
                return say(format!("with table={} lexer={} the command writes {:?} instead of {:?}", table, lexer, have, exp));
            }
        }
        for n in exp.intersection(&want) {
            tally.add("files compared", 1);
            if content(&t, n) != content(&mine, n) {
                return say(format!("repeated into another directory{} with table={} lexer={}, {} differs", if stale { " over older files" } else { "" }, table, lexer, n));
            }
        }
    }
    // the size of the automaton tells the algorithms apart
    if f.table && f.algo != Algo::LL1 && f.spec.is_plain() {
        let kind = match f.algo {
            Algo::LR0 => Kind::Lr0,
            Algo::LR1 => Kind::Lr1,
            _ => Kind::Lalr,
        };
        let states = automaton(&f.spec.bnf(), kind).states.len();
        let text = String::from_utf8_lossy(&content(&mine, "table")).to_string();
        let rows = text.lines().filter(|l| l.contains('|')).count().saturating_sub(1);
        tally.add("state counts compared", 1);
        if rows != states {
            return say(format!("the table has {} states; the {} automaton of the grammar has {}", rows, f.algo.arg(), states));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

/// Commands that cannot work.
fn misuse(base: &Path, tally: &mut Tally) -> Outcome {
    let dir = fresh_dir(base, "misuse");
    std::fs::create_dir_all(dir.join("t")).unwrap();
    std::fs::write(dir.join("g"), "token A = \"a\"; entry s; prod s = A;").unwrap();
    std::fs::write(dir.join("binary"), b"token A = \"\xff\xfe\"; entry s; prod s = A;").unwrap();
    std::fs::write(dir.join("tie"), "token A = /a|bc/; token B[1] = /a/; entry s; prod s = A B;").unwrap();
    std::fs::write(dir.join("src"), "a").unwrap();
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    for (ok, lexer_only, args) in [
        (true, false, s(&["generate", "-l", "rust", "-a", "lr0", "--target", "t", "g"])),
        (false, false, s(&["generate", "-l", "rust", "-a", "lr0", "--target", "t", "missing"])),
        (false, false, s(&["generate", "-l", "rust", "-a", "lr0", "--target", "t", "t"])),
        (false, false, s(&["generate", "-l", "rust", "-a", "lr0", "--target", "t", "binary"])),
        (false, false, s(&["generate", "-l", "rust", "-a", "lr0", "--target", "nowhere", "g"])),
        (false, false, s(&["generate", "-l", "cpp", "-a", "lr0", "--target", "nowhere/deeper", "g"])),
        (false, false, s(&["generate", "-l", "rust", "-a", "lr0", "--target", "g", "g"])),
        (false, true, s(&["generate", "-l", "rust", "-a", "lr0", "--target", "t", "tie"])),
        (false, true, s(&["generate", "-l", "cpp", "-a", "ll1", "--target", "t", "tie"])),
        (true, false, s(&["generate", "-l", "cpp", "-a", "ll1", "--no-lexer", "--target", "t", "tie"])),
        (true, false, s(&["generate", "-l", "rust", "-a", "glr", "--no-lexer", "--target", "t", "tie"])),
        (false, false, s(&["generate", "-a", "lr0", "--target", "t", "g"])),
        (false, false, s(&["generate", "-l", "java", "-a", "lr0", "--target", "t", "g"])),
        (false, false, s(&["generate", "-l", "rust", "-a", "lr2", "--target", "t", "g"])),
        (false, false, s(&["generate", "-l", "rust", "-a", "lr0", "--target", "t"])),
        (false, false, s(&["generate", "-l", "rust", "-a", "lr0", "--target", "t", "g", "g"])),
        (false, false, s(&["generate", "-l", "rust", "-a", "lr0", "--nosuch", "--target", "t", "g"])),
        (false, false, s(&[])),
        (false, false, s(&["nosuch"])),
        (false, false, s(&["debug", "g"])),
        (false, false, s(&["debug", "missing", "src"])),
    ] {
        let _ = std::fs::remove_dir_all(dir.join("t"));
        std::fs::create_dir_all(dir.join("t")).unwrap();
        let r = invoke(&dir, &dir, &args, GEN_LIMIT);
        tally.add("commands run", 1);
        let say = |e: &str| Err(Fail::new(format!("misuse {}", args.join(" ")), format!("{}; {}\ncommand: {}", e, r.describe(), args.join(" "))));
        if r.timeout || r.code.is_none() {
            return say("the command does not end");
        }
        if ok != r.ok() {
            return say(if ok { "the command fails" } else { "the command succeeds" });
        }
        if !ok && r.err.trim().is_empty() {
            return say("the command fails without a message");
        }
        let files = tree(&dir.join("t"));
        if !ok && files.keys().any(|f| !lexer_only || !f.starts_with("tokens") && !f.starts_with("lexer")) {
            return say("the command fails but writes files");
        }
        let all: Vec<String> = tree(&dir).into_keys().filter(|k| !k.starts_with("t/") && !["g", "binary", "tie", "src"].contains(&k.as_str())).collect();
        if !all.is_empty() {
            return say(&format!("the command writes {:?}", all));
        }
    }
    // without --target, the directory generated/ is used; without -a, ll1
    std::fs::create_dir_all(dir.join("d/generated")).unwrap();
    for (args, files) in [(s(&["generate", "-l", "cpp", "../g"]), expected(Algo::LL1, Lang::Cpp, false, true)), (s(&["generate", "-l", "rust", "-a", "lalr", "../g"]), expected(Algo::Lalr, Lang::Rust, false, true))] {
        let _ = std::fs::remove_dir_all(dir.join("d"));
        std::fs::create_dir_all(dir.join("d/generated")).unwrap();
        let r = invoke(&dir, &dir.join("d"), &args, GEN_LIMIT);
        let have: BTreeSet<String> = tree(&dir.join("d")).into_keys().filter(|k| k != "generated/").collect();
        let want: BTreeSet<String> = files.iter().map(|f| format!("generated/{}", f)).collect();
        if !r.ok() || have != want {
            return Err(Fail::new(format!("default {}", args.join(" ")), format!("the command writes {:?} instead of {:?}; {}", have, want, r.describe())));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

#[derive(Clone)]
struct Debugged {
    what: String,
    toks: Vec<Tok>,
    spec: Spec,
    algo: Option<Algo>,
    text: String,
}

impl Debugged {
    fn shown(&self) -> String {
        let v: Vec<char> = self.text.chars().collect();
        if v.len() < 80 {
            return format!("{:?}", self.text);
        }
        format!("{:?}... {:?} ({} characters)", v[..20].iter().collect::<String>(), v[v.len() - 10..].iter().collect::<String>(), v.len())
    }
}

fn debug_run(base: &Path, d: &Debugged, tally: &mut Tally) -> Outcome {
    let dir = fresh_dir(base, "debug");
    std::fs::create_dir_all(dir.join("tmp")).unwrap();
    let mut doc = Doc::of(&d.spec);
    doc.toks = d.toks.iter().map(|t| t.decl()).collect();
    let grammar = doc.text(0);
    std::fs::write(dir.join("g"), &grammar).unwrap();
    std::fs::write(dir.join("source.txt"), &d.text).unwrap();
    let mut c = Command::new(LAPEX);
    c.arg("debug");
    if let Some(a) = d.algo {
        c.args(["-a", a.arg()]);
    }
    c.args(["g", "source.txt"]).current_dir(&dir).env("RUST_BACKTRACE", "0").env("TMPDIR", dir.join("tmp")).env_remove("CARGO_TARGET_DIR").env("CARGO_NET_OFFLINE", "true").env("CARGO_BUILD_JOBS", "2");
    let r = run(c, &dir, Duration::from_secs(240));
    tally.add("debug sessions", 1);
    let m = LexModel::new(&d.toks);
    let chars: Vec<char> = d.text.chars().collect();
    let mut w = Some(Vec::new());
    for l in m.run(&chars) {
        match l {
            Lexeme::Tok(t, _, _) => {
                if let Some(w) = &mut w {
                    w.push(t as u16)
                }
            }
            Lexeme::Err(_) => w = None,
            Lexeme::Eof(_) => {}
        }
    }
    let algo = d.algo.unwrap_or(Algo::Glr);
    let b = d.spec.bnf();
    let sentence = w.map_or(false, |w| b.accepts(&w)) && algo != Algo::LL1 && (algo == Algo::Glr || handles(&b, algo));
    if r.timeout || r.code.is_none() || r.ok() != sentence {
        // the listed finding: the program that debug writes for the LR algorithms does not compile
        let lr = matches!(algo, Algo::LR0 | Algo::LR1 | Algo::Lalr);
        let known = lr && sentence && !r.timeout && r.code == Some(1) && r.err.contains("could not compile");
        return Err(Fail::new(
            if known { "debug-lr".to_string() } else {
            format!("debug {:?} {} {}", d.algo.map(|a| a.arg()), d.what, d.shown()) },
            format!("the source {} {} a sentence; {}\nstdout: {}\ngrammar:\n{}", d.shown(), if sentence { "is" } else { "is not" }, r.describe(), r.out, grammar),
        ));
    }
    if !r.ok() && r.err.trim().is_empty() {
        return Err(Fail::new(format!("debug {} {}", d.what, d.shown()), "the command fails without a message"));
    }
    if std::fs::read_to_string(dir.join("source.txt")).ok().as_deref() != Some(&d.text) || std::fs::read_to_string(dir.join("g")).ok().as_deref() != Some(&grammar) {
        return Err(Fail::new(format!("debug {} {}", d.what, d.shown()), "the command changes the grammar or the source"));
    }
    tally.add("of them successful", sentence as u64);
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

fn debug_family(ctx: &Ctx) -> Vec<Debugged> {
    let (t, n) = (Pat::T, Pat::N);
    let sq = |v: Vec<Pat>| Pat::Seq(v);
    let mut v = Vec::new();
    let lits: Vec<Tok> = vec![Tok::lit("A", "a"), Tok::lit("B", "b")];
    let g1 = Spec::new("nest", 2, 1).p(0, sq(vec![t(0), n(0), t(1)])).p(0, Pat::Eps);
    let g2 = Spec::new("ambiguous", 2, 1).p(0, sq(vec![n(0), t(1), n(0)])).p(0, t(0));
    let k = ctx.pick(3, 5);
    for (g, algos) in [(&g1, vec![None, Some(Algo::LR1), Some(Algo::Lalr)]), (&g2, vec![None, Some(Algo::Glr)])] {
        let s = Strings::new(2, k);
        for i in 0..s.total() {
            let text: String = s.string(i).iter().map(|c| ['a', 'b'][*c as usize]).collect();
            let algo = algos[i % algos.len()];
            for a in if ctx.thorough() { algos.clone() } else { vec![algo] } {
                v.push(Debugged { what: g.label.clone(), toks: lits.clone(), spec: g.clone(), algo: a, text: text.clone() });
            }
        }
    }
    // what the algorithms cannot handle, and what is no token
    for a in [Algo::LL1, Algo::LR0, Algo::LR1, Algo::Lalr] {
        v.push(Debugged { what: "refused".into(), toks: lits.clone(), spec: g2.clone(), algo: Some(a), text: "a".into() });
    }
    let g3 = Spec::new("text", 3, 2).p(0, Pat::Plus(Box::new(n(1)))).p(1, sq(vec![t(0), Pat::Opt(Box::new(t(1)))])).p(1, t(2));
    let toks = vec![Tok::re("A", plus(Ast::Class(vec![('a', 'z')], false))), Tok::re("B", Ast::Class(vec![('é', 'é'), (' ', ' ')], false)), Tok::re("C", Ast::Seq(vec![Ast::Chr('"'), star(Ast::Class(vec![('"', '"')], true)), Ast::Chr('"')]))];
    for x in ["", "a", "aé", "é", "a b", "a ab", "a  b", "\"x\"", "\"x", "\"\n\"a\n", "\"\n\"a", "A", "a\u{1F600}", "\"\u{1F600}\"", "a\"\"b c\"d\"", "\"\"é", "a ", " a", "a\n", "\na", "a é ", "\"a \"", "a\r\n", "\u{feff}a"] {
        v.push(Debugged { what: "text".into(), toks: toks.clone(), spec: g3.clone(), algo: if x.len() % 2 == 0 { None } else { Some(Algo::Lalr) }, text: x.into() });
    }
    // long texts that are decided at their end
    for n in [(1usize << 12) - 1, 1 << 12, (1 << 13) + 1, (1 << 16) - 1, (1 << 16) + 1, 200_000] {
        let body: String = if n % 2 == 0 { "x" } else { "é" }.repeat(n / if n % 2 == 0 { 1 } else { 2 });
        for x in [format!("\"{}\"", body), format!("\"{}", body), format!("\"{}\"A", body)] {
            v.push(Debugged { what: "long".into(), toks: toks.clone(), spec: g3.clone(), algo: None, text: x });
        }
    }
    let g4 = Spec::new("lr0", 2, 2).p(0, sq(vec![t(0), n(1)])).p(1, t(1)).p(1, sq(vec![t(0), n(1)]));
    for x in ["", "a", "ab", "aab", "b", "aba", "abb", "aaab"] {
        v.push(Debugged { what: "lr0".into(), toks: lits.clone(), spec: g4.clone(), algo: Some(Algo::LR0), text: x.into() });
    }
    v
}

pub fn c19(ctx: &Ctx) {
    let base = ctx.scratch();
    let mut t = Tally::default();
    if let Err(f) = misuse(&base, &mut t) {
        ctx.fail("misuse", f);
    }
    ctx.merge(t);
    let dbg = debug_family(ctx);
    ctx.count("debug cases", dbg.len() as u64);
    ctx.par(&dbg, LIMIT, |d| format!("debug {} {}", d.what, d.shown()), |d, t| debug_run(&base, d, t));

    let mut specs = bases();
    specs.extend(fam::shapes());
    specs.extend(every(fam::contexts(), ctx.pick(6, 1)));
    specs.extend(every(fam::tagged(), ctx.pick(8, 2)));
    specs.extend(every(fam::ebnf_double(4), ctx.pick(40, 4)));
    specs.extend(every(fam::reduced(fam::plain(2, 2, 4, 4, 3)), ctx.pick(12, 2)));
    specs.extend(every(fam::reduced(fam::plain(3, 2, 5, 5, 2)), ctx.pick(200, 10)));
    let mut cases = Vec::new();
    for (i, s) in specs.iter().enumerate() {
        for (j, (algo, lang)) in combos().into_iter().enumerate() {
            // every combination of switches and forms for the first ones, then in turn
            for k in 0..16 {
                if i < 3 || (i + j) % 16 == k || i < specs.len() && fam_first(s) && k % 4 == j % 4 {
                    cases.push(Form { spec: s.clone(), algo, lang, table: k & 1 == 0, lexer: k & 2 == 0, form: (k >> 2) + 4 * (i + j) });
                }
            }
        }
    }
    ctx.count("grammars", specs.len() as u64);
    ctx.count("option sets", cases.len() as u64);
    for c in every(cases.clone(), (cases.len() / 8).max(1)) {
        ctx.sample(c.brief());
    }
    ctx.par(&cases, LIMIT, |f| f.brief(), |f, t| options(&base, f, t));

    // many conflicts: k operators have k * k of them
    let sizes: Vec<(usize, Algo, Lang)> = (1..=ctx.pick(24, 48)).chain([32]).flat_map(|k| [(k, Algo::LR1, Lang::Rust), (k, Algo::Lalr, Lang::Cpp), (k, Algo::LR0, Lang::Rust)]).collect();
    ctx.par(&sizes, LIMIT, |(k, a, l)| format!("{} ambiguous operators {} {}", k, a.arg(), l.arg()), |(k, a, l), t| many_conflicts(&base, *k, *a, *l, t));
}
/// A grammar with as many conflicts as there are pairs of operators is refused, however many these are.
fn many_conflicts(base: &Path, k: usize, algo: Algo, lang: Lang, tally: &mut Tally) -> Outcome {
    let mut s = Spec::new(&format!("pairs{}", k), 1 + k, 1).p(0, Pat::T(0));
    for i in 0..k as u16 {
        s = s.p(0, Pat::Seq(vec![Pat::N(0), Pat::T(1 + i), Pat::N(0)]));
    }
    let dir = fresh_dir(base, "many");
    let target = fresh_dir(&dir, "t");
    let g = dir.join("g");
    std::fs::write(&g, s.text()).unwrap();
    let r = invoke(&dir, &dir, &gen_args(algo, lang, false, true, &target, &g), GEN_LIMIT);
    tally.add("commands run", 1);
    tally.add("grammars with k * k conflicts", 1);
    let made = tree(&target);
    let bad = if r.timeout || r.code.is_none() {
        "the command does not end"
    } else if r.ok() {
        "the grammar has conflicts, but the command succeeds"
    } else if r.err.trim().is_empty() {
        "the command fails without a message"
    } else if made.contains_key(main_parser_file(lang)) {
        "the command fails, but writes a parser"
    } else {
        let _ = std::fs::remove_dir_all(&dir);
        return Ok(());
    };
    Err(Fail::new(format!("-l {} -a {} {}", lang.arg(), algo.arg(), s.brief()), format!("{}; {}\ngrammar:\n{}", bad, r.describe(), s.text())))
}
fn fam_first(s: &Spec) -> bool {
    !s.label.is_empty() && !s.label.starts_with("ctx") && !s.label.starts_with("tags")
}
