//! C05, C15, C16, C17: the two grammar readers against reference readers of texts, tokens and regexes.
mod bootref;
mod conv;
mod diag;
mod refread;
mod refregex;
use bootref::{Body, Boot};
use lapex_input::{LapexInputParser, RuleSet, TokenPattern};
use lapex_input_bootstrap::BootstrapLapexInputParser;
use lapex_input_gen::GeneratedLapexInputParser;
use mccore::families;
use mccore::lexref::asts;
use mccore::regex::{lit, opt, plus, star, Ast};
use mccore::run::{catch, main_with, Ctx, Fail, Outcome, Tally};
use mccore::spec::{Pat, Spec};
use refread::{norm, P};
use refregex::{Read, Tables};
use std::time::Duration;

const LIMIT: Duration = Duration::from_secs(120);

fn generated(t: &str) -> Result<RuleSet<'_>, String> {
    match catch(|| GeneratedLapexInputParser.parse_lapex(t)) {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(e)) => Err(format!("error {}", e)),
        Err(p) => Err(format!("panic {}", p)),
    }
}
fn bootstrap(t: &str) -> Result<RuleSet<'_>, String> {
    match catch(|| BootstrapLapexInputParser.parse_lapex(t)) {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(e)) => Err(format!("error {}", e)),
        Err(p) => Err(format!("panic {}", p)),
    }
}

fn flat(a: &Ast) -> Ast {
    match a {
        Ast::Seq(v) => {
            let mut o = Vec::new();
            for x in v {
                match flat(x) {
                    Ast::Seq(w) => o.extend(w),
                    y => o.push(y),
                }
            }
            if o.len() == 1 {
                o.pop().unwrap()
            } else {
                Ast::Seq(o)
            }
        }
        Ast::Alt(v) => {
            let mut o: Vec<Ast> = v.iter().map(flat).collect();
            if o.len() == 1 {
                o.pop().unwrap()
            } else {
                Ast::Alt(o)
            }
        }
        Ast::Rep(x, n, m) => Ast::Rep(Box::new(flat(x)), *n, *m),
        Ast::Class(r, neg) => match r.as_slice() {
            [(x, y)] if x == y && !neg => Ast::Chr(*x),
            _ => a.clone(),
        },
        x => x.clone(),
    }
}

/// One level of backslash escapes removed.
fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(d) => o.push(d),
                None => o.push('\\'),
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// A name for a text in a report.
fn short(t: &str) -> String {
    match t.char_indices().nth(400) {
        Some((i, _)) => format!("{:?}... ({} bytes)", &t[..i], t.len()),
        None => format!("{:?}", t),
    }
}

// ---------------------------------------------------------------- C15, C17: whole files

/// Compares what the generated reader makes of the text with the reference reader.
/// `spans` selects C17's part, otherwise C15's.
fn check_text(text: &str, tables: &Tables, spans: bool, tally: &mut Tally) -> Outcome {
    if text.contains("\\\n") || text.contains('\0') {
        return Ok(());
    }
    let want = refread::read(text);
    tally.add("states", 1);
    let fail = |d: String| Err(Fail::new(format!("text {}", short(text)), format!("grammar file {:?}: {}", text, d)));
    // regexes in the file decide too whether it is well formed
    let mut open = false;
    let mut res: Vec<Option<Ast>> = Vec::new();
    let want = want.and_then(|f| {
        for t in &f.toks {
            if t.body.starts_with('/') {
                match refregex::read(&t.body[1..t.body.len() - 1], tables) {
                    Read::Ok(a) => res.push(Some(a)),
                    Read::Reject => return None,
                    Read::Maybe(a) => {
                        open = true;
                        res.push(Some(a))
                    }
                    Read::Open => {
                        open = true;
                        res.push(None)
                    }
                }
            } else {
                res.push(None)
            }
        }
        Some(f)
    });
    if spans && want.is_none() {
        return Ok(());
    }
    let got = generated(text);
    tally.add("transitions", 1);
    let f = match (want, &got) {
        (None, Err(_)) => {
            tally.add("texts_refused_by_both", 1);
            return Ok(());
        }
        (None, Ok(r)) => return fail(format!("does not follow the syntax, but was read as {:?}", r)),
        (Some(_), Err(_)) if open => return Ok(()),
        (Some(_), Err(e)) => {
            if spans {
                return Ok(());
            }
            return fail(format!("is a grammar file, but was refused: {}", e));
        }
        (Some(f), Ok(_)) => f,
    };
    let got = got.unwrap();
    tally.add("texts_read_and_compared", 1);
    if spans {
        let pos = |at: usize| refread::line_col(text, at);
        let mut w: Vec<(u8, String, (usize, usize), (usize, usize), String)> = Vec::new();
        let mut add = |k: u8, n: &str, s: (usize, usize)| w.push((k, n.to_string(), pos(s.0), pos(s.1), text[s.0..s.1].to_string()));
        f.toks.iter().for_each(|t| add(0, &t.name, t.span));
        f.prods.iter().for_each(|p| add(1, &p.name, p.span));
        add(2, &f.entry, f.entry_span);
        let mut g = Vec::new();
        let mut add = |k: u8, n: &str, s: lapex_input::SourceSpan| {
            let sub = catch(|| s.substring(text).map(|x| x.to_string())).ok().flatten().unwrap_or_else(|| "<no text>".into());
            g.push((k, n.to_string(), (s.start.line as usize, s.start.col as usize), (s.end.line as usize, s.end.col as usize), sub))
        };
        got.token_rules.iter().for_each(|t| add(0, t.inner.name, t.span));
        got.production_rules.iter().for_each(|p| add(1, p.inner.name, p.span));
        add(2, got.entry_rule.inner.name, got.entry_rule.span);
        tally.add("spans_compared", g.len() as u64);
        w.sort();
        g.sort();
        if w != g {
            return fail(format!("spans are (kind, name, start, end, selected text) {:?}, should be {:?}", g, w));
        }
        return Ok(());
    }
    if got.entry_rule.inner.name != f.entry {
        return fail(format!("entry is read as {:?}", got.entry_rule.inner.name));
    }
    let mut wp: Vec<(String, Option<String>, P)> = f.prods.iter().map(|p| (p.name.clone(), p.tag.clone(), norm(&p.pat))).collect();
    let mut gp: Vec<(String, Option<String>, P)> =
        got.production_rules.iter().map(|p| (p.inner.name.to_string(), p.inner.tag.map(|t| t.to_string()), norm(&conv::prod(&p.inner.pattern)))).collect();
    wp.sort();
    gp.sort();
    if wp != gp {
        return fail(format!("productions (name, tag, pattern) are read as {:?}, should be {:?}", gp, wp));
    }
    // tokens: matched up by name, precedence and kind
    let mut wt: Vec<(String, Option<u16>, bool, String, usize)> =
        f.toks.iter().enumerate().map(|(i, t)| (t.name.clone(), t.prec, t.body.starts_with('/'), res[i].as_ref().map(|a| format!("{:?}", flat(a))).unwrap_or_else(|| t.body[1..t.body.len() - 1].to_string()), i)).collect();
    let mut gt: Vec<(String, Option<u16>, bool, String, usize)> = got
        .token_rules
        .iter()
        .enumerate()
        .map(|(i, t)| match &t.inner.pattern {
            TokenPattern::Literal { characters } => (t.inner.name.to_string(), t.inner.precedence, false, characters.iter().collect(), i),
            TokenPattern::Pattern { pattern } => (t.inner.name.to_string(), t.inner.precedence, true, format!("{:?}", flat(&conv::regex(pattern))), i),
        })
        .collect();
    wt.sort();
    gt.sort();
    let head = |v: &Vec<(String, Option<u16>, bool, String, usize)>| v.iter().map(|x| (x.0.clone(), x.1, x.2)).collect::<Vec<_>>();
    if head(&wt) != head(&gt) {
        return fail(format!("tokens (name, precedence, is regex) are read as {:?}, should be {:?}", head(&gt), head(&wt)));
    }
    // tokens of one name, precedence and kind may come in any order: find the partner of each
    let mut used = vec![false; gt.len()];
    for w in &wt {
        let same_head = |g: &(String, Option<u16>, bool, String, usize)| (&g.0, g.1, g.2) == (&w.0, w.1, w.2);
        let mut why = String::new();
        let mut hit = (0..gt.len()).find(|i| !used[*i] && same_head(&gt[*i]) && gt[*i].3 == w.3);
        for i in 0..gt.len() {
            if hit.is_some() {
                break;
            }
            let g = &gt[i];
            if used[i] || !same_head(g) {
                continue;
            }
            match &res[w.4] {
                None if !w.2 => {
                    if g.3 == unescape(&w.3) {
                        hit = Some(i);
                    } else {
                        why = format!("literal of token {} is read as {:?}", w.0, g.3);
                    }
                }
                None => hit = Some(i),
                Some(a) => {
                    if let TokenPattern::Pattern { pattern } = &got.token_rules[g.4].inner.pattern {
                        match conv::differ(a, &conv::regex(pattern)) {
                            (_, _, Some(d)) => why = format!("regex of token {} is misread: {}", w.0, d),
                            _ => hit = Some(i),
                        }
                    }
                }
            }
        }
        match hit {
            Some(i) => used[i] = true,
            None => return fail(why),
        }
    }
    Ok(())
}

/// Files with many declarations, long ones and deeply nested ones. Without `full`, only what the bootstrap reader knows.
fn scale_texts(full: bool, thorough: bool) -> Vec<String> {
    let mut v = Vec::new();
    let sizes: &[usize] = if thorough { &[17, 33, 65, 130, 258, 300, 520, 1030, 2050] } else { &[17, 33, 65, 130, 258, 300, 1030] };
    let abc = |i: usize| ['a', 'b', 'c'][i % 3];
    let ab = |i: usize| ["A", "B"][i % 2];
    let base = |body: &str| format!("token A = \"a\";\ntoken B = \"b\";\nentry s;\nprod s = {};\n", body);
    let tok = |body: &str| format!("token A = {};\nentry s;\nprod s = A;\n", body);
    for n in sizes {
        let n = *n;
        let all = |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(f).collect::<Vec<_>>().join(sep);
        // declarations
        v.push(format!("{}\nentry p0;\n{}\n", all(&|i| format!("token T{} = \"t{}\";", i, i), "\n"), all(&|i| format!("prod p{} = T{} p{}?;", i, i, (i + 1) % n), "\n")));
        v.push(format!("token A = \"a\";\nentry s;\n{}\n", all(&|i| format!("prod s = {};", "A ".repeat(i % 5 + 1).trim()), "\n")));
        v.push(format!("entry s;\nprod s = T0;\n{}\n", all(&|i| format!("token T{} = /[a-c]{}/;", i, abc(i)), "\n")));
        if full {
            v.push(format!("entry s;{}", all(&|i| format!("token T{}[{}]=\"t\";prod s[tag{}]=T{};", i, i, i, i), "")));
            v.push(all(&|i| format!("prod s[one]=T{};token T{}=\"t\"", i, i), ";") + ";entry s;");
        }
        // bodies
        v.push(base(&all(&|i| ab(i).into(), " ")));
        v.push(base(&format!("({})", all(&|i| ab(i).into(), " | "))));
        v.push(base(&format!("A ({})* B", all(&|i| format!("A{} B", [" s", "?", "+", ""][i % 4]), " | "))));
        v.push(base(&all(&|i| format!("(A | {})?", ab(i)), " ")));
        if full {
            v.push(base(&all(&|i| [ab(i), "!"][(i / 7) % 2].into(), " | ")));
            v.push(base(&format!("A{}B", all(&|_| "".into(), " "))));
        }
        // names
        let long = all(&|i| abc(i).to_string(), "");
        v.push(format!("token {} = \"a\";\nentry {};\nprod {} = {};\n", long.to_uppercase(), long, long, long.to_uppercase()));
        v.push(format!("token A{} = \"a\";\ntoken A{}x = \"b\";\nentry s;\nprod s = A{} A{}x;\n", long, long, long, long));
        if full {
            v.push(format!("token A[7] = \"a\";entry s;prod s[{}]=A;prod s[{}x]=A;", long, long));
            v.push(format!("token A[{}7] = \"a\";entry s;prod s=A;", "0".repeat(n)));
        }
        // blanks between and before
        v.push(format!("{}token A = \"a\";{}entry s;\nprod s = A;{}", "\n".repeat(n), " \n".repeat(n), " ".repeat(n)));
        // patterns
        let word = |c: [char; 3]| (0..n).map(|i| c[i % 3]).collect::<String>();
        v.push(tok(&format!("\"{}\"", word(['a', 'é', '日']))));
        v.push(tok(&format!("\"{}\"", word(['/', '*', '-']))));
        v.push(tok(&format!("/{}/", word(['a', 'b', 'z']))));
        v.push(tok(&format!("/{}/", all(&|i| abc(i).to_string(), "|"))));
        v.push(tok(&format!("/[{}]/", (0..n).map(|i| char::from_u32(0x4000 + 2 * i as u32).unwrap()).collect::<String>())));
        v.push(tok(&format!("/[^{}]/", (0..n).map(|i| char::from_u32(0x4000 + 3 * i as u32).unwrap()).map(|c| format!("{}-{}", c, char::from_u32(c as u32 + 1).unwrap())).collect::<String>())));
        if n < 200 {
            v.push(tok(&format!("/{}/", all(&|i| format!("({}b)?", abc(i)), ""))));
        }
    }
    // every number of parts up to a bound, all of them different
    for n in (2..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300]) {
        let all = |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(f).collect::<Vec<_>>().join(sep);
        let word = |i: usize| format!("{}{}", (b'a' + (i / 26) as u8) as char, (b'a' + (i % 26) as u8) as char);
        let decls = all(&|i| format!("token T_{} = \"{}\";", word(i), word(i)), "\n");
        let prod = |body: &str| format!("{}\nentry s;\nprod s = {};\n", decls, body);
        v.push(tok(&format!("/({})/", all(&word, "|"))));
        v.push(tok(&format!("/x({})+(y|z)/", all(&word, "|"))));
        v.push(tok(&format!("/{}/", all(&word, "|"))));
        v.push(tok(&format!("/[{}]/", (0..n).map(|i| char::from_u32(0x4000 + 2 * i as u32).unwrap()).collect::<String>())));
        if n <= 90 {
            v.push(tok(&format!("/[{}]/", (0..n).filter(|i| *i < 26).map(|i| (b'a' + i as u8) as char).chain((0..n).filter(|i| *i >= 26).map(|i| (b'0' + (i % 10) as u8) as char)).collect::<String>())));
        }
        v.push(tok(&format!("/{}/", all(&word, ""))));
        v.push(tok(&format!("/{}/", all(&|i| format!("({})", word(i)), ""))));
        v.push(prod(&all(&|i| format!("T_{}", word(i)), " ")));
        v.push(prod(&format!("({})", all(&|i| format!("T_{}", word(i)), " | "))));
        v.push(prod(&format!("T_aa ({})+ T_ab", all(&|i| format!("T_{} T_aa", word(i)), " | "))));
        v.push(prod(&all(&|i| format!("T_{}{}", word(i), ["?", "*", "+", ""][i % 4]), " ")));
        if full {
            v.push(prod(&all(&|i| format!("T_{}", word(i)), " | ")));
            v.push(prod(&all(&|i| format!("T_{} T_ab", word(i)), "|")));
        }
    }
    for d in [2, 3, 7, 15, 31, 60, 100] {
        let wrap = |a: &str, x: &str, b: &str| format!("{}{}{}", a.repeat(d), x, b.repeat(d));
        for (a, x, b) in [("(", "A", ")"), ("(", "A", ")*"), ("(A ", "B", ")"), ("(", "A", " B)"), ("(A | ", "B", ")"), ("(", "A", " | B)+"), ("(A (B | ", "s", ")? A)"), ("((", "A B", ")* | B)+")] {
            v.push(base(&wrap(a, x, b)));
            v.push(base(&format!("B {} A", wrap(a, x, b))));
        }
        v.push(base(&format!("{}A{}", "(".repeat(d), ")".repeat(d - 1))));
        v.push(base(&format!("{}A{}", "(".repeat(d - 1), ")".repeat(d))));
        if full {
            v.push(base(&format!("A{}", "*+?".repeat(d))));
            v.push(base(&wrap("( A | B ! ", "A", ")")));
        }
        for (a, x, b) in [("(", "a", ")"), ("(", "a", ")*"), ("(a", "b", ")"), ("(", "a", "b)"), ("(a|", "b", ")"), ("(", "a", "|b)+"), ("(a(b|", "c", ")?a)")] {
            // regex-syntax refuses more than 250 levels, and counts each operator as one
            if d <= 31 || b.len() < 2 {
                v.push(tok(&format!("/{}/", wrap(a, x, b))));
            }
        }
    }
    v
}

const VOCAB: [&str; 18] = ["token", "entry", "prod", "=", ";", "(", ")", "[", "]", "7", "?", "!", "*", "+", "|", "a", "\"b\"", "/c/"];

/// Files with every construct, as lists of lexical tokens.
fn bases() -> Vec<Vec<&'static str>> {
    let full = "token A = \"a\" ; token B [ 12 ] = /b+/ ; entry s ; prod s [ one ] = A ( B | s ? ) * ; prod t = ! ; prod s = ( t + B ) | A A ;";
    let uni = "prod p = Ä ; token Ä [ 0 ] = \"日本é\" ; token C_1 = /[é-ü]|😀/ ; entry p ; token D = \"\\\\;\" ; prod p [ x9 ] = ( ( C_1 ) ? D ) ;";
    let _ = uni;
    let uni = "prod p = E ; token E [ 0 ] = \"日本é\" ; token C_1 = /[é-ü]|😀/ ; entry p ; token D = \"x\\;y\" ; prod p [ x9 ] = ( ( C_1 ) ? D ) ;";
    let small = "entry s ; prod s = A | ( ! ) | B s * ; token A = \"é\" ; token B = /é/ ;";
    vec![full.split(' ').collect(), uni.split(' ').collect(), small.split(' ').collect()]
}

fn wordy(s: &str) -> bool {
    s.chars().next().map(|c| c.is_alphanumeric()).unwrap_or(false)
}
fn join(toks: &[&str], sep: &dyn Fn(usize) -> &'static str) -> String {
    let mut o = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            o.push_str(sep(i));
        }
        o.push_str(t);
    }
    o
}

enum Group {
    /// one prefix of vocabulary indices, all extensions up to the given length, sep by blank
    Words(Vec<usize>, usize),
    /// a production body over a small alphabet
    Body(Vec<usize>, usize),
    Texts(&'static str, Vec<String>),
}

const BODY: [&str; 8] = ["A", "(", ")", "|", "*", "?", "+", "!"];

fn file_groups(ctx: &Ctx, spans: bool) -> Vec<Group> {
    let mut g = Vec::new();
    let bs = bases();
    // token sequences
    let wl = if spans { ctx.pick(4, 5) } else { ctx.pick(5, 6) };
    g.push(Group::Words(vec![], 1));
    for a in 0..VOCAB.len() {
        for b in 0..VOCAB.len() {
            g.push(Group::Words(vec![a, b], wl));
        }
    }
    // bodies of a production
    let bl = if spans { 5 } else { ctx.pick(7, 8) };
    g.push(Group::Body(vec![], 1));
    for a in 0..BODY.len() {
        for b in 0..BODY.len() {
            g.push(Group::Body(vec![a, b], bl));
        }
    }
    // layouts
    let seps = ["", " ", "\t", "\n", "  ", "\n\n", " \n\t", "\t\n "];
    for base in &bs {
        let n = base.len();
        let legal = |i: usize, s: &str| !(s.is_empty() && wordy(base[i - 1]) && wordy(base[i]));
        for dflt in [" ", "\n", "", "\t\t"] {
            let d = |i: usize| if legal(i, dflt) { dflt } else { " " };
            for i in 1..n {
                let mut v = Vec::new();
                for s in seps {
                    for j in i..n {
                        if !ctx.thorough() && j > i + 6 && j % 5 != i % 5 {
                            continue;
                        }
                        for u in seps {
                            if (i == j && s != u) || !legal(i, s) || !legal(j, u) {
                                continue;
                            }
                            v.push(join(base, &|k| if k == i { s } else if k == j { u } else { d(k) }));
                        }
                    }
                }
                g.push(Group::Texts("layouts", v));
            }
            let body = join(base, &d);
            g.push(Group::Texts("layouts", seps.iter().flat_map(|a| seps.iter().map(|b| format!("{}{}{}", a, body, b)).collect::<Vec<_>>()).collect()));
        }
    }
    // orders of declarations
    for base in &bs {
        let mut decls: Vec<Vec<&str>> = vec![vec![]];
        for t in base {
            decls.last_mut().unwrap().push(t);
            if *t == ";" {
                decls.push(vec![]);
            }
        }
        decls.pop();
        let m = decls.len().min(7);
        let mut perm: Vec<usize> = (0..m).collect();
        let mut v = Vec::new();
        loop {
            for style in 0..3 {
                let mut o = String::new();
                for (k, i) in perm.iter().enumerate() {
                    o.push_str(&decls[*i].join(" "));
                    o.push_str(match style {
                        0 => "\n",
                        1 => "",
                        _ => ["  ", "\n\n", "\t"][k % 3],
                    });
                }
                v.push(o);
            }
            // next permutation
            let Some(i) = (1..m).rev().find(|i| perm[i - 1] < perm[*i]) else { break };
            let j = (i..m).rev().find(|j| perm[*j] > perm[i - 1]).unwrap();
            perm.swap(i - 1, j);
            perm[i..].reverse();
        }
        for c in v.chunks(500) {
            g.push(Group::Texts("orders", c.to_vec()));
        }
    }
    // token edits
    let mut vocab: Vec<&str> = VOCAB.to_vec();
    vocab.extend(["s", "A", "99999", "65535", "0", "01", "a1", "_", "é", "\"", "/", "\"\"", "//", "/(/", "/a{2}/", "/a|b/", "/a*?/"]);
    for base in &bs {
        let base: Vec<&str> = base.to_vec();
        for i in 0..=base.len() {
            let mut v: Vec<Vec<&str>> = Vec::new();
            if i < base.len() {
                let mut b = base.clone();
                b.remove(i);
                v.push(b);
                let mut b = base.clone();
                b.insert(i, base[i]);
                v.push(b);
                v.push(base[..i].to_vec());
                if i + 1 < base.len() {
                    let mut b = base.clone();
                    b.swap(i, i + 1);
                    v.push(b);
                }
                for j in i..base.len() {
                    let mut b = base.clone();
                    b.drain(i..=j);
                    v.push(b);
                }
            }
            for w in &vocab {
                let mut b = base.clone();
                b.insert(i, w);
                v.push(b);
                if i < base.len() {
                    let mut b = base.clone();
                    b[i] = w;
                    v.push(b);
                    if ctx.thorough() {
                        for j in i + 1..base.len() {
                            for x in &vocab {
                                let mut c = base.clone();
                                c[i] = w;
                                c[j] = x;
                                v.push(c);
                            }
                        }
                    }
                }
            }
            let mut texts: Vec<String> = v.iter().map(|t| t.join(" ")).collect();
            texts.extend(v.iter().take(200).map(|t| t.concat()));
            for c in texts.chunks(400) {
                g.push(Group::Texts("token edits", c.to_vec()));
            }
        }
    }
    // character edits
    let alphabet: Vec<char> = "aAs_09 \t\n=;()[]?!*+|\"/\\é\r.-,{}#😀".chars().collect();
    for base in &bs {
        let text: Vec<char> = base.join(" ").chars().collect();
        for i in 0..=text.len() {
            let mut v = Vec::new();
            if i < text.len() {
                let mut t = text.clone();
                t.remove(i);
                v.push(t);
            }
            for c in &alphabet {
                let mut t = text.clone();
                t.insert(i, *c);
                v.push(t);
                if i < text.len() {
                    let mut t = text.clone();
                    t[i] = *c;
                    v.push(t);
                }
            }
            g.push(Group::Texts("character edits", v.into_iter().map(|t| t.into_iter().collect()).collect()));
        }
    }
    // all patterns up to a size, with and without redundant parentheses and blanks
    let s = Spec::new("", 1, 2);
    let leaves = [Pat::T(0), Pat::N(1), Pat::Eps];
    for size in 1..=ctx.pick(5, 6) {
        let pats = families::patterns(size, &leaves, 3);
        for c in pats.chunks(300) {
            let mut v = Vec::new();
            for p in c {
                for style in 0..3 {
                    let mut o = String::from("entry s;prod s[t]=");
                    render(p, &s, style, 0, &mut o);
                    o.push_str(";token A=\"a\";");
                    v.push(o);
                }
            }
            g.push(Group::Texts("patterns", v));
        }
    }
    // larger patterns, without the empty one
    for size in ctx.pick(6, 7)..=ctx.pick(6, 8) {
        for c in families::patterns(size, &[Pat::T(0), Pat::N(1)], 3).chunks(2000) {
            let mut v = Vec::new();
            for (i, p) in c.iter().enumerate() {
                // in one of the layouts each
                let mut o = String::from("entry s;prod s[t]=");
                render(p, &s, i % 3, 0, &mut o);
                o.push_str(";token A=\"a\";");
                v.push(o);
            }
            g.push(Group::Texts("patterns", v));
        }
    }
    // numbers, names and literals
    let mut v = Vec::new();
    for n in ["0", "1", "9", "10", "19", "255", "256", "999", "1000", "32767", "32768", "65535", "65536", "99999", "00", "007", "1a", "-1", "+1", "1 2", "1\n", ""] {
        v.push(format!("token A[{}]=\"a\";entry s;prod s=A;", n));
        v.push(format!("token A=\"a\";entry s;prod s[{}]=A;", n));
    }
    for n in ["a", "Z", "z9", "a_", "a_b", "a__b9", "tokens", "token", "entry", "entryx", "prod", "prod1", "prodprod", "Token", "9a", "_a", "é", "aé", "a-b", "a.b", "E", "EOF", "a b"] {
        v.push(format!("token {}=\"a\";entry s;prod s=A;", n));
        v.push(format!("token A=\"a\";entry {};prod s=A;", n));
        v.push(format!("token A=\"a\";entry s;prod {}=A;", n));
        v.push(format!("token A=\"a\";entry s;prod s[{}]=A;", n));
        v.push(format!("token A=\"a\";entry s;prod s=A {} A;", n));
    }
    // no entry, several, none else
    v.extend(["", " ", "\n", "entry s;", "entry s;entry s;", "entry s;entry t;", "prod s=A;", "token A=\"a\";", "token A=\"a\";prod s=A;", "entry s;prod s=A;entry s;", ";", "entry s;;"].iter().map(|s| s.to_string()));
    g.push(Group::Texts("numbers and names", v));
    for t in scale_texts(true, ctx.thorough()) {
        g.push(Group::Texts("many, long and deeply nested declarations", vec![t]));
    }
    g
}

fn render(p: &Pat, s: &Spec, style: usize, level: u8, o: &mut String) {
    // level 0: anything, 1: in a sequence or alternative, 2: under an operator
    let open = |o: &mut String| o.push_str(if style == 2 { "( " } else { "(" });
    let close = |o: &mut String| o.push_str(if style == 2 { " )" } else { ")" });
    match p {
        Pat::T(_) | Pat::N(_) => {
            if style == 1 {
                open(o);
            }
            o.push_str(match p {
                Pat::T(t) => &s.toks[*t as usize],
                Pat::N(n) => &s.nts[*n as usize],
                _ => unreachable!(),
            });
            if style == 1 {
                close(o);
            }
        }
        Pat::Eps => {
            if level > 0 {
                open(o);
            }
            o.push('!');
            if level > 0 {
                close(o);
            }
        }
        Pat::Seq(v) => {
            let par = level >= 2 || style == 1 && level >= 1;
            if par {
                open(o);
            }
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(' ');
                }
                match x {
                    Pat::Alt(_) | Pat::Eps => render(x, s, style, 2, o),
                    Pat::Seq(_) => render(x, s, style, 2, o),
                    _ => render(x, s, style, 1, o),
                }
            }
            if par {
                close(o);
            }
        }
        Pat::Alt(v) => {
            if level >= 1 {
                open(o);
            }
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push_str(if style == 2 { " | " } else { "|" });
                }
                match x {
                    Pat::Seq(_) => render(x, s, style, if style == 1 { 2 } else { 1 }, o),
                    _ => render(x, s, style, 2, o),
                }
            }
            if level >= 1 {
                close(o);
            }
        }
        Pat::Opt(x) | Pat::Star(x) | Pat::Plus(x) => {
            let post = matches!(**x, Pat::Opt(_) | Pat::Star(_) | Pat::Plus(_));
            if post {
                open(o);
            }
            render(x, s, style, if post { 0 } else { 2 }, o);
            if post {
                close(o);
            }
            if style == 2 {
                o.push('\n');
            }
            o.push(match p {
                Pat::Opt(_) => '?',
                Pat::Star(_) => '*',
                _ => '+',
            });
        }
    }
}

fn sequences(prefix: &[usize], max: usize, n: usize, f: &mut dyn FnMut(&[usize]) -> Outcome) -> Outcome {
    fn go(cur: &mut Vec<usize>, max: usize, n: usize, f: &mut dyn FnMut(&[usize]) -> Outcome) -> Outcome {
        f(cur)?;
        if cur.len() < max {
            for i in 0..n {
                cur.push(i);
                go(cur, max, n, f)?;
                cur.pop();
            }
        }
        Ok(())
    }
    go(&mut prefix.to_vec(), max, n, f)
}

fn files(ctx: &Ctx, spans: bool) {
    let tables = Tables::new();
    let groups = file_groups(ctx, spans);
    ctx.par(
        &groups,
        LIMIT * 5,
        |g| match g {
            Group::Words(p, l) => format!("all token sequences up to {} tokens starting with {:?}", l, p.iter().map(|i| VOCAB[*i]).collect::<Vec<_>>()),
            Group::Body(p, l) => format!("all production bodies up to {} tokens starting with {:?}", l, p.iter().map(|i| BODY[*i]).collect::<Vec<_>>()),
            Group::Texts(k, v) => format!("{} texts ({}), the first is {}", v.len(), k, v.first().map(|t| short(t)).unwrap_or_default()),
        },
        |g, tally| match g {
            Group::Words(p, l) => sequences(p, *l, VOCAB.len(), &mut |s| {
                let t = s.iter().map(|i| VOCAB[*i]).collect::<Vec<_>>().join(" ");
                check_text(&t, &tables, spans, tally)
            }),
            Group::Body(p, l) => sequences(p, *l, BODY.len(), &mut |s| {
                let t = format!("entry s;\nprod s = {};", s.iter().map(|i| BODY[*i]).collect::<Vec<_>>().join(" "));
                check_text(&t, &tables, spans, tally)
            }),
            Group::Texts(_, v) => {
                for t in v {
                    check_text(t, &tables, spans, tally)?;
                }
                Ok(())
            }
        },
    );
    ctx.info("bounds", format!("all sequences of at most {} of the {} lexical tokens; all production bodies of at most {} tokens over {:?}; all patterns of at most {} nodes in 3 layouts; every pair of separators at every pair of gaps, all orders of the declarations, every one-token and one-character edit of 3 files{}", if spans { ctx.pick(4, 5) } else { ctx.pick(5, 6) }, VOCAB.len(), if spans { 5 } else { ctx.pick(7, 8) }, BODY, ctx.pick(5, 6), if ctx.thorough() { ", every pair of token replacements" } else { " (pairs of gaps: near ones and every fifth far one)" }));
    for b in bases() {
        ctx.sample(b.join(" "));
    }
    if !spans {
        let n = ctx.get("texts_read_and_compared") + ctx.get("texts_refused_by_both");
        ctx.count("traces_validated_against_impl", n);
    }
}

fn c15(ctx: &Ctx) {
    files(ctx, false);
    ctx.assume("the order in which a reader returns the declarations is not part of the property; alternatives are compared as a set");
    ctx.assume("texts with U+0000 or with a backslash before a line break are not explored");
}

/// Files whose lines or columns pass every power of two up to 2^17.
fn long_files(ctx: &Ctx) {
    let tables = Tables::new();
    let mut cases: Vec<(u32, bool)> = Vec::new();
    for b in 6..=17 {
        cases.push((b, false));
        cases.push((b, true));
    }
    ctx.par(
        &cases,
        LIMIT,
        |(b, wide)| format!("a grammar file with more than 2^{} {}", b, if *wide { "columns" } else { "lines" }),
        |(b, wide), tally| {
            let gap = (if *wide { " " } else { "\n" }).repeat(1 << b);
            let t = format!("token A = \"é\";{}prod s = A{};entry s;{}token B = \"é😀\";", gap, gap, gap);
            if let Err(e) = generated(&t) {
                return Err(Fail::new(format!("long file 2^{} {}", b, wide), format!("was refused: {}", e)));
            }
            check_text(&t, &tables, true, tally)
        },
    );
}

fn c17(ctx: &Ctx) {
    files(ctx, true);
    long_files(ctx);
    diag::check(ctx);
    ctx.info("bounds_diagnostics", format!("every named grammar shape and every {}context grammar in {} layouts with 3 algorithms, all plain grammars of 2 non-terminals, 2 tokens, 4 rules and {} symbols and all EBNF patterns of {} nodes in a layout each; all pairs and triples of small token patterns; files of up to 2^17 lines and columns", ctx.pick("second ", ""), diag::LAYOUTS, ctx.pick(4, 5), ctx.pick(4, 5)));
    let n = ctx.get("texts_read_and_compared") + ctx.get("diagnosed_grammars") + ctx.get("diagnosed_token_sets");
    ctx.count("traces_validated_against_impl", n);
    ctx.assume("line breaks are U+000A; files with other line break conventions are not grammar files");
}

// ---------------------------------------------------------------- C05: regexes and literals

fn check_regex(body: &str, want: &Read, tally: &mut Tally) -> Outcome {
    let text = format!("token T = /{}/;\nentry s;\nprod s = T;", body);
    // the token ends at the first slash that is not escaped
    match refread::lex(&text) {
        Some(k) if k.get(3).map(|t| t.1 .1 - t.1 .0) == Some(body.len() + 2) => {}
        _ => return Ok(()),
    }
    let got = generated(&text);
    tally.add("regex_texts", 1);
    let fail = |d: String| Err(Fail::new(format!("regex {}", body), format!("token T = /{}/; {}", body, d)));
    match (want, &got) {
        (Read::Open, _) => {
            tally.add("regex_texts_unspecified", 1);
            Ok(())
        }
        (Read::Reject, Err(_)) => {
            tally.add("regex_texts_refused", 1);
            Ok(())
        }
        (Read::Reject, Ok(r)) => fail(format!("cannot be a token, but was read as {:?}", r.token_rules)),
        (Read::Maybe(_), Err(_)) => {
            tally.add("regex_texts_unspecified", 1);
            Ok(())
        }
        (Read::Ok(_), Err(e)) => fail(format!("was refused: {}", e)),
        (Read::Ok(a) | Read::Maybe(a), Ok(r)) => {
            let [t] = r.token_rules.as_slice() else { return fail("is not one token".into()) };
            let TokenPattern::Pattern { pattern } = &t.inner.pattern else { return fail("was read as a literal".into()) };
            let (n, tr, d) = conv::differ(a, &conv::regex(pattern));
            tally.add("states", n as u64);
            tally.add("transitions", tr as u64);
            tally.add("traces_validated_against_impl", 1);
            if let Some(d) = d {
                return fail(format!("was read as {:?}; they differ on {}", pattern, d));
            }
            Ok(())
        }
    }
}

/// The token's automaton, built from what was read, in product with the derivatives of the regex.
fn check_automaton(body: &str, want: &Ast, tally: &mut Tally) -> Outcome {
    let text = format!("token T = /{}/;\nentry s;\nprod s = T;", body);
    let Ok(r) = generated(&text) else { return Ok(()) };
    let alphabet = lapex_lexer::generate_alphabet(&r.token_rules);
    let (entry, nfa) = lapex_lexer::generate_nfa(&alphabet, &r.token_rules);
    let dfa = nfa.powerset_construction(entry);
    let mut accept = Vec::new();
    let mut next: Vec<std::collections::HashMap<usize, usize>> = Vec::new();
    for (id, s) in dfa.states() {
        accept.push(matches!(s, lapex_automaton::AutomatonState::Accepting(_)));
        next.push(dfa.transitions_from(id).map(|(k, t)| (*k, t.index())).collect());
    }
    let p = mccore::regex::product(&[want]);
    let reps = mccore::regex::class_reps(&[want]);
    let classes: Vec<(u32, Option<usize>)> = reps.iter().map(|c| (*c, alphabet.find_range(*c))).collect();
    let mut seen = std::collections::HashMap::new();
    let mut todo = vec![(Some(0usize), 0usize)];
    seen.insert((Some(0usize), 0usize), String::new());
    while let Some((d, m)) = todo.pop() {
        tally.add("automaton_product_states", 1);
        let w = seen[&(d, m)].clone();
        if d.map(|d| accept[d]).unwrap_or(false) == p.accept[m].is_empty() {
            return Err(Fail::new(format!("regex {}", body), format!("token T = /{}/; its automaton and the regex differ on {:?}", body, w)));
        }
        for (c, k) in &classes {
            let n = (d.and_then(|d| k.and_then(|k| next[d].get(&k).copied())), p.next[m][p.class(*c)]);
            if n.0.is_none() && !p.alive[n.1] || seen.contains_key(&n) {
                continue;
            }
            let mut w = w.clone();
            w.push(char::from_u32(*c).unwrap());
            seen.insert(n, w);
            todo.push(n);
        }
    }
    Ok(())
}

fn c05(ctx: &Ctx) {
    let tables = Tables::new();
    // 1. every text over the regex metacharacters
    let alph: Vec<&str> = vec!["a", "b", "(", ")", "|", "*", "?", "[", "]", "^", "-", ".", "\\", "{", "}", "1", ","];
    let l = ctx.pick(5, 6);
    let mut groups: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..alph.len() {
        for b in 0..alph.len() {
            groups.push(vec![a, b]);
        }
    }
    ctx.par(
        &groups,
        LIMIT * 5,
        |p| format!("all regex texts up to {} characters starting with {:?}", l, p.iter().map(|i| alph[*i]).collect::<String>()),
        |p, tally| {
            sequences(p, if p.is_empty() { 1 } else { l }, alph.len(), &mut |s| {
                let body: String = s.iter().map(|i| alph[*i]).collect();
                let want = refregex::read(&body, &tables);
                check_regex(&body, &want, tally)
            })
        },
    );
    // 1b. longer texts over fewer characters
    let alph2: Vec<&str> = vec!["a", "b", "(", ")", "|", "+", "?", "{2}", "{1,}", "[^a]"];
    let l2 = ctx.pick(6, 7);
    let mut groups: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..alph2.len() {
        for b in 0..alph2.len() {
            groups.push(vec![a, b]);
        }
    }
    ctx.par(
        &groups,
        LIMIT * 5,
        |p| format!("all regexes up to {} pieces starting with {:?}", l2, p.iter().map(|i| alph2[*i]).collect::<String>()),
        |p, tally| {
            sequences(p, if p.is_empty() { 1 } else { l2 }, alph2.len(), &mut |s| {
                let body: String = s.iter().map(|i| alph2[*i]).collect();
                let want = refregex::read(&body, &tables);
                check_regex(&body, &want, tally)
            })
        },
    );
    // 2. every structure up to a size over leaves of every kind, rendered
    let leaf = |s: &str| match refregex::read(s, &tables) {
        Read::Ok(a) => (s.to_string(), a),
        _ => panic!("leaf {}", s),
    };
    let leaves: Vec<(String, Ast)> = [
        "a", "é", "😀", "\\n", "\\t", "\\r", "\\\\", "\\/", "\\.", "\\x41", "\\u{1F600}", "\\u0041", "\\x{e9}", "\\d", "\\w", "\\s", "\\D", "\\W", "\\S", ".", "[a-c]", "[^a-c]", "[\\d_]", "[^\\s/]".replace('/', "\\/").as_str(), "[\\n\\t]",
        "[^\\n]", "[é-ü日]", "[\\u{10000}-\\u{10FFFF}]", "[\\]\\-^]", "[a\\\\]", "[^\\\"\\\\]", "\"", "'", " ", "#", "&", "~", "-", ":", ";", "=", "<", ">", "@", "%", ",", "!", "_", "`", "]", "}", "[a-]", "[-a]", "[.*+?()|{}$]", "\\*", "\\+", "\\?", "\\(",
        "\\)", "\\[", "\\]", "\\{", "\\}", "\\|", "\\^", "\\$", "\\-", "\\#", "\\&", "\\~", "\\\"", "[\\x00-\\x1f]", "[^\\x00-\\x7f]", "\\U0001F600", "[\\w&&]".replace("&&", "&").as_str(), "[\\D]", "[^\\W\\d]", "[\\s\\S]",
    ]
    .iter()
    .map(|s| leaf(s))
    .collect();
    ctx.count("leaf_kinds", leaves.len() as u64);
    let posts = ["", "*", "+", "?", "{2}", "{1,}", "{0,2}", "{2,3}", "{1}", "{3,}"];
    let mut single: Vec<String> = Vec::new();
    for (s, _) in &leaves {
        for p in posts {
            single.push(format!("{}{}", s, p));
            single.push(format!("({}){}", s, p));
            single.push(format!("(?:{}{}){{2}}", s, p));
            for q in ["b", "b|", "(b|c)"] {
                if q == "b|" {
                    single.push(format!("b|{}{}", s, p));
                } else {
                    single.push(format!("{}{}{}", q, s, p));
                    single.push(format!("{}{}{}", s, p, q));
                }
            }
        }
        for (t, _) in &leaves {
            single.push(format!("{}{}", s, t));
            single.push(format!("{}|{}", s, t));
            single.push(format!("({}|{})+", s, t));
            single.push(format!("({}{})*", s, t));
        }
    }
    // counted repetitions around the sizes of the integers a reader might keep them in, and of every decimal form
    let counts: Vec<u32> = ctx.pick(vec![0, 1, 2, 9, 10, 11, 15, 16, 17, 63, 64, 65, 99, 100, 127, 128, 255, 256, 257, 300], (0..=130).chain([199, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 999, 1000]).collect());
    for (i, n) in counts.iter().enumerate() {
        for x in ["a", "[a-c]", "(ab|c)", "\\d"] {
            for y in ["", "b"] {
                single.push(format!("{}{{{}}}{}", x, n, y));
                single.push(format!("{}{{{},}}{}", x, n, y));
                single.push(format!("{}{{0{}}}{}", x, n, y));
                single.push(format!("{}{{0,{}}}{}", x, n, y));
                single.push(format!("{}{{1,{}}}{}", x, n, y));
            }
        }
        for m in &counts[..i] {
            single.push(format!("a{{{},{}}}", m, n));
            single.push(format!("a{{{},{}}}", n, m));
        }
    }
    // refused constructs, in every position
    for bad in ["a*?", "a+?", "a??", "a{2}?", "a{1,}?", "^a", "a$", "\\ba", "\\Ba", "\\Aa", "a\\z", "a{3,2}", "a{", "a{,2}", "a{x}", "*a", "+", "?", "(a", "a)", "[a", "[]", "[z-a]", "[a-\\d]", "\\1", "\\k", "\\x4", "\\xzz", "\\u{110000}", "\\u{d800}", "\\u{}", "\\uD800", "a|*", "(*)", "(?=a)b", "(?!a)b", "(?<=a)b", "a\\b", "(a|^)b", "(a$)*b", "[\\b]", "(a+?)+", "b(a*?|c)"] {
        single.push(bad.to_string());
        single.push(format!("b{}", bad));
        single.push(format!("({})", bad));
        single.push(format!("({})*c", bad));
        single.push(format!("x|{}", bad));
    }
    ctx.par(&single, LIMIT, |s| format!("/{}/", s), |s, tally| {
        let want = refregex::read(s, &tables);
        check_regex(s, &want, tally)?;
        match want {
            Read::Ok(a) => check_automaton(s, &a, tally),
            _ => Ok(()),
        }
    });
    // 3. structures
    let lv: Vec<Ast> = vec![Ast::Chr('a'), Ast::Chr('b'), Ast::Class(vec![('a', 'b')], false), Ast::Class(vec![('a', 'a')], true)];
    let reps: Vec<(u32, Option<u32>)> = vec![(0, None), (1, None), (0, Some(1)), (2, Some(2)), (2, None), (1, Some(3))];
    let mut all: Vec<Ast> = Vec::new();
    for n in 1..=ctx.pick(5, 5) {
        all.extend(asts(n, &lv, &reps));
    }
    let lv1: Vec<Ast> = vec![Ast::Chr('a'), Ast::Chr('b')];
    let reps1: Vec<(u32, Option<u32>)> = vec![(1, None), (0, Some(1))];
    for n in 6..=ctx.pick(7, 8) {
        all.extend(asts(n, &lv1, &reps1));
    }
    // common prefixes and shared parts, which a simplifying reader is tempted to factor
    let parts: Vec<Ast> = vec![plus(Ast::Chr('a')), Ast::Chr('b'), star(Ast::Chr('c')), lit("ab"), opt(Ast::Chr('a')), Ast::Class(vec![('a', 'c')], false)];
    let mut seqs: Vec<Ast> = Vec::new();
    for a in &parts {
        for b in &parts {
            seqs.push(Ast::Seq(vec![a.clone(), b.clone()]));
            for c in &parts {
                seqs.push(Ast::Seq(vec![a.clone(), b.clone(), c.clone()]));
            }
        }
    }
    for a in &seqs {
        for b in &seqs {
            all.push(Ast::Alt(vec![a.clone(), b.clone()]));
            if ctx.thorough() {
                for c in &parts {
                    all.push(Ast::Alt(vec![a.clone(), b.clone(), c.clone()]));
                    all.push(Ast::Seq(vec![Ast::Alt(vec![a.clone(), b.clone()]), c.clone()]));
                }
            }
        }
    }
    let chunks: Vec<&[Ast]> = all.chunks(100).collect();
    ctx.par(
        &chunks,
        LIMIT,
        |c| format!("{} regexes from /{}/ on", c.len(), c[0].regex()),
        |c, tally| {
            for a in c.iter() {
                let body = a.regex();
                // the text must denote the structure for the reference reader too
                match refregex::read(&body, &tables) {
                    Read::Ok(b) => {
                        if let (_, _, Some(d)) = conv::differ(a, &b) {
                            panic!("reference readers disagree on {}: {}", body, d);
                        }
                    }
                    x => panic!("reference reader does not read {}: {:?}", body, x),
                }
                check_regex(&body, &Read::Ok(a.clone()), tally)?;
                if a.size() <= 4 {
                    check_automaton(&body, a, tally)?;
                }
            }
            Ok(())
        },
    );
    // 4. literals
    let mut lits: Vec<String> = (0x20..0x7fu32).filter_map(char::from_u32).filter(|c| *c != '"' && *c != '\\').map(|c| c.to_string()).collect();
    lits.extend(["\t", "é", "日本", "😀", "\u{7f}", "\u{a0}", "\u{2028}", "\u{10ffff}", "e\u{301}", "\u{1}", ""].iter().map(|s| s.to_string()));
    let some: Vec<String> = ["a", "/", ".", "[", ";", " ", "é", "😀", "*", "'"].iter().map(|s| s.to_string()).collect();
    for a in &some {
        for b in &some {
            lits.push(format!("{}{}", a, b));
            for c in &some {
                lits.push(format!("{}{}{}", a, b, c));
            }
        }
    }
    for a in ["\\n", "\\\\", "a\\tb", "\\x", "\\/", "\\é"] {
        lits.push(a.to_string());
    }
    ctx.par(&lits, LIMIT, |s| format!("literal {:?}", s), |s, tally| {
        let text = format!("token T = \"{}\";\nentry s;\nprod s = T;", s);
        let fail = |d: String| Err(Fail::new(format!("literal {}", s), format!("token T = \"{}\"; {}", s, d)));
        tally.add("literals", 1);
        match generated(&text) {
            Err(e) => fail(format!("was refused: {}", e)),
            Ok(r) => match &r.token_rules[0].inner.pattern {
                TokenPattern::Literal { characters } => {
                    let got: String = characters.iter().collect();
                    if got == *s || got == unescape(s) {
                        Ok(())
                    } else {
                        fail(format!("matches {:?}", got))
                    }
                }
                _ => fail("was read as a regex".into()),
            },
        }
    });
    // an escaped quote denotes the quote
    if let Ok(r) = generated("token T = \"\\\"\";\nentry s;\nprod s = T;") {
        if let TokenPattern::Literal { characters } = &r.token_rules[0].inner.pattern {
            if characters != &vec!['"'] {
                ctx.fail("token T = \"\\\"\";", Fail::new("literal-escaped-quote", format!("the literal of an escaped quote is read as {:?}", characters)));
            }
        }
    }
    ctx.sample("/(a|b{2})+[^a-c]\\d/");
    ctx.info("bounds", format!("all {}-character regex texts over {} characters and all {}-piece ones over {}; every leaf kind alone, under every repetition, paired with every other; all structures of at most 5 nodes over 4 leaves and 6 repetitions, of at most {} nodes over 2; languages compared exactly by product construction", l, alph.len(), l2, alph2.len(), ctx.pick(7, 8)));
    ctx.assume("the Unicode tables of \\d \\w \\s in the regex-syntax crate are taken as given (\\s and the ASCII part are checked against std)");
}

// ---------------------------------------------------------------- C16: bootstrap reader

fn check_boot(text: &str, tally: &mut Tally) -> Outcome {
    if text.contains('\0') {
        return Ok(());
    }
    let want = bootref::read(text);
    tally.add("states", 1);
    if want == Boot::Open {
        tally.add("texts_unspecified", 1);
        return Ok(());
    }
    let got = bootstrap(text);
    tally.add("transitions", 1);
    let fail = |d: String| Err(Fail::new(format!("text {}", short(text)), format!("bootstrap reader on {:?}: {}", text, d)));
    let f = match (want, &got) {
        (Boot::Refuse, Err(_)) => {
            tally.add("texts_refused_by_both", 1);
            return Ok(());
        }
        (Boot::Refuse, Ok(r)) => return fail(format!("not understood, but read as {:?}", r)),
        (Boot::Ok(_), Err(e)) => return fail(format!("refused: {}", e)),
        (Boot::Ok(f), Ok(_)) => f,
        (Boot::Open, _) => unreachable!(),
    };
    let got = got.unwrap();
    tally.add("texts_read_and_compared", 1);
    if got.entry_rule.inner.name != f.entry[0] {
        return fail(format!("entry is read as {}", got.entry_rule.inner.name));
    }
    let gp: Vec<(String, P)> = got.production_rules.iter().map(|p| (p.inner.name.to_string(), norm(&conv::prod(&p.inner.pattern)))).collect();
    let wp: Vec<(String, P)> = f.prods.iter().map(|(n, p)| (n.clone(), norm(p))).collect();
    if gp != wp {
        return fail(format!("productions are read as {:?}, should be {:?}", gp, wp));
    }
    if got.production_rules.iter().any(|p| p.inner.tag.is_some()) || got.token_rules.iter().any(|t| t.inner.precedence.is_some()) {
        return fail("a tag or precedence appeared".into());
    }
    if got.token_rules.len() != f.toks.len() {
        return fail(format!("tokens are read as {:?}", got.token_rules));
    }
    for (g, (name, body)) in got.token_rules.iter().zip(&f.toks) {
        if g.inner.name != name {
            return fail(format!("token {} is read as {}", name, g.inner.name));
        }
        match (&g.inner.pattern, body) {
            (TokenPattern::Literal { characters }, Body::Lit(l)) => {
                if &characters.iter().collect::<String>() != l {
                    return fail(format!("literal {:?} is read as {:?}", l, characters));
                }
            }
            (TokenPattern::Pattern { pattern }, Body::Re(a)) => {
                let r = conv::regex(pattern);
                let (n, t, d) = conv::differ(a, &r);
                tally.add("states", n as u64);
                tally.add("transitions", t as u64);
                if let Some(d) = d {
                    // dot may or may not include the line break
                    let dotted = f.dots && conv::differ(&no_newline(a), &r).2.is_none();
                    if !dotted {
                        return fail(format!("regex of {} is misread: {}", name, d));
                    }
                }
            }
            _ => return fail(format!("literal and regex are confused in token {}", name)),
        }
    }
    // the generated reader, where it accepts the file too, yields the same rules
    if let Ok(g) = generated(text) {
        if !f.dots {
            tally.add("texts_compared_with_the_generated_reader", 1);
            let mut a: Vec<(String, P)> = g.production_rules.iter().map(|p| (p.inner.name.to_string(), norm(&conv::prod(&p.inner.pattern)))).collect();
            let mut b = wp.clone();
            a.sort();
            b.sort();
            let mut ta: Vec<&str> = g.token_rules.iter().map(|t| t.inner.name).collect();
            let mut tb: Vec<&str> = f.toks.iter().map(|t| t.0.as_str()).collect();
            ta.sort();
            tb.sort();
            if a != b || ta != tb || g.entry_rule.inner.name != f.entry[0] {
                return fail(format!("the generated reader yields {:?}, the bootstrap reader {:?}", (ta, a), (tb, b)));
            }
            for t in &g.token_rules {
                if f.toks.iter().filter(|x| x.0 == t.inner.name).count() != 1 {
                    continue;
                }
                let b = got.token_rules.iter().find(|x| x.inner.name == t.inner.name).unwrap();
                let as_ast = |p: &TokenPattern| match p {
                    TokenPattern::Literal { characters } => lit(&characters.iter().collect::<String>()),
                    TokenPattern::Pattern { pattern } => conv::regex(pattern),
                };
                if let (_, _, Some(d)) = conv::differ(&as_ast(&t.inner.pattern), &as_ast(&b.inner.pattern)) {
                    return fail(format!("the readers disagree on token {}: {}", t.inner.name, d));
                }
            }
        }
    }
    Ok(())
}

fn no_newline(a: &Ast) -> Ast {
    match a {
        Ast::Class(r, true) if r.is_empty() => Ast::Class(vec![('\n', '\n')], true),
        Ast::Seq(v) => Ast::Seq(v.iter().map(no_newline).collect()),
        Ast::Alt(v) => Ast::Alt(v.iter().map(no_newline).collect()),
        Ast::Rep(x, n, m) => Ast::Rep(Box::new(no_newline(x)), *n, *m),
        x => x.clone(),
    }
}

const REGEX_PIECES: [&str; 16] = ["a", "b", "(", ")", "|", "*", "?", "[", "]", "^", "-", ".", "\\", "n", "+", "/"];
const BODY_PIECES: [&str; 9] = ["A", "(", ")", " ", " | ", "*", "+", "?", "|"];

enum BGroup {
    Regex(Vec<usize>, usize),
    Body(Vec<usize>, usize),
    Texts(Vec<String>),
}

fn c16(ctx: &Ctx) {
    let rl = ctx.pick(5, 6);
    let bl = ctx.pick(7, 8);
    let mut g = vec![BGroup::Regex(vec![], 1), BGroup::Body(vec![], 1)];
    for a in 0..REGEX_PIECES.len() {
        for b in 0..REGEX_PIECES.len() {
            g.push(BGroup::Regex(vec![a, b], rl));
        }
    }
    for a in 0..BODY_PIECES.len() {
        for b in 0..BODY_PIECES.len() {
            g.push(BGroup::Body(vec![a, b], bl));
        }
    }
    // one- and two-character edits of whole files
    let bases = [
        "token A = \"a\";\ntoken B_x = /b(c|[d-f])*\\n?/;\nentry s;\nprod s = A B_x;\nprod t = (A | B_x s?)+ s*;\n",
        "entry x;\n\n  prod x = A;token B = /a/;",
        "  entry x;\tprod x = (A);\r\ntoken A = /[^a-c\\u{0041}]./; token C = /\\\\\\/\\t\\r-/;",
    ];
    let alphabet: Vec<char> = "aA_0 \t\n=;()[]?!*+|\"/\\.-^é\r{}".chars().collect();
    for base in bases {
        let t: Vec<char> = base.chars().collect();
        for i in 0..=t.len() {
            let mut v: Vec<Vec<char>> = Vec::new();
            if i < t.len() {
                let mut x = t.clone();
                x.remove(i);
                v.push(x.clone());
                for j in i..x.len() {
                    let mut y = x.clone();
                    y.remove(j);
                    v.push(y);
                }
                v.push(t[..i].to_vec());
                v.push(t[i..].to_vec());
            }
            for c in &alphabet {
                let mut x = t.clone();
                x.insert(i, *c);
                v.push(x);
                if i < t.len() {
                    let mut x = t.clone();
                    x[i] = *c;
                    v.push(x.clone());
                    let far = if ctx.thorough() { t.len() } else { (i + 3).min(t.len()) };
                    for j in i + 1..far {
                        for d in &alphabet {
                            let mut y = x.clone();
                            y[j] = *d;
                            v.push(y);
                        }
                    }
                }
            }
            g.push(BGroup::Texts(v.into_iter().map(|x| x.into_iter().collect()).collect()));
        }
    }
    // files: every selection and order of up to 4 declarations
    let decls = ["token A = \"a\";", "token B = /b+/;", "token A = /[ab]/;", "entry s;", "entry t;", "prod s = A;", "prod t = A (B | s)*;", "prod s = B;"];
    let mut files = vec![];
    fn pick(cur: &mut Vec<usize>, n: usize, max: usize, out: &mut Vec<Vec<usize>>) {
        out.push(cur.clone());
        if cur.len() < max {
            for i in 0..n {
                cur.push(i);
                pick(cur, n, max, out);
                cur.pop();
            }
        }
    }
    pick(&mut vec![], decls.len(), ctx.pick(4, 5), &mut files);
    for c in files.chunks(200) {
        let mut v = Vec::new();
        for f in c {
            for sep in ["\n", " ", "\n\n\t", ""] {
                v.push(f.iter().map(|i| decls[*i]).collect::<Vec<_>>().join(sep));
            }
        }
        g.push(BGroup::Texts(v));
    }
    // every pattern of bounded size, with choices and sequences of up to four parts, and every regex
    let mut v: Vec<String> = Vec::new();
    for n in 1..=ctx.pick(6, 7) {
        let leaves = [Pat::T(0), Pat::T(1), Pat::N(1)];
        for p in mccore::families::patterns(n, if n > 5 { &leaves[..2] } else { &leaves[..] }, 5) {
            let s = Spec::new("", 2, 2).p(0, p).p(1, Pat::T(0));
            v.push(format!("token A = \"a\";\ntoken B = \"b\";\nentry s;\n{}\n{}\n", s.prod_decl(0), s.prod_decl(1)));
        }
    }
    for s in mccore::families::operators(5) {
        v.push(s.text());
    }
    let cls = |neg| Ast::Class(vec![('a', 'c'), ('x', 'x')], neg);
    for n in 1..=ctx.pick(5, 6) {
        for a in mccore::lexref::asts(n, &[Ast::Chr('a'), cls(false), cls(true), Ast::Chr('\n')], &[(0, None), (1, None), (0, Some(1))]) {
            v.push(format!("{}\nentry s;\nprod s = A;\n", mccore::lexref::Tok::re("A", a).decl()));
        }
    }
    ctx.count("patterns_and_regexes_by_structure", v.len() as u64);
    for c in v.chunks(500) {
        g.push(BGroup::Texts(c.to_vec()));
    }
    // every printable character in a literal, a regex and a set
    let mut v = Vec::new();
    for c in (1..0x80u32).filter_map(char::from_u32).chain("é日😀\u{80}".chars()) {
        for pat in ["\"{}\"", "\"x{}y\"", "/{}/", "/[{}]/", "/x\\{}/", "/[^{}z]/", "/[{}-{}]/"] {
            v.push(format!("token A = {};\nentry s;\nprod s = A;", pat.replace("{}", &c.to_string())));
        }
    }
    for h in ["41", "041", "0041", "00041", "000041", "0000041", "1F600", "d800", "110000", "FFFF", "xyz", ""] {
        v.push(format!("token A = /\\u{{{}}}/;\nentry s;\nprod s = A;", h));
        v.push(format!("token A = /[\\u{{{}}}-\\u{{1F601}}]/;\nentry s;\nprod s = A;", h));
    }
    g.push(BGroup::Texts(v));
    for t in scale_texts(false, ctx.thorough()) {
        g.push(BGroup::Texts(vec![t]));
    }
    ctx.par(
        &g,
        LIMIT * 5,
        |g| match g {
            BGroup::Regex(p, l) => format!("all regexes up to {} pieces starting with {:?}", l, p.iter().map(|i| REGEX_PIECES[*i]).collect::<String>()),
            BGroup::Body(p, l) => format!("all production bodies up to {} pieces starting with {:?}", l, p.iter().map(|i| BODY_PIECES[*i]).collect::<String>()),
            BGroup::Texts(v) => format!("{} texts, the first is {}", v.len(), v.first().map(|t| short(t)).unwrap_or_default()),
        },
        |g, tally| match g {
            BGroup::Regex(p, l) => sequences(p, *l, REGEX_PIECES.len(), &mut |s| {
                let b: String = s.iter().map(|i| REGEX_PIECES[*i]).collect();
                check_boot(&format!("token A = /{}/;\nentry s;\nprod s = A;", b), tally)
            }),
            BGroup::Body(p, l) => sequences(p, *l, BODY_PIECES.len(), &mut |s| {
                let b: String = s.iter().map(|i| BODY_PIECES[*i]).collect();
                check_boot(&format!("entry s;\nprod s = {};", b), tally)
            }),
            BGroup::Texts(v) => {
                for t in v {
                    check_boot(t, tally)?;
                }
                Ok(())
            }
        },
    );
    // lapex's own grammar, which the reader exists to read
    let own = std::fs::read_to_string("/repo/lapex-input-gen/src/lapex.lapex").unwrap();
    let mut t = Tally::default();
    if let Err(f) = check_boot(&own, &mut t) {
        ctx.fail("lapex.lapex", f);
    }
    ctx.merge(t);
    ctx.sample(bases[0]);
    ctx.info("bounds", format!("all regexes of at most {} pieces over {:?}, all production bodies of at most {} pieces over {:?}, one-character and neighbouring two-character edits of 3 files, all files of at most {} declarations out of {} in 4 layouts", rl, REGEX_PIECES, bl, BODY_PIECES, ctx.pick(4, 5), decls.len()));
    let n = ctx.get("texts_read_and_compared") + ctx.get("texts_refused_by_both");
    ctx.count("traces_validated_against_impl", n);
    ctx.assume("dot may include or exclude the line break in the bootstrap reader; brackets that do not close, braces, ^ and $ outside sets are unspecified there");
}

fn main() {
    main_with(&[("C05", "model_checking", c05), ("C15", "model_checking", c15), ("C16", "model_checking", c16), ("C17", "model_checking", c17)]);
}
