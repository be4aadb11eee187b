//! C03, C04: generated lexers, compiled and run on every text of bounded length over representatives
//! of their character classes, against the reference tokenizer.
use crate::batch::*;
use crate::parsers::{every, LIMIT};
use mccore::cfg::Strings;
use mccore::cli::{fresh_dir, run, Algo, Gen, Lang, Ran};
use mccore::lexref::{asts, LexModel, Lexeme, Tok};
use mccore::regex::{lit, opt, plus, star, Ast};
use mccore::run::{Ctx, Fail, Outcome, Tally};
use std::collections::HashSet;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::Command;

const ERR: u32 = 0xFFFD;
const PANIC: u32 = 0xFFFC;
const END: u32 = 0xFFFF;

const RUST_MAIN: &str = r#"
use std::io::{Read, Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicU64, Ordering};
static BEAT: AtomicU64 = AtomicU64::new(0);
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut d = Vec::new();
    std::fs::File::open(&a[1]).unwrap().read_to_end(&mut d).unwrap();
    let mut p = 0;
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    let mut cur = std::fs::File::create(&a[3]).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| { let mut last = u64::MAX; let mut n = 0; loop { std::thread::sleep(std::time::Duration::from_secs(1)); let b = BEAT.load(Ordering::Relaxed); if b == last { n += 1; if n > 20 { std::process::exit(9); } } else { n = 0; last = b; } } });
    let runs: Vec<fn(&str, &mut Vec<u32>)> = vec![RUNS];
    let mut word = |d: &Vec<u8>| { let x = u32::from_le_bytes([d[p], d[p + 1], d[p + 2], d[p + 3]]); p += 4; x };
    let mut at = Vec::new();
    let mut q = Vec::new();
    for _ in &runs { let n = word(&d); let mut v = Vec::new(); for _ in 0..n { v.push(word(&d) as usize); } at.push(v); }
    let mut p = p;
    for v in &at { let mut w = Vec::new(); for l in v { w.push((p, p + l)); p += l; } q.push(w); }
    for (g, r) in runs.iter().enumerate() {
        for (s, (x, y)) in q[g].iter().enumerate() {
            let t = std::str::from_utf8(&d[*x..*y]).unwrap();
            cur.seek(SeekFrom::Start(0)).unwrap();
            cur.write_all(&[(g as u32).to_le_bytes(), (s as u32).to_le_bytes()].concat()).unwrap();
            BEAT.fetch_add(1, Ordering::Relaxed);
            let mut o: Vec<u32> = Vec::new();
            let mut mine = Vec::new();
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r(t, &mut mine))).is_err() { mine.extend([0xFFFCu32, 0, 0, 0]); }
            o.push(mine.len() as u32); o.extend(&mine);
            for x in o { out.write_all(&x.to_le_bytes()).unwrap(); }
        }
    }
    out.flush().unwrap();
    std::process::exit(0);
}
"#;

const CPP_MAIN: &str = r#"
#include "all.h"
typedef std::vector<uint32_t> Out;
"#;
const CPP_TAIL: &str = r#"
static std::atomic<uint64_t> BEAT{0};
int main(int argc, char **argv) {
    std::ifstream in(argv[1], std::ios::binary);
    std::string d((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    FILE *out = fopen(argv[2], "wb"); FILE *cur = fopen(argv[3], "wb"); setvbuf(cur, 0, _IONBF, 0);
    std::thread([] { uint64_t last = ~0ull; int n = 0; while (true) { std::this_thread::sleep_for(std::chrono::seconds(1)); uint64_t b = BEAT; if (b == last) { if (++n > 20) _exit(9); } else { n = 0; last = b; } } }).detach();
    size_t p = 0;
    auto word = [&] { uint32_t x; memcpy(&x, d.data() + p, 4); p += 4; return x; };
    std::vector<void (*)(const std::string &, Out &)> runs = {RUNS};
    std::vector<std::vector<uint32_t>> at;
    for (size_t g = 0; g < runs.size(); g++) { uint32_t n = word(); std::vector<uint32_t> v; for (uint32_t i = 0; i < n; i++) v.push_back(word()); at.push_back(v); }
    for (uint32_t g = 0; g < runs.size(); g++) {
        for (uint32_t s = 0; s < at[g].size(); s++) {
            std::string t = d.substr(p, at[g][s]); p += at[g][s];
            uint32_t c[2] = {g, s}; fseek(cur, 0, SEEK_SET); fwrite(c, 4, 2, cur); BEAT++;
            Out mine;
            runs[g](t, mine);
            uint32_t n = mine.size(); fwrite(&n, 4, 1, out); fwrite(mine.data(), 4, n, out);
        }
    }
    fclose(out);
    _exit(0);
}
"#;

#[derive(Clone)]
pub struct Case {
    toks: Vec<Tok>,
    /// also every byte string over these bytes of up to this length (C++ only)
    bytes: usize,
    cap: usize,
    /// also texts of more than 65536 characters
    long: bool,
    /// also every character there is
    every: bool,
}
impl Case {
    pub fn new(toks: Vec<Tok>, bytes: usize, cap: usize) -> Case {
        Case { toks, bytes, cap, long: false, every: false }
    }
}

fn grammar(toks: &[Tok]) -> String {
    let mut o = String::new();
    for t in toks {
        let _ = writeln!(o, "{}", t.decl());
    }
    let _ = writeln!(o, "entry start_rule;\nprod start_rule = {};", toks[0].name);
    o
}
fn brief(c: &Case) -> String {
    if c.toks.len() > 20 {
        format!("{} tokens, the last: {}", c.toks.len(), c.toks.last().unwrap().decl())
    } else {
        c.toks.iter().map(|t| t.decl()).collect::<Vec<_>>().join(" ")
    }
}

/// Scalars at the edges of the encodings.
const EDGE: [u32; 12] = [0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x4e2d, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x10ffff];

/// Byte order marks, ends of lines and of files, blanks, combining characters, and so on.
const ODD: [char; 22] = [
    '\u{feff}', '\u{fffe}', '\u{fffd}', '\n', '\r', '\t', '\u{b}', '\u{c}', ' ', '\u{1}', '\u{4}', '\u{8}', '\u{1a}', '\u{1b}', '\u{7f}', '\u{85}', '\u{a0}', '\u{301}', '\u{200b}', '\u{200d}', '\u{2028}', '\u{3000}',
];

fn reps(m: &LexModel) -> (Vec<char>, Vec<char>) {
    let st = &m.product.starts;
    let mut few = Vec::new();
    let mut all = Vec::new();
    for (i, s) in st.iter().enumerate() {
        if *s == 0 {
            continue;
        }
        let end = st.get(i + 1).copied().unwrap_or(0x110000) - 1;
        let inside = |c: u32| c >= *s && c <= end && char::from_u32(c).is_some();
        let mut v = vec![*s, if inside(end) { end } else { 0xd7ff }];
        v.extend(EDGE.iter().copied().filter(|c| inside(*c)));
        v.retain(|c| inside(*c));
        v.sort();
        v.dedup();
        // the surrogate gap splits a class into two that behave alike
        if *s == 0xe000 {
            all.extend(v.iter().map(|c| char::from_u32(*c).unwrap()));
            continue;
        }
        few.push(char::from_u32(v[0]).unwrap());
        if v[0] < 0x80 {
            if let Some(c) = v.iter().find(|c| **c >= 0x80) {
                few.push(char::from_u32(*c).unwrap());
            }
        }
        all.extend(v.iter().map(|c| char::from_u32(*c).unwrap()));
    }
    (few, all)
}

fn texts(m: &LexModel, cap: usize) -> Vec<String> {
    let (few, all) = reps(m);
    let mut seen = HashSet::new();
    let mut out = Vec::new();
    let mut add = |s: String, out: &mut Vec<String>| {
        if seen.insert(s.clone()) {
            out.push(s);
        }
    };
    let mut k = 1;
    while k < 7 && Strings::new(few.len(), k + 1).total() <= cap {
        k += 1;
    }
    let s = Strings::new(few.len(), k);
    for i in 0..s.total() {
        add(s.string(i).iter().map(|c| few[*c as usize]).collect(), &mut out);
    }
    for a in &all {
        add(a.to_string(), &mut out);
        for b in all.iter().take(if all.len() > 60 { 3 } else { 60 }) {
            add(format!("{}{}", a, b), &mut out);
        }
    }
    // characters that are special to editors, terminals and other programs
    for c in ODD {
        let x = few[0];
        for t in [format!("{}", c), format!("{}{}", c, x), format!("{}{}", x, c), format!("{}{}{}", x, c, x), format!("{}{}{}", c, c, x)] {
            add(t, &mut out);
        }
    }
    // every state of the tokens, left by every character, and what follows
    let acc: Vec<String> = m.product.access.iter().map(|a| a.iter().map(|c| char::from_u32(*c).unwrap()).collect()).collect();
    let mut budget = 3 * cap;
    for a in &acc {
        if a.contains('\0') {
            continue;
        }
        add(a.clone(), &mut out);
        for c in &few {
            if budget == 0 {
                break;
            }
            budget -= 1;
            add(format!("{}{}", a, c), &mut out);
            add(format!("{}{}{}", a, a, c), &mut out);
        }
        for b in acc.iter().rev().take(4) {
            if !b.contains('\0') {
                add(format!("{}{}", a, b), &mut out);
            }
        }
    }
    out
}

/// Long tokens and long texts of short tokens: every way of continuing from some states by one character again and
/// again, and every token again and again.
fn long_texts(m: &LexModel, len: usize) -> Vec<String> {
    let (few, _) = reps(m);
    let access = |s: usize| m.product.access[s].iter().map(|c| char::from_u32(*c).unwrap()).collect::<String>();
    let mut out = Vec::new();
    let mut loops = 0;
    for s in 0..m.product.access.len() {
        if access(s).contains('\0') {
            continue;
        }
        if matches!(m.winner[s], Some(Ok(_))) && out.len() < 24 && s > 0 {
            let a = access(s);
            let mut t = a.repeat(len / a.chars().count() + 1);
            out.push(t.clone());
            t.push(few[s % few.len()]);
            out.push(t);
        }
        // characters that stay in a state
        for c in &few {
            let n = m.product.next[s][m.product.class(*c as u32)];
            let again = m.product.next[n][m.product.class(*c as u32)];
            if m.product.alive[n] && n == again && loops < 8 {
                loops += 1;
                let mut t = access(s);
                t.extend(std::iter::repeat(*c).take(len));
                out.push(t.clone());
                for d in few.iter().take(4) {
                    out.push(format!("{}{}", t, d));
                }
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

/// Every character there is, after the way into each of some states: as few texts as possible, each of which goes on
/// for as long as the tokens can be told; characters that end in an error are tried alone, near the edges of the
/// classes and at regular distances from them.
fn every_char_texts(m: &LexModel, states: usize) -> Vec<String> {
    let mut out = Vec::new();
    let mut tried = 0;
    for s in 0..m.product.access.len() {
        let a: String = m.product.access[s].iter().map(|c| char::from_u32(*c).unwrap()).collect();
        if a.contains('\0') || !m.product.alive[s] {
            continue;
        }
        tried += 1;
        if tried > states {
            break;
        }
        let good: Vec<bool> = (0..m.product.starts.len())
            .map(|k| {
                let c = char::from_u32(m.product.starts[k]).unwrap_or('\u{e000}');
                let t: Vec<char> = a.chars().chain([c]).collect();
                !matches!(m.run(&t).last(), Some(Lexeme::Err(_)))
            })
            .collect();
        let mut text = String::new();
        let mut alone = Vec::new();
        for c in 1..=0x10ffffu32 {
            let Some(ch) = char::from_u32(c) else { continue };
            let k = m.product.class(c);
            if good[k] {
                text.push_str(&a);
                text.push(ch);
            } else {
                let d = c - m.product.starts[k];
                let e = m.product.starts.get(k + 1).copied().unwrap_or(0x110000) - 1 - c;
                if [d, e].iter().any(|x| *x < 3 || *x & 0xff == 0 && *x < 0x1000 || *x & 0xfff == 0 || *x & 0xffff == 0xffff) || c & 0xffff < 2 {
                    alone.push(format!("{}{}", a, ch));
                }
            }
        }
        out.push(text);
        out.extend(alone);
    }
    out
}

/// Bytes that matter to a UTF-8 decoder.
const BYTES: [u8; 21] = [b'a', b'b', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xa9, 0xbf, 0xc0, 0xc1, 0xc3, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff];

fn byte_strings(k: usize) -> Vec<Vec<u8>> {
    let s = Strings::new(BYTES.len(), k);
    let mut v: Vec<Vec<u8>> = (0..s.total()).map(|i| s.string(i).iter().map(|c| BYTES[*c as usize]).collect()).collect();
    if k >= 3 {
        // four-byte sequences and what comes after them
        for a in [0xefu8, 0xf0, 0xf1, 0xf4, 0xf5, 0xf8] {
            for b in [0x7fu8, 0x80, 0x8f, 0x90, 0xbf, 0xc0] {
                for c in [b'a', 0x80, 0xbf, 0xc3] {
                    for d in [b'a', 0x80, 0xbf, 0xe0] {
                        for e in [b'a', 0x80, 0xc3] {
                            v.push(vec![a, b, c, d, e]);
                            v.push(vec![b'a', a, b, c, d]);
                        }
                    }
                }
            }
        }
    }
    v.retain(|b| std::str::from_utf8(b).is_err());
    v
}

/// What a lexer returned: token or END/ERR/PANIC, start, end, whether slice() is the text of span().
type Call = [u32; 4];

fn rust_module(k: usize, dir: &Path, toks: &[Tok]) -> Result<String, String> {
    let text = std::fs::read_to_string(dir.join("tokens.rs")).map_err(|e| e.to_string())?;
    let names: Vec<String> = toks.iter().map(|t| t.name.clone()).collect();
    let vs = token_variants(&text, &names, "Tk")?;
    if variants(&text).len() != toks.len() + 1 {
        return Err(format!("the token enumeration has {} entries for {} tokens", variants(&text).len(), toks.len()));
    }
    let mut o = format!("mod g{k} {{\n#[path = \"{d}/tokens.rs\"] pub mod tokens;\n#[path = \"{d}/lexer.rs\"] pub mod lexer;\nuse self::tokens::TokenType;\nfn id(t: TokenType) -> u32 {{ match t {{ ", k = k, d = dir.display());
    for (i, v) in vs.iter().enumerate() {
        let _ = write!(o, "TokenType::{} => {}, ", v, i);
    }
    let _ = write!(
        o,
        "TokenType::EndOfFile => 0xFFFF }} }}\npub fn run(t: &str, out: &mut Vec<u32>) {{\nlet mut l = lexer::Lexer::new(t);\nlet mut after = 0;\nfor _ in 0..t.len() + 4 {{\nlet r = l.next();\nlet s = l.span();\nlet ok = if s.start <= s.end && t.get(s.clone()).is_some() {{ let x = l.slice(); (x == &t[s.clone()]) as u32 }} else {{ 0 }};\nmatch r {{ Ok(x) => {{ let i = id(x); out.extend([i, s.start as u32, s.end as u32, ok]); if i == 0xFFFF {{ after += 1; if after == 2 {{ return; }} }} }}\nErr(e) => {{ let _ = format!(\"{{}}\", e); out.extend([0xFFFDu32, s.start as u32, s.end as u32, ok]); return; }} }}\n}}\n}}\n}}\n"
    );
    Ok(o)
}

fn cpp_module(k: usize, dir: &Path, toks: &[Tok]) -> Result<String, String> {
    let text = std::fs::read_to_string(dir.join("tokens.h")).map_err(|e| e.to_string())?;
    let names: Vec<String> = toks.iter().map(|t| t.name.clone()).collect();
    let vs = token_variants(&text, &names, "TK")?;
    if variants(&text).len() != toks.len() + 2 {
        return Err(format!("the token enumeration has {} entries for {} tokens", variants(&text).len(), toks.len()));
    }
    let mut o = format!("namespace g{} {{\n", k);
    let mut seen = vec![];
    for f in ["tokens.h", "tokens.cpp", "lexer.h", "lexer.cpp"] {
        o.push_str(&inline_cpp(dir, f, &mut seen));
        o.push('\n');
    }
    let _ = write!(o, "static uint32_t id(lexer::TokenType t) {{ switch (t) {{ ");
    for (i, v) in vs.iter().enumerate() {
        let _ = write!(o, "case lexer::TokenType::{}: return {}; ", v, i);
    }
    let _ = write!(
        o,
        "case lexer::TokenType::TK_EOF: return 0xFFFF; case lexer::TokenType::TK_ERR: return 0xFFFD; default: return 0xFFFB; }} }}\nstatic void run(const std::string &t, Out &out) {{\nif (t.size() == 1 && t[0] == 0) {{\nauto say = [&](lexer::TokenType x) {{ const char *n = lexer::get_token_name(x); if (!n) n = \"?\"; while (*n) out.push_back((unsigned char)*n++); out.push_back(0); }};\n"
    );
    for v in vs.iter().map(|s| s.as_str()).chain(["TK_ERR", "TK_EOF"]) {
        let _ = writeln!(o, "say(lexer::TokenType::{});", v);
    }
    let _ = write!(
        o,
        "return; }}\nstd::istringstream in(t); lexer::Lexer l(in); int after = 0;\nfor (size_t n = 0; n < t.size() + 4; n++) {{ uint32_t i = id(l.next()); out.push_back(i); out.push_back(l.start()); out.push_back(l.end()); out.push_back(1); if (i == 0xFFFF && ++after == 2) return; if (i == 0xFFFD) return; }}\n}}\n}}\n"
    );
    Ok(o)
}

struct Made {
    gen: Ran,
    module: Option<Result<String, String>>,
}

/// The calls of each lexer on each of its inputs.
fn run_lexers(base: &Path, lang: Lang, cases: &[Case], inputs: &[Vec<Vec<u8>>]) -> (PathBuf, Vec<Result<Vec<Vec<u32>>, String>>) {
    let root = fresh_dir(base, "lex");
    let mut made = Vec::new();
    for (k, c) in cases.iter().enumerate() {
        let dir = root.join(format!("g{}", k));
        std::fs::create_dir_all(&dir).unwrap();
        let gen = Gen::new(Algo::Lalr, lang).with_lexer().text(&grammar(&c.toks), &dir, GEN_LIMIT);
        let module = gen.ok().then(|| if lang == Lang::Rust { rust_module(k, &dir, &c.toks) } else { cpp_module(k, &dir, &c.toks) });
        made.push(Made { gen, module });
    }
    let mut out: Vec<Result<Vec<Vec<u32>>, String>> = made
        .iter()
        .map(|m| match &m.module {
            None => Err(format!("no lexer was generated: {}", m.gen.describe())),
            Some(Err(e)) => Err(e.clone()),
            Some(Ok(_)) => Ok(vec![]),
        })
        .collect();
    let mut active: Vec<usize> = (0..cases.len()).filter(|k| out[*k].is_ok()).collect();
    let mut round = 0;
    while !active.is_empty() {
        round += 1;
        let src = |ks: &[usize]| {
            let runs: Vec<String> = ks.iter().map(|k| format!("g{}::run", k)).collect();
            let mut o = String::new();
            if lang == Lang::Rust {
                o.push_str(&RUST_MAIN.replace("RUNS", &runs.join(", ")));
            } else {
                o.push_str(CPP_MAIN);
            }
            for k in ks {
                o.push_str(made[*k].module.as_ref().unwrap().as_ref().unwrap());
            }
            if lang == Lang::Cpp {
                o.push_str(&CPP_TAIL.replace("RUNS", &runs.join(", ")));
            }
            o
        };
        let name = format!("drv{}", round);
        let r = compile(lang, &root, base, &src(&active), &name);
        if !r.ok() {
            if active.len() == 1 {
                out[active[0]] = Err(format!("the generated lexer does not compile: {}", r.describe()));
                break;
            }
            let mut good = Vec::new();
            for k in &active {
                let r = compile(lang, &root, base, &src(&[*k]), "one");
                if r.ok() {
                    good.push(*k);
                } else {
                    out[*k] = Err(format!("the generated lexer does not compile: {}", r.describe()));
                }
            }
            if good.len() == active.len() {
                for k in &active {
                    out[*k] = Err(format!("the generated lexers compile alone but not together: {}", r.describe()));
                }
                break;
            }
            active = good;
            continue;
        }
        let mut inp: Vec<u8> = Vec::new();
        for k in &active {
            inp.extend((inputs[*k].len() as u32).to_le_bytes());
            for w in &inputs[*k] {
                inp.extend((w.len() as u32).to_le_bytes());
            }
        }
        for k in &active {
            for w in &inputs[*k] {
                inp.extend(w);
            }
        }
        std::fs::write(root.join("in"), &inp).unwrap();
        let _ = std::fs::remove_file(root.join("out"));
        let mut c = Command::new("bash");
        c.arg("-c").arg(format!("ulimit -v 4000000; exec ./{} in out cur", name)).current_dir(&root);
        let r = run(c, &root, RUN_LIMIT);
        if r.ok() {
            let data = std::fs::read(root.join("out")).unwrap_or_default();
            let w: Vec<u32> = data.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
            let mut p = 0;
            for k in &active {
                let mut v = Vec::new();
                for _ in &inputs[*k] {
                    let n = w.get(p).copied().unwrap_or(0) as usize;
                    v.push(w.get(p + 1..p + 1 + n).map(|x| x.to_vec()).unwrap_or_default());
                    p += 1 + n;
                }
                out[*k] = Ok(v);
            }
            break;
        }
        let cur = std::fs::read(root.join("cur")).unwrap_or_default();
        let n = |i: usize| cur.get(4 * i..4 * i + 4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]]) as usize).unwrap_or(0);
        let k = active[n(0).min(active.len() - 1)];
        let w = inputs[k].get(n(1)).cloned().unwrap_or_default();
        out[k] = Err(format!("the generated lexer {} on {}: {}", if r.code == Some(9) || r.timeout { "did not return" } else { "crashed" }, short(&w), r.describe()));
        active.retain(|x| *x != k);
    }
    (root, out)
}

fn short(w: &[u8]) -> String {
    let t = String::from_utf8_lossy(w);
    match t.char_indices().nth(200) {
        Some((i, _)) => format!("{:?}... ({} bytes)", &t[..i], w.len()),
        None => format!("{:?}", t),
    }
}

fn show_calls(calls: &[Call], toks: &[Tok]) -> String {
    calls
        .iter()
        .take(40)
        .map(|c| {
            let n = match c[0] {
                END => "<EOF>".to_string(),
                ERR => "<ERR>".to_string(),
                PANIC => "panic".to_string(),
                i => toks.get(i as usize).map(|t| t.name.clone()).unwrap_or_else(|| format!("?{}", i)),
            };
            format!("{} {}..{}{}", n, c[1], c[2], if c[3] == 1 { "" } else { " (slice differs)" })
        })
        .collect::<Vec<_>>()
        .join(", ")
}

/// One text: `unit` maps a character index to a position as the lexer counts it.
fn judge(m: &LexModel, text: &str, calls: &[Call], lang: Lang) -> Result<u64, String> {
    let chars: Vec<char> = text.chars().collect();
    let mut pos = vec![0u32];
    for c in &chars {
        pos.push(pos.last().unwrap() + if lang == Lang::Rust { c.len_utf8() as u32 } else { 1 });
    }
    let want = m.run(&chars);
    for (i, l) in want.iter().enumerate() {
        let Some(c) = calls.get(i) else { return Err(format!("call {} is missing", i)) };
        if c[3] != 1 && c[0] != ERR {
            return Err(format!("slice() of call {} is not the text of its span", i));
        }
        match l {
            Lexeme::Tok(t, a, b) => {
                if c[0] != *t as u32 || c[1] != pos[*a] || c[2] != pos[*b] {
                    return Err(format!("call {} should give {} {}..{}", i, m.toks[*t].name, pos[*a], pos[*b]));
                }
            }
            Lexeme::Eof(a) => {
                if c[0] != END || lang == Lang::Rust && (c[1] != pos[*a] || c[2] != pos[*a]) {
                    return Err(format!("call {} should give the end of input", i));
                }
                match calls.get(i + 1) {
                    Some(c) if c[0] == END => {}
                    _ => return Err("the end of input is not reported again".into()),
                }
            }
            Lexeme::Err(a) => {
                if c[0] != ERR {
                    return Err(format!("call {} should give an error", i));
                }
                if lang == Lang::Rust && c[1] != pos[*a] {
                    return Err(format!("the error of call {} should be at {}", i, pos[*a]));
                }
                if lang == Lang::Cpp && c[1] != pos[*a] {
                    return Err(format!("the error of call {} should start at {}", i, pos[*a]));
                }
            }
        }
    }
    Ok(want.len() as u64)
}

/// Bytes that are not UTF-8: the tokens before them, then an error.
fn judge_bytes(m: &LexModel, b: &[u8], calls: &[Call]) -> Result<(), String> {
    let good = std::str::from_utf8(b).unwrap_err().valid_up_to();
    let text = std::str::from_utf8(&b[..good]).unwrap();
    let chars: Vec<char> = text.chars().collect();
    let mut want = m.run(&chars);
    let stop = want.pop();
    if let Some(Lexeme::Err(p)) = stop {
        // an error before the bad bytes are reached, or with them
        let _ = p;
    }
    let err = calls.iter().position(|c| c[0] == ERR).ok_or("no error is reported")?;
    if err + 1 != calls.len() {
        return Err("calls after the error".into());
    }
    let last_touches = matches!(want.last(), Some(Lexeme::Tok(_, _, e)) if *e == chars.len());
    if err != want.len() && !(last_touches && err + 1 == want.len()) {
        return Err(format!("{} tokens precede the bytes that are no UTF-8, the error is call {}", want.len(), err));
    }
    for (c, l) in calls[..err].iter().zip(&want) {
        if let Lexeme::Tok(t, a, e) = l {
            if c[0] != *t as u32 || c[1] != *a as u32 || c[2] != *e as u32 {
                return Err(format!("{} {}..{} should precede the error", m.toks[*t].name, a, e));
            }
        }
    }
    Ok(())
}

pub fn explore(ctx: &Ctx, cases: &[Case], lang: Lang) {
    let base = ctx.scratch();
    if lang == Lang::Cpp {
        cpp_setup(&base);
    }
    // heavy ones alone
    let mut groups: Vec<Vec<Case>> = Vec::new();
    let (heavy, light): (Vec<&Case>, Vec<&Case>) = cases.iter().partition(|c| c.bytes > 3 || c.toks.len() > 40);
    for c in heavy {
        groups.push(vec![c.clone()]);
    }
    for c in light.chunks(if lang == Lang::Rust { 24 } else { 24 }) {
        groups.push(c.iter().map(|c| (*c).clone()).collect());
    }
    ctx.count("token sets", cases.len() as u64);
    for c in every(cases.to_vec(), (cases.len() / 8).max(1)) {
        ctx.sample(brief(&c));
    }
    ctx.par(
        &groups,
        LIMIT,
        |g| format!("{} lexers: {}", g.len(), g.iter().map(brief).collect::<Vec<_>>().join(" || ")),
        |g, tally| group(&base, lang, g, tally),
    );
}

fn group(base: &Path, lang: Lang, g: &[Case], tally: &mut Tally) -> Outcome {
    let models: Vec<LexModel> = g.iter().map(|c| LexModel::new(&c.toks)).collect();
    let mut inputs: Vec<Vec<Vec<u8>>> = Vec::new();
    for (c, m) in g.iter().zip(&models) {
        let mut v: Vec<Vec<u8>> = texts(m, c.cap).into_iter().map(|s| s.into_bytes()).collect();
        v.extend(long_texts(m, 300).into_iter().map(|s| s.into_bytes()));
        if c.long {
            v.extend(long_texts(m, 70_000).into_iter().map(|s| s.into_bytes()));
        }
        if c.every {
            v.extend(every_char_texts(m, 3).into_iter().map(|s| s.into_bytes()));
        }
        if lang == Lang::Cpp {
            v.extend(byte_strings(c.bytes));
            v.push(vec![0]);
        }
        inputs.push(v);
    }
    let (root, res) = run_lexers(base, lang, g, &inputs);
    let mut bad = Ok(());
    'all: for ((c, m), (r, ins)) in g.iter().zip(&models).zip(res.iter().zip(&inputs)) {
        let error = |e: String, w: &[u8]| {
            let text = grammar(&c.toks);
            Err(Fail::new(
                format!("-l {} {} on {}", lang.arg(), brief(c), short(w)),
                format!("{}\ngrammar:\n{}", e, if text.len() < 4000 { text } else { format!("{} tokens", c.toks.len()) }),
            ))
        };
        let r = match r {
            Ok(r) => r,
            Err(e) => {
                bad = error(e.clone(), b"");
                break;
            }
        };
        tally.add("lexers generated, compiled and run", 1);
        for (w, words) in ins.iter().zip(r) {
            if w == &vec![0u8] {
                let names: Vec<String> = words.split(|x| *x == 0).map(|n| n.iter().filter_map(|c| char::from_u32(*c)).collect()).collect();
                for (i, t) in c.toks.iter().enumerate() {
                    if names.get(i) != Some(&t.name) {
                        bad = error(format!("get_token_name of {} is {:?}", t.name, names.get(i)), w);
                        break 'all;
                    }
                }
                continue;
            }
            let calls: Vec<Call> = words.chunks_exact(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
            let e = match std::str::from_utf8(w) {
                Ok(t) => judge(m, t, &calls, lang).map(|n| tally.add("tokens compared", n)),
                Err(_) => {
                    tally.add("byte strings that are not UTF-8", 1);
                    judge_bytes(m, w, &calls)
                }
            };
            tally.add("texts explored", 1);
            if let Err(e) = e {
                bad = error(format!("text {} (bytes {:02x?}): {}; the lexer gave {}", short(w), &w[..w.len().min(200)], e, show_calls(&calls, &c.toks)), w);
                break 'all;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&root);
    bad
}

fn cls(r: &[(char, char)]) -> Ast {
    Ast::Class(r.to_vec(), false)
}
fn ncls(r: &[(char, char)]) -> Ast {
    Ast::Class(r.to_vec(), true)
}

fn family(ctx: &Ctx, lang: Lang) -> Vec<Case> {
    let a = Ast::Chr('a');
    let b = Ast::Chr('b');
    let e = Ast::Chr('é');
    let cap = ctx.pick(1500, 6000);
    let cpp = lang == Lang::Cpp;
    let mut sets: Vec<Vec<Tok>> = Vec::new();
    let reps = [(0, None), (1, None), (0, Some(1)), (2, Some(2)), (1, Some(2)), (2, None)];
    // one rule, with every pattern of some size, next to a rule for single characters
    for s in 1..=ctx.pick(5, 6) {
        let v = asts(s, &[a.clone(), e.clone(), ncls(&[('a', 'b')])], &reps);
        let n = ctx.pick([1, 1, 1, 1, 2, 40, 400][s as usize], [1, 1, 1, 1, 1, 5, 100][s as usize]);
        for p in every(v, n) {
            sets.push(vec![Tok::re("P", p.clone())]);
            sets.push(vec![Tok::re("P", p).with(3), Tok::re("Q", cls(&[('a', 'c')])).with(1), Tok::lit("R", "ab").with(2)]);
        }
    }
    // two rules
    let small: Vec<Ast> = (1..=3).flat_map(|s| asts(s, &[a.clone(), cls(&[('a', 'b')]), b.clone()], &[(1, None), (0, Some(1)), (2, Some(2))])).collect();
    for (i, p) in small.iter().enumerate() {
        for q in every(small[..i].to_vec(), ctx.pick(2, 1)) {
            sets.push(vec![Tok::re("P", p.clone()).with(1), Tok::re("Q", q)]);
        }
    }
    // literals: prefixes of each other, of regexes, with characters that generated code must escape
    let lits = ["a", "ab", "abc", "b", "bc", "+", "++", "+=", "é", "éa", "😀", "{", "}", "'", "#", "/*", "\u{7f}", "\u{10ffff}", "$", "?"];
    for (i, p) in lits.iter().enumerate() {
        for q in &lits[..i] {
            sets.push(vec![Tok::lit("P", p), Tok::lit("Q", q)]);
            if (i + q.len()) % ctx.pick(3, 1) == 0 {
                sets.push(vec![Tok::lit("P", p), Tok::re("ANY", plus(ncls(&[('q', 'q')]))).with(1), Tok::lit("Q", q)]);
            }
        }
    }
    // classes at the edges of the encodings
    let pts = ['\u{1}', 'a', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10fffe}', '\u{10ffff}'];
    let mut k = 0;
    for (i, p) in pts.iter().enumerate() {
        for q in &pts[i..] {
            k += 1;
            if k % ctx.pick(2, 1) == 0 {
                sets.push(vec![Tok::re("IN", plus(cls(&[(*p, *q)])))]);
                sets.push(vec![Tok::re("OUT", ncls(&[(*p, *q)])), Tok::re("IN", Ast::Seq(vec![cls(&[(*p, *q)]), opt(Ast::Chr('a'))]))]);
            }
        }
    }
    // realistic rules
    let id = Ast::Seq(vec![cls(&[('a', 'z'), ('_', '_')]), star(cls(&[('a', 'z'), ('0', '9'), ('_', '_')]))]);
    let num = Ast::Seq(vec![plus(cls(&[('0', '9')])), opt(Ast::Seq(vec![Ast::Chr('.'), plus(cls(&[('0', '9')]))]))]);
    let strg = Ast::Seq(vec![Ast::Chr('"'), star(Ast::Alt(vec![ncls(&[('"', '"'), ('\\', '\\')]), Ast::Seq(vec![Ast::Chr('\\'), ncls(&[('\n', '\n')])])])), Ast::Chr('"')]);
    let com = Ast::Seq(vec![lit("/*"), star(Ast::Alt(vec![ncls(&[('*', '*')]), Ast::Seq(vec![plus(Ast::Chr('*')), ncls(&[('*', '*'), ('/', '/')])])])), plus(Ast::Chr('*')), Ast::Chr('/')]);
    let pool: Vec<Tok> = vec![
        Tok::re("IDENT", id).with(1),
        Tok::re("NUM", num),
        Tok::re("STR", strg),
        Tok::re("COM", com),
        Tok::lit("IF", "if"),
        Tok::lit("INT", "int"),
        Tok::lit("EQ", "="),
        Tok::lit("EQEQ", "=="),
        Tok::lit("UML", "äöü"),
        Tok::re("WS", plus(cls(&[(' ', ' '), ('\t', '\n')]))),
    ];
    for m in 1u32..1 << pool.len() {
        let n = m.count_ones() as usize;
        if n == 2 && m % ctx.pick(1, 1) == 0 || n >= pool.len() - 1 || n == 5 && m % ctx.pick(5, 1) == 0 || n == 3 && m % ctx.pick(5, 1) == 0 {
            sets.push((0..pool.len()).filter(|i| m >> i & 1 == 1).map(|i| pool[i].clone()).collect());
        }
    }
    // many tokens, long tokens
    for n in [10, 60, 300] {
        sets.push((0..n).map(|i| Tok::lit(&format!("K{}", i), &format!("k{}", i))).collect());
    }
    sets.push(vec![Tok::lit("L", &"aé".repeat(60)), Tok::lit("M", "aé")]);
    // more than 256 states, classes of characters
    sets.push(vec![Tok::lit("L", &"aé".repeat(150)), Tok::lit("M", "aé"), Tok::re("N", Ast::Rep(Box::new(cls(&[('b', 'd')])), 1, Some(300)))]);
    let ch = |i: u32| char::from_u32(0x4000 + 2 * i).unwrap();
    sets.push((0..300).map(|i| Tok::re(&format!("K{}", i), Ast::Seq(vec![Ast::Chr(ch(i)), star(Ast::Chr(ch((i * 7 + 1) % 300)))]))).collect());
    sets.push(vec![Tok::re("R", Ast::Rep(Box::new(cls(&[('a', 'b')])), 30, Some(40))), Tok::lit("A", "a").with(9)]);
    // one byte short of every character, and every byte
    sets.push(vec![Tok::re("ANY", ncls(&[('\u{1}', '\u{1}')])), Tok::lit("UE", "ü")]);
    sets.push(vec![Tok::re("RUN", plus(ncls(&[('a', 'a')]))), Tok::lit("A", "a")]);
    // tokens whose names need care
    for (i, names) in [["EOL_", "ER_R", "TK"], ["a", "b__1", "C_D__"], ["State", "String", "Ok"], ["Self_", "Match", "Vec"]].iter().enumerate() {
        sets.push(vec![Tok::lit(names[0], "a"), Tok::lit(names[1], "b"), Tok::re(names[2], ncls(&[('a', 'b')])).with(i as u16 + 1)]);
    }
    let mut seen = HashSet::new();
    let mut out = Vec::new();
    for s in sets {
        let m = LexModel::new(&s);
        // a token that may be empty cannot be read by repetition; ties are refused
        if m.nullable() || !m.ties().is_empty() {
            continue;
        }
        if seen.insert(grammar(&s)) {
            let bytes = if !cpp { 0 } else if out.len() % 40 == 0 { 3 } else { 2 };
            let long = out.len() % 150 == 0;
            // ranges of characters, told from the characters outside of them
            let every = s.len() == 2 && s[0].name == "OUT" || out.len() % ctx.pick(100, 20) == 7;
            out.push(Case { toks: s, bytes, cap, long, every });
        }
    }
    if cpp {
        let n = out.len();
        for i in [n - 5, n - 6, 0] {
            out[i].bytes = ctx.pick(3, 4);
        }
    }
    out
}

pub fn c03(ctx: &Ctx) {
    explore(ctx, &family(ctx, Lang::Rust), Lang::Rust);
}
pub fn c04(ctx: &Ctx) {
    explore(ctx, &family(ctx, Lang::Cpp), Lang::Cpp);
}
