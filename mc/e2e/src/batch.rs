//! Generates parsers with the lapex command line, compiles many of them into one driver program and
//! runs each of them on its inputs.
use mccore::cli::{fresh_dir, run, Algo, Gen, Lang, Ran};
use mccore::spec::Spec;
use mccore::trace::{methods_cpp, methods_rust, Ev, Method};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::Duration;

pub const GEN_LIMIT: Duration = Duration::from_secs(60);
pub const COMPILE_LIMIT: Duration = Duration::from_secs(300);
pub const RUN_LIMIT: Duration = Duration::from_secs(300);

/// In an input: the token source reports an error here (GLR only).
pub const LEXERR: u16 = 0xFFFE;
pub const EOF: u32 = 0xFFFF;
pub const EOF_DATA: u32 = 777_777;
pub const ERR_VALUE: u32 = 4242;

#[derive(Clone, Debug)]
pub struct Job {
    pub spec: Spec,
    pub algo: Algo,
    pub lang: Lang,
    pub inputs: Vec<Vec<u16>>,
    pub table: bool,
}
impl Job {
    pub fn new(spec: &Spec, algo: Algo, lang: Lang, inputs: Vec<Vec<u16>>) -> Job {
        Job { spec: spec.clone(), algo, lang, inputs, table: false }
    }
    pub fn brief(&self) -> String {
        format!("-l {} -a {} {}", self.lang.arg(), self.algo.arg(), self.spec.brief())
    }
}

pub const OK: u32 = 0;
pub const UNEXPECTED: u32 = 1;
pub const LEXER_ERROR: u32 = 2;
pub const MULTIPLE: u32 = 3;
pub const PANIC: u32 = 4;
pub const RUNAWAY: u32 = 5;

#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub status: u32,
    /// tokens requested from the token source, end of input included
    pub requested: u32,
    pub ev: Vec<Ev>,
    /// C++ LL: enter is 2*i, exit 2*i+1 of the methods as declared
    pub got: Vec<(u32, u32)>,
    pub expected: Vec<Vec<u32>>,
    pub message: String,
}
impl Rec {
    pub fn outcome(&self) -> String {
        match self.status {
            OK => "Ok".into(),
            UNEXPECTED => format!("error: unexpected {:?}, expected {:?}", self.got, self.expected),
            LEXER_ERROR => format!("lexer error {:?}", self.got),
            MULTIPLE => format!("error: unexpected (several) {:?}, expected {:?}", self.got, self.expected),
            PANIC => format!("panic: {}", self.message),
            RUNAWAY => "no end: token source or visitor called without bound".into(),
            _ => format!("error: {}", self.message),
        }
    }
}

pub struct Done {
    pub gen: Ran,
    pub dir: PathBuf,
    pub methods: Vec<Method>,
    /// None if the generator refused the grammar
    pub recs: Option<Result<Vec<Rec>, String>>,
    pub table: Option<String>,
}

/// Identifiers of `enum TokenType` in the generated token file.
pub fn variants(text: &str) -> Vec<String> {
    let Some(at) = text.find("TokenType") else { return vec![] };
    let Some(open) = text[at..].find('{') else { return vec![] };
    let body = &text[at + open + 1..];
    let body = &body[..body.find('}').unwrap_or(body.len())];
    body.split(',')
        .map(|s| s.split('=').next().unwrap().trim().to_string())
        .filter(|s| !s.is_empty())
        .collect()
}
fn plain(s: &str) -> String {
    s.chars().filter(|c| c.is_alphanumeric()).flat_map(|c| c.to_lowercase()).collect()
}
/// The variant of each token of the grammar.
pub fn token_variants(text: &str, names: &[String], prefix: &str) -> Result<Vec<String>, String> {
    let vs = variants(text);
    names
        .iter()
        .map(|n| {
            if let Some(v) = vs.iter().find(|v| **v == format!("{}_{}", prefix, n)) {
                return Ok(v.clone());
            }
            // Rust: by camel case, which tells a_b from ab
            let camel: String = n.split('_').filter(|s| !s.is_empty()).map(|s| format!("{}{}", s[..1].to_uppercase(), s[1..].to_lowercase())).collect();
            let exact: Vec<&String> = vs.iter().filter(|v| **v == format!("{}{}", prefix, camel)).collect();
            if exact.len() == 1 {
                return Ok(exact[0].clone());
            }
            let want = plain(&format!("{}{}", prefix, n));
            let hits: Vec<&String> = vs.iter().filter(|v| plain(v) == want).collect();
            match hits[..] {
                [v] => Ok(v.clone()),
                _ => Err(format!("the token file has {} entries for token {}: {:?}", hits.len(), n, vs)),
            }
        })
        .collect()
}

const RUST_MAIN: &str = r#"
use std::cell::RefCell;
use std::io::{Read, Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicU64, Ordering};
pub const EOF: u32 = 0xFFFF;
#[derive(Default)]
pub struct St { w: Vec<u32>, at: usize, requested: u32, ev: Vec<u32>, got: Vec<(u32, u32)>, exp: Vec<Vec<u32>>, msg: String, cap: usize }
thread_local! { pub static ST: RefCell<St> = RefCell::new(St::default()); }
pub fn ev(m: u32) { ST.with(|s| { let mut s = s.borrow_mut(); s.ev.push(m); if s.ev.len() > s.cap { drop(s); panic!("RUNAWAY"); } }) }
pub fn ev_shift(t: u32, d: u32) { ev(0x8000_0000 | t); ev(d); }
pub fn next() -> (u32, u32) { ST.with(|s| { let mut s = s.borrow_mut(); s.requested += 1; let i = s.at; s.at += 1;
  if i < s.w.len() { (s.w[i], 1000 + i as u32) } else { if i > s.w.len() + 100 { drop(s); panic!("RUNAWAY"); } (EOF, 777_777) } }) }
pub fn unexpected(status: u32, got: Vec<(u32, u32)>, exp: Vec<Vec<u32>>) -> u32 { ST.with(|s| { let mut s = s.borrow_mut(); s.got = got; s.exp = exp; }); status }
pub fn other(m: String) -> u32 { ST.with(|s| s.borrow_mut().msg = m); 6 }
#[derive(Debug, PartialEq)]
pub struct SrcErr(pub u32);
impl std::fmt::Display for SrcErr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "source error {}", self.0) } }
impl std::error::Error for SrcErr {}
static BEAT: AtomicU64 = AtomicU64::new(0);
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut data = Vec::new();
    std::fs::File::open(&a[1]).unwrap().read_to_end(&mut data).unwrap();
    let w: Vec<u32> = data.chunks(2).map(|c| c[0] as u32 | (c[1] as u32) << 8).collect();
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    let mut cur = std::fs::File::create(&a[3]).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| { let mut last = u64::MAX; let mut n = 0; loop { std::thread::sleep(std::time::Duration::from_secs(1)); let b = BEAT.load(Ordering::Relaxed); if b == last { n += 1; if n > 20 { std::process::exit(9); } } else { n = 0; last = b; } } });
    let mut p = 0;
    let runs: Vec<fn() -> u32> = vec![RUNS];
    for (g, r) in runs.iter().enumerate() {
        let n = w[p] | w[p + 1] << 16; p += 2;
        for s in 0..n {
            let l = (w[p] | w[p + 1] << 16) as usize; p += 2;
            let t = w[p..p + l].to_vec(); p += l;
            cur.seek(SeekFrom::Start(0)).unwrap();
            cur.write_all(&[(g as u32).to_le_bytes(), s.to_le_bytes()].concat()).unwrap();
            BEAT.fetch_add(1, Ordering::Relaxed);
            ST.with(|st| *st.borrow_mut() = St { w: t, cap: 4000 + 400 * l, ..St::default() });
            let status = match std::panic::catch_unwind(|| r()) { Ok(s) => s, Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                if m == "RUNAWAY" { 5 } else { ST.with(|st| st.borrow_mut().msg = m); 4 } } };
            let mut o: Vec<u32> = Vec::new();
            ST.with(|st| { let st = st.borrow();
                o.push(status); o.push(st.requested);
                o.push(st.ev.len() as u32); o.extend(&st.ev);
                o.push(st.got.len() as u32); for (t, d) in &st.got { o.push(*t); o.push(*d); }
                o.push(st.exp.len() as u32); for e in &st.exp { o.push(e.len() as u32); o.extend(e); }
                let m: Vec<u32> = st.msg.chars().take(300).map(|c| c as u32).collect();
                o.push(m.len() as u32); o.extend(&m);
            });
            for x in o { out.write_all(&x.to_le_bytes()).unwrap(); }
        }
    }
    out.flush().unwrap();
    drop(out);
    std::process::exit(0);
}
"#;

const CPP_MAIN: &str = r#"
#include "all.h"
struct Runaway {};
static const uint32_t XEOF = 0xFFFF;
struct St { std::vector<uint32_t> w; size_t at = 0; uint32_t requested = 0; std::vector<uint32_t> ev; std::string msg; size_t cap = 0; };
static St ST;
static void ev(uint32_t m) { ST.ev.push_back(m); if (ST.ev.size() > ST.cap) throw Runaway(); }
static void ev_shift(uint32_t t, uint32_t d) { ev(0x80000000u | t); ev(d); }
static std::pair<uint32_t, uint32_t> next_tok() { ST.requested++; size_t i = ST.at++; if (i < ST.w.size()) return {ST.w[i], 1000 + (uint32_t)i}; if (i > ST.w.size() + 100) throw Runaway(); return {XEOF, 777777}; }
"#;
const CPP_TAIL: &str = r#"
static std::atomic<uint64_t> BEAT{0};
int main(int argc, char **argv) {
    std::ifstream in(argv[1], std::ios::binary);
    std::vector<char> d((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    std::vector<uint32_t> w; for (size_t i = 0; i + 1 < d.size(); i += 2) w.push_back((uint8_t)d[i] | (uint32_t)(uint8_t)d[i + 1] << 8);
    FILE *out = fopen(argv[2], "wb"); FILE *cur = fopen(argv[3], "wb"); setvbuf(cur, 0, _IONBF, 0);
    std::thread([] { uint64_t last = ~0ull; int n = 0; while (true) { std::this_thread::sleep_for(std::chrono::seconds(1)); uint64_t b = BEAT; if (b == last) { if (++n > 20) _exit(9); } else { n = 0; last = b; } } }).detach();
    size_t p = 0;
    std::vector<void (*)()> runs = {RUNS};
    for (uint32_t g = 0; g < runs.size(); g++) {
        uint32_t n = w[p] | w[p + 1] << 16; p += 2;
        for (uint32_t s = 0; s < n; s++) {
            uint32_t l = w[p] | w[p + 1] << 16; p += 2;
            ST = St(); ST.w.assign(w.begin() + p, w.begin() + p + l); p += l; ST.cap = 4000 + 400 * l;
            uint32_t c[2] = {g, s}; fseek(cur, 0, SEEK_SET); fwrite(c, 4, 2, cur); BEAT++;
            uint32_t status = 0;
            try { runs[g](); } catch (const Runaway &) { status = 5; } catch (const std::runtime_error &e) { status = 1; ST.msg = e.what(); } catch (const std::exception &e) { status = 4; ST.msg = e.what(); } catch (...) { status = 4; ST.msg = "unknown exception"; }
            std::vector<uint32_t> o = {status, ST.requested, (uint32_t)ST.ev.size()};
            o.insert(o.end(), ST.ev.begin(), ST.ev.end());
            o.push_back(0); o.push_back(0);
            if (ST.msg.size() > 300) ST.msg.resize(300);
            o.push_back(ST.msg.size()); for (unsigned char ch : ST.msg) o.push_back(ch);
            fwrite(o.data(), 4, o.size(), out);
        }
    }
    fclose(out);
    _exit(0);
}
"#;

/// Text of a generated C++ file with its local includes in place, so that it can live in a namespace.
pub fn inline_cpp(dir: &Path, file: &str, seen: &mut Vec<String>) -> String {
    if seen.iter().any(|s| s == file) {
        return String::new();
    }
    seen.push(file.to_string());
    let text = std::fs::read_to_string(dir.join(file)).unwrap_or_default();
    let mut o = String::new();
    for l in text.lines() {
        let t = l.trim();
        if t.starts_with("#pragma once") || t.starts_with("#include <") {
            continue;
        }
        if let Some(r) = t.strip_prefix("#include \"") {
            o.push_str(&inline_cpp(dir, r.trim_end_matches('"'), seen));
            continue;
        }
        o.push_str(l);
        o.push('\n');
    }
    o
}

fn rust_module(k: usize, job: &Job, dir: &Path, methods: &[Method]) -> Result<String, String> {
    let tokens = std::fs::read_to_string(dir.join("tokens.rs")).map_err(|e| format!("tokens.rs: {}", e))?;
    let vs = token_variants(&tokens, &job.spec.toks, "Tk")?;
    let mut o = String::new();
    let _ = write!(
        o,
        "mod g{k} {{\n#[path = \"{d}/tokens.rs\"] pub mod tokens;\n#[path = \"{d}/parser.rs\"] pub mod parser;\nuse self::tokens::TokenType;\n",
        k = k,
        d = dir.display()
    );
    let _ = write!(o, "fn tok(i: u32) -> TokenType {{ match i {{ ");
    for (i, v) in vs.iter().enumerate() {
        let _ = write!(o, "{} => TokenType::{}, ", i, v);
    }
    let _ = write!(o, "_ => TokenType::EndOfFile }} }}\nfn id(t: TokenType) -> u32 {{ match t {{ ");
    for (i, v) in vs.iter().enumerate() {
        let _ = write!(o, "TokenType::{} => {}, ", v, i);
    }
    let _ = write!(o, "TokenType::EndOfFile => crate::EOF }} }}\nstruct V;\nimpl parser::Visitor<u32> for V {{ fn shift(&mut self, t: TokenType, d: u32) {{ crate::ev_shift(id(t), d) }}\n");
    for (i, m) in methods.iter().enumerate() {
        let _ = writeln!(o, "fn {}(&mut self) {{ crate::ev({}) }}", m.name, i);
    }
    let _ = write!(o, "}}\n#[allow(unreachable_patterns)]\npub fn run() -> u32 {{\n");
    if job.algo == Algo::Glr {
        let _ = write!(
            o,
            "let mut p = parser::Parser::new(|| {{ let (t, d) = crate::next(); if t == {} {{ Err(crate::SrcErr({})) }} else {{ Ok((tok(t), d)) }} }}, V);\nmatch p.parse() {{ Ok(()) => 0,\n Err(parser::ParserError::UnexpectedToken {{ got, got_data, expected }}) => crate::unexpected(1, vec![(id(got), got_data)], vec![expected.into_iter().map(id).collect()]),\n Err(parser::ParserError::LexerError {{ inner }}) => crate::unexpected(2, vec![(0, inner.0)], vec![]),\n Err(parser::ParserError::UnexpectedTokens {{ got, expected }}) => crate::unexpected(3, got.into_iter().map(|(t, d)| (id(t), d)).collect(), expected.into_iter().map(|e| e.into_iter().map(id).collect()).collect()),\n Err(e) => crate::other(format!(\"{{}}\", e)) }}\n",
            LEXERR, ERR_VALUE
        );
    } else {
        let _ = write!(
            o,
            "let mut p = parser::Parser::new(|| {{ let (t, d) = crate::next(); (tok(t), d) }}, V);\nmatch p.parse() {{ Ok(()) => 0,\n Err(parser::ParserError::UnexpectedToken {{ got, expected }}) => crate::unexpected(1, vec![(id(got), 0)], vec![expected.into_iter().map(id).collect()]),\n Err(e) => crate::other(format!(\"{{}}\", e)) }}\n"
        );
    }
    o.push_str("}\n}\n");
    Ok(o)
}

fn cpp_module(k: usize, job: &Job, dir: &Path, methods: &[Method]) -> Result<String, String> {
    let tokens = std::fs::read_to_string(dir.join("tokens.h")).map_err(|e| format!("tokens.h: {}", e))?;
    let vs = token_variants(&tokens, &job.spec.toks, "TK")?;
    let mut o = format!("namespace g{} {{\n", k);
    let mut seen = vec![];
    for f in ["tokens.h", "tokens.cpp", "visitor.h", "parser.h", "parser_impl.h", "parser.cpp"] {
        o.push_str(&inline_cpp(dir, f, &mut seen));
        o.push('\n');
    }
    let _ = write!(o, "static lexer::TokenType tok(uint32_t i) {{ switch (i) {{ ");
    for (i, v) in vs.iter().enumerate() {
        let _ = write!(o, "case {}: return lexer::TokenType::{}; ", i, v);
    }
    let _ = write!(o, "default: return lexer::TokenType::TK_EOF; }} }}\nstatic uint32_t id(lexer::TokenType t) {{ switch (t) {{ ");
    for (i, v) in vs.iter().enumerate() {
        let _ = write!(o, "case lexer::TokenType::{}: return {}; ", v, i);
    }
    let hook = if job.algo == Algo::LL1 { "token" } else { "shift" };
    let _ = write!(
        o,
        "case lexer::TokenType::TK_EOF: return XEOF; default: return 0xFFFD; }} }}\nstruct V : parser::Visitor<uint32_t> {{ void {}(lexer::TokenType t, uint32_t d) override {{ ev_shift(id(t), d); }}\n",
        hook
    );
    for (i, m) in methods.iter().enumerate() {
        let _ = writeln!(o, "void {}() override {{ ev({}); }}", m.name, i);
    }
    o.push_str("};\nstatic void run() { V v; parser::Parser<uint32_t> p([]() { auto x = next_tok(); return std::make_pair(tok(x.first), x.second); }, v); p.parse(); }\n}\n");
    Ok(o)
}

/// Prepares the precompiled header of the C++ drivers once per check.
pub fn cpp_setup(base: &Path) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let _ = std::fs::create_dir_all(base.join("pch"));
        std::fs::write(base.join("pch/all.h"), "#include <bits/stdc++.h>\n#include <unistd.h>\n").unwrap();
        let mut c = Command::new("g++");
        c.args(["-std=c++17", "-O0", "-w", "-D_GLIBCXX_ASSERTIONS", "-pthread", "-x", "c++-header", "all.h", "-o", "all.h.gch"]).current_dir(base.join("pch"));
        let r = run(c, base, COMPILE_LIMIT);
        assert!(r.ok(), "precompiled header: {}", r.describe());
    });
}

struct Mod<'a> {
    job: &'a Job,
    text: String,
}

fn source(lang: Lang, mods: &[(usize, &Mod)]) -> String {
    let mut o = String::new();
    let runs: Vec<String> = mods.iter().map(|(k, _)| if lang == Lang::Rust { format!("g{}::run as fn() -> u32", k) } else { format!("g{}::run", k) }).collect();
    match lang {
        Lang::Rust => {
            o.push_str(&RUST_MAIN.replace("RUNS", &runs.join(", ")));
            for (_, m) in mods {
                o.push_str(&m.text);
            }
        }
        Lang::Cpp => {
            o.push_str(CPP_MAIN);
            for (_, m) in mods {
                o.push_str(&m.text);
            }
            o.push_str(&CPP_TAIL.replace("RUNS", &runs.join(", ")));
        }
    }
    o
}

pub fn compile(lang: Lang, dir: &Path, base: &Path, text: &str, name: &str) -> Ran {
    let src = dir.join(format!("{}.{}", name, if lang == Lang::Rust { "rs" } else { "cpp" }));
    std::fs::write(&src, text).unwrap();
    let mut c;
    match lang {
        Lang::Rust => {
            c = Command::new("rustc");
            c.args(["--edition", "2021", "-C", "debuginfo=0", "-C", "codegen-units=1", "-A", "warnings", "--crate-name", "drv"]);
        }
        Lang::Cpp => {
            cpp_setup(base);
            c = Command::new("g++");
            c.args(["-std=c++17", "-O0", "-w", "-D_GLIBCXX_ASSERTIONS", "-pthread", "-I"]).arg(base.join("pch"));
        }
    }
    c.arg("-o").arg(dir.join(name)).arg(&src).current_dir(dir);
    run(c, dir, COMPILE_LIMIT)
}

fn decode(data: &[u8], counts: &[usize]) -> Option<Vec<Vec<Rec>>> {
    let w: Vec<u32> = data.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
    let mut p = 0;
    let mut take = || {
        let x = w.get(p).copied();
        p += 1;
        x
    };
    let mut all = Vec::new();
    for n in counts {
        let mut recs = Vec::with_capacity(*n);
        for _ in 0..*n {
            let mut r = Rec { status: take()?, requested: take()?, ..Rec::default() };
            let ne = take()?;
            let mut i = 0;
            while i < ne {
                let x = take()?;
                if x & 0x8000_0000 != 0 {
                    if i + 1 < ne {
                        r.ev.push(Ev::Shift((x & 0xFFFF) as u16, take()?));
                    }
                    i += 2;
                } else {
                    r.ev.push(Ev::Call(x as usize));
                    i += 1;
                }
            }
            for _ in 0..take()? {
                let t = take()?;
                r.got.push((t, take()?));
            }
            for _ in 0..take()? {
                let l = take()?;
                r.expected.push((0..l).map(|_| take()).collect::<Option<Vec<_>>>()?);
            }
            for _ in 0..take()? {
                r.message.push(char::from_u32(take()?).unwrap_or('?'));
            }
            recs.push(r);
        }
        all.push(recs);
    }
    Some(all)
}

/// Generates, compiles and runs the jobs (all of one language).
pub fn run_jobs(base: &Path, jobs: &[Job]) -> Vec<Done> {
    let root = fresh_dir(base, "batch");
    let mut out: Vec<Done> = Vec::new();
    let mut mods: Vec<Option<Mod>> = Vec::new();
    for (k, job) in jobs.iter().enumerate() {
        let dir = root.join(format!("g{}", k));
        std::fs::create_dir_all(&dir).unwrap();
        let mut g = Gen::new(job.algo, job.lang);
        if job.table {
            g = g.with_table();
        }
        let gen = g.text(&job.spec.text(), &dir, GEN_LIMIT);
        let mut d = Done { gen, dir: dir.clone(), methods: vec![], recs: None, table: None };
        let mut m = None;
        if d.gen.ok() {
            d.methods = match job.lang {
                Lang::Rust => methods_rust(&std::fs::read_to_string(dir.join("parser.rs")).unwrap_or_default()),
                Lang::Cpp => methods_cpp(&std::fs::read_to_string(dir.join("visitor.h")).unwrap_or_default()),
            };
            if job.table {
                d.table = std::fs::read_to_string(dir.join("table")).ok();
            }
            match if job.lang == Lang::Rust { rust_module(k, job, &dir, &d.methods) } else { cpp_module(k, job, &dir, &d.methods) } {
                Ok(text) => m = Some(Mod { job, text }),
                Err(e) => d.recs = Some(Err(e)),
            }
        }
        out.push(d);
        mods.push(m);
    }
    let mut active: Vec<usize> = (0..jobs.len()).filter(|k| mods[*k].is_some()).collect();
    let mut round = 0;
    while !active.is_empty() {
        round += 1;
        let lang = jobs[active[0]].lang;
        let sel: Vec<(usize, &Mod)> = active.iter().map(|k| (*k, mods[*k].as_ref().unwrap())).collect();
        let name = format!("drv{}", round);
        let r = compile(lang, &root, base, &source(lang, &sel), &name);
        if !r.ok() {
            if active.len() == 1 {
                out[active[0]].recs = Some(Err(format!("the generated parser does not compile: {}", r.describe())));
                break;
            }
            // find the culprits one by one
            let mut good = Vec::new();
            let mut bad = 0;
            for k in &active {
                let one = [(*k, mods[*k].as_ref().unwrap())];
                let r = compile(lang, &root, base, &source(lang, &one), "one");
                if r.ok() {
                    good.push(*k);
                } else {
                    out[*k].recs = Some(Err(format!("the generated parser does not compile: {}", r.describe())));
                    bad += 1;
                }
            }
            if bad == 0 {
                for k in &active {
                    out[*k].recs = Some(Err(format!("the generated parsers compile alone but not together: {}", r.describe())));
                }
                break;
            }
            active = good;
            continue;
        }
        let mut inp: Vec<u8> = Vec::new();
        for (_, m) in &sel {
            let put = |v: &mut Vec<u8>, x: usize| v.extend_from_slice(&(x as u16).to_le_bytes());
            let n = m.job.inputs.len();
            put(&mut inp, n & 0xFFFF);
            put(&mut inp, n >> 16);
            for w in &m.job.inputs {
                put(&mut inp, w.len() & 0xFFFF);
                put(&mut inp, w.len() >> 16);
                for t in w {
                    put(&mut inp, *t as usize);
                }
            }
        }
        std::fs::write(root.join("in"), &inp).unwrap();
        let _ = std::fs::remove_file(root.join("out"));
        let mut c = Command::new("bash");
        // Rust: the stack that a thread has by default
        let stack = if lang == Lang::Rust { "ulimit -s 2048; " } else { "" };
        c.arg("-c").arg(format!("ulimit -v 4000000; {}exec ./{} in out cur", stack, name)).current_dir(&root);
        let r = run(c, &root, RUN_LIMIT);
        let counts: Vec<usize> = sel.iter().map(|(_, m)| m.job.inputs.len()).collect();
        if r.ok() {
            match decode(&std::fs::read(root.join("out")).unwrap_or_default(), &counts) {
                Some(all) => {
                    for (k, recs) in active.iter().zip(all) {
                        out[*k].recs = Some(Ok(recs));
                    }
                }
                None => {
                    for k in &active {
                        out[*k].recs = Some(Err("driver output is incomplete".into()));
                    }
                }
            }
            break;
        }
        // which input brought the program down?
        let cur = std::fs::read(root.join("cur")).unwrap_or_default();
        let n = |i: usize| cur.get(4 * i..4 * i + 4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]]) as usize).unwrap_or(0);
        let (g, s) = (n(0), n(1));
        let k = active[g.min(active.len() - 1)];
        let w = jobs[k].inputs.get(s).map(|w| show_input(&jobs[k].spec, w)).unwrap_or_default();
        out[k].recs = Some(Err(format!(
            "the generated parser {} on input [{}]: {}",
            if r.code == Some(9) || r.timeout { "did not return" } else { "crashed" },
            w,
            r.describe()
        )));
        active.retain(|x| *x != k);
    }
    out
}

pub fn cleanup(done: &[Done]) {
    if let Some(d) = done.first() {
        if let Some(root) = d.dir.parent() {
            let _ = std::fs::remove_dir_all(root);
        }
    }
}

pub fn show_input(g: &Spec, w: &[u16]) -> String {
    if w.len() > 500 {
        return format!("{} ... ({} tokens)", show_input(g, &w[..20]), w.len());
    }
    w.iter().map(|t| if *t == LEXERR { "<error>".into() } else { g.toks.get(*t as usize).cloned().unwrap_or_else(|| "?".into()) }).collect::<Vec<_>>().join(" ")
}
