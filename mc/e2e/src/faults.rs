//! C23: failing, shortened and interrupted system calls of `generate`. A preloaded library (fault.c) counts the
//! opens and writes of files in the target directory and the reads of the grammar and fails, shortens or ends the
//! run at a chosen one, or when a given number of bytes has been written.
use crate::command::combos;
use crate::parsers::{every, LIMIT};
use mccore::cli::{fresh_dir, run, Algo, Lang, Ran, LAPEX};
use mccore::run::{Ctx, Fail, Outcome, Tally};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::Duration;

const SOURCE: &str = include_str!("fault.c");
const GEN_LIMIT: Duration = Duration::from_secs(60);

#[derive(Clone)]
struct Setup {
    name: String,
    algo: Algo,
    lang: Lang,
    table: bool,
    lexer: bool,
    grammar: String,
}
impl Setup {
    fn brief(&self) -> String {
        format!("-l {} -a {}{}{} {}", self.lang.arg(), self.algo.arg(), if self.table { " --table" } else { "" }, if self.lexer { "" } else { " --no-lexer" }, self.name)
    }
}

/// What an undisturbed run does.
struct Base {
    setup: Setup,
    files: BTreeMap<String, Vec<u8>>,
    opens: usize,
    writes: Vec<u64>,
    reads: Vec<u64>,
    /// every byte of the files went through a counted call
    seen: bool,
}

#[derive(Clone, Debug, PartialEq)]
enum Expect {
    /// success and the files of an undisturbed run
    Same,
    /// a failing status
    Refused,
    /// ended by the fault; running again gives the files of an undisturbed run
    Again,
}

#[derive(Clone)]
struct Fault {
    base: usize,
    plan: String,
    disk: Option<u64>,
    expect: Expect,
}

fn files(d: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut o = BTreeMap::new();
    for e in std::fs::read_dir(d).unwrap().flatten() {
        let name = e.file_name().to_string_lossy().to_string();
        if !name.starts_with(".std") {
            let p = e.path();
            let regular = std::fs::symlink_metadata(&p).map_or(false, |m| m.is_file());
            o.insert(name, if regular { std::fs::read(&p).unwrap_or_default() } else { b"(no regular file)".to_vec() });
        }
    }
    o
}

struct Env {
    so: PathBuf,
    base: PathBuf,
}

fn start(env: &Env, s: &Setup, dir: &Path, plan: &str, disk: Option<u64>, log: Option<&Path>) -> Ran {
    let target = dir.join("t");
    let grammar = dir.join("g.lapex");
    let mut c = Command::new(LAPEX);
    c.args(["generate", "-l", s.lang.arg(), "-a", s.algo.arg()]);
    if s.table {
        c.arg("--table");
    }
    if !s.lexer {
        c.arg("--no-lexer");
    }
    c.arg("--target").arg(&target).arg(&grammar).current_dir(dir).env("RUST_BACKTRACE", "0");
    c.env("LD_PRELOAD", &env.so).env("FAULT_DIR", &target).env("FAULT_GRAMMAR", &grammar);
    if !plan.is_empty() {
        c.env("FAULT_PLAN", plan);
    }
    if let Some(d) = disk {
        c.env("FAULT_DISK", d.to_string());
    }
    if let Some(l) = log {
        c.env("FAULT_LOG", l);
    }
    run(c, dir, GEN_LIMIT)
}

fn prepare(env: &Env, s: &Setup) -> PathBuf {
    let dir = fresh_dir(&env.base, "fault");
    std::fs::create_dir_all(dir.join("t")).unwrap();
    std::fs::write(dir.join("g.lapex"), &s.grammar).unwrap();
    dir
}

fn undisturbed(env: &Env, s: &Setup) -> Result<Base, Fail> {
    let dir = prepare(env, s);
    let log = dir.join("log");
    let r = start(env, s, &dir, "", None, Some(&log));
    if !r.ok() {
        return Err(Fail::new(format!("{} undisturbed", s.brief()), format!("generate {} fails without any fault: {}\ngrammar:\n{}", s.brief(), r.describe(), s.grammar)));
    }
    let mut b = Base { setup: s.clone(), files: files(&dir.join("t")), opens: 0, writes: vec![], reads: vec![], seen: false };
    for l in std::fs::read_to_string(&log).unwrap_or_default().lines() {
        let f: Vec<&str> = l.split(' ').collect();
        match f[0] {
            "o" => b.opens += 1,
            "w" => b.writes.push(f[2].parse().unwrap()),
            _ => b.reads.push(f[2].parse().unwrap()),
        }
    }
    let total: u64 = b.writes.iter().sum();
    b.seen = total >= b.files.values().map(|f| f.len() as u64).sum::<u64>() && b.opens >= b.files.len();
    let _ = std::fs::remove_dir_all(&dir);
    Ok(b)
}

fn difference(want: &BTreeMap<String, Vec<u8>>, got: &BTreeMap<String, Vec<u8>>) -> Option<String> {
    for (n, w) in want {
        match got.get(n) {
            None => return Some(format!("{} is missing", n)),
            Some(g) if g != w => return Some(format!("{} has {} bytes and should have {}{}", n, g.len(), w.len(), if g.len() == w.len() { ", with other contents" } else { "" })),
            _ => {}
        }
    }
    got.keys().find(|n| !want.contains_key(*n)).map(|n| format!("{} should not be there", n))
}

fn inject(env: &Env, bases: &[Base], f: &Fault, tally: &mut Tally) -> Outcome {
    let b = &bases[f.base];
    let dir = prepare(env, &b.setup);
    let t = dir.join("t");
    let r = start(env, &b.setup, &dir, &f.plan, f.disk, None);
    tally.add("states", 1);
    tally.add("transitions", (b.opens + b.writes.len() + b.reads.len()) as u64);
    tally.add("traces_validated_against_impl", 1);
    let say = |e: String| {
        Err(Fail::new(
            format!("{} {}", b.setup.brief(), show(f)),
            format!("generate {} with {}: {}; {}\nopens {}, writes {:?}, reads {:?}\ngrammar:\n{}", b.setup.brief(), show(f), e, r.describe(), b.opens, b.writes, b.reads, b.setup.grammar),
        ))
    };
    if r.timeout {
        return say("the command does not end".into());
    }
    match f.expect {
        Expect::Same => {
            if !r.ok() {
                return say("the command fails although every call can be completed".into());
            }
            if let Some(d) = difference(&b.files, &files(&t)) {
                return say(format!("the command reports success, but {}", d));
            }
        }
        Expect::Refused => {
            if r.ok() {
                return say(match difference(&b.files, &files(&t)) {
                    Some(d) => format!("the command reports success, but {}", d),
                    None => "the command reports success".into(),
                });
            }
            if r.code.is_some() && r.err.trim().is_empty() {
                return say("the command fails without a message".into());
            }
            if r.code.is_none() {
                return say("the command is ended by a signal".into());
            }
        }
        Expect::Again => {
            if r.code.is_some() {
                return say("the run was not ended by the fault".into());
            }
        }
    }
    if f.expect == Expect::Again || f.expect == Expect::Refused && f.disk.is_none() && !f.plan.contains(',') {
        // what the disturbed run left behind does not disturb the next one
        let r = start(env, &b.setup, &dir, "", None, None);
        if !r.ok() {
            return say(format!("running it again fails: {}", r.describe()));
        }
        if let Some(d) = difference(&b.files, &files(&t)) {
            return say(format!("after running it again, {}", d));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

fn show(f: &Fault) -> String {
    match (&f.disk, f.plan.is_empty()) {
        (Some(d), true) => format!("room for {} bytes", d),
        (Some(d), false) => format!("room for {} bytes and {}", d, f.plan),
        _ => f.plan.clone(),
    }
}

fn faults(i: usize, b: &Base, every_byte: bool, every_read: bool, pairs: bool) -> Vec<Fault> {
    use Expect::*;
    let mut v = Vec::new();
    let mut add = |plan: String, disk: Option<u64>, expect: Expect| v.push(Fault { base: i, plan, disk, expect });
    let (eintr, eio, enospc, eacces, emfile, edquot, erofs) = (4, 5, 28, 13, 24, 122, 30);
    for o in 0..b.opens {
        for e in [eio, enospc, eacces, emfile, erofs, edquot] {
            add(format!("o{}-{}e{}", o, o, e), None, Refused);
        }
        add(format!("o{}-{}e{}", o, o, eintr), None, Same);
        add(format!("o{}-{}k0", o, o), None, Again);
    }
    let total: u64 = b.writes.iter().sum();
    if total == 0 {
        return v;
    }
    let mut at = 0u64;
    let mut marks = vec![0, total, total + 1, total - 1];
    for (w, n) in b.writes.iter().enumerate() {
        for e in [eio, enospc, edquot] {
            add(format!("w{}-{}e{}", w, w, e), None, Refused);
            // from there on
            add(format!("w{}-99999e{}", w, e), None, Refused);
        }
        add(format!("w{}-{}e{}", w, w, eintr), None, Same);
        add(format!("w{}-{}e{}", w, w + 3, eintr), None, Same);
        add(format!("w{}-{}k0", w, w), None, Again);
        if *n > 0 {
            add(format!("w{}-{}s0", w, w), None, Refused);
        }
        for k in [1, 2, n / 2, n.saturating_sub(2), n.saturating_sub(1)] {
            if 0 < k && k < *n {
                add(format!("w{}-{}s{}", w, w, k), None, Same);
                add(format!("w{}-{}x{}", w, w, k), None, Again);
                // a short write and then a failure for the rest
                add(format!("w{}-{}s{},w{}-{}e{}", w, w, k, w + 1, w + 1, enospc), None, Refused);
                add(format!("w{}-{}s{},w{}-{}e{}", w, w, k, w + 1, w + 1, eintr), None, Same);
                add(format!("w{}-{}s{},w{}-{}s0", w, w, k, w + 1, w + 1), None, Refused);
            }
        }
        marks.extend([at, at + 1, (at + n).saturating_sub(1), at + n / 2]);
        at += n;
    }
    if every_byte {
        marks = (0..=total + 1).collect();
    }
    marks.sort();
    marks.dedup();
    if !b.seen {
        marks.clear();
    }
    for m in marks {
        add(String::new(), Some(m), if m >= total { Same } else { Refused });
    }
    // every write in pieces
    for k in [1u64, 7, 100, 4096, 8191] {
        if k > 1 || total < 20000 {
            add(format!("w0-999999s{}", k), None, Same);
        }
        add(format!("w0-999999s{}", k.max(7)), Some(total / 2), Refused);
    }
    for r in 0..b.reads.len() {
        for e in [eio, 9, 21] {
            add(format!("r{}-{}e{}", r, r, e), None, Refused);
        }
        add(format!("r{}-{}e{}", r, r, eintr), None, Same);
        add(format!("r{}-{}k0", r, r), None, Again);
        for k in if every_read { (1..b.reads[r]).collect() } else { vec![1, b.reads[r] / 2, b.reads[r].saturating_sub(1)] } {
            if 0 < k && k < b.reads[r] {
                add(format!("r{}-{}s{}", r, r, k), None, Same);
                add(format!("r{}-{}s{},r{}-{}e{}", r, r, k, r + 1, r + 1, eio), None, Refused);
            }
        }
    }
    for k in [1, 2, 3, 5] {
        add(format!("r0-999999s{}", k), None, Same);
    }
    if pairs {
        // every pair of faults that can be completed, and every one of them before a failure
        let mut ok: Vec<String> = (0..b.opens).map(|o| format!("o{}-{}e{}", o, o, eintr)).collect();
        for (w, n) in b.writes.iter().enumerate() {
            ok.push(format!("w{}-{}e{}", w, w, eintr));
            if *n > 1 {
                ok.push(format!("w{}-{}s{}", w, w, n / 2));
            }
        }
        ok.push("r0-0s3".into());
        for x in &ok {
            for y in &ok {
                if x != y {
                    add(format!("{},{}", x, y), None, Same);
                }
            }
            for o in 0..b.opens {
                if *x != format!("o{}-{}e{}", o, o, eintr) {
                    // the count of calls moves by the repeated one
                    let o = if x.starts_with('o') { o + 1 } else { o };
                    if o < b.opens {
                        add(format!("{},o{}-99e{}", x, o, eacces), None, Refused);
                    }
                }
            }
        }
    }
    v
}

/// Faults of the real file system.
fn places(env: &Env, b: &Base, file: &str, what: usize, tally: &mut Tally) -> Outcome {
    let dir = prepare(env, &b.setup);
    let p = dir.join("t").join(file);
    let what_text = ["is a full device", "is a directory", "is a link to nowhere in a missing directory", "is a link to itself", "is in a missing directory", "is below a file"][what];
    match what {
        0 => std::os::unix::fs::symlink("/dev/full", &p).unwrap(),
        1 => std::fs::create_dir(&p).unwrap(),
        2 => std::os::unix::fs::symlink(dir.join("none").join("x"), &p).unwrap(),
        3 => std::os::unix::fs::symlink(&p, &p).unwrap(),
        4 => std::fs::remove_dir(dir.join("t")).unwrap(),
        _ => {
            std::fs::remove_dir(dir.join("t")).unwrap();
            std::fs::write(dir.join("t"), "x").unwrap();
        }
    }
    let r = start(env, &b.setup, &dir, "", None, None);
    tally.add("states", 1);
    tally.add("traces_validated_against_impl", 1);
    if r.ok() || r.timeout || r.code.is_none() || r.err.trim().is_empty() {
        let complete = (what == 4) && difference(&b.files, &files(&dir.join("t"))).is_none();
        // creating the directory and everything in it would be fine, too
        if !(r.ok() && complete) {
            return Err(Fail::new(format!("{} {} {}", b.setup.brief(), file, what_text), format!("generate {}, where {} {}: {}", b.setup.brief(), file, what_text, r.describe())));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

fn grammar(toks: usize, rules: usize) -> String {
    let mut s = String::new();
    for i in 0..toks {
        s.push_str(&format!("token T{} = \"x{}\";\n", i, i));
    }
    s.push_str("entry start;\nprod start = T0 item0;\n");
    for i in 0..rules {
        s.push_str(&format!("prod item{} = T{} {};\n", i, (i + 1) % toks, if i + 1 < rules { format!("item{}", i + 1) } else { format!("T{}", toks - 1) }));
    }
    s
}

pub fn c23(ctx: &Ctx) {
    let base = ctx.scratch();
    let c = base.join("fault.c");
    std::fs::write(&c, SOURCE).unwrap();
    let so = base.join("fault.so");
    let ok = Command::new("gcc").args(["-shared", "-fPIC", "-O1", "-w", "-o"]).arg(&so).arg(&c).arg("-ldl").status().unwrap();
    assert!(ok.success(), "the fault library does not compile");
    let env = Env { so, base: base.clone() };

    let tiny = "token A = \"a\";\nentry s;\nprod s = A;\n".to_string();
    let unicode = "token E1 = \"été 中文 😀\";\ntoken W = /[à-ÿ中-文😀]+\\//;\ntoken S = \"é😀\";\nentry s;\nprod s = E1 W S;\n".to_string();
    let mut setups = Vec::new();
    for (i, (algo, lang)) in combos().into_iter().enumerate() {
        for table in [true, false] {
            for lexer in [true, false] {
                // the quick run has each algorithm and language with some of the switches
                if ctx.thorough() || (i + table as usize) % 2 == 0 && lexer == (i % 4 < 2) {
                    setups.push(Setup { name: "tiny".into(), algo, lang, table, lexer, grammar: tiny.clone() });
                }
            }
        }
        if ctx.thorough() || (algo, lang) == (Algo::LR1, Lang::Rust) {
            setups.push(Setup { name: "unicode".into(), algo, lang, table: true, lexer: true, grammar: unicode.clone() });
        }
        if ctx.thorough() || matches!((algo, lang), (Algo::Glr, Lang::Rust) | (Algo::LL1, Lang::Cpp)) {
            setups.push(Setup { name: "several buffers".into(), algo, lang, table: true, lexer: true, grammar: grammar(30, 60) });
        }
        if ctx.thorough() {
            setups.push(Setup { name: "many buffers".into(), algo, lang, table: true, lexer: true, grammar: grammar(120, 200) });
        }
    }
    let mut bases = Vec::new();
    for s in &setups {
        match undisturbed(&env, s) {
            Ok(b) => bases.push(b),
            Err(f) => return ctx.fail(&s.brief(), f),
        }
    }
    ctx.count("option sets whose writes are all seen", bases.iter().filter(|b| b.seen).count() as u64);
    ctx.count("undisturbed runs", bases.len() as u64);
    let mut cases = Vec::new();
    let mut largest = 0;
    for (i, b) in bases.iter().enumerate() {
        let s = &b.setup;
        let tiny = s.name == "tiny";
        // every number of bytes: one option set in the quick run, all small ones in the thorough run
        let every_byte = if ctx.thorough() { tiny || s.name == "unicode" } else { tiny && !s.lexer && s.lang == Lang::Rust && s.algo == Algo::Lalr };
        let every_read = s.name == "unicode" && (ctx.thorough() || s.algo == Algo::LR1);
        largest = largest.max(b.writes.len());
        cases.extend(faults(i, b, every_byte, every_read, tiny && (ctx.thorough() || s.lang == Lang::Rust && s.lexer)));
    }
    ctx.count("faults", cases.len() as u64);
    ctx.count("most writes of one run", largest as u64);
    for k in [Expect::Same, Expect::Refused, Expect::Again] {
        ctx.count(&format!("faults with outcome {:?}", k), cases.iter().filter(|c| c.expect == k).count() as u64);
    }
    for f in every(cases.clone(), (cases.len() / 8).max(1)) {
        ctx.sample(format!("{}: {} -> {:?}", bases[f.base].setup.brief(), show(&f), f.expect));
    }
    ctx.par(&cases, LIMIT, |f| format!("{}: {}", bases[f.base].setup.brief(), show(f)), |f, t| inject(&env, &bases, f, t));
    let mut at = Vec::new();
    for (i, b) in bases.iter().enumerate() {
        for f in b.files.keys() {
            for what in 0..6 {
                at.push((i, f.clone(), what));
            }
        }
    }
    ctx.count("files that cannot be written", at.len() as u64);
    ctx.par(&at, LIMIT, |(i, f, w)| format!("{} {} {}", bases[*i].setup.brief(), f, w), |(i, f, w), t| places(&env, &bases[*i], f, *w, t));
    ctx.assume("a failure that is reported by close only is not injected: the standard library's files do not report it");
}
