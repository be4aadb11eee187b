//! Drives the lapex command line (built from /repo's working tree by tools/check.sh) in scratch directories.
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const LAPEX: &str = "/verif/target/debug/lapex-cli";

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Algo {
    LL1,
    LR0,
    LR1,
    Lalr,
    Glr,
}
impl Algo {
    pub const ALL: [Algo; 5] = [Algo::LL1, Algo::LR0, Algo::LR1, Algo::Lalr, Algo::Glr];
    pub const LR: [Algo; 3] = [Algo::LR0, Algo::LR1, Algo::Lalr];
    pub fn arg(self) -> &'static str {
        match self {
            Algo::LL1 => "ll1",
            Algo::LR0 => "lr0",
            Algo::LR1 => "lr1",
            Algo::Lalr => "lalr",
            Algo::Glr => "glr",
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Lang {
    Rust,
    Cpp,
}
impl Lang {
    pub fn arg(self) -> &'static str {
        match self {
            Lang::Rust => "rust",
            Lang::Cpp => "cpp",
        }
    }
}

/// The code generators that exist.
pub fn supported(a: Algo, l: Lang) -> bool {
    !matches!((a, l), (Algo::LL1, Lang::Rust) | (Algo::Glr, Lang::Cpp))
}

#[derive(Debug, Clone)]
pub struct Ran {
    /// exit status; None if killed by a signal
    pub code: Option<i32>,
    pub timeout: bool,
    pub out: String,
    pub err: String,
}
impl Ran {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn describe(&self) -> String {
        let mut e = self.err.clone();
        e.truncate((0..=e.len().min(1500)).rev().find(|i| e.is_char_boundary(*i)).unwrap_or(0));
        format!("status {:?}{}; stderr: {}", self.code, if self.timeout { " (timed out)" } else { "" }, e)
    }
}

/// Runs a command with its output in files under `dir`, killing it (and its group) after `limit`.
pub fn run(mut c: Command, dir: &Path, limit: Duration) -> Ran {
    use std::os::unix::process::CommandExt;
    let n = next();
    let (po, pe) = (dir.join(format!(".stdout{}", n)), dir.join(format!(".stderr{}", n)));
    c.stdin(Stdio::null());
    c.stdout(std::fs::File::create(&po).unwrap());
    c.stderr(std::fs::File::create(&pe).unwrap());
    c.process_group(0);
    let mut child = c.spawn().expect("spawn");
    let t = Instant::now();
    let mut timeout = false;
    let mut nap = 200u64;
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if t.elapsed() > limit {
            timeout = true;
            let _ = Command::new("kill").args(["-9", "--", &format!("-{}", child.id())]).stderr(Stdio::null()).status();
            let _ = child.kill();
            break child.wait().unwrap();
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 3 / 2).min(20_000);
    };
    let rd = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).to_string();
    let r = Ran { code: if timeout { None } else { status.code() }, timeout, out: rd(&po), err: rd(&pe) };
    let _ = std::fs::remove_file(po);
    let _ = std::fs::remove_file(pe);
    r
}

pub fn next() -> u64 {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)
}

pub fn fresh_dir(base: &Path, name: &str) -> PathBuf {
    let d = base.join(format!("{}{}", name, next()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

pub struct Gen {
    pub algo: Algo,
    pub lang: Lang,
    pub table: bool,
    pub lexer: bool,
}
impl Gen {
    pub fn new(algo: Algo, lang: Lang) -> Gen {
        Gen { algo, lang, table: false, lexer: false }
    }
    pub fn with_table(mut self) -> Gen {
        self.table = true;
        self
    }
    pub fn with_lexer(mut self) -> Gen {
        self.lexer = true;
        self
    }
    pub fn args(&self) -> Vec<String> {
        let mut v: Vec<String> = ["generate", "-l", self.lang.arg(), "-a", self.algo.arg()].iter().map(|s| s.to_string()).collect();
        if self.table {
            v.push("--table".into());
        }
        if !self.lexer {
            v.push("--no-lexer".into());
        }
        v
    }
    /// Generates from a grammar file into `target`.
    pub fn run(&self, grammar: &Path, target: &Path, limit: Duration) -> Ran {
        let mut c = Command::new(LAPEX);
        c.args(self.args());
        c.arg("--target").arg(target).arg(grammar);
        c.current_dir(target);
        c.env("RUST_BACKTRACE", "0");
        run(c, target, limit)
    }
    /// Writes the grammar text next to `target` and generates.
    pub fn text(&self, text: &str, target: &Path, limit: Duration) -> Ran {
        let g = target.with_extension("lapex");
        std::fs::write(&g, text).unwrap();
        self.run(&g, target, limit)
    }
}

/// Parser files of a target directory, whichever language.
pub fn parser_files(lang: Lang, algo: Algo) -> Vec<&'static str> {
    match (lang, algo) {
        (Lang::Rust, _) => vec!["parser.rs"],
        (Lang::Cpp, Algo::LL1) => vec!["parser.h"],
        (Lang::Cpp, _) => vec!["parser.h"],
    }
}

pub fn strip_ansi(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}
