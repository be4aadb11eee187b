//! C22: what generation writes does not depend on the order in which hash maps and sets are iterated, on the keys of
//! their hashes or on the addresses of allocations. The command line is built with a standard library that asks for
//! the order of every iteration over a hash map or set (tools/ordered); these are the choice points. Addresses are
//! chosen by a preloaded allocator (heap.c).
use crate::command::{combos, tree};
use crate::parsers::{every, LIMIT};
use mccore::cli::{fresh_dir, run, Algo, Lang, Ran, LAPEX};
use mccore::families as fam;
use mccore::run::{Ctx, Fail, Outcome, Tally};
use mccore::spec::Spec;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::Mutex;
use std::time::Duration;

const SOURCE: &str = include_str!("heap.c");
const ORDERED: &str = "/verif/target/ordered/build/x86_64-unknown-linux-gnu/debug/lapex-cli";
const GEN_LIMIT: Duration = Duration::from_secs(60);

#[derive(Clone)]
struct Setup {
    name: String,
    grammar: String,
    algo: Algo,
    lang: Lang,
    table: bool,
    lexer: bool,
}
impl Setup {
    fn brief(&self) -> String {
        format!("-l {} -a {}{}{} {}", self.lang.arg(), self.algo.arg(), if self.table { " --table" } else { "" }, if self.lexer { "" } else { " --no-lexer" }, self.name)
    }
}

/// One schedule: orders of iteration, hash keys, addresses.
#[derive(Clone, Default)]
struct Plan {
    order: String,
    keys: u64,
    heap: String,
    base: bool,
}
impl Plan {
    fn show(&self) -> String {
        let mut v = Vec::new();
        if !self.order.is_empty() {
            v.push(format!("MC_ORDER={}", self.order));
        }
        if self.keys != 0 {
            v.push(format!("MC_KEYS={}", self.keys));
        }
        if !self.heap.is_empty() {
            v.push(format!("MC_HEAP={}", self.heap));
        }
        if self.base {
            v.push("MC_BASE=1".into());
        }
        if v.is_empty() {
            v.push("the first order everywhere".into());
        }
        v.join(" ")
    }
}

#[derive(PartialEq, Clone)]
struct Seen {
    code: Option<i32>,
    out: String,
    err: String,
    files: BTreeMap<String, Vec<u8>>,
}

struct Env {
    so: PathBuf,
    base: PathBuf,
}

/// Thread numbers in panic messages are the operating system's.
fn normal(s: &str) -> String {
    let mut o = String::new();
    for l in s.lines() {
        match (l.find("thread '"), l.find("') (").or(l.find("' (")), l.find(") panicked")) {
            (Some(a), Some(b), Some(c)) if a < b && b < c => {
                o.push_str(&l[..b]);
                o.push_str(&l[c..]);
            }
            _ => o.push_str(l),
        }
        o.push('\n');
    }
    o
}

fn prepare(env: &Env, s: &Setup) -> PathBuf {
    let dir = fresh_dir(&env.base, "order");
    std::fs::write(dir.join("g.lapex"), &s.grammar).unwrap();
    dir
}

/// Runs with a plan in a directory; `ordinary` with the ordinary command line, as users have it.
fn go(env: &Env, s: &Setup, dir: &Path, p: &Plan, log: bool, ordinary: bool) -> Result<(Seen, Vec<usize>), Ran> {
    let t = dir.join("t");
    let _ = std::fs::remove_dir_all(&t);
    std::fs::create_dir(&t).unwrap();
    let mut c = Command::new(if ordinary { LAPEX } else { ORDERED });
    c.args(["generate", "-l", s.lang.arg(), "-a", s.algo.arg()]);
    if s.table {
        c.arg("--table");
    }
    if !s.lexer {
        c.arg("--no-lexer");
    }
    c.args(["--target", "t", "g.lapex"]).current_dir(dir).env("RUST_BACKTRACE", "0");
    let l = dir.join("log");
    if !ordinary {
        c.env("LD_PRELOAD", &env.so).env("MC_HEAP", if p.heap.is_empty() { "a" } else { &p.heap });
        if !p.order.is_empty() {
            c.env("MC_ORDER", &p.order);
        }
        c.env("MC_KEYS", p.keys.to_string());
        if p.base {
            c.env("MC_BASE", "1");
        }
        if log {
            c.env("MC_LOG", &l);
        }
    }
    let r = run(c, dir, GEN_LIMIT);
    if r.timeout {
        return Err(r);
    }
    let points = if log { std::fs::read(&l).unwrap_or_default().chunks(4).map(|b| u32::from_le_bytes(b.try_into().unwrap()) as usize).collect() } else { vec![] };
    Ok((Seen { code: r.code, out: normal(&r.out), err: normal(&r.err), files: tree(&t) }, points))
}

fn difference(a: &Seen, b: &Seen) -> Option<String> {
    if a.code != b.code {
        return Some(format!("the exit status is {:?} and was {:?}; stderr:\n{}\nwas:\n{}", b.code, a.code, b.err, a.err));
    }
    for (n, w) in &a.files {
        match b.files.get(n) {
            None => return Some(format!("{} is missing", n)),
            Some(g) if g != w => {
                let (w, g) = (String::from_utf8_lossy(w).to_string(), String::from_utf8_lossy(g).to_string());
                let at = w.lines().zip(g.lines()).position(|(x, y)| x != y).unwrap_or(w.lines().count().min(g.lines().count()));
                return Some(format!("{} differs at line {}:\n{}\nwas:\n{}", n, at + 1, g.lines().nth(at).unwrap_or("(end)"), w.lines().nth(at).unwrap_or("(end)")));
            }
            _ => {}
        }
    }
    if let Some(n) = b.files.keys().find(|n| !a.files.contains_key(*n)) {
        return Some(format!("{} was not there", n));
    }
    if a.out != b.out {
        return Some(format!("stdout is\n{}\nwas:\n{}", b.out, a.out));
    }
    if a.err != b.err {
        return Some(format!("stderr is\n{}\nwas:\n{}", b.err, a.err));
    }
    None
}

struct Base {
    setup: Setup,
    seen: Seen,
    points: Vec<usize>,
}

/// The reference run, checked against a second one and against the ordinary command line.
fn reference(env: &Env, s: &Setup, tally: &mut Tally) -> Result<Base, Fail> {
    let dir = prepare(env, s);
    let no_end = |r: Ran| Fail::new(format!("{} no end", s.brief()), format!("{}: {}\ngrammar:\n{}", s.brief(), r.describe(), s.grammar));
    let (seen, points) = go(env, s, &dir, &Plan::default(), true, false).map_err(no_end)?;
    for ordinary in [false, true] {
        let (again, _) = go(env, s, &dir, &Plan::default(), false, ordinary).map_err(no_end)?;
        if let Some(d) = difference(&seen, &again) {
            return Err(Fail::new(
                format!("{} again", s.brief()),
                format!("{}: running it again{} gives something else: {}\ngrammar:\n{}", s.brief(), if ordinary { " with the ordinary standard library" } else { "" }, d, s.grammar),
            ));
        }
    }
    tally.add("traces_validated_against_impl", 1);
    let _ = std::fs::remove_dir_all(&dir);
    Ok(Base { setup: s.clone(), seen, points })
}

/// Orders of `n` elements other than the first one: all of them up to `all` elements, else the reversed one, the
/// rotated ones, each element first, neighbours swapped.
fn orders(n: usize, all: usize) -> Vec<u64> {
    if n <= all {
        let f: u64 = (1..=n as u64).product();
        return (1..f).map(|i| 1000 + i).collect();
    }
    let mut v = vec![1, 2, 3, 6];
    if n <= 32 {
        v.extend((1..n as u64).map(|i| 100 + i));
        v.extend((0..n as u64 - 1).map(|i| 300 + i));
    } else {
        v.extend([4, 5]);
    }
    v
}

struct Case {
    base: usize,
    plan: Plan,
    /// also every second deviation at a later point
    second: Option<usize>,
}

fn check(env: &Env, bases: &[Base], c: &Case, tally: &mut Tally) -> Outcome {
    let b = &bases[c.base];
    let dir = prepare(env, &b.setup);
    let judge = |p: &Plan, r: Result<(Seen, Vec<usize>), Ran>| -> Result<Vec<usize>, Fail> {
        let say = |e: String| Fail::new(format!("{} {}", b.setup.brief(), p.show()), format!("{} with {}: {}\ngrammar:\n{}", b.setup.brief(), p.show(), e, b.setup.grammar));
        match r {
            Err(r) => Err(say(r.describe())),
            Ok((s, l)) => match difference(&b.seen, &s) {
                Some(d) => Err(say(d)),
                None => Ok(l),
            },
        }
    };
    let points = judge(&c.plan, go(env, &b.setup, &dir, &c.plan, c.second.is_some(), false))?;
    tally.add("schedules", 1);
    if let Some(k) = c.second {
        for j in k + 1..points.len() {
            for code in orders(points[j], 3) {
                let p = Plan { order: format!("{},{}:{}", c.plan.order, j, code), ..c.plan.clone() };
                judge(&p, go(env, &b.setup, &dir, &p, false, false))?;
                tally.add("schedules", 1);
                tally.add("schedules with two deviations", 1);
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

/// Grammar files whose diagnostics or lexers have something to order.
fn texts() -> Vec<(&'static str, String)> {
    let mut v = vec![
        ("ties", "token A = \"ab\";\ntoken B = /a./;\ntoken C = /.b/;\ntoken D = /[a-c]b/;\nentry s;\nprod s = A B C D;\n"),
        ("resolved ties", "prec(3) token A = \"ab\";\nprec(2) token B = /a./;\nprec(1) token C = /.b/;\nentry s;\nprod s = A B C | C s;\n"),
        ("keywords", "token IF = \"if\";\ntoken IN = \"in\";\ntoken INT = \"int\";\ntoken ID = /[a-z][a-z0-9_]*/;\ntoken NUM = /[0-9]+(\\.[0-9]+)?/;\ntoken WS = /[ \\t\\n]+/;\nprec(1) token X = /i[f-n]t?/;\nentry s;\nprod s = IF ID | IN NUM | INT WS | X;\n"),
        ("unknown symbols", "token A = \"a\";\nentry s;\nprod s = A x y | z A | w;\nprod t = u | x;\n"),
        ("duplicates", "token A = \"a\";\ntoken A = \"b\";\ntoken B = \"a\";\nentry s;\nprod s = A | A | B B | B B;\nprod s = A;\n"),
        ("unread", "token A = \"a\nprod s = ;\n"),
        ("no entry", "token A = \"a\";\nprod s = A;\n"),
        ("unproductive", "token A = \"a\";\nentry s;\nprod s = A x | A y;\nprod x = A x;\nprod y = y;\n"),
        ("conflicts", "token A = \"a\"; token B = \"b\"; token C = /c+|d/;\nentry s;\nprod s = s x y | y x? A;\nprod x = A B* | C;\nprod y = (A | B)+ | C;\n"),
        ("many conflicts", "token P = \"+\"; token M = \"*\"; token N = \"1\"; token L = \"(\"; token R = \")\";\nentry e;\nprod e = e P e | e M e | L e R | N | f;\nprod f = N | g;\nprod g = N | e e;\n"),
        ("one", "token A = \"a\";\nentry s;\nprod s = A;\n"),
        ("two", "token A = \"a\";\ntoken B = /b|c/;\nentry s;\nprod s = A x | B;\nprod x = s B | A;\n"),
    ]
    .into_iter()
    .map(|(n, t)| (n, t.to_string()))
    .collect::<Vec<_>>();
    for (n, p) in [("lapex.lapex", "/repo/lapex-input-gen/src/lapex.lapex"), ("sql", "/repo/example/sql.lapex"), ("test2", "/repo/example/test2.lapex"), ("test5", "/repo/example/test5.lapex")] {
        if let Ok(t) = std::fs::read_to_string(p) {
            v.push((n, t));
        }
    }
    v
}

pub fn c22(ctx: &Ctx) {
    let base = ctx.scratch();
    let c = base.join("heap.c");
    std::fs::write(&c, SOURCE).unwrap();
    let so = base.join("heap.so");
    let ok = Command::new("gcc").args(["-shared", "-fPIC", "-O1", "-w", "-o"]).arg(&so).arg(&c).status().unwrap();
    assert!(ok.success(), "the allocator does not compile");
    let env = Env { so, base: base.clone() };

    // every deviation
    let mut deep: Vec<(String, String)> = texts().into_iter().map(|(n, t)| (n.to_string(), t)).collect();
    let of = |v: Vec<Spec>| v.into_iter().map(|s| (s.label.clone(), s.text())).collect::<Vec<_>>();
    deep.extend(of(every(fam::shapes(), ctx.pick(6, 1))));
    deep.extend(of(every(fam::contexts(), ctx.pick(60, 6))));
    deep.extend(of(every(fam::tagged(), ctx.pick(24, 4))));
    deep.extend(of(every(fam::followers(2), ctx.pick(40, 8))));
    deep.extend(of(every(fam::operators(2), ctx.pick(400, 40))));
    let deep_n = deep.len();
    // the same deviation everywhere, or from some point on
    let mut wide: Vec<(String, String)> = Vec::new();
    wide.extend(of(fam::shapes()));
    wide.extend(of(every(fam::contexts(), ctx.pick(8, 1))));
    wide.extend(of(every(fam::tagged(), ctx.pick(8, 1))));
    wide.extend(of(every(fam::ebnf_single(4), ctx.pick(16, 1))));
    wide.extend(of(every(fam::ebnf_double(3), ctx.pick(64, 4))));
    wide.extend(of(every(fam::reachable(fam::plain(2, 2, 4, 6, 3)), ctx.pick(512, 16))));
    let mut setups = Vec::new();
    for (i, (name, grammar)) in deep.into_iter().chain(wide).enumerate() {
        for (j, (algo, lang)) in combos().into_iter().enumerate() {
            let small = i >= deep_n;
            // the wide families: two of the option sets each in the quick run
            if small && !ctx.thorough() && (i + j) % 4 != 0 {
                continue;
            }
            setups.push(Setup { name: name.clone(), grammar: grammar.clone(), algo, lang, table: true, lexer: !small || (i + j) % 3 == 0 });
        }
    }
    let deep_names: std::collections::BTreeSet<String> = setups.iter().take(deep_n * combos().len()).map(|s| s.brief()).collect();
    let bases = Mutex::new(Vec::new());
    let numbered: Vec<(usize, Setup)> = setups.into_iter().enumerate().collect();
    ctx.par(&numbered, LIMIT, |(_, s)| s.brief(), |(i, s), t| {
        let b = reference(&env, s, t)?;
        bases.lock().unwrap().push((*i, b));
        Ok(())
    });
    let mut bases = bases.into_inner().unwrap();
    bases.sort_by_key(|x| x.0);
    let bases: Vec<Base> = bases.into_iter().map(|x| x.1).collect();
    ctx.count("reference runs", bases.len() as u64);
    ctx.count("states", bases.iter().map(|b| b.points.len() as u64).sum());
    ctx.count("choice points of the reference runs", bases.iter().map(|b| b.points.len() as u64).sum());
    ctx.count("largest choice", bases.iter().flat_map(|b| b.points.iter().copied()).max().unwrap_or(0) as u64);
    ctx.count("reference runs that are refused", bases.iter().filter(|b| b.seen.code != Some(0)).count() as u64);
    let mut cases = Vec::new();
    let all = ctx.pick(4, 5);
    for (i, b) in bases.iter().enumerate() {
        let mut add = |p: Plan, second| cases.push(Case { base: i, plan: p, second });
        let order = |s: String| Plan { order: s, ..Plan::default() };
        let deep = deep_names.contains(&b.setup.brief());
        for code in 1..=6 {
            add(order(format!("@0:{}", code)), None);
        }
        for keys in 1..=ctx.pick(2, 16) {
            add(Plan { keys, ..Plan::default() }, None);
            add(Plan { keys, heap: "d".into(), order: "@0:1".into(), base: true }, None);
        }
        for heap in ["d", "r", "b0", "b1", "b2"] {
            add(Plan { heap: heap.into(), ..Plan::default() }, None);
        }
        add(Plan { base: true, ..Plan::default() }, None);
        if !deep {
            continue;
        }
        for k in 0..19 {
            for c in ["b", "B"] {
                add(Plan { heap: format!("{}{}", c, k), ..Plan::default() }, None);
            }
            add(Plan { heap: format!("t{}", 1usize << k), ..Plan::default() }, None);
        }
        // long runs: every k-th choice point in the quick run
        let step = if ctx.thorough() { b.points.len() / 2000 + 1 } else { b.points.len() / 60 + 1 };
        for (k, n) in b.points.iter().enumerate() {
            if k % step != 0 {
                continue;
            }
            if k > 0 {
                add(order(format!("@{}:1", k)), None);
            }
            let pairs = ctx.thorough() && b.points.len() <= 40 && b.setup.name.len() <= 3 || b.points.len() <= 12 && b.setup.name == "two";
            for code in orders(*n, all) {
                add(order(format!("{}:{}", k, code)), (pairs && code == orders(*n, all)[0]).then_some(k));
            }
        }
    }
    ctx.count("planned schedules", cases.len() as u64);
    for c in cases.iter().step_by((cases.len() / 8).max(1)) {
        ctx.sample(format!("{}: {}", bases[c.base].setup.brief(), c.plan.show()));
    }
    ctx.par(&cases, LIMIT, |c| format!("{}: {}", bases[c.base].setup.brief(), c.plan.show()), |c, t| check(&env, &bases, c, t));
    ctx.count("transitions", ctx.get("schedules"));
    ctx.assume("the order of an iteration does not change between two iterations of an unchanged map in the real library; the enumerated orders are a superset");
    ctx.assume("hash maps other than those of the standard library are not used");
}
