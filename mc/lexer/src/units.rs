//! C24: templates and the routing of generated files. C25: the subset construction on its own.
use lapex_automaton::{AutomatonState, Nfa};
use lapex_codegen::{GeneratedCodeWriter, Template};
use mccore::run::{catch, Ctx, Fail, Outcome, Tally};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::io::{Error, ErrorKind, Write};
use std::rc::Rc;
use std::time::Duration;

const LIMIT: Duration = Duration::from_secs(300);

// ---------------------------------------------------------------- C24: templates

/// What a failing writer or generator can report; an interruption is not a failure.
const KINDS: [ErrorKind; 20] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::WriteZero,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::AlreadyExists,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::StorageFull,
];
thread_local! { static KIND: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
fn kind() -> ErrorKind {
    KINDS[KIND.with(|k| k.get())]
}
/// Runs `f` with each kind of failure in turn.
fn each_kind(f: &mut dyn FnMut() -> Outcome) -> Outcome {
    for k in 0..KINDS.len() {
        KIND.with(|c| c.set(k));
        let r = f();
        KIND.with(|c| c.set(0));
        r.map_err(|f| Fail::new(format!("{} {:?}", f.key, KINDS[k]), format!("failures are of kind {:?}: {}", KINDS[k], f.detail)))?;
    }
    Ok(())
}

const PIECES: [&str; 12] = ["/*{", "}*/", "k", "/*", "*/", "{", "}", " ", "\n", "é", "x", "\t"];
const KEYS: [(&str, &str); 5] = [("k", "[K]"), ("", "[]"), ("é", "/*{k}*/"), ("x", ""), ("kx", "a\nb")];

#[derive(Debug, PartialEq)]
enum Part<'a> {
    Text(&'a str),
    Hole(&'a str),
}

/// The parts of a template: a placeholder reaches from `/*{` to the next `}*/` on the same line.
fn parts(s: &str) -> Vec<Part<'_>> {
    let mut v = Vec::new();
    let mut from = 0;
    let mut i = 0;
    while i < s.len() {
        if s[i..].starts_with("/*{") {
            let line = &s[i + 3..];
            let line = &line[..line.find('\n').unwrap_or(line.len())];
            if let Some(n) = line.find("}*/") {
                v.push(Part::Text(&s[from..i]));
                v.push(Part::Hole(line[..n].trim()));
                i += 3 + n + 3;
                from = i;
                continue;
            }
        }
        i += s[i..].chars().next().unwrap().len_utf8();
    }
    v.push(Part::Text(&s[from..]));
    v
}

/// A writer with a fault: fails when `room` bytes are written, takes at most `step` bytes at a time, and is
/// interrupted before every call if `eintr`.
struct Faulty {
    out: Rc<RefCell<Vec<u8>>>,
    room: usize,
    step: usize,
    eintr: bool,
    turn: bool,
}
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.eintr {
            self.turn = !self.turn;
            if self.turn {
                return Err(Error::from(ErrorKind::Interrupted));
            }
        }
        let n = b.len().min(self.step).min(self.room - self.out.borrow().len());
        if n == 0 && !b.is_empty() {
            return Err(Error::new(kind(), "full"));
        }
        self.out.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Writes a template with the keys of `given`; the text of key `bad` cannot be produced.
fn fill(t: &str, given: u32, bad: Option<usize>, room: usize, step: usize, eintr: bool) -> (Result<Result<(), String>, String>, Vec<u8>, Vec<usize>) {
    let out = Rc::new(RefCell::new(Vec::new()));
    let calls = Rc::new(RefCell::new(Vec::new()));
    let (o, c) = (out.clone(), calls.clone());
    let r = catch(move || {
        let template = Template::new(t);
        let mut w = template.writer();
        for (i, (k, text)) in KEYS.iter().enumerate() {
            if given >> i & 1 == 1 {
                let calls = c.clone();
                w.substitute(k, move |f| {
                    calls.borrow_mut().push(i);
                    if bad == Some(i) {
                        return Err(Error::new(kind(), "no text"));
                    }
                    f.write_all(text.as_bytes())
                });
            }
        }
        let mut f = Faulty { out: o, room, step, eintr, turn: false };
        w.write(&mut f).map_err(|e| e.to_string())
    });
    let o = out.borrow().clone();
    let c = calls.borrow().clone();
    (r, o, c)
}

fn template(t: &str, deep: bool, tally: &mut Tally) -> Outcome {
    let ps = parts(t);
    let keys: Vec<&str> = ps.iter().filter_map(|p| if let Part::Hole(k) = p { Some(*k) } else { None }).collect();
    let used: Vec<Option<usize>> = keys.iter().map(|k| KEYS.iter().position(|(n, _)| n == k)).collect();
    let say = |how: String, e: String| Err(Fail::new(format!("template {:?} {}", t, how), format!("the template {:?} {}: {}; keys and texts: {:?}", t, how, e, KEYS)));
    let mut want = Vec::new();
    for p in &ps {
        match p {
            Part::Text(x) => want.extend_from_slice(x.as_bytes()),
            Part::Hole(k) => want.extend_from_slice(KEYS.iter().find(|(n, _)| n == k).map_or("", |x| x.1).as_bytes()),
        }
    }
    let all = (1u32 << KEYS.len()) - 1;
    let mut one = |how: &str, given: u32, bad: Option<usize>, room: usize, step: usize, eintr: bool| -> Outcome {
        let (r, out, calls) = fill(t, given, bad, room, step, eintr);
        tally.add("states", 1);
        tally.add("transitions", ps.len() as u64);
        tally.add("traces_validated_against_impl", 1);
        // where it has to stop
        let mut upto = Vec::new();
        let mut asked = Vec::new();
        let mut stop = None;
        for p in &ps {
            match p {
                Part::Text(x) => upto.extend_from_slice(x.as_bytes()),
                Part::Hole(k) => match KEYS.iter().position(|(n, _)| n == k).filter(|i| given >> i & 1 == 1) {
                    None => stop = Some("missing"),
                    Some(i) => {
                        if upto.len() <= room {
                            asked.push(i);
                        }
                        if bad == Some(i) {
                            stop = Some("bad");
                        } else {
                            upto.extend_from_slice(KEYS[i].1.as_bytes());
                        }
                    }
                },
            }
            if stop.is_some() {
                break;
            }
        }
        if upto.len() > room {
            upto.truncate(room);
            stop = Some("full");
        }
        let got = String::from_utf8_lossy(&out).to_string();
        match (&r, stop) {
            (Ok(Ok(())), None) => {
                if out != want {
                    return say(how.into(), format!("{:?} is written instead of {:?}", got, String::from_utf8_lossy(&want)));
                }
            }
            (Ok(Ok(())), Some(s)) => return say(how.into(), format!("success is reported ({})", s)),
            (Ok(Err(e)), None) => return say(how.into(), format!("fails with {}", e)),
            (Err(e), None) => return say(how.into(), format!("panics with {}", e)),
            (Err(_), Some("missing")) | (Ok(Err(_)), Some(_)) => {
                if out != upto {
                    return say(how.into(), format!("{:?} is written before the failure, it should be {:?}", got, String::from_utf8_lossy(&upto)));
                }
            }
            (Err(e), Some(_)) => return say(how.into(), format!("panics with {}", e)),
        }
        if calls != asked {
            return say(how.into(), format!("the texts {:?} were asked for instead of {:?}", calls, asked));
        }
        Ok(())
    };
    one("with all keys", all, None, usize::MAX, usize::MAX, false)?;
    if !deep {
        return Ok(());
    }
    one("one byte at a time", all, None, usize::MAX, 1, false)?;
    one("interrupted, two bytes at a time", all, None, usize::MAX, 2, true)?;
    let mut u: Vec<usize> = used.iter().flatten().copied().collect();
    u.sort();
    u.dedup();
    for i in &u {
        one(&format!("without key {:?}", KEYS[*i].0), all & !(1 << i), None, usize::MAX, usize::MAX, false)?;
        one(&format!("with only key {:?}", KEYS[*i].0), 1 << i, None, usize::MAX, usize::MAX, false)?;
        one(&format!("with a failing text of {:?}", KEYS[*i].0), all, Some(*i), usize::MAX, usize::MAX, false)?;
    }
    one("with no keys", 0, None, usize::MAX, usize::MAX, false)?;
    for room in 0..want.len() {
        one(&format!("with room for {} bytes", room), all, None, room, usize::MAX, false)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C24: routing

const NAMES: [&str; 3] = ["a.x", "b.x", "a.x2"];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// name, what is written, whether the generator then fails
    Gen(usize, usize, bool),
}
const TEXTS: [&str; 3] = ["", "12", "3456789"];

struct Sink {
    name: &'static str,
    log: Rc<RefCell<Vec<(&'static str, Vec<u8>)>>>,
    at: usize,
    room: usize,
    pending: Vec<u8>,
    lazy: bool,
}
impl Sink {
    fn put(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut l = self.log.borrow_mut();
        let v = &mut l[self.at].1;
        let n = b.len().min(self.room - v.len());
        if n == 0 && !b.is_empty() {
            return Err(Error::new(kind(), self.name));
        }
        v.extend_from_slice(&b[..n]);
        Ok(n)
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.lazy {
            self.pending.extend_from_slice(b);
            return Ok(b.len());
        }
        self.put(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let p = std::mem::take(&mut self.pending);
        let mut at = 0;
        while at < p.len() {
            at += self.put(&p[at..])?;
        }
        Ok(())
    }
}

/// One history: which names have a target of their own, which default files cannot be made, how much room each
/// default file has, whether it holds its bytes back until it is flushed; and the calls.
fn route(own: u32, broken: u32, room: usize, lazy: bool, ops: &[Op], tally: &mut Tally) -> Outcome {
    let how = format!("targets {:03b}, failing {:03b}, room {}, {}, {:?}", own, broken, room, if lazy { "buffered" } else { "direct" }, ops);
    let say = |e: String| Err(Fail::new(format!("routing {}", how), format!("with {}: {}", how, e)));
    tally.add("states", 1);
    tally.add("transitions", ops.len() as u64);
    tally.add("traces_validated_against_impl", 1);
    let log: Rc<RefCell<Vec<(&'static str, Vec<u8>)>>> = Default::default();
    let mut targets: Vec<Vec<u8>> = vec![Vec::new(); NAMES.len()];
    let mut results = Vec::new();
    {
        let l = log.clone();
        let mut g = GeneratedCodeWriter::with_default(move |name| {
            if NAMES.iter().position(|n| *n == name).map_or(true, |i| broken >> i & 1 == 1) {
                return Err(Error::new(kind(), "cannot be made"));
            }
            let at = l.borrow().len();
            l.borrow_mut().push((name, Vec::new()));
            Ok(Sink { name, log: l.clone(), at, room, pending: vec![], lazy })
        });
        for (i, t) in targets.iter_mut().enumerate() {
            if own >> i & 1 == 1 {
                g.add_target(NAMES[i], t);
            }
        }
        for Op::Gen(n, t, bad) in ops {
            let r = catch(|| {
                g.generate_code(NAMES[*n], |f| {
                    f.write_all(TEXTS[*t].as_bytes())?;
                    if *bad {
                        return Err(Error::new(kind(), "generator"));
                    }
                    Ok(())
                })
            });
            match r {
                Err(p) => return say(format!("panics with {}", p)),
                Ok(r) => results.push(r.is_ok()),
            }
        }
    }
    let mut files: Vec<(&str, Vec<u8>)> = Vec::new();
    let mut mine: Vec<Vec<u8>> = vec![Vec::new(); NAMES.len()];
    for (k, Op::Gen(n, t, bad)) in ops.iter().enumerate() {
        let text = TEXTS[*t].as_bytes();
        let ok;
        if own >> n & 1 == 1 {
            mine[*n].extend_from_slice(text);
            ok = !bad;
        } else if broken >> n & 1 == 1 {
            ok = false;
        } else {
            ok = !bad && text.len() <= room;
            // after a failed generator it does not matter what a buffered file holds
            files.push((NAMES[*n], text[..text.len().min(room)].to_vec()));
        }
        if results[k] != ok {
            return say(format!("call {} {} but should {}", k, if results[k] { "succeeds" } else { "fails" }, if ok { "succeed" } else { "fail" }));
        }
    }
    if targets != mine {
        return say(format!("the targets hold {:?} instead of {:?}", targets, mine));
    }
    let log = log.borrow();
    if log.len() != files.len() || log.iter().zip(&files).any(|(a, b)| a.0 != b.0) {
        return say(format!("the files made are {:?} instead of {:?}", log.iter().map(|x| x.0).collect::<Vec<_>>(), files.iter().map(|x| x.0).collect::<Vec<_>>()));
    }
    let mut made = 0;
    for Op::Gen(n, _, bad) in ops {
        if own >> n & 1 == 0 && broken >> n & 1 == 0 {
            if !(*bad && lazy) && log[made].1 != files[made].1 {
                return say(format!("{} holds {:?} instead of {:?}", files[made].0, log[made].1, files[made].1));
            }
            made += 1;
        }
    }
    Ok(())
}

pub fn c24(ctx: &Ctx) {
    // templates, by their first pieces
    let max = ctx.pick(5, 6);
    let deep = ctx.pick(4, 5);
    let mut groups: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..PIECES.len() {
        groups.push(vec![a]);
        for b in 0..PIECES.len() {
            groups.push(vec![a, b]);
        }
    }
    fn all(cur: &mut Vec<usize>, max: usize, f: &mut dyn FnMut(&[usize]) -> Outcome) -> Outcome {
        f(cur)?;
        if cur.len() < max {
            for i in 0..PIECES.len() {
                cur.push(i);
                let r = all(cur, max, f);
                cur.pop();
                r?;
            }
        }
        Ok(())
    }
    ctx.par(
        &groups,
        LIMIT,
        |g| format!("all templates of up to {} pieces starting with {:?}", if g.len() < 2 { g.len() } else { max }, g.iter().map(|i| PIECES[*i]).collect::<String>()),
        |g, tally| {
            all(&mut g.clone(), if g.len() < 2 { g.len() } else { max }, &mut |s| {
                let t: String = s.iter().map(|i| PIECES[*i]).collect();
                template(&t, s.len() <= deep, tally)
            })
        },
    );
    // placeholders and texts in a row
    let rows = ["/*{k}*/", "/*{ k }*/", "/*{}*/", "/*{\té }*/", "/*{kx}*/", "/*{x}*/", "text", "\n", "/*{k", "}*/", "/* no */", "/*{nokey}*/", "é😀"];
    let n = ctx.pick(4, 5);
    let mut rg: Vec<Vec<usize>> = Vec::new();
    for a in 0..rows.len() {
        for b in 0..rows.len() {
            rg.push(vec![a, b]);
        }
    }
    ctx.par(
        &rg,
        LIMIT,
        |g| format!("rows starting with {:?}", g.iter().map(|i| rows[*i]).collect::<String>()),
        |g, tally| {
            fn go(cur: &mut Vec<usize>, k: usize, max: usize, f: &mut dyn FnMut(&[usize]) -> Outcome) -> Outcome {
                f(cur)?;
                if cur.len() < max {
                    for i in 0..k {
                        cur.push(i);
                        let r = go(cur, k, max, f);
                        cur.pop();
                        r?;
                    }
                }
                Ok(())
            }
            go(&mut g.clone(), rows.len(), n, &mut |s| {
                let t: String = s.iter().map(|i| rows[*i]).collect();
                if s.len() <= 2 {
                    each_kind(&mut || template(&t, true, tally))?;
                }
                template(&t, s.len() <= 3, tally)
            })
        },
    );
    // large templates
    let mut large = vec!["/*{k}*/".repeat(3000), format!("{}/*{{k}}*/{}", "x".repeat(100_000), "é".repeat(50_000)), format!("/*{{{}k}}*/", " ".repeat(70_000))];
    large.push((0..2000).map(|i| format!("line {} /*{{ kx }}*/ /*{{é}}*/\n", i)).collect());
    ctx.par(&large, LIMIT, |t| format!("template of {} bytes", t.len()), |t, tally| {
        template(t, false, tally).map_err(|f| Fail::new(format!("large template of {} bytes", t.len()), f.detail.chars().take(500).collect::<String>()))
    });
    // routing: every history of bounded length
    let mut ops = Vec::new();
    for n in 0..NAMES.len() {
        for t in 0..TEXTS.len() {
            for bad in [false, true] {
                ops.push(Op::Gen(n, t, bad));
            }
        }
    }
    let mut conf = Vec::new();
    for own in 0..8u32 {
        for broken in 0..8u32 {
            for room in [0usize, 1, 2, 6, 7, 100] {
                for lazy in [false, true] {
                    conf.push((own, broken, room, lazy));
                }
            }
        }
    }
    let depth = ctx.pick(3, 4);
    ctx.count("routing configurations", conf.len() as u64);
    ctx.par(
        &conf,
        LIMIT,
        |c| format!("routing {:?}", c),
        |(own, broken, room, lazy), tally| {
            fn go(cur: &mut Vec<Op>, ops: &[Op], max: usize, f: &mut dyn FnMut(&[Op]) -> Outcome) -> Outcome {
                f(cur)?;
                if cur.len() < max {
                    for o in ops {
                        cur.push(*o);
                        let r = go(cur, ops, max, f);
                        cur.pop();
                        r?;
                    }
                }
                Ok(())
            }
            go(&mut vec![], &ops, depth, &mut |s| {
                if s.len() <= 2 {
                    each_kind(&mut || route(*own, *broken, *room, *lazy, s, tally))?;
                }
                route(*own, *broken, *room, *lazy, s, tally)
            })
        },
    );
    ctx.sample(format!("{:?}", "/*{ k }*/x}*/"));
    ctx.sample(format!("routing {:?} {:?}", conf[40], &ops[..3]));
    ctx.info("bounds", format!("all templates of up to {} pieces out of {:?} (with every fault up to {} pieces), all rows of up to {} larger pieces, all histories of up to {} generated files over {} operations", max, PIECES, deep, n, depth, ops.len()));
}

// ---------------------------------------------------------------- C25

type Edge = (usize, usize, u8); // from, to, 0 for epsilon

#[derive(Clone)]
struct Auto {
    states: usize,
    edges: Vec<Edge>,
    entry: usize,
}

/// Labels by state: 0 for none.
fn subset(a: &Auto, labels: &[u8], tally: &mut Tally) -> Outcome {
    let show = || format!("{} states, entry {}, edges {:?}, accepting {:?}", a.states, a.entry, a.edges, labels);
    let say = |e: String| Err(Fail::new(format!("automaton {}", show()), format!("{} (an edge is from, to, symbol, with 0 for epsilon): {}", show(), e)));
    let mut nfa: Nfa<u8, u8> = Nfa::new();
    let ids: Vec<_> = labels.iter().map(|l| if *l == 0 { nfa.add_intermediate_state() } else { nfa.add_accepting_state(*l) }).collect();
    for (f, t, c) in &a.edges {
        if *c == 0 {
            nfa.add_epsilon_transition(ids[*f], ids[*t]);
        } else {
            nfa.add_transition(ids[*f], ids[*t], *c);
        }
    }
    let dfa = nfa.powerset_construction(ids[a.entry]);
    let states: HashMap<_, _> = dfa.states().collect();
    let first = dfa.states().next().map(|s| s.0);
    // the entry of the result is its first state
    let Some(start) = first else { return say("the result has no states".into()) };
    let close = |mut s: BTreeSet<usize>| {
        loop {
            let n = s.len();
            for (f, t, c) in &a.edges {
                if *c == 0 && s.contains(f) {
                    s.insert(*t);
                }
            }
            if s.len() == n {
                return s;
            }
        }
    };
    let mut seen = HashMap::new();
    let mut todo = VecDeque::new();
    let s0 = close([a.entry].into_iter().collect());
    seen.insert((start, s0.clone()), Vec::<u8>::new());
    todo.push_back((start, s0));
    while let Some((d, s)) = todo.pop_front() {
        let path = seen[&(d, s.clone())].clone();
        tally.add("states", 1);
        let mut want: Vec<u8> = s.iter().map(|i| labels[*i]).filter(|l| *l != 0).collect();
        want.sort();
        let mut got = match states[&d] {
            AutomatonState::Accepting(v) => {
                if v.is_empty() {
                    return say(format!("after {:?} the state accepts nothing", path));
                }
                v.clone()
            }
            AutomatonState::Intermediate(_) => vec![],
        };
        got.sort();
        got.dedup();
        want.dedup();
        if got != want {
            return say(format!("after {:?} the labels are {:?}, they should be {:?}", path, got, want));
        }
        let mut next = BTreeMap::new();
        for (c, t) in dfa.transitions_from(d) {
            if next.insert(*c, t).is_some() {
                return say(format!("after {:?} there are two transitions on {}", path, c));
            }
        }
        let mut by: BTreeMap<u8, BTreeSet<usize>> = BTreeMap::new();
        for (f, t, c) in &a.edges {
            if *c != 0 && s.contains(f) {
                by.entry(*c).or_default().insert(*t);
            }
        }
        if !by.keys().eq(next.keys()) {
            return say(format!("after {:?} there are transitions on {:?}, there should be on {:?}", path, next.keys().collect::<Vec<_>>(), by.keys().collect::<Vec<_>>()));
        }
        for (c, t) in by {
            tally.add("transitions", 1);
            let k = (next[&c], close(t));
            if !seen.contains_key(&k) {
                let mut p = path.clone();
                p.push(c);
                seen.insert(k.clone(), p);
                todo.push_back(k);
                if seen.len() > 10_000 {
                    return say("the result does not get back to known states".into());
                }
            }
        }
    }
    let reached: BTreeSet<_> = seen.keys().map(|(d, _)| *d).collect();
    if reached.len() != states.len() {
        return say(format!("{} states of the result cannot be reached", states.len() - reached.len()));
    }
    tally.add("traces_validated_against_impl", 1);
    Ok(())
}

pub fn c25(ctx: &Ctx) {
    // every set of edges up to a number, over 1 to 4 states and two symbols
    let bounds: Vec<(usize, usize)> = ctx.pick(vec![(1, 3), (2, 12), (3, 5), (4, 3)], vec![(1, 3), (2, 12), (3, 6), (4, 4), (5, 3)]);
    let mut autos: Vec<Auto> = Vec::new();
    for (n, max) in &bounds {
        let mut possible = Vec::new();
        for f in 0..*n {
            for t in 0..*n {
                for c in 0..3u8 {
                    possible.push((f, t, c));
                }
            }
        }
        fn sets(from: usize, left: usize, all: &[Edge], cur: &mut Vec<Edge>, out: &mut Vec<Vec<Edge>>) {
            out.push(cur.clone());
            if left > 0 {
                for i in from..all.len() {
                    cur.push(all[i]);
                    sets(i + 1, left - 1, all, cur, out);
                    cur.pop();
                }
            }
        }
        let mut out = Vec::new();
        sets(0, *max, &possible, &mut vec![], &mut out);
        for e in out {
            for entry in 0..*n {
                // without loss of generality it is the first state, but the numbers of states must not matter
                if entry > 0 && (e.len() > 3 || *n > 3) && !(ctx.thorough() && entry == n - 1) {
                    continue;
                }
                autos.push(Auto { states: *n, edges: e.clone(), entry });
                if e.len() <= 3 && *n <= 3 {
                    // parallel edges with the same symbol
                    for i in 0..e.len() {
                        let mut e2 = e.clone();
                        e2.push(e[i]);
                        autos.push(Auto { states: *n, edges: e2, entry });
                    }
                }
            }
        }
    }
    ctx.count("automata", autos.len() as u64);
    for a in autos.iter().step_by(autos.len() / 5) {
        ctx.sample(format!("{} states, entry {}, edges {:?}", a.states, a.entry, a.edges));
    }
    ctx.par(&autos, LIMIT, |a| format!("{} states, entry {}, edges {:?}", a.states, a.entry, a.edges), |a, t| {
        let n = 3u32.pow(a.states as u32);
        for l in 0..n {
            let labels: Vec<u8> = (0..a.states).map(|i| (l / 3u32.pow(i as u32) % 3) as u8).collect();
            subset(a, &labels, t)?;
        }
        Ok(())
    });
    // structured larger ones: k-th symbol from the end, chains and cycles of epsilon, many labels
    let mut large: Vec<(String, Auto, Vec<u8>)> = Vec::new();
    for k in 1..=10usize {
        let mut e = vec![(0, 0, 1), (0, 0, 2), (0, 1, 1)];
        e.extend((1..k).flat_map(|i| [(i, i + 1, 1), (i, i + 1, 2)]));
        let mut l = vec![0; k + 1];
        l[k] = 1;
        large.push((format!("symbol {} from the end", k), Auto { states: k + 1, edges: e, entry: 0 }, l));
    }
    // two sets that share all states but the one at a place: told apart by a label, a transition or both
    let shared: Vec<usize> = (1..=ctx.pick(24, 70)).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]).collect();
    for k in shared {
        for at in [0, 1, k / 2, k - 1, k] {
            for (accept, more, own) in [(true, false, true), (false, true, true), (true, true, true), (true, true, false)] {
                // states 0 (entry), then k + 2 of which place `at` and `at + 1` are the own ones
                let (x, y) = (1 + at, 2 + at);
                let mut e: Vec<Edge> = Vec::new();
                for i in 1..k + 3 {
                    if i != y {
                        e.push((0, i, 1));
                    }
                    // or the second set has one less
                    if i != x && (own || i != y) {
                        e.push((0, i, 2));
                    }
                }
                if more {
                    e.extend([(x, 0, 3), (y, x, 3)]);
                }
                let mut l = vec![0; k + 3];
                if accept {
                    l[x] = 1;
                    l[y] = 2;
                }
                large.push((format!("sets of {} that differ at place {}, accepting: {}, edges: {}, {}", k, at, accept, more, if own { "one each" } else { "one more" }), Auto { states: k + 3, edges: e, entry: 0 }, l));
            }
        }
    }
    for k in [2usize, 50, 300, 2000] {
        let l: Vec<u8> = (0..k).map(|i| (i % 7) as u8).collect();
        large.push((format!("epsilon cycle of {}", k), Auto { states: k, edges: (0..k).map(|i| (i, (i + 1) % k, 0)).collect(), entry: k / 2 }, l.clone()));
        large.push((format!("chain of {}", k), Auto { states: k, edges: (0..k - 1).map(|i| (i, i + 1, 1 + (i % 3) as u8)).collect(), entry: 0 }, l.clone()));
        large.push((format!("fan of {}", k), Auto { states: k, edges: (1..k).map(|i| (0, i, 1 + (i % 250) as u8)).collect(), entry: 0 }, l));
    }
    ctx.par(&large, LIMIT, |x| x.0.clone(), |(what, a, l), t| {
        subset(a, l, t).map_err(|f| Fail::new(what.clone(), f.detail.chars().take(800).collect::<String>()))
    });
    ctx.info("bounds", format!("automata with (states, edges) up to {:?} over two symbols and epsilon, with every labelling by none, 1, 2; parallel edges and every entry for up to 3 edges", bounds));
}
