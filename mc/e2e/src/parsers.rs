//! C10-C14, C21: generated parsers, compiled and run on every input of bounded length, against the
//! grammar's language and derivations.
use crate::batch::*;
use mccore::cfg::{all_strings, Bnf, Langs, Strings, Sym};
use mccore::cli::{supported, Algo, Lang};
use mccore::families as fam;
use mccore::lr::{automaton, ll1, Automaton, Kind};
use mccore::run::{Ctx, Fail, Outcome, Tally};
use mccore::spec::{Pat, Spec};
use mccore::trace::{replay, rules, show_events, show_word, Ev, Method, Sy};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::time::Duration;

pub const LIMIT: Duration = Duration::from_secs(800);

#[derive(Clone)]
pub struct Plan {
    pub spec: Spec,
    pub algo: Algo,
    pub lang: Lang,
    /// roughly how many input strings
    pub cap: usize,
    /// generated and compiled, not run
    pub still: bool,
}
impl Plan {
    pub fn brief(&self) -> String {
        format!("-l {} -a {} {}", self.lang.arg(), self.algo.arg(), self.spec.brief())
    }
}

// ---------------------------------------------------------------- model

pub struct Model {
    pub b: Bnf,
    k: usize,
    langs: Langs,
    lr1: RefCell<Option<(Automaton, bool)>>,
    viable: RefCell<HashMap<Vec<u16>, bool>>,
}
pub fn depth(m: usize, cap: usize) -> usize {
    let mut k = 1;
    while k < 8 && Strings::new(m, k + 1).total() <= cap {
        k += 1;
    }
    k
}
impl Model {
    pub fn new(spec: &Spec, cap: usize) -> Model {
        let b = spec.bnf();
        let k = depth(b.nt, cap);
        let langs = b.langs(k);
        Model { b, k, langs, lr1: RefCell::new(None), viable: RefCell::new(HashMap::new()) }
    }
    /// The model automaton if it has no conflicts, an Earley recognizer otherwise.
    fn long_run(&self, w: &[u16]) -> Result<(), usize> {
        if !self.decided() {
            return self.b.earley(w);
        }
        self.lr1.borrow().as_ref().unwrap().0.run(&self.b, w).map(|_| ())
    }
    /// whether the lalr automaton is the lr1 automaton
    fn merges_nothing(&self) -> bool {
        self.b.nt < 127 && self.b.rules.len() <= 200 && {
            self.decided();
            true
        } && automaton(&self.b, Kind::Lalr).states.len() == self.lr1.borrow().as_ref().unwrap().0.states.len()
    }
    /// whether the model automaton has no conflicts
    fn decided(&self) -> bool {
        let mut a = self.lr1.borrow_mut();
        let a = a.get_or_insert_with(|| {
            let a = automaton(&self.b, Kind::Lr1);
            let ok = a.conflicts(&self.b).is_empty();
            (a, ok)
        });
        a.1
    }
    pub fn accepts(&self, w: &[u16]) -> bool {
        if w.len() <= self.k {
            self.langs.has(self.b.start, self.langs.strings.index(w))
        } else if w.len() <= 60 {
            self.b.accepts(w)
        } else {
            self.long_run(w).is_ok()
        }
    }
    fn viable(&self, w: &[u16]) -> bool {
        if let Some(v) = self.viable.borrow().get(w) {
            return *v;
        }
        let v = self.b.viable_prefix(w);
        self.viable.borrow_mut().insert(w.to_vec(), v);
        v
    }
    /// For a string that is not a sentence: index of the first token that cannot continue a
    /// sentence (its length if that is the end of input). Every production must be productive.
    pub fn first_bad(&self, w: &[u16]) -> usize {
        if w.len() > 60 {
            return self.long_run(w).unwrap_err();
        }
        (0..w.len()).find(|i| !self.viable(&w[..=*i])).unwrap_or(w.len())
    }
    /// Shortest token string of each nonterminal.
    fn shortest(&self) -> Vec<Option<Vec<u16>>> {
        let b = &self.b;
        let mut best: Vec<Option<Vec<u16>>> = vec![None; b.nn];
        loop {
            let mut ch = false;
            for (l, r) in &b.rules {
                if let Some(w) = yield_of(r, &best) {
                    if best[*l as usize].as_ref().map_or(true, |o| w.len() < o.len()) {
                        best[*l as usize] = Some(w);
                        ch = true;
                    }
                }
            }
            if !ch {
                return best;
            }
        }
    }
    /// For every symbol A with S =>* pre A suf, A =>+ u A v (some token in u or v) and A =>* w: those five strings.
    fn recursions(&self) -> Vec<(Vec<u16>, Vec<u16>, Vec<u16>, Vec<u16>, Vec<u16>)> {
        let b = &self.b;
        let best = self.shortest();
        // the surroundings of every symbol inside a derivation of `from`, by a shortest chain of rules with tokens first
        let around = |from: u16| -> Vec<Option<(Vec<u16>, Vec<u16>)>> {
            let mut c: Vec<Option<(Vec<u16>, Vec<u16>)>> = vec![None; b.nn];
            let mut todo = vec![(from, vec![], vec![])];
            let mut at = 0;
            while at < todo.len() {
                let (l, pre, suf): (u16, Vec<u16>, Vec<u16>) = todo[at].clone();
                at += 1;
                for (_, r) in b.rules.iter().filter(|(x, _)| *x == l) {
                    for (i, s) in r.iter().enumerate() {
                        let Sym::N(n) = s else { continue };
                        let (Some(x), Some(y)) = (yield_of(&r[..i], &best), yield_of(&r[i + 1..], &best)) else { continue };
                        let (p, q) = ([pre.clone(), x].concat(), [y, suf.clone()].concat());
                        let old = &c[*n as usize];
                        if old.is_none() || old.as_ref().is_some_and(|o| o.0.is_empty() && o.1.is_empty() && p.len() + q.len() > 0) {
                            c[*n as usize] = Some((p.clone(), q.clone()));
                            todo.push((*n, p, q));
                        }
                    }
                }
            }
            c
        };
        let top = around(b.start);
        let mut out = Vec::new();
        for n in 0..b.nn {
            let (pre, suf) = match &top[n] {
                _ if n == b.start as usize => (vec![], vec![]),
                Some(x) => x.clone(),
                None => continue,
            };
            if let (Some((u, v)), Some(w)) = (&around(n as u16)[n], &best[n]) {
                if u.len() + v.len() > 0 {
                    out.push((pre, u.clone(), w.clone(), v.clone(), suf));
                }
            }
        }
        out.sort_by_key(|x| x.1.len() + x.3.len());
        out.truncate(4);
        out
    }
    /// A sentence through every rule that can take part in one.
    pub fn covering(&self) -> Vec<Vec<u16>> {
        let b = &self.b;
        let best = self.shortest();
        let mut ctx: Vec<Option<(Vec<u16>, Vec<u16>)>> = vec![None; b.nn];
        ctx[b.start as usize] = Some((vec![], vec![]));
        let mut todo = vec![b.start];
        let mut at = 0;
        while at < todo.len() {
            let l = todo[at];
            at += 1;
            let (pre, suf) = ctx[l as usize].clone().unwrap();
            for (_, r) in b.rules.iter().filter(|(x, _)| *x == l) {
                for (i, s) in r.iter().enumerate() {
                    if let Sym::N(n) = s {
                        if ctx[*n as usize].is_none() {
                            if let (Some(x), Some(y)) = (yield_of(&r[..i], &best), yield_of(&r[i + 1..], &best)) {
                                ctx[*n as usize] = Some(([pre.clone(), x].concat(), [y, suf.clone()].concat()));
                                todo.push(*n);
                            }
                        }
                    }
                }
            }
        }
        let mut out = BTreeSet::new();
        for (l, r) in &b.rules {
            if let (Some((p, s)), Some(w)) = (&ctx[*l as usize], yield_of(r, &best)) {
                let mut v = p.clone();
                v.extend(w);
                v.extend(s);
                out.insert(v);
            }
        }
        out.into_iter().collect()
    }
}
fn yield_of(r: &[Sym], best: &[Option<Vec<u16>>]) -> Option<Vec<u16>> {
    let mut w = Vec::new();
    for s in r {
        match s {
            Sym::T(t) => w.push(*t),
            Sym::N(n) => w.extend(best[*n as usize].as_ref()?),
        }
    }
    Some(w)
}

/// Sentences with a recursion of every symbol that has one, repeated until about `len` tokens are reached, and their
/// edits at the end. Grammars that the model automaton does not decide are left out, but for GLR parsers only those where
/// a short sentence is known to have two derivations.
pub fn pumped(m: &Model, len: usize, glr: bool) -> Vec<Vec<u16>> {
    let b = &m.b;
    if b.nn > 40 || b.rules.len() > 80 {
        return vec![];
    }
    let mut len = len;
    let mut out = Vec::new();
    for (pre, u, w, v, suf) in m.recursions() {
        if out.is_empty() && !m.decided() {
            if !glr || !b.all_productive() || !unambiguous(m) {
                return vec![];
            }
            len = len.min(160);
        }
        let n = len / (u.len() + v.len()) + 1;
        let x = [pre, u.repeat(n), w, v.repeat(n), suf].concat();
        for t in 0..b.nt.min(6) as u16 {
            out.push([&x[..], &[t][..]].concat());
            let mut y = x.clone();
            *y.last_mut().unwrap() = t;
            out.push(y);
        }
        out.push(x[..x.len() - 1].to_vec());
        out.push(x);
    }
    out
}

/// No sentence of up to some length has two derivations.
fn unambiguous(m: &Model) -> bool {
    let mut ws: Vec<Vec<u16>> = m.langs.words(m.b.start);
    ws.extend(m.covering());
    ws.iter().all(|w| w.len() > 30 || m.b.count_trees(w) == Some(1))
}

/// All strings up to a depth, longer sentences, and the one-token edits of some of those.
pub fn inputs(m: &Model, cap: usize) -> Vec<Vec<u16>> {
    let b = &m.b;
    let mut v = all_strings(b.nt, m.k);
    let mut seen: HashSet<Vec<u16>> = v.iter().cloned().collect();
    let mut long: Vec<Vec<u16>> = m.covering();
    let mut k2 = m.k;
    while k2 < 12 && Strings::new(b.nt, k2 + 1).total() <= 20_000 {
        k2 += 1;
    }
    if k2 > m.k {
        let l = b.langs(k2);
        let ws: Vec<Vec<u16>> = l.words(b.start).into_iter().filter(|w| w.len() > m.k).collect();
        // the shortest ones and the longest ones
        let n = cap / 8;
        if ws.len() > 2 * n {
            long.extend(ws[..n].iter().cloned());
            long.extend(ws[ws.len() - n..].iter().cloned());
        } else {
            long.extend(ws);
        }
    }
    let mut add = |w: Vec<u16>, v: &mut Vec<Vec<u16>>| {
        if seen.insert(w.clone()) {
            v.push(w);
        }
    };
    let mut edits = cap / 2;
    for w in long {
        if w.len() <= 400 && edits > 0 {
            for i in 0..=w.len() {
                let letters: Vec<u16> = if b.nt <= 8 { (0..b.nt as u16).collect() } else { vec![0, (b.nt / 2) as u16, b.nt as u16 - 1] };
                for t in letters {
                    let mut x = w.clone();
                    x.insert(i, t);
                    add(x, &mut v);
                    if i < w.len() {
                        let mut x = w.clone();
                        x[i] = t;
                        add(x, &mut v);
                    }
                    edits = edits.saturating_sub(2);
                }
                if i < w.len() {
                    let mut x = w.clone();
                    x.remove(i);
                    add(x, &mut v);
                }
                if edits == 0 {
                    break;
                }
            }
        }
        add(w, &mut v);
    }
    v
}

// ---------------------------------------------------------------- running

/// Runs the plans in batches; `check` judges one generated parser.
pub fn explore(ctx: &Ctx, plans: &[Plan], with_errors: bool, table: bool, check: impl Fn(&Job, &Done, &Model, &mut Tally) -> Outcome + Sync) {
    let mut groups: Vec<Vec<Plan>> = Vec::new();
    for lang in [Lang::Rust, Lang::Cpp] {
        let v: Vec<&Plan> = plans.iter().filter(|p| p.lang == lang).collect();
        let n = if lang == Lang::Rust { 24 } else { 20 };
        // large ones first, and not more of them in a batch than needed
        for c in v.chunks(n) {
            groups.push(c.iter().map(|p| (*p).clone()).collect());
        }
    }
    let base = ctx.scratch();
    if plans.iter().any(|p| p.lang == Lang::Cpp) {
        cpp_setup(&base);
    }
    ctx.par(
        &groups,
        LIMIT,
        |g| format!("{} parsers: {}", g.len(), g.iter().map(|p| p.brief()).collect::<Vec<_>>().join(" || ")),
        |g, tally| {
            let mut jobs = Vec::new();
            let mut models = Vec::new();
            for p in g {
                let m = Model::new(&p.spec, p.cap);
                let mut ins = if p.still { vec![] } else { inputs(&m, p.cap) };
                if !p.still {
                    let glr = p.algo == Algo::Glr;
                    let mut long = pumped(&m, 300, glr);
                    if ["list-left", "list-right", "dyck", "anbn"].contains(&p.spec.label.as_str()) {
                        long.extend(pumped(&m, if glr { 20_000 } else { 70_000 }, glr));
                    }
                    tally.add("inputs of 300 to 140000 tokens", long.len() as u64);
                    ins.extend(long);
                }
                if p.algo == Algo::Glr {
                    // the parser follows every derivation separately: bound their number, not just the length
                    let many = ins.iter().any(|w| w.len() <= 7 && m.accepts(w) && m.b.count_trees(w).map_or(true, |n| n > 10));
                    if many {
                        ins.retain(|w| w.len() <= 6);
                    }
                }
                if with_errors && p.algo == Algo::Glr {
                    // the token source fails after every prefix of a few strings
                    let mut more = HashSet::new();
                    for w in ins.iter().filter(|w| w.len() <= m.k.min(4)) {
                        let mut x = w.clone();
                        x.push(LEXERR);
                        more.insert(x.clone());
                        x.push(0);
                        more.insert(x);
                    }
                    let mut more: Vec<_> = more.into_iter().collect();
                    more.sort();
                    ins.extend(more);
                }
                let mut j = Job::new(&p.spec, p.algo, p.lang, ins);
                j.table = table;
                jobs.push(j);
                models.push(m);
            }
            let done = run_jobs(&base, &jobs);
            let mut bad = None;
            for ((j, d), m) in jobs.iter().zip(&done).zip(&models) {
                let r = check(j, d, m, tally);
                if let Err(f) = r {
                    bad = Some(Fail::new(format!("{} {}", j.brief(), f.key), format!("{}\ngrammar:\n{}command line: generate -l {} -a {}", f.detail, j.spec.text(), j.lang.arg(), j.algo.arg())));
                    break;
                }
                tally.add("parsers generated, compiled and run", d.recs.is_some() as u64);
                tally.add("parses explored", j.inputs.len() as u64 * d.recs.is_some() as u64);
                if let Some(Ok(recs)) = &d.recs {
                    tally.add("visitor calls replayed", recs.iter().map(|r| r.ev.len() as u64).sum());
                }
            }
            if std::env::var("KEEP").is_err() { cleanup(&done); }
            match bad {
                Some(f) => Err(f),
                None => Ok(()),
            }
        },
    );
}

pub fn fail(key: &str, detail: String) -> Outcome {
    Err(Fail::new(key, detail))
}

/// The runs of a generated parser; None if the generator refused the grammar.
pub fn recs_of<'a>(j: &Job, d: &'a Done, must: bool) -> Result<Option<&'a Vec<Rec>>, Fail> {
    match &d.recs {
        // whether a repetition of something empty causes conflicts depends on how it is expanded
        None if must && !j.spec.prods.iter().any(|p| p.pat.loops_on_empty()) => Err(Fail::new("refused", format!("no parser was generated for a grammar that the algorithm can handle: {}", d.gen.describe()))),
        None => Ok(None),
        Some(Err(e)) => Err(Fail::new("compile or crash", e.clone())),
        Some(Ok(r)) => {
            assert_eq!(r.len(), j.inputs.len());
            Ok(Some(r))
        }
    }
}

pub fn shifts(r: &Rec) -> Vec<(u32, u32)> {
    r.ev.iter()
        .filter_map(|e| match e {
            Ev::Shift(t, d) => Some((*t as u32, *d)),
            _ => None,
        })
        .collect()
}
pub fn want_shifts(w: &[u16]) -> Vec<(u32, u32)> {
    w.iter().enumerate().map(|(i, t)| (*t as u32, 1000 + i as u32)).collect()
}

fn verdict(j: &Job, m: &Model, w: &[u16], r: &Rec) -> Outcome {
    let acc = m.accepts(w);
    if r.status == PANIC || r.status == RUNAWAY {
        return fail("outcome", format!("on input [{}]: {}", show_input(&j.spec, w), r.outcome()));
    }
    if acc != (r.status == OK) {
        return fail(
            "outcome",
            format!("input [{}] {} a sentence, but the parser answered {}", show_input(&j.spec, w), if acc { "is" } else { "is not" }, r.outcome()),
        );
    }
    Ok(())
}

/// Bottom-up: the calls are a rightmost derivation in reverse.
pub fn bottom_up(j: &Job, methods: &[Method], w: &[u16], r: &Rec) -> Outcome {
    let say = |s: String| fail("derivation", format!("on input [{}]: {}; calls: {}", show_input(&j.spec, w), s, show_events(&r.ev, methods, &j.spec)));
    if shifts(r) != want_shifts(w) {
        return say(format!("tokens reported by shift are {:?}, should be {:?}", shifts(r), want_shifts(w)));
    }
    let rs = match rules(methods, &j.spec) {
        Ok(r) => r,
        Err(e) => return say(e),
    };
    match replay(&r.ev, &rs, &j.spec) {
        Err(e) => say(e),
        Ok((stack, _)) => {
            if stack != vec![Sy::N(j.spec.entry)] {
                return say(format!("the calls end with {:?} instead of the entry", stack));
            }
            Ok(())
        }
    }
}

/// Top-down: enter/exit/token calls are the preorder walk of a parse tree.
pub fn top_down(j: &Job, methods: &[Method], w: &[u16], r: &Rec) -> Outcome {
    let g = &j.spec;
    let say = |s: String| fail("tree", format!("on input [{}]: {}; calls: {}", show_input(g, w), s, show_events(&r.ev, methods, g)));
    let mut want = want_shifts(w);
    want.push((EOF, EOF_DATA));
    if shifts(r) != want {
        return say(format!("tokens reported are {:?}, should be {:?}", shifts(r), want));
    }
    let mut open: Vec<(u16, Vec<Sym>)> = Vec::new();
    let mut root: Vec<Sym> = Vec::new();
    let mut ended = false;
    for e in &r.ev {
        if ended {
            return say("there are calls after the end of input".into());
        }
        match e {
            Ev::Shift(t, _) if *t as u32 == EOF => {
                if !open.is_empty() {
                    return say("the end of input is reported inside a production".into());
                }
                ended = true;
            }
            Ev::Shift(t, _) => match open.last_mut() {
                Some((_, v)) => v.push(Sym::T(*t)),
                None => return say("a token is reported outside the entry".into()),
            },
            Ev::Call(m) => {
                let name = methods.get(*m).map(|m| m.name.as_str()).unwrap_or("?");
                let find = |p: &str| name.strip_prefix(p).and_then(|x| g.nts.iter().position(|n| n == x));
                if let Some(n) = find("enter_") {
                    match open.last_mut() {
                        Some((_, v)) => v.push(Sym::N(n as u16)),
                        None => root.push(Sym::N(n as u16)),
                    }
                    open.push((n as u16, vec![]));
                } else if let Some(n) = find("exit_") {
                    match open.pop() {
                        Some((o, v)) if o as usize == n => {
                            if !g.prods.iter().any(|p| p.nt == o && p.pat.matches(&v)) {
                                return say(format!("{} was walked as {:?}, which none of its productions allows", g.nts[n], show_word(&v, g)));
                            }
                        }
                        _ => return say(format!("{} does not close the innermost open production", name)),
                    }
                } else {
                    return say(format!("callback {} belongs to no named production", name));
                }
            }
        }
    }
    if !open.is_empty() || root != vec![Sym::N(g.entry)] || !ended {
        return say("the calls do not walk one tree of the entry followed by the end of input".into());
    }
    Ok(())
}

// ---------------------------------------------------------------- families

fn kind(a: Algo) -> Option<Kind> {
    match a {
        Algo::LR0 => Some(Kind::Lr0),
        Algo::Lalr => Some(Kind::Lalr),
        Algo::LR1 => Some(Kind::Lr1),
        _ => None,
    }
}

/// Does the model say that the algorithm can handle the grammar?
pub fn handles(b: &Bnf, a: Algo) -> bool {
    match a {
        // the wide and broad families are too wide for the model automaton; they have no conflicts (and too many
        // columns for an LR(0) parser, which reduces in all of them)
        _ if b.nt > 120 => a != Algo::LR0 || b.nt < 200,
        Algo::LL1 => ll1(b).values().all(|v| v.len() == 1),
        Algo::Glr => !b.cyclic() && !b.hidden_left_recursion(),
        _ => automaton(b, kind(a).unwrap()).conflicts(b).is_empty(),
    }
}

/// Every `n`-th of a family, for its most expensive parts.
pub fn every<T>(v: Vec<T>, n: usize) -> Vec<T> {
    v.into_iter().enumerate().filter(|(i, _)| i % n == 0).map(|(_, x)| x).collect()
}

/// Grammars that the algorithms can handle, as plans.
pub fn plans(specs: &[Spec], algos: &[Algo], lang: Lang, cap: usize) -> Vec<Plan> {
    use std::sync::Mutex;
    let out = Mutex::new(Vec::new());
    let n = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = n.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let Some(g) = specs.get(i) else { break };
                let b = g.bnf();
                for a in algos {
                    let endless = matches!(a, Algo::Glr | Algo::LL1) && g.prods.iter().any(|p| p.pat.loops_on_empty());
                    if supported(*a, lang) && !endless && (if *a == Algo::LL1 { handles(&g.bnf_ll(), *a) } else { handles(&b, *a) }) {
                        out.lock().unwrap().push((i, *a, Plan { spec: g.clone(), algo: *a, lang, cap, still: false }));
                    }
                }
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|(i, a, _)| (*i, *a));
    v.into_iter().map(|(_, _, p)| p).collect()
}

/// Tokens and productions with every kind of name.
pub fn named() -> Vec<Spec> {
    let mut v = Vec::new();
    let sets: [([&str; 3], [&str; 3]); 6] = [
        (["PLUS_PLUS", "ID", "X1"], ["expr_list", "item", "tail_2"]),
        (["a", "b", "c"], ["A", "B", "C"]),
        (["Token", "Type", "State"], ["visitor", "parser", "rule"]),
        (["Int", "Double", "Class"], ["Start", "camelCase", "snake_case"]),
        (["T_1", "T_2", "T_10"], ["n_1", "n_2", "n_10"]),
        (["EndOf", "File", "Shift"], ["reduce", "shift_it", "accept"]),
    ];
    for (i, (t, n)) in sets.iter().enumerate() {
        let mut s = Spec::new(&format!("names{}", i), 3, 3)
            .p(0, Pat::Seq(vec![Pat::T(0), Pat::N(1), Pat::Opt(Box::new(Pat::N(2)))]))
            .p(1, Pat::T(1))
            .p(1, Pat::Seq(vec![Pat::T(2), Pat::N(1)]))
            .p(2, Pat::Seq(vec![Pat::T(0), Pat::T(0)]));
        s.toks = t.iter().map(|x| x.to_string()).collect();
        s.nts = n.iter().map(|x| x.to_string()).collect();
        v.push(s);
    }
    v
}

/// The families used for bottom-up parsers; `x` thins out the large ones.
pub fn lr_specs(ctx: &Ctx) -> Vec<Spec> {
    let mut v = fam::shapes();
    v.extend(named());
    v.extend(every(fam::contexts(), ctx.pick(4, 1)));
    v.extend(every(fam::tagged(), ctx.pick(6, 1)));
    v.extend([1, 2, 40, 130].map(fam::wide));
    v.extend([2, 30, 260].map(fam::long));
    v.extend([2, 12].map(fam::deep));
    v.extend(fam::scale());
    v.extend(every(fam::followers(4), ctx.pick(5, 1)));
    v.extend(every(fam::rivals(ctx.pick(3, 5)), ctx.pick(2, 1)));
    v.extend(fam::rows(ctx.pick(4, 5), 9));
    v.extend(fam::ebnf_single(ctx.pick(4, 5)));
    v.extend(every(fam::ebnf_double(ctx.pick(4, 5)), ctx.pick(2, 2)));
    v.extend(every(fam::reduced(fam::plain(2, 2, 4, ctx.pick(4, 5), 3)), ctx.pick(2, 2)));
    v.extend(every(fam::reduced(fam::plain(3, 2, 5, 5, 2)), ctx.pick(60, 6)));
    v
}

/// Grammars with symbols that derive nothing or are not reached: parsers reject what needs them, and end.
pub fn useless_specs(ctx: &Ctx, n: usize) -> Vec<Spec> {
    every(fam::useless(fam::plain(2, 2, 3, ctx.pick(4, 5), 3)), n)
}

fn lr_check(j: &Job, d: &Done, m: &Model, tally: &mut Tally) -> Outcome {
    let Some(recs) = recs_of(j, d, true)? else { return Ok(()) };
    for (w, r) in j.inputs.iter().zip(recs) {
        verdict(j, m, w, r)?;
        if r.status == OK {
            tally.add("sentences accepted, derivation checked", 1);
            bottom_up(j, &d.methods, w, r)?;
            if r.requested as usize != w.len() + 1 {
                return fail("requests", format!("on input [{}]: {} tokens were requested for {} and the end of input", show_input(&j.spec, w), r.requested, w.len()));
            }
        }
    }
    Ok(())
}

fn note(ctx: &Ctx, plans: &[Plan]) {
    ctx.count("grammars and algorithms", plans.len() as u64);
    for p in every(plans.to_vec(), (plans.len() / 8).max(1)) {
        ctx.sample(p.brief());
    }
    if plans.is_empty() {
        panic!("empty family");
    }
}

pub fn c10(ctx: &Ctx) {
    let mut p = plans(&lr_specs(ctx), &Algo::LR, Lang::Rust, ctx.pick(600, 2000));
    p.extend(plans(&useless_specs(ctx, ctx.pick(31, 4)), &[Algo::Lalr, Algo::LR1], Lang::Rust, ctx.pick(60, 200)));
    note(ctx, &p);
    explore(ctx, &p, false, false, lr_check);
}

pub fn c12(ctx: &Ctx) {
    let mut p = plans(&lr_specs(ctx), &Algo::LR, Lang::Cpp, ctx.pick(600, 2000));
    p.extend(plans(&useless_specs(ctx, ctx.pick(31, 4)), &[Algo::Lalr, Algo::LR1], Lang::Cpp, ctx.pick(60, 200)));
    note(ctx, &p);
    explore(ctx, &p, false, false, lr_check);
}

pub fn glr_specs(ctx: &Ctx) -> Vec<Spec> {
    let mut v = lr_specs(ctx);
    v.extend(fam::undecided());
    v
}

pub fn c11(ctx: &Ctx) {
    let mut p = plans(&glr_specs(ctx), &[Algo::Glr], Lang::Rust, ctx.pick(600, 1500));
    p.extend(plans(&useless_specs(ctx, ctx.pick(31, 4)), &[Algo::Glr], Lang::Rust, ctx.pick(60, 200)));
    note(ctx, &p);
    explore(ctx, &p, false, false, |j, d, m, tally| {
        let Some(recs) = recs_of(j, d, true)? else { return Ok(()) };
        for (w, r) in j.inputs.iter().zip(recs) {
            verdict(j, m, w, r)?;
            if r.status == OK {
                tally.add("sentences accepted, derivation checked", 1);
                if w.len() <= 12 && m.b.count_trees(w).map_or(true, |n| n > 1) {
                    tally.add("of these ambiguous", 1);
                }
                bottom_up(j, &d.methods, w, r)?;
            }
        }
        Ok(())
    });
}

pub fn c13(ctx: &Ctx) {
    let mut v = lr_specs(ctx);
    v.extend(every(fam::reduced(fam::plain(2, 2, 4, 5, 3)), ctx.pick(9, 1)));
    v.extend(every(fam::reduced(fam::plain(3, 2, 5, 5, 2)), ctx.pick(23, 3)));
    let mut p = plans(&v, &[Algo::LL1], Lang::Cpp, ctx.pick(600, 2000));
    p.extend(plans(&useless_specs(ctx, ctx.pick(9, 1)), &[Algo::LL1], Lang::Cpp, ctx.pick(60, 200)));
    note(ctx, &p);
    explore(ctx, &p, false, false, ll_check);
}

pub fn ll_check(j: &Job, d: &Done, m: &Model, tally: &mut Tally) -> Outcome {
    let Some(recs) = recs_of(j, d, true)? else { return Ok(()) };
    for (w, r) in j.inputs.iter().zip(recs) {
        verdict(j, m, w, r)?;
        if r.status == OK {
            tally.add("sentences accepted, tree checked", 1);
            top_down(j, &d.methods, w, r)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

fn error_check(j: &Job, d: &Done, m: &Model, tally: &mut Tally) -> Outcome {
    let g = &j.spec;
    let Some(recs) = recs_of(j, d, false)? else { return Ok(()) };
    let mut next: HashMap<Vec<u16>, BTreeSet<u32>> = HashMap::new();
    // GLR tables are lalr: nothing but the next tokens, unless states were merged
    let exact = j.algo == Algo::Glr && m.merges_nothing();
    for (w, r) in j.inputs.iter().zip(recs) {
        let say = |s: String| fail("error", format!("on input [{}]: {}; the parser answered {}; calls: {}", show_input(g, w), s, r.outcome(), show_events(&r.ev, &d.methods, g)));
        let (clean, src_err) = match w.iter().position(|t| *t == LEXERR) {
            Some(i) => (&w[..i], true),
            None => (&w[..], false),
        };
        let viable = if clean.len() > 60 { false } else { src_err && (clean.is_empty() || m.viable(clean)) };
        if src_err && viable {
            tally.add("errors of the token source", 1);
            if r.status != LEXER_ERROR || r.got != vec![(0, ERR_VALUE)] {
                return say("the error of the token source should be passed on".into());
            }
            if r.requested as usize != clean.len() + 1 {
                return say(format!("{} tokens were requested", r.requested));
            }
            continue;
        }
        if !src_err && m.accepts(w) {
            continue;
        }
        tally.add("syntax errors", 1);
        let bad = m.first_bad(clean);
        let tok = |i: usize| clean.get(i).map(|t| *t as u32).unwrap_or(EOF);
        let data = |i: usize| if i < clean.len() { 1000 + i as u32 } else { EOF_DATA };
        let here = format!("the first token that cannot continue a sentence is number {}", bad);
        let sh = shifts(r);
        let prefix = want_shifts(&clean[..bad]);
        if j.algo == Algo::Glr {
            if !prefix.starts_with(&sh) {
                return say(format!("{}, but shift was called with {:?}", here, sh));
            }
            if r.status != UNEXPECTED && r.status != MULTIPLE || r.got.is_empty() {
                return say(format!("{}, no error of that kind", here));
            }
            if r.got.iter().any(|x| *x != (tok(bad), data(bad))) {
                return say(format!("{}, got should be {:?}", here, (tok(bad), data(bad))));
            }
            if (r.requested as usize) < bad + 1 {
                return say(format!("{}, but only {} tokens were requested", here, r.requested));
            }
        } else {
            if sh != prefix {
                return say(format!("{}, but shift was called with {:?}", here, sh));
            }
            if r.status != UNEXPECTED {
                return say(format!("{}, no error of that kind", here));
            }
            if r.requested as usize != bad + 1 {
                return say(format!("{}, but {} tokens were requested", here, r.requested));
            }
            if j.algo != Algo::LL1 {
                // what was reported until then is the beginning of a derivation
                let rs = match rules(&d.methods, g) {
                    Ok(r) => r,
                    Err(e) => return say(e),
                };
                if let Err(e) = replay(&r.ev, &rs, g) {
                    return say(e);
                }
                if j.algo == Algo::LR1 && bad > 0 && !matches!(r.ev.last(), Some(Ev::Shift(..))) {
                    return say("a rule was completed on a token that cannot follow".into());
                }
            }
            if j.lang == Lang::Rust && r.got != vec![(tok(bad), 0)] {
                return say(format!("{}, got should be {}", here, tok(bad)));
            }
        }
        if r.expected.iter().any(|e| e.contains(&tok(bad))) {
            return say("the offending token is among the expected ones".into());
        }
        if (j.algo == Algo::LR1 || exact) && j.lang == Lang::Rust && bad <= 60 {
            tally.add("errors with all tokens that could have come", 1);
            let want = next.entry(clean[..bad].to_vec()).or_insert_with(|| m.b.next_tokens(&clean[..bad]).into_iter().map(|t| if t as usize == m.b.nt { EOF } else { t as u32 }).collect());
            let got: BTreeSet<u32> = r.expected.iter().flatten().copied().collect();
            if got != *want {
                return say(format!("the tokens that could have come are {:?} ({} is the end of input)", want, EOF));
            }
        }
        if j.lang == Lang::Cpp {
            let name = if bad < clean.len() { g.toks[clean[bad] as usize].clone() } else { "<EOF>".into() };
            if let Some(x) = r.message.strip_prefix("Unexpected token '") {
                if !x.starts_with(&format!("{}'", name)) {
                    return say(format!("{}, so the message should name {}", here, name));
                }
            } else if j.algo != Algo::LL1 {
                return say("the message does not name the unexpected token".into());
            }
        }
    }
    Ok(())
}

pub fn c14(ctx: &Ctx) {
    let cap = ctx.pick(400, 1200);
    let mut v = fam::shapes();
    v.extend(named());
    v.extend(every(fam::contexts(), ctx.pick(8, 1)));
    v.extend([2, 40].map(fam::wide));
    v.extend([30].map(fam::long));
    v.extend([2, 12].map(fam::deep));
    v.extend(fam::scale());
    v.extend(every(fam::followers(4), ctx.pick(9, 1)));
    v.extend(fam::undecided());
    v.extend(every(fam::rows(ctx.pick(4, 5), 9), ctx.pick(4, 2)));
    v.extend(fam::ebnf_single(ctx.pick(4, 5)));
    v.extend(every(fam::ebnf_double(4), ctx.pick(4, 1)));
    v.extend(every(fam::reduced(fam::plain(2, 2, 4, ctx.pick(4, 5), 3)), ctx.pick(5, 6)));
    v.retain(|s| s.bnf().all_productive());
    let mut p = plans(&v, &[Algo::LR0, Algo::LR1, Algo::Lalr, Algo::Glr], Lang::Rust, cap);
    let mut q = plans(&v, &[Algo::LL1, Algo::LR1], Lang::Cpp, cap);
    q.extend(plans(&every(v, 3), &[Algo::LR0, Algo::Lalr], Lang::Cpp, cap));
    p.extend(q);
    note(ctx, &p);
    explore(ctx, &p, true, false, error_check);
}

// ---------------------------------------------------------------- C21

/// The method name that belongs to a written production, if it is determined by its tag.
fn plain_name(s: &str) -> String {
    s.chars().filter(|c| c.is_alphanumeric()).flat_map(|c| c.to_lowercase()).collect()
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Label {
    Only,
    Tag(String),
    Index(usize),
}

/// What the name of a callback says, given the production it belongs to.
fn label(lang: Lang, name: &str, g: &Spec, nt: usize) -> Result<Label, String> {
    let n = g.prods.iter().filter(|p| p.nt as usize == nt).count();
    let base = format!("reduce_{}", g.nts[nt]);
    // C++ visitors have no tags
    let tags = lang == Lang::Rust;
    if n == 1 {
        return if plain_name(name) == plain_name(&base) { Ok(Label::Only) } else { Err(format!("production {} has one rule, its callback is {}", g.nts[nt], name)) };
    }
    // the exact name first: names may differ in case and underscores only
    let exact = |a: &str, b: &str| a == b;
    let loosely = |a: &str, b: &str| plain_name(a) == plain_name(b);
    for same in [&exact as &dyn Fn(&str, &str) -> bool, &loosely] {
        for p in g.prods.iter().filter(|p| p.nt as usize == nt) {
            if let (Some(t), true) = (&p.tag, tags) {
                if same(name, &format!("{}_{}", base, t)) {
                    return Ok(Label::Tag(t.clone()));
                }
            }
        }
        for i in 1..=n {
            if same(name, &format!("{}_{}", base, i)) {
                return Ok(Label::Index(i));
            }
        }
    }
    Err(format!("callback {} is neither tagged nor numbered from 1 to {}", name, n))
}

pub type Names = std::sync::Mutex<HashMap<String, Vec<(String, Vec<(u16, Vec<Sy>, Option<String>, String)>)>>>;

pub fn tag_check(j: &Job, d: &Done, m: &Model, names: &Names, tally: &mut Tally) -> Outcome {
    let mut g = j.spec.clone();
    if j.lang == Lang::Cpp {
        g.prods.iter_mut().for_each(|p| p.tag = None);
    }
    let g = &g;
    let Some(recs) = recs_of(j, d, true)? else { return Ok(()) };
    let say = |s: String| fail("callbacks", format!("{}; callbacks: {}", s, d.methods.iter().map(|m| format!("{} = {:?}", m.name, m.doc)).collect::<Vec<_>>().join(", ")));
    let rs = match rules(&d.methods, g) {
        Ok(r) => r,
        Err(e) => return say(e),
    };
    for (i, a) in d.methods.iter().enumerate() {
        if d.methods[..i].iter().any(|b| a.name == b.name) {
            return say(format!("callback {} is declared twice", a.name));
        }
    }
    let mut labels: Vec<Option<Label>> = Vec::new();
    for (k, r) in rs.iter().enumerate() {
        match r.lhs {
            Sy::N(n) => match label(j.lang, &d.methods[k].name, g, n as usize) {
                Ok(l) => labels.push(Some(l)),
                Err(e) => return say(e),
            },
            _ => labels.push(None),
        }
    }
    for (n, name) in g.nts.iter().enumerate() {
        let of: Vec<usize> = (0..rs.len()).filter(|k| rs[*k].lhs == Sy::N(n as u16)).collect();
        let written: Vec<_> = g.prods.iter().filter(|p| p.nt as usize == n).collect();
        if of.len() != written.len() {
            return say(format!("production {} has {} rules but {} callbacks", name, written.len(), of.len()));
        }
        for (i, k) in of.iter().enumerate() {
            if of[..i].iter().any(|x| labels[*x] == labels[*k]) {
                return say(format!("two callbacks of {} have the same tag or number", name));
            }
        }
        if written.len() > 1 && j.lang == Lang::Rust {
            for p in &written {
                if let Some(t) = &p.tag {
                    let hit: Vec<usize> = of.iter().copied().filter(|k| labels[*k] == Some(Label::Tag(t.clone()))).collect();
                    if hit.len() != 1 {
                        return say(format!("the rule tagged {} of {} has {} callbacks", t, name, hit.len()));
                    }
                }
            }
        }
        // the documented rule is the rule of that tag
        for k in &of {
            if rs[*k].rhs.iter().any(|s| matches!(s, Sy::H(_))) {
                continue;
            }
            let word: Vec<Sym> = rs[*k].rhs.iter().map(|s| match s { Sy::T(t) => Sym::T(*t), Sy::N(n) => Sym::N(*n), _ => unreachable!() }).collect();
            let fits = written.iter().any(|p| p.pat.matches(&word) && fits_tag(p.tag.as_deref(), labels[*k].as_ref().unwrap()));
            if !fits {
                return say(format!("callback {} is documented with a rule that is not written with that tag", d.methods[*k].name));
            }
        }
    }
    for (w, r) in j.inputs.iter().zip(recs) {
        verdict(j, m, w, r)?;
        if r.status != OK {
            continue;
        }
        bottom_up(j, &d.methods, w, r)?;
        tally.add("sentences with callbacks checked", 1);
        let (_, done) = replay(&r.ev, &rs, g).unwrap();
        for x in done {
            let l = labels[x.method].as_ref().unwrap();
            let fits = g.prods.iter().any(|p| p.nt == x.nt && p.pat.matches(&x.word) && fits_tag(p.tag.as_deref(), l));
            if !fits {
                return say(format!("on input [{}] callback {} was called for {} -> {}, which is not the rule of that name", show_input(g, w), d.methods[x.method].name, g.nts[x.nt as usize], show_word(&x.word, g)));
            }
        }
    }
    // remember which callback every rule has, to compare with other taggings of the same grammar
    let mut skeleton = g.clone();
    skeleton.label.clear();
    let mut mine = Vec::new();
    for p in &g.prods {
        if let Some(k) = (0..rs.len()).find(|k| rs[*k].lhs == Sy::N(p.nt) && flat(&p.pat).map_or(false, |f| f == rs[*k].rhs)) {
            mine.push((p.nt, rs[k].rhs.clone(), p.tag.clone(), d.methods[k].name.clone()));
        }
    }
    for p in &mut skeleton.prods {
        p.tag = None;
    }
    let key = format!("{} {} {}", j.lang.arg(), j.algo.arg(), skeleton.text());
    let mut map = names.lock().unwrap();
    let v = map.entry(key).or_default();
    for (other, theirs) in v.iter() {
        for (a, b) in mine.iter().zip(theirs) {
            tally.add("callbacks compared between taggings", 1);
            if a.0 == b.0 && a.1 == b.1 && a.2 == b.2 && a.3 != b.3 {
                return say(format!("the callback {} of a rule is {} with the tags of the other grammar: {}", a.3, b.3, other));
            }
        }
    }
    if v.len() < 6 {
        v.push((g.brief(), mine));
    }
    Ok(())
}
fn fits_tag(tag: Option<&str>, l: &Label) -> bool {
    match l {
        Label::Only => true,
        Label::Tag(t) => tag == Some(t),
        Label::Index(_) => tag.is_none(),
    }
}
fn flat(p: &Pat) -> Option<Vec<Sy>> {
    match p {
        Pat::T(t) => Some(vec![Sy::T(*t)]),
        Pat::N(n) => Some(vec![Sy::N(*n)]),
        Pat::Eps => Some(vec![]),
        Pat::Seq(v) => {
            let mut o = Vec::new();
            for p in v {
                match p {
                    Pat::T(t) => o.push(Sy::T(*t)),
                    Pat::N(n) => o.push(Sy::N(*n)),
                    _ => return None,
                }
            }
            Some(o)
        }
        _ => None,
    }
}

/// Every assignment of tags to the rules of one and two productions.
fn tag_family(max: usize) -> Vec<Spec> {
    use mccore::spec::Prod;
    let t = Pat::T;
    let n = Pat::N;
    let mut v = Vec::new();
    // the rules of the entry, in every order of writing
    let bodies: Vec<Pat> = vec![
        Pat::Seq(vec![t(0), n(1)]),
        Pat::Seq(vec![t(1), n(0), t(1)]),
        t(2),
        Pat::Seq(vec![t(3), t(3), n(1), n(1)]),
    ];
    let xs: Vec<Pat> = vec![Pat::Seq(vec![t(0), n(1)]), t(1), Pat::Seq(vec![t(2), t(2)])];
    let tags = ["one", "two_b", "s", "x"];
    for k in 1..=max {
        for m in 1..=3usize {
            for a in 0..1u32 << k {
                for b in 0..1u32 << m {
                    for r in 0..k.min(2) {
                        let mut s = Spec::new(&format!("tag{}.{}.{}.{}.{}", k, m, a, b, r), 4, 2);
                        for (i, p) in xs.iter().take(m).enumerate() {
                            // x ends with a terminal rule
                            let p = if m == 1 { t(1) } else { p.clone() };
                            s.prods.push(Prod { nt: 1, tag: if b >> i & 1 == 1 { Some(tags[i].to_string()) } else { None }, pat: p });
                        }
                        for i in 0..k {
                            // two orders of writing
                            let q = (i + r) % k;
                            s.prods.push(Prod { nt: 0, tag: if a >> q & 1 == 1 { Some(tags[q].to_string()) } else { None }, pat: bodies[q].clone() });
                        }
                        if s.bnf().all_productive() {
                            v.push(s);
                        }
                    }
                }
            }
        }
    }
    v
}

pub fn c21(ctx: &Ctx) {
    let mut v = fam::tagged();
    v.extend(tag_family(ctx.pick(3, 4)));
    v.extend(named());
    let big: Vec<Spec> = [2, 12, 130].map(fam::wide).into_iter().chain(fam::rows(3, 12)).chain(fam::scale()).collect();
    let mut p = plans(&v, &[Algo::Lalr, Algo::Glr], Lang::Rust, ctx.pick(200, 800));
    p.extend(plans(&big, &[Algo::LR1, Algo::Glr], Lang::Rust, ctx.pick(200, 800)));
    p.extend(plans(&big, &[Algo::LR1], Lang::Cpp, ctx.pick(200, 800)));
    p.extend(plans(&every(v.clone(), ctx.pick(4, 1)), &[Algo::Lalr], Lang::Cpp, ctx.pick(200, 800)));
    p.extend(plans(&every(v, ctx.pick(4, 1)), &[Algo::LR0, Algo::LR1], Lang::Rust, ctx.pick(200, 800)));
    note(ctx, &p);
    let names: Names = Default::default();
    explore(ctx, &p, false, false, |j, d, m, t| tag_check(j, d, m, &names, t));
}
