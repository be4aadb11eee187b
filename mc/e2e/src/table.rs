//! C20: the table file against the generated parser, driven on every bounded input, and against an
//! independently built automaton, cell by cell.
use crate::batch::*;
use crate::parsers::*;
use mccore::cfg::{Bnf, Sym};
use mccore::cli::{Algo, Lang};
use mccore::families as fam;
use mccore::lr::{automaton, Kind};
use mccore::run::{Ctx, Outcome, Tally};
use mccore::spec::Spec;
use mccore::trace::{show_events, symbol, Ev, Sy};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
enum Cell {
    Shift(usize),
    Reduce(usize),
    Accept,
    Error,
    Conflict,
}

struct Table {
    /// text, left side, right side
    rules: Vec<(String, String, Vec<String>)>,
    columns: Vec<String>,
    rows: Vec<Vec<Cell>>,
}

fn parse(text: &str) -> Result<Table, String> {
    let mut t = Table { rules: vec![], columns: vec![], rows: vec![] };
    let mut lines = text.lines();
    if lines.next().map(|l| l.trim()) != Some("Rules:") {
        return Err("the file does not start with its rules".into());
    }
    for l in lines.by_ref() {
        if l.trim().is_empty() {
            break;
        }
        let (n, r) = l.split_once(':').ok_or_else(|| format!("line {:?}", l))?;
        let n: usize = n.trim().parse().map_err(|_| format!("line {:?}", l))?;
        if n >= 100_000 {
            return Err(format!("rule number {}", n));
        }
        if t.rules.len() <= n {
            t.rules.resize(n + 1, Default::default());
        }
        if !t.rules[n].0.is_empty() {
            return Err(format!("two rules have the number {}", n));
        }
        let (a, b) = r.split_once("->").ok_or_else(|| format!("line {:?}", l))?;
        t.rules[n] = (r.trim().to_string(), a.trim().to_string(), b.split_whitespace().filter(|s| *s != "<eps>").map(|s| s.to_string()).collect());
    }
    if let Some(i) = t.rules.iter().position(|r| r.0.is_empty()) {
        return Err(format!("there is no rule {}", i));
    }
    let head = lines.next().ok_or("there is no header")?;
    t.columns = head.split('|').skip(1).map(|s| s.trim().to_string()).collect();
    if t.columns.pop() != Some(String::new()) {
        return Err("the header does not end with a bar".into());
    }
    for l in lines {
        let mut v: Vec<&str> = l.split('|').map(|s| s.trim()).collect();
        if v.pop() != Some("") || v.len() != t.columns.len() + 1 {
            return Err(format!("row {:?} has not one cell per column", l));
        }
        if v[0].parse() != Ok(t.rows.len()) {
            return Err(format!("row {} is numbered {:?}", t.rows.len(), v[0]));
        }
        let mut row = Vec::new();
        for c in &v[1..] {
            let num = |s: &str| s.parse::<usize>().map_err(|_| format!("cell {:?}", c));
            row.push(match c.chars().next() {
                None => Cell::Error,
                Some('e') if c.len() == 1 => Cell::Error,
                Some('a') if c.len() == 1 => Cell::Accept,
                Some('c') if c.len() == 1 => Cell::Conflict,
                Some('s') => Cell::Shift(num(&c[1..])?),
                Some('r') => Cell::Reduce(num(&c[1..])?),
                _ => return Err(format!("cell {:?}", c)),
            });
        }
        t.rows.push(row);
    }
    Ok(t)
}

fn base(s: &str) -> &str {
    match s.rfind('(') {
        Some(i) if s.ends_with(')') => &s[..i],
        _ => s,
    }
}

fn compare(j: &Job, d: &Done, tally: &mut Tally) -> Outcome {
    let g = &j.spec;
    let Some(recs) = recs_of(j, d, true)? else { return Ok(()) };
    let Some(text) = &d.table else { return fail("table", "no table file was written".into()) };
    let say = |s: String| fail("table", format!("{}\ntable file:\n{}", s, text.chars().take(3000).collect::<String>()));
    let t = match parse(text) {
        Ok(t) => t,
        Err(e) => return say(format!("not a table: {}", e)),
    };
    // columns: every symbol once, then the end of input
    let end = t.columns.len() - 1;
    if t.columns[end] != "<end>" {
        return say("the last column is not the end of input".into());
    }
    for (i, c) in t.columns.iter().enumerate() {
        if t.columns[..i].contains(c) {
            return say(format!("two columns are called {}", c));
        }
    }
    let mut column: HashMap<&str, usize> = HashMap::new();
    for (i, c) in t.columns.iter().enumerate() {
        column.insert(c, i);
    }
    let token: Vec<Option<usize>> = g.toks.iter().map(|n| t.columns.iter().position(|c| base(c) == n)).collect();
    for (i, c) in token.iter().enumerate() {
        if c.is_none() {
            return say(format!("token {} has no column", g.toks[i]));
        }
    }
    for n in &g.nts {
        if !t.columns.iter().any(|c| base(c) == n) {
            return say(format!("production {} has no column", n));
        }
    }
    // rules: those of the parser, each once
    let mut a: Vec<&str> = t.rules.iter().map(|r| r.0.as_str()).collect();
    let mut b: Vec<&str> = d.methods.iter().filter_map(|m| m.doc.as_deref()).collect();
    a.sort();
    b.sort();
    if a != b {
        return say(format!("the rules are not those of the generated parser: {:?}", b));
    }
    for (text, l, r) in &t.rules {
        for s in r.iter().chain([l]) {
            if !column.contains_key(s.as_str()) {
                return say(format!("symbol {} of rule {:?} has no column", s, text));
            }
        }
    }
    // the automaton of these rules
    let mut nts: Vec<&str> = Vec::new();
    for c in &t.columns[..end] {
        if !matches!(symbol(c, g), Sy::T(_)) {
            nts.push(c);
        }
    }
    let to_sym = |s: &str| match symbol(s, g) {
        Sy::T(i) => Sym::T(i),
        _ => Sym::N(nts.iter().position(|n| *n == s).unwrap() as u16),
    };
    let bnf = Bnf {
        names: nts.iter().map(|s| s.to_string()).collect(),
        nt: g.toks.len(),
        nn: nts.len(),
        rules: t
            .rules
            .iter()
            .map(|(_, l, r)| {
                let l = match to_sym(l) {
                    Sym::N(n) => n,
                    Sym::T(_) => 0,
                };
                (l, r.iter().map(|s| to_sym(s)).collect())
            })
            .collect(),
        start: nts.iter().position(|n| base(n) == g.nts[g.entry as usize]).unwrap() as u16,
    };
    if bnf.nt <= 120 {
        let kind = match j.algo {
            Algo::LR0 => Kind::Lr0,
            Algo::LR1 => Kind::Lr1,
            _ => Kind::Lalr,
        };
        let m = automaton(&bnf, kind);
        if m.states.len() != t.rows.len() {
            return say(format!("the table has {} states, the automaton of its rules has {}", t.rows.len(), m.states.len()));
        }
        // pair the states by the transitions
        let mut pair: Vec<Option<usize>> = vec![None; m.states.len()];
        pair[0] = Some(0);
        let mut todo = vec![0usize];
        let mut conflicts = 0;
        while let Some(s) = todo.pop() {
            let row = pair[s].unwrap();
            for (c, name) in t.columns.iter().enumerate() {
                let cell = &t.rows[row][c];
                let here = format!("state {} (column {})", row, name);
                tally.add("cells compared with a model automaton", 1);
                let x = if c == end { Sym::T(bnf.nt as u16) } else { to_sym(name) };
                let goto = m.trans[s].get(&x).copied();
                let (expect, n) = match x {
                    Sym::N(_) => (goto.map_or("an error".to_string(), |_| "a shift".to_string()), goto.is_some() as usize),
                    Sym::T(a) => {
                        let k = m.cell(&bnf, s, a);
                        (format!("{:?}", k), k.actions())
                    }
                };
                if n > 1 {
                    conflicts += 1;
                    if *cell != Cell::Conflict {
                        return say(format!("{} should be a conflict ({}), it is {:?}", here, expect, cell));
                    }
                    // follow the shift all the same
                    continue;
                }
                let ok = match x {
                    Sym::N(_) => match (goto, cell) {
                        (Some(_), Cell::Shift(_)) => true,
                        (None, Cell::Error) => true,
                        _ => false,
                    },
                    Sym::T(a) => {
                        let k = m.cell(&bnf, s, a);
                        match cell {
                            Cell::Shift(_) => k.shift.is_some(),
                            Cell::Reduce(r) => k.reduce == vec![*r],
                            Cell::Accept => k.accept,
                            Cell::Error => k.actions() == 0,
                            Cell::Conflict => false,
                        }
                    }
                };
                if !ok {
                    return say(format!("{} should be {}, it is {:?}", here, expect, cell));
                }
                if let (Some(to), Cell::Shift(v)) = (goto, cell) {
                    if *v >= t.rows.len() {
                        return say(format!("{} goes to a state that does not exist", here));
                    }
                    match pair[to] {
                        None => {
                            if pair.contains(&Some(*v)) {
                                return say(format!("{} goes to a state that stands for another one", here));
                            }
                            pair[to] = Some(*v);
                            todo.push(to);
                        }
                        Some(p) if p == *v => {}
                        Some(p) => return say(format!("{} should go to state {}", here, p)),
                    }
                }
            }
        }
        tally.add("conflict cells", conflicts);
        tally.add("states compared with a model automaton", t.rows.len() as u64);
    }
    if j.inputs.is_empty() {
        return Ok(());
    }
    // drive it
    if t.rows.iter().flatten().any(|c| *c == Cell::Conflict) {
        if j.algo != Algo::Glr {
            return say("a table without conflicts was asked for".into());
        }
        return Ok(());
    }
    for (w, r) in j.inputs.iter().zip(recs) {
        let mut trace: Vec<Ev> = Vec::new();
        let mut st = vec![0usize];
        let mut i = 0;
        let mut steps = 0;
        let ok = loop {
            steps += 1;
            if steps > 20_000 + 400 * w.len() {
                return say(format!("driving the table on [{}] does not end", show_input(g, w)));
            }
            let c = w.get(i).map_or(end, |x| token[*x as usize].unwrap());
            match t.rows.get(*st.last().unwrap()).map(|row| &row[c]) {
                Some(Cell::Shift(to)) => {
                    trace.push(Ev::Shift(w[i], 1000 + i as u32));
                    st.push(*to);
                    i += 1;
                }
                Some(Cell::Reduce(k)) => {
                    let Some((text, l, rhs)) = t.rules.get(*k) else { return say(format!("rule {} does not exist", k)) };
                    let Some(m) = d.methods.iter().position(|m| m.doc.as_deref() == Some(text)) else { return say(format!("rule {} has no callback", k)) };
                    trace.push(Ev::Call(m));
                    if st.len() <= rhs.len() {
                        return say(format!("driving the table on [{}] pops too much", show_input(g, w)));
                    }
                    st.truncate(st.len() - rhs.len());
                    match t.rows.get(*st.last().unwrap()).map(|row| &row[column[l.as_str()]]) {
                        Some(Cell::Shift(to)) => st.push(*to),
                        x => return say(format!("driving the table on [{}]: after a reduction to {} the cell is {:?}", show_input(g, w), l, x)),
                    }
                }
                Some(Cell::Accept) => break true,
                Some(Cell::Error) => break false,
                x => return say(format!("driving the table on [{}] reaches {:?}", show_input(g, w), x)),
            }
        };
        // the generalised parser does not report what it abandons
        let same = if j.algo == Algo::Glr && !ok { true } else { doc_eq(&trace, &r.ev, d) };
        if ok != (r.status == OK) || !same {
            return say(format!(
                "on input [{}] the table gives {} with {}; the generated parser {} with {}",
                show_input(g, w),
                if ok { "Ok" } else { "an error" },
                show_events(&trace, &d.methods, g),
                r.outcome(),
                show_events(&r.ev, &d.methods, g)
            ));
        }
        tally.add("inputs driven through the table", 1);
    }
    Ok(())
}

/// Equal up to callbacks documented with the same rule.
fn doc_eq(a: &[Ev], b: &[Ev], d: &Done) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (Ev::Call(m), Ev::Call(n)) => d.methods[*m].doc == d.methods[*n].doc,
            _ => x == y,
        })
}

pub fn c20(ctx: &Ctx) {
    let cap = ctx.pick(200, 800);
    let mut v = fam::shapes();
    v.extend(named());
    v.extend(every(fam::contexts(), ctx.pick(6, 1)));
    v.extend(every(fam::tagged(), ctx.pick(9, 3)));
    v.extend([1, 2, 40, 130].map(fam::wide));
    v.extend([2, 30, 120].map(fam::long));
    v.extend([2, 12].map(fam::deep));
    v.extend(fam::ebnf_single(ctx.pick(3, 4)));
    v.extend(every(fam::ebnf_double(4), ctx.pick(6, 2)));
    v.extend(every(fam::reduced(fam::plain(2, 2, 4, ctx.pick(4, 5), 3)), ctx.pick(5, 6)));
    v.extend(fam::scale());
    v.extend(every(fam::followers(4), ctx.pick(9, 2)));
    let w: Vec<Spec> = every(v.clone(), ctx.pick(6, 3));
    let mut p = plans(&v, &[Algo::LR0, Algo::LR1, Algo::Lalr, Algo::Glr], Lang::Rust, cap);
    p.extend(plans(&w, &[Algo::LR0, Algo::LR1, Algo::Lalr], Lang::Cpp, cap));
    // tables of the generalised algorithm for grammars that it cannot parse with: cycles, hidden left recursion
    for s in fam::reduced(fam::plain(2, 2, 4, ctx.pick(4, 5), 3)) {
        let b = s.bnf();
        if b.cyclic() || b.hidden_left_recursion() {
            p.push(Plan { spec: s, algo: Algo::Glr, lang: Lang::Rust, cap: 1, still: true });
        }
    }
    ctx.count("grammars and algorithms", p.len() as u64);
    for q in every(p.clone(), (p.len() / 8).max(1)) {
        ctx.sample(q.brief());
    }
    explore(ctx, &p, false, true, |j, d, _, t| compare(j, d, t));
}
