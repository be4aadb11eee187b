//! Enumerated families of grammars.
use crate::cfg::Sym;
use crate::spec::{seq, Pat, Spec};
use std::collections::BTreeSet;

type Rhs = Vec<Sym>;

fn rhs_all(nn: usize, nt: usize, max: usize) -> Vec<Rhs> {
    let mut all: Vec<Rhs> = vec![vec![]];
    let mut last: Vec<Rhs> = vec![vec![]];
    for _ in 0..max {
        let mut next = Vec::new();
        for r in &last {
            for t in 0..nt {
                let mut q = r.clone();
                q.push(Sym::T(t as u16));
                next.push(q);
            }
            for n in 0..nn {
                let mut q = r.clone();
                q.push(Sym::N(n as u16));
                next.push(q);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

fn perms(v: &[u16]) -> Vec<Vec<u16>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for i in 0..v.len() {
        let mut r = v.to_vec();
        let x = r.remove(i);
        for mut p in perms(&r) {
            p.insert(0, x);
            out.push(p);
        }
    }
    out
}

/// All grammars with exactly `nn` nonterminals (each with at least one rule) over at most `nt`
/// tokens, at most `max_rules` rules, `max_syms` symbols in all right-hand sides together and
/// `max_rhs` in each, up to renaming of tokens and of nonterminals other than the entry.
pub fn plain_exact(nn: usize, nt: usize, max_rules: usize, max_syms: usize, max_rhs: usize) -> Vec<Vec<(u16, Rhs)>> {
    let rhs = rhs_all(nn, nt, max_rhs);
    let mut out = Vec::new();
    // choose sorted distinct (lhs, rhs index) pairs
    let mut cur: Vec<(u16, usize)> = Vec::new();
    let np: Vec<Vec<u16>> = perms(&(1..nn as u16).collect::<Vec<_>>());
    let tp: Vec<Vec<u16>> = perms(&(0..nt as u16).collect::<Vec<_>>());
    fn rec(
        cur: &mut Vec<(u16, usize)>,
        lhs: u16,
        from: usize,
        rules_left: usize,
        syms_left: usize,
        nn: usize,
        rhs: &[Rhs],
        f: &mut dyn FnMut(&[(u16, usize)]),
    ) {
        // `lhs` is the nonterminal being filled, `from` the next rhs candidate
        if cur.last().map_or(false, |(l, _)| *l == lhs) {
            if lhs as usize + 1 == nn {
                f(cur);
            } else if rules_left > 0 {
                rec(cur, lhs + 1, 0, rules_left, syms_left, nn, rhs, f);
            }
        }
        let need = nn - lhs as usize - 1;
        if rules_left == 0 || rules_left < need + (cur.last().map_or(true, |(l, _)| *l != lhs)) as usize {
            return;
        }
        for i in from..rhs.len() {
            if rhs[i].len() > syms_left {
                break;
            }
            cur.push((lhs, i));
            rec(cur, lhs, i + 1, rules_left - 1, syms_left - rhs[i].len(), nn, rhs, f);
            cur.pop();
        }
    }
    rec(&mut cur, 0, 0, max_rules, max_syms, nn, &rhs, &mut |c| {
        let g: Vec<(u16, &Rhs)> = c.iter().map(|(l, i)| (*l, &rhs[*i])).collect();
        // keep only the least of its renamings
        let base: BTreeSet<(u16, Rhs)> = g.iter().map(|(l, r)| (*l, (*r).clone())).collect();
        for p in &np {
            for q in &tp {
                let mn = |n: u16| if n == 0 { 0 } else { p[n as usize - 1] };
                let m: BTreeSet<(u16, Rhs)> = g
                    .iter()
                    .map(|(l, r)| {
                        (
                            mn(*l),
                            r.iter()
                                .map(|s| match s {
                                    Sym::T(t) => Sym::T(q[*t as usize]),
                                    Sym::N(n) => Sym::N(mn(*n)),
                                })
                                .collect(),
                        )
                    })
                    .collect();
                if m < base {
                    return;
                }
            }
        }
        out.push(base.into_iter().collect());
    });
    out
}

pub fn to_spec(label: &str, rules: &[(u16, Rhs)], nt: usize, nn: usize) -> Spec {
    let mut s = Spec::new(label, nt, nn);
    for (l, r) in rules {
        let v: Vec<Pat> = r
            .iter()
            .map(|x| match x {
                Sym::T(t) => Pat::T(*t),
                Sym::N(n) => Pat::N(*n),
            })
            .collect();
        s = s.p(*l, seq(v));
    }
    s
}

pub fn plain(nn: usize, nt: usize, max_rules: usize, max_syms: usize, max_rhs: usize) -> Vec<Spec> {
    let mut v = Vec::new();
    for n in 1..=nn {
        for g in plain_exact(n, nt, max_rules, max_syms, max_rhs) {
            v.push(to_spec("", &g, nt, n));
        }
    }
    v
}

pub fn reachable(v: Vec<Spec>) -> Vec<Spec> {
    v.into_iter().filter(|s| s.bnf().all_reachable()).collect()
}
/// The grammars with a symbol that derives nothing, or that the entry does not reach.
pub fn useless(v: Vec<Spec>) -> Vec<Spec> {
    v.into_iter()
        .filter(|s| {
            let b = s.bnf();
            !b.all_reachable() || !b.all_productive()
        })
        .collect()
}
/// The grammars with one of their rules written twice, next to itself and at the end.
pub fn repeated(v: &[Spec]) -> Vec<Spec> {
    let mut out = Vec::new();
    for s in v {
        for i in 0..s.prods.len() {
            let mut r = s.clone();
            r.prods.push(s.prods[i].clone());
            out.push(r);
            if i + 1 < s.prods.len() {
                let mut r = s.clone();
                r.prods.insert(i, s.prods[i].clone());
                out.push(r);
            }
        }
    }
    out
}
pub fn reduced(v: Vec<Spec>) -> Vec<Spec> {
    v.into_iter()
        .filter(|s| {
            let b = s.bnf();
            b.all_reachable() && b.all_productive()
        })
        .collect()
}

/// All EBNF patterns with exactly `size` nodes over the given leaves.
pub fn patterns(size: usize, leaves: &[Pat], max_arity: usize) -> Vec<Pat> {
    if size == 0 {
        return vec![];
    }
    if size == 1 {
        return leaves.to_vec();
    }
    let mut out = Vec::new();
    for p in patterns(size - 1, leaves, max_arity) {
        out.push(Pat::Opt(Box::new(p.clone())));
        out.push(Pat::Star(Box::new(p.clone())));
        out.push(Pat::Plus(Box::new(p)));
    }
    fn lists(n: usize, total: usize, leaves: &[Pat], ma: usize) -> Vec<Vec<Pat>> {
        if n == 0 {
            return if total == 0 { vec![vec![]] } else { vec![] };
        }
        let mut out = Vec::new();
        for first in 1..=total {
            if total - first < n - 1 {
                break;
            }
            let rest = lists(n - 1, total - first, leaves, ma);
            if rest.is_empty() {
                continue;
            }
            for p in patterns(first, leaves, ma) {
                for r in &rest {
                    let mut v = vec![p.clone()];
                    v.extend(r.iter().cloned());
                    out.push(v);
                }
            }
        }
        out
    }
    for n in 2..=max_arity {
        for l in lists(n, size - 1, leaves, max_arity) {
            out.push(Pat::Seq(l.clone()));
            out.push(Pat::Alt(l));
        }
    }
    out
}

/// Tokens occur in the order 0, 1, 2... of first occurrence.
fn first_occurrence(p: &Pat, next: &mut u16) -> bool {
    match p {
        Pat::T(t) => {
            if *t > *next {
                return false;
            }
            if *t == *next {
                *next += 1;
            }
            true
        }
        Pat::N(_) | Pat::Eps => true,
        Pat::Seq(v) | Pat::Alt(v) => v.iter().all(|p| first_occurrence(p, next)),
        Pat::Opt(p) | Pat::Star(p) | Pat::Plus(p) => first_occurrence(p, next),
    }
}

/// Grammars with one EBNF production of every pattern of up to `size` nodes over two tokens and
/// the empty pattern.
pub fn ebnf_single(size: usize) -> Vec<Spec> {
    let leaves = [Pat::T(0), Pat::T(1), Pat::Eps];
    let mut v = Vec::new();
    for n in 1..=size {
        for p in patterns(n, &leaves, 3) {
            let mut k = 0;
            if first_occurrence(&p, &mut k) {
                v.push(Spec::new("", 2, 1).p(0, p));
            }
        }
    }
    v
}

/// Every operator over a sequence or a choice of up to `n` parts, each a symbol or a symbol with an operator; the
/// whole alone, in the middle of a rule, and as a branch of a choice.
pub fn operators(n: usize) -> Vec<Spec> {
    let parts = |i: u16| {
        vec![t(i), Pat::Opt(Box::new(t(i))), Pat::Star(Box::new(t(i))), Pat::Plus(Box::new(t(i))), Pat::Alt(vec![t(i), n_(1)])]
    };
    let mut lists: Vec<Vec<Pat>> = vec![vec![]];
    let mut v = Vec::new();
    for len in 1..=n {
        let mut next = Vec::new();
        for l in &lists {
            // two tokens in turn
            for p in parts((l.len() % 2) as u16) {
                let mut l = l.clone();
                l.push(p);
                next.push(l);
            }
        }
        lists = next;
        if len < 2 {
            continue;
        }
        for (i, l) in lists.iter().enumerate() {
            for inner in [Pat::Seq(l.clone()), Pat::Alt(l.clone())] {
                for (k, outer) in [Pat::Opt(Box::new(inner.clone())), Pat::Star(Box::new(inner.clone())), Pat::Plus(Box::new(inner.clone())), inner.clone()].into_iter().enumerate() {
                    let whole = match (i + k) % 3 {
                        0 => outer,
                        1 => Pat::Seq(vec![t(2), outer, t(2)]),
                        _ => Pat::Alt(vec![t(2), outer]),
                    };
                    v.push(Spec::new("", 3, 2).p(0, whole).p(1, t(2)));
                }
            }
        }
    }
    v
}

/// An EBNF production that uses (and may recurse through) a second production.
pub fn ebnf_double(size: usize) -> Vec<Spec> {
    let leaves = [Pat::T(0), Pat::N(1), Pat::N(0)];
    let seconds: Vec<Pat> = vec![
        Pat::T(1),
        Pat::Opt(Box::new(Pat::T(1))),
        Pat::Plus(Box::new(Pat::T(1))),
        Pat::Alt(vec![Pat::T(1), Pat::Seq(vec![Pat::T(0), Pat::T(1)])]),
    ];
    let mut v = Vec::new();
    for n in 2..=size {
        for p in patterns(n, &leaves, 3) {
            let mut u = Vec::new();
            p.nts(&mut u);
            if !u.contains(&1) {
                continue;
            }
            for q in &seconds {
                let s = Spec::new("", 2, 2).p(0, p.clone()).p(1, q.clone());
                if s.bnf().all_productive() {
                    v.push(s);
                }
            }
        }
    }
    v
}

fn t(i: u16) -> Pat {
    Pat::T(i)
}
fn n(i: u16) -> Pat {
    Pat::N(i)
}

/// Grammars S -> p_i X q_j ..., X -> a, Y -> a over all context choices: separates LR(0), LALR
/// and canonical LR(1).
pub fn contexts() -> Vec<Spec> {
    let mut v = Vec::new();
    // subsets of the 8 rules  s -> (p|q) (x|y) (r|u)
    for mask in 1u32..256 {
        if mask.count_ones() > 5 || mask.count_ones() < 2 {
            continue;
        }
        let mut s = Spec::new(&format!("ctx{}", mask), 5, 3);
        for b in 0..8u16 {
            if mask >> b & 1 == 1 {
                s = s.p(0, Pat::Seq(vec![t(1 + (b & 1)), n(1 + (b >> 1 & 1)), t(3 + (b >> 2 & 1))]));
            }
        }
        let x = mask & 0b00110011 != 0;
        let y = mask & 0b11001100 != 0;
        if !(x && y) {
            continue;
        }
        let s = s.p(1, t(0)).p(2, t(0));
        v.push(s);
    }
    v
}

/// Named shapes: recursion kinds, nesting, nullable chains, classics.
pub fn shapes() -> Vec<Spec> {
    let mut v = Vec::new();
    let s = |l: &str, a, b| Spec::new(l, a, b);
    let sq = |x: Vec<Pat>| Pat::Seq(x);
    v.push(s("list-left", 2, 1).p(0, sq(vec![n(0), t(1), t(0)])).p(0, t(0)));
    v.push(s("list-right", 2, 1).p(0, sq(vec![t(0), t(1), n(0)])).p(0, t(0)));
    v.push(s("dyck", 2, 1).p(0, sq(vec![t(0), n(0), t(1), n(0)])).p(0, Pat::Eps));
    v.push(s("anbn", 2, 1).p(0, sq(vec![t(0), n(0), t(1)])).p(0, Pat::Eps));
    v.push(s("palin-even", 2, 1).p(0, sq(vec![t(0), n(0), t(0)])).p(0, sq(vec![t(1), n(0), t(1)])).p(0, Pat::Eps));
    v.push(s("ambig-expr", 2, 1).p(0, sq(vec![n(0), t(1), n(0)])).p(0, t(0)));
    v.push(s("ambig-concat", 1, 1).p(0, sq(vec![n(0), n(0)])).p(0, t(0)));
    v.push(s("ambig-triple", 1, 1).p(0, sq(vec![n(0), n(0), n(0)])).p(0, sq(vec![n(0), n(0)])).p(0, t(0)));
    // E -> E + T | T ; T -> T * F | F ; F -> ( E ) | i
    v.push(
        s("expr", 5, 3)
            .p(0, sq(vec![n(0), t(0), n(1)]))
            .p(0, n(1))
            .p(1, sq(vec![n(1), t(1), n(2)]))
            .p(1, n(2))
            .p(2, sq(vec![t(2), n(0), t(3)]))
            .p(2, t(4)),
    );
    // LL expression grammar
    v.push(
        s("expr-ll", 5, 5)
            .p(0, sq(vec![n(1), n(2)]))
            .p(2, sq(vec![t(0), n(1), n(2)]))
            .p(2, Pat::Eps)
            .p(1, sq(vec![n(3), n(4)]))
            .p(4, sq(vec![t(1), n(3), n(4)]))
            .p(4, Pat::Eps)
            .p(3, sq(vec![t(2), n(0), t(3)]))
            .p(3, t(4)),
    );
    // dangling else (ambiguous) and its matched/unmatched version
    v.push(s("dangling", 3, 1).p(0, sq(vec![t(0), n(0)])).p(0, sq(vec![t(0), n(0), t(1), n(0)])).p(0, t(2)));
    v.push(
        s("matched", 3, 3)
            .p(0, n(1))
            .p(0, n(2))
            .p(1, sq(vec![t(0), n(1), t(1), n(1)]))
            .p(1, t(2))
            .p(2, sq(vec![t(0), n(0)]))
            .p(2, sq(vec![t(0), n(1), t(1), n(2)])),
    );
    // assignment grammar: LALR, not SLR
    v.push(
        s("assign", 3, 3)
            .p(0, sq(vec![n(1), t(0), n(2)]))
            .p(0, n(2))
            .p(1, sq(vec![t(1), n(2)]))
            .p(1, t(2))
            .p(2, n(1)),
    );
    // nullable chains
    for k in 1..=4u16 {
        let mut g = s(&format!("nullable-chain-{}", k), k as usize + 1, k as usize + 1);
        let mut r: Vec<Pat> = (1..=k).map(n).collect();
        r.push(t(k));
        g = g.p(0, Pat::Seq(r));
        for i in 1..=k {
            g = g.p(i, t(i - 1)).p(i, Pat::Eps);
        }
        v.push(g);
        let mut g = s(&format!("nullable-tail-{}", k), k as usize + 1, k as usize + 1);
        let mut r: Vec<Pat> = vec![t(k)];
        r.extend((1..=k).map(n));
        g = g.p(0, Pat::Seq(r));
        for i in 1..=k {
            g = g.p(i, t(i - 1)).p(i, Pat::Eps);
        }
        v.push(g);
    }
    // unit chain
    for k in [1u16, 3, 6] {
        let mut g = s(&format!("unit-chain-{}", k), 1, k as usize + 1);
        for i in 0..k {
            g = g.p(i, n(i + 1));
        }
        v.push(g.p(k, t(0)));
    }
    // mutual recursion
    v.push(
        s("mutual", 3, 3)
            .p(0, sq(vec![t(0), n(1)]))
            .p(0, t(2))
            .p(1, sq(vec![t(1), n(2)]))
            .p(1, sq(vec![t(0), n(0)]))
            .p(2, sq(vec![n(0), t(1)])),
    );
    // LR(1) but not LALR
    v.push(
        s("lr1-not-lalr", 5, 3)
            .p(0, sq(vec![t(1), n(1), t(3)]))
            .p(0, sq(vec![t(2), n(2), t(3)]))
            .p(0, sq(vec![t(1), n(2), t(4)]))
            .p(0, sq(vec![t(2), n(1), t(4)]))
            .p(1, t(0))
            .p(2, t(0)),
    );
    // reduce/reduce between nullable alternatives
    v.push(s("rr-null", 2, 3).p(0, sq(vec![n(1), t(0)])).p(0, sq(vec![n(2), t(1)])).p(1, Pat::Eps).p(2, Pat::Eps));
    // entry used recursively in the middle, entry declared after its helpers
    v.push(s("entry-inner", 3, 2).p(1, sq(vec![t(0), n(0), t(1)])).p(1, t(2)).p(0, n(1)));
    {
        let mut g = s("entry-last", 2, 3).p(0, t(0)).p(1, sq(vec![n(0), n(0)])).p(2, sq(vec![n(1), t(1)])).p(2, n(1));
        g.entry = 2;
        v.push(g);
    }
    // EBNF mixes
    let opt = |p: Pat| Pat::Opt(Box::new(p));
    let star = |p: Pat| Pat::Star(Box::new(p));
    let plus = |p: Pat| Pat::Plus(Box::new(p));
    v.push(s("ebnf-list", 4, 2).p(0, sq(vec![t(0), opt(sq(vec![n(1), star(sq(vec![t(1), n(1)]))])), t(2)])).p(1, t(3)).p(1, n(0)));
    v.push(s("ebnf-plus-plus", 2, 1).p(0, sq(vec![plus(t(0)), plus(t(1))])));
    v.push(s("ebnf-star-of-seq", 3, 1).p(0, star(sq(vec![t(0), opt(t(1)), t(2)]))));
    v.push(s("ebnf-alt-deep", 4, 1).p(0, Pat::Alt(vec![sq(vec![t(0), t(1)]), sq(vec![t(2), Pat::Alt(vec![t(0), sq(vec![t(3), t(3)])])]), plus(t(3))])));
    v.push(s("ebnf-two-stars", 3, 2).p(0, sq(vec![star(t(0)), n(1), star(t(0))])).p(1, sq(vec![t(1), star(t(2))])));
    v.push(s("ebnf-nested-groups", 3, 1).p(0, sq(vec![plus(sq(vec![plus(t(0)), t(1)])), t(2)])));
    v.push(s("ebnf-opt-chain", 4, 1).p(0, sq(vec![opt(t(0)), opt(t(1)), opt(t(2)), t(3)])));
    v.push(s("ebnf-same-twice", 3, 2).p(0, sq(vec![n(1), t(2), n(1)])).p(1, star(Pat::Alt(vec![t(0), t(1)]))));
    v.push(s("ebnf-multi-rules", 3, 2).p(0, sq(vec![n(1), plus(t(1))])).p(0, sq(vec![t(2), star(t(0))])).p(1, t(0)).p(1, sq(vec![t(1), opt(t(2))])));
    // JSON-like
    v.push(
        s("json", 8, 4)
            // { } [ ] : , str num
            .p(0, n(1))
            .p(0, n(2))
            .p(0, t(6))
            .p(0, t(7))
            .p(1, sq(vec![t(0), opt(sq(vec![n(3), star(sq(vec![t(5), n(3)]))])), t(1)]))
            .p(2, sq(vec![t(2), opt(sq(vec![n(0), star(sq(vec![t(5), n(0)]))])), t(3)]))
            .p(3, sq(vec![t(6), t(4), n(0)])),
    );
    v
}

/// Alternative sets of a tagged production: which of the rules carry which tag.
pub fn tagged() -> Vec<Spec> {
    let mut v = Vec::new();
    let tag = |i: u8| match i {
        0 => None,
        1 => Some("one".to_string()),
        2 => Some("two".to_string()),
        _ => Some("three".to_string()),
    };
    // s = x y | y x | x ; x = A x | B ; y = C | D
    for m in 0..64u32 {
        let mut s = Spec::new(&format!("tags{}", m), 4, 3);
        let rules: Vec<(u16, Pat, u8)> = vec![
            (0, Pat::Seq(vec![n(1), n(2)]), 1),
            (0, Pat::Seq(vec![n(2), n(1)]), 2),
            (1, Pat::Seq(vec![t(0), n(1)]), 1),
            (1, t(1), 2),
            (2, t(2), 1),
            (2, t(3), 3),
        ];
        for (i, (l, p, g)) in rules.into_iter().enumerate() {
            s.prods.push(crate::spec::Prod { nt: l, tag: if m >> i & 1 == 1 { tag(g) } else { None }, pat: p });
        }
        v.push(s);
    }
    // tags on EBNF rules that expand to several rules, and on a single rule
    for m in 0..8u32 {
        let mut s = Spec::new(&format!("tagsebnf{}", m), 3, 2);
        let rules: Vec<(u16, Pat, u8)> = vec![
            (0, Pat::Seq(vec![Pat::Plus(Box::new(n(1))), Pat::Opt(Box::new(t(2)))]), 1),
            (0, Pat::Seq(vec![t(2), Pat::Alt(vec![t(0), Pat::Seq(vec![t(1), n(1)])])]), 2),
            (1, Pat::Seq(vec![t(0), Pat::Star(Box::new(t(1)))]), 3),
        ];
        for (i, (l, p, g)) in rules.into_iter().enumerate() {
            s.prods.push(crate::spec::Prod { nt: l, tag: if m >> i & 1 == 1 { tag(g) } else { None }, pat: p });
        }
        v.push(s);
    }
    v
}

/// `k` tokens in one flat choice, then a second token: many tokens, many states.
pub fn wide(k: usize) -> Spec {
    let mut s = Spec::new(&format!("wide{}", k), k, 2);
    for i in 0..k {
        s = s.p(1, t(i as u16));
    }
    s.p(0, Pat::Seq(vec![n(1), n(1)]))
}
/// Every rule right-hand side of up to `n` symbols over a token and two productions, `per` of them in a grammar, each
/// behind a token of its own.
pub fn rows(n: usize, per: usize) -> Vec<Spec> {
    let mut words: Vec<Vec<u16>> = Vec::new();
    let mut level: Vec<Vec<u16>> = vec![vec![]];
    for _ in 0..n {
        level = level.iter().flat_map(|w| (0..3).map(move |i| w.iter().copied().chain([i]).collect())).collect();
        words.extend(level.iter().filter(|w| w.len() > 1).cloned());
    }
    let mut v = Vec::new();
    for (k, c) in words.chunks(per).enumerate() {
        let mut s = Spec::new(&format!("rows{}", k), 3 + c.len(), 3);
        for (i, w) in c.iter().enumerate() {
            let mut r = vec![t(3 + i as u16)];
            r.extend(w.iter().map(|x| if *x == 0 { t(0) } else { n_(*x) }));
            s = s.p(0, Pat::Seq(r));
        }
        v.push(s.p(1, Pat::Seq(vec![t(1), t(0)])).p(2, t(2)).p(2, Pat::Seq(vec![t(1), n_(2), t(2)])));
    }
    v
}
fn n_(i: u16) -> Pat {
    Pat::N(i)
}
/// What can follow a symbol: x and y are the same token, and up to `k` optional symbols and a token (or nothing) come
/// after them; directly in the entry, and in the middle of a rule that has followers of its own.
pub fn followers(k: u16) -> Vec<Spec> {
    let mut v = Vec::new();
    let tail = |from: u16, n: u16, end: Option<u16>| {
        let mut r: Vec<Pat> = (0..n).map(|i| n_(3 + from + i)).collect();
        r.extend(end.map(|e| t(1 + e)));
        r
    };
    for i in 0..=k {
        for j in 0..=i {
            for (e, f) in [(Some(0), Some(0)), (Some(0), Some(1)), (None, Some(0)), (Some(0), None), (None, None)] {
                for shared in [false, true] {
                    for inner in [false, true] {
                        // the optional symbols of the two rules are the same ones, or different ones
                        let from = if shared { 0 } else { i };
                        let m = if shared { i } else { i + j };
                        let w = 3 + m;
                        let mut s = Spec::new(&format!("follow{}.{}.{:?}.{:?}.{}.{}", i, j, e, f, shared as u8, inner as u8), 3 + m as usize, (w + inner as u16) as usize);
                        let top = if inner { w } else { 0 };
                        if inner {
                            s = s.p(0, Pat::Seq(vec![n_(w), t(2)]));
                        }
                        for (h, r) in [(1, tail(0, i, e)), (2, tail(from, j, f))] {
                            let mut q = vec![n_(h)];
                            q.extend(r);
                            s = s.p(top, seq(q));
                        }
                        s = s.p(1, t(0)).p(2, t(0));
                        for o in 0..m {
                            s = s.p(3 + o, t(3 + o)).p(3 + o, Pat::Eps);
                        }
                        v.push(s);
                    }
                }
            }
        }
    }
    v
}

/// Rules of one production that end in the same state, so that only the next token tells which of them is complete: the
/// rules of z are y^i x (or y^i), each is used behind the right number of y's and before a token of its own (or the end).
pub fn rivals(k: usize) -> Vec<Spec> {
    let mut v = Vec::new();
    for n in 2..=k as u16 {
        // all orders of the tokens for small n, then some
        let mut orders: Vec<Vec<u16>> = vec![vec![]];
        for i in 0..n {
            orders = orders.iter().flat_map(|o| (0..=o.len()).map(move |at| { let mut p = o.clone(); p.insert(at, i); p })).collect();
        }
        let step = (orders.len() / 6).max(1);
        for o in orders.into_iter().step_by(step) {
            for (tail, end, lists) in [(true, false, false), (true, true, false), (false, false, false), (false, true, false), (true, false, true)] {
                let mut s = Spec::new(&format!("rivals{:?}{}{}{}", o, if tail { "" } else { "-empty" }, if end { "-end" } else { "" }, if lists { "-split" } else { "" }), 2 + n as usize, 2 + lists as usize);
                for i in 0..n {
                    let mut r: Vec<Pat> = (0..n - 1 - i).map(|_| t(0)).collect();
                    r.push(n_(1));
                    if !(end && i == 0) {
                        r.push(t(2 + o[i as usize]));
                    }
                    s = s.p(0, seq(r));
                }
                for i in 0..n {
                    let mut r: Vec<Pat> = (0..i).map(|_| t(0)).collect();
                    if tail {
                        r.push(t(1));
                    }
                    // or every other rule belongs to a second production that is used in the same place
                    let lhs = if lists && i % 2 == 1 { 2 } else { 1 };
                    s = s.p(lhs, if r.is_empty() { Pat::Eps } else { seq(r) });
                }
                if lists {
                    s = s.p(1, n_(2));
                }
                v.push(s);
            }
        }
    }
    v
}

/// Readings of the same tokens that only a later token tells apart: `k` lists of the same token, each before a token of
/// its own, reduced as they are read or at their end.
pub fn lanes(k: u16, right: bool) -> Spec {
    let mut s = Spec::new(&format!("lanes{}{}", k, if right { "-right" } else { "" }), 1 + k as usize, 1 + 2 * k as usize);
    for i in 0..k {
        let (l, p) = (n_(1 + 2 * i), n_(2 + 2 * i));
        s = s.p(0, seq(vec![l.clone(), t(1 + i)]));
        s = s.p(1 + 2 * i, seq(if right { vec![p.clone(), l] } else { vec![l, p.clone()] })).p(1 + 2 * i, p);
        s = s.p(2 + 2 * i, t(0));
    }
    s
}
/// The same for a single token before a second one: `k` stacks after it.
pub fn forks(k: u16) -> Spec {
    let mut s = Spec::new(&format!("forks{}", k), 1 + k as usize, 1 + k as usize);
    for i in 0..k {
        s = s.p(0, seq(vec![n_(1 + i), t(0), t(1 + i)])).p(1 + i, t(0));
    }
    s
}
pub fn undecided() -> Vec<Spec> {
    let mut v: Vec<Spec> = [2, 3, 9].into_iter().flat_map(|k| [lanes(k, false), lanes(k, true)]).collect();
    v.extend([2, 5, 8, 9, 12, 17, 33, 65].map(forks));
    v
}

/// A production of `k` rules, each a word of nine symbols: many rules and states of one production, few tokens.
pub fn words(k: usize) -> Spec {
    let mut s = Spec::new(&format!("words{}", k), 2, 1);
    for i in 0..k {
        s = s.p(0, Pat::Seq((0..9).rev().map(|b| t((i >> b & 1) as u16)).collect()));
    }
    s
}
/// `k` rules that only rename.
pub fn unit_chain(k: usize) -> Spec {
    let mut s = Spec::new(&format!("unit-chain-{}", k), 1, k);
    for i in 0..k as u16 - 1 {
        s = s.p(i, n(i + 1));
    }
    s.p(k as u16 - 1, t(0))
}
/// A choice of `k` tokens.
pub fn broad(k: usize) -> Spec {
    let mut s = Spec::new(&format!("broad{}", k), k, 2).p(0, n(1));
    for i in 0..k {
        s = s.p(1, t(i as u16));
    }
    s
}
/// Pairs out of `k` tokens, each with an option or a repetition behind it: many operators in a production.
pub fn groups(k: usize) -> Spec {
    let o = |i: usize| if i % 2 == 0 { Pat::Opt(Box::new(t(0))) } else { Pat::Star(Box::new(t(0))) };
    let inner = |j: usize| Pat::Alt((0..k).map(|i| Pat::Seq(vec![t(2 + i as u16), o(i + j)])).collect());
    let alts: Vec<Pat> = (0..k).map(|i| Pat::Seq(vec![t(2 + i as u16), inner(i)])).collect();
    Spec::new(&format!("groups{}", k), 2 + k, 1).p(0, Pat::Seq(vec![Pat::Alt(alts), t(1)]))
}
/// `k` options in a row.
pub fn options(k: usize) -> Spec {
    let opts: Vec<Pat> = (0..k).map(|i| Pat::Opt(Box::new(t(i as u16)))).collect();
    Spec::new(&format!("options{}", k), k, 1).p(0, Pat::Seq(opts))
}
/// A chain of `k` productions that rename, written along the chain or against it, with an empty end, used between two
/// other symbols: what may begin and what may follow has to travel through all of it. With `clash` the end of the chain
/// may also be the token that follows.
pub fn chain(k: usize, back: bool, clash: bool) -> Spec {
    let at = |i: usize| 2 + i as u16;
    let mut s = Spec::new(&format!("chain{}{}{}", k, if back { "-back" } else { "" }, if clash { "-clash" } else { "" }), 3, 2 + k);
    s = s.p(0, Pat::Seq(vec![n(1), n(at(0)), t(1)])).p(1, t(2));
    for i in 0..k - 1 {
        s = s.p(at(i), n(at(i + 1)));
    }
    s = s.p(at(k - 1), t(0)).p(at(k - 1), Pat::Eps);
    if clash {
        s = s.p(at(k - 1), t(1));
    }
    if back {
        s.prods.reverse();
    }
    s
}
/// Sums with `k` left-associative operators; with `clash` the operand can be read in two ways.
pub fn binary(k: usize, clash: bool) -> Spec {
    let mut s = Spec::new(&format!("binary{}{}", k, if clash { "-clash" } else { "" }), 1 + k, 2 + clash as usize);
    for i in 0..k as u16 {
        s = s.p(0, Pat::Seq(vec![n(0), t(1 + i), n(1)]));
    }
    s = s.p(0, n(1)).p(1, t(0));
    if clash {
        s = s.p(1, n(2)).p(2, t(0));
    }
    s
}
/// One production in `k` contexts, each with its own token before and behind: states that LALR(1) merges.
pub fn merged(k: usize) -> Spec {
    let mut s = Spec::new(&format!("merged{}", k), 1 + 2 * k, 2);
    for i in 0..k as u16 {
        s = s.p(0, Pat::Seq(vec![t(1 + i), n(1), t(1 + k as u16 + i)]));
    }
    s.p(1, t(0))
}
/// More rules, states, tokens and helper symbols than a byte can count.
pub fn scale() -> Vec<Spec> {
    vec![words(300), unit_chain(300), broad(300), groups(17), options(40), chain(300, false, false), chain(300, true, false), merged(60), binary(60, false)]
}
/// Many operators over few symbols: every word up to `n` tokens in a choice of its own kind, rows of operators, many
/// productions with operators, and operators nested `d` deep.
pub fn operators_galore(n: usize, d: usize) -> Vec<Spec> {
    let op = |i: usize, p: Pat| match i % 4 {
        0 => Pat::Opt(Box::new(p)),
        1 => Pat::Star(Box::new(p)),
        2 => Pat::Plus(Box::new(p)),
        _ => p,
    };
    let mut words: Vec<Vec<Pat>> = vec![];
    for len in 1..=n {
        words.extend((0..1 << len).map(|w: u32| (0..len).map(|b| t((w >> b & 1) as u16)).collect::<Vec<_>>()));
    }
    let mut v = Vec::new();
    for shift in 0..4 {
        v.push(Spec::new(&format!("galore-choice{}.{}", n, shift), 2, 1).p(0, Pat::Alt(words.iter().enumerate().map(|(i, w)| op(i + shift, seq(w.clone()))).collect())));
        let mut s = Spec::new(&format!("galore-rules{}.{}", n, shift), 2, 1 + words.len());
        for (i, w) in words.iter().enumerate() {
            s = s.p(1 + i as u16, Pat::Seq(vec![op(i + shift, seq(w.clone())), t(0)])).p(0, Pat::Seq(vec![t(1), n_(1 + i as u16)]));
        }
        v.push(s);
    }
    for k in [130, 258, 300] {
        v.push(Spec::new(&format!("galore-row{}", k), 2, 1).p(0, Pat::Seq((0..k).map(|i| op(i % 3 % 2, t((i % 2) as u16))).collect())));
    }
    for kinds in [[0, 1, 2], [0, 2, 2], [1, 1, 2], [2, 2, 2]] {
        let mut p = t(0);
        for i in 0..d {
            p = op(kinds[i % 3], Pat::Seq(vec![t((i % 2) as u16), p]));
        }
        v.push(Spec::new(&format!("galore-deep{}.{:?}", d, kinds), 2, 1).p(0, p));
        let mut p = t(0);
        for i in 0..d {
            p = Pat::Alt(vec![op(kinds[i % 3], Pat::Seq(vec![t((i % 2) as u16), p])), t(1)]);
        }
        v.push(Spec::new(&format!("galore-deep-choice{}.{:?}", d, kinds), 2, 1).p(0, p));
    }
    v
}

/// A chain of `k` distinct states: s = A B A B ... (k symbols)
pub fn long(k: usize) -> Spec {
    let r: Vec<Pat> = (0..k).map(|i| t((i % 3 == 2) as u16)).collect();
    Spec::new(&format!("long{}", k), 2, 1).p(0, Pat::Seq(r))
}
/// `k` nonterminals, each with its own token, chained right-recursively.
pub fn deep(k: usize) -> Spec {
    let mut s = Spec::new(&format!("deep{}", k), k + 1, k);
    for i in 0..k as u16 {
        if (i as usize) + 1 < k {
            s = s.p(i, Pat::Seq(vec![t(i), n(i + 1)]));
            s = s.p(i, t(k as u16));
        } else {
            s = s.p(i, t(i));
        }
    }
    s
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn sizes() {
        for (a, b, r, y, l) in [(1, 1, 3, 6, 3), (1, 2, 3, 6, 3), (2, 1, 4, 6, 3), (2, 2, 4, 4, 2), (2, 2, 4, 5, 3), (2, 2, 4, 6, 3), (2, 2, 4, 6, 2), (2, 2, 5, 7, 3), (3, 2, 5, 5, 2), (3, 2, 5, 6, 2)] {
            let start = std::time::Instant::now();
            let v = plain(a, b, r, y, l);
            let all = v.len();
            let red = reduced(v);
            println!("{:?}: {} reduced {} {:?}", (a, b, r, y, l), all, red.len(), start.elapsed());
        }
        for s in 1..7 {
            println!("ebnf {} {} {}", s, ebnf_single(s).len(), ebnf_double(s).len());
        }
        println!("ctx {}", contexts().len());
    }
}
