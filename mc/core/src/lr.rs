//! Independent construction of LR(0), canonical LR(1) and LALR(1) automata and of LL(1) tables.
use crate::cfg::{Bnf, Sym};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// Set of lookahead tokens; bit `nt` is the end of input.
pub type La = u128;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Lr0,
    Lr1,
    Lalr,
}

/// Rule index `bnf.rules.len()` is the augmented rule S' -> S.
pub struct Automaton {
    pub states: Vec<BTreeMap<(usize, usize), La>>,
    pub trans: Vec<BTreeMap<Sym, usize>>,
}

#[derive(Clone, Debug, Default)]
pub struct Conflicts {
    /// (completed rule, token that could also be shifted)
    pub shift_reduce: BTreeSet<(usize, u16)>,
    /// two rules complete for the same lookahead in one state (r1 < r2)
    pub reduce_reduce: BTreeSet<(usize, usize)>,
}
impl Conflicts {
    pub fn is_empty(&self) -> bool {
        self.shift_reduce.is_empty() && self.reduce_reduce.is_empty()
    }
}

pub struct Firsts {
    pub nullable: Vec<bool>,
    pub first: Vec<La>,
    pub follow: Vec<La>,
}

pub fn firsts(b: &Bnf) -> Firsts {
    assert!(b.nt < 127);
    let nullable = b.nullable();
    let mut first = vec![0 as La; b.nn];
    loop {
        let mut ch = false;
        for (l, r) in &b.rules {
            let f = first_of(r, &nullable, &first).0;
            if first[*l as usize] | f != first[*l as usize] {
                first[*l as usize] |= f;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let mut follow = vec![0 as La; b.nn];
    follow[b.start as usize] |= 1 << b.nt;
    loop {
        let mut ch = false;
        for (l, r) in &b.rules {
            for (i, s) in r.iter().enumerate() {
                if let Sym::N(x) = s {
                    let (mut f, n) = first_of(&r[i + 1..], &nullable, &first);
                    if n {
                        f |= follow[*l as usize];
                    }
                    if follow[*x as usize] | f != follow[*x as usize] {
                        follow[*x as usize] |= f;
                        ch = true;
                    }
                }
            }
        }
        if !ch {
            break;
        }
    }
    Firsts { nullable, first, follow }
}

pub fn first_of(r: &[Sym], nullable: &[bool], first: &[La]) -> (La, bool) {
    let mut f = 0;
    for s in r {
        match s {
            Sym::T(t) => return (f | 1 << *t, false),
            Sym::N(x) => {
                f |= first[*x as usize];
                if !nullable[*x as usize] {
                    return (f, false);
                }
            }
        }
    }
    (f, true)
}

/// LL(1) table: (nonterminal, lookahead) -> rules selected.
pub fn ll1(b: &Bnf) -> BTreeMap<(u16, u16), Vec<usize>> {
    let f = firsts(b);
    let mut t: BTreeMap<(u16, u16), Vec<usize>> = BTreeMap::new();
    for (i, (l, r)) in b.rules.iter().enumerate() {
        let (mut s, n) = first_of(r, &f.nullable, &f.first);
        if n {
            s |= f.follow[*l as usize];
        }
        for a in 0..=b.nt {
            if s >> a & 1 == 1 {
                t.entry((*l, a as u16)).or_default().push(i);
            }
        }
    }
    t
}

struct Gen<'a> {
    b: &'a Bnf,
    f: Firsts,
    by: Vec<Vec<usize>>,
    aug: Vec<Sym>,
    lr0: bool,
}
impl<'a> Gen<'a> {
    fn new(b: &'a Bnf, lr0: bool) -> Self {
        let mut by = vec![Vec::new(); b.nn];
        for (i, (l, _)) in b.rules.iter().enumerate() {
            by[*l as usize].push(i);
        }
        Gen { b, f: firsts(b), by, aug: vec![Sym::N(b.start)], lr0 }
    }
    fn rhs(&self, r: usize) -> &[Sym] {
        if r == self.b.rules.len() {
            &self.aug
        } else {
            &self.b.rules[r].1
        }
    }
    fn closure(&self, set: &mut BTreeMap<(usize, usize), La>) {
        let mut todo: Vec<(usize, usize)> = set.keys().cloned().collect();
        while let Some((r, d)) = todo.pop() {
            let la = set[&(r, d)];
            let rhs = self.rhs(r);
            if let Some(Sym::N(x)) = rhs.get(d) {
                let (mut f, n) = first_of(&rhs[d + 1..], &self.f.nullable, &self.f.first);
                if n {
                    f |= la;
                }
                if self.lr0 {
                    f = la;
                }
                if f == 0 {
                    // an LR(1) item needs a lookahead: what follows derives no string
                    continue;
                }
                for &q in &self.by[*x as usize] {
                    match set.get_mut(&(q, 0)) {
                        Some(old) => {
                            if *old | f != *old {
                                *old |= f;
                                todo.push((q, 0));
                            }
                        }
                        None => {
                            set.insert((q, 0), f);
                            todo.push((q, 0));
                        }
                    }
                }
            }
        }
    }
}

pub fn automaton(b: &Bnf, kind: Kind) -> Automaton {
    let all: La = if b.nt >= 127 { !0 } else { (1 << (b.nt + 1)) - 1 };
    let lr0 = kind == Kind::Lr0;
    let g = Gen::new(b, lr0);
    let mut start = BTreeMap::new();
    start.insert((b.rules.len(), 0), 1 << b.nt);
    g.closure(&mut start);
    let norm = |mut s: BTreeMap<(usize, usize), La>| {
        if lr0 {
            for v in s.values_mut() {
                *v = all;
            }
        }
        s
    };
    let start = norm(start);
    let mut states = vec![start.clone()];
    let mut index = HashMap::new();
    index.insert(start, 0usize);
    let mut trans: Vec<BTreeMap<Sym, usize>> = Vec::new();
    let mut i = 0;
    while i < states.len() {
        let mut kernels: BTreeMap<Sym, BTreeMap<(usize, usize), La>> = BTreeMap::new();
        for ((r, d), la) in &states[i] {
            if let Some(s) = g.rhs(*r).get(*d) {
                kernels.entry(*s).or_default().insert((*r, *d + 1), *la);
            }
        }
        let mut t = BTreeMap::new();
        for (s, mut k) in kernels {
            g.closure(&mut k);
            let k = norm(k);
            let n = states.len();
            let id = *index.entry(k.clone()).or_insert(n);
            if id == n {
                states.push(k);
            }
            t.insert(s, id);
        }
        trans.push(t);
        i += 1;
    }
    if kind != Kind::Lalr {
        return Automaton { states, trans };
    }
    let mut core_ix: HashMap<Vec<(usize, usize)>, usize> = HashMap::new();
    let mut map = Vec::new();
    let mut ms: Vec<BTreeMap<(usize, usize), La>> = Vec::new();
    for s in &states {
        let core: Vec<_> = s.keys().cloned().collect();
        let n = ms.len();
        let id = *core_ix.entry(core).or_insert(n);
        if id == n {
            ms.push(s.clone());
        } else {
            for (k, v) in s {
                *ms[id].get_mut(k).unwrap() |= v;
            }
        }
        map.push(id);
    }
    let mut mt = vec![BTreeMap::new(); ms.len()];
    for (i, t) in trans.iter().enumerate() {
        for (s, j) in t {
            let o = mt[map[i]].insert(*s, map[*j]);
            assert!(o.is_none() || o == Some(map[*j]));
        }
    }
    Automaton { states: ms, trans: mt }
}

/// Actions of one state for one lookahead.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Cell {
    pub shift: Option<usize>,
    pub reduce: Vec<usize>,
    pub accept: bool,
}
impl Cell {
    pub fn actions(&self) -> usize {
        self.shift.is_some() as usize + self.reduce.len() + self.accept as usize
    }
}

impl Automaton {
    /// The completed item S' -> S . acts on the end of input only, whatever the algorithm.
    pub fn cell(&self, b: &Bnf, state: usize, a: u16) -> Cell {
        let mut c = Cell::default();
        if (a as usize) < b.nt {
            c.shift = self.trans[state].get(&Sym::T(a)).copied();
        }
        for ((r, d), la) in &self.states[state] {
            if *r == b.rules.len() {
                if *d == 1 && a as usize == b.nt {
                    c.accept = true;
                }
            } else if *d == b.rules[*r].1.len() && la >> a & 1 == 1 {
                c.reduce.push(*r);
            }
        }
        c
    }
    pub fn conflicts(&self, b: &Bnf) -> Conflicts {
        let mut c = Conflicts::default();
        for s in 0..self.states.len() {
            for a in 0..=b.nt as u16 {
                let cell = self.cell(b, s, a);
                if cell.shift.is_some() {
                    for r in &cell.reduce {
                        c.shift_reduce.insert((*r, a));
                    }
                }
                let mut rs = cell.reduce.clone();
                if cell.accept {
                    rs.push(b.rules.len());
                }
                for i in 0..rs.len() {
                    for j in i + 1..rs.len() {
                        c.reduce_reduce.insert((rs[i].min(rs[j]), rs[i].max(rs[j])));
                    }
                }
            }
        }
        c
    }
    /// Deterministic run: Ok(reductions) or Err(index of the refused token). Conflict-free only.
    pub fn run(&self, b: &Bnf, w: &[u16]) -> Result<Vec<usize>, usize> {
        let mut st = vec![0usize];
        let mut out = Vec::new();
        let mut i = 0;
        loop {
            let a = w.get(i).copied().unwrap_or(b.nt as u16);
            let c = self.cell(b, *st.last().unwrap(), a);
            if let Some(t) = c.shift {
                st.push(t);
                i += 1;
            } else if let Some(r) = c.reduce.first() {
                let (l, rhs) = &b.rules[*r];
                st.truncate(st.len() - rhs.len());
                let t = self.trans[*st.last().unwrap()][&Sym::N(*l)];
                st.push(t);
                out.push(*r);
            } else if c.accept {
                return Ok(out);
            } else {
                return Err(i);
            }
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::families;
    #[test]
    fn inclusion_and_language() {
        let mut n = [0usize; 4];
        for g in families::plain(2, 2, 4, 6, 3) {
            let b = g.bnf();
            let c0 = automaton(&b, Kind::Lr0).conflicts(&b).is_empty();
            let la = automaton(&b, Kind::Lalr);
            let c1 = la.conflicts(&b).is_empty();
            let c2 = automaton(&b, Kind::Lr1).conflicts(&b).is_empty();
            assert!(!c0 || c1);
            assert!(!c1 || c2);
            let reduced = b.all_productive() && b.all_reachable();
            let ll = ll1(&b).values().all(|v| v.len() == 1);
            if ll && reduced {
                assert!(c2, "{}", g.brief());
            }
            n[0] += 1;
            n[1] += c0 as usize;
            n[2] += c1 as usize;
            n[3] += c2 as usize;
            if c1 && b.all_productive() {
                for w in crate::cfg::all_strings(2, 4) {
                    assert_eq!(la.run(&b, &w).is_ok(), b.accepts(&w), "{} {:?}", g.brief(), w);
                    assert!(b.count_trees(&w).map_or(false, |c| c <= 1));
                }
            }
        }
        println!("{:?}", n);
    }
}
