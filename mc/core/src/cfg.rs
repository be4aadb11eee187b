//! Reference semantics of context-free grammars: bounded languages, membership, derivation
//! counts, viable prefixes, structural predicates.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sym {
    T(u16),
    N(u16),
}

#[derive(Clone, Debug)]
pub struct Bnf {
    pub names: Vec<String>,
    pub nt: usize, // number of terminals
    pub nn: usize, // number of nonterminals
    pub rules: Vec<(u16, Vec<Sym>)>,
    pub start: u16,
}

/// Numbering of all strings over `m` letters of length <= k.
#[derive(Clone, Debug)]
pub struct Strings {
    pub m: usize,
    pub k: usize,
    pub off: Vec<usize>,
    pub pow: Vec<usize>,
}

impl Strings {
    pub fn new(m: usize, k: usize) -> Strings {
        let mut off = vec![0];
        let mut pow = vec![1];
        for l in 0..=k {
            off.push(off[l] + pow[l]);
            pow.push(pow[l] * m.max(1));
        }
        if m == 0 {
            // only the empty string
            for l in 1..off.len() {
                off[l] = 1;
            }
            for p in pow.iter_mut().skip(1) {
                *p = 0;
            }
        }
        Strings { m, k, off, pow }
    }
    pub fn total(&self) -> usize {
        self.off[self.k + 1]
    }
    pub fn index(&self, w: &[u16]) -> usize {
        let mut v = 0;
        for c in w {
            v = v * self.m + *c as usize;
        }
        self.off[w.len()] + v
    }
    pub fn string(&self, i: usize) -> Vec<u16> {
        let l = self.len(i);
        let mut v = i - self.off[l];
        let mut w = vec![0; l];
        for j in (0..l).rev() {
            w[j] = (v % self.m) as u16;
            v /= self.m;
        }
        w
    }
    pub fn len(&self, i: usize) -> usize {
        let mut l = 0;
        while self.off[l + 1] <= i {
            l += 1;
        }
        l
    }
}

pub fn all_strings(m: usize, k: usize) -> Vec<Vec<u16>> {
    let s = Strings::new(m, k);
    (0..s.total()).map(|i| s.string(i)).collect()
}

#[derive(Clone)]
struct BitSet {
    w: Vec<u64>,
}
impl BitSet {
    fn new(n: usize) -> Self {
        BitSet { w: vec![0; n.div_ceil(64)] }
    }
    fn get(&self, i: usize) -> bool {
        self.w[i / 64] >> (i % 64) & 1 == 1
    }
    fn set(&mut self, i: usize) -> bool {
        let o = self.w[i / 64];
        self.w[i / 64] |= 1 << (i % 64);
        o != self.w[i / 64]
    }
    fn iter(&self) -> impl Iterator<Item = usize> + '_ {
        self.w.iter().enumerate().flat_map(|(i, w)| {
            let mut w = *w;
            std::iter::from_fn(move || {
                if w == 0 {
                    None
                } else {
                    let b = w.trailing_zeros() as usize;
                    w &= w - 1;
                    Some(i * 64 + b)
                }
            })
        })
    }
}

pub struct Langs {
    pub strings: Strings,
    sets: Vec<BitSet>,
}
impl Langs {
    pub fn has(&self, nt: u16, i: usize) -> bool {
        self.sets[nt as usize].get(i)
    }
    pub fn words(&self, nt: u16) -> Vec<Vec<u16>> {
        self.sets[nt as usize].iter().map(|i| self.strings.string(i)).collect()
    }
}

/// Number of derivations of (symbol, from, to) and of (rest of a rule, from, to).
#[derive(Default)]
struct TreeMemo(std::collections::HashMap<(u16, usize, usize), Option<u64>>, std::collections::HashMap<(usize, usize, usize), Option<u64>>);

impl Bnf {
    pub fn fresh(&mut self) -> u16 {
        self.nn += 1;
        self.names.push(format!("h{}", self.nn));
        (self.nn - 1) as u16
    }
    pub fn show_rule(&self, r: usize) -> String {
        let (l, rhs) = &self.rules[r];
        let mut o = format!("{} ->", self.names[*l as usize]);
        for s in rhs {
            match s {
                Sym::T(t) => o.push_str(&format!(" t{}", t)),
                Sym::N(n) => o.push_str(&format!(" {}", self.names[*n as usize])),
            }
        }
        o
    }

    /// For every nonterminal, the set of all strings of length <= k it derives (least fixpoint).
    pub fn langs(&self, k: usize) -> Langs {
        let st = Strings::new(self.nt, k);
        let n = st.total();
        let mut sets: Vec<BitSet> = (0..self.nn).map(|_| BitSet::new(n)).collect();
        // lists by length, to make concatenation cheap
        let lens: Vec<u8> = (0..n).map(|i| st.len(i) as u8).collect();
        loop {
            let mut changed = false;
            for (lhs, rhs) in &self.rules {
                let mut cur: Vec<usize> = vec![0];
                for s in rhs {
                    let mut next = BitSet::new(n);
                    match s {
                        Sym::T(t) => {
                            for &c in &cur {
                                let l = lens[c] as usize;
                                if l < k {
                                    next.set(st.off[l + 1] + (c - st.off[l]) * st.m + *t as usize);
                                }
                            }
                        }
                        Sym::N(m) => {
                            let rhs: Vec<usize> = sets[*m as usize].iter().collect();
                            for &c in &cur {
                                let l = lens[c] as usize;
                                for &d in &rhs {
                                    let l2 = lens[d] as usize;
                                    if l + l2 > k {
                                        break; // strings are ordered by length
                                    }
                                    next.set(st.off[l + l2] + (c - st.off[l]) * st.pow[l2] + (d - st.off[l2]));
                                }
                            }
                        }
                    }
                    cur = next.iter().collect();
                    if cur.is_empty() {
                        break;
                    }
                }
                for c in cur {
                    changed |= sets[*lhs as usize].set(c);
                }
            }
            if !changed {
                break;
            }
        }
        Langs { strings: st, sets }
    }

    pub fn nullable(&self) -> Vec<bool> {
        let mut n = vec![false; self.nn];
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                if !n[*l as usize]
                    && r.iter().all(|s| match s {
                        Sym::T(_) => false,
                        Sym::N(x) => n[*x as usize],
                    })
                {
                    n[*l as usize] = true;
                    ch = true;
                }
            }
            if !ch {
                return n;
            }
        }
    }
    pub fn productive(&self) -> Vec<bool> {
        let mut n = vec![false; self.nn];
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                if !n[*l as usize]
                    && r.iter().all(|s| match s {
                        Sym::T(_) => true,
                        Sym::N(x) => n[*x as usize],
                    })
                {
                    n[*l as usize] = true;
                    ch = true;
                }
            }
            if !ch {
                return n;
            }
        }
    }
    pub fn reachable(&self) -> Vec<bool> {
        let mut n = vec![false; self.nn];
        n[self.start as usize] = true;
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                if n[*l as usize] {
                    for s in r {
                        if let Sym::N(x) = s {
                            if !n[*x as usize] {
                                n[*x as usize] = true;
                                ch = true;
                            }
                        }
                    }
                }
            }
            if !ch {
                return n;
            }
        }
    }
    pub fn all_productive(&self) -> bool {
        self.productive().iter().all(|b| *b)
    }
    pub fn all_reachable(&self) -> bool {
        self.reachable().iter().all(|b| *b)
    }
    fn closure(n: usize, edges: &[(usize, usize)]) -> Vec<Vec<bool>> {
        let mut r = vec![vec![false; n]; n];
        for (a, b) in edges {
            r[*a][*b] = true;
        }
        for k in 0..n {
            for i in 0..n {
                if r[i][k] {
                    for j in 0..n {
                        if r[k][j] {
                            r[i][j] = true;
                        }
                    }
                }
            }
        }
        r
    }
    /// A =>+ A for some A
    pub fn cyclic(&self) -> bool {
        let nl = self.nullable();
        let mut e = Vec::new();
        for (l, r) in &self.rules {
            for (i, s) in r.iter().enumerate() {
                if let Sym::N(x) = s {
                    let rest = r.iter().enumerate().all(|(j, t)| j == i || matches!(t, Sym::N(y) if nl[*y as usize]));
                    if rest {
                        e.push((*l as usize, *x as usize));
                    }
                }
            }
        }
        let c = Self::closure(self.nn, &e);
        (0..self.nn).any(|i| c[i][i])
    }
    /// A =>+ B A g with B nonempty and nullable
    pub fn hidden_left_recursion(&self) -> bool {
        let nl = self.nullable();
        let mut all = Vec::new();
        let mut hidden = Vec::new();
        for (l, r) in &self.rules {
            for (i, s) in r.iter().enumerate() {
                if let Sym::N(x) = s {
                    all.push((*l as usize, *x as usize));
                    if i > 0 {
                        hidden.push((*l as usize, *x as usize));
                    }
                    if !nl[*x as usize] {
                        break;
                    }
                } else {
                    break;
                }
            }
        }
        let c = Self::closure(self.nn, &all);
        hidden.iter().any(|(a, b)| a == b || c[*b][*a])
    }
    pub fn left_recursive(&self) -> bool {
        let nl = self.nullable();
        let mut all = Vec::new();
        for (l, r) in &self.rules {
            for s in r.iter() {
                if let Sym::N(x) = s {
                    all.push((*l as usize, *x as usize));
                    if !nl[*x as usize] {
                        break;
                    }
                } else {
                    break;
                }
            }
        }
        let c = Self::closure(self.nn, &all);
        (0..self.nn).any(|i| c[i][i])
    }

    pub fn spans(&self, w: &[u16]) -> Spans {
        let n = w.len();
        let mut d = Spans { n, d: vec![vec![0u64; n + 1]; self.nn] };
        assert!(n < 63);
        // d[nt][i] = bit set of ends j
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                for i in 0..=n {
                    let e = self.seq_ends(r, w, i, &d);
                    let o = d.d[*l as usize][i];
                    if o | e != o {
                        d.d[*l as usize][i] |= e;
                        ch = true;
                    }
                }
            }
            if !ch {
                return d;
            }
        }
    }
    fn seq_ends(&self, r: &[Sym], w: &[u16], i: usize, d: &Spans) -> u64 {
        let mut cur: u64 = 1 << i;
        for s in r {
            let mut next = 0u64;
            let mut c = cur;
            while c != 0 {
                let p = c.trailing_zeros() as usize;
                c &= c - 1;
                match s {
                    Sym::T(t) => {
                        if p < w.len() && w[p] == *t {
                            next |= 1 << (p + 1);
                        }
                    }
                    Sym::N(x) => next |= d.d[*x as usize][p],
                }
            }
            cur = next;
            if cur == 0 {
                break;
            }
        }
        cur
    }
    /// Earley's recognizer, for strings of any length: whether `w` is a sentence, otherwise the index of the first token
    /// that cannot continue one (its length if that is the end). Every production must be productive.
    pub fn earley(&self, w: &[u16]) -> Result<(), usize> {
        let nl = self.nullable();
        let mut by: Vec<Vec<usize>> = vec![vec![]; self.nn];
        for (i, (l, _)) in self.rules.iter().enumerate() {
            by[*l as usize].push(i);
        }
        // items: rule, dot, origin
        type Item = (u32, u32, u32);
        let mut waiting: Vec<Vec<Vec<Item>>> = Vec::new();
        let mut kernel: Vec<Item> = by[self.start as usize].iter().map(|r| (*r as u32, 0, 0)).collect();
        for i in 0..=w.len() {
            waiting.push(vec![vec![]; self.nn]);
            let mut seen: std::collections::HashSet<Item> = kernel.iter().copied().collect();
            let mut todo: Vec<Item> = seen.iter().copied().collect();
            let mut predicted = vec![false; self.nn];
            let mut next = Vec::new();
            let mut done = false;
            while let Some((r, d, o)) = todo.pop() {
                let (l, rhs) = &self.rules[r as usize];
                match rhs.get(d as usize) {
                    Some(Sym::T(t)) => {
                        if w.get(i) == Some(t) {
                            next.push((r, d + 1, o));
                        }
                    }
                    Some(Sym::N(x)) => {
                        let x = *x as usize;
                        waiting[i][x].push((r, d, o));
                        if !predicted[x] {
                            predicted[x] = true;
                            for q in &by[x] {
                                let it = (*q as u32, 0, i as u32);
                                if seen.insert(it) {
                                    todo.push(it);
                                }
                            }
                        }
                        // what derives nothing is passed at once
                        if nl[x] && seen.insert((r, d + 1, o)) {
                            todo.push((r, d + 1, o));
                        }
                    }
                    None => {
                        done |= o == 0 && *l == self.start;
                        if (o as usize) < i {
                            for k in 0..waiting[o as usize][*l as usize].len() {
                                let (r, d, o) = waiting[o as usize][*l as usize][k];
                                if seen.insert((r, d + 1, o)) {
                                    todo.push((r, d + 1, o));
                                }
                            }
                        }
                    }
                }
            }
            if i == w.len() {
                return if done { Ok(()) } else { Err(i) };
            }
            if next.is_empty() {
                return Err(i);
            }
            next.sort();
            next.dedup();
            kernel = next;
        }
        unreachable!()
    }
    pub fn accepts(&self, w: &[u16]) -> bool {
        self.spans(w).d[self.start as usize][0] >> w.len() & 1 == 1
    }
    /// Number of parse trees of `w`; None if infinite.
    pub fn count_trees(&self, w: &[u16]) -> Option<u64> {
        let d = self.spans(w);
        let n = w.len();
        if d.d[self.start as usize][0] >> n & 1 == 0 {
            return Some(0);
        }
        let mut memo = TreeMemo::default();
        self.count_nt(self.start, 0, n, w, &d, &mut memo)
    }
    fn count_nt(&self, x: u16, i: usize, j: usize, w: &[u16], d: &Spans, memo: &mut TreeMemo) -> Option<u64> {
        if let Some(v) = memo.0.get(&(x, i, j)) {
            return *v; // None while in progress: infinitely ambiguous
        }
        memo.0.insert((x, i, j), None);
        let mut sum = 0u64;
        for (l, r) in &self.rules {
            if *l == x {
                sum = sum.saturating_add(self.count_seq(r, i, j, w, d, memo)?);
            }
        }
        memo.0.insert((x, i, j), Some(sum));
        Some(sum)
    }
    fn count_seq(&self, r: &[Sym], i: usize, j: usize, w: &[u16], d: &Spans, memo: &mut TreeMemo) -> Option<u64> {
        if r.is_empty() {
            return Some((i == j) as u64);
        }
        match r[0] {
            Sym::T(t) => {
                if i < w.len() && w[i] == t {
                    self.count_seq(&r[1..], i + 1, j, w, d, memo)
                } else {
                    Some(0)
                }
            }
            Sym::N(x) => {
                // long right-hand sides: remember the rest of the rule
                let key = (r.len() > 8).then(|| (r.as_ptr() as usize, i, j));
                if let Some(v) = key.and_then(|k| memo.1.get(&k)) {
                    return *v;
                }
                let mut sum = 0u64;
                for p in i..=j {
                    if d.d[x as usize][i] >> p & 1 == 1 && self.seq_ends(&r[1..], w, p, d) >> j & 1 == 1 {
                        let a = self.count_nt(x, i, p, w, d, memo)?;
                        let b = self.count_seq(&r[1..], p, j, w, d, memo)?;
                        sum = sum.saturating_add(a.saturating_mul(b));
                    }
                }
                if let Some(k) = key {
                    memo.1.insert(k, Some(sum));
                }
                Some(sum)
            }
        }
    }
    /// Is `w` a prefix of some sentence? Exact when every nonterminal is productive.
    pub fn viable_prefix(&self, w: &[u16]) -> bool {
        let n = w.len();
        let prod = self.productive();
        if !prod[self.start as usize] {
            return false;
        }
        if n == 0 {
            return true;
        }
        let d = self.spans(w);
        // pre[nt] bit i: nt derives a string with w[i..] as a prefix
        let mut pre = vec![0u64; self.nn];
        for x in 0..self.nn {
            if prod[x] {
                pre[x] |= 1 << n;
            }
        }
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                if !r.iter().all(|s| matches!(s, Sym::T(_)) || matches!(s, Sym::N(x) if prod[*x as usize])) {
                    continue;
                }
                for i in 0..n {
                    if pre[*l as usize] >> i & 1 == 1 {
                        continue;
                    }
                    let mut ok = false;
                    let mut cur: u64 = 1 << i;
                    for s in r {
                        let mut next = 0u64;
                        let mut c = cur;
                        while c != 0 {
                            let p = c.trailing_zeros() as usize;
                            c &= c - 1;
                            if p == n {
                                ok = true;
                                continue;
                            }
                            match s {
                                Sym::T(t) => {
                                    if w[p] == *t {
                                        next |= 1 << (p + 1);
                                    }
                                }
                                Sym::N(x) => {
                                    if pre[*x as usize] >> p & 1 == 1 {
                                        ok = true;
                                    }
                                    next |= d.d[*x as usize][p];
                                }
                            }
                        }
                        cur = next;
                    }
                    if cur >> n & 1 == 1 {
                        ok = true;
                    }
                    if ok {
                        pre[*l as usize] |= 1 << i;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        pre[self.start as usize] & 1 == 1
    }
    /// Tokens (and end = nt) that may follow the viable prefix `w`.
    pub fn next_tokens(&self, w: &[u16]) -> Vec<u16> {
        let mut v = Vec::new();
        let mut u = w.to_vec();
        for t in 0..self.nt as u16 {
            u.push(t);
            if self.viable_prefix(&u) {
                v.push(t);
            }
            u.pop();
        }
        if self.accepts(w) {
            v.push(self.nt as u16);
        }
        v
    }
}

pub struct Spans {
    pub n: usize,
    pub d: Vec<Vec<u64>>,
}

#[cfg(test)]
mod tests {
    use super::*;
    fn g(nt: usize, nn: usize, rules: &[(u16, &[Sym])]) -> Bnf {
        Bnf { names: (0..nn).map(|i| format!("N{}", i)).collect(), nt, nn, rules: rules.iter().map(|(l, r)| (*l, r.to_vec())).collect(), start: 0 }
    }
    #[test]
    fn basics() {
        use Sym::*;
        // S -> S S | a | eps-free
        let b = g(1, 1, &[(0, &[N(0), N(0)]), (0, &[T(0)])]);
        assert_eq!(b.count_trees(&[0, 0, 0, 0]), Some(5));
        let l = b.langs(5);
        assert_eq!(l.words(0).len(), 5);
        // anbn
        let b = g(2, 1, &[(0, &[T(0), N(0), T(1)]), (0, &[])]);
        let l = b.langs(6);
        assert_eq!(l.words(0), vec![vec![], vec![0, 1], vec![0, 0, 1, 1], vec![0, 0, 0, 1, 1, 1]]);
        assert!(b.viable_prefix(&[0, 0, 1]));
        assert!(!b.viable_prefix(&[0, 1, 1]));
        assert_eq!(b.next_tokens(&[0, 0]), vec![0, 1]);
        assert_eq!(b.next_tokens(&[0, 1]), vec![2]);
        assert!(!b.cyclic());
        let b = g(1, 2, &[(0, &[N(1), N(0)]), (0, &[T(0)]), (1, &[])]);
        assert!(b.cyclic());
        assert!(b.hidden_left_recursion());
        assert_eq!(b.count_trees(&[0]), None);
        for w in all_strings(2, 5) {
            let b = g(2, 1, &[(0, &[T(0), N(0), T(1)]), (0, &[]), (0, &[T(1), N(0)])]);
            let l = b.langs(5);
            assert_eq!(b.accepts(&w), l.has(0, l.strings.index(&w)));
            assert_eq!(b.accepts(&w), b.count_trees(&w).unwrap() > 0);
            for b in [b, g(2, 2, &[(0, &[N(1), T(0), N(1), N(0)]), (0, &[]), (1, &[T(1)]), (1, &[N(0)])]), g(2, 2, &[(0, &[N(0), N(1)]), (0, &[T(0)]), (1, &[T(1), N(0), T(1)])])] {
                let bad = (0..w.len()).find(|i| !b.viable_prefix(&w[..=*i])).unwrap_or(w.len());
                assert_eq!(b.earley(&w), if b.accepts(&w) { Ok(()) } else { Err(bad) });
            }
        }
    }
}
