//! Grammar model, generators and reference procedures. Nothing here uses rustomata's algorithms;
//! only the conversions at the end build its data types.
use crate::engine::Src;
use log_domain::LogDomain;
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT, PMCFG};
use rustomata::util::tree::GornTree;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Y {
    V(usize, usize),
    T(usize),
}
use Y::*;

#[derive(Clone, Debug, PartialEq)]
pub struct R {
    pub head: usize,
    pub tail: Vec<usize>,
    pub comp: Vec<Vec<Y>>,
    pub w: f64,
}

#[derive(Clone, Debug)]
pub struct G {
    pub init: Vec<usize>,
    pub fan: Vec<usize>,
    pub rules: Vec<R>,
}

#[derive(Clone)]
pub struct GenOpts {
    pub max_nts: usize,
    pub max_fan: usize,
    pub max_rank: usize,
    pub max_extra: usize,
    pub terms: usize,
    /// linear rules may leave out components of successors (but use at least one of each)
    pub deleting: bool,
    /// components may be empty
    pub eps: bool,
    /// terminal-separated, no empty components
    pub normal_form: bool,
    /// a recursive successor is only reached after reading a terminal (top-down search is finite)
    pub guarded: bool,
    /// variables of one successor occur in order within a rule
    pub monotone: bool,
    /// unary rules may lead back (infinitely many derivations)
    pub cyclic: bool,
    /// all weights below one
    pub proper: bool,
    /// several initial nonterminals of fan-out one
    pub multi_init: bool,
}
impl Default for GenOpts {
    fn default() -> Self {
        GenOpts {
            max_nts: 4,
            max_fan: 3,
            max_rank: 3,
            max_extra: 4,
            terms: 2,
            deleting: false,
            eps: true,
            normal_form: false,
            guarded: false,
            monotone: false,
            cyclic: false,
            proper: false,
            multi_init: false,
        }
    }
}

pub const WEIGHTS: [f64; 8] = [1.0, 0.5, 0.25, 0.75, 0.3, 0.1, 0.9, 0.0625];

pub fn gen_weight(s: &mut Src, proper: bool) -> f64 {
    if proper {
        WEIGHTS[1 + s.n(WEIGHTS.len() - 1)]
    } else {
        *s.pick(&WEIGHTS)
    }
}

/// now and then a rule of weight zero
pub fn maybe_zero(s: &mut Src, g: &mut G) {
    if s.chance(1, 8) && !g.rules.is_empty() {
        let k = s.n(g.rules.len());
        g.rules[k].w = 0.0;
    }
}

impl G {
    /// in normal form, without recursion: rules with ten or more successors or components
    pub fn broad(s: &mut Src, wide: bool) -> G {
        // 0: S, 1: two components, 2 up to `pre`: preterminals, then: many components
        let pre = if s.chance(1, 2) { 3 } else { s.range(4, 15) };
        let many = pre + 1;
        let mut g = G { init: vec![0], fan: vec![1; many], rules: vec![] };
        g.fan[1] = 2;
        let w = |s: &mut Src| gen_weight(s, true);
        for (a, t) in &[(2, 0), (3, 0), (3, 1), (2, 1)] {
            if *t == 0 || !(wide && *a == 2) && s.chance(1, 2) {
                let w = w(s);
                g.add(Some(R { head: *a, tail: vec![], comp: vec![vec![T(*t)]], w }));
            }
        }
        for a in 4..=pre {
            let w = w(s);
            g.add(Some(R { head: a, tail: vec![], comp: vec![vec![T(s.n(2))]], w }));
        }
        for _ in 0..if wide { 1 } else { s.range(1, 2) } {
            let x = w(s);
            let pq = s.range(2, 3);
            let (i, j) = if s.chance(1, 2) { (0, 1) } else { (1, 0) };
            g.add(Some(R { head: 1, tail: vec![pq, 5 - pq], comp: vec![vec![V(i, 0)], vec![V(j, 0)]], w: x }));
        }
        let r = s.range(9, 14);
        let mut first: Vec<usize> = vec![];
        for _ in 0..s.range(1, 2) {
            let k = if wide { r } else { s.tail(9, 14, 26) };
            let mut tail: Vec<usize> = vec![];
            while tail.len() < if wide { 2 } else { k } {
                tail.push(s.range(1, pre));
            }
            let vars = |g: &G, t: &Vec<usize>| -> Vec<(usize, usize)> { t.iter().enumerate().flat_map(|(i, b)| (0..g.fan[*b]).map(move |j| (i, j))).collect() };
            while wide && vars(&g, &tail).len() < r {
                tail.push(s.range(1, pre));
            }
            if wide && vars(&g, &tail).len() > r {
                tail.pop();
                tail.push(2);
            }
            if !wide {
                // words of one length only
                if first.is_empty() {
                    first = tail;
                }
                tail = s.perm(first.len()).into_iter().map(|i| first[i]).collect();
            }
            let v = vars(&g, &tail);
            let p = s.perm(v.len());
            let order = s.chance(3, 4);
            let v: Vec<Y> = p.into_iter().enumerate().map(|(i, k)| if order { v[k] } else { v[i] }).map(|(i, j)| V(i, j)).collect();
            let x = w(s);
            if wide {
                if g.fan.len() == many || r <= 10 {
                    let mut v = v;
                    if g.fan.len() == many {
                        g.fan.push(r);
                        first = tail.clone();
                    } else {
                        tail = first.clone();
                        let vs = vars(&g, &tail);
                        v = s.perm(vs.len()).into_iter().map(|k| V(vs[k].0, vs[k].1)).collect();
                    }
                    g.add(Some(R { head: many, tail, comp: v.into_iter().map(|y| vec![y]).collect(), w: x }));
                }
                let p = s.perm(r);
                let x = w(s);
                g.add(Some(R { head: 0, tail: vec![many], comp: vec![p.into_iter().map(|j| V(0, j)).collect()], w: x }));
            } else {
                g.add(Some(R { head: 0, tail, comp: vec![v], w: x }));
            }
        }
        let p = s.perm(g.rules.len());
        g.rules = p.into_iter().map(|i| g.rules[i].clone()).collect();
        g
    }
    /// in normal form: many nonterminals for the same words, and rules of all of them with the same successor
    pub fn busy(s: &mut Src) -> G {
        // 0: S, 1: the common successor, 2..: many others
        let n = s.range(10, 15);
        let terms = s.range(1, 2);
        let mut g = G { init: vec![0], fan: vec![1; n], rules: vec![] };
        for a in 1..n {
            for t in 0..terms {
                if t == 0 || s.chance(1, 4) {
                    let w = gen_weight(s, true);
                    let t = if s.chance(3, 4) { t } else { s.n(2) };
                    g.add(Some(R { head: a, tail: vec![], comp: vec![vec![T(t)]], w }));
                }
            }
        }
        // not all kinds at once
        let kinds = [s.range(0, 2), s.range(0, 2), s.range(0, 2)];
        if s.chance(1, 3) {
            // many terminals, in any order
            for t in s.perm(14) {
                let (a, w) = (if s.chance(4, 5) { 1 } else { 2 }, gen_weight(s, true));
                g.add(Some(R { head: a, tail: vec![], comp: vec![vec![T(t)]], w }));
            }
        } else if s.chance(1, 3) {
            // many rules with the one successor, if there is no way back
            for a in 2..n {
                let w = gen_weight(s, true);
                g.add(Some(R { head: a, tail: vec![1], comp: vec![vec![V(0, 0)]], w }));
            }
        }
        let back = g.rules.iter().any(|r| r.tail == [1]);
        for a in 2..n {
            for (k, much) in kinds.iter().enumerate() {
                if s.n(2) >= *much {
                    continue;
                }
                let head = if back || s.chance(3, 4) { 0 } else { s.n(2) };
                let (tail, comp) = match k {
                    0 => (vec![1, a], vec![V(0, 0), V(1, 0)]),
                    1 => (vec![a, 1], if s.chance(1, 2) { vec![V(0, 0), V(1, 0)] } else { vec![V(1, 0), V(0, 0)] }),
                    _ => (vec![a], vec![V(0, 0)]),
                };
                let w = gen_weight(s, true);
                g.add(Some(R { head, tail, comp: vec![comp], w }));
            }
        }
        if !g.rules.iter().any(|r| r.head == 0) {
            g.add(Some(R { head: 0, tail: vec![1], comp: vec![vec![V(0, 0)]], w: 0.5 }));
        }
        let p = s.perm(g.rules.len());
        g.rules = p.into_iter().map(|i| g.rules[i].clone()).collect();
        g
    }
    /// ten or more terminals in a row; a word with them, or a short one
    pub fn stretch(&mut self, s: &mut Src, terms: usize) -> Vec<usize> {
        let r = s.n(self.rules.len());
        let k = s.n(self.rules[r].comp.len());
        let at = s.n(self.rules[r].comp[k].len() + 1);
        let long: Vec<usize> = (0..s.range(10, 18)).map(|_| s.n(3)).collect();
        for t in long.iter().rev() {
            self.rules[r].comp[k].insert(at, T(*t));
        }
        let mut w = self.gen_word(s, 30, terms);
        let n = w.windows(long.len()).filter(|v| *v == &long[..]).count();
        if n == 0 || w.len() > n * long.len() + 8 {
            w.truncate(7);
        }
        w
    }
    /// context-free, with rules of nine or more symbols, at most `most` of them nonterminals, and no recursion
    pub fn broad_cf(s: &mut Src, most: usize) -> G {
        let pre = s.range(2, 12);
        let mut g = G { init: vec![0], fan: vec![1; pre + 1], rules: vec![] };
        for a in 1..=pre {
            for _ in 0..s.range(1, 2) {
                let w = gen_weight(s, true);
                let c = (0..s.tail(1, 2, 11)).map(|_| T(s.n(3))).collect();
                g.add(Some(R { head: a, tail: vec![], comp: vec![c], w }));
            }
        }
        for _ in 0..s.range(1, 3) {
            let w = gen_weight(s, true);
            let mut tail = vec![];
            let mut c = vec![];
            let often = s.range(1, 4);
            for _ in 0..s.range(9, 14) {
                if tail.len() < most && s.n(4) < often {
                    c.push(V(tail.len(), 0));
                    tail.push(s.range(1, pre));
                } else {
                    c.push(T(s.n(3)));
                }
            }
            g.add(Some(R { head: 0, tail, comp: vec![c], w }));
        }
        let p = s.perm(g.rules.len());
        g.rules = p.into_iter().map(|i| g.rules[i].clone()).collect();
        g
    }
    /// a word for a broad grammar, of the length its words have
    pub fn broad_word(&self, s: &mut Src) -> Vec<usize> {
        let mut fuel = 40;
        let t = self.sample(s, 0, &mut fuel);
        let mut w = self.yields(&t).into_iter().next().unwrap_or_default();
        if s.chance(1, 3) && !w.is_empty() {
            let k = s.n(w.len());
            w[k] = s.n(3);
        }
        w
    }
    /// many more nonterminals, terminals and rules, of no use for the words generated so far
    pub fn crowd(&mut self, s: &mut Src) {
        let k = *s.pick(&[20, 130, 260, 300]);
        let base = self.fan.len();
        let mut filler: Vec<R> = vec![];
        for i in 0..k {
            self.fan.push(1);
            filler.push(R { head: base + i, tail: vec![], comp: vec![vec![T(100 + i)]], w: 0.5 });
        }
        for _ in 0..s.n(4) {
            let (x, y) = (base + s.n(k), base + s.n(k));
            if !filler.iter().any(|r| r.head == 0 && r.tail == [x, y]) {
                filler.push(R { head: 0, tail: vec![x, y], comp: vec![vec![V(0, 0), V(1, 0)]], w: 0.25 });
            }
        }
        match s.n(3) {
            0 => self.rules.extend(filler),
            1 => {
                filler.append(&mut self.rules);
                self.rules = filler;
            }
            _ => {
                let half = self.rules.len() / 2;
                let rest = self.rules.split_off(half);
                self.rules.extend(filler);
                self.rules.extend(rest);
            }
        }
    }
    pub fn rules_of(&self, a: usize) -> impl Iterator<Item = (usize, &R)> {
        self.rules.iter().enumerate().filter(move |(_, r)| r.head == a)
    }

    /// linear MCFG; every nonterminal is productive
    pub fn generate(s: &mut Src, o: &GenOpts) -> G {
        let n = s.range(1, o.max_nts);
        let mut fan = vec![1];
        for i in 1..n {
            // in normal form the last nonterminal is a preterminal
            fan.push(if o.normal_form && i + 1 == n { 1 } else { s.range(1, o.max_fan) });
        }
        let mut g = G { init: vec![0], fan, rules: vec![] };
        if o.multi_init {
            for i in 1..n {
                if g.fan[i] == 1 && s.chance(1, 3) {
                    g.init.push(i)
                }
            }
        }
        for a in 0..n {
            let r = g.base_rule(s, o, a);
            g.add(r);
        }
        let extra = s.range(0, o.max_extra);
        for _ in 0..extra {
            let a = s.n(n);
            let r = if s.chance(1, 5) { g.base_rule(s, o, a) } else { g.any_rule(s, o, a) };
            if let Some(r) = r {
                g.add(Some(r));
            }
        }
        // the order of rules is arbitrary
        let p = s.perm(g.rules.len());
        g.rules = p.into_iter().map(|i| g.rules[i].clone()).collect();
        g
    }

    fn add(&mut self, r: Option<R>) {
        if let Some(r) = r {
            // rules are distinct up to their weight
            if !self.rules.iter().any(|q| q.head == r.head && q.tail == r.tail && q.comp == r.comp) {
                self.rules.push(r)
            }
        }
    }

    fn base_rule(&self, s: &mut Src, o: &GenOpts, a: usize) -> Option<R> {
        let n = self.fan.len();
        let w = gen_weight(s, o.proper);
        if !o.normal_form || self.fan[a] == 1 && (a + 1 == n || s.chance(1, 2)) {
            let comp = (0..self.fan[a])
                .map(|_| {
                    let k = if o.normal_form {
                        1
                    } else if o.eps {
                        s.small(2)
                    } else {
                        s.range(1, 2)
                    };
                    (0..k).map(|_| T(s.n(o.terms))).collect()
                })
                .collect();
            return Some(R { head: a, tail: vec![], comp, w });
        }
        // variables only, leading to later nonterminals
        let mut tail = vec![];
        let mut have = 0;
        while have < self.fan[a] || (tail.len() < o.max_rank && s.chance(1, 3)) {
            let b = s.range(a + 1, n - 1);
            tail.push(b);
            have += self.fan[b];
        }
        Some(self.compose(s, o, a, tail, w))
    }

    fn any_rule(&self, s: &mut Src, o: &GenOpts, a: usize) -> Option<R> {
        let n = self.fan.len();
        let w = gen_weight(s, o.proper);
        let rank = s.range(1, o.max_rank);
        let mut tail: Vec<usize> = (0..rank).map(|_| s.n(n)).collect();
        if o.normal_form {
            while tail.iter().map(|b| self.fan[*b]).sum::<usize>() < self.fan[a] {
                tail.push(s.n(n));
            }
            if tail.len() == 1 && !o.cyclic && tail[0] <= a {
                if a + 1 < n && self.fan[a + 1..].iter().any(|f| *f >= self.fan[a]) {
                    let c: Vec<usize> = (a + 1..n).filter(|b| self.fan[*b] >= self.fan[a]).collect();
                    tail[0] = *s.pick(&c);
                } else {
                    return None;
                }
            }
        }
        Some(self.compose(s, o, a, tail, w))
    }

    /// distributes the variables of `tail` over the components of `a`, and adds terminals
    fn compose(&self, s: &mut Src, o: &GenOpts, a: usize, tail: Vec<usize>, w: f64) -> R {
        let mut vars = vec![];
        for (i, b) in tail.iter().enumerate() {
            let mut used: Vec<usize> = (0..self.fan[*b]).collect();
            if o.deleting {
                while used.len() > 1 && s.chance(1, 3) {
                    let k = s.n(used.len());
                    used.remove(k);
                }
            }
            vars.extend(used.into_iter().map(|j| (i, j)));
        }
        let p = s.perm(vars.len());
        let mut vars: Vec<(usize, usize)> = p.into_iter().map(|k| vars[k]).collect();
        if o.monotone {
            let mut next = vec![0; tail.len()];
            let mut sorted: Vec<Vec<usize>> = vec![vec![]; tail.len()];
            for v in &vars {
                sorted[v.0].push(v.1)
            }
            for x in sorted.iter_mut() {
                x.sort()
            }
            for v in vars.iter_mut() {
                v.1 = sorted[v.0][next[v.0]];
                next[v.0] += 1;
            }
        }
        let f = self.fan[a];
        let mut comp: Vec<Vec<Y>> = vec![vec![]; f];
        if o.normal_form || (!o.eps && vars.len() >= f) {
            // cut the variable sequence into f non-empty pieces
            let mut cuts = BTreeSet::new();
            while cuts.len() + 1 < f {
                // positions not chosen yet
                let free: Vec<usize> = (1..vars.len()).filter(|c| !cuts.contains(c)).collect();
                cuts.insert(*s.pick(&free));
            }
            let mut k = 0;
            for (i, v) in vars.iter().enumerate() {
                if cuts.contains(&i) {
                    k += 1
                }
                comp[k].push(V(v.0, v.1));
            }
        } else {
            let mut k = 0;
            for (i, v) in vars.iter().enumerate() {
                let _ = i;
                if !o.monotone {
                    k = s.n(f);
                } else {
                    k = k + s.n(f - k);
                }
                comp[k].push(V(v.0, v.1));
            }
        }
        if !o.normal_form {
            for c in comp.iter_mut() {
                let m = s.small(2);
                for _ in 0..m {
                    let at = s.n(c.len() + 1);
                    c.insert(at, T(s.n(o.terms)));
                }
                if c.is_empty() && !o.eps {
                    c.push(T(s.n(o.terms)))
                }
                if o.guarded {
                    let bad = c.iter().position(|y| match y {
                        V(i, _) => tail[*i] <= a,
                        _ => false,
                    });
                    if let Some(p) = bad {
                        if !c[..p].iter().any(|y| match y {
                            T(_) => true,
                            _ => false,
                        }) {
                            let at = s.n(p + 1);
                            c.insert(at, T(s.n(o.terms)));
                        }
                    }
                }
            }
        }
        R { head: a, tail, comp, w }
    }

    /// a random derivation; grows freely for `fuel` nodes and then takes shortest exits
    pub fn sample(&self, s: &mut Src, a: usize, fuel: &mut usize) -> Tree {
        let heights = self.heights();
        self.sample_(s, a, fuel, &heights)
    }
    fn sample_(&self, s: &mut Src, a: usize, fuel: &mut usize, h: &[usize]) -> Tree {
        let rs: Vec<(usize, &R)> = self.rules_of(a).filter(|(_, r)| r.tail.iter().all(|b| h[*b] < usize::max_value())).collect();
        let rheight = |r: &R| r.tail.iter().map(|b| h[*b]).max().map_or(0, |x| x + 1);
        let (k, r) = if *fuel == 0 {
            *rs.iter().min_by_key(|(_, r)| rheight(r)).expect("productive")
        } else {
            *fuel -= 1;
            *s.pick(&rs)
        };
        let kids = r.tail.iter().map(|b| Rc::new(self.sample_(s, *b, fuel, h))).collect();
        Tree { rule: k, kids }
    }
    /// least height of a derivation per nonterminal (MAX if unproductive)
    pub fn heights(&self) -> Vec<usize> {
        let mut h = vec![usize::max_value(); self.fan.len()];
        for round in 0..=self.fan.len() {
            for r in &self.rules {
                if r.tail.iter().all(|b| h[*b] < usize::max_value()) {
                    let x = r.tail.iter().map(|b| h[*b] + 1).max().unwrap_or(0);
                    if x < h[r.head] {
                        h[r.head] = x
                    }
                }
            }
            let _ = round;
        }
        h
    }

    /// least length of the strings in each component (large if there are none)
    pub fn least_lengths(&self) -> Vec<Vec<usize>> {
        let mut m: Vec<Vec<usize>> = self.fan.iter().map(|f| vec![1 << 20; *f]).collect();
        loop {
            let mut change = false;
            for r in &self.rules {
                for (k, c) in r.comp.iter().enumerate() {
                    let x = c
                        .iter()
                        .map(|y| match y {
                            T(_) => 1,
                            V(i, j) => m[r.tail[*i]][*j],
                        })
                        .sum::<usize>();
                    if x < m[r.head][k] {
                        m[r.head][k] = x;
                        change = true;
                    }
                }
            }
            if !change {
                return m;
            }
        }
    }

    pub fn yields(&self, t: &Tree) -> Vec<Vec<usize>> {
        let kids: Vec<Vec<Vec<usize>>> = t.kids.iter().map(|k| self.yields(k)).collect();
        self.rules[t.rule]
            .comp
            .iter()
            .map(|c| {
                c.iter()
                    .flat_map(|y| match y {
                        T(t) => vec![*t],
                        V(i, j) => kids[*i][*j].clone(),
                    })
                    .collect()
            })
            .collect()
    }
    pub fn weight(&self, t: &Tree) -> f64 {
        t.kids.iter().map(|k| self.weight(k)).product::<f64>() * self.rules[t.rule].w
    }
    /// every rule index in the tree fits its place
    #[allow(dead_code)]
    pub fn well_formed(&self, t: &Tree, a: usize) -> bool {
        let r = &self.rules[t.rule];
        r.head == a && r.tail.len() == t.kids.len() && t.kids.iter().zip(&r.tail).all(|(k, b)| self.well_formed(k, *b))
    }

    pub fn gen_word(&self, s: &mut Src, max: usize, terms: usize) -> Vec<usize> {
        let mode = s.weighted(&[6, 3, 1]);
        let mut w = vec![];
        if mode <= 1 {
            let a = *s.pick(&self.init);
            let mut fuel = s.range(1, 8);
            let t = self.sample(s, a, &mut fuel);
            w = self.yields(&t).into_iter().next().unwrap_or_default();
            if w.len() > max {
                w.truncate(max);
            }
            if mode == 1 {
                // a small edit
                match s.n(3) {
                    0 if !w.is_empty() => {
                        let k = s.n(w.len());
                        w.remove(k);
                    }
                    1 if w.len() < max => {
                        let k = s.n(w.len() + 1);
                        w.insert(k, s.n(terms));
                    }
                    _ if !w.is_empty() => {
                        let k = s.n(w.len());
                        w[k] = s.n(terms);
                    }
                    _ => (),
                }
            }
        } else {
            let n = s.range(0, max);
            for _ in 0..n {
                w.push(s.n(terms + 1)) // may contain a symbol the grammar does not use
            }
        }
        w
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Tree {
    pub rule: usize,
    pub kids: Vec<Rc<Tree>>,
}
impl Tree {
    pub fn size(&self) -> usize {
        1 + self.kids.iter().map(|k| k.size()).sum::<usize>()
    }
    pub fn addresses(&self) -> BTreeMap<Vec<usize>, usize> {
        fn go(t: &Tree, at: &mut Vec<usize>, out: &mut BTreeMap<Vec<usize>, usize>) {
            out.insert(at.clone(), t.rule);
            for (i, k) in t.kids.iter().enumerate() {
                at.push(i);
                go(k, at, out);
                at.pop();
            }
        }
        let mut m = BTreeMap::new();
        go(self, &mut vec![], &mut m);
        m
    }
}

type Ranges = Vec<Option<(usize, usize)>>;

/// Reference parser: all derivations of a word by trying every split (top-down, memoised).
/// Derivations that pass through the same item twice on a path are left out and flagged.
pub struct Parser<'a> {
    g: &'a G,
    w: &'a [usize],
    memo: HashMap<(usize, Ranges), Rc<Vec<Rc<Tree>>>>,
    open: HashSet<(usize, Ranges)>,
    /// least length of each component
    least: Vec<Vec<usize>>,
    /// the rules of nonterminals that only spell terminals
    lexical: Vec<Option<Vec<&'a R>>>,
    /// some item recurs below itself in a productive way or may do so
    pub cyclic: bool,
    pub limit: usize,
    pub overflow: bool,
}
impl<'a> Parser<'a> {
    pub fn new(g: &'a G, w: &'a [usize], limit: usize) -> Self {
        let lexical = (0..g.fan.len())
            .map(|a| {
                let rs: Vec<&R> = g.rules_of(a).map(|r| r.1).collect();
                if rs.iter().all(|r| r.tail.is_empty()) { Some(rs) } else { None }
            })
            .collect();
        Parser { g, w, memo: HashMap::new(), open: HashSet::new(), least: g.least_lengths(), lexical, cyclic: false, limit, overflow: false }
    }
    /// derivations of the whole word from any initial nonterminal
    pub fn all(&mut self) -> Vec<Rc<Tree>> {
        let mut v = vec![];
        for a in self.g.init.clone() {
            if self.g.fan[a] != 1 {
                continue;
            }
            v.extend(self.item(a, vec![Some((0, self.w.len()))]).0.iter().cloned());
        }
        v
    }
    pub fn too_many(mut self) -> bool {
        self.all();
        self.overflow
    }
    fn item(&mut self, a: usize, ranges: Ranges) -> (Rc<Vec<Rc<Tree>>>, bool) {
        if self.overflow {
            return (Rc::new(vec![]), true);
        }
        let key = (a, ranges);
        if let Some(v) = self.memo.get(&key) {
            return (v.clone(), false);
        }
        if !self.open.insert(key.clone()) {
            self.cyclic = true;
            return (Rc::new(vec![]), true);
        }
        let mut out = vec![];
        let mut cut = false;
        let g = self.g;
        for (ri, r) in g.rules_of(a) {
            let mut assigns = vec![];
            let start: Vec<Ranges> = r.tail.iter().map(|b| vec![None; g.fan[*b]]).collect();
            self.split(r, 0, &key.1, start, &mut assigns);
            for kids in assigns {
                let mut lists: Vec<Rc<Vec<Rc<Tree>>>> = vec![];
                for (b, rs) in r.tail.iter().zip(kids) {
                    let (l, c) = self.item(*b, rs);
                    cut |= c;
                    if l.is_empty() {
                        lists.clear();
                        break;
                    }
                    lists.push(l);
                }
                if lists.len() < r.tail.len() {
                    continue;
                }
                let mut combos: Vec<Vec<Rc<Tree>>> = vec![vec![]];
                for l in lists {
                    let mut next = vec![];
                    for c in &combos {
                        for t in l.iter() {
                            let mut d = c.clone();
                            d.push(t.clone());
                            next.push(d);
                        }
                    }
                    combos = next;
                    if combos.len() > self.limit {
                        self.overflow = true;
                        combos.truncate(self.limit);
                    }
                }
                out.extend(combos.into_iter().map(|kids| Rc::new(Tree { rule: ri, kids })));
                if out.len() > self.limit {
                    self.overflow = true;
                    out.truncate(self.limit);
                }
            }
        }
        self.open.remove(&key);
        let out = Rc::new(out);
        if !cut {
            self.memo.insert(key, out.clone());
        }
        (out, cut)
    }
    /// all assignments of spans to the variables of components k.. of rule r
    fn split(&self, r: &R, k: usize, ranges: &Ranges, acc: Vec<Ranges>, out: &mut Vec<Vec<Ranges>>) {
        if k == r.comp.len() {
            out.push(acc);
            return;
        }
        match ranges[k] {
            None => self.split(r, k + 1, ranges, acc, out),
            Some((l, e)) => self.walk(r, k, 0, l, e, ranges, acc, out),
        }
    }
    fn walk(&self, r: &R, k: usize, p: usize, l: usize, e: usize, ranges: &Ranges, acc: Vec<Ranges>, out: &mut Vec<Vec<Ranges>>) {
        let c = &r.comp[k];
        if p == c.len() {
            if l == e {
                self.split(r, k + 1, ranges, acc, out)
            }
            return;
        }
        match c[p] {
            T(t) => {
                if l < e && self.w[l] == t {
                    self.walk(r, k, p + 1, l + 1, e, ranges, acc, out)
                }
            }
            V(i, j) => {
                let last = p + 1 == c.len();
                // what is left for the symbols behind
                let rest: usize = c[p + 1..]
                    .iter()
                    .map(|y| match y {
                        T(_) => 1,
                        V(i, j) => self.least[r.tail[*i]][*j],
                    })
                    .fold(0, |a, b| a.saturating_add(b));
                for m in l + self.least[r.tail[i]][j]..=e.saturating_sub(rest) {
                    if last && m != e {
                        continue;
                    }
                    if let Some(rs) = &self.lexical[r.tail[i]] {
                        let spells = |q: &&R| q.comp[j].len() == m - l && q.comp[j].iter().zip(&self.w[l..m]).all(|(y, t)| *y == T(*t));
                        if !rs.iter().any(spells) {
                            continue;
                        }
                    }
                    let mut a = acc.clone();
                    a[i][j] = Some((l, m));
                    self.walk(r, k, p + 1, m, e, ranges, a, out)
                }
            }
        }
    }
}

// ---------------------------------------------------------------- conversions
pub type W = LogDomain<f64>;
pub type Rule = PMCFGRule<String, String, W>;

pub fn lw(w: f64) -> W {
    LogDomain::new(w).unwrap()
}
pub fn nt(a: usize) -> String {
    match a {
        0 => "S".into(),
        k => format!("N{}", k),
    }
}
pub fn term(t: usize) -> String {
    if t < 26 {
        ((b'a' + t as u8) as char).to_string()
    } else {
        format!("t{}", t)
    }
}
pub fn words(w: &[usize]) -> Vec<String> {
    w.iter().map(|t| term(*t)).collect()
}
pub fn rule(r: &R) -> Rule {
    PMCFGRule {
        head: nt(r.head),
        tail: r.tail.iter().map(|a| nt(*a)).collect(),
        composition: Composition {
            composition: r
                .comp
                .iter()
                .map(|c| {
                    c.iter()
                        .map(|y| match y {
                            V(i, j) => VarT::Var(*i, *j),
                            T(t) => VarT::T(term(*t)),
                        })
                        .collect()
                })
                .collect(),
        },
        weight: lw(r.w),
    }
}
pub fn pmcfg(g: &G) -> PMCFG<String, String, W> {
    PMCFG { initial: g.init.iter().map(|a| nt(*a)).collect(), rules: g.rules.iter().map(rule).collect() }
}
pub fn gorn(g: &G, t: &Tree) -> GornTree<Rule> {
    t.addresses().into_iter().map(|(a, r)| (a, rule(&g.rules[r]))).collect()
}
pub fn show(g: &G) -> String {
    let mut s = format!("initial: [{}]\n", g.init.iter().map(|a| nt(*a)).collect::<Vec<_>>().join(", "));
    for (i, r) in g.rules.iter().enumerate() {
        let comps: Vec<String> = r
            .comp
            .iter()
            .map(|c| {
                let ys: Vec<String> = c
                    .iter()
                    .map(|y| match y {
                        V(i, j) => format!("Var {} {}", i, j),
                        T(t) => format!("T {}", term(*t)),
                    })
                    .collect();
                format!("[{}]", ys.join(", "))
            })
            .collect();
        let tail: Vec<String> = r.tail.iter().map(|a| nt(*a)).collect();
        let _ = writeln!(s, "{} → [{}] ({}) # {}   % r{}", nt(r.head), comps.join(", "), tail.join(", "), r.w, i);
    }
    s
}
/// tree read back from rustomata, as rule indices by address; rules are compared without weight
pub fn identify(g: &G, t: &[(Vec<usize>, Rule)]) -> Result<BTreeMap<Vec<usize>, usize>, String> {
    let rules: Vec<Rule> = g.rules.iter().map(rule).collect();
    let mut m = BTreeMap::new();
    for (a, r) in t {
        match rules.iter().position(|q| q.head == r.head && q.tail == r.tail && q.composition == r.composition) {
            Some(k) => {
                if close(rules[k].weight, r.weight) {
                    m.insert(a.clone(), k);
                } else {
                    return Err(format!("rule at {:?} has weight {} instead of {}", a, r.weight, rules[k].weight));
                }
            }
            None => return Err(format!("node {:?} holds a rule that is not in the grammar: {}", a, r)),
        }
    }
    Ok(m)
}
pub fn ln(w: W) -> f64 {
    w.ln()
}
/// equal up to rounding
pub fn close(a: W, b: W) -> bool {
    let (x, y) = (ln(a), ln(b));
    x == y || x.is_finite() && y.is_finite() && (x - y).abs() <= 1e-9 * (1.0 + x.abs().max(y.abs()))
}
pub fn closef(a: f64, b: f64) -> bool {
    a == b || a.is_finite() && b.is_finite() && (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}
/// equal up to rounding in relation to their size
pub fn relf(a: f64, b: f64) -> bool {
    a == b || a.is_finite() && b.is_finite() && (a - b).abs() <= 1e-9 * a.abs().max(b.abs())
}
/// a < b by more than rounding
pub fn clearly_less(a: W, b: W) -> bool {
    ln(a) < ln(b) && !close(a, b)
}
