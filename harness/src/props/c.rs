//! Chomsky-Schützenberger parsing of LCFRS.
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use rustomata::grammars::lcfrs::csparsing::{CSRepresentation, DebugResult};
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::pmcfg::VarT;
use rustomata::util::factorizable::Factorizable;
use rustomata::util::tree::GornTree;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

type Cs = CSRepresentation<String, String, W>;
type Map = BTreeMap<Vec<usize>, usize>;

/// counts the well-bracketed candidates: derivations of the context-free grammar over components
pub struct Candidates<'a> {
    g: &'a G,
    w: &'a [usize],
    memo: HashMap<(usize, usize, usize, usize), u64>,
}
pub const MANY: u64 = 1 << 40;
impl<'a> Candidates<'a> {
    pub fn new(g: &'a G, w: &'a [usize]) -> Self {
        Candidates { g, w, memo: HashMap::new() }
    }
    /// requires that no chain of components leads back to itself
    pub fn count(&mut self, a: usize, k: usize, i: usize, j: usize) -> u64 {
        if let Some(v) = self.memo.get(&(a, k, i, j)) {
            return *v;
        }
        let mut n = 0;
        let g = self.g;
        for (_, r) in g.rules_of(a) {
            n += self.seq(r, k, 0, i, j);
        }
        let n = n.min(MANY);
        self.memo.insert((a, k, i, j), n);
        n
    }
    fn seq(&mut self, r: &R, k: usize, p: usize, i: usize, j: usize) -> u64 {
        let c = &r.comp[k];
        if p == c.len() {
            return (i == j) as u64;
        }
        let rest = c.len() - p - 1;
        match c[p] {
            Y::T(t) => {
                if i < j && self.w[i] == t {
                    self.seq(r, k, p + 1, i + 1, j)
                } else {
                    0
                }
            }
            Y::V(x, y) => {
                let mut n = 0;
                for m in i + 1..=j {
                    if j - m < rest || rest == 0 && m != j {
                        continue;
                    }
                    let a = self.seq(r, k, p + 1, m, j);
                    if a > 0 {
                        n = (n + a.saturating_mul(self.count(r.tail[x], y, i, m))).min(MANY);
                    }
                }
                n
            }
        }
    }
}
/// some component is handed on unchanged in a circle
pub fn chain_cyclic(g: &G) -> bool {
    let mut edges: BTreeMap<(usize, usize), BTreeSet<(usize, usize)>> = BTreeMap::new();
    for r in &g.rules {
        for (k, c) in r.comp.iter().enumerate() {
            if let [Y::V(i, j)] = c[..] {
                edges.entry((r.head, k)).or_default().insert((r.tail[i], j));
            }
        }
    }
    edges.keys().any(|s| {
        let mut seen = BTreeSet::new();
        let mut todo: Vec<_> = edges[s].iter().cloned().collect();
        while let Some(x) = todo.pop() {
            if x == *s {
                return true;
            }
            if seen.insert(x) {
                todo.extend(edges.get(&x).into_iter().flatten().cloned())
            }
        }
        false
    })
}

/// the rules that occur in derivations over the words of the sentence
fn relevant(g: &G, w: &[usize]) -> G {
    let mut prod = vec![false; g.fan.len()];
    let fits = |r: &R, prod: &[bool]| {
        r.tail.iter().all(|b| prod[*b])
            && r.comp.iter().flatten().all(|y| match y {
                Y::T(t) => w.contains(t),
                _ => true,
            })
    };
    for _ in 0..g.fan.len() {
        for r in &g.rules {
            if fits(r, &prod) {
                prod[r.head] = true
            }
        }
    }
    let mut reach = vec![false; g.fan.len()];
    reach[0] = true;
    for _ in 0..g.fan.len() {
        for r in &g.rules {
            if reach[r.head] && fits(r, &prod) {
                for b in &r.tail {
                    reach[*b] = true
                }
            }
        }
    }
    G { rules: g.rules.iter().filter(|r| reach[r.head] && fits(r, &prod)).cloned().collect(), ..g.clone() }
}

/// a grammar in which components of one nonterminal come from many rules
pub fn mixed(s: &mut Src) -> G {
    let fan = s.range(2, 3);
    let pre = s.range(2, 4);
    // S, A, B, preterminals
    let b_fan = s.range(1, 2);
    let mut g = G { init: vec![0], fan: vec![1, fan, b_fan], rules: vec![] };
    for p in 0..pre {
        g.fan.push(1);
        let w = gen_weight(s, false);
        g.rules.push(R { head: 3 + p, tail: vec![], comp: vec![vec![Y::T(s.n(3))]], w });
    }
    let add = |g: &mut G, s: &mut Src, head: usize, mut tail: Vec<usize>| {
        while tail.iter().map(|b| g.fan[*b]).sum::<usize>() < g.fan[head] || s.chance(1, 3) && tail.len() < 3 {
            tail.push(3 + s.n(pre));
        }
        let vars: Vec<(usize, usize)> = tail.iter().enumerate().flat_map(|(i, b)| (0..g.fan[*b]).map(move |j| (i, j))).collect();
        let p = s.perm(vars.len());
        let f = g.fan[head];
        let mut comp = vec![vec![]; f];
        for (n, k) in p.into_iter().enumerate() {
            let c = if n < f { n } else { s.n(f) };
            comp[c].push(Y::V(vars[k].0, vars[k].1));
        }
        let r = R { head, tail, comp, w: gen_weight(s, false) };
        if !g.rules.iter().any(|q| q.head == r.head && q.tail == r.tail && q.comp == r.comp) {
            g.rules.push(r);
        }
    };
    add(&mut g, s, 0, vec![1]);
    for _ in 0..s.n(2) {
        let t = vec![1, 2];
        add(&mut g, s, 0, t);
    }
    add(&mut g, s, 1, vec![]);
    add(&mut g, s, 2, vec![]);
    for _ in 0..s.range(1, 4) {
        let t = match s.n(4) {
            0 => vec![1],
            1 => vec![2],
            _ => vec![],
        };
        add(&mut g, s, 1, t);
    }
    for _ in 0..s.n(3) {
        add(&mut g, s, 2, vec![]);
    }
    let p = s.perm(g.rules.len());
    g.rules = p.into_iter().map(|i| g.rules[i].clone()).collect();
    g
}

struct Setup {
    g: G,
    w: Vec<usize>,
    ws: Vec<String>,
    chain: bool,
    /// number of candidates, if finite
    cands: Option<u64>,
}
fn opts(c: &mut Case) -> GenOpts {
    let big = c.s.chance(1, 4);
    GenOpts {
        max_nts: if big { 6 } else { 4 },
        max_fan: if big { 4 } else { 3 },
        max_rank: if big { 4 } else { 3 },
        max_extra: if big { 8 } else { 5 },
        terms: if c.s.chance(1, 4) { 1 } else { 2 },
        normal_form: true,
        // weights of one also where a component is handed on in a circle
        proper: c.s.chance(1, 2),
        ..GenOpts::default()
    }
}
fn setup(c: &mut Case, max: usize) -> Setup {
    setup_(c, max, false)
}
fn setup_(c: &mut Case, max: usize, mix: bool) -> Setup {
    let o = opts(c);
    let mix = if mix { c.s.chance(2, 3) } else { c.s.chance(1, 8) };
    let mut g = if mix { mixed(&mut c.s) } else { G::generate(&mut c.s, &o) };
    let vast = c.s.chance(1, 60);
    if vast {
        let wide = c.s.chance(1, 2);
        g = G::broad(&mut c.s, wide);
        c.label("many successors or components");
    }
    let busy = !vast && c.s.chance(1, 60);
    if busy {
        g = G::busy(&mut c.s);
        c.label("many rules with the same successor");
    }
    let w = if vast { g.broad_word(&mut c.s) } else if c.s.chance(1, 3) || mix { loose_word(&g, &mut c.s, max) } else { g.gen_word(&mut c.s, max, o.terms) };
    if c.s.chance(1, 60) {
        g.crowd(&mut c.s);
        c.label("many rules");
    }
    let ws = words(&w);
    c.text("grammar", show(&g));
    c.note("sentence", &ws);
    let chain = chain_cyclic(&g);
    let cands = if chain { None } else { Some(if w.is_empty() { 0 } else { Candidates::new(&g, &w).count(0, 0, 0, w.len()) }) };
    if chain {
        c.label("circular component chains")
    }
    if cands.map_or(false, |n| n >= 2) {
        c.label("several candidates")
    }
    Setup { g, w, ws, chain, cands }
}
/// a word in which every component is derived on its own, as the candidates are
pub fn loose_word(g: &G, s: &mut Src, max: usize) -> Vec<usize> {
    let h = g.heights();
    let mut todo = vec![(0, 0)];
    let mut w = vec![];
    let mut fuel = 12;
    while let Some((a, k)) = todo.pop() {
        let rs: Vec<&R> = g.rules_of(a).map(|(_, r)| r).filter(|r| r.tail.iter().all(|b| h[*b] < usize::max_value())).collect();
        let r = if fuel == 0 {
            *rs.iter().min_by_key(|r| r.tail.iter().map(|b| h[*b] + 1).max().unwrap_or(0)).unwrap()
        } else {
            fuel -= 1;
            *s.pick(&rs)
        };
        for y in r.comp[k].iter().rev() {
            match y {
                Y::V(i, j) => todo.push((r.tail[*i], *j)),
                Y::T(t) => w.push(*t),
            }
        }
        if w.len() >= max {
            break;
        }
    }
    w
}
/// sentences of more words than a byte counts
fn long(c: &mut Case) -> Res {
    long_(c, false)
}
/// estimates for long sentences, up to the greatest width there is
fn wide(c: &mut Case) -> Res {
    long_(c, true)
}
fn long_(c: &mut Case, wide: bool) -> Res {
    let v = |i: usize, j: usize| Y::V(i, j);
    let mut g = G {
        init: vec![0],
        fan: vec![1, 2, 1, 1],
        rules: vec![
            R { head: 2, tail: vec![], comp: vec![vec![Y::T(0)]], w: 1.0 },
            R { head: 3, tail: vec![], comp: vec![vec![Y::T(1)]], w: 1.0 },
        ],
    };
    let crossing = c.s.chance(1, 2);
    let n = if wide { c.s.range(20, 60) } else if c.s.chance(1, 2) { c.s.range(120, 136) } else { *c.s.pick(&[64, 127, 128, 129, 150]) } * 2;
    let w: Vec<usize>;
    if crossing {
        // a^k b^k by crossing dependencies
        g.rules.push(R { head: 0, tail: vec![1], comp: vec![vec![v(0, 0), v(0, 1)]], w: 1.0 });
        g.rules.push(R { head: 1, tail: vec![2, 3], comp: vec![vec![v(0, 0)], vec![v(1, 0)]], w: 0.5 });
        g.rules.push(R { head: 1, tail: vec![2, 1, 3], comp: vec![vec![v(0, 0), v(1, 0)], vec![v(2, 0), v(1, 1)]], w: 0.5 });
        w = (0..n).map(|i| (i >= n / 2) as usize).collect();
    } else {
        g.rules.push(R { head: 0, tail: vec![2, 0], comp: vec![vec![v(0, 0), v(1, 0)]], w: 0.5 });
        g.rules.push(R { head: 0, tail: vec![3], comp: vec![vec![v(0, 0)]], w: 0.5 });
        let k = n - c.s.n(2);
        w = (0..k).map(|i| (i + 1 == k) as usize).collect();
    }
    c.text("grammar", show(&g));
    c.note("words", w.len());
    c.nontrivial_if(w.len() > 255 || wide);
    let width = match (wide, c.s.n(3)) {
        (false, _) => 0,
        (_, 0) => c.s.range(20, 80),
        (_, 1) => w.len() + c.s.n(3) - 1,
        _ => *c.s.pick(&[255, 128, 127, 254]),
    };
    c.note("width", width);
    let cs = build(&g, width)?;
    let (trees, fb) = parse(&cs, &Params { cands: Some(5), ..Params::default() }, &words(&w), 5);
    let got = ids(&g, &trees)?;
    ensure_eq!(got.len(), 1, "number of trees for a sentence of {} words", w.len());
    is_derivation(&g, &got[0], &w)?;
    ensure!(fb.is_some(), "no fallback");
    Ok(())
}
const LIMIT: usize = 1500;
fn build(g: &G, width: usize) -> Result<Cs, String> {
    let l = Lcfrs::new(g.rules.iter().map(rule).collect::<Vec<_>>(), nt(0)).ok_or("the LCFRS is refused")?;
    Ok(CSRepresentation::new(l, width))
}
#[derive(Clone, Debug, Default)]
struct Params {
    beam: Option<usize>,
    delta: Option<f64>,
    cands: Option<usize>,
}
type Parsed = (Vec<Vec<(Vec<usize>, Rule)>>, Option<BTreeMap<Vec<usize>, Rule>>);
fn parse(cs: &Cs, p: &Params, ws: &[String], k: usize) -> Parsed {
    let mut b = cs.build_generator();
    if let Some(x) = p.beam {
        b.set_beam(x)
    }
    if let Some(x) = p.delta {
        b.set_delta(lw(x))
    }
    if let Some(x) = p.cands {
        b.set_candidates(x)
    }
    let (it, fb) = b.with_fallback(ws);
    let trees = it.take(k).map(|t| t.into_iter().map(|(a, r)| (a, r.clone())).collect()).collect();
    (trees, fb.map(|t| t.into_iter().collect()))
}
fn ids(g: &G, trees: &[Vec<(Vec<usize>, Rule)>]) -> Result<Vec<Map>, String> {
    trees.iter().map(|t| identify(g, t)).collect()
}
/// the limit that keeps enumeration finite
fn limit(s: &Setup) -> Params {
    match s.cands {
        Some(n) if n <= LIMIT as u64 => Params::default(),
        _ => Params { cands: Some(LIMIT / 4), ..Params::default() },
    }
}
fn mweight(g: &G, m: &Map) -> f64 {
    m.values().map(|r| g.rules[*r].w).product()
}
/// complete derivation of the word
fn is_derivation(g: &G, m: &Map, w: &[usize]) -> Res {
    fn go(g: &G, m: &Map, at: &mut Vec<usize>, a: usize, used: &mut usize) -> Result<Rc<Tree>, String> {
        let r = *m.get(at).ok_or_else(|| format!("no rule at {:?}", at))?;
        *used += 1;
        ensure!(g.rules[r].head == a, "rule r{} at {:?} instead of a rule of {}", r, at, nt(a));
        let mut kids = vec![];
        for (i, b) in g.rules[r].tail.iter().enumerate() {
            at.push(i);
            kids.push(go(g, m, at, *b, used)?);
            at.pop();
        }
        Ok(Rc::new(Tree { rule: r, kids }))
    }
    let mut used = 0;
    let t = go(g, m, &mut vec![], 0, &mut used)?;
    ensure_eq!(used, m.len(), "the tree has nodes that belong to no successor");
    ensure_eq!(g.yields(&t), vec![w.to_vec()], "the derivation yields something else");
    Ok(())
}
fn no_repeats(ms: &[Map]) -> Res {
    let mut seen = BTreeMap::new();
    for (i, m) in ms.iter().enumerate() {
        if let Some(j) = seen.insert(m, i) {
            return Err(format!("trees {} and {} are the same: {:?}", j, i, m));
        }
    }
    Ok(())
}
fn descending(g: &G, ms: &[Map]) -> Res {
    for (i, p) in ms.windows(2).enumerate() {
        let (x, y) = (mweight(g, &p[0]), mweight(g, &p[1]));
        ensure!(!clearly_less(lw(x), lw(y)), "tree {} has weight {} and tree {} has weight {}\n{:?}\n{:?}", i, x, i + 1, y, p[0], p[1]);
    }
    Ok(())
}
/// all derivations by the reference parser, if there are not too many
fn reference(s: &Setup) -> Option<Vec<Map>> {
    if s.cands.map_or(false, |n| n > LIMIT as u64) {
        return None;
    }
    let mut p = Parser::new(&s.g, &s.w, 2 * LIMIT);
    let all = p.all();
    if p.overflow || p.cyclic {
        return None;
    }
    Some(all.iter().map(|t| t.addresses()).collect())
}

fn sound(c: &mut Case) -> Res {
    let s = setup(c, 9);
    let width = c.s.small(4);
    c.note("width", width);
    let cs = build(&s.g, width)?;
    let (trees, _) = parse(&cs, &limit(&s), &s.ws, LIMIT);
    c.nontrivial_if(trees.iter().any(|t| t.len() > 2));
    if s.g.rules.iter().any(|r| r.comp.len() > 1) && !trees.is_empty() {
        c.label("fan-out above one, parsed")
    }
    for (k, m) in ids(&s.g, &trees)?.iter().enumerate() {
        is_derivation(&s.g, m, &s.w).map_err(|e| format!("tree {}: {}\n{:?}", k, e, m))?;
    }
    Ok(())
}
/// grammars that are not in normal form and widths there are no estimates for
fn refused(c: &mut Case) -> Res {
    let o = GenOpts { eps: c.s.chance(1, 2), normal_form: c.s.chance(1, 2), ..GenOpts::default() };
    let g = G::generate(&mut c.s, &o);
    let width = if c.s.chance(1, 4) { *c.s.pick(&[256, 300, 70_000, 1 << 32]) } else { 0 };
    c.text("grammar", show(&g));
    c.note("width", width);
    let fits = g.rules.iter().all(|r| {
        let t = r.comp.iter().flatten().filter(|y| if let Y::T(_) = y { true } else { false }).count();
        r.comp.iter().all(|k| !k.is_empty()) && (t == 0 || t == 1 && r.comp.len() == 1 && r.comp[0].len() == 1)
    });
    let l = match Lcfrs::new(g.rules.iter().map(rule).collect::<Vec<_>>(), nt(0)) {
        Some(l) => l,
        None => return Ok(()),
    };
    if fits && width > 255 {
        c.label("too wide");
    } else if !fits {
        c.label("not in normal form");
    }
    let built = no_panic(|| {
        let cs: Cs = CSRepresentation::new(l, width);
        drop(cs);
    });
    c.nontrivial_if(!fits || width > 255);
    ensure_eq!(built.is_ok(), fits && width <= 255, "a representation is built");
    Ok(())
}
fn complete(c: &mut Case) -> Res {
    let s = setup(c, 7);
    let cs = build(&s.g, 0)?;
    let (trees, _) = parse(&cs, &limit(&s), &s.ws, 2 * LIMIT);
    let got = ids(&s.g, &trees)?;
    no_repeats(&got)?;
    let want = match reference(&s) {
        Some(w) => w,
        None => return Ok(()),
    };
    c.nontrivial_if(want.len() > 1);
    c.label(match want.len() {
        0 => "no parse",
        1 => "one parse",
        _ => "several parses",
    });
    let wset: BTreeSet<&Map> = want.iter().collect();
    let gset: BTreeSet<&Map> = got.iter().collect();
    for m in &gset {
        ensure!(wset.contains(*m), "the parser finds what is no derivation of the sentence: {:?}", m);
    }
    if s.cands.map_or(false, |n| n <= LIMIT as u64) {
        for m in &wset {
            ensure!(gset.contains(*m), "the parser misses the derivation {:?}", m);
        }
        if s.cands.unwrap() as usize > want.len() {
            c.label("inconsistent candidates")
        }
    } else if s.chain && !got.is_empty() {
        // enumeration was cut: nothing better than the last tree found may be missing
        let last = mweight(&s.g, got.last().unwrap());
        for m in &wset {
            ensure!(
                gset.contains(*m) || !clearly_less(lw(last), lw(mweight(&s.g, m))),
                "the parser misses the derivation {:?} but finds worse ones",
                m
            );
        }
        c.label("cut enumeration")
    }
    Ok(())
}
fn ordered(c: &mut Case) -> Res {
    let s = setup(c, 8);
    let cs = build(&s.g, 0)?;
    let (trees, _) = parse(&cs, &limit(&s), &s.ws, LIMIT);
    let got = ids(&s.g, &trees)?;
    let differ = got.windows(2).any(|p| !closef(mweight(&s.g, &p[0]), mweight(&s.g, &p[1])));
    c.nontrivial_if(differ);
    if got.len() > 5 {
        c.label("more than five parses")
    }
    descending(&s.g, &got)?;
    if let Some(want) = reference(&s) {
        let mut ws: Vec<f64> = want.iter().map(|m| mweight(&s.g, m)).collect();
        ws.sort_by(|a, b| b.partial_cmp(a).unwrap());
        for (k, (m, w)) in got.iter().zip(&ws).enumerate() {
            let x = mweight(&s.g, m);
            ensure!(close(lw(x), lw(*w)), "the {}-th tree has weight {}, the {}-th best derivation {}", k + 1, x, k + 1, w);
        }
        // taking the first k only
        let k = c.s.range(1, 4);
        let (few, _) = parse(&cs, &limit(&s), &s.ws, k);
        ensure_eq!(ids(&s.g, &few)?[..], got[..k.min(got.len())], "the first {} trees", k);
        if s.cands.map_or(false, |n| n > 0) && !want.is_empty() {
            ensure!(!got.is_empty(), "no tree for a sentence of the language");
        }
    }
    Ok(())
}
fn estimates(c: &mut Case) -> Res {
    let s = setup(c, 7);
    let base = build(&s.g, 0)?;
    let p = limit(&s);
    let want = parse(&base, &p, &s.ws, LIMIT);
    let want = (ids(&s.g, &want.0)?, want.1);
    c.nontrivial_if(want.0.iter().any(|m| m.len() > 2) && s.w.len() > 1);
    if want.0.is_empty() {
        c.label("no parse")
    }
    let n = s.w.len();
    let wset: BTreeSet<&Map> = want.0.iter().collect();
    let mut widths = vec![1, n.max(1), n + 1, n + 2 + c.s.n(20)];
    if n > 2 {
        widths.push(c.s.range(2, n - 1))
    }
    c.note("widths", &widths);
    for width in widths {
        let cs = build(&s.g, width)?;
        let (trees, _) = parse(&cs, &p, &s.ws, LIMIT);
        let got = ids(&s.g, &trees)?;
        if p.cands.is_none() {
            ensure_eq!(got.len(), want.0.len(), "number of trees with estimates up to width {}", width);
            let gset: BTreeSet<&Map> = got.iter().collect();
            ensure!(gset == wset, "other trees with estimates up to width {}:\n{:?}\ninstead of\n{:?}", width, got, want.0);
        }
        for (k, (x, y)) in got.iter().zip(&want.0).enumerate() {
            let (x, y) = (mweight(&s.g, x), mweight(&s.g, y));
            ensure!(relf(x, y), "tree {} has weight {} with estimates up to width {} and {} without", k, x, width, y);
        }
    }
    Ok(())
}
fn stored(c: &mut Case) -> Res {
    use flate2::{read::GzDecoder, write::GzEncoder, Compression};
    let o = opts(c);
    let mut g = G::generate(&mut c.s, &o);
    if c.s.chance(1, 60) {
        g.crowd(&mut c.s);
    }
    let width = c.s.small(5);
    c.text("grammar", show(&g));
    c.note("width", width);
    let cs = build(&g, width)?;
    let zipped = c.s.chance(1, 3);
    let back: Cs = if zipped {
        let mut e = GzEncoder::new(vec![], Compression::best());
        bincode::serialize_into(&mut e, &cs, bincode::Infinite).map_err(|e| e.to_string())?;
        let bytes = e.finish().map_err(|e| e.to_string())?;
        bincode::deserialize_from(&mut GzDecoder::new(&bytes[..]), bincode::Infinite).map_err(|e| format!("cannot be read back: {}", e))?
    } else {
        let bytes = bincode::serialize(&cs, bincode::Infinite).map_err(|e| e.to_string())?;
        bincode::deserialize(&bytes).map_err(|e| format!("cannot be read back: {}", e))?
    };
    for _ in 0..3 {
        let w = g.gen_word(&mut c.s, 8, o.terms);
        let ws = words(&w);
        let p = params(c, true);
        c.note("sentence", &ws);
        c.note("parameters", &p);
        let (x, y) = (parse(&cs, &p, &ws, 40), parse(&back, &p, &ws, 40));
        c.nontrivial_if(x.0.len() > 1);
        let (xs, ys) = (ids(&g, &x.0)?, ids(&g, &y.0)?);
        ensure_eq!(ys.len(), xs.len(), "number of trees from the stored representation");
        for (k, (a, b)) in ys.iter().zip(&xs).enumerate() {
            ensure_eq!(a, b, "tree {} from the stored representation", k);
        }
        ensure!(y.1 == x.1, "fallback from the stored representation: {:?} instead of {:?}", y.1, x.1);
    }
    Ok(())
}
/// one parser for several sentences, also at the same time, finds what a new one finds
fn reused(c: &mut Case, set: bool) -> Res {
    let o = opts(c);
    let mut g = if c.s.chance(1, 4) { mixed(&mut c.s) } else { G::generate(&mut c.s, &o) };
    if c.s.chance(1, 60) {
        g.crowd(&mut c.s);
    }
    let width = c.s.small(5);
    c.text("grammar", show(&g));
    c.note("width", width);
    let circular = chain_cyclic(&g);
    let cs = build(&g, width)?;
    let mut b = cs.build_generator();
    let mut p = Params::default();
    if circular {
        b.set_candidates(60);
        p.cands = Some(60);
    }
    let read = |t: GornTree<&Rule>| -> Vec<(Vec<usize>, Rule)> { t.into_iter().map(|(a, r)| (a, r.clone())).collect() };
    const K: usize = 40;
    let mut open: Vec<(Vec<String>, Params, Box<dyn Iterator<Item = GornTree<&Rule>> + '_>, Vec<Vec<(Vec<usize>, Rule)>>)> = vec![];
    let mut seen = 0;
    for k in 0..c.s.range(2, 5) {
        let w = if c.s.chance(1, 3) { loose_word(&g, &mut c.s, 7) } else { g.gen_word(&mut c.s, 7, o.terms) };
        let ws = words(&w);
        if set && c.s.chance(1, 2) {
            let q = params(c, false);
            if let Some(x) = q.beam {
                b.set_beam(x);
                p.beam = q.beam;
            }
            if let Some(x) = q.delta {
                b.set_delta(lw(x));
                p.delta = q.delta;
            }
            if c.s.chance(1, 2) {
                let x = c.s.tail(0, 4, 60);
                b.set_candidates(x);
                p.cands = Some(x);
            }
        }
        c.note("sentence", &ws);
        c.note("parameters", &p);
        if p.cands.is_none() && !w.is_empty() && Candidates::new(&g, &w).count(0, 0, 0, w.len()) > 400 {
            c.label("too many candidates");
            continue;
        }
        if c.s.chance(1, 4) {
            b.debug(&ws);
        }
        let (it, fb) = b.with_fallback(&ws);
        let want = parse(&build(&g, width)?, &p, &ws, K);
        ensure!(fb.map(|t| t.into_iter().collect::<BTreeMap<_, _>>()) == want.1, "the fallback of sentence {} is not the one of a new parser", k);
        seen += want.0.len();
        let mut it: Box<dyn Iterator<Item = GornTree<&Rule>>> = Box::new(it.take(K));
        let some = if c.s.chance(1, 2) { K } else { c.s.small(3) };
        let mut got: Vec<_> = it.by_ref().take(some).map(read).collect();
        if some == K {
            got.extend(it.map(read));
            same_trees(&g, &got, &want.0, k)?;
        } else {
            c.label("sentences at the same time");
            open.push((ws, p.clone(), it, got));
        }
    }
    for (k, (ws, p, it, mut got)) in open.into_iter().enumerate() {
        got.extend(it.map(read));
        same_trees(&g, &got, &parse(&build(&g, width)?, &p, &ws, K).0, k)?;
    }
    c.nontrivial_if(seen > 1);
    Ok(())
}
fn same_trees(g: &G, got: &[Vec<(Vec<usize>, Rule)>], want: &[Vec<(Vec<usize>, Rule)>], k: usize) -> Res {
    let (xs, ys) = (ids(g, got)?, ids(g, want)?);
    ensure_eq!(xs.len(), ys.len(), "number of trees for sentence {} compared to a new parser", k);
    for (n, (a, b)) in xs.iter().zip(&ys).enumerate() {
        ensure_eq!(a, b, "tree {} of sentence {} compared to a new parser", n, k);
    }
    Ok(())
}
fn reused_plain(c: &mut Case) -> Res {
    reused(c, false)
}
fn reused_set(c: &mut Case) -> Res {
    reused(c, true)
}
fn params(c: &mut Case, always_cands: bool) -> Params {
    Params {
        beam: if c.s.chance(1, 2) { Some(c.s.range(1, 6)) } else { None },
        delta: if c.s.chance(1, 2) { Some(*c.s.pick(&[0.0, 1e-6, 0.01, 0.1, 0.5, 1.0])) } else { None },
        cands: if always_cands { Some(60) } else { None },
    }
}
fn pruned(c: &mut Case) -> Res {
    let s = setup(c, 7);
    let width = if c.s.chance(1, 3) { c.s.range(1, 8) } else { 0 };
    let cs = build(&s.g, width)?;
    let full = match s.cands {
        Some(n) if n <= 400 => n as usize,
        _ => return Ok(()),
    };
    let all = ids(&s.g, &parse(&cs, &Params::default(), &s.ws, LIMIT).0)?;
    let set: BTreeSet<&Map> = all.iter().collect();
    c.nontrivial_if(all.len() > 1);
    // beam and threshold
    for _ in 0..3 {
        let p = params(c, false);
        c.note("parameters", &p);
        let got = ids(&s.g, &parse(&cs, &p, &s.ws, LIMIT).0)?;
        no_repeats(&got)?;
        for m in &got {
            ensure!(set.contains(m), "with {:?} the parser finds a tree it does not find otherwise: {:?}", p, m);
        }
        if got.len() < all.len() {
            c.label("beam or threshold removes parses")
        }
    }
    // hardly any constituents
    for m in &ids(&s.g, &parse(&cs, &Params { beam: Some(0), ..Params::default() }, &s.ws, LIMIT).0)? {
        ensure!(set.contains(m), "with a beam of 0 the parser finds a tree it does not find otherwise: {:?}", m);
    }
    // no restriction in effect
    let states: usize = s.g.rules.iter().flat_map(|r| &r.comp).map(|k| k.len()).sum::<usize>() + s.g.fan.iter().sum::<usize>();
    for p in &[
        Params { beam: Some(states + c.s.n(3)), ..Params::default() },
        Params { beam: Some(70_000), ..Params::default() },
        Params { delta: Some(0.0), ..Params::default() },
        Params { cands: Some(full), ..Params::default() },
        Params { beam: Some(states), delta: Some(0.0), cands: Some(full + 1) },
    ] {
        let got = ids(&s.g, &parse(&cs, p, &s.ws, LIMIT).0)?;
        ensure_eq!(got.iter().collect::<BTreeSet<_>>(), set, "{:?} restricts nothing ({} candidates in all)", p, full);
        ensure_eq!(got.len(), all.len(), "number of trees with {:?}", p);
    }
    // candidate limits; the statistics tell how many candidates are considered up to the first parse
    let first = match cs.build_generator().debug(&s.ws).3 {
        DebugResult::Parse(_, n) => n,
        DebugResult::Fallback(_, n) => {
            ensure!(n <= full, "{} candidates are considered, but there are only {}", n, full);
            n + 1
        }
        DebugResult::Noparse => 1,
    };
    let mut last = 0;
    let upto = full.min(25);
    if full > all.len() {
        c.label("inconsistent candidates")
    }
    for k in 0..=upto {
        let p = Params { cands: Some(k), ..Params::default() };
        let got = ids(&s.g, &parse(&cs, &p, &s.ws, LIMIT).0)?;
        ensure!(got.len() <= all.len() && got[..] == all[..got.len()], "with {} candidates: {:?} is no prefix of {:?}", k, got, all);
        ensure!(
            got.len() <= k && got.len() >= last && got.len() <= last + 1,
            "{} trees with {} candidates and {} trees with {} candidates",
            last,
            k.saturating_sub(1),
            got.len(),
            k
        );
        ensure!(
            got.is_empty() == (k < first) || all.is_empty(),
            "{} trees with {} candidates, but the first parse is candidate {}",
            got.len(),
            k,
            first
        );
        // all the others were considered already
        ensure!(
            all.len() - got.len() <= full - k,
            "only {} of {} trees although {} of {} candidates are considered",
            got.len(),
            all.len(),
            k,
            full
        );
        last = got.len();
    }
    Ok(())
}
/// positions at which the components of the nodes of a derivation stand
struct Items<'a> {
    g: &'a G,
    cw: &'a [Vec<f64>],
    m: &'a Map,
}
/// (nonterminal, component, from, to) and the logarithm of the weight of what is below
type Item = ((usize, usize, usize, usize), f64);
impl<'a> Items<'a> {
    fn go(&self, at: &mut Vec<usize>, k: usize, from: usize, out: &mut Vec<Item>) -> (usize, f64) {
        let id = self.m[at];
        let r = &self.g.rules[id];
        let mut to = from;
        let mut w = self.cw[id][k];
        for y in &r.comp[k] {
            match y {
                Y::T(_) => to += 1,
                Y::V(i, j) => {
                    at.push(*i);
                    let (e, x) = self.go(at, *j, to, out);
                    at.pop();
                    to = e;
                    w += x;
                }
            }
        }
        out.push(((r.head, k, from, to), w));
        (to, w)
    }
    fn all(g: &G, cw: &[Vec<f64>], m: &Map) -> Vec<Item> {
        let mut out = vec![];
        Items { g, cw, m }.go(&mut vec![], 0, 0, &mut out);
        out
    }
}
/// best weight of every component over every span, whether or not it is of use for the sentence
fn best_constituents(g: &G, cw: &[Vec<f64>], w: &[usize]) -> HashMap<(usize, usize), HashMap<(usize, usize), f64>> {
    let n = w.len();
    let mut best: HashMap<(usize, usize), HashMap<(usize, usize), f64>> = HashMap::new();
    for len in 1..=n {
        for i in 0..=n - len {
            let j = i + len;
            let mut cell: HashMap<(usize, usize), f64> = HashMap::new();
            let mut chains = vec![];
            for (id, r) in g.rules.iter().enumerate() {
                for (k, c) in r.comp.iter().enumerate() {
                    let x = match c[..] {
                        [Y::T(t)] if len == 1 && w[i] == t => Some(cw[id][k]),
                        [Y::V(x, y)] => {
                            chains.push(((r.tail[x], y), (r.head, k), cw[id][k]));
                            None
                        }
                        [Y::V(x, y), Y::V(p, q)] => (i + 1..j)
                            .filter_map(|m| {
                                let a = best[&(i, m)].get(&(r.tail[x], y))?;
                                let b = best[&(m, j)].get(&(r.tail[p], q))?;
                                Some(a + b + cw[id][k])
                            })
                            .fold(None, |a: Option<f64>, b| Some(a.map_or(b, |a| a.max(b)))),
                        _ => None,
                    };
                    if let Some(x) = x {
                        let e = cell.entry((r.head, k)).or_insert(x);
                        *e = e.max(x);
                    }
                }
            }
            let mut changed = true;
            while changed {
                changed = false;
                for (from, to, x) in &chains {
                    if let Some(a) = cell.get(from).cloned() {
                        let e = cell.entry(*to).or_insert(std::f64::NEG_INFINITY);
                        if a + x > *e + 1e-12 {
                            *e = a + x;
                            changed = true;
                        }
                    }
                }
            }
            best.insert((i, j), cell);
        }
    }
    best
}
/// what a beam or threshold keeps and what it drops, for rules of at most two variables per component
fn kept(c: &mut Case) -> Res {
    let o = GenOpts { max_rank: 2, max_fan: if c.s.chance(1, 2) { 1 } else { 2 }, max_nts: 6, max_extra: 8, terms: c.s.range(1, 2), normal_form: true, proper: c.s.chance(2, 3), ..GenOpts::default() };
    let mut g = G::generate(&mut c.s, &o);
    if c.s.chance(1, 4) {
        // constituents of equal weight
        for r in g.rules.iter_mut() {
            if c.s.chance(5, 6) {
                r.w = 1.0
            }
        }
    }
    let w = g.gen_word(&mut c.s, 6, o.terms);
    let ws = words(&w);
    let width = if c.s.chance(1, 3) { c.s.range(1, 8) } else { 0 };
    let cuts: Vec<(Option<usize>, Option<f64>)> = (0..4)
        .map(|_| {
            let beam = if c.s.chance(3, 4) { Some(c.s.n(5)) } else { None };
            let delta = if beam.is_none() || c.s.chance(1, 4) { Some(*c.s.pick(&[1.0, 0.9, 0.5, 0.2, 0.05, 0.01])) } else { None };
            (beam, delta)
        })
        .collect();
    c.text("grammar", show(&g));
    c.note("sentence", &ws);
    c.note("beams and thresholds", &cuts);
    if g.rules.iter().flat_map(|r| &r.comp).any(|k| k.len() > 2) || chain_cyclic(&g) || w.is_empty() {
        return Ok(());
    }
    if Candidates::new(&g, &w).count(0, 0, 0, w.len()) > 300 {
        return Ok(());
    }
    let cs = build(&g, width)?;
    let all = ids(&g, &parse(&cs, &Params::default(), &ws, LIMIT).0)?;
    let cw: Vec<Vec<f64>> = g.rules.iter().map(|r| lw(r.w).factorize(r.comp.len()).into_iter().map(ln).collect()).collect();
    let best = best_constituents(&g, &cw, &w);
    let items: Vec<Vec<Item>> = all.iter().map(|m| Items::all(&g, &cw, m)).collect();
    const EPS: f64 = 1e-6;
    for (beam, delta) in cuts {
        let b = beam.unwrap_or(usize::max_value());
        let d = delta.map_or(std::f64::NEG_INFINITY, |d| d.ln());
        // constituents of parses that certainly stay
        let stays = |t: &Vec<Item>| {
            t.iter().all(|((a, k, i, j), x)| {
                let cell = &best[&(*i, *j)];
                let rivals = cell.iter().filter(|(q, y)| **q != (*a, *k) && **y >= x - EPS).count();
                let top = cell.values().cloned().fold(std::f64::NEG_INFINITY, f64::max);
                // equal weights are certain only where all of them are one
                rivals < b && (*x >= top + d + EPS || *x == 0.0 && top == 0.0)
            })
        };
        let sure: Vec<bool> = items.iter().map(stays).collect();
        let mut there: HashMap<(usize, usize), HashMap<(usize, usize), f64>> = HashMap::new();
        for (t, _) in items.iter().zip(&sure).filter(|(_, s)| **s) {
            for ((a, k, i, j), x) in t {
                let e = there.entry((*i, *j)).or_default().entry((*a, *k)).or_insert(*x);
                *e = e.max(*x);
            }
        }
        let got = ids(&g, &parse(&cs, &Params { beam, delta, cands: None }, &ws, LIMIT).0)?;
        let found: BTreeSet<&Map> = got.iter().collect();
        for (m, s) in all.iter().zip(&sure) {
            ensure!(
                !s || found.contains(m),
                "with beam {:?} and threshold {:?} the parse {:?} is lost, although each of its constituents is among the best of its span",
                beam,
                delta,
                m
            );
        }
        let mut counts = BTreeSet::new();
        for m in &got {
            let mut t = Items::all(&g, &cw, m);
            // the root itself needs no place
            t.retain(|x| x.0 != (0, 0, 0, w.len()));
            let mut per: BTreeMap<(usize, usize), BTreeSet<(usize, usize)>> = BTreeMap::new();
            for ((a, k, i, j), _) in &t {
                per.entry((*i, *j)).or_default().insert((*a, *k));
            }
            for ((i, j), qs) in &per {
                ensure!(qs.len() <= b, "with beam {:?} the parse {:?} has {} constituents over the words {}..{}", beam, m, qs.len(), i, j);
                for q in qs {
                    let cell = match there.get(&(*i, *j)) {
                        Some(x) => x,
                        None => continue,
                    };
                    let x = best[&(*i, *j)][q];
                    let better = cell.values().filter(|y| **y - EPS > x).count();
                    ensure!(
                        better < b,
                        "with beam {:?} the parse {:?} has {} (component {}) over the words {}..{}, but {} constituents are better",
                        beam,
                        m,
                        nt(q.0),
                        q.1,
                        i,
                        j,
                        better
                    );
                }
            }
            counts.extend(t.into_iter().map(|x| x.0));
        }
        // the threshold is relative to the best constituent of the span; one worse than that may stay
        for ((i, j), cell) in &there {
            let least = cell.values().cloned().fold(std::f64::NEG_INFINITY, f64::max) + d - EPS;
            let low: Vec<_> = counts.iter().filter(|(a, k, x, y)| (x, y) == (i, j) && best[&(*i, *j)][&(*a, *k)] < least).collect();
            ensure!(low.len() <= 1, "with threshold {:?} the parses have the constituents {:?}, but their weights are below the threshold", delta, low);
        }
        // over all parses together
        let mut per: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        for (_, _, i, j) in &counts {
            *per.entry((*i, *j)).or_default() += 1;
        }
        for ((i, j), n) in per {
            ensure!(n <= b, "with beam {:?} the parses have {} constituents over the words {}..{}", beam, n, i, j);
        }
        if sure.iter().any(|s| *s) && got.len() < all.len() {
            c.label("some parses stay and others go");
            c.nontrivial_if(true);
        }
    }
    Ok(())
}
/// the words a fallback tree derives
fn fallback_yield(t: &BTreeMap<Vec<usize>, Rule>, at: &mut Vec<usize>, k: usize, uses: &mut BTreeMap<(Vec<usize>, usize), usize>) -> Result<Vec<String>, String> {
    let r = t.get(at).ok_or_else(|| format!("no node at {:?}", at))?;
    *uses.entry((at.clone(), k)).or_insert(0) += 1;
    let comp = r.composition.composition.get(k).ok_or_else(|| format!("no component {} at {:?}", k, at))?.clone();
    let mut out = vec![];
    for v in comp {
        match v {
            VarT::T(x) => out.push(x),
            VarT::Var(i, j) => {
                at.push(i);
                out.extend(fallback_yield(t, at, j, uses)?);
                at.pop();
            }
        }
    }
    Ok(out)
}
/// component `comp` with successors `tail` is component `k` of rule `r` up to the successors' order
fn same_component(comp: &[VarT<String>], tail: &[String], r: &Rule, k: usize) -> bool {
    let other = match r.composition.composition.get(k) {
        Some(o) => o,
        None => return false,
    };
    let mut to = BTreeMap::new();
    let mut from = BTreeMap::new();
    comp.len() == other.len()
        && comp.iter().zip(other).all(|(x, y)| match (x, y) {
            (VarT::T(a), VarT::T(b)) => a == b,
            (VarT::Var(i, j), VarT::Var(m, n)) => {
                j == n && tail.get(*i) == r.tail.get(*m) && *to.entry(*i).or_insert(*m) == *m && *from.entry(*m).or_insert(*i) == *i
            }
            _ => false,
        })
}
fn fallback(c: &mut Case) -> Res {
    let s = setup_(c, 9, true);
    let width = c.s.small(3);
    let lim = if c.s.chance(1, 3) { Some(c.s.small(4)) } else { None };
    c.note("candidates for the statistics", lim);
    let cs = build(&s.g, width)?;
    let p = limit(&s);
    let (trees, fb) = parse(&cs, &p, &s.ws, LIMIT);
    let trees = ids(&s.g, &trees)?;
    if let Some(n) = s.cands {
        ensure!(fb.is_none() || n > 0, "there is a fallback but no candidate");
        let m = if s.w.is_empty() { 0 } else { Candidates::new(&relevant(&s.g, &s.w), &s.w).count(0, 0, 0, s.w.len()) };
        ensure!(fb.is_some() || m == 0, "there is no fallback, but {} candidates", m);
    }
    ensure!(trees.is_empty() || fb.is_some(), "a parse without a fallback");
    if let Some(ref t) = fb {
        ensure_eq!(t[&vec![]].head, nt(0), "root of the fallback");
        let mut uses = BTreeMap::new();
        let y = fallback_yield(t, &mut vec![], 0, &mut uses).map_err(|e| format!("{}\n{:?}", e, t))?;
        ensure_eq!(y, s.ws, "words of the fallback {:?}", t);
        let rules: Vec<Rule> = s.g.rules.iter().map(rule).collect();
        for (a, r) in t {
            let fanout = rules.iter().filter(|q| q.head == r.head).map(|q| q.composition.composition.len()).max().unwrap_or(0);
            ensure!(r.composition.composition.len() <= fanout, "the fallback has components beyond the fan-out {} at {:?}: {}", fanout, a, r);
            ensure!(uses.keys().any(|u| u.0 == *a), "node {:?} of the fallback is not used: {:?}", a, t);
            for (i, b) in r.tail.iter().enumerate() {
                let mut at = a.clone();
                at.push(i);
                match t.get(&at) {
                    Some(q) => ensure_eq!(q.head, *b, "nonterminal at {:?} of the fallback {:?}", at, t),
                    None => return Err(format!("no node at {:?} of the fallback {:?}", at, t)),
                }
            }
            for (k, comp) in r.composition.composition.iter().enumerate() {
                ensure!(
                    comp.is_empty() || rules.iter().any(|q| q.head == r.head && same_component(comp, &r.tail, q, k)),
                    "component {} at {:?} of the fallback is not from the grammar: {}",
                    k,
                    a,
                    r
                );
            }
        }
        for (u, n) in &uses {
            ensure_eq!(*n, 1, "component {:?} of the fallback is used several times: {:?}", u, t);
        }
        c.nontrivial_if(trees.is_empty());
        if trees.is_empty() {
            c.label("fallback without parse")
        }
    }
    // statistics
    let (p, trees) = match lim {
        None => (p, trees),
        Some(n) => {
            let p = Params { cands: Some(n), ..Params::default() };
            let trees = ids(&s.g, &parse(&cs, &p, &s.ws, LIMIT).0)?;
            (p, trees)
        }
    };
    let mut b = cs.build_generator();
    if let Some(n) = p.cands {
        b.set_candidates(n)
    }
    let (nr, n, _, res) = b.debug(&s.ws);
    ensure_eq!((nr, n), (s.g.rules.len(), s.ws.len()), "number of rules and words");
    let flat = |t: rustomata::util::tree::GornTree<Rule>| -> Vec<(Vec<usize>, Rule)> { t.into_iter().collect() };
    match res {
        DebugResult::Parse(t, n) => {
            c.label("parsed");
            ensure!(!trees.is_empty(), "the statistics report a parse, the enumeration does not");
            ensure_eq!(identify(&s.g, &flat(t))?, trees[0], "the parse in the statistics");
            // found after n candidates
            let few = |n: usize| parse(&cs, &Params { cands: Some(n), ..Params::default() }, &s.ws, 1).0.len();
            ensure!(p.cands.map_or(true, |m| n <= m), "a parse is found at candidate {} of {:?}", n, p.cands);
            ensure!(n >= 1 && few(n) == 1 && few(n - 1) == 0, "the first parse is not found at candidate {}", n);
        }
        DebugResult::Fallback(t, n) => {
            ensure!(trees.is_empty(), "the statistics report a fallback, the enumeration finds a parse");
            ensure!(Some(flat(t).into_iter().collect()) == fb, "the fallback in the statistics differs");
            ensure!(p.cands.map_or(true, |m| n <= m), "{} candidates are looked at instead of {:?}", n, p.cands);
            if let (Some(m), None) = (s.cands, p.cands) {
                let least = Candidates::new(&relevant(&s.g, &s.w), &s.w).count(0, 0, 0, s.w.len());
                ensure!(least <= n as u64 && n as u64 <= m, "{} candidates looked at before falling back instead of {}", n, m);
            }
        }
        DebugResult::Noparse => ensure!(trees.is_empty() && (fb.is_none() || p.cands == Some(0)), "the statistics report no parse"),
    }
    Ok(())
}

pub fn all() -> Vec<Prop> {
    const A: &[&str] = &[
        "LCFRS in normal form with up to 6 nonterminals, fan-out 4, rank 4; weights above zero and at most one; sentences of up to 9 words",
        "candidates of grammars with circular component chains are enumerated up to a limit",
    ];
    vec![
        Prop {
            id: "C01",
            rule: "a tree with more than two nodes is found",
            assumptions: A,
            parts: vec![Part { name: "trees", quick: 30_000, thorough: 1_620_000, run: sound }, Part { name: "refused", quick: 5_000, thorough: 270_000, run: refused }],
        },
        Prop {
            id: "C02",
            rule: "the sentence has at least two derivations",
            assumptions: A,
            parts: vec![Part { name: "all derivations", quick: 30_000, thorough: 1_680_000, run: complete }, Part { name: "one parser", quick: 10_000, thorough: 560_000, run: reused_plain }, Part { name: "long sentences", quick: 8, thorough: 448, run: long }],
        },
        Prop {
            id: "C03",
            rule: "trees of different weight are found",
            assumptions: A,
            parts: vec![Part { name: "order", quick: 30_000, thorough: 1_530_000, run: ordered }],
        },
        Prop {
            id: "C04",
            rule: "a tree with more than two nodes is found for at least two words",
            assumptions: A,
            parts: vec![Part { name: "widths", quick: 15_000, thorough: 270_000, run: estimates }, Part { name: "large widths", quick: 16, thorough: 600, run: wide }],
        },
        Prop {
            id: "C05",
            rule: "some sentence has at least two trees",
            assumptions: A,
            parts: vec![Part { name: "stored", quick: 30_000, thorough: 1_800_000, run: stored }],
        },
        Prop {
            id: "C06",
            rule: "the sentence has at least two parses",
            assumptions: A,
            parts: vec![Part { name: "parameters", quick: 15_000, thorough: 765_000, run: pruned }, Part { name: "kept", quick: 30_000, thorough: 1_530_000, run: kept }, Part { name: "one parser", quick: 10_000, thorough: 510_000, run: reused_set }],
        },
        Prop {
            id: "C07",
            rule: "there is a fallback and no parse",
            assumptions: A,
            parts: vec![Part { name: "fallback", quick: 30_000, thorough: 630_000, run: fallback }],
        },
    ]
}
