//! Search, agendas, unique heap, vector multimap.
use crate::engine::*;
use crate::{ensure, ensure_eq};
use fnv::FnvBuildHasher;
use search::agenda::weighted::{Weighted, WeightedItem};
use search::agenda::{beam_heap, binary_heap, limited_heap};
use search::{Agenda, BeamHeap, LimitedHeap, Search};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::iter::FromIterator;
use unique_heap::{FnvUniqueHeap, UniqueHeap};
use vecmultimap::{VecMultiMap, VecMultiMapAdapter};

// ------------------------------------------------------------------ S01
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct N {
    id: usize,
    w: u64,
}
impl Weighted for N {
    type Weight = u64;
    fn get_weight(&self) -> u64 {
        self.w
    }
}
#[derive(Debug)]
struct Graph {
    w: Vec<u64>,
    succ: Vec<Vec<usize>>,
    init: Vec<usize>,
}
fn graph(c: &mut Case, far: usize) -> Graph {
    let max = if c.thorough { 12 } else { 8 };
    let n = c.s.tail(1, max, far.max(max));
    let w: Vec<u64> = (0..n).map(|_| c.s.below(4)).collect();
    let succ: Vec<Vec<usize>> = (0..n)
        .map(|_| {
            let k = if c.s.chance(1, 150) { c.s.range(5, 20) } else { c.s.weighted(&[2, 3, 3, 2, 1]) };
            (0..k).map(|_| c.s.n(n)).collect()
        })
        .collect();
    let k = c.s.tail(0, 3, 20);
    let init = (0..k).map(|_| c.s.n(n)).collect();
    let g = Graph { w, succ, init };
    c.note("graph", &g);
    g
}
impl Graph {
    fn node(&self, id: usize) -> N {
        N { id, w: self.w[id] }
    }
    fn inits(&self) -> Vec<N> {
        self.init.iter().map(|i| self.node(*i)).collect()
    }
    fn next(&self, n: &N) -> Vec<N> {
        self.succ[n.id].iter().map(|i| self.node(*i)).collect()
    }
    fn reachable(&self) -> BTreeSet<usize> {
        let mut seen: BTreeSet<usize> = self.init.iter().cloned().collect();
        let mut todo: Vec<usize> = seen.iter().cloned().collect();
        while let Some(x) = todo.pop() {
            for y in &self.succ[x] {
                if seen.insert(*y) {
                    todo.push(*y)
                }
            }
        }
        seen
    }
    fn distance(&self) -> BTreeMap<usize, usize> {
        let mut d: BTreeMap<usize, usize> = self.init.iter().map(|i| (*i, 0)).collect();
        let mut q: VecDeque<usize> = d.keys().cloned().collect();
        while let Some(x) = q.pop_front() {
            for y in &self.succ[x] {
                if !d.contains_key(y) {
                    let v = d[&x] + 1;
                    d.insert(*y, v);
                    q.push_back(*y)
                }
            }
        }
        d
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Dfs,
    Bfs,
    Weighted,
    Beam(u64),
}
/// Follows the visited nodes and checks that each was one to visit next. Nodes that become open
/// together (start nodes, successors of one node) may be visited in any order among themselves.
fn follow(g: &Graph, kind: Kind, unique: bool, got: &[N], complete: bool) -> Res {
    let mut open: Vec<(usize, N)> = vec![];
    let mut seen = BTreeSet::new();
    let push = |open: &mut Vec<(usize, N)>, at: usize, n: N| {
        if let Kind::Beam(b) = kind {
            if let Some(t) = open.iter().map(|n| n.1.w).max() {
                if n.w < t * b {
                    return;
                }
            }
        }
        open.push((at, n))
    };
    for n in g.inits() {
        push(&mut open, 0, n)
    }
    for (i, n) in got.iter().enumerate() {
        if unique {
            open.retain(|x| !seen.contains(&x.1));
            ensure!(seen.insert(n.clone()), "node {:?} is visited twice (position {})", n, i);
        }
        let allowed = |x: &(usize, N)| match kind {
            Kind::Dfs => open.iter().all(|y| y.0 <= x.0),
            Kind::Bfs => open.iter().all(|y| y.0 >= x.0),
            Kind::Weighted | Kind::Beam(_) => open.iter().all(|y| y.1.w <= x.1.w),
        };
        let at = open.iter().position(|x| x.1 == *n && allowed(x));
        match at {
            Some(a) => open.remove(a),
            None => return Err(format!("visit {} is {:?}, which is not a next open node; open (with time of opening): {:?}", i, n, open)),
        };
        for m in g.next(n) {
            if !(unique && seen.contains(&m)) {
                push(&mut open, i + 1, m)
            }
        }
    }
    if complete {
        open.retain(|x| !unique || !seen.contains(&x.1));
        ensure!(open.is_empty(), "the search ended with open nodes {:?}", open);
    }
    Ok(())
}
const TAKE: usize = 300;
fn run_kind(g: &Graph, kind: Kind, unique: bool) -> Vec<N> {
    let succ = |n: &N| g.next(n);
    match (kind, unique) {
        (Kind::Dfs, false) => Search::dfs(g.inits(), succ).take(TAKE).collect(),
        (Kind::Bfs, false) => Search::bfs(g.inits(), succ).take(TAKE).collect(),
        (Kind::Weighted, false) => Search::weighted(g.inits(), succ).take(TAKE).collect(),
        (Kind::Dfs, true) => Search::dfs(g.inits(), succ).uniques().take(TAKE).collect(),
        (Kind::Bfs, true) => Search::bfs(g.inits(), succ).uniques().take(TAKE).collect(),
        (Kind::Weighted, true) => Search::weighted(g.inits(), succ).uniques().take(TAKE).collect(),
        (Kind::Beam(b), u) => {
            let mut a = beam_heap::weighted::BeamHeap::new(b);
            for n in g.inits() {
                a.push(n);
            }
            let s = Search::with_agenda(a, succ);
            if u {
                s.uniques().take(TAKE).collect()
            } else {
                s.take(TAKE).collect()
            }
        }
    }
}
fn search_unique(c: &mut Case) -> Res {
    let g = graph(c, 60);
    let reach = g.reachable();
    let edges: usize = reach.iter().map(|i| g.succ[*i].len()).sum();
    // some node is reached more than once
    let dup = edges + g.init.len() > reach.len();
    c.nontrivial_if(dup && reach.len() > 1);
    if dup {
        c.label("shared or cyclic")
    }
    for kind in &[Kind::Dfs, Kind::Bfs, Kind::Weighted] {
        let got = run_kind(&g, *kind, true);
        let ids: BTreeSet<usize> = got.iter().map(|n| n.id).collect();
        ensure_eq!(ids, reach, "{:?} uniques: visited nodes {:?} differ from the reachable ones", kind, got);
        ensure!(got.len() == ids.len(), "{:?} uniques: a node is visited twice: {:?}", kind, got);
        follow(&g, *kind, true, &got, true).map_err(|e| format!("{:?} uniques {:?}: {}", kind, got, e))?;
        if *kind == Kind::Bfs {
            let d = g.distance();
            ensure!(
                got.windows(2).all(|w| d[&w[0].id] <= d[&w[1].id]),
                "breadth-first order is not by distance: {:?} (distances {:?})",
                got,
                d
            );
        }
    }
    Ok(())
}
fn search_paths(c: &mut Case) -> Res {
    let g = graph(c, 1);
    for kind in &[Kind::Dfs, Kind::Bfs, Kind::Weighted, Kind::Beam(0), Kind::Beam(1), Kind::Beam(2)] {
        let got = run_kind(&g, *kind, false);
        let complete = got.len() < TAKE;
        if complete {
            c.label("finite")
        } else {
            c.label("infinite")
        }
        c.nontrivial_if(got.len() > 3);
        follow(&g, *kind, false, &got, complete).map_err(|e| format!("{:?} {:?}: {}", kind, got, e))?;
    }
    for b in 0..2 {
        let got = run_kind(&g, Kind::Beam(b), true);
        let reach = g.reachable();
        let ids: BTreeSet<usize> = got.iter().map(|n| n.id).collect();
        ensure!(got.len() == ids.len() && ids.is_subset(&reach), "beam uniques: {:?} of {:?}", got, reach);
        if b == 0 {
            ensure_eq!(ids, reach, "an unbounded beam misses nodes");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ S02
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct It {
    w: u64,
    tag: usize,
}
impl Weighted for It {
    type Weight = u64;
    fn get_weight(&self) -> u64 {
        self.w
    }
}
fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}
/// what a priority agenda may do; `held` is followed along the actual answers
struct Held(Vec<It>);
impl Held {
    fn top(&self) -> Option<u64> {
        self.0.iter().map(|i| i.w).max()
    }
    fn remove(&mut self, i: &It) -> bool {
        match self.0.iter().position(|j| j == i) {
            Some(p) => {
                self.0.remove(p);
                true
            }
            None => false,
        }
    }
    fn popped(&mut self, got: Option<It>) -> Res {
        match got {
            None => ensure!(self.0.is_empty(), "nothing is popped although {:?} are held", self.0),
            Some(i) => {
                ensure!(self.top() == Some(i.w), "popped {:?} although the greatest priority held is {:?}", i, self.top());
                ensure!(self.remove(&i), "popped {:?}, which is not held ({:?})", i, self.0);
            }
        }
        Ok(())
    }
    fn peeked(&self, got: Option<&It>) -> Res {
        match got {
            None => ensure!(self.0.is_empty(), "nothing to peek at although {:?} are held", self.0),
            Some(i) => ensure!(
                self.top() == Some(i.w) && self.0.contains(i),
                "the first element is said to be {:?}, held are {:?}",
                i,
                self.0
            ),
        }
        Ok(())
    }
}
enum Ag {
    Heap(binary_heap::weighted::BinaryHeap<It>),
    Beam(BeamHeap<It, u64>),
    WBeam(beam_heap::weighted::BeamHeap<It>),
    Lim(LimitedHeap<It, u64>),
    WLim(limited_heap::weighted::LimitedHeap<It>),
}
fn agendas(c: &mut Case) -> Res {
    let kind = c.s.n(5);
    let beta = c.s.pick(&[0u64, 1, 1, 2, 3]).clone();
    let cap = c.s.tail(0, 6, 40);
    let n = c.s.tail(0, if c.thorough { 120 } else { 40 }, 400);
    let levels = if c.s.chance(1, 6) { 1000 } else { 8 };
    let (mut pushes, mut rejects) = (0, 0);
    let mut held = Held(vec![]);
    let mut ag = match kind {
        0 => Ag::Heap(if c.s.chance(1, 2) {
            let m = c.s.n(8);
            let v: Vec<It> = (0..m).map(|tag| It { w: c.s.below(6), tag: 1000 + tag }).collect();
            held.0 = v.clone();
            binary_heap::weighted::BinaryHeap::from_iter(v)
        } else {
            binary_heap::weighted::BinaryHeap::new()
        }),
        1 => Ag::Beam(BeamHeap::new(beta)),
        2 => Ag::WBeam(beam_heap::weighted::BeamHeap::new(beta)),
        3 => Ag::Lim(LimitedHeap::with_capacity(cap)),
        _ => Ag::WLim(limited_heap::weighted::LimitedHeap::with_capacity(cap)),
    };
    c.note("agenda", (["heap", "beam", "weighted beam", "limited", "weighted limited"][kind], beta, cap));
    let mut log = vec![];
    let r = (|| -> Res {
        for tag in 0..n {
            let op = c.s.weighted(&[10, 6, 2, 1, 1]);
            let w = c.s.below(levels);
            let through_trait = c.s.chance(1, 3);
            let before = held.top();
            match op {
                0 => {
                    let it = It { w, tag };
                    log.push(format!("push {}", w));
                    pushes += 1;
                    // Ok(accepted) for a beam, Err(dropped) for a limited heap
                    let ans = match (&mut ag, through_trait) {
                        (Ag::Heap(h), false) => {
                            h.push(it.clone());
                            Ok(Some(true))
                        }
                        (Ag::Heap(h), true) => {
                            Agenda::push(h, it.clone());
                            Ok(Some(true))
                        }
                        (Ag::Beam(h), _) => Ok(Some(h.push(it.clone(), w))),
                        (Ag::WBeam(h), false) => Ok(Some(h.push(it.clone()))),
                        (Ag::WBeam(h), true) => {
                            Agenda::push(h, it.clone());
                            Ok(None)
                        }
                        (Ag::Lim(h), _) => Err(Some(h.push(it.clone(), w))),
                        (Ag::WLim(h), false) => Err(Some(h.push(it.clone()))),
                        (Ag::WLim(h), true) => {
                            Agenda::push(h, it.clone());
                            Err(None)
                        }
                    };
                    match ans {
                        Ok(a) => {
                            let expect = kind == 0 || before.map_or(true, |t| w >= t * beta);
                            if let Some(a) = a {
                                ensure_eq!(a, expect, "push of priority {} into a beam with best {:?} and factor {}", w, before, beta);
                            }
                            if expect {
                                held.0.push(it)
                            } else {
                                rejects += 1
                            }
                        }
                        Err(d) => {
                            held.0.push(it);
                            if held.0.len() > cap {
                                rejects += 1;
                                let low = held.0.iter().map(|i| i.w).min().unwrap();
                                match d {
                                    Some(Some(d)) => {
                                        ensure!(d.w == low, "a full agenda of capacity {} dropped {:?} although {} is the lowest priority", cap, d, low);
                                        ensure!(held.remove(&d), "dropped {:?}, which was not held", d);
                                    }
                                    Some(None) => return Err(format!("nothing was handed back on a push into a full agenda of capacity {}", cap)),
                                    None => {
                                        // which of the lowest was dropped shows in the contents only
                                        let len = match &ag {
                                            Ag::WLim(h) => h.len(),
                                            _ => unreachable!(),
                                        };
                                        ensure_eq!(len, cap, "length of a full agenda");
                                        let cands: Vec<usize> =
                                            (0..held.0.len()).filter(|i| held.0[*i].w == low).collect();
                                        if cands.len() > 1 {
                                            return Ok(()); // not observable; stop here
                                        }
                                        held.0.remove(cands[0]);
                                    }
                                }
                            } else {
                                ensure!(d.is_none() || d == Some(None), "an element {:?} was dropped although the agenda was not full", d);
                            }
                        }
                    }
                }
                1 => {
                    log.push("pop".into());
                    let got = match (&mut ag, through_trait) {
                        (Ag::Heap(h), false) => h.pop(),
                        (Ag::Heap(h), true) => Agenda::pop(h),
                        (Ag::Beam(h), _) => h.pop(),
                        (Ag::WBeam(h), false) => h.pop(),
                        (Ag::WBeam(h), true) => Agenda::pop(h),
                        (Ag::Lim(h), _) => h.pop(),
                        (Ag::WLim(h), false) => h.pop(),
                        (Ag::WLim(h), true) => Agenda::pop(h),
                    };
                    held.popped(got)?;
                }
                2 => {
                    // several at once
                    if kind == 0 || (kind == 2 && beta <= 1) {
                        let k = c.s.n(4);
                        let v: Vec<It> = (0..k).map(|j| It { w: c.s.below(8), tag: 2000 + 10 * tag + j }).collect();
                        log.push(format!("extend {:?}", v));
                        for i in &v {
                            if kind == 0 || held.top().map_or(true, |t| i.w >= t * beta) {
                                held.0.push(i.clone())
                            }
                        }
                        match &mut ag {
                            Ag::Heap(h) => h.extend(v),
                            Ag::WBeam(h) => h.extend(v),
                            _ => unreachable!(),
                        }
                    }
                }
                3 if c.s.chance(1, 4) => {
                    log.push("clear".into());
                    held.0.clear();
                    match &mut ag {
                        Ag::Heap(h) => h.clear(),
                        Ag::Beam(h) => h.clear(),
                        Ag::WBeam(h) => h.clear(),
                        Ag::Lim(h) => h.clear(),
                        Ag::WLim(h) => h.clear(),
                    }
                }
                _ => {
                    // a clone is an agenda of its own
                    match &ag {
                        Ag::Beam(h) => {
                            let mut k = h.clone();
                            while k.pop().is_some() {}
                            ensure_eq!(k.len(), 0, "emptied clone");
                        }
                        Ag::Lim(h) => {
                            let mut k = h.clone();
                            while k.pop().is_some() {}
                            ensure_eq!(k.len(), 0, "emptied clone");
                        }
                        _ => (),
                    }
                }
            }
            let (len, empty) = match &ag {
                Ag::Heap(h) => (h.len(), Agenda::is_empty(h)),
                Ag::Beam(h) => (h.len(), h.len() == 0),
                Ag::WBeam(h) => (Agenda::len(h), h.is_empty()),
                Ag::Lim(h) => (h.len(), h.len() == 0),
                Ag::WLim(h) => (Agenda::len(h), h.is_empty()),
            };
            ensure_eq!(len, held.0.len(), "length; held {:?}", held.0);
            ensure_eq!(empty, held.0.is_empty(), "emptiness");
            let peek = match (&ag, through_trait) {
                (Ag::Heap(h), true) => Agenda::peek(h),
                (Ag::Heap(h), false) => h.peek(),
                (Ag::Beam(h), _) => h.peek(),
                (Ag::WBeam(h), true) => Agenda::peek(h),
                (Ag::WBeam(h), false) => h.peek(),
                (Ag::Lim(h), _) => h.peek(),
                (Ag::WLim(h), true) => Agenda::peek(h),
                (Ag::WLim(h), false) => h.peek(),
            };
            held.peeked(peek)?;
        }
        if c.s.chance(1, 2) {
            log.push("into_iter".into());
            let rest: Vec<It> = match ag {
                Ag::Heap(h) => h.into_iter().collect(),
                Ag::Beam(h) => h.into_iter().collect(),
                Ag::WBeam(h) => h.into_iter().collect(),
                Ag::Lim(h) => h.into_iter().collect(),
                Ag::WLim(h) => h.into_iter().collect(),
            };
            ensure_eq!(sorted(rest), sorted(held.0.clone()), "contents by iteration");
        } else {
            log.push("pop all".into());
            loop {
                let got = match &mut ag {
                    Ag::Heap(h) => h.pop(),
                    Ag::Beam(h) => h.pop(),
                    Ag::WBeam(h) => h.pop(),
                    Ag::Lim(h) => h.pop(),
                    Ag::WLim(h) => h.pop(),
                };
                let end = got.is_none();
                held.popped(got)?;
                if end {
                    break;
                }
            }
        }
        Ok(())
    })();
    c.note("operations", log);
    c.nontrivial_if(pushes > 3);
    if rejects > 0 {
        c.label("something rejected or dropped")
    }
    r
}
fn stack_queue(c: &mut Case) -> Res {
    let queue = c.s.chance(1, 2);
    let n = c.s.tail(0, 40, 400);
    let mut model: VecDeque<usize> = VecDeque::new(); // oldest first
    let mut st: Vec<usize> = vec![];
    let mut qu: VecDeque<usize> = VecDeque::new();
    let mut log = vec![];
    let r = (|| -> Res {
        for k in 0..n {
            match c.s.weighted(&[3, 2, 1]) {
                0 => {
                    log.push(format!("push {}", k));
                    model.push_back(k);
                    if queue {
                        Agenda::push(&mut qu, k)
                    } else {
                        Agenda::push(&mut st, k)
                    }
                }
                1 => {
                    log.push("pop".into());
                    let (g, e) = if queue {
                        (Agenda::pop(&mut qu), model.pop_front())
                    } else {
                        (Agenda::pop(&mut st), model.pop_back())
                    };
                    ensure_eq!(g, e, "popped from a {}", if queue { "queue" } else { "stack" });
                }
                _ => {
                    let m = c.s.n(4);
                    let v: Vec<usize> = (0..m).map(|j| 1000 + 10 * k + j).collect();
                    log.push(format!("extend {:?}", v));
                    Extend::extend(&mut model, v.iter().cloned());
                    if queue {
                        Agenda::extend(&mut qu, v)
                    } else {
                        Agenda::extend(&mut st, v)
                    }
                }
            }
            let (p, l, e, x) = if queue {
                (Agenda::peek(&qu), Agenda::len(&qu), Agenda::is_empty(&qu), model.front())
            } else {
                (Agenda::peek(&st), Agenda::len(&st), Agenda::is_empty(&st), model.back())
            };
            ensure_eq!(p, x, "first element");
            ensure_eq!(l, model.len(), "length");
            ensure_eq!(e, model.is_empty(), "emptiness");
        }
        Ok(())
    })();
    c.note("operations", (queue, log));
    c.nontrivial_if(n > 4);
    r
}
fn weighted_item(c: &mut Case) -> Res {
    let (a, b) = (c.s.below(4), c.s.below(4));
    let (x, y) = (c.s.below(3), c.s.below(3));
    c.note("items", ((x, a), (y, b)));
    c.nontrivial_if(true);
    let (i, j) = (WeightedItem(x, a), WeightedItem(y, b));
    ensure_eq!(i.cmp(&j), a.cmp(&b), "comparison of weighted items");
    ensure_eq!(i.partial_cmp(&j), Some(a.cmp(&b)), "partial comparison of weighted items");
    ensure_eq!(i == j, a == b, "equality of weighted items");
    ensure_eq!(i.get_weight(), a, "weight");
    Ok(())
}

// ------------------------------------------------------------------ S03
enum UH {
    Std(UniqueHeap<String, u64>),
    Fnv(FnvUniqueHeap<String, u64>),
}
macro_rules! uh {
    ($h:expr, $x:ident => $e:expr) => {
        match $h {
            UH::Std($x) => $e,
            UH::Fnv($x) => $e,
        }
    };
}
fn unique_heap(c: &mut Case) -> Res {
    let fnv = c.s.chance(1, 2);
    let how = c.s.n(4);
    let names = c.s.tail(6, 6, 150);
    let levels = if c.s.chance(1, 6) { 1000 } else { 5 };
    let name = |i: usize| format!("i{}", i);
    let mut model: BTreeMap<String, u64> = BTreeMap::new();
    let mut log = vec![];
    let mut dups = 0;
    let mut h = match how {
        0 => {
            if fnv {
                UH::Fnv(FnvUniqueHeap::default())
            } else {
                UH::Std(UniqueHeap::default())
            }
        }
        _ => {
            let k = c.s.tail(0, 8, 80);
            let v: Vec<(String, u64)> = (0..k).map(|_| (name(c.s.n(names)), c.s.below(levels))).collect();
            for (i, w) in &v {
                if model.contains_key(i) {
                    dups += 1
                } else {
                    model.insert(i.clone(), *w);
                }
            }
            if how == 1 {
                log.push(format!("collect {:?}", v));
                if fnv {
                    UH::Fnv(v.into_iter().collect::<UniqueHeap<_, _, FnvBuildHasher>>())
                } else {
                    UH::Std(v.into_iter().collect())
                }
            } else if how == 3 {
                // an iterator that does not know how many elements it has, or only a far too large bound
                let unknown = c.s.chance(1, 2);
                log.push(format!("collect {} {:?}", if unknown { "without a known length" } else { "with a large bound" }, v));
                let first: Box<dyn Iterator<Item = (String, u64)>> =
                    if unknown { Box::new(v.into_iter().flat_map(|x| vec![x])) } else { Box::new((0..usize::max_value()).map_while(move |i| v.get(i).cloned())) };
                if fnv {
                    UH::Fnv(first.collect::<UniqueHeap<_, _, FnvBuildHasher>>())
                } else {
                    UH::Std(first.collect())
                }
            } else {
                log.push(format!("from vector {:?}", v));
                let v: Vec<(u64, String)> = v.into_iter().map(|(a, b)| (b, a)).collect();
                if fnv {
                    UH::Fnv(v.into())
                } else {
                    UH::Std(v.into())
                }
            }
        }
    };
    let n = c.s.tail(0, 30, 150);
    let r = (|| -> Res {
        for step in 0..=n {
            if step > 0 {
                if c.s.chance(2, 3) {
                    let (i, w) = (name(c.s.n(names)), c.s.below(levels));
                    log.push(format!("push {} {}", i, w));
                    let fresh = !model.contains_key(&i);
                    if fresh {
                        model.insert(i.clone(), w);
                    } else {
                        dups += 1
                    }
                    ensure_eq!(uh!(&mut h, x => x.push(i, w)), fresh, "answer of push");
                } else {
                    log.push("pop".into());
                    let e = model.iter().map(|(i, w)| (*w, i.clone())).max();
                    let got = uh!(&mut h, x => x.pop());
                    ensure_eq!(got, e.clone().map(|(w, i)| (i, w)), "popped element");
                    if let Some((_, i)) = e {
                        model.remove(&i);
                    }
                }
            }
            let all: BTreeSet<(u64, String)> = model.iter().map(|(i, w)| (*w, i.clone())).collect();
            ensure_eq!(uh!(&h, x => x.len()), all.len(), "length");
            ensure_eq!(uh!(&h, x => x.is_empty()), all.is_empty(), "emptiness");
            ensure_eq!(uh!(&h, x => x.peek().cloned()), all.iter().next_back().cloned(), "first element");
            let it: Vec<(u64, String)> = uh!(&h, x => x.into_iter().cloned().collect());
            ensure_eq!(sorted(it), all.into_iter().collect::<Vec<_>>(), "contents by iteration");
        }
        let all: Vec<(u64, String)> = sorted(model.iter().map(|(i, w)| (*w, i.clone())).collect());
        let copy = match &h {
            UH::Std(x) => UH::Std(x.clone()),
            UH::Fnv(x) => UH::Fnv(x.clone()),
        };
        ensure_eq!(uh!(copy, x => x.into_sorted_vec()), all, "sorted vector");
        if c.s.chance(1, 2) {
            let v: Vec<(u64, String)> = uh!(h, x => x.into_iter().collect());
            ensure_eq!(sorted(v), all, "contents by consuming iteration");
        } else {
            for (w, i) in all.into_iter().rev() {
                ensure_eq!(uh!(&mut h, x => x.pop()), Some((i, w)), "order of the remaining elements");
            }
            ensure_eq!(uh!(&mut h, x => x.pop()), None, "end");
        }
        Ok(())
    })();
    c.note("history", log);
    if dups > 0 {
        c.label("element pushed while held")
    }
    c.nontrivial_if(dups > 0);
    r
}

// ------------------------------------------------------------------ S04
fn multimap(c: &mut Case) -> Res {
    let adapter = c.s.chance(1, 2);
    let n = c.s.tail(0, 40, 200);
    let indices = c.s.tail(12, 12, 300);
    let mut model: BTreeMap<usize, Vec<u64>> = BTreeMap::new();
    let mut base: Vec<Vec<u64>> = vec![];
    if adapter {
        let k = c.s.tail(0, 3, 40);
        for i in 0..k {
            let m = c.s.n(3);
            let v: Vec<u64> = (0..m).map(|_| c.s.below(100)).collect();
            model.insert(i, v.clone());
            base.push(v);
        }
    }
    let mut log = vec![format!("start {:?}", base)];
    let mut plain = VecMultiMap::new();
    let touched = std::cell::Cell::new(base.len()); // 1 + greatest index used mutably
    let r = (|| -> Res {
        {
            let mut ad = VecMultiMapAdapter::from(&mut base);
            for _ in 0..n {
                let i = c.s.n(indices);
                let empty = vec![];
                match c.s.weighted(&[5, 2, 3, 2]) {
                    0 => {
                        let v = c.s.below(100);
                        log.push(format!("push_to {} {}", i, v));
                        model.entry(i).or_insert_with(Vec::new).push(v);
                        touched.set(touched.get().max(i + 1));
                        if adapter {
                            ad.push_to(i, v)
                        } else {
                            plain.push_to(i, v)
                        }
                    }
                    1 => {
                        log.push(format!("get {}", i));
                        touched.set(touched.get().max(i + 1));
                        let got = if adapter { ad.get(i).clone() } else { plain.get(i).clone() };
                        ensure_eq!(got, *model.get(&i).unwrap_or(&empty), "values at index {}", i);
                    }
                    2 => {
                        log.push(format!("look up {}", i));
                        let got = if adapter { ad.get_or_fail(i) } else { plain.get_or_fail(i) };
                        match got {
                            Some(v) => ensure_eq!(v, model.get(&i).unwrap_or(&empty), "values at index {}", i),
                            None => {
                                ensure!(!model.contains_key(&i), "index {} holds {:?} but is not found", i, model[&i]);
                                ensure!(i >= touched.get(), "index {} was created but is not found", i);
                            }
                        }
                        if adapter && got.is_some() {
                            ensure_eq!(ad[i], *model.get(&i).unwrap_or(&empty), "indexing {}", i);
                        }
                    }
                    _ => {
                        let v = c.s.below(100);
                        let clear = c.s.chance(1, 4);
                        log.push(format!("change {} {} {}", i, v, clear));
                        touched.set(touched.get().max(i + 1));
                        let m = model.entry(i).or_insert_with(Vec::new);
                        let index = c.s.chance(1, 2);
                        let r = if !adapter {
                            plain.get_mut(i)
                        } else if index {
                            &mut ad[i]
                        } else {
                            ad.get_mut(i)
                        };
                        ensure_eq!(*r, *m, "values at index {} for change", i);
                        if clear {
                            r.clear();
                            m.clear();
                        } else {
                            r.insert(0, v);
                            m.insert(0, v);
                        }
                    }
                }
            }
        }
        let at = |k: usize| model.get(&k).cloned().unwrap_or_default();
        if adapter {
            ensure_eq!(base.len(), touched.get(), "length of the vector behind the adapter");
            ensure_eq!(base, (0..touched.get()).map(at).collect::<Vec<_>>(), "vector behind the adapter");
        } else if c.s.chance(1, 2) {
            let size = c.s.n(indices + 3);
            log.push(format!("into_vec_with_size {}", size));
            let v = plain.into_vec_with_size(size);
            ensure_eq!(v, (0..size).map(at).collect::<Vec<_>>(), "vector of size {}", size);
        } else {
            log.push("into".into());
            let v: Vec<Vec<u64>> = plain.into();
            let last = model.iter().filter(|(_, v)| !v.is_empty()).map(|(k, _)| *k + 1).max().unwrap_or(0);
            ensure_eq!(v, (0..last).map(at).collect::<Vec<_>>(), "vector up to the last used index");
        }
        Ok(())
    })();
    c.note("history", (adapter, log));
    c.nontrivial_if(model.values().any(|v| v.len() > 1));
    r
}

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "S01",
            rule: "unique search: some reachable node can be reached twice; path search: more than three visits",
            assumptions: &["graphs of up to 8 (thorough: 12) nodes with up to 4 successors each; searches are cut after 300 visits"],
            parts: vec![
                Part { name: "uniques", quick: 500_000, thorough: 20_000_000, run: search_unique },
                Part { name: "paths and beams", quick: 20_000, thorough: 1_200_000, run: search_paths },
            ],
        },
        Prop {
            id: "S02",
            rule: "more than three pushes (stack and queue: more than four operations)",
            assumptions: &["integer priorities 0..8 and factors 0..3; up to 40 (thorough: 120) operations"],
            parts: vec![
                Part { name: "priority agendas", quick: 750_000, thorough: 45_000_000, run: agendas },
                Part { name: "stack and queue", quick: 150_000, thorough: 9_000_000, run: stack_queue },
                Part { name: "weighted items", quick: 500, thorough: 500, run: weighted_item },
            ],
        },
        Prop {
            id: "S03",
            rule: "some element is pushed while it is held",
            assumptions: &["six different elements, five priorities, up to 30 operations"],
            parts: vec![Part { name: "histories", quick: 600_000, thorough: 36_000_000, run: unique_heap }],
        },
        Prop {
            id: "S04",
            rule: "some index holds more than one value",
            assumptions: &["indices 0..12, up to 40 operations"],
            parts: vec![Part { name: "histories", quick: 600_000, thorough: 36_000_000, run: multimap }],
        },
    ]
}
