//! Partitions, Gorn trees, reversed weights, factors.
use crate::engine::*;
use crate::model::{closef, lw, W};
use crate::{ensure, ensure_eq};
use num_traits::{One, Zero};
use rustomata::util::factorizable::Factorizable;
use rustomata::util::partition::Partition;
use rustomata::util::reverse::Reverse;
use rustomata::util::tree::GornTree;
use rustomata::dyck::Bracket;
use rustomata::grammars::cfg::{CFGComposition, CFGRule, LetterT};
use rustomata::grammars::pmcfg::{PMCFGRule, VarT};
use search::agenda::weighted::WeightedItem;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};

// ------------------------------------------------------------------ U01
fn partition(c: &mut Case) -> Res {
    let m = c.s.tail(0, 6, 30);
    let many = c.s.tail(12, 12, 150);
    let disjoint = c.s.chance(2, 3);
    let mut cells: Vec<BTreeSet<u32>> = vec![];
    if disjoint {
        let n = c.s.range(0, many);
        cells = vec![BTreeSet::new(); m];
        for e in 0..n {
            if m > 0 {
                let k = c.s.n(m + 1);
                if k < m {
                    cells[k].insert(e as u32);
                }
            }
        }
    } else {
        for _ in 0..m {
            let k = c.s.range(0, many / 3);
            cells.push((0..k).map(|_| c.s.below(many as u64) as u32).collect());
        }
    }
    c.note("cells", &cells);
    let total: usize = cells.iter().map(|x| x.len()).sum();
    let union: BTreeSet<u32> = cells.iter().flatten().cloned().collect();
    let valid = total == union.len();
    c.label(if valid { "disjoint" } else { "overlapping" });
    c.nontrivial_if(cells.iter().filter(|x| x.len() > 1).count() > 1);
    let p = Partition::new(cells.clone());
    ensure_eq!(p.is_some(), valid, "a partition is constructed");
    let stored = bincode::serialize(&cells, bincode::Infinite).map_err(|e| format!("cannot store: {}", e))?;
    let loaded = no_panic(|| bincode::deserialize::<Partition<u32>>(&stored).ok()).map_err(|e| format!("loading the cells crashes: {}", e))?;
    ensure_eq!(loaded.is_some(), valid, "the cells are loaded as a partition");
    let p = match p {
        Some(p) => p,
        None => return Ok(()),
    };
    ensure!(loaded.as_ref() == Some(&p), "the loaded partition differs");
    let again = bincode::serialize(&p, bincode::Infinite).map_err(|e| format!("cannot store: {}", e))?;
    let again: Partition<u32> = bincode::deserialize(&again).map_err(|e| format!("cannot load what was stored: {}", e))?;
    for q in &[&p, &again] {
        for e in 0..many as u32 + 2 {
            let want = cells.iter().find(|x| x.contains(&e));
            ensure_eq!(q.get_cell(&e), want, "cell of {}", e);
        }
        ensure_eq!(q.alphabet().cloned().collect::<BTreeSet<_>>(), union, "alphabet");
        ensure_eq!(q.alphabet().count(), union.len(), "size of the alphabet");
        let got: Vec<BTreeSet<u32>> = q.collapse().into_iter().cloned().collect();
        let want: BTreeSet<BTreeSet<u32>> = cells.iter().filter(|x| !x.is_empty()).cloned().collect();
        ensure_eq!(got.iter().cloned().collect::<BTreeSet<_>>(), want, "cells");
        ensure_eq!(got.len(), want.len(), "number of cells");
    }
    Ok(())
}

// ------------------------------------------------------------------ U02
fn addr(s: &mut Src) -> Vec<usize> {
    let k = s.small(3);
    let k = if s.chance(1, 40) { k + s.range(1, 9) } else { k };
    let far = s.tail(3, 3, 30);
    (0..k).map(|_| s.n(far)).collect()
}
fn gorn(c: &mut Case) -> Res {
    let n = c.s.tail(0, 40, 200);
    let mut t: GornTree<u64> = GornTree::new();
    let mut m: BTreeMap<Vec<usize>, u64> = BTreeMap::new();
    let mut log = vec![];
    let mut hits = 0;
    if c.s.chance(1, 2) {
        let k = c.s.range(0, 6);
        let v: Vec<(Vec<usize>, u64)> = (0..k).map(|_| (addr(&mut c.s), c.s.below(50))).collect();
        log.push(format!("collect {:?}", v));
        for (a, x) in &v {
            m.insert(a.clone(), *x);
        }
        t = v.into_iter().collect();
    }
    // a prefix comes before its extensions, then the first difference counts
    let before = |a: &Vec<usize>, b: &Vec<usize>| {
        for (x, y) in a.iter().zip(b) {
            if x != y {
                return x < y;
            }
        }
        a.len() < b.len()
    };
    let r = (|| -> Res {
        for _ in 0..n {
            let a = addr(&mut c.s);
            hits += m.contains_key(&a) as u32;
            match c.s.weighted(&[6, 3, 2, 2, 1, 1, 1]) {
                0 => {
                    let v = c.s.below(50);
                    log.push(format!("insert {:?} {}", a, v));
                    ensure_eq!(t.insert(a.clone(), v), m.insert(a.clone(), v), "answer of insert at {:?}", a);
                }
                1 => {
                    log.push(format!("remove {:?}", a));
                    ensure_eq!(t.remove(&a), m.remove(&a), "answer of remove at {:?}", a);
                }
                2 => {
                    log.push(format!("change {:?}", a));
                    if let Some(v) = t.get_mut(&a) {
                        *v += 1
                    }
                    if let Some(v) = m.get_mut(&a) {
                        *v += 1
                    }
                }
                3 => {
                    log.push(format!("entry {:?}", a));
                    *t.entry(a.clone()).or_insert(7) += 1;
                    *m.entry(a.clone()).or_insert(7) += 1;
                }
                4 => {
                    let k = c.s.n(4);
                    let v: Vec<(Vec<usize>, u64)> = (0..k).map(|_| (addr(&mut c.s), c.s.below(50))).collect();
                    log.push(format!("append {:?}", v));
                    let mut o: GornTree<u64> = v.iter().cloned().collect();
                    t.append(&mut o);
                    ensure!(o.is_empty() && o.len() == 0, "the appended tree is not empty afterwards");
                    m.extend(v);
                }
                5 => {
                    log.push(format!("split_off {:?}", a));
                    let o = t.split_off(&a);
                    let tail: BTreeMap<Vec<usize>, u64> = m.iter().filter(|(k, _)| !before(k, &a)).map(|(k, v)| (k.clone(), *v)).collect();
                    m.retain(|k, _| before(k, &a));
                    ensure_eq!(o.into_iter().collect::<BTreeMap<_, _>>(), tail, "part split off at {:?}", a);
                }
                _ => {
                    log.push("values_mut".into());
                    for v in t.values_mut() {
                        *v += 2
                    }
                    for v in m.values_mut() {
                        *v += 2
                    }
                    for (_, v) in &mut t {
                        *v += 1
                    }
                    for v in m.values_mut() {
                        *v += 1
                    }
                }
            }
            ensure_eq!(t.len(), m.len(), "number of entries");
            ensure_eq!(t.is_empty(), m.is_empty(), "emptiness");
            ensure_eq!(t.get(&a), m.get(&a), "entry at {:?}", a);
            ensure_eq!(t.contains_key(&a), m.contains_key(&a), "presence of {:?}", a);
            let entries: Vec<(Vec<usize>, u64)> = (&t).into_iter().map(|(k, v)| (k.clone(), *v)).collect();
            ensure!(entries.windows(2).all(|w| before(&w[0].0, &w[1].0)), "entries are not in pre-order: {:?}", entries);
            ensure_eq!(entries.iter().cloned().collect::<BTreeMap<_, _>>(), m, "entries");
            ensure_eq!(entries.len(), m.len(), "enumerated entries");
            ensure_eq!(t.keys().cloned().collect::<Vec<_>>(), entries.iter().map(|e| e.0.clone()).collect::<Vec<_>>(), "addresses");
            ensure_eq!(t.values().cloned().collect::<Vec<_>>(), entries.iter().map(|e| e.1).collect::<Vec<_>>(), "labels");
        }
        // references and equality
        let refs: GornTree<&u64> = (&t).into_iter().map(|(k, v)| (k.clone(), v)).collect();
        ensure!(refs.cloned() == t, "a tree cloned from references differs");
        let mut u = t.clone();
        ensure!(u == t, "a clone differs");
        let a = addr(&mut c.s);
        u.insert(a.clone(), 1_000);
        ensure!(u != t, "trees that differ at {:?} compare equal", a);
        u.clear();
        ensure!(u.is_empty() && u == GornTree::new(), "a cleared tree is not empty");
        let v: BTreeMap<Vec<usize>, u64> = t.into_iter().collect();
        ensure_eq!(v, m, "entries by consuming iteration");
        Ok(())
    })();
    c.note("history", log);
    c.nontrivial_if(hits > 1);
    r
}

// ------------------------------------------------------------------ U03
fn reverse_int(c: &mut Case) -> Res {
    let (a, b) = (c.s.below(41) as i64 - 20, c.s.below(41) as i64 - 20);
    c.note("values", (a, b));
    c.nontrivial_if(a != b);
    let (x, y) = (Reverse::from(a), Reverse::from(b));
    ensure_eq!(x.cmp(&y), b.cmp(&a), "order");
    ensure_eq!(x.partial_cmp(&y), Some(b.cmp(&a)), "partial order");
    ensure_eq!((x < y, x <= y, x > y, x >= y), (b < a, b <= a, b > a, b >= a), "comparison operators");
    ensure_eq!(x.max(y).unwrap(), a.min(b), "maximum");
    ensure_eq!((x == y, x != y), (a == b, a != b), "equality");
    ensure_eq!((x + y).unwrap(), a + b, "sum");
    ensure_eq!((x - y).unwrap(), a - b, "difference");
    ensure_eq!((x * y).unwrap(), a * b, "product");
    if b != 0 {
        ensure_eq!((x / y).unwrap(), a / b, "quotient");
        ensure_eq!((x % y).unwrap(), a % b, "remainder");
        let mut z = x;
        z /= y;
        ensure_eq!(*z.inner(), a / b, "quotient in place");
        let mut z = x;
        z %= y;
        ensure_eq!(*z.inner(), a % b, "remainder in place");
    }
    let mut z = x;
    z += y;
    ensure_eq!(*z.inner(), a + b, "sum in place");
    let mut z = x;
    z -= y;
    ensure_eq!(*z.inner(), a - b, "difference in place");
    let mut z = x;
    z *= y;
    ensure_eq!(*z.inner(), a * b, "product in place");
    ensure_eq!(x.to_string(), a.to_string(), "text");
    ensure_eq!(format!("{:>8}|{:<8}|{:+}", x, x, x), format!("{:>8}|{:<8}|{:+}", a, a, a), "formatted text");
    ensure_eq!(a.to_string().parse::<Reverse<i64>>().map(|r| r.unwrap()), a.to_string().parse::<i64>(), "parsed text");
    ensure!("1x".parse::<Reverse<i64>>().is_err(), "malformed text is accepted");
    ensure_eq!(Reverse::<i64>::one().unwrap(), 1, "one");
    ensure_eq!(Reverse::<i64>::zero().unwrap(), 0, "zero");
    ensure_eq!(x.is_zero(), a == 0, "zero test");
    let bytes = bincode::serialize(&x, bincode::Infinite).unwrap();
    ensure_eq!(bincode::deserialize::<Reverse<i64>>(&bytes).map(|r| r.unwrap()).ok(), Some(a), "stored and loaded");
    Ok(())
}
fn weight(s: &mut Src) -> f64 {
    match s.n(6) {
        0 => 1.0,
        1 => 0.0,
        2 => s.below(1000) as f64 / 1000.0,
        3 => 2f64.powi(-(s.below(1000) as i32)),
        4 => s.below(100) as f64,
        _ => (s.below(1 << 53) as f64) / (1u64 << 53) as f64,
    }
}
fn reverse_log(c: &mut Case) -> Res {
    let (a, b) = (weight(&mut c.s), weight(&mut c.s));
    let n = c.s.range(1, 6);
    c.note("weights", (a, b, n));
    c.nontrivial_if(a != b);
    let (p, q) = (lw(a), lw(b));
    let (x, y): (Reverse<W>, Reverse<W>) = (p.into(), q.into());
    ensure_eq!(x.cmp(&y), q.cmp(&p), "order");
    ensure_eq!(x.partial_cmp(&y), q.partial_cmp(&p), "partial order");
    ensure_eq!(x == y, p == q, "equality");
    ensure_eq!((x * y).unwrap(), p * q, "product");
    ensure_eq!((x + y).unwrap(), p + q, "sum");
    if b > 0.0 {
        ensure_eq!((x / y).unwrap(), p / q, "quotient");
    }
    ensure_eq!(x.to_string(), p.to_string(), "text");
    ensure_eq!(Reverse::<W>::one().unwrap(), W::one(), "one");
    ensure_eq!(Reverse::<W>::zero().unwrap(), W::zero(), "zero");
    ensure_eq!(x.factorize(n).into_iter().map(|r| r.unwrap()).collect::<Vec<_>>(), p.factorize(n), "factors");
    Ok(())
}

// ------------------------------------------------------------------ U04
fn factors(c: &mut Case) -> Res {
    let a = weight(&mut c.s);
    let n = c.s.tail(1, 12, 300);
    c.note("weight and number", (a, n));
    c.nontrivial_if(n > 1 && a > 0.0 && a != 1.0);
    let w = lw(a);
    let f = w.factorize(n);
    ensure_eq!(f.len(), n, "number of factors");
    let mut prod = W::one();
    for x in &f {
        prod = prod * *x;
    }
    ensure!(closef(prod.ln(), w.ln()), "the product of {:?} is {} instead of {}", f, prod, w);
    if a <= 1.0 {
        for x in &f {
            ensure!(*x <= W::one(), "factor {} is greater than one", x);
            ensure!(*x >= w || closef(x.ln(), w.ln()), "factor {} is smaller than the weight {}", x, w);
        }
    }
    ensure_eq!(().factorize(n), vec![(); n], "factors of the trivial weight");
    Ok(())
}

// ------------------------------------------------------------------ U05
fn hash_of<X: Hash>(x: &X) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// `same(i, j)`: whether elements i and j are meant to be equal
fn equality<X: PartialEq>(xs: &[X], what: &str, same: impl Fn(usize, usize) -> bool) -> Res {
    for (i, a) in xs.iter().enumerate() {
        for (j, b) in xs.iter().enumerate() {
            ensure_eq!(a == b, same(i, j), "{} {} and {} are equal", what, i, j);
            ensure_eq!(a != b, !same(i, j), "{} {} and {} are different", what, i, j);
        }
    }
    Ok(())
}
fn hashing<X: PartialEq + Hash>(xs: &[X], what: &str) -> Res {
    for (i, a) in xs.iter().enumerate() {
        for (j, b) in xs.iter().enumerate() {
            ensure!(a != b || hash_of(a) == hash_of(b), "{} {} and {} are equal, but have different hash values", what, i, j);
        }
    }
    Ok(())
}
/// a total order; with `strict`, different elements are not tied and equal ones are
fn ordering<X: Ord>(xs: &[X], what: &str, strict: bool) -> Res {
    use std::cmp::Ordering::*;
    let o: Vec<Vec<_>> = xs.iter().map(|a| xs.iter().map(|b| a.cmp(b)).collect()).collect();
    for (i, a) in xs.iter().enumerate() {
        for (j, b) in xs.iter().enumerate() {
            ensure_eq!(a.partial_cmp(b), Some(o[i][j]), "{}: partial order of {} and {}", what, i, j);
            ensure_eq!((a < b, a <= b, a > b, a >= b), (o[i][j] == Less, o[i][j] != Greater, o[i][j] == Greater, o[i][j] != Less), "{}: operators on {} and {}", what, i, j);
            ensure_eq!(o[i][j], o[j][i].reverse(), "{}: {} and {} the other way round", what, i, j);
            ensure!(o[i][j] != Equal || a == b, "{}: {} and {} are tied, but different", what, i, j);
            ensure!(!strict || o[i][j] == Equal || a != b, "{}: {} and {} are equal, but not tied", what, i, j);
            for k in 0..xs.len() {
                ensure!(o[i][j] == Greater || o[j][k] == Greater || o[i][k] != Greater, "{}: {} <= {} <= {}, but not {} <= {}", what, i, j, k, i, k);
            }
        }
    }
    Ok(())
}
fn grammar_order(c: &mut Case) -> Res {
    let n = c.s.range(2, 5);
    let s = &mut c.s;
    let name = |s: &mut Src| s.pick(&["A", "B"]).to_string();
    let ps: Vec<PMCFGRule<String, String, f64>> = (0..n)
        .map(|_| PMCFGRule {
            head: name(s),
            tail: (0..s.small(2)).map(|_| name(s)).collect(),
            composition: (0..s.small(2))
                .map(|_| (0..s.small(2)).map(|_| if s.chance(1, 2) { VarT::T(name(s)) } else { VarT::Var(s.n(2), s.n(2)) }).collect())
                .collect::<Vec<Vec<_>>>()
                .into(),
            weight: *s.pick(&[0.25, 0.5]),
        })
        .collect();
    let cs: Vec<CFGRule<String, String, f64>> = (0..n)
        .map(|_| CFGRule {
            head: name(s),
            composition: CFGComposition {
                composition: (0..s.small(2)).map(|_| if s.chance(1, 2) { LetterT::Value(name(s)) } else { LetterT::Label(name(s)) }).collect(),
            },
            weight: *s.pick(&[0.25, 0.5]),
        })
        .collect();
    let (mut ps, mut cs) = (ps, cs);
    if s.chance(1, 8) {
        // rules that agree up to a late place
        let long = s.range(3, 14);
        let late = |s: &mut Src| if s.chance(1, 2) { long - 1 } else { s.n(long) };
        let what = s.n(3);
        for k in 1..n {
            let (mut p, mut q) = (ps[0].clone(), cs[0].clone());
            p.tail = vec!["A".to_string(); long];
            p.composition.composition = vec![vec![VarT::Var(0, 0); 2]; long];
            q.composition.composition = vec![LetterT::Label("A".to_string()); long];
            if k > 1 || s.chance(1, 2) {
                let j = late(s);
                match what {
                    0 => p.tail[j] = name(s),
                    1 => p.composition.composition[j] = vec![VarT::Var(0, 0), VarT::Var(s.n(2), s.n(2))],
                    _ => p.composition.composition.truncate(j),
                }
                if s.chance(1, 2) {
                    q.composition.composition[late(s)] = LetterT::Label(name(s));
                } else {
                    q.composition.composition.truncate(j);
                }
            }
            p.weight = *s.pick(&[0.25, 0.5]);
            ps[k] = p;
            cs[k] = q;
        }
    }
    c.note("rules", ps.iter().map(|r| r.to_string()).collect::<Vec<_>>());
    c.note("context-free rules", cs.iter().map(|r| r.to_string()).collect::<Vec<_>>());
    let var = |v: &VarT<String>| match v {
        VarT::T(x) => (x.clone(), 0, 0),
        VarT::Var(i, j) => (String::new(), *i, *j),
    };
    let pk: Vec<_> = ps.iter().map(|r| (r.head.clone(), r.tail.clone(), r.composition.composition.iter().map(|k| k.iter().map(var).collect::<Vec<_>>()).collect::<Vec<_>>())).collect();
    let ck: Vec<_> = cs
        .iter()
        .map(|r| {
            let right: Vec<_> = r.composition.composition.iter().map(|l| match l {
                LetterT::Value(x) => (true, x.clone()),
                LetterT::Label(x) => (false, x.clone()),
            }).collect();
            (r.head.clone(), right)
        })
        .collect();
    equality(&ps, "rule", |i, j| pk[i] == pk[j])?;
    hashing(&ps, "rule")?;
    ordering(&ps, "rule", true)?;
    equality(&cs, "context-free rule", |i, j| ck[i] == ck[j])?;
    hashing(&cs, "context-free rule")?;
    let (pc, cc): (Vec<_>, Vec<_>) = (ps.iter().map(|r| r.composition.clone()).collect(), cs.iter().map(|r| r.composition.clone()).collect());
    equality(&pc, "composition", |i, j| pk[i].2 == pk[j].2)?;
    hashing(&pc, "composition")?;
    ordering(&pc, "composition", true)?;
    equality(&cc, "right-hand side", |i, j| ck[i].1 == ck[j].1)?;
    hashing(&cc, "right-hand side")?;
    ordering(&cc, "right-hand side", true)?;
    let same = (0..n).any(|i| (0..i).any(|j| pk[i] == pk[j] || ck[i] == ck[j]));
    if same {
        c.label("equal rules")
    }
    c.nontrivial_if(same || n > 2);
    Ok(())
}
fn order_of_reverse_and_brackets(c: &mut Case) -> Res {
    let n = c.s.range(2, 6);
    let xs: Vec<(bool, u8)> = (0..n).map(|_| (c.s.chance(1, 2), c.s.n(3) as u8)).collect();
    c.note("values", &xs);
    let bs: Vec<Bracket<u8>> = xs.iter().map(|&(o, k)| if o { Bracket::Open(k) } else { Bracket::Close(k) }).collect();
    equality(&bs, "bracket", |i, j| xs[i] == xs[j])?;
    hashing(&bs, "bracket")?;
    ordering(&bs, "bracket", true)?;
    let rs: Vec<Reverse<u8>> = xs.iter().map(|x| x.1.to_string().parse().unwrap()).collect();
    equality(&rs, "reversed number", |i, j| xs[i].1 == xs[j].1)?;
    ordering(&rs, "reversed number", true)?;
    let ws: Vec<WeightedItem<bool, u8>> = xs.iter().map(|x| WeightedItem(x.0, x.1)).collect();
    equality(&ws, "weighted item", |i, j| xs[i].1 == xs[j].1)?;
    ordering(&ws, "weighted item", true)?;
    for (i, a) in ws.iter().enumerate() {
        for (j, b) in ws.iter().enumerate() {
            ensure_eq!(a.cmp(b), xs[i].1.cmp(&xs[j].1), "order of weighted items {} and {}", i, j);
        }
    }
    // partitions and trees
    let cell = |s: &mut Src| -> Vec<BTreeSet<u8>> {
        let mut cells = vec![BTreeSet::new(); 3];
        for e in 0..3 {
            let k = s.n(3);
            cells[k].insert(e as u8);
        }
        cells
    };
    let cells: Vec<Vec<BTreeSet<u8>>> = (0..3).map(|_| cell(&mut c.s)).collect();
    let parts: Vec<Partition<u8>> = cells.iter().map(|x| Partition::new(x.clone()).unwrap()).collect();
    equality(&parts, "partition", |i, j| cells[i].iter().collect::<BTreeSet<_>>() == cells[j].iter().collect::<BTreeSet<_>>())?;
    let maps: Vec<BTreeMap<Vec<usize>, u8>> = (0..3).map(|_| (0..c.s.n(3)).map(|_| (addr(&mut c.s), c.s.n(2) as u8)).collect()).collect();
    let trees: Vec<GornTree<u8>> = maps.iter().map(|m| m.iter().map(|(a, x)| (a.clone(), *x)).collect()).collect();
    equality(&trees, "tree", |i, j| maps[i] == maps[j])?;
    c.nontrivial_if(n > 2);
    Ok(())
}
#[cfg(feature = "auto")]
fn automata_order(c: &mut Case) -> Res {
    use crate::props::a::{pda_ins, step, sym, tsa_ins, Ins};
    use rustomata::automata::push_down_automaton::PushDown;
    use rustomata::automata::tree_stack_automaton::TreeStack;
    use rustomata::recognisable::{Configuration, Instruction, Item, Transition};
    use rustomata::util::push_down::Pushdown;
    type Key = (Vec<u8>, Ins, u32);
    fn transitions<I: Ord + Clone + Hash>(ks: &[Key], f: impl Fn(&Ins) -> I) -> Result<Vec<Transition<I, u8, u32>>, String> {
        let is: Vec<I> = ks.iter().map(|k| f(&k.1)).collect();
        equality(&is, "instruction", |i, j| ks[i].1 == ks[j].1)?;
        hashing(&is, "instruction")?;
        ordering(&is, "instruction", true)?;
        let ts: Vec<Transition<I, u8, u32>> = ks.iter().map(|k| Transition { word: k.0.clone(), weight: k.2, instruction: f(&k.1) }).collect();
        hashing(&ts, "transition")?;
        ordered_transitions(ks, &ts)?;
        Ok(ts)
    }
    fn ordered_transitions<I: Ord>(ks: &[Key], ts: &[Transition<I, u8, u32>]) -> Res {
        equality(ts, "transition", |i, j| (&ks[i].0, &ks[i].1) == (&ks[j].0, &ks[j].1))?;
        ordering(ts, "transition", false)?;
        for (i, a) in ts.iter().enumerate() {
            for (j, b) in ts.iter().enumerate() {
                ensure!(ks[i].2 <= ks[j].2 || a > b, "transition {} outweighs {}, but does not come before it", i, j);
            }
        }
        Ok(())
    }
    fn items<S: Ord + Clone, I: Ord + Clone + Instruction<Storage = S>>(words: &[Vec<u8>], stores: Vec<S>, weights: &[u32], runs: Vec<Pushdown<Transition<I, u8, u32>>>, run_keys: &[Vec<usize>], tkeys: &[Key], skey: impl Fn(usize, usize) -> bool, hash: impl Fn(&[Configuration<S, u8, u32>]) -> Res) -> Res {
        let cs: Vec<Configuration<S, u8, u32>> = (0..words.len()).map(|i| Configuration { word: words[i].clone(), storage: stores[i].clone(), weight: weights[i] }).collect();
        let same = |i: usize, j: usize| words[i] == words[j] && skey(i, j);
        equality(&cs, "configuration", &same)?;
        hash(&cs)?;
        ordering(&cs, "configuration", false)?;
        for i in 0..cs.len() {
            for j in 0..cs.len() {
                ensure!(weights[i] <= weights[j] || cs[i] > cs[j], "configuration {} outweighs {}, but does not come before it", i, j);
                ensure!(weights[i] != weights[j] || words[i].len() >= words[j].len() || cs[i] > cs[j], "configuration {} has read more than {}, but does not come before it", i, j);
            }
        }
        let key = |i: usize| run_keys[i].iter().map(|k| (&tkeys[*k].0, &tkeys[*k].1)).collect::<Vec<_>>();
        equality(&runs, "run", |i, j| key(i) == key(j))?;
        ordering(&runs, "run", false)?;
        let is: Vec<Item<S, I, u8, u32>> = cs.into_iter().zip(runs).map(|(x, r)| Item(x, r)).collect();
        equality(&is, "item", |i, j| same(i, j) && key(i) == key(j))?;
        ordering(&is, "item", false)
    }
    let n = c.s.range(2, 5);
    let kind = c.s.n(3);
    let s = &mut c.s;
    let ins = |s: &mut Src| match kind {
        0 => match s.n(3) {
            0 => Ins::Up(s.n(2), s.n(2), s.n(2), s.n(2)),
            1 => Ins::Push(s.n(2), s.n(2), s.n(2)),
            _ => Ins::Down(s.n(2), s.n(2), s.n(2)),
        },
        1 => Ins::Replace((0..s.range(1, 2)).map(|_| s.n(2)).collect(), (0..s.n(3)).map(|_| s.n(2)).collect()),
        _ => Ins::Step(s.n(2), s.n(2)),
    };
    let word = |s: &mut Src| -> Vec<u8> { (0..s.n(3)).map(|_| s.n(2) as u8).collect() };
    let ks: Vec<Key> = (0..n).map(|_| (word(s), ins(s), 1 + s.n(2) as u32)).collect();
    let words: Vec<Vec<u8>> = (0..n).map(|_| word(s)).collect();
    let weights: Vec<u32> = (0..n).map(|_| 1 + s.n(2) as u32).collect();
    let rks: Vec<Vec<usize>> = (0..n).map(|_| (0..s.n(3)).map(|_| s.n(n)).collect()).collect();
    let stacks: Vec<Vec<usize>> = (0..n).map(|_| (0..s.range(1, 3)).map(|_| s.n(2)).collect()).collect();
    c.note("transitions", &ks);
    c.note("words", &words);
    c.note("weights", &weights);
    c.note("runs", &rks);
    c.note("stacks", &stacks);
    match kind {
        0 => {
            let ts = transitions(&ks, tsa_ins)?;
            let runs = rks.iter().map(|r| r.iter().fold(Pushdown::new(), |p, k| p.push(ts[*k].clone()))).collect();
            let first = crate::props::a::stack_history(&mut c.s);
            let mut hs = vec![first];
            while hs.len() < n {
                let near = c.s.n(hs.len());
                let h = if c.s.chance(1, 3) { crate::props::a::stack_history(&mut c.s) } else { crate::props::a::stack_variant(&mut c.s, &hs[near]) };
                hs.push(h);
            }
            c.note("tree stacks", &hs);
            let stores: Vec<TreeStack<String>> = hs.iter().map(|h| crate::props::a::stack_of(h).map(&mut |k| sym(*k))).collect();
            let trees: Vec<_> = stores.iter().map(|x| x.to_tree()).collect();
            let same: Vec<Vec<bool>> = stores.iter().map(|x| stores.iter().map(|y| x == y).collect()).collect();
            for i in 0..n {
                for j in 0..n {
                    // vacant positions at the end of a child list are not visible in the tree
                    ensure!(!same[i][j] || trees[i] == trees[j], "tree stacks {} and {} are equal, but not in content", i, j);
                    ensure!(same[i][j] || hs[i] != hs[j], "tree stacks {} and {} have the same history, but are different", i, j);
                }
            }
            ordering(&stores, "tree stack", true)?;
            items(&words, stores, &weights, runs, &rks, &ks, |i, j| same[i][j], |_| Ok(()))?;
        }
        1 => {
            let ts = transitions(&ks, pda_ins)?;
            let runs = rks.iter().map(|r| r.iter().fold(Pushdown::new(), |p, k| p.push(ts[*k].clone()))).collect();
            let stores: Vec<PushDown<String>> = stacks.iter().map(|x| PushDown::from(x.iter().map(|k| sym(*k)).collect::<Vec<_>>())).collect();
            equality(&stores, "push-down", |i, j| stacks[i] == stacks[j])?;
            hashing(&stores, "push-down")?;
            ordering(&stores, "push-down", true)?;
            items(&words, stores, &weights, runs, &rks, &ks, |i, j| stacks[i] == stacks[j], |cs| hashing(cs, "configuration"))?;
        }
        _ => {
            let is: Vec<_> = ks.iter().map(|k| step(&k.1)).collect();
            equality(&is, "instruction", |i, j| ks[i].1 == ks[j].1)?;
            ordering(&is, "instruction", true)?;
            let ts: Vec<Transition<_, u8, u32>> = ks.iter().zip(&is).map(|(k, i)| Transition { word: k.0.clone(), weight: k.2, instruction: i.clone() }).collect();
            ordered_transitions(&ks, &ts)?;
            let runs = rks.iter().map(|r| r.iter().fold(Pushdown::new(), |p, k| p.push(ts[*k].clone()))).collect();
            let states: Vec<usize> = stacks.iter().map(|x| x[0]).collect();
            items(&words, states.clone(), &weights, runs, &rks, &ks, |i, j| states[i] == states[j], |cs| hashing(cs, "configuration"))?;
        }
    }
    if (0..n).any(|i| (0..i).any(|j| (&ks[i].0, &ks[i].1) == (&ks[j].0, &ks[j].1) && ks[i].2 != ks[j].2)) {
        c.label("transitions that differ in weight only");
    }
    c.label(["tree stack", "push-down", "finite state"][kind]);
    c.nontrivial_if(n > 2);
    Ok(())
}

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "U05",
            rule: "at least three elements, or two equal ones",
            assumptions: &["small values, so that equal ones are frequent; non-negative weights"],
            parts: vec![
                Part { name: "rules", quick: 200_000, thorough: 12_000_000, run: grammar_order },
                Part { name: "values", quick: 200_000, thorough: 12_000_000, run: order_of_reverse_and_brackets },
                #[cfg(feature = "auto")]
                Part { name: "automata", quick: 200_000, thorough: 12_000_000, run: automata_order },
            ],
        },
        Prop {
            id: "U01",
            rule: "at least two cells have more than one element",
            assumptions: &["up to 6 cells over 12 elements"],
            parts: vec![Part { name: "cells", quick: 750_000, thorough: 45_000_000, run: partition }],
        },
        Prop {
            id: "U02",
            rule: "at least two operations address an existing entry",
            assumptions: &["addresses of depth up to 3 and width up to 3, up to 40 operations"],
            parts: vec![Part { name: "histories", quick: 300_000, thorough: 18_000_000, run: gorn }],
        },
        Prop {
            id: "U03",
            rule: "the two weights differ",
            assumptions: &["integers in -20..=20, log-domain weights in [0, 100)"],
            parts: vec![
                Part { name: "integers", quick: 20_000, thorough: 100_000, run: reverse_int },
                Part { name: "log domain", quick: 750_000, thorough: 45_000_000, run: reverse_log },
            ],
        },
        Prop {
            id: "U04",
            rule: "more than one factor, weight neither zero nor one",
            assumptions: &["weights in [0, 100), up to 12 factors, now and then up to 300"],
            parts: vec![Part { name: "log domain", quick: 1_000_000, thorough: 60_000_000, run: factors }],
        },
    ]
}
