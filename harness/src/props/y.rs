//! Dyck languages and multiple Dyck languages.
use crate::engine::*;
use crate::ensure_eq;
use rustomata::dyck::{recognize, Bracket};
#[cfg(feature = "auto")]
use std::collections::BTreeSet;

/// an opening bracket 2x, a closing bracket 2x+1
type Word = Vec<usize>;
/// the pairs of a Dyck word
#[derive(Clone, Debug)]
struct Pair(usize, Vec<Pair>);

fn brackets<A: PartialEq>(w: &Word, f: impl Fn(usize) -> A) -> Vec<Bracket<A>> {
    w.iter().map(|x| if x % 2 == 0 { Bracket::Open(f(x / 2)) } else { Bracket::Close(f(x / 2)) }).collect()
}
fn text(w: &Word) -> String {
    let v: Vec<String> = w.iter().map(|x| format!("{}{}", if x % 2 == 0 { "(" } else { ")" }, x / 2)).collect();
    v.join(" ")
}
/// repeatedly delete an opening bracket directly followed by its closing bracket
fn reduces(w: &Word) -> bool {
    let mut w = w.clone();
    while let Some(k) = (1..w.len()).find(|k| w[k - 1] % 2 == 0 && w[k - 1] + 1 == w[*k]) {
        w.drain(k - 1..k + 1);
    }
    w.is_empty()
}
fn forest(w: &Word) -> Option<Vec<Pair>> {
    fn go(w: &Word, i: &mut usize) -> Option<Vec<Pair>> {
        let mut out = vec![];
        while *i < w.len() && w[*i] % 2 == 0 {
            let x = w[*i];
            *i += 1;
            let inner = go(w, i)?;
            if w.get(*i) != Some(&(x + 1)) {
                return None;
            }
            *i += 1;
            out.push(Pair(x / 2, inner));
        }
        Some(out)
    }
    let mut i = 0;
    let f = go(w, &mut i)?;
    if i == w.len() {
        Some(f)
    } else {
        None
    }
}
fn flat(f: &[Pair], out: &mut Word) {
    for Pair(x, inner) in f {
        out.push(2 * x);
        flat(inner, out);
        out.push(2 * x + 1);
    }
}
fn mutate(s: &mut Src, w: &mut Word, syms: usize) {
    for _ in 0..s.small(3) {
        if w.is_empty() {
            w.push(s.n(2 * syms));
            continue;
        }
        let (i, j) = (s.n(w.len()), s.n(w.len()));
        match s.n(6) {
            0 => w.swap(i, j),
            1 => {
                w.remove(i);
            }
            2 => w.insert(i, s.n(2 * syms)),
            3 => w[i] = s.n(2 * syms),
            4 => w[i] = (w[i] + 2) % (2 * syms),
            _ => {
                let (i, j) = (i.min(j), i.max(j));
                let part: Vec<usize> = w.drain(i..j).collect();
                let at = s.n(w.len() + 1);
                for (k, x) in part.into_iter().enumerate() {
                    w.insert(at + k, x);
                }
            }
        }
    }
}
fn random_dyck(s: &mut Src, syms: usize, n: usize) -> Word {
    let mut w = vec![];
    let mut open = vec![];
    for _ in 0..n {
        if !open.is_empty() && s.chance(1, 2) {
            w.push(2 * open.pop().unwrap() + 1);
        } else {
            let x = s.n(syms);
            open.push(x);
            w.push(2 * x);
        }
    }
    while let Some(x) = open.pop() {
        w.push(2 * x + 1);
    }
    w
}

// ---------------------------------------------------------------- Y01
fn dyck(c: &mut Case) -> Res {
    let syms = c.s.tail(1, 4, 40);
    let n = if c.s.chance(1, 20) { c.s.range(20, 400) } else { c.s.range(0, 14) };
    let mut w = if c.s.chance(1, 4) { (0..n).map(|_| c.s.n(2 * syms)).collect() } else { random_dyck(&mut c.s, syms, n) };
    if c.s.chance(1, 2) {
        mutate(&mut c.s, &mut w, syms);
    }
    c.text("word", text(&w));
    let want = reduces(&w);
    ensure_eq!(recognize(&brackets(&w, |x| x)), want, "Dyck word over numbers");
    ensure_eq!(recognize(&brackets(&w, |x| format!("b{}", x))), want, "Dyck word over strings");
    ensure_eq!(recognize(&brackets(&w, |x| if x == 0 { None } else { Some((x, vec![x])) })), want, "Dyck word over structures");
    c.label(if want { "member" } else { "not a member" });
    c.nontrivial_if(w.len() >= 4);
    Ok(())
}

// ---------------------------------------------------------------- Y02
/// the pairs can be grouped into complete cells whose contents, taken together, can be grouped again
#[cfg(feature = "auto")]
fn cancels(f: Vec<&Pair>, cells: &[BTreeSet<usize>]) -> bool {
    let first = match f.first() {
        None => return true,
        Some(p) => p.0,
    };
    let cell = match cells.iter().find(|c| c.contains(&first)) {
        None => return false,
        Some(c) => c,
    };
    // choose a pair for every other member of the cell
    let mut groups: Vec<Vec<usize>> = vec![vec![0]];
    for x in cell.iter().filter(|x| **x != first) {
        let mut next = vec![];
        for g in &groups {
            for k in (1..f.len()).filter(|k| f[*k].0 == *x) {
                let mut g = g.clone();
                g.push(k);
                next.push(g);
            }
        }
        groups = next;
    }
    groups.into_iter().any(|mut g| {
        g.sort();
        let inner: Vec<&Pair> = g.iter().flat_map(|k| f[*k].1.iter()).collect();
        let rest: Vec<&Pair> = (0..f.len()).filter(|k| !g.contains(k)).map(|k| f[k]).collect();
        cancels(inner, cells) && cancels(rest, cells)
    })
}
/// as above, where the pairs of the same rank are exactly one cell
#[cfg(feature = "auto")]
fn cancels_sorted(f: Vec<&Pair>, cells: &[BTreeSet<usize>], sort: &[usize]) -> bool {
    let ranks: BTreeSet<usize> = f.iter().map(|p| sort.get(p.0).cloned().unwrap_or(99)).collect();
    ranks.into_iter().all(|r| {
        let g: Vec<&Pair> = f.iter().cloned().filter(|p| sort.get(p.0).cloned().unwrap_or(99) == r).collect();
        let syms: BTreeSet<usize> = g.iter().map(|p| p.0).collect();
        syms.len() == g.len() && cells.contains(&syms) && cancels_sorted(g.iter().flat_map(|p| p.1.iter()).collect(), cells, sort)
    })
}
/// fill the slots with complete cells
#[cfg(feature = "auto")]
fn instances(s: &mut Src, slots: usize, cells: &[BTreeSet<usize>], fuel: &mut usize, sort: Option<&[usize]>) -> Vec<Vec<Pair>> {
    let mut out: Vec<Vec<Pair>> = vec![vec![]; slots];
    let mut used = BTreeSet::new();
    let n = if slots == 1 { s.tail(0, 3, 6) } else { s.n(3) };
    for _ in 0..n {
        let cell = s.pick(cells).clone();
        if cell.is_empty() || cell.len() > *fuel {
            continue;
        }
        if let Some(sort) = sort {
            // mostly sorted words
            if cell.iter().any(|x| used.contains(&sort[*x])) && !s.chance(1, 8) {
                continue;
            }
            used.extend(cell.iter().map(|x| sort[*x]));
        }
        *fuel -= cell.len();
        let inner = instances(s, cell.len(), cells, fuel, sort);
        let order = s.perm(cell.len());
        let members: Vec<usize> = cell.into_iter().collect();
        for (k, i) in inner.into_iter().zip(order) {
            let at = s.n(slots);
            let place = s.n(out[at].len() + 1);
            out[at].insert(place, Pair(members[i], k));
        }
    }
    out
}
#[cfg(feature = "auto")]
fn multiple(c: &mut Case) -> Res {
    use rustomata::dyck::multiple::MultipleDyckLanguage;
    use rustomata::util::partition::Partition;
    let syms = c.s.tail(1, 5, 12);
    let ncells = c.s.range(1, syms);
    let mut cells: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); ncells];
    for x in 0..syms {
        let k = c.s.n(ncells);
        cells[k].insert(x);
    }
    // ranks: per cell, shared between cells, or arbitrary
    let by_cell: Vec<usize> = (0..ncells).map(|_| c.s.n(4)).collect();
    let mode = c.s.weighted(&[3, 2, 1]);
    let cell_of = |x: usize| cells.iter().position(|c| c.contains(&x)).unwrap();
    let sort: Vec<usize> = (0..syms)
        .map(|x| match mode {
            0 => cell_of(x) + by_cell[0],
            1 => by_cell[cell_of(x)],
            _ => c.s.n(3),
        })
        .collect();
    let max = c.s.tail(3, 9, 16);
    let mut fuel = max;
    let mut w = vec![];
    match c.s.weighted(&[4, 3, 2]) {
        0 => flat(&instances(&mut c.s, 1, &cells, &mut fuel, None)[0], &mut w),
        1 => flat(&instances(&mut c.s, 1, &cells, &mut fuel, Some(&sort))[0], &mut w),
        _ => {
            let n = c.s.range(0, 12);
            w = random_dyck(&mut c.s, syms, n);
        }
    }
    // also brackets that are not in the alphabet
    if c.s.chance(1, 2) {
        let all = syms + (c.s.chance(1, 4) as usize);
        mutate(&mut c.s, &mut w, all);
    }
    c.note("cells", &cells);
    c.note("ranks", &sort);
    c.text("word", text(&w));
    let f = forest(&w);
    let roots = || f.as_ref().map(|f| f.iter().collect::<Vec<_>>());
    let want = roots().map_or(false, |f| cancels(f, &cells));
    let want_sorted = roots().map_or(false, |f| cancels_sorted(f, &cells, &sort));
    let b = brackets(&w, |x| x);
    let p = || Partition::new(cells.clone()).unwrap();
    let l = MultipleDyckLanguage::new(p());
    ensure_eq!(l.recognize(&b), want, "multiple Dyck word");
    let sorted = MultipleDyckLanguage::sorted(p(), |x| sort[*x]);
    ensure_eq!(sorted.recognize(&b), want_sorted, "sorted multiple Dyck word");
    let reload = |l: &MultipleDyckLanguage<usize>| -> Result<MultipleDyckLanguage<usize>, String> {
        let v = bincode::serialize(l, bincode::Infinite).map_err(|e| format!("cannot store: {}", e))?;
        bincode::deserialize(&v).map_err(|e| format!("cannot load what was stored: {}", e))
    };
    ensure_eq!(reload(&l)?.recognize(&b), want, "multiple Dyck word after storing and loading");
    ensure_eq!(reload(&sorted)?.recognize(&b), want_sorted, "sorted multiple Dyck word after storing and loading");
    // over other symbols, in another order
    let names: Vec<BTreeSet<String>> = cells.iter().rev().map(|c| c.iter().map(|x| format!("s{}", (x * 7 + 3) % 17)).collect()).collect();
    let l = MultipleDyckLanguage::new(Partition::new(names).unwrap());
    ensure_eq!(l.recognize(&brackets(&w, |x| format!("s{}", (x * 7 + 3) % 17))), want, "multiple Dyck word over strings");
    c.label(if want_sorted {
        "sorted member"
    } else if want {
        "member"
    } else if f.is_some() {
        "Dyck word, not a member"
    } else {
        "no Dyck word"
    });
    if want_sorted && !want {
        return Err("the sorted language is no subset: the oracle is wrong".into());
    }
    c.nontrivial_if(f.is_some() && w.len() >= 6 && cells.iter().any(|c| c.len() >= 2));
    Ok(())
}

pub fn all() -> Vec<Prop> {
    let mut v = vec![Prop {
        id: "Y01",
        rule: "a word of at least four brackets",
        assumptions: &[],
        parts: vec![Part { name: "words", quick: 1_200_000, thorough: 72_000_000, run: dyck }],
    }];
    #[cfg(feature = "auto")]
    v.push(Prop {
        id: "Y02",
        rule: "a Dyck word of at least three bracket pairs over a partition with a cell of two brackets",
        assumptions: &["words of at most about 14 bracket pairs, alphabets of at most five brackets"],
        parts: vec![Part { name: "words", quick: 200_000, thorough: 12_000_000, run: multiple }],
    });
    v
}
