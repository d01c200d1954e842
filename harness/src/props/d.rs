//! Derivation trees: evaluation, separated terminals, export format.
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use rustomata::grammars::pmcfg::negra::{meets_negra_criteria, noparse, to_negra, DumpMode};
use rustomata::grammars::pmcfg::*;
use rustomata::util::tree::GornTree;
use std::collections::{BTreeMap, BTreeSet, HashMap};

type Addr = Vec<usize>;
type Nodes = BTreeMap<Addr, Rule>;
type RuleOf = PMCFGRule<String, String, W>;

struct Opts {
    copy: bool,
    del: bool,
    /// rules are a single terminal or contain only variables
    separated: bool,
    words: Vec<&'static str>,
    heads: Vec<&'static str>,
}
/// a random derivation tree: every rule fits its successors
fn tree(s: &mut Src, o: &Opts, a: Addr, fan: usize, fuel: &mut usize, out: &mut Nodes) {
    let head = s.pick(&o.heads).to_string();
    let weight = lw(gen_weight(s, true));
    *fuel -= 1;
    let leaf = o.separated && fan == 1 && !a.is_empty() && s.chance(1, 2);
    let kids = if leaf || a.len() >= 5 { 0 } else { s.tail(0, 3, 14).min(*fuel) };
    let fans: Vec<usize> = (0..kids).map(|_| s.tail(1, 3, 16)).collect();
    let mut vars: Vec<VarT<String>> = vec![];
    for (i, f) in fans.iter().enumerate() {
        for j in 0..*f {
            let n = if o.del && s.chance(1, 6) {
                0
            } else if o.copy && s.chance(1, 6) {
                2
            } else {
                1
            };
            for _ in 0..n {
                vars.push(VarT::Var(i, j));
            }
        }
    }
    let mut comps: Vec<Vec<VarT<String>>> = vec![vec![]; fan];
    if leaf {
        comps[0].push(VarT::T(s.pick(&o.words).to_string()));
    } else {
        if s.chance(2, 3) {
            let p = s.perm(vars.len());
            vars = p.into_iter().map(|k| vars[k].clone()).collect();
        }
        if fan > 0 {
            for v in vars {
                let k = s.n(fan);
                comps[k].push(v);
            }
            if !o.separated {
                let many = s.chance(1, 60);
                for t in 0..if many { s.range(8, 30) } else { s.small(3) } {
                    let k = s.n(fan);
                    let at = s.n(comps[k].len() + 1);
                    let x = if many && s.chance(3, 4) { format!("t{}", t) } else { s.pick(&o.words).to_string() };
                    comps[k].insert(at, VarT::T(x));
                }
            }
        }
    }
    let mut tail = vec![];
    for (i, f) in fans.iter().enumerate() {
        let mut b = a.clone();
        b.push(i);
        // subtrees still to come need a node each
        let mut share = 1 + (*fuel - (kids - i)) / (kids - i);
        *fuel -= share;
        tree(s, o, b.clone(), *f, &mut share, out);
        *fuel += share;
        tail.push(out[&b].head.clone());
    }
    out.insert(a, PMCFGRule { head, tail, composition: Composition { composition: comps }, weight });
}
fn show_tree(t: &Nodes) -> String {
    t.iter().map(|(a, r)| format!("{:?} {}\n", a, r)).collect()
}
fn gorn_of(s: &mut Src, t: &Nodes) -> GornTree<RuleOf> {
    let all: Vec<(Addr, RuleOf)> = t.iter().map(|(a, r)| (a.clone(), r.clone())).collect();
    if s.chance(1, 2) {
        return all.into_iter().collect();
    }
    let mut g = GornTree::new();
    for k in s.perm(all.len()) {
        g.insert(all[k].0.clone(), all[k].1.clone());
    }
    g
}
fn nodes_of(g: &GornTree<RuleOf>) -> Nodes {
    g.clone().into_iter().collect()
}
/// each token with the address of the rule it comes from
type Tok = (String, Addr);
fn eval(t: &Nodes, a: &Addr) -> Option<Vec<Vec<Tok>>> {
    let r = t.get(a)?;
    let mut sub: HashMap<usize, Vec<Vec<Tok>>> = HashMap::new();
    let mut out = vec![];
    for c in &r.composition.composition {
        let mut v = vec![];
        for y in c {
            match y {
                VarT::T(x) => v.push((x.clone(), a.clone())),
                VarT::Var(i, j) => {
                    if !sub.contains_key(i) {
                        let mut b = a.clone();
                        b.push(*i);
                        sub.insert(*i, eval(t, &b)?);
                    }
                    v.extend(sub[i].get(*j)?.iter().cloned());
                }
            }
        }
        out.push(v);
    }
    Some(out)
}
fn strings(v: &Vec<Vec<Tok>>) -> Vec<Vec<String>> {
    v.iter().map(|c| c.iter().map(|t| t.0.clone()).collect()).collect()
}
fn plain(c: Composition<String>) -> Result<Vec<Vec<String>>, String> {
    let mut out = vec![];
    for c in c.composition {
        let mut v = vec![];
        for y in c {
            match y {
                VarT::T(x) => v.push(x),
                VarT::Var(i, j) => return Err(format!("the value contains the variable {} {}", i, j)),
            }
        }
        out.push(v);
    }
    Ok(out)
}

// ---------------------------------------------------------------- D01
fn evaluation(c: &mut Case) -> Res {
    let o = Opts { copy: c.s.chance(1, 2), del: c.s.chance(1, 2), separated: false, words: vec!["a", "b", "c", "Var 0 0"], heads: vec!["S", "A", "B"] };
    let mut fuel = c.s.tail(1, 14, 80);
    let mut t = Nodes::new();
    let fan = c.s.tail(0, 3, 16);
    tree(&mut c.s, &o, vec![], fan, &mut fuel, &mut t);
    let g = gorn_of(&mut c.s, &t);
    // a rule that asks for a component or a successor that is not there
    let addrs: Vec<Addr> = t.keys().cloned().collect();
    let at = addrs[c.s.n(addrs.len())].clone();
    let kids = t[&at].tail.len();
    let i = c.s.n(kids + 1);
    let over = c.s.small(3);
    let slot = c.s.below(1 << 20) as usize;
    c.text("tree", show_tree(&t));
    let want = eval(&t, &vec![]).expect("generated trees are well-formed");
    let size: usize = want.iter().map(|v| v.len()).sum();
    if size > 5000 {
        c.label("too large");
        return Ok(());
    }
    let (terms, heads) = to_term(&g);
    let tm: BTreeMap<Addr, Composition<String>> = terms.clone().into_iter().collect();
    let hm: BTreeMap<Addr, String> = heads.into_iter().collect();
    ensure_eq!(tm, t.iter().map(|(a, r)| (a.clone(), r.composition.clone())).collect::<BTreeMap<_, _>>(), "term of a tree");
    ensure_eq!(hm, t.iter().map(|(a, r)| (a.clone(), r.head.clone())).collect::<BTreeMap<_, _>>(), "heads of a tree");
    ensure_eq!(plain(evaluate(&terms))?, strings(&want), "value of the tree");
    for a in &addrs {
        let w = eval(&t, a).expect("generated trees are well-formed");
        ensure_eq!(plain(evaluate_pos(&terms, a.clone()))?, strings(&w), "value at {:?}", a);
    }
    let mut broken = terms.clone();
    let mut comp = t[&at].composition.clone();
    let mut b = at.clone();
    b.push(i);
    let bad = if i < kids { VarT::Var(i, t[&b].composition.composition.len() + over) } else { VarT::Var(i + over, 0) };
    c.text("unfit", format!("{:?} at {:?}", bad, at));
    if comp.composition.is_empty() {
        comp.composition.push(vec![bad]);
    } else {
        let k = slot % comp.composition.len();
        let n = comp.composition[k].len();
        comp.composition[k].insert(slot / 8 % (n + 1), bad);
    }
    broken.insert(at.clone(), comp);
    if let Ok(v) = no_panic(|| evaluate_pos(&broken, at.clone())) {
        return Err(format!("a tree that uses a missing component at {:?} has the value {}", at, v));
    }
    c.label(if o.copy && o.del { "copies and deletes" } else if o.copy { "copies" } else if o.del { "deletes" } else { "linear" });
    c.nontrivial_if(t.len() >= 3 && size >= 2);
    Ok(())
}

// ---------------------------------------------------------------- D02
fn separated(r: &RuleOf) -> bool {
    let ys: Vec<&VarT<String>> = r.composition.composition.iter().flatten().collect();
    ys.iter().all(|y| y.is_var()) || ys.len() == 1
}
fn separate(c: &mut Case) -> Res {
    // words that are also heads, or heads said twice
    let words = vec!["a", "b", "S", "A", "aa", "b b"];
    let heads = match c.s.n(3) {
        0 => vec!["S", "A", "B"],
        1 => vec!["S", "a", "aa", "b"],
        _ => vec!["S", "A", "SS", "AA", "a"],
    };
    let sep = c.s.chance(1, 8);
    let o = Opts { copy: c.s.chance(1, 3), del: c.s.chance(1, 3), separated: sep, words, heads };
    let mut fuel = c.s.tail(1, 10, 60);
    let mut t = Nodes::new();
    let fan = c.s.range(1, 2);
    tree(&mut c.s, &o, vec![], fan, &mut fuel, &mut t);
    let g = gorn_of(&mut c.s, &t);
    c.text("tree", show_tree(&t));
    let want = eval(&t, &vec![]).expect("generated trees are well-formed");
    if want.iter().map(|v| v.len()).sum::<usize>() > 2000 {
        c.label("too large");
        return Ok(());
    }
    let got_g = separate_terminal_rules(&g);
    let got = nodes_of(&got_g);
    c.text("separated", show_tree(&got));
    match eval(&got, &vec![]) {
        Some(v) => ensure_eq!(strings(&v), strings(&want), "value of the separated tree"),
        None => return Err("the separated tree has no value".into()),
    }
    ensure_eq!(plain(evaluate(&to_term(&got_g).0))?, strings(&want), "computed value of the separated tree");
    let heads: BTreeSet<&String> = t.values().map(|r| &r.head).collect();
    for (a, r) in &t {
        match got.get(a) {
            None => return Err(format!("the node at {:?} is lost", a)),
            Some(x) => {
                ensure_eq!(x.head, r.head, "head at {:?}", a);
                ensure_eq!(x.weight, r.weight, "weight at {:?}", a);
                ensure!(x.tail.starts_with(&r.tail), "the node at {:?} has other successors", a);
                if separated(r) {
                    ensure_eq!(x.composition, r.composition, "the rule at {:?}, which is already of the required form", a);
                }
            }
        }
    }
    for (a, r) in &got {
        ensure!(separated(r), "the rule at {:?} contains a terminal and something else: {}", a, r);
        if !t.contains_key(a) {
            let ys: Vec<&VarT<String>> = r.composition.composition.iter().flatten().collect();
            ensure!(r.tail.is_empty() && ys.len() == 1 && ys[0].is_t(), "the new rule at {:?} is no terminal rule: {}", a, r);
            ensure!(!heads.contains(&r.head), "the new nonterminal {:?} is a nonterminal of the tree", r.head);
            let (_, up) = a.split_last().unwrap();
            ensure!(t.contains_key(up), "the new rule at {:?} is below no rule of the tree", a);
        }
        for (i, b) in r.tail.iter().enumerate() {
            let mut at = a.clone();
            at.push(i);
            ensure_eq!(got.get(&at).map(|x| &x.head), Some(b), "successor {} at {:?}", i, a);
        }
    }
    ensure!(meets_negra_criteria(&got_g), "the separated tree is said not to be of the required form");
    ensure_eq!(meets_negra_criteria(&g), t.values().all(separated), "the tree is said to be of the required form");
    let again = nodes_of(&separate_terminal_rules(&got_g));
    ensure!(again == got, "separating a second time changes the tree:\n{}", show_tree(&again));
    if t.values().all(separated) {
        c.label("already separated");
    } else if got.iter().any(|(a, r)| !t.contains_key(a) && !r.composition.composition[0].contains(&VarT::T(r.head.clone()))) {
        c.label("a name was changed");
    }
    c.nontrivial_if(got.len() > t.len() && t.len() >= 2);
    Ok(())
}

// ---------------------------------------------------------------- D03
/// rows of five columns between the lines that name the sentence
fn rows(text: &str, id: usize) -> Result<Vec<Vec<String>>, String> {
    let lines: Vec<&str> = text.split('\n').collect();
    ensure!(lines.len() >= 2, "the block has {} lines", lines.len());
    ensure_eq!(lines[0], format!("#BOS {}", id), "first line");
    ensure_eq!(lines[lines.len() - 1], format!("#EOS {}", id), "last line");
    Ok(lines[1..lines.len() - 1].iter().map(|l| l.split('\t').map(|x| x.to_string()).collect()).collect())
}
/// the export text shows exactly these tokens below these constituents
pub fn export(text: &str, id: usize, tokens: &[(String, Addr)], heads: &dyn Fn(&Addr) -> String) -> Res {
    let rows = rows(text, id)?;
    ensure!(rows.len() >= tokens.len(), "{} rows for {} tokens", rows.len(), tokens.len());
    let mut at: BTreeMap<usize, Addr> = BTreeMap::new(); // number to constituent
    at.insert(0, vec![]);
    let place = |at: &mut BTreeMap<usize, Addr>, n: usize, a: Addr| -> Res {
        match at.get(&n) {
            Some(b) => ensure!(*b == a, "the constituents at {:?} and {:?} have the same number {}", a, b, n),
            None => {
                ensure!(!at.values().any(|b| *b == a), "the constituent at {:?} has two numbers", a);
                at.insert(n, a);
            }
        }
        Ok(())
    };
    let number = |r: &Vec<String>| -> Result<usize, String> {
        ensure_eq!(r.len(), 5, "columns of {:?}", r);
        ensure!(r[2] == "--" && r[3] == "--", "unknown columns in {:?}", r);
        r[4].parse().map_err(|_| format!("{:?} refers to no number", r))
    };
    let mut needed: BTreeSet<Addr> = BTreeSet::new();
    for (r, (w, a)) in rows.iter().zip(tokens) {
        let n = number(r)?;
        ensure_eq!(&r[0], w, "token");
        ensure_eq!(r[1], heads(a), "part of speech of {:?}", w);
        let mut up = a.clone();
        up.pop();
        place(&mut at, n, up.clone())?;
        while !up.is_empty() {
            needed.insert(up.clone());
            up.pop();
        }
    }
    let mut left: Vec<&Vec<String>> = rows[tokens.len()..].iter().collect();
    let mut listed: BTreeSet<usize> = BTreeSet::new();
    // a constituent is identified by a token or a constituent below it
    while !left.is_empty() {
        let before = left.len();
        let mut rest = vec![];
        for r in left {
            let n = number(r)?;
            ensure!(r[0].starts_with('#'), "{:?} is no constituent", r);
            let k: usize = r[0][1..].parse().map_err(|_| format!("{:?} has no number", r))?;
            match at.get(&k).cloned() {
                None => rest.push(r),
                Some(a) => {
                    ensure!(!a.is_empty(), "the root has the row {:?}", r);
                    ensure!(listed.insert(k), "the constituent {} is listed twice", k);
                    ensure_eq!(r[1], heads(&a), "label of the constituent at {:?}", a);
                    let mut up = a.clone();
                    up.pop();
                    place(&mut at, n, up)?;
                }
            }
        }
        ensure!(rest.len() < before, "nothing is below the constituent {:?}", rest[0]);
        left = rest;
    }
    let found: BTreeSet<Addr> = listed.iter().map(|k| at[k].clone()).collect();
    ensure_eq!(found, needed, "constituents");
    ensure_eq!(listed, (500..500 + needed.len()).collect::<BTreeSet<_>>(), "numbers of the constituents");
    for (k, r) in rows[tokens.len()..].iter().enumerate() {
        ensure_eq!(r[0], format!("#{}", 500 + k), "number of constituent row {}", k);
    }
    Ok(())
}
fn exported(c: &mut Case) -> Res {
    let sep = c.s.chance(2, 3);
    let o = Opts { copy: false, del: c.s.chance(1, 4), separated: sep, words: vec!["the", "ä", "#", "#500", "--"], heads: vec!["S", "NP", "VP", "NN", "$,"] };
    let mut fuel = c.s.tail(2, 20, 250);
    let mut t = Nodes::new();
    tree(&mut c.s, &o, vec![], 1, &mut fuel, &mut t);
    let id = *c.s.pick(&[0usize, 1, 17, 500]);
    let from_pos = c.s.chance(1, 3);
    let mut g = gorn_of(&mut c.s, &t);
    c.text("tree", show_tree(&t));
    if !t.values().all(separated) {
        g = separate_terminal_rules(&g);
        t = nodes_of(&g);
    }
    if t[&vec![]].composition.composition.iter().flatten().any(|y| y.is_t()) {
        c.label("a single terminal");
        return Ok(());
    }
    let want = match eval(&t, &vec![]) {
        Some(v) => v[0].clone(),
        None => return Err("the separated tree has no value".into()),
    };
    let (mode, tokens) = if from_pos {
        let ws: Vec<String> = (0..want.len()).map(|k| if c.s.chance(1, 4) { c.s.pick(&["the", "NN", "a"]).to_string() } else { format!("word{}", k) }).collect();
        let toks = want.iter().zip(&ws).map(|((_, a), w)| (w.clone(), a.clone())).collect();
        (DumpMode::FromPos(ws), toks)
    } else {
        (DumpMode::Default, want.clone())
    };
    let text = to_negra(&g, id, mode);
    c.text("export", &text);
    let r: Res = export(&text, id, &tokens, &|a| t[a].head.clone());
    r?;
    c.label(if from_pos { "words given" } else { "words of the tree" });
    // discontinuous: the tokens below some constituent are no interval
    let mut pos: BTreeMap<Addr, Vec<usize>> = BTreeMap::new();
    for (k, (_, a)) in tokens.iter().enumerate() {
        for n in 1..a.len() {
            pos.entry(a[..n].to_vec()).or_default().push(k);
        }
    }
    if pos.values().any(|v| v[v.len() - 1] - v[0] + 1 > v.len()) {
        c.label("discontinuous");
    }
    c.nontrivial_if(tokens.len() >= 2 && pos.len() >= 2);
    Ok(())
}
/// trees with terminals that are not separated, and such a tree once they are
fn refused(c: &mut Case) -> Res {
    let o = Opts { copy: false, del: false, separated: false, words: vec!["a", "b"], heads: vec!["S", "A"] };
    let mut fuel = c.s.range(1, 6);
    let mut t = Nodes::new();
    tree(&mut c.s, &o, vec![], 1, &mut fuel, &mut t);
    let g = gorn_of(&mut c.s, &t);
    let from_pos = c.s.chance(1, 2);
    c.text("tree", show_tree(&t));
    let fit = t.values().all(separated);
    let words: Vec<String> = eval(&t, &vec![]).expect("generated trees are well-formed").into_iter().flatten().map(|(w, _)| w).collect();
    ensure_eq!(meets_negra_criteria(&g), fit, "the tree is said to be of the required form");
    if !fit {
        let mode = if from_pos { DumpMode::FromPos(words.clone()) } else { DumpMode::Default };
        ensure!(no_panic(|| to_negra(&g, 0, mode)).is_err(), "a tree that is not of the required form is exported");
        c.label("refused");
        c.nontrivial_if(true);
    }
    Ok(())
}
fn no_parse(c: &mut Case) -> Res {
    let n = c.s.tail(0, 6, 120);
    let words: Vec<String> = (0..n).map(|_| c.s.pick(&["the", "ä", "#500", "NN", "VB"]).to_string()).collect();
    let id = *c.s.pick(&[0usize, 1, 17, 500]);
    let from_pos = c.s.chance(1, 2);
    c.note("sentence", &words);
    c.note("from part-of-speech tags", from_pos);
    let given: Vec<String> = (0..n).map(|k| if c.s.chance(1, 3) { words[c.s.n(n)].clone() } else { format!("w{}", k) }).collect();
    c.note("words", &given);
    let text = if from_pos { noparse(&words, id, DumpMode::FromPos(given.clone())) } else { noparse(&words, id, DumpMode::Default) };
    c.text("export", &text);
    let rows = rows(&text, id)?;
    ensure_eq!(rows.len(), n + 1, "rows");
    for k in 0..n {
        let (w, p) = if from_pos { (given[k].as_str(), words[k].as_str()) } else { (words[k].as_str(), "--") };
        ensure_eq!(rows[k], vec![w, p, "--", "--", "500"], "row of word {}", k);
    }
    ensure_eq!(&rows[n][..2], &["#500".to_string(), "NOPARSE".to_string()][..], "the common root");
    ensure_eq!(rows[n].last().map(|x| x.as_str()), Some("0"), "the common root");
    c.nontrivial_if(n >= 2);
    Ok(())
}

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "D01",
            rule: "a tree of at least three nodes whose value has two terminals",
            assumptions: &["trees of at most 15 nodes of up to three components and successors; values of at most 5000 terminals"],
            parts: vec![Part { name: "trees", quick: 240_000, thorough: 14_400_000, run: evaluation }],
        },
        Prop {
            id: "D02",
            rule: "a tree of at least two nodes that gets a new one",
            assumptions: &["the empty string is no terminal (repeating it gives no new name)"],
            parts: vec![Part { name: "trees", quick: 240_000, thorough: 14_400_000, run: separate }],
        },
        Prop {
            id: "D03",
            rule: "at least two tokens and two inner constituents, or a sentence of two words",
            assumptions: &["trees whose rules are a single terminal below the root, or contain only variables, none of them twice"],
            parts: vec![
                Part { name: "trees", quick: 180_000, thorough: 10_800_000, run: exported },
                Part { name: "refused", quick: 30_000, thorough: 1_800_000, run: refused },
                Part { name: "no parse", quick: 30_000, thorough: 1_800_000, run: no_parse },
            ],
        },
    ]
}
