//! Automata: tree-stack, push-down and finite-state automata and their recognisers.
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use integeriser::HashIntegeriser;
use num_traits::One;
use rustomata::automata::finite_state_automaton::{FiniteStateAutomaton, FiniteStateInstruction};
use rustomata::automata::push_down_automaton::*;
use rustomata::automata::tree_stack_automaton::*;
use rustomata::grammars::cfg::{CFGComposition, CFGRule, LetterT, CFG};
use rustomata::recognisable::automaton::{recognise, recognise_beam, Automaton};
use rustomata::recognisable::{Configuration, Instruction, Item, Recognisable, Transition};
use rustomata::util::integerisable::Integerisable1;
use rustomata::util::push_down::Pushdown;
use rustomata::util::reverse::Reverse;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

pub type Map = BTreeMap<Vec<usize>, usize>;
pub type Tsa = TreeStackAutomaton<PosState<Rule>, String, W>;
pub type Pda = PushDownAutomaton<PushState<String, String>, String, W>;
pub type TsaItem = Item<TreeStack<PosState<Rule>>, TreeStackInstruction<PosState<Rule>>, String, W>;

pub fn product(ws: impl Iterator<Item = W>) -> W {
    ws.fold(W::one(), |a, b| a * b)
}
pub fn non_increasing(ws: &[W], what: &str) -> Res {
    for (i, p) in ws.windows(2).enumerate() {
        ensure!(!clearly_less(p[0], p[1]), "{}: result {} has weight {}, the one before it only {}", what, i + 1, p[1], p[0]);
    }
    Ok(())
}
/// a result whose run has no transition: the automaton was already in an accepting configuration
pub fn empty_run<S, I, T, V>(i: &Item<S, I, T, V>) -> bool {
    i.1.is_empty()
}

// ---------------------------------------------------------------- grammars as automata
/// the derivation and weight of one run of the automaton of `g` on `w`
pub fn read_tsa(g: &G, w: &[usize], item: &TsaItem) -> Result<(Map, W), String> {
    let Item(conf, run) = item;
    ensure!(conf.word.is_empty(), "a run ends before the input is read: {:?} is left", conf.word);
    let run = run.to_vec();
    let read: Vec<String> = run.iter().flat_map(|t| t.word.clone()).collect();
    ensure_eq!(read, words(w), "the transitions of the run read another word");
    let p = product(run.iter().map(|t| t.weight));
    ensure!(close(p, conf.weight), "the weight of the run is {}, but its transitions multiply to {}", conf.weight, p);
    let tree: Vec<_> = to_abstract_syntax_tree(conf.storage.to_tree()).into_iter().collect();
    Ok((identify(g, &tree)?, conf.weight))
}
pub fn tree_weight(g: &G, m: &Map) -> f64 {
    m.values().map(|r| g.rules[*r].w).product()
}
pub fn guarded(s: &mut Src, max_nts: usize, eps: bool) -> GenOpts {
    let max_rank = if s.chance(1, 4) { 3 } else { 2 };
    GenOpts { guarded: true, max_nts, max_rank, eps, multi_init: true, ..GenOpts::default() }
}
const LIMIT: usize = 400;

/// components without variables are left out in some rules, as long as another one of the successor remains
fn leave_out(s: &mut Src, g: &mut G) {
    let plain: Vec<Vec<bool>> = (0..g.fan.len())
        .map(|a| {
            let free = |c: &Vec<Y>| c.iter().all(|y| if let Y::T(_) = y { true } else { false });
            (0..g.fan[a]).map(|k| g.rules.iter().all(|r| r.head != a || free(&r.comp[k]))).collect()
        })
        .collect();
    for r in &mut g.rules {
        for i in 0..r.tail.len() {
            let mut left = g.fan[r.tail[i]];
            for j in 0..g.fan[r.tail[i]] {
                if left > 1 && plain[r.tail[i]][j] && s.chance(1, 2) {
                    left -= 1;
                    for c in &mut r.comp {
                        c.retain(|y| if let Y::V(x, k) = y { (*x, *k) != (i, j) } else { true });
                    }
                }
            }
        }
    }
    let mut seen = BTreeSet::new();
    g.rules.retain(|r| seen.insert(format!("{} {:?} {:?}", r.head, r.tail, r.comp)));
}
fn tsa_parsing(c: &mut Case) -> Res {
    let eps = c.s.chance(2, 3);
    let mut o = guarded(&mut c.s, 4, eps);
    o.monotone = c.s.chance(1, 2);
    let mut g = G::generate(&mut c.s, &o);
    maybe_zero(&mut c.s, &mut g);
    if c.s.chance(1, 3) {
        leave_out(&mut c.s, &mut g);
    }
    let mut w = g.gen_word(&mut c.s, 7, o.terms);
    match c.s.n(120) {
        117 => {
            w = g.stretch(&mut c.s, o.terms);
            c.label("many terminals in a row");
        }
        118 => g.crowd(&mut c.s),
        119 => {
            let wide = c.s.chance(1, 2);
            g = G::broad(&mut c.s, wide);
            w = g.broad_word(&mut c.s);
            c.label("many successors or components");
        }
        _ => (),
    }
    c.text("grammar", show(&g));
    c.note("word", words(&w));
    let mut p = Parser::new(&g, &w, LIMIT);
    let all = p.all();
    if p.overflow {
        c.label("too many derivations");
        return Ok(());
    }
    let want: BTreeSet<Map> = all.iter().map(|t| t.addresses()).collect();
    let a = Tsa::from(pmcfg(&g));
    let mut got = BTreeSet::new();
    for item in a.recognise(words(&w)).take(LIMIT * 2) {
        if w.is_empty() && empty_run(&item) {
            c.known_or("A01:empty-run-on-empty-word", "the empty word is accepted by a run without any rule".into())?;
            continue;
        }
        let (m, v) = read_tsa(&g, &w, &item)?;
        ensure!(want.contains(&m), "a run yields a tree that is no derivation of the word: {:?}", m);
        ensure!(close(v, lw(tree_weight(&g, &m))), "the run of {:?} has weight {}, its rules multiply to {}", m, v, tree_weight(&g, &m));
        ensure!(got.insert(m.clone()), "two runs yield the same derivation {:?}", m);
    }
    for m in &want {
        ensure!(got.contains(m), "no run for the derivation {:?} ({} of {} found)", m, got.len(), want.len());
    }
    c.nontrivial_if(want.iter().any(|m| m.len() >= 2));
    match want.len() {
        0 => c.label("no derivation"),
        1 => c.label("one derivation"),
        _ => c.label("several derivations"),
    }
    if want.iter().any(|m| m.values().any(|r| g.rules[*r].comp.len() > 1)) {
        c.label("discontinuous");
    }
    Ok(())
}

/// context-free grammars are linear MCFG of fan-out one, written with labels
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct CfRule(pub usize, pub Vec<Result<usize, usize>>); // head, Ok terminal / Err nonterminal
pub fn cf_form(r: &R) -> CfRule {
    CfRule(
        r.head,
        r.comp[0]
            .iter()
            .map(|y| match y {
                Y::T(t) => Ok(*t),
                Y::V(i, _) => Err(r.tail[*i]),
            })
            .collect(),
    )
}
pub fn cf_rule(r: &R) -> CFGRule<String, String, W> {
    CFGRule {
        head: nt(r.head),
        composition: CFGComposition {
            composition: cf_form(r)
                .1
                .into_iter()
                .map(|x| match x {
                    Ok(t) => LetterT::Value(term(t)),
                    Err(a) => LetterT::Label(nt(a)),
                })
                .collect(),
        },
        weight: lw(r.w),
    }
}
pub fn cfg(g: &G) -> CFG<String, String, W> {
    CFG { initial: g.init.iter().map(|a| nt(*a)).collect(), rules: g.rules.iter().map(cf_rule).collect() }
}
/// leaves one of several rules that are the same as context-free rules
pub fn cf_distinct(g: &mut G) {
    let mut seen = BTreeSet::new();
    g.rules.retain(|r| seen.insert(cf_form(r)));
}
/// the rules of the leftmost derivation
pub fn leftmost(g: &G, t: &Tree) -> Vec<usize> {
    let mut v = vec![t.rule];
    for y in &g.rules[t.rule].comp[0] {
        if let Y::V(i, _) = y {
            v.extend(leftmost(g, &t.kids[*i]));
        }
    }
    v
}
type PdaItem = Item<PushDown<PushState<String, String>>, PushDownInstruction<PushState<String, String>>, String, W>;
pub fn read_pda(g: &G, w: &[usize], item: &PdaItem) -> Result<(usize, Vec<usize>, W), String> {
    let Item(conf, run) = item;
    ensure!(conf.word.is_empty(), "a run ends before the input is read: {:?} is left", conf.word);
    let run = run.to_vec();
    let read: Vec<String> = run.iter().flat_map(|t| t.word.clone()).collect();
    ensure_eq!(read, words(w), "the transitions of the run read another word");
    let p = product(run.iter().map(|t| t.weight));
    ensure!(close(p, conf.weight), "the weight of the run is {}, but its transitions multiply to {}", conf.weight, p);
    let mut start = None;
    let mut seq = vec![];
    for t in &run {
        let PushDownInstruction::Replace { ref current_val, ref new_val } = t.instruction;
        match current_val[..] {
            [PushState::Initial] => {
                ensure!(start.is_none() && seq.is_empty(), "the run starts twice");
                start = match new_val[..] {
                    [PushState::Nt(ref a)] => g.init.iter().find(|b| nt(**b) == *a).cloned(),
                    _ => None,
                };
                ensure!(start.is_some(), "the run starts with {:?}", new_val);
            }
            [PushState::Nt(ref a)] => {
                let rhs: Vec<LetterT<String, String>> = new_val
                    .iter()
                    .rev()
                    .map(|x| match x {
                        PushState::Nt(b) => Ok(LetterT::Label(b.clone())),
                        PushState::T(b) => Ok(LetterT::Value(b.clone())),
                        x => Err(format!("{:?} is pushed", x)),
                    })
                    .collect::<Result<_, String>>()?;
                match g.rules.iter().position(|r| nt(r.head) == *a && cf_rule(r).composition.composition == rhs) {
                    Some(k) => {
                        ensure!(close(t.weight, lw(g.rules[k].w)), "rule {} is applied with weight {}", k, t.weight);
                        seq.push(k)
                    }
                    None => return Err(format!("the run applies a rule that is not in the grammar: {:?}", t)),
                }
            }
            [PushState::T(_)] => ensure!(close(t.weight, W::one()), "reading a terminal has weight {}", t.weight),
            _ => return Err(format!("unexpected transition {:?}", t)),
        }
    }
    match start {
        Some(a) => Ok((a, seq, conf.weight)),
        None => Err("the run does not start with an initial nonterminal".into()),
    }
}
pub fn gen_cf(s: &mut Src, o: &GenOpts) -> G {
    let mut g = G::generate(s, &GenOpts { max_fan: 1, ..o.clone() });
    cf_distinct(&mut g);
    g
}
fn pda_parsing(c: &mut Case) -> Res {
    let eps = c.s.chance(2, 3);
    let o = guarded(&mut c.s, 5, eps);
    let mut g = gen_cf(&mut c.s, &o);
    maybe_zero(&mut c.s, &mut g);
    let longest = *c.s.pick(&[5, 6, 6, 7, 5, 9]);
    let mut w = g.gen_word(&mut c.s, longest, o.terms);
    if c.s.chance(1, 120) {
        g.crowd(&mut c.s);
    } else if c.s.chance(1, 100) {
        w = g.stretch(&mut c.s, o.terms);
    } else if c.s.chance(1, 50) {
        g = G::broad_cf(&mut c.s, 14);
        w = g.broad_word(&mut c.s);
        c.label("rule of nine or more symbols");
    }
    c.text("grammar", show(&g));
    c.note("word", words(&w));
    let mut p = Parser::new(&g, &w, LIMIT);
    let all = p.all();
    if p.overflow {
        c.label("too many derivations");
        return Ok(());
    }
    let want: BTreeSet<(usize, Vec<usize>)> = all.iter().map(|t| (g.rules[t.rule].head, leftmost(&g, t))).collect();
    ensure_eq!(want.len(), all.len(), "(reference) leftmost derivations are not unique");
    let a = Pda::from(cfg(&g));
    let mut got = BTreeSet::new();
    for item in a.recognise(words(&w)).take(LIMIT * 2) {
        let (start, seq, v) = read_pda(&g, &w, &item)?;
        let m = (start, seq);
        ensure!(want.contains(&m), "a run is no leftmost derivation of the word: {:?}", m);
        let x: f64 = m.1.iter().map(|r| g.rules[*r].w).product();
        ensure!(close(v, lw(x)), "the run {:?} has weight {}, its rules multiply to {}", m, v, x);
        ensure!(got.insert(m.clone()), "two runs for the leftmost derivation {:?}", m);
    }
    for m in &want {
        ensure!(got.contains(m), "no run for the leftmost derivation {:?} ({} of {} found)", m, got.len(), want.len());
    }
    c.nontrivial_if(want.iter().any(|m| m.1.len() >= 2));
    match want.len() {
        0 => c.label("no derivation"),
        1 => c.label("one derivation"),
        _ => c.label("several derivations"),
    }
    Ok(())
}

// ---------------------------------------------------------------- long words
/// letter by letter; the components of the only recursive nonterminal spell a string or its mirror image;
/// grammar, word, the rules from the root of the chain if it is in the language
pub fn chain(s: &mut Src, cf: bool, most: usize) -> (G, Vec<usize>, Option<Vec<usize>>) {
    let letters = s.range(1, 3);
    let n = if s.chance(1, 6) { s.range(1, 110) } else { s.range(1, 24) };
    let u: Vec<usize> = (0..n).map(|_| s.n(letters)).collect();
    let odd_w = |s: &mut Src| *s.pick(&[1.0, 0.5, 0.25, 0.9]);
    let mut rules = vec![];
    if cf {
        // right-linear or palindromes
        let pal = s.chance(2, 3);
        for x in 0..letters {
            let mut rec = vec![Y::T(x), Y::V(0, 0)];
            if pal {
                rec.push(Y::T(x))
            }
            rules.push(R { head: 0, tail: vec![0], comp: vec![rec], w: odd_w(s) });
            rules.push(R { head: 0, tail: vec![], comp: vec![vec![Y::T(x)]], w: odd_w(s) });
            if pal {
                rules.push(R { head: 0, tail: vec![], comp: vec![vec![Y::T(x); 2]], w: odd_w(s) });
            }
        }
        let g = G { init: vec![0], fan: vec![1], rules };
        let per = if pal { 3 } else { 2 };
        let mut w = u.clone();
        let even = pal && s.chance(1, 2);
        if pal {
            w.extend(u[..if even { n } else { n - 1 }].iter().rev());
        }
        if s.chance(1, 4) {
            let k = s.n(w.len());
            w[k] = s.n(letters);
        }
        let m = w.len();
        let inside = !pal || (0..m).all(|i| w[i] == w[m - 1 - i]);
        let der = (0..n).map(|i| w[i] * per + if i + 1 < n { 0 } else if even { 2 } else { 1 }).collect();
        (g, w, if inside { Some(der) } else { None })
    } else {
        let k = s.range(1, most);
        let mirror: Vec<bool> = (0..k).map(|j| j > 0 && s.chance(1, 2)).collect();
        rules.push(R { head: 0, tail: vec![1], comp: vec![(0..k).map(|j| Y::V(0, j)).collect()], w: odd_w(s) });
        for x in 0..letters {
            let rec = (0..k).map(|j| if mirror[j] { vec![Y::V(0, j), Y::T(x)] } else { vec![Y::T(x), Y::V(0, j)] }).collect();
            rules.push(R { head: 1, tail: vec![1], comp: rec, w: odd_w(s) });
            rules.push(R { head: 1, tail: vec![], comp: vec![vec![Y::T(x)]; k], w: odd_w(s) });
        }
        let g = G { init: vec![0], fan: vec![1, k], rules };
        let mut w = vec![];
        for j in 0..k {
            let mut v = u.clone();
            if mirror[j] {
                v.reverse()
            }
            w.extend(v);
        }
        if s.chance(1, 4) {
            let i = s.n(w.len());
            w[i] = s.n(letters);
        }
        let inside = (0..k).all(|j| (0..n).all(|i| w[if mirror[j] { j * n + n - 1 - i } else { j * n + i }] == w[i]));
        let mut der = vec![0];
        der.extend((0..n).map(|i| 1 + w[i] * 2 + if i + 1 < n { 0 } else { 1 }));
        (g, w, if inside { Some(der) } else { None })
    }
}
fn long_chain(c: &mut Case, cf: bool) -> Res {
    let (g, w, want) = chain(&mut c.s, cf, 3);
    c.text("grammar", show(&g));
    c.note("word", words(&w).concat());
    let mut got: Vec<(Vec<usize>, W)> = vec![];
    if cf {
        for item in Pda::from(cfg(&g)).recognise(words(&w)) {
            let (_, seq, v) = read_pda(&g, &w, &item)?;
            got.push((seq, v));
        }
    } else {
        for item in Tsa::from(pmcfg(&g)).recognise(words(&w)) {
            let (m, v) = read_tsa(&g, &w, &item)?;
            let mut at = vec![];
            let mut seq = vec![];
            while let Some(r) = m.get(&at) {
                seq.push(*r);
                at.push(0);
            }
            ensure_eq!(seq.len(), m.len(), "(reference) the derivation is a chain");
            got.push((seq, v));
        }
    }
    match want {
        None => ensure!(got.is_empty(), "a word outside the language has the run {:?}", got[0]),
        Some(ref d) => {
            ensure_eq!(got.len(), 1, "runs of a word with one derivation");
            ensure_eq!(got[0].0, *d, "rules of the run");
            let x: f64 = d.iter().map(|r| g.rules[*r].w.ln()).sum();
            ensure!(closef(got[0].1.ln(), x), "the run has weight {} instead of e^{}", got[0].1, x);
        }
    }
    c.nontrivial_if(w.len() > 20);
    c.label(if want.is_some() { "in the language" } else { "outside the language" });
    if w.len() > 100 {
        c.label("more than a hundred words")
    }
    Ok(())
}
fn tsa_long(c: &mut Case) -> Res {
    long_chain(c, false)
}
fn pda_long(c: &mut Case) -> Res {
    long_chain(c, true)
}

// ---------------------------------------------------------------- best first
/// weights of which every cycle loses enough that best-first search terminates quickly
fn decaying(s: &mut Src, g: &mut G) {
    for r in g.rules.iter_mut() {
        r.w = *s.pick(&[0.5, 0.25, 0.3, 0.1]);
    }
}
/// the results of a best-first enumeration against the weights of (some of) what it should find
fn best_of(got: &[W], known: &mut Vec<f64>, complete: bool) -> Res {
    non_increasing(got, "enumeration")?;
    known.sort_by(|a, b| b.partial_cmp(a).unwrap());
    for (i, v) in got.iter().enumerate() {
        // the i-th result is no worse than the i-th of the known ones
        if i < known.len() {
            ensure!(!clearly_less(*v, lw(known[i])), "result {} has weight {}, but there are {} with at least {}", i, v, i + 1, known[i]);
            if complete {
                ensure!(close(*v, lw(known[i])), "result {} has weight {} instead of {}", i, v, known[i]);
            }
        }
    }
    Ok(())
}
fn tsa_order(c: &mut Case) -> Res {
    let cyclic = c.s.chance(1, 3);
    let cf = c.s.chance(1, 2);
    let mut o = guarded(&mut c.s, 4, true);
    o.guarded = !cyclic;
    if cyclic {
        o.max_nts = 2;
        o.max_extra = 2;
        o.max_rank = 2;
    }
    let mut g = if cf { gen_cf(&mut c.s, &o) } else { G::generate(&mut c.s, &o) };
    if !cyclic {
        maybe_zero(&mut c.s, &mut g);
    }
    if cyclic {
        decaying(&mut c.s, &mut g);
    }
    let w = g.gen_word(&mut c.s, if cyclic { 3 } else { 7 }, o.terms);
    let k = c.s.range(1, 6);
    c.text("grammar", show(&g));
    c.note("word", words(&w));
    c.note("automaton, k", (if cf { "push-down" } else { "tree-stack" }, k));
    let mut p = Parser::new(&g, &w, LIMIT);
    let all = p.all();
    if p.overflow {
        c.label("too many derivations");
        return Ok(());
    }
    let mut known: Vec<f64> = all.iter().map(|t| g.weight(t)).collect();
    // without recursion on the left the whole enumeration ends, otherwise as many as there surely are
    let n = if cyclic { k.min(known.len()) } else { LIMIT * 2 };
    let mut got = vec![];
    if cf {
        for item in Pda::from(cfg(&g)).recognise(words(&w)).take(n) {
            let (_, seq, v) = read_pda(&g, &w, &item)?;
            ensure!(close(v, lw(seq.iter().map(|r| g.rules[*r].w).product())), "weight {} for the rules {:?}", v, seq);
            got.push(v);
        }
    } else {
        for item in Tsa::from(pmcfg(&g)).recognise(words(&w)).filter(|i| !empty_run(i)).take(n) {
            let (m, v) = read_tsa(&g, &w, &item)?;
            ensure!(close(v, lw(tree_weight(&g, &m))), "weight {} for the derivation {:?}", v, m);
            got.push(v);
        }
    }
    ensure!(got.len() >= known.len().min(n), "only {} of {} derivations are enumerated", got.len(), known.len());
    let distinct: BTreeSet<_> = known.iter().map(|x| x.to_bits()).collect();
    best_of(&got, &mut known, !p.cyclic && !cyclic)?;
    c.nontrivial_if(got.len() >= 2 && distinct.len() >= 2);
    c.label(if cf { "push-down" } else { "tree-stack" });
    if cyclic {
        c.label("recursion on the left possible");
        if p.cyclic {
            c.label("infinitely many derivations");
        }
    }
    Ok(())
}
/// wrapped weights: smaller is better, weights of at least one
fn reversed_order(c: &mut Case) -> Res {
    let cf = c.s.chance(1, 2);
    let o = guarded(&mut c.s, 4, true);
    let g = if cf { gen_cf(&mut c.s, &o) } else { G::generate(&mut c.s, &o) };
    let w = g.gen_word(&mut c.s, 7, o.terms);
    c.text("grammar (weights are inverted)", show(&g));
    c.note("word", words(&w));
    c.note("automaton", if cf { "push-down" } else { "tree-stack" });
    let mut p = Parser::new(&g, &w, LIMIT);
    let all = p.all();
    if p.overflow {
        c.label("too many derivations");
        return Ok(());
    }
    let mut known: Vec<f64> = all.iter().map(|t| 1.0 / g.weight(t)).collect();
    known.sort_by(|a, b| a.partial_cmp(b).unwrap());
    type RW = Reverse<W>;
    let inv = |r: &R| Reverse::from(lw(1.0 / r.w));
    let got: Vec<W> = if cf {
        let rules = g
            .rules
            .iter()
            .map(|r| {
                let CFGRule { head, composition, .. } = cf_rule(r);
                CFGRule { head, composition, weight: inv(r) }
            })
            .collect();
        let a: PushDownAutomaton<PushState<String, String>, String, RW> =
            CFG { initial: g.init.iter().map(|a| nt(*a)).collect(), rules }.into();
        let v = a.recognise(words(&w)).take(LIMIT * 2).map(|Item(conf, _)| conf.weight.unwrap()).collect();
        v
    } else {
        let rules = g
            .rules
            .iter()
            .map(|r| {
                let rustomata::grammars::pmcfg::PMCFGRule { head, tail, composition, .. } = rule(r);
                rustomata::grammars::pmcfg::PMCFGRule { head, tail, composition, weight: inv(r) }
            })
            .collect();
        let a: TreeStackAutomaton<PosState<rustomata::grammars::pmcfg::PMCFGRule<String, String, RW>>, String, RW> =
            rustomata::grammars::pmcfg::PMCFG { initial: g.init.iter().map(|a| nt(*a)).collect(), rules }.into();
        let v = a.recognise(words(&w)).filter(|i| !empty_run(i)).take(LIMIT * 2).map(|Item(conf, _)| conf.weight.unwrap()).collect();
        v
    };
    ensure_eq!(got.len(), known.len(), "number of results");
    for (i, (x, y)) in got.iter().zip(&known).enumerate() {
        ensure!(close(*x, lw(*y)), "result {} has cost {} instead of {}: {:?}", i, x, y, got);
    }
    c.nontrivial_if(got.len() >= 2 && !close(got[0], got[got.len() - 1]));
    Ok(())
}

// ---------------------------------------------------------------- free-form automata and their reference semantics
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ins {
    Up(usize, usize, usize, usize),
    Push(usize, usize, usize),
    Down(usize, usize, usize),
    Replace(Vec<usize>, Vec<usize>),
    Step(usize, usize),
}
use Ins::*;
#[derive(Clone, Debug)]
pub struct Tr {
    pub word: Vec<usize>,
    pub ins: Ins,
    pub w: f64,
}
/// storage values of the reference semantics
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Store {
    Tree(BTreeMap<Vec<usize>, usize>, Vec<usize>),
    Stack(Vec<usize>),
    State(usize),
}
pub fn apply(i: &Ins, s: &Store) -> Option<Store> {
    match (i, s) {
        (Up(n, c, o, v), Store::Tree(m, p)) => {
            let mut q = p.clone();
            q.push(*n);
            if m[p] == *c && m.get(&q) == Some(o) {
                let mut m = m.clone();
                m.insert(q.clone(), *v);
                Some(Store::Tree(m, q))
            } else {
                None
            }
        }
        (Push(n, c, v), Store::Tree(m, p)) => {
            let mut q = p.clone();
            q.push(*n);
            if m[p] == *c && !m.contains_key(&q) {
                let mut m = m.clone();
                m.insert(q.clone(), *v);
                Some(Store::Tree(m, q))
            } else {
                None
            }
        }
        (Down(c, o, v), Store::Tree(m, p)) => {
            if p.is_empty() || m[p] != *c {
                return None;
            }
            let q = p[..p.len() - 1].to_vec();
            if m[&q] != *o {
                return None;
            }
            let mut m = m.clone();
            m.insert(q.clone(), *v);
            Some(Store::Tree(m, q))
        }
        // the first symbol of the replaced segment is the topmost one
        (Replace(c, v), Store::Stack(st)) => {
            if c.len() > st.len() || st.iter().rev().zip(c).any(|(a, b)| a != b) {
                return None;
            }
            let mut st = st[..st.len() - c.len()].to_vec();
            st.extend(v);
            Some(Store::Stack(st))
        }
        (Step(p, q), Store::State(r)) => {
            if p == r {
                Some(Store::State(*q))
            } else {
                None
            }
        }
        _ => None,
    }
}
#[derive(Clone, Debug)]
pub struct Aut {
    pub trs: Vec<Tr>,
    pub init: Store,
    pub finals: Vec<usize>,
}
impl Aut {
    fn accepts(&self, s: &Store) -> bool {
        match s {
            Store::Tree(_, p) => p.is_empty(),
            Store::Stack(st) => st.len() == 1,
            Store::State(q) => self.finals.contains(q),
        }
    }
    /// all runs on `w` of weight at least `least` with their final storage, unless too many
    pub fn runs(&self, w: &[usize], least: f64, mut nodes: usize) -> Option<Vec<(Vec<usize>, Store)>> {
        let mut out = vec![];
        let mut todo = vec![(0, self.init.clone(), vec![], 1.0)];
        while let Some((at, s, run, v)) = todo.pop() {
            if nodes == 0 {
                return None;
            }
            nodes -= 1;
            if at == w.len() && self.accepts(&s) {
                out.push((run.clone(), s.clone()));
            }
            for (k, t) in self.trs.iter().enumerate() {
                let v = v * t.w;
                if v < least || !w[at..].starts_with(&t.word) {
                    continue;
                }
                if let Some(s) = apply(&t.ins, &s) {
                    let mut run: Vec<usize> = run.clone();
                    run.push(k);
                    todo.push((at + t.word.len(), s, run, v));
                }
            }
        }
        Some(out)
    }
    pub fn weight(&self, run: &[usize]) -> f64 {
        run.iter().map(|k| self.trs[*k].w).product()
    }
    /// copies of transitions that differ from them in weight only
    pub fn double(&mut self, s: &mut Src) -> bool {
        if self.trs.is_empty() || !s.chance(1, 8) {
            return false;
        }
        for _ in 0..s.range(1, 2) {
            let mut t = s.pick(&self.trs).clone();
            let same: Vec<f64> = self.trs.iter().filter(|u| u.word == t.word && u.ins == t.ins).map(|u| u.w).collect();
            t.w = *s.pick(&[0.5, 0.3, 0.77, 0.11]);
            if same.iter().all(|w| (w - t.w).abs() > 1e-3) {
                let at = s.n(self.trs.len() + 1);
                self.trs.insert(at, t);
            }
        }
        true
    }
    /// the same automaton if the weights of transitions that differ in nothing else are added
    pub fn split(&self, s: &mut Src) -> Option<Aut> {
        if self.trs.is_empty() || !s.chance(1, 8) {
            return None;
        }
        let mut a = self.clone();
        for _ in 0..s.range(1, 2) {
            let k = s.n(a.trs.len());
            let mut t = a.trs[k].clone();
            let part = *s.pick(&[0.5, 0.25, 0.9]);
            a.trs[k].w *= part;
            t.w *= 1.0 - part;
            let at = s.n(a.trs.len() + 1);
            a.trs.insert(at, t);
        }
        Some(a)
    }
    fn add(&mut self, t: Tr) {
        if !self.trs.iter().any(|u| u.word == t.word && u.ins == t.ins) {
            self.trs.push(t)
        }
    }
}
pub fn sym(k: usize) -> String {
    ["@", "p", "q", "r", "s", "t"].get(k).map(|s| s.to_string()).unwrap_or_else(|| format!("x{}", k))
}
pub fn tsa_ins(i: &Ins) -> TreeStackInstruction<String> {
    match i {
        Up(n, c, o, v) => TreeStackInstruction::Up { n: *n, current_val: sym(*c), old_val: sym(*o), new_val: sym(*v) },
        Push(n, c, v) => TreeStackInstruction::Push { n: *n, current_val: sym(*c), new_val: sym(*v) },
        Down(c, o, v) => TreeStackInstruction::Down { current_val: sym(*c), old_val: sym(*o), new_val: sym(*v) },
        _ => unreachable!(),
    }
}
pub fn pda_ins(i: &Ins) -> PushDownInstruction<String> {
    match i {
        Replace(c, v) => PushDownInstruction::Replace {
            current_val: c.iter().map(|k| sym(*k)).collect(),
            new_val: v.iter().map(|k| sym(*k)).collect(),
        },
        _ => unreachable!(),
    }
}
pub fn trans<I>(t: &Tr, f: impl Fn(&Ins) -> I) -> Transition<I, String, W> {
    Transition { word: words(&t.word), weight: lw(t.w), instruction: f(&t.ins) }
}
fn word_of(s: &mut Src, least: usize, most: usize) -> Vec<usize> {
    let n = if s.chance(1, 300) { s.range(9, 14) } else { least + s.small(most - least) };
    (0..n).map(|_| s.n(2)).collect()
}
/// a tree-stack automaton in which every step up reads something, so that all searches end
pub fn gen_tsa(s: &mut Src) -> Aut {
    let syms = s.range(1, 3);
    let mut a = Aut { trs: vec![], init: Store::Tree(Some((vec![], 0)).into_iter().collect(), vec![]), finals: vec![] };
    for _ in 0..s.range(1, 9) {
        let (c, o, v) = (s.n(syms), s.n(syms), s.n(syms));
        let (word, ins) = match s.weighted(&[3, 2, 4]) {
            0 => (word_of(s, 1, 2), Push(s.n(2), c, v)),
            1 => (word_of(s, 1, 2), Up(s.n(2), c, o, v)),
            _ => (word_of(s, 0, 1), Down(c, o, v)),
        };
        let w = odd_weight(s);
        a.add(Tr { word, ins, w });
    }
    a
}
/// sometimes a weight of many digits or a very small one
fn odd_weight(s: &mut Src) -> f64 {
    if s.chance(1, 12) {
        *s.pick(&[0.123456789012345, 1e-13, 3.5e-20])
    } else {
        gen_weight(s, false)
    }
}
/// a push-down automaton in which no step without input makes the stack longer or keeps its size,
/// and the bottom symbol (0) stays where it is
pub fn gen_pda(s: &mut Src) -> Aut {
    let syms = s.range(2, 4);
    if s.chance(1, 40) {
        return tall_pda(s, syms);
    }
    let mut a = Aut { trs: vec![], init: Store::Stack(vec![0, 1]), finals: vec![] };
    for _ in 0..s.range(1, 9) {
        let mut c: Vec<usize> = (0..1 + s.small(2)).map(|_| s.range(1, syms - 1)).collect();
        let mut v: Vec<usize> = (0..s.small(3)).map(|_| s.range(1, syms - 1)).collect();
        if s.chance(1, 6) {
            c.push(0);
            v.insert(0, 0);
        }
        let word = word_of(s, if v.len() >= c.len() { 1 } else { 0 }, 2);
        let w = odd_weight(s);
        a.add(Tr { word, ins: Replace(c, v), w });
    }
    a
}
/// the same with a push-down of ten or more symbols and steps that replace as many of them
fn tall_pda(s: &mut Src, syms: usize) -> Aut {
    let any = |s: &mut Src, n: usize| -> Vec<usize> { (0..n).map(|_| s.range(1, syms - 1)).collect() };
    let mut st = vec![0];
    let n = s.range(9, 14);
    st.extend(any(s, n));
    let mut a = Aut { trs: vec![], init: Store::Stack(st.clone()), finals: vec![] };
    for _ in 0..s.range(1, 3) {
        // a segment of the top, by one as long or longer, then what is now at the top
        let k = s.range(1, st.len() - 1);
        let c: Vec<usize> = st.iter().rev().take(k).cloned().collect();
        let n = s.n(14);
        let v = any(s, n);
        let w = odd_weight(s);
        let word = word_of(s, if v.len() >= c.len() { 1 } else { 0 }, 2);
        st.truncate(st.len() - k);
        st.extend(&v);
        a.add(Tr { word, ins: Replace(c, v), w });
        if st.len() < 2 {
            break;
        }
    }
    if st.len() > 1 && s.chance(3, 4) {
        let c: Vec<usize> = st[1..].iter().rev().cloned().collect();
        let (word, w) = (word_of(s, 0, 2), odd_weight(s));
        a.add(Tr { word, ins: Replace(c, vec![]), w });
    }
    for _ in 0..s.n(3) {
        let c = s.range(1, syms - 1);
        let w = odd_weight(s);
        let word = word_of(s, 1, 1);
        a.add(Tr { word, ins: Replace(vec![c], vec![]), w });
    }
    a
}
/// a word that some run reads, found by walking at random, or any word
pub fn gen_aut_word(s: &mut Src, a: &Aut, max: usize) -> Vec<usize> {
    let mut w = vec![];
    let mut best = vec![];
    let mut st = a.init.clone();
    // a long word of a transition counts on its own, and only once
    let mut max = max;
    let mut long = false;
    for _ in 0..12 {
        let next: Vec<(usize, Store)> =
            a.trs.iter().enumerate().filter_map(|(k, t)| apply(&t.ins, &st).map(|x| (k, x))).collect();
        if next.is_empty() {
            break;
        }
        let (k, x) = s.pick(&next).clone();
        w.extend(a.trs[k].word.iter().cloned());
        if a.trs[k].word.len() > 8 && !long {
            long = true;
            max += a.trs[k].word.len() - 1;
        }
        st = x;
        if a.accepts(&st) && w.len() <= max {
            best = w.clone();
        }
        if w.len() >= max {
            break;
        }
    }
    match s.n(4) {
        0 => {
            w.truncate(max);
            w
        }
        1 if !best.is_empty() => {
            let k = s.n(best.len());
            best[k] = s.n(3);
            best
        }
        _ => best,
    }
}
pub fn show_aut(a: &Aut) -> String {
    let mut t = format!("initial: {:?} final: {:?}\n", a.init, a.finals);
    for (k, x) in a.trs.iter().enumerate() {
        t += &format!("  t{} {:?} {:?} # {}\n", k, words(&x.word), x.ins, x.w);
    }
    t
}
/// runs returned by a recogniser as indices of transitions, with storage and weight
pub fn read_runs<S: Clone, I: Clone + PartialEq + Debug>(
    a: &Aut,
    f: impl Fn(&Ins) -> I,
    store: impl Fn(&S) -> Store,
    w: &[usize],
    items: impl Iterator<Item = Item<S, I, String, W>>,
) -> Result<Vec<(Vec<usize>, Store, W)>, String> {
    let mut out = vec![];
    for Item(conf, run) in items {
        ensure!(conf.word.is_empty(), "a run ends before the input is read: {:?} is left", conf.word);
        let mut ks = vec![];
        for t in run.to_vec() {
            let same = |u: &&Tr| words(&u.word) == t.word && f(&u.ins) == t.instruction;
            match a.trs.iter().position(|u| same(&u) && close(t.weight, lw(u.w))) {
                Some(k) => ks.push(k),
                None if a.trs.iter().any(|u| same(&u)) => return Err(format!("the transition {:?} {:?} occurs with weight {}", t.word, t.instruction, t.weight)),
                None => return Err(format!("a run uses a transition that the automaton does not have: {:?} {:?}", t.word, t.instruction)),
            }
        }
        let read: Vec<usize> = ks.iter().flat_map(|k| a.trs[*k].word.clone()).collect();
        ensure_eq!(read, w, "the transitions of a run read another word");
        ensure!(close(conf.weight, lw(a.weight(&ks))), "the run {:?} has weight {} instead of {}", ks, conf.weight, a.weight(&ks));
        out.push((ks, store(&conf.storage), conf.weight));
    }
    Ok(out)
}
pub fn tree_store(t: &TreeStack<String>) -> Store {
    let (m, p) = t.to_tree();
    Store::Tree(m.into_iter().map(|(a, l)| (a, (0..6).find(|k| sym(*k) == l).unwrap_or(99))).collect(), p)
}
pub fn stack_store(t: &PushDown<String>) -> Store {
    Store::Stack(t.iter().map(|l| (0..6).find(|k| sym(*k) == *l).unwrap_or(99)).collect())
}
pub type FreeTsa = TreeStackAutomaton<String, String, W>;
pub type FreePda = PushDownAutomaton<String, String, W>;
pub fn build_tsa(a: &Aut) -> FreeTsa {
    FreeTsa::new(a.trs.iter().map(|t| trans(t, tsa_ins)), TreeStack::new(sym(0)))
}
pub fn build_pda(a: &Aut) -> FreePda {
    let init = match a.init {
        Store::Stack(ref v) => v.iter().map(|k| sym(*k)).collect::<Vec<_>>(),
        _ => unreachable!(),
    };
    FreePda::new(a.trs.iter().map(|t| trans(t, pda_ins)), PushDown::from(init))
}
/// exactly the expected runs, each once and with its storage, best first
pub fn same_runs(got: &[(Vec<usize>, Store, W)], want: &[(Vec<usize>, Store)], ordered: bool) -> Res {
    let w: BTreeMap<&Vec<usize>, &Store> = want.iter().map(|(r, s)| (r, s)).collect();
    let mut seen = BTreeSet::new();
    for (r, s, _) in got {
        match w.get(r) {
            None => return Err(format!("{:?} is returned, which is no run on the word", r)),
            Some(t) => ensure_eq!(s, *t, "the storage after the run {:?}", r),
        }
        ensure!(seen.insert(r), "the run {:?} is returned twice", r);
    }
    for (r, _) in want {
        ensure!(seen.contains(r), "the run {:?} is not found ({} of {} are)", r, got.len(), want.len());
    }
    if ordered {
        non_increasing(&got.iter().map(|x| x.2).collect::<Vec<_>>(), "enumeration")?;
    }
    Ok(())
}
const NODES: usize = 4000;
fn free_tsa_runs(c: &mut Case) -> Res {
    let mut a = gen_tsa(&mut c.s);
    if a.double(&mut c.s) {
        c.label("transitions that differ in weight only");
    }
    let w = gen_aut_word(&mut c.s, &a, 6);
    c.text("automaton", show_aut(&a));
    c.note("word", words(&w));
    let want = match a.runs(&w, 0.0, NODES) {
        Some(r) => r,
        None => {
            c.label("too large");
            return Ok(());
        }
    };
    let b = build_tsa(&a);
    let got = read_runs(&a, tsa_ins, tree_store, &w, b.recognise(words(&w)).take(NODES))?;
    same_runs(&got, &want, true)?;
    c.nontrivial_if(want.iter().any(|r| r.0.len() >= 2));
    c.label(if want.is_empty() { "rejected" } else { "accepted" });
    if want.iter().any(|(_, s)| if let Store::Tree(m, _) = s { m.keys().any(|k| k.len() >= 2) } else { false }) {
        c.label("deep tree");
    }
    Ok(())
}
fn free_pda_runs(c: &mut Case) -> Res {
    let a = gen_pda(&mut c.s);
    let w = gen_aut_word(&mut c.s, &a, 7);
    c.text("automaton", show_aut(&a));
    c.note("word", words(&w));
    let split = a.split(&mut c.s);
    if let Some(x) = &split {
        c.text("split", show_aut(x));
        c.label("transitions that differ in weight only");
    }
    let want = match a.runs(&w, 0.0, NODES) {
        Some(r) => r,
        None => {
            c.label("too large");
            return Ok(());
        }
    };
    let b = build_pda(split.as_ref().unwrap_or(&a));
    let got = read_runs(&a, pda_ins, stack_store, &w, b.recognise(words(&w)).take(NODES))?;
    same_runs(&got, &want, true)?;
    c.nontrivial_if(want.iter().any(|r| r.0.len() >= 2));
    c.label(if want.is_empty() { "rejected" } else { "accepted" });
    Ok(())
}

/// one automaton for several words at the same time
fn one_automaton(c: &mut Case) -> Res {
    let tsa = c.s.n(2) == 0;
    let a = if tsa { gen_tsa(&mut c.s) } else { gen_pda(&mut c.s) };
    let n = c.s.range(2, 4);
    let mut ws: Vec<Vec<usize>> = (0..n).map(|_| gen_aut_word(&mut c.s, &a, 5)).collect();
    if c.s.chance(1, 4) {
        ws[1] = ws[0].clone();
    }
    let beams: Vec<Option<usize>> = (0..n).map(|_| if c.s.chance(1, 4) { Some(4 * NODES) } else { None }).collect();
    let quit: Vec<bool> = (0..n).map(|_| c.s.chance(1, 6)).collect();
    let order: Vec<usize> = (0..c.s.range(0, 60)).map(|_| c.s.n(n)).collect();
    c.text("automaton", show_aut(&a));
    c.note("words", ws.iter().map(|w| words(w)).collect::<Vec<_>>());
    c.note("beams", &beams);
    c.note("order", &order);
    let mut want = vec![];
    for w in &ws {
        match a.runs(w, 0.0, NODES / 4) {
            Some(r) => want.push(r),
            None => {
                c.label("too large");
                return Ok(());
            }
        }
    }
    fn at_once<X>(mut its: Vec<Box<dyn Iterator<Item = X> + '_>>, order: &[usize], quit: &[bool]) -> Vec<Vec<X>> {
        let mut got: Vec<Vec<X>> = its.iter().map(|_| vec![]).collect();
        for k in order {
            if let Some(x) = its[*k].next() {
                got[*k].push(x)
            }
        }
        for (k, it) in its.into_iter().enumerate() {
            if !quit[k] {
                got[k].extend(it.take(NODES))
            }
        }
        got
    }
    let all: Vec<Vec<(Vec<usize>, Store, W)>> = if tsa {
        let b = build_tsa(&a);
        let its = ws
            .iter()
            .zip(&beams)
            .map(|(w, k)| match k {
                None => Box::new(b.recognise(words(w))) as Box<dyn Iterator<Item = _> + '_>,
                Some(k) => Box::new(b.recognise_beam_search(*k, words(w))),
            })
            .collect();
        at_once(its, &order, &quit).into_iter().zip(&ws).map(|(x, w)| read_runs(&a, tsa_ins, tree_store, w, x.into_iter())).collect::<Result<_, _>>()?
    } else {
        let b = build_pda(&a);
        let its = ws
            .iter()
            .zip(&beams)
            .map(|(w, k)| match k {
                None => Box::new(b.recognise(words(w))) as Box<dyn Iterator<Item = _> + '_>,
                Some(k) => Box::new(b.recognise_beam_search(*k, words(w))),
            })
            .collect();
        at_once(its, &order, &quit).into_iter().zip(&ws).map(|(x, w)| read_runs(&a, pda_ins, stack_store, w, x.into_iter())).collect::<Result<_, _>>()?
    };
    for (k, got) in all.iter().enumerate() {
        if quit[k] {
            for (r, _, _) in got {
                ensure!(want[k].iter().any(|(x, _)| x == r), "{:?} is returned for word {}, which is no run on it", r, k);
            }
            if beams[k].is_none() {
                // what comes first is best, whatever else goes on
                let first: Vec<W> = got.iter().map(|x| x.2).collect();
                non_increasing(&first, "enumeration")?;
            }
        } else {
            same_runs(got, &want[k], beams[k].is_none())?;
        }
    }
    c.nontrivial_if(want.iter().filter(|r| !r.is_empty()).count() >= 2);
    Ok(())
}

// ---------------------------------------------------------------- beam
fn beam_runs(c: &mut Case) -> Res {
    let kind = c.s.n(4);
    let b = c.s.range(1, 6);
    let (full, part, wide, what): (Vec<(String, W)>, Vec<(String, W)>, Vec<(String, W)>, _);
    const WIDE: usize = 50_000;
    fn keys<S, I: Debug + Clone, T: Debug + Clone>(it: impl Iterator<Item = Item<S, I, T, W>>) -> Vec<(String, W)> {
        it.take(2 * NODES).map(|Item(conf, run)| (format!("{:?}", run.to_vec().iter().map(|t| (&t.word, &t.instruction)).collect::<Vec<_>>()), conf.weight)).collect()
    }
    if kind < 2 {
        let o = guarded(&mut c.s, 4, true);
        let mut g = if kind == 1 { gen_cf(&mut c.s, &o) } else { G::generate(&mut c.s, &o) };
        maybe_zero(&mut c.s, &mut g);
        let w = g.gen_word(&mut c.s, 6, o.terms);
        c.text("grammar", show(&g));
        c.note("word", words(&w));
        c.note("beam", b);
        let mut p = Parser::new(&g, &w, LIMIT);
        p.all();
        if p.overflow {
            c.label("too many derivations");
            return Ok(());
        }
        if kind == 0 {
            let a = Tsa::from(pmcfg(&g));
            full = keys(a.recognise(words(&w)));
            part = keys(a.recognise_beam_search(b, words(&w)));
            wide = keys(a.recognise_beam_search(WIDE, words(&w)));
        } else {
            let a = Pda::from(cfg(&g));
            full = keys(a.recognise(words(&w)));
            part = keys(a.recognise_beam_search(b, words(&w)));
            wide = keys(a.recognise_beam_search(WIDE, words(&w)));
        }
        what = "grammar";
    } else {
        let a = if kind == 2 { gen_tsa(&mut c.s) } else { gen_pda(&mut c.s) };
        let w = gen_aut_word(&mut c.s, &a, 6);
        c.text("automaton", show_aut(&a));
        c.note("word", words(&w));
        c.note("beam", b);
        if a.runs(&w, 0.0, NODES).is_none() {
            c.label("too large");
            return Ok(());
        }
        if kind == 2 {
            let a = build_tsa(&a);
            full = keys(a.recognise(words(&w)));
            part = keys(a.recognise_beam_search(b, words(&w)));
            wide = keys(a.recognise_beam_search(WIDE, words(&w)));
        } else {
            let a = build_pda(&a);
            full = keys(a.recognise(words(&w)));
            part = keys(a.recognise_beam_search(b, words(&w)));
            wide = keys(a.recognise_beam_search(WIDE, words(&w)));
        }
        what = "free automaton";
    }
    c.label(what);
    if full.len() >= 2 * NODES {
        c.label("too large");
        return Ok(());
    }
    let all: BTreeMap<&String, W> = full.iter().map(|(r, v)| (r, *v)).collect();
    for (name, some) in &[("beam", &part), ("wide beam", &wide)] {
        let mut seen = BTreeSet::new();
        for (r, v) in some.iter() {
            match all.get(r) {
                None => return Err(format!("{}: returns a run that the exhaustive recogniser does not: {}", name, r)),
                Some(x) => ensure!(close(*v, *x), "{}: weight {} instead of {} for {}", name, v, x, r),
            }
            ensure!(seen.insert(r), "{}: returns a run twice: {}", name, r);
        }
        if *name == "wide beam" {
            ensure_eq!(seen.len(), all.len(), "number of runs found with a wide beam");
        }
    }
    c.nontrivial_if(full.len() >= 2 && !part.is_empty());
    c.label(if part.len() < full.len() { "beam cuts" } else { "beam cuts nothing" });
    Ok(())
}

/// What a best-first search over the runs of `a` on `w` finds that never keeps more than `beam` open
/// configurations, the largest number of configurations that were open at once before any was dropped, and
/// whether two of the same weight were open; `None` if that depends on the order of configurations of the same weight, or takes too long.
fn beam_model(a: &Aut, w: &[usize], beam: usize, mut nodes: usize) -> Option<(Vec<Vec<usize>>, usize, bool)> {
    let same = |x: f64, y: f64| x == y || x.is_finite() && y.is_finite() && (x - y).abs() <= 1e-9 * x.abs().max(y.abs());
    let mut open = vec![(1.0f64, 0usize, a.init.clone(), vec![])];
    let (mut out, mut most, mut cut, mut tied) = (vec![], 1, false, false);
    while !open.is_empty() {
        if nodes == 0 {
            return None;
        }
        nodes -= 1;
        open.sort_by(|x, y| y.0.partial_cmp(&x.0).unwrap());
        if open.len() > 1 && same(open[0].0, open[1].0) {
            tied = true;
        }
        let (v, at, s, run): (f64, usize, Store, Vec<usize>) = open.remove(0);
        if at == w.len() && a.accepts(&s) {
            out.push(run.clone());
        }
        for (k, t) in a.trs.iter().enumerate() {
            if !w[at..].starts_with(&t.word) {
                continue;
            }
            if let Some(s) = apply(&t.ins, &s) {
                let mut run = run.clone();
                run.push(k);
                open.push((v * t.w, at + t.word.len(), s, run));
            }
        }
        most = most.max(open.len());
        if open.len() > beam {
            open.sort_by(|x, y| y.0.partial_cmp(&x.0).unwrap());
            if same(open[beam - 1].0, open[beam].0) {
                return None;
            }
            open.truncate(beam);
            cut = true;
        }
        if tied && cut {
            return None;
        }
    }
    Some((out, most, tied))
}
/// the exact result of beam search, which is determined if no two open configurations weigh the same
fn exact_beam(c: &mut Case) -> Res {
    let tsa = c.s.n(2) == 0;
    let mut a = if tsa { gen_tsa(&mut c.s) } else { gen_pda(&mut c.s) };
    if c.s.chance(3, 4) {
        // weights whose products rarely coincide
        let base = [0.93, 0.89, 0.83, 0.79, 0.73, 0.71, 0.67, 0.61, 0.59, 0.53, 0.47, 0.43];
        let shift = c.s.n(base.len());
        for (k, t) in a.trs.iter_mut().enumerate() {
            t.w = base[(k + shift) % base.len()];
        }
    }
    let mut split = None;
    if !tsa {
        split = a.split(&mut c.s);
    }
    if tsa && a.double(&mut c.s) || split.is_some() {
        c.label("transitions that differ in weight only");
    }
    let w = gen_aut_word(&mut c.s, &a, 6);
    let few = c.s.range(1, 4);
    let slack = c.s.weighted(&[4, 1, 1]);
    c.text("automaton", show_aut(&a));
    c.note("word", words(&w));
    if a.runs(&w, 0.0, NODES).is_none() {
        c.label("too large");
        return Ok(());
    }
    let (all, most) = match beam_model(&a, &w, usize::max_value(), 4 * NODES) {
        Some((all, most, _)) => (all, most),
        None => {
            c.label("too large");
            return Ok(());
        }
    };
    for &(beam, name) in &[(most + slack, "as wide as needed"), (few, "narrow")] {
        c.note("beam", beam);
        let runs = if tsa {
            let x = build_tsa(&a);
            let r = read_runs(&a, tsa_ins, tree_store, &w, x.recognise_beam_search(beam, words(&w)).take(4 * NODES))?;
            r
        } else {
            let x = build_pda(split.as_ref().unwrap_or(&a));
            let r = read_runs(&a, pda_ins, stack_store, &w, x.recognise_beam_search(beam, words(&w)).take(4 * NODES))?;
            r
        };
        let mut got: Vec<Vec<usize>> = runs.into_iter().map(|(r, _, _)| r).collect();
        let model = beam_model(&a, &w, beam, 4 * NODES);
        let mut want = match model {
            Some((x, _, false)) => x,
            _ => {
                // other orders of configurations of the same weight may need more room
                c.label("ties");
                continue;
            }
        };
        let cut = want.len() < all.len();
        got.sort();
        want.sort();
        ensure_eq!(got, want, "runs found with a beam of {} ({}; at most {} configurations are open at once)", beam, name, most);
        c.label(if cut { "beam cuts runs" } else { "beam cuts no runs" });
        c.nontrivial_if(!all.is_empty() && (cut || beam == most && most >= 2));
    }
    Ok(())
}

// ---------------------------------------------------------------- storages
fn tree_stack_model(c: &mut Case) -> Res {
    let mut t: TreeStack<usize> = TreeStack::new(0);
    let mut m: BTreeMap<Vec<usize>, usize> = Some((vec![], 0)).into_iter().collect();
    let mut p: Vec<usize> = vec![];
    let n = c.s.tail(1, if c.thorough { 60 } else { 25 }, 150);
    let far = c.s.tail(4, 4, 20);
    let mut log = vec![];
    let mut moves = 0;
    let bushy = c.s.chance(1, 60);
    for _ in 0..n {
        let op = c.s.weighted(if bushy { &[2, 1, 8, 0, 0, 8, 0] } else { &[4, 3, 4, 2, 1, 1, 1] });
        let (k, v) = (c.s.n(far), c.s.n(5));
        let mut q = p.clone();
        q.push(k);
        let res: Result<TreeStack<usize>, TreeStack<usize>>;
        let fits;
        match op {
            0 => {
                log.push(format!("push {} {}", k, v));
                res = t.push(k, v);
                fits = !m.contains_key(&q);
                if fits {
                    m.insert(q.clone(), v);
                    p = q;
                }
            }
            1 => {
                log.push(format!("up {}", k));
                res = t.up(k);
                fits = m.contains_key(&q);
                if fits {
                    p = q;
                    moves += 1;
                }
            }
            2 => {
                log.push("down".into());
                res = t.down();
                fits = !p.is_empty();
                if fits {
                    p.pop();
                    moves += 1;
                }
            }
            3 => {
                log.push(format!("set {}", v));
                res = Ok(t.set(v));
                fits = true;
                m.insert(p.clone(), v);
            }
            4 => {
                log.push(format!("push_with {} {}", k, v));
                res = t.push_with(k, || v);
                fits = !m.contains_key(&q);
                if fits {
                    m.insert(q.clone(), v);
                    p = q;
                }
            }
            5 => {
                log.push(format!("push_next {}", v));
                res = Ok(t.push_next(v));
                fits = true;
                let mut i = 0;
                loop {
                    q = p.clone();
                    q.push(i);
                    if !m.contains_key(&q) {
                        break;
                    }
                    i += 1;
                }
                m.insert(q.clone(), v);
                p = q;
            }
            _ => {
                log.push("ups, map".into());
                fits = true;
                let got: BTreeSet<Store> = t.clone().ups().iter().map(|x| { let (a, b) = x.to_tree(); Store::Tree(a.into_iter().collect(), b) }).collect();
                let want: BTreeSet<Store> = m
                    .keys()
                    .filter(|a| a.len() == p.len() + 1 && a.starts_with(&p))
                    .map(|a| Store::Tree(m.clone(), a.clone()))
                    .collect();
                ensure_eq!(got, want, "the tree stacks one step up after {:?}", log);
                let mapped = t.map(&mut |x| x + 10);
                let (a, b) = mapped.to_tree();
                let a: BTreeMap<_, _> = a.into_iter().collect();
                ensure_eq!(a, m.iter().map(|(k, v)| (k.clone(), v + 10)).collect(), "relabelled tree after {:?}", log);
                ensure_eq!(b, p, "pointer of the relabelled tree after {:?}", log);
                let lim = v;
                // only the subtree at the pointer is inspected
                let sub = m.iter().filter(|(a, _)| a.starts_with(&p)).all(|(_, x)| *x <= lim);
                ensure_eq!(t.all(&|x| *x <= lim), sub, "all labels at or above the pointer ≤ {} after {:?}", lim, log);
                res = Ok(t.clone());
            }
        }
        ensure_eq!(res.is_ok(), fits, "success of the last of {:?}", log);
        t = match res {
            Ok(x) => x,
            Err(x) => x,
        };
        let (a, b) = t.to_tree();
        let a: BTreeMap<_, _> = a.into_iter().collect();
        ensure_eq!(a, m, "nodes and labels after {:?}", log);
        ensure_eq!(b, p, "pointer after {:?}", log);
        ensure_eq!(t.is_at_bottom(), p.is_empty(), "is_at_bottom after {:?}", log);
        ensure_eq!(*t.current_symbol(), m[&p], "current symbol after {:?}", log);
    }
    c.note("operations", &log);
    c.nontrivial_if(m.len() >= 3 && moves >= 1);
    Ok(())
}
fn tree_stack_instr(c: &mut Case) -> Res {
    // a tree stack and instructions near it
    let mut t: TreeStack<usize> = TreeStack::new(c.s.n(2));
    let n = c.s.range(0, 8);
    for _ in 0..n {
        let (op, k, v) = (c.s.weighted(&[4, 2, 3]), c.s.tail(0, 2, 14), c.s.n(2));
        let r = match op {
            0 => t.push(k, v),
            1 => t.up(k),
            _ => t.down(),
        };
        t = match r {
            Ok(x) | Err(x) => x,
        };
    }
    let (a, p) = t.to_tree();
    let s = Store::Tree(a.into_iter().collect(), p);
    let m = c.s.range(1, 6);
    let mut ins = vec![];
    for _ in 0..m {
        let (k, x, y, z) = (c.s.n(3), c.s.n(2), c.s.n(2), c.s.n(2));
        ins.push(match c.s.n(3) {
            0 => Push(k, x, y),
            1 => Up(k, x, y, z),
            _ => Down(x, y, z),
        });
    }
    c.note("tree stack", &s);
    c.note("instructions", &ins);
    let mut hit = false;
    for i in &ins {
        let j: TreeStackInstruction<usize> = match i {
            Up(n, c, o, v) => TreeStackInstruction::Up { n: *n, current_val: *c, old_val: *o, new_val: *v },
            Push(n, c, v) => TreeStackInstruction::Push { n: *n, current_val: *c, new_val: *v },
            Down(c, o, v) => TreeStackInstruction::Down { current_val: *c, old_val: *o, new_val: *v },
            _ => unreachable!(),
        };
        let got: Vec<Store> = j.apply(t.clone()).iter().map(|x| { let (a, b) = x.to_tree(); Store::Tree(a.into_iter().collect(), b) }).collect();
        let want: Vec<Store> = apply(i, &s).into_iter().collect();
        ensure_eq!(got, want, "applying {:?}", j);
        hit |= !want.is_empty();
    }
    c.nontrivial_if(hit);
    Ok(())
}
pub type StackOps = Vec<(usize, usize, usize)>;
pub fn stack_history(s: &mut Src) -> StackOps {
    (0..s.range(0, 6)).map(|_| (s.weighted(&[4, 2, 3, 1]), s.n(3), s.n(2))).collect()
}
/// a history like `h`, up to one operation
pub fn stack_variant(s: &mut Src, h: &StackOps) -> StackOps {
    let mut g = h.clone();
    let i = s.n(h.len() + 1);
    let (op, k, v) = (s.weighted(&[4, 2, 3, 1]), s.n(3), s.n(2));
    if i == h.len() {
        g.push((op, k, v));
    } else {
        match s.n(3) {
            0 => g[i].1 = k,
            1 => g[i].2 = v,
            _ => g[i].0 = op,
        }
    }
    g
}
fn stack_histories(s: &mut Src) -> (StackOps, StackOps) {
    let h = stack_history(s);
    let g = if s.chance(1, 2) { stack_history(s) } else { stack_variant(s, &h) };
    (h, g)
}
/// the tree stack after the operations that succeed
pub fn stack_of(h: &StackOps) -> TreeStack<usize> {
    let mut t = TreeStack::new(0);
    for &(op, k, v) in h {
        let r = match op {
            0 => t.push(k, v),
            1 => t.up(k),
            2 => t.down(),
            _ => Ok(t.set(v)),
        };
        t = match r {
            Ok(x) | Err(x) => x,
        };
    }
    t
}
/// two tree stacks are equal exactly if they have the same nodes, labels and pointer
fn tree_stack_eq(c: &mut Case) -> Res {
    let (h, g) = stack_histories(&mut c.s);
    let (a, b) = (stack_of(&h), stack_of(&g));
    let x = a.to_tree();
    let y = b.to_tree();
    let same = x.1 == y.1 && x.0.clone().into_iter().collect::<BTreeMap<_, _>>() == y.0.clone().into_iter().collect::<BTreeMap<_, _>>();
    c.note("tree stacks", (&x, &y));
    // vacant positions at the end of a child list are not visible in the tree
    if a == b {
        ensure!(same, "tree stacks with different content are equal");
    }
    ensure!(a == a.clone() && a == stack_of(&h), "a tree stack differs from its clone or from one with the same history");
    ensure!((a.cmp(&b) == std::cmp::Ordering::Equal) == (a == b), "comparison and equality disagree");
    ensure!(a.cmp(&b) == b.cmp(&a).reverse(), "comparison is not antisymmetric");
    c.nontrivial_if(x.0.len() >= 2 && y.0.len() >= 2);
    if same {
        c.label("same content");
    }
    Ok(())
}

fn push_down_model(c: &mut Case) -> Res {
    // PushDown: a list with its top at the end
    let n = c.s.tail(1, 5, 40);
    let mut m: Vec<usize> = (0..n).map(|_| c.s.n(3)).collect();
    let mut p = PushDown::from(m.clone());
    let mut log = vec![format!("{:?}", m)];
    let mut hits = 0;
    for _ in 0..c.s.range(1, 12) {
        let use_top = c.s.chance(2, 3);
        let k = c.s.tail(0, m.len().min(3), m.len().min(20));
        let mut cur: Vec<usize> = if use_top { m.iter().rev().take(k).cloned().collect() } else { (0..k).map(|_| c.s.n(3)).collect() };
        if use_top && cur.len() >= 2 && c.s.chance(1, 4) {
            cur.reverse();
        }
        let mut new: Vec<usize> = (0..c.s.small(3)).map(|_| c.s.n(3)).collect();
        if cur.len() == m.len() && new.is_empty() {
            new.push(c.s.n(3)); // a push-down holds at least its bottom symbol
        }
        log.push(format!("replace {:?} by {:?}", cur, new));
        let want = apply(&Replace(cur.clone(), new.clone()), &Store::Stack(m.clone()));
        let i = PushDownInstruction::Replace { current_val: cur.clone(), new_val: new.clone() };
        let got = i.apply(p.clone());
        let direct = p.clone().replace(&cur, &new);
        ensure_eq!(direct.is_ok(), want.is_some(), "success of the last of {:?}", log);
        let after = match direct {
            Ok(x) | Err(x) => x,
        };
        if let Some(Store::Stack(v)) = want {
            m = v;
            hits += 1;
            ensure_eq!(got, vec![after.clone()], "instruction and operation disagree after {:?}", log);
        } else {
            ensure!(got.is_empty(), "the instruction applies after {:?}", log);
        }
        p = after;
        ensure_eq!(p.iter().cloned().collect::<Vec<_>>(), m, "content after {:?}", log);
        ensure_eq!(p.is_bottom(), m.len() == 1, "is_bottom after {:?}", log);
        ensure_eq!((p.current_symbol(), p.empty()), (m.last().unwrap(), &m[0]), "top and bottom after {:?}", log);
        ensure_eq!(p.map(&|x| x + 5), PushDown::from(m.iter().map(|x| x + 5).collect::<Vec<_>>()), "relabelled after {:?}", log);
        let mut calls = vec![];
        let q = p.map_mut(&mut |x| { calls.push(*x); calls.len() });
        ensure_eq!(calls.len(), m.len(), "symbols relabelled after {:?}", log);
        ensure_eq!(q.iter().cloned().collect::<Vec<_>>().len(), m.len(), "size of the relabelled push-down after {:?}", log);
        let other: Vec<usize> = if c.s.chance(1, 3) { m.clone() } else { m.iter().map(|x| if c.s.chance(1, 4) { c.s.n(3) } else { *x }).collect() };
        ensure_eq!(p == PushDown::from(other.clone()), m == other, "equality of {:?} and {:?}", m, other);
    }
    c.note("operations", &log);
    c.nontrivial_if(hits >= 2);
    Ok(())
}
fn shared_push_down_model(c: &mut Case) -> Res {
    let mut versions: Vec<(Pushdown<usize>, Vec<usize>)> = vec![(Pushdown::new(), vec![])];
    let mut log = vec![];
    let n = c.s.range(1, if c.thorough { 60 } else { 25 });
    for _ in 0..n {
        let at = versions.len() - 1 - c.s.n(versions.len().min(4));
        let (p, mut m) = versions[at].clone();
        let v = c.s.n(3);
        let q = match c.s.weighted(&[4, 2, 2, 1, 1]) {
            0 => {
                log.push(format!("v{} push {}", at, v));
                m.push(v);
                p.push(v)
            }
            1 => {
                log.push(format!("v{} pop", at));
                match p.pop() {
                    Ok((q, x)) => {
                        ensure_eq!(Some(x), m.pop(), "popped after {:?}", log);
                        q
                    }
                    Err(q) => {
                        ensure!(m.is_empty(), "popping fails after {:?}", log);
                        q
                    }
                }
            }
            2 => {
                log.push(format!("v{} set {}", at, v));
                match p.set(v) {
                    Ok(q) => {
                        let k = m.len();
                        ensure!(k > 0, "setting the top of an empty push-down succeeds after {:?}", log);
                        m[k - 1] = v;
                        q
                    }
                    Err(q) => {
                        ensure!(m.is_empty(), "setting the top fails after {:?}", log);
                        q
                    }
                }
            }
            3 => {
                log.push(format!("v{} map", at));
                m = m.iter().map(|x| (x + 1) % 3).collect();
                p.map(&mut |x| (x + 1) % 3)
            }
            _ => {
                log.push(format!("v{} from list", at));
                Pushdown::from(&m[..])
            }
        };
        ensure_eq!(q.to_vec(), m, "content after {:?}", log);
        ensure_eq!(q.iter().collect::<Vec<_>>(), m, "iteration after {:?}", log);
        ensure_eq!(Into::<Vec<usize>>::into(q.clone()), m, "list after {:?}", log);
        ensure_eq!((q.is_empty(), q.peek(), q.peek_ref().cloned()), (m.is_empty(), m.last().cloned(), m.last().cloned()), "top after {:?}", log);
        for (k, (p, m1)) in versions.iter().enumerate() {
            ensure_eq!(p.to_vec(), *m1, "version {} changed by {:?}", k, log);
            ensure_eq!(*p == q, *m1 == m, "equality of version {} and the newest after {:?}", k, log);
        }
        versions.push((q, m));
    }
    c.note("operations", &log);
    c.nontrivial_if(versions.iter().any(|v| v.1.len() >= 2));
    Ok(())
}

// ---------------------------------------------------------------- finite-state automata
pub fn gen_fsa(s: &mut Src) -> Aut {
    let n = s.tail(1, 4, 13);
    let mut a = Aut { trs: vec![], init: Store::State(s.n(n)), finals: vec![] };
    let f = s.range(1, n);
    let p = s.perm(n);
    a.finals = p[..f].to_vec();
    let loops = s.chance(1, 3);
    for _ in 0..s.tail(0, 9, 30) {
        let (x, y) = (s.n(n), s.n(n));
        let word = word_of(s, if x < y || loops { 0 } else { 1 }, 2);
        let w = if word.is_empty() { *s.pick(&[0.5, 0.25, 0.1]) } else { odd_weight(s) };
        a.add(Tr { word, ins: Step(x, y), w });
    }
    a
}
pub fn step(i: &Ins) -> FiniteStateInstruction<usize> {
    match i {
        Step(p, q) => format!("{} → {}", p, q).parse().unwrap(),
        _ => unreachable!(),
    }
}
/// `text` is one of the legal layouts
pub fn aut_text(s: &mut Src, a: &Aut) -> String {
    let b = |s: &mut Src| *s.pick(&["", " ", "  ", "\t"]);
    let one = |s: &mut Src| *s.pick(&[" ", "  ", "\t"]);
    let pad = |s: &mut Src| *s.pick(&["", " ", "\t", "  "]);
    let q = |s: &mut Src, t: String| if s.chance(1, 3) { format!("\"{}\"", t) } else { t };
    let mut lines = vec![];
    let (i, finals) = match a.init {
        Store::State(k) => (k.to_string(), Some(a.finals.iter().map(|k| k.to_string()).collect::<Vec<_>>())),
        _ => (sym(0), None),
    };
    let cm = *s.pick(&["", " % c", "% c"]);
    lines.push(format!("{}initial:{}{}{}{}", pad(s), b(s), q(s, i), if cm == "" { pad(s) } else { "" }, cm));
    if let Some(f) = finals {
        let mut t = format!("{}final:{}[{}", pad(s), b(s), b(s));
        for (k, x) in f.into_iter().enumerate() {
            if k > 0 {
                t += ",";
                t += b(s);
            }
            t += &q(s, x);
            t += *s.pick(&["", " "]);
        }
        lines.push(t + "]" + *s.pick(&["", " ", " % c"]));
    }
    for t in &a.trs {
        let mut l = format!("{}Transition{}[{}", pad(s), b(s), *s.pick(&["", " "]));
        for (k, x) in t.word.iter().enumerate() {
            if k > 0 {
                l += ",";
                l += b(s);
            }
            l += &q(s, term(*x));
            l += *s.pick(&["", " "]);
        }
        let ins = match t.ins {
            Up(n, c, o, v) => vec!["Up".into(), n.to_string(), sym(c), sym(o), sym(v)],
            Push(n, c, v) => vec!["Push".into(), n.to_string(), sym(c), sym(v)],
            Down(c, o, v) => vec!["Down".into(), sym(c), sym(o), sym(v)],
            Step(x, y) => vec![x.to_string(), s.pick(&["->", "→"]).to_string(), y.to_string()],
            Replace(..) => unreachable!(),
        };
        l += "]";
        l += b(s);
        l += "(";
        l += b(s);
        for (k, x) in ins.iter().enumerate() {
            if k > 0 {
                l += one(s);
            }
            l += x;
        }
        l += b(s);
        l += ")";
        if t.w != 1.0 || s.chance(1, 2) {
            l += b(s);
            l += "#";
            l += b(s);
            l += &format!("{}", t.w);
        }
        l += *s.pick(&["", "", " ", " % comment", "% comment", "\t% c # 3"]);
        lines.push(l);
    }
    // declarations may come anywhere
    if s.chance(1, 3) {
        let p = s.perm(lines.len());
        lines = p.into_iter().map(|k| lines[k].clone()).collect();
    }
    let mut out = String::new();
    for l in lines {
        for _ in 0..s.small(2) {
            out += *s.pick(&["", "% comment", "  % Transition [a] (0 → 1)", " ", "\t "]);
            out += "\n";
        }
        out += &l;
        out += "\n";
    }
    if s.chance(1, 3) {
        out += *s.pick(&["\n", "% end", "  "]);
    }
    out
}
/// the weights as the recogniser of the same type as the grammar's
type Fsa = FiniteStateAutomaton<usize, String, W>;
fn fsa_runs(c: &mut Case) -> Res {
    let mut a = gen_fsa(&mut c.s);
    if a.double(&mut c.s) {
        c.label("transitions that differ in weight only");
    }
    let w = gen_aut_word(&mut c.s, &a, 6);
    let text = aut_text(&mut c.s, &a);
    c.text("automaton", &text);
    c.note("word", words(&w));
    let loops = a.trs.iter().any(|t| if let Step(x, y) = t.ins { t.word.is_empty() && x >= y } else { false });
    let least = if loops { 0.01 } else { 0.0 };
    let want = match a.runs(&w, least, NODES) {
        Some(r) => r,
        None => {
            c.label("too large");
            return Ok(());
        }
    };
    let b: Fsa = text.parse().map_err(|e| format!("the text is refused: {}", e))?;
    let st = |q: &usize| Store::State(*q);
    if !loops {
        let got = read_runs(&a, step, st, &w, recognise(&b, words(&w)).take(NODES))?;
        same_runs(&got, &want, true)?;
        let beam = c.s.range(1, 4);
        let some = read_runs(&a, step, st, &w, recognise_beam(&b, beam, words(&w)).take(NODES))?;
        let all: BTreeSet<&Vec<usize>> = got.iter().map(|x| &x.0).collect();
        for (r, _, _) in &some {
            ensure!(all.contains(r), "beam search returns {:?}, the exhaustive recogniser does not", r);
        }
        ensure_eq!(some.len(), some.iter().map(|x| &x.0).collect::<BTreeSet<_>>().len(), "beam search repeats a run");
    } else {
        // at least these exist, so that asking for them ends
        let k = want.len().min(12);
        let got = read_runs(&a, step, st, &w, recognise(&b, words(&w)).take(k))?;
        ensure_eq!(got.len(), k, "number of runs");
        ensure_eq!(got.iter().map(|x| &x.0).collect::<BTreeSet<_>>().len(), k, "a run is repeated");
        for (r, s, _) in &got {
            let mut x = a.init.clone();
            for t in r {
                x = apply(&a.trs[*t].ins, &x).ok_or(format!("{:?} is no path", r))?;
            }
            ensure!(x == *s && a.accepts(&x), "the path {:?} does not end in the final state {:?}", r, s);
        }
        let mut known: Vec<f64> = want.iter().map(|r| a.weight(&r.0)).collect();
        best_of(&got.iter().map(|x| x.2).collect::<Vec<_>>(), &mut known, true)?;
        c.label("empty-word loops");
    }
    c.nontrivial_if(want.iter().any(|r| r.0.len() >= 2));
    c.label(if want.is_empty() { "rejected" } else { "accepted" });
    if want.len() >= 2 {
        c.label("several paths");
    }
    Ok(())
}
/// deterministic automata and long words
fn fsa_long(c: &mut Case) -> Res {
    let n = c.s.tail(2, 8, 60);
    let letters = c.s.range(1, 3);
    let mut a = Aut { trs: vec![], init: Store::State(c.s.n(n)), finals: vec![] };
    let mut by = BTreeMap::new();
    for q in 0..n {
        for x in 0..letters {
            if c.s.chance(7, 8) {
                let mut word = vec![x];
                if c.s.chance(1, 5) {
                    word.push(c.s.n(letters))
                }
                let to = c.s.n(n);
                by.insert((q, x), a.trs.len());
                a.trs.push(Tr { word, ins: Step(q, to), w: *c.s.pick(&[1.0, 0.5, 0.25, 0.9, 0.1]) });
            }
        }
    }
    let most = if c.s.chance(1, 6) { 120 } else { 20 };
    let steps = c.s.range(1, most);
    let mut q = if let Store::State(q) = a.init { q } else { unreachable!() };
    let mut w = vec![];
    let mut path = vec![];
    let mut open = true;
    for _ in 0..steps {
        let x = c.s.n(letters);
        match by.get(&(q, x)) {
            Some(k) => {
                path.push(*k);
                w.extend(&a.trs[*k].word);
                q = if let Step(_, y) = a.trs[*k].ins { y } else { unreachable!() };
            }
            None => {
                if c.s.chance(1, 8) {
                    w.push(x);
                    open = false;
                    break;
                }
            }
        }
    }
    let p = c.s.perm(n);
    let f = c.s.range(1, n);
    a.finals = p[..f].to_vec();
    if open && c.s.chance(3, 4) && !a.finals.contains(&q) {
        a.finals.push(q)
    }
    let inside = open && a.finals.contains(&q);
    let text = aut_text(&mut c.s, &a);
    c.text("automaton", &text);
    c.note("word", words(&w).concat());
    let b: Fsa = text.parse().map_err(|e| format!("the text is refused: {}", e))?;
    let st = |q: &usize| Store::State(*q);
    let got = read_runs(&a, step, st, &w, recognise(&b, words(&w)))?;
    let beam = read_runs(&a, step, st, &w, recognise_beam(&b, 1, words(&w)))?;
    for (what, got) in &[("recogniser", &got), ("beam search", &beam)] {
        if inside {
            ensure_eq!(got.len(), 1, "{}: number of runs", what);
            ensure_eq!(got[0].0, path, "{}: run", what);
            let x: f64 = path.iter().map(|k| a.trs[*k].w.ln()).sum();
            ensure!(closef(got[0].2.ln(), x), "{}: weight {} instead of e^{}", what, got[0].2, x);
        } else {
            ensure!(got.is_empty(), "{}: a word without a path is accepted", what);
        }
    }
    c.nontrivial_if(w.len() > 20);
    c.label(if inside { "accepted" } else { "rejected" });
    Ok(())
}

// ---------------------------------------------------------------- texts and encodings
fn transitions_of<I: Debug, T: Debug>(it: impl Iterator<Item = Transition<I, T, W>>) -> BTreeMap<String, i64> {
    let mut m = BTreeMap::new();
    for t in it {
        *m.entry(format!("{:?} {:?} {:.9}", t.word, t.instruction, ln(t.weight))).or_insert(0) += 1;
    }
    m
}
fn tsa_text(c: &mut Case) -> Res {
    let a = gen_tsa(&mut c.s);
    let w = gen_aut_word(&mut c.s, &a, 6);
    let text = aut_text(&mut c.s, &a);
    c.text("text", &text);
    c.note("word", words(&w));
    let b: FreeTsa = text.parse().map_err(|e| format!("the text is refused: {}", e))?;
    let direct = build_tsa(&a);
    let want = transitions_of(a.trs.iter().map(|t| trans(t, tsa_ins)));
    ensure_eq!(transitions_of(b.list_transitions()), want, "transitions read");
    ensure_eq!(transitions_of(direct.list_transitions()), want, "transitions kept");
    ensure_eq!(Automaton::initial(&b), TreeStack::new(sym(0)), "initial tree stack");
    let printed = b.to_string();
    let again: FreeTsa = printed.parse().map_err(|e| format!("the printed automaton is refused: {}\n{}", e, printed))?;
    ensure_eq!(transitions_of(again.list_transitions()), want, "transitions after printing\n{}", printed);
    ensure_eq!(Automaton::initial(&again), TreeStack::new(sym(0)), "initial tree stack after printing\n{}", printed);
    let rebuilt = FreeTsa::from_transitions(b.list_transitions(), Automaton::initial(&b));
    let runs = match a.runs(&w, 0.0, NODES) {
        Some(r) => r,
        None => {
            c.label("too large");
            return Ok(());
        }
    };
    for (name, x) in &[("read", &b), ("direct", &direct), ("rebuilt", &rebuilt), ("printed", &again)] {
        let got = read_runs(&a, tsa_ins, tree_store, &w, x.recognise(words(&w)).take(NODES)).map_err(|e| format!("{}: {}", name, e))?;
        same_runs(&got, &runs, true).map_err(|e| format!("{} automaton: {}", name, e))?;
    }
    c.nontrivial_if(a.trs.len() >= 2);
    if !runs.is_empty() {
        c.label("accepted");
    }
    Ok(())
}
fn fsa_text(c: &mut Case) -> Res {
    let a = gen_fsa(&mut c.s);
    let text = aut_text(&mut c.s, &a);
    let w = gen_aut_word(&mut c.s, &a, 5);
    c.text("text", &text);
    c.note("word", words(&w));
    let b: Fsa = text.parse().map_err(|e| format!("the text is refused: {}", e))?;
    let want = transitions_of(a.trs.iter().map(|t| trans(t, step)));
    ensure_eq!(transitions_of(b.list_transitions()), want, "transitions read");
    let init = match a.init {
        Store::State(k) => k,
        _ => unreachable!(),
    };
    ensure_eq!(Automaton::initial(&b), init, "initial state");
    let printed = b.to_string();
    let again: Fsa = printed.parse().map_err(|e| format!("the printed automaton is refused: {}\n{}", e, printed))?;
    ensure_eq!(transitions_of(again.list_transitions()), want, "transitions after printing\n{}", printed);
    let direct = Fsa::new(a.trs.iter().map(|t| trans(t, step)), init, a.finals.clone());
    let loops = a.trs.iter().any(|t| if let Step(x, y) = t.ins { t.word.is_empty() && x >= y } else { false });
    if !loops {
        if let Some(runs) = a.runs(&w, 0.0, NODES) {
            for (name, x) in &[("direct", &direct), ("printed", &again), ("read", &b)] {
                let got = read_runs(&a, step, |q: &usize| Store::State(*q), &w, recognise(*x, words(&w)).take(NODES)).map_err(|e| format!("{}: {}", name, e))?;
                same_runs(&got, &runs, true).map_err(|e| format!("{} automaton: {}", name, e))?;
            }
            if !runs.is_empty() {
                c.label("accepted");
            }
        }
    }
    c.nontrivial_if(a.trs.len() >= 2);
    Ok(())
}
/// the printed automaton lists the transitions
fn printed_pda(a: &Aut, text: &str) -> Res {
    let mut lines = text.lines().map(|l| l.split_whitespace().collect::<Vec<_>>().join(" ")).filter(|l| !l.is_empty());
    let first = lines.next().unwrap_or_default();
    ensure!(first.starts_with("initial:"), "the printed automaton starts with {:?}", first);
    let (got, weights): (Vec<String>, Vec<String>) = lines
        .map(|l| match l.rfind('#') {
            Some(k) => (l[..k].trim().to_string(), l[k + 1..].trim().to_string()),
            None => (l, String::new()),
        })
        .unzip();
    let list = |x: &[usize]| x.iter().map(|k| format!("\"{}\"", sym(*k))).collect::<Vec<_>>().join(", ");
    ensure_eq!(got.len(), a.trs.len(), "number of transitions in\n{}", text);
    for t in &a.trs {
        let (x, y) = match &t.ins {
            Replace(x, y) => (x, y),
            _ => unreachable!(),
        };
        let want = format!("Transition {:?} (Replace {} // {})", words(&t.word), list(x), list(y)).split_whitespace().collect::<Vec<_>>().join(" ");
        match got.iter().position(|l| *l == want) {
            Some(k) => {
                let v: f64 = weights[k].parse().map_err(|_| format!("weight {:?}", weights[k]))?;
                ensure!(relf(v, t.w), "{} is printed with weight {} instead of {}", want, v, t.w)
            }
            None => return Err(format!("{} is not in the printed automaton\n{}", want, text)),
        }
    }
    Ok(())
}
fn rebuild(c: &mut Case) -> Res {
    // automata of grammars and free push-down automata, read off and built again
    match c.s.n(3) {
        0 => {
            let o = guarded(&mut c.s, 4, true);
            let g = G::generate(&mut c.s, &o);
            let w = g.gen_word(&mut c.s, 6, o.terms);
            c.text("grammar", show(&g));
            c.note("word", words(&w));
            if Parser::new(&g, &w, LIMIT).too_many() {
                c.label("too many derivations");
                return Ok(());
            }
            let a = Tsa::from(pmcfg(&g));
            let b = Tsa::from_transitions(Automaton::transitions(&a), Automaton::initial(&a));
            ensure_eq!(transitions_of(b.list_transitions()), transitions_of(a.list_transitions()), "transitions");
            let map = a.transitions();
            let n: usize = map.values().map(|h| h.len()).sum();
            ensure_eq!(n, a.list_transitions().count(), "number of transitions in the map");
            for (k, h) in &map {
                for t in h {
                    let cur = match t.instruction {
                        TreeStackInstruction::Up { ref current_val, .. } | TreeStackInstruction::Push { ref current_val, .. } | TreeStackInstruction::Down { ref current_val, .. } => current_val,
                    };
                    ensure_eq!(cur, k, "a transition is filed under another label");
                }
            }
            let runs = |x: &Tsa| -> Vec<(String, String)> {
                let mut v: Vec<_> = x.recognise(words(&w)).take(NODES).map(|Item(c, r)| (format!("{:?}", r.to_vec()), format!("{:?}", c.storage.to_tree()))).collect();
                v.sort();
                v
            };
            let (x, y) = (runs(&a), runs(&b));
            ensure_eq!(y.len(), x.len(), "number of runs of the rebuilt automaton");
            ensure!(y == x, "the rebuilt automaton has other runs");
            c.nontrivial_if(!x.is_empty());
        }
        1 => {
            let o = guarded(&mut c.s, 5, true);
            let g = gen_cf(&mut c.s, &o);
            let w = g.gen_word(&mut c.s, 7, o.terms);
            c.text("grammar", show(&g));
            c.note("word", words(&w));
            if Parser::new(&g, &w, LIMIT).too_many() {
                c.label("too many derivations");
                return Ok(());
            }
            let a = Pda::from(cfg(&g));
            let b = Pda::from_transitions(Automaton::transitions(&a), Automaton::initial(&a));
            ensure_eq!(transitions_of(b.list_transitions()), transitions_of(a.list_transitions()), "transitions");
            ensure_eq!(Automaton::initial(&b), Automaton::initial(&a), "initial push-down");
            let runs = |x: &Pda| -> Vec<String> {
                let mut v: Vec<_> = x.recognise(words(&w)).take(NODES).map(|Item(_, r)| format!("{:?}", r.to_vec().into_iter().map(|t| (t.word, t.instruction)).collect::<Vec<_>>())).collect();
                v.sort();
                v
            };
            let (x, y) = (runs(&a), runs(&b));
            ensure_eq!(y.len(), x.len(), "number of runs of the rebuilt automaton");
            ensure!(y == x, "the rebuilt automaton has other runs");
            c.nontrivial_if(!x.is_empty());
        }
        _ => {
            let a = gen_pda(&mut c.s);
            let w = gen_aut_word(&mut c.s, &a, 7);
            c.text("automaton", show_aut(&a));
            c.note("word", words(&w));
            let b = build_pda(&a);
            let want = transitions_of(a.trs.iter().map(|t| trans(t, pda_ins)));
            ensure_eq!(transitions_of(b.list_transitions()), want, "transitions kept");
            printed_pda(&a, &b.to_string())?;
            let r = FreePda::from_transitions(Automaton::transitions(&b), Automaton::initial(&b));
            ensure_eq!(transitions_of(r.list_transitions()), want, "transitions of the rebuilt automaton");
            if let Some(runs) = a.runs(&w, 0.0, NODES) {
                let got = read_runs(&a, pda_ins, stack_store, &w, r.recognise(words(&w)).take(NODES))?;
                same_runs(&got, &runs, true)?;
                c.nontrivial_if(!runs.is_empty());
            }
        }
    }
    Ok(())
}
/// internal numbers stand for exactly the symbols they were given for
fn encodings(c: &mut Case) -> Res {
    let n = c.s.range(1, 6);
    let v: Vec<usize> = (0..n).map(|_| c.s.n(4)).collect();
    c.note("symbols", &v);
    let mut h: HashIntegeriser<usize> = HashIntegeriser::new();
    let p = Pushdown::from(&v[..]);
    let i = p.integerise(&mut h);
    ensure_eq!(Pushdown::un_integerise(&i, &h), p, "push-down after encoding and decoding");
    let q = PushDown::from(v.clone());
    let i = q.integerise(&mut h);
    ensure_eq!(PushDown::un_integerise(&i, &h), q, "push-down storage after encoding and decoding");
    let codes: Vec<usize> = i.iter().cloned().collect();
    for x in 0..n {
        for y in 0..n {
            ensure_eq!(codes[x] == codes[y], v[x] == v[y], "codes {:?} of {:?}", codes, v);
        }
    }
    c.nontrivial_if(v.iter().collect::<BTreeSet<_>>().len() >= 2);
    Ok(())
}
#[allow(unused)]
fn unused(_: Configuration<(), (), ()>) {}

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "A01",
            rule: "the word has a derivation with at least two rules",
            assumptions: &["linear grammars that leave out no component with variables and whose search terminates (recursion only behind a terminal)", "rules of a grammar are distinct"],
            parts: vec![
                Part { name: "mcfg", quick: 30_000, thorough: 1_200_000, run: tsa_parsing },
                Part { name: "long words", quick: 3_000, thorough: 90_000, run: tsa_long },
            ],
        },
        Prop {
            id: "A02",
            rule: "the word has a derivation with at least two rules",
            assumptions: &["grammars whose search terminates (recursion only behind a terminal)", "rules of a grammar are distinct"],
            parts: vec![
                Part { name: "cfg", quick: 50_000, thorough: 1_000_000, run: pda_parsing },
                Part { name: "long words", quick: 3_000, thorough: 90_000, run: pda_long },
            ],
        },
        Prop {
            id: "A03",
            rule: "at least two results of different weight, or an accepted word with a run of two steps",
            assumptions: &["weights at most one (at least one if reversed)", "weights are compared up to rounding"],
            parts: vec![
                Part { name: "grammars", quick: 15_000, thorough: 750_000, run: tsa_order },
                Part { name: "reversed", quick: 9_000, thorough: 450_000, run: reversed_order },
                Part { name: "tree-stack", quick: 12_000, thorough: 600_000, run: free_tsa_runs },
                Part { name: "push-down", quick: 12_000, thorough: 600_000, run: free_pda_runs },
                Part { name: "one automaton", quick: 15_000, thorough: 750_000, run: one_automaton },
            ],
        },
        Prop {
            id: "A04",
            rule: "at least two runs, of which beam search finds one",
            assumptions: &["beam of at least one"],
            parts: vec![
                Part { name: "beam", quick: 12_000, thorough: 720_000, run: beam_runs },
                Part { name: "exact", quick: 30_000, thorough: 1_800_000, run: exact_beam },
            ],
        },
        Prop {
            id: "A05",
            rule: "three nodes and a move, an instruction that applies, or an accepted word with a run of two steps",
            assumptions: &[],
            parts: vec![
                Part { name: "operations", quick: 150_000, thorough: 9_000_000, run: tree_stack_model },
                Part { name: "instructions", quick: 150_000, thorough: 9_000_000, run: tree_stack_instr },
                Part { name: "equality", quick: 150_000, thorough: 9_000_000, run: tree_stack_eq },
                Part { name: "automata", quick: 90_000, thorough: 5_400_000, run: free_tsa_runs },
            ],
        },
        Prop {
            id: "A06",
            rule: "two replacements apply, two symbols are held, or an accepted word with a run of two steps",
            assumptions: &["a push-down storage always holds its bottom symbol"],
            parts: vec![
                Part { name: "replace", quick: 150_000, thorough: 9_000_000, run: push_down_model },
                Part { name: "shared", quick: 90_000, thorough: 5_400_000, run: shared_push_down_model },
                Part { name: "automata", quick: 90_000, thorough: 5_400_000, run: free_pda_runs },
            ],
        },
        Prop {
            id: "A07",
            rule: "the word has a path with at least two transitions",
            assumptions: &["with loops on the empty word only as many paths are requested as exist above a weight"],
            parts: vec![
                Part { name: "paths", quick: 180_000, thorough: 10_800_000, run: fsa_runs },
                Part { name: "long words", quick: 20_000, thorough: 1_200_000, run: fsa_long },
            ],
        },
        Prop {
            id: "A08",
            rule: "at least two transitions, or an accepted word",
            assumptions: &["labels and terminals of texts are plain tokens"],
            parts: vec![
                Part { name: "tree-stack", quick: 15_000, thorough: 900_000, run: tsa_text },
                Part { name: "finite-state", quick: 15_000, thorough: 900_000, run: fsa_text },
                Part { name: "rebuilt", quick: 12_000, thorough: 720_000, run: rebuild },
                Part { name: "encodings", quick: 12_000, thorough: 720_000, run: encodings },
            ],
        },
    ]
}
