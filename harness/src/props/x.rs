//! Approximation of automata and coarse-to-fine recognition.
use super::a::*;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use num_traits::One;
use rustomata::approximation::equivalence_classes::{EquivalenceClass, EquivalenceRelation};
use rustomata::approximation::relabel::RlbElement;
use rustomata::approximation::tts::TTSElement;
use rustomata::approximation::ApproximationStrategy;
use rustomata::automata::push_down_automaton::*;
use rustomata::automata::tree_stack_automaton::*;
use rustomata::coarse_to_fine_recogniser;
use rustomata::recognisable::automaton::Automaton;
use rustomata::recognisable::coarse_to_fine::CoarseToFineRecogniser;
use rustomata::recognisable::{Instruction, Item, Recognisable, Transition};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::rc::Rc;

/// more runs than this are not enumerated
const NODES: usize = 3000;

/// every component with a variable reads a terminal first: also relabelled, or without its
/// tree-stack, an automaton of the grammar makes only finitely many steps on a word
fn firm(s: &mut Src, g: &mut G, terms: usize) {
    for r in g.rules.iter_mut() {
        for c in r.comp.iter_mut() {
            let vars = c.iter().any(|y| if let Y::V(..) = y { true } else { false });
            let starts = if let Some(Y::T(_)) = c.first() { true } else { false };
            if vars && !starts {
                // rather move a terminal than add one
                match c.iter().position(|y| if let Y::T(_) = y { true } else { false }) {
                    Some(k) if s.chance(1, 2) => {
                        let t = c.remove(k);
                        c.insert(0, t);
                    }
                    _ => c.insert(0, Y::T(s.n(terms))),
                }
            }
        }
    }
    let mut seen = HashSet::new();
    g.rules.retain(|r| seen.insert((r.head, r.tail.clone(), format!("{:?}", r.comp))));
}
pub fn firm_grammar(s: &mut Src, cf: bool) -> (G, Vec<usize>) {
    if !cf && s.chance(1, 60) {
        // one rule for every nonterminal but the initial one
        let mut g = G::broad_cf(s, 14);
        let mut seen = HashSet::new();
        g.rules.retain(|r| r.head == 0 || seen.insert(r.head));
        for r in g.rules.iter_mut() {
            let p = s.perm(r.tail.len());
            let mut tail = r.tail.clone();
            for (i, b) in r.tail.iter().enumerate() {
                tail[p[i]] = *b;
            }
            r.tail = tail;
            for y in r.comp[0].iter_mut() {
                if let Y::V(i, _) = y {
                    *i = p[*i];
                }
            }
        }
        firm(s, &mut g, 2);
        let w = g.broad_word(s);
        return (g, w);
    }
    if s.chance(1, 60) {
        let (g, w, _) = chain(s, cf, 1);
        return (g, w);
    }
    if cf && s.chance(1, 50) {
        let mut g = G::broad_cf(s, 2);
        firm(s, &mut g, 2);
        cf_distinct(&mut g);
        let w = g.broad_word(s);
        return (g, w);
    }
    let eps = s.chance(1, 2);
    let o = GenOpts { max_nts: 5, max_extra: 5, max_rank: 2, max_fan: if cf { 1 } else { 2 }, eps, multi_init: true, ..GenOpts::default() };
    let mut g = G::generate(s, &o);
    maybe_zero(s, &mut g);
    firm(s, &mut g, o.terms);
    if cf {
        cf_distinct(&mut g);
    }
    let w = g.gen_word(s, 6, o.terms);
    (g, w)
}

/// a run as the sequence of what its transitions read and do, with its weight
type Run<I> = (Vec<(Vec<String>, I)>, W);
fn runs<S, I: Clone + Debug>(w: &[usize], it: impl Iterator<Item = Item<S, I, String, W>>) -> Result<Vec<Run<I>>, String> {
    let mut out = vec![];
    for Item(c, r) in it.take(NODES + 1) {
        ensure!(c.word.is_empty(), "a run ends before the input is read: {:?} is left", c.word);
        let ts = r.to_vec();
        let read: Vec<String> = ts.iter().flat_map(|t| t.word.clone()).collect();
        ensure_eq!(read, words(w), "the transitions of a run read another word");
        let p = product(ts.iter().map(|t| t.weight));
        ensure!(close(p, c.weight), "the weight of a run is {}, but its transitions multiply to {}", c.weight, p);
        out.push((ts.into_iter().map(|t| (t.word, t.instruction)).collect(), c.weight));
    }
    Ok(out)
}
/// the run makes moves of the automaton and ends in an accepting storage
fn is_run<S: Clone, I: Instruction<Storage = S> + PartialEq>(trs: &[Transition<I, String, W>], init: &S, end: impl Fn(&S) -> bool, run: &[(Vec<String>, I)]) -> bool {
    let mut s = vec![init.clone()];
    for (w, i) in run {
        if !trs.iter().any(|t| t.word == *w && t.instruction == *i) {
            return false;
        }
        s = s.into_iter().flat_map(|x| i.apply(x)).collect();
    }
    s.iter().any(end)
}
fn texts<I: Debug>(rs: &[Run<I>]) -> Vec<(String, W)> {
    rs.iter().map(|(r, v)| (format!("{:?}", r), *v)).collect()
}
/// the images of all runs of the fine automaton are runs of the coarse one, of at least their weight
fn covers<I: Debug, J: Debug>(fine: &[Run<I>], coarse: &[Run<J>], image: impl Fn(&I) -> J) -> Res {
    let have: HashMap<String, W> = texts(coarse).into_iter().collect();
    for (r, v) in fine {
        let im: Vec<(Vec<String>, J)> = r.iter().map(|(w, i)| (w.clone(), image(i))).collect();
        match have.get(&format!("{:?}", im)) {
            None => return Err(format!("the image of a run is no run of the approximation: {:?}", r)),
            Some(x) => ensure!(!clearly_less(*x, *v), "a run of weight {} has an image of weight {} only: {:?}", v, x, r),
        }
    }
    Ok(())
}
fn distinct<I: Debug>(rs: &[Run<I>]) -> Res {
    let mut seen = BTreeSet::new();
    for (t, _) in texts(rs) {
        ensure!(!seen.contains(&t), "a run is returned twice: {}", t);
        seen.insert(t);
    }
    Ok(())
}
fn same_set<I: Debug>(got: &[Run<I>], want: &[Run<I>], what: &str) -> Res {
    distinct(got)?;
    let w: BTreeMap<String, W> = texts(want).into_iter().collect();
    let g: BTreeMap<String, W> = texts(got).into_iter().collect();
    for (r, v) in &g {
        match w.get(r) {
            None => return Err(format!("{}: this is no run of the automaton on the word: {}", what, r)),
            Some(x) => ensure!(close(*v, *x), "{}: weight {} instead of {} for {}", what, v, x, r),
        }
    }
    for r in w.keys() {
        ensure!(g.contains_key(r), "{}: a run is missing ({} of {} are found): {}", what, g.len(), w.len(), r);
    }
    Ok(())
}
/// the same where several transitions may differ in nothing but their weight
fn same_runs<I: Debug>(got: &[Run<I>], want: &[Run<I>], what: &str) -> Res {
    let by_run = |rs: &[Run<I>]| {
        let mut m: BTreeMap<String, Vec<W>> = BTreeMap::new();
        for (t, v) in texts(rs) {
            m.entry(t).or_default().push(v);
        }
        m.values_mut().for_each(|v| v.sort());
        m
    };
    let (g, w) = (by_run(got), by_run(want));
    for (r, v) in &g {
        match w.get(r) {
            None => return Err(format!("{}: this is no run of the automaton on the word: {}", what, r)),
            Some(x) => ensure!(v.len() == x.len() && v.iter().zip(x).all(|(a, b)| close(*a, *b)), "{}: weights {:?} instead of {:?} for {}", what, v, x, r),
        }
    }
    for r in w.keys() {
        ensure!(g.contains_key(r), "{}: a run is missing ({} of {} are found): {}", what, g.len(), w.len(), r);
    }
    Ok(())
}
/// a copy of some of the rules or transitions with another weight
fn parallel<X: Clone>(s: &mut Src, xs: &mut Vec<X>, weigh: impl Fn(&mut X, f64)) -> bool {
    if xs.is_empty() || !s.chance(1, 5) {
        return false;
    }
    for _ in 0..s.range(1, 2) {
        let mut x = s.pick(&xs[..]).clone();
        let v = *s.pick(&[0.5, 0.25, 0.125, 0.3]);
        weigh(&mut x, v);
        let at = s.n(xs.len() + 1);
        xs.insert(at, x);
    }
    true
}
fn best<I>(rs: &[Run<I>]) -> Option<W> {
    rs.iter().map(|r| r.1).max()
}
fn at_least<I, J>(fine: &[Run<I>], coarse: &[Run<J>]) -> Res {
    if let Some(v) = best(fine) {
        match best(coarse) {
            None => return Err("the word is accepted, but not by the approximation".into()),
            Some(x) => ensure!(!clearly_less(x, v), "the best weight is {}, in the approximation only {}", v, x),
        }
    }
    Ok(())
}

/// a table for renaming n things
fn table(s: &mut Src, n: usize) -> Vec<usize> {
    if s.chance(1, 4) {
        return s.perm(n);
    }
    let k = s.range(1, n.max(1));
    (0..n).map(|_| s.n(k)).collect()
}
fn injective(t: &[usize]) -> bool {
    t.iter().collect::<BTreeSet<_>>().len() == t.len()
}

// ---------------------------------------------------------------- X01
/// a relabelling of the symbols 1.. of a free automaton (0 is the bottom)
fn sym_table(s: &mut Src) -> Vec<usize> {
    let mut t = vec![0];
    t.extend(table(s, 3).into_iter().map(|x| x + 1));
    t
}
fn sym_map(t: &[usize], x: &String) -> String {
    (0..t.len()).find(|k| sym(*k) == *x).map(|k| format!("c{}", t[k])).unwrap_or_else(|| format!("?{}", x))
}
fn relabel_free(c: &mut Case) -> Res {
    let a = gen_pda(&mut c.s);
    let w = gen_aut_word(&mut c.s, &a, 6);
    let t = sym_table(&mut c.s);
    c.text("automaton", show_aut(&a));
    c.note("word", words(&w));
    c.note("new names", &t);
    // the approximation makes the moves of the image of the automaton
    let rel = |v: &[usize]| v.iter().map(|k| t[*k]).collect::<Vec<_>>();
    let mut im = Aut { trs: vec![], init: a.init.clone(), finals: vec![] };
    if let Store::Stack(ref v) = a.init {
        im.init = Store::Stack(rel(v));
    }
    for x in &a.trs {
        let y = match x.ins {
            Ins::Replace(ref u, ref v) => Ins::Replace(rel(u), rel(v)),
            _ => unreachable!(),
        };
        if !im.trs.iter().any(|z| z.word == x.word && z.ins == y) {
            im.trs.push(Tr { word: x.word.clone(), ins: y, w: 1.0 });
        }
    }
    let want = match im.runs(&w, 0.0, NODES) {
        Some(r) => r,
        None => {
            c.label("too large");
            return Ok(());
        }
    };
    let fa = build_pda(&a);
    let fine = runs(&w, fa.recognise(words(&w)))?;
    let mapping = |x: &String| sym_map(&t, x);
    let (fb, inst) = RlbElement::new(&mapping).approximate_automaton(&fa);
    let coarse = runs(&w, fb.recognise(words(&w)))?;
    distinct(&coarse)?;
    // exactly the runs of the image
    let name = |v: &[usize]| v.iter().map(|k| format!("c{}", k)).collect::<Vec<_>>();
    let shown: BTreeSet<String> = want
        .iter()
        .map(|(r, _)| {
            let r: Vec<(Vec<String>, PushDownInstruction<String>)> = r
                .iter()
                .map(|k| {
                    let x = &im.trs[*k];
                    match x.ins {
                        Ins::Replace(ref u, ref v) => (words(&x.word), PushDownInstruction::Replace { current_val: name(u), new_val: name(v) }),
                        _ => unreachable!(),
                    }
                })
                .collect();
            format!("{:?}", r)
        })
        .collect();
    let got: BTreeSet<String> = texts(&coarse).into_iter().map(|x| x.0).collect();
    for r in &got {
        ensure!(shown.contains(r), "the relabelled automaton has a run that is none of its transitions: {}", r);
    }
    for r in &shown {
        ensure!(got.contains(r), "a run of the relabelled automaton is missing: {}", r);
    }
    covers(&fine, &coarse, |i| inst.approximate_instruction(i))?;
    at_least(&fine, &coarse)?;
    if injective(&t) {
        c.label("injective");
        ensure_eq!(coarse.len(), fine.len(), "number of runs after an injective relabelling");
        let image: Vec<Run<_>> = fine.iter().map(|(r, v)| (r.iter().map(|(w, i)| (w.clone(), inst.approximate_instruction(i))).collect(), *v)).collect();
        same_set(&coarse, &image, "injective relabelling")?;
    }
    if fine.is_empty() && !coarse.is_empty() {
        c.label("only the approximation accepts");
    }
    c.label(if fine.is_empty() { "rejected" } else { "accepted" });
    c.nontrivial_if(fine.iter().any(|r| r.0.len() >= 2) && (coarse.len() != fine.len() || injective(&t)) || fine.len() >= 2);
    Ok(())
}
fn relabel_grammar(c: &mut Case) -> Res {
    let (g, w) = firm_grammar(&mut c.s, true);
    let t = table(&mut c.s, g.fan.len());
    c.text("grammar", show(&g));
    c.note("word", words(&w));
    c.note("new nonterminals", &t);
    if Parser::new(&g, &w, 300).too_many() {
        c.label("too many derivations");
        return Ok(());
    }
    let fa = Pda::from(cfg(&g));
    let fine = runs(&w, fa.recognise(words(&w)))?;
    let nts: HashMap<String, usize> = (0..g.fan.len()).map(|k| (nt(k), t[k])).collect();
    let mapping = |x: &PushState<String, String>| x.map(|a| nts[a]);
    let (fb, inst) = RlbElement::new(&mapping).approximate_automaton(&fa);
    let coarse = runs(&w, fb.recognise(words(&w)))?;
    if coarse.len() > NODES {
        c.label("too large");
        return Ok(());
    }
    distinct(&coarse)?;
    let trs: Vec<_> = fa.list_transitions().map(|t| Transition { word: t.word, weight: W::one(), instruction: inst.approximate_instruction(&t.instruction) }).collect();
    let init = inst.approximate_storage(Automaton::initial(&fa));
    for (r, _) in &coarse {
        ensure!(is_run(&trs, &init, |s| s.is_bottom(), r), "the relabelled automaton has a run that its transitions do not allow: {:?}", r);
    }
    // independent of the automata: the derivations of the word
    let mut p = Parser::new(&g, &w, 300);
    let all = p.all();
    ensure!(all.is_empty() || !coarse.is_empty(), "the word has a derivation but is rejected by the approximation");
    if let (Some(v), Some(x)) = (all.iter().map(|t| g.weight(t)).fold(None, |a: Option<f64>, b| Some(a.map_or(b, |a| a.max(b)))), best(&coarse)) {
        ensure!(!clearly_less(x, lw(v)), "the best derivation has weight {}, the best run of the approximation {}", v, x);
    }
    covers(&fine, &coarse, |i| inst.approximate_instruction(i))?;
    at_least(&fine, &coarse)?;
    if injective(&t) {
        c.label("injective");
        let image: Vec<Run<_>> = fine.iter().map(|(r, v)| (r.iter().map(|(w, i)| (w.clone(), inst.approximate_instruction(i))).collect(), *v)).collect();
        same_set(&coarse, &image, "injective relabelling")?;
    }
    if fine.is_empty() && !coarse.is_empty() {
        c.label("only the approximation accepts");
    }
    c.nontrivial_if(all.iter().any(|t| t.size() >= 2));
    Ok(())
}

// ---------------------------------------------------------------- X02
/// approximated moves take approximated storages to approximated storages
fn images<A: Clone + Ord + std::hash::Hash + Debug>(init: TreeStack<A>, run: &[(Vec<String>, TreeStackInstruction<A>)]) -> Res {
    let t: TTSElement<A> = TTSElement::new();
    let st = |x: &TreeStack<A>| -> PushDown<A> { <TTSElement<A> as ApproximationStrategy<String, W>>::approximate_storage(&t, x.clone()) };
    let ins = |x: &TreeStackInstruction<A>| -> PushDownInstruction<A> { <TTSElement<A> as ApproximationStrategy<String, W>>::approximate_instruction(&t, x) };
    let mut s = init;
    for (k, (_, i)) in run.iter().enumerate() {
        let next = i.apply(s.clone());
        ensure_eq!(next.len(), 1, "results of step {} of a run", k);
        let next = next.into_iter().next().unwrap();
        let im = ins(i).apply(st(&s));
        ensure_eq!(im, vec![st(&next)], "step {} of a run and its image lead to different push-downs", k);
        // the approximation keeps the path to the current node
        let (m, p) = next.to_tree();
        let m: BTreeMap<Vec<usize>, A> = m.into_iter().collect();
        let path: Vec<A> = (0..=p.len()).map(|k| m[&p[..k]].clone()).collect();
        ensure_eq!(st(&next), PushDown::from(path), "approximation of a storage");
        s = next;
    }
    Ok(())
}
fn tts_grammar(c: &mut Case) -> Res {
    let (g, w) = firm_grammar(&mut c.s, false);
    c.text("grammar", show(&g));
    c.note("word", words(&w));
    let mut p = Parser::new(&g, &w, 300);
    let all = p.all();
    if p.overflow {
        c.label("too many derivations");
        return Ok(());
    }
    let fa = Tsa::from(pmcfg(&g));
    let fine = runs(&w, fa.recognise(words(&w)))?;
    let (fb, inst) = TTSElement::new().approximate_automaton(&fa);
    let coarse = runs(&w, fb.recognise(words(&w)))?;
    if coarse.len() > NODES {
        c.label("too large");
        return Ok(());
    }
    distinct(&coarse)?;
    ensure!(all.is_empty() || !coarse.is_empty(), "the word has a derivation but is rejected by the approximation");
    if let (Some(v), Some(x)) = (all.iter().map(|t| g.weight(t)).fold(None, |a: Option<f64>, b| Some(a.map_or(b, |a| a.max(b)))), best(&coarse)) {
        ensure!(!clearly_less(x, lw(v)), "the best derivation has weight {}, the best run of the approximation {}", v, x);
    }
    covers(&fine, &coarse, |i| inst.approximate_instruction(i))?;
    at_least(&fine, &coarse)?;
    for (r, _) in &fine {
        images(Automaton::initial(&fa), r)?;
    }
    let trs: Vec<_> = fa.list_transitions().map(|t| Transition { word: t.word, weight: W::one(), instruction: inst.approximate_instruction(&t.instruction) }).collect();
    let init = inst.approximate_storage(Automaton::initial(&fa));
    for (r, _) in coarse.iter().take(200) {
        ensure!(is_run(&trs, &init, |s| s.is_bottom(), r), "the approximation has a run that its transitions do not allow: {:?}", r);
    }
    if all.iter().any(|t| t.addresses().values().any(|r| g.rules[*r].comp.len() > 1)) {
        c.label("discontinuous");
    }
    if coarse.len() > fine.len() {
        c.label("more runs");
    }
    c.nontrivial_if(all.iter().any(|t| t.size() >= 2));
    Ok(())
}
fn tts_free(c: &mut Case) -> Res {
    let a = gen_tsa(&mut c.s);
    let w = gen_aut_word(&mut c.s, &a, 6);
    c.text("automaton", show_aut(&a));
    c.note("word", words(&w));
    let fa = build_tsa(&a);
    let fine_ref = match a.runs(&w, 0.0, NODES) {
        Some(r) => r,
        None => {
            c.label("too large");
            return Ok(());
        }
    };
    // moves up and pushes become the same
    let mut im = Aut { trs: vec![], init: Store::Stack(vec![0]), finals: vec![] };
    for x in &a.trs {
        let y = match x.ins {
            Ins::Push(_, u, v) | Ins::Up(_, u, _, v) => Ins::Replace(vec![u], vec![u, v]),
            Ins::Down(u, o, v) => Ins::Replace(vec![u, o], vec![v]),
            _ => unreachable!(),
        };
        if !im.trs.iter().any(|z| z.word == x.word && z.ins == y) {
            im.trs.push(Tr { word: x.word.clone(), ins: y, w: 1.0 });
        }
    }
    let want = match im.runs(&w, 0.0, NODES) {
        Some(r) => r,
        None => {
            c.label("too large");
            return Ok(());
        }
    };
    let fine = runs(&w, fa.recognise(words(&w)))?;
    ensure_eq!(fine.len(), fine_ref.len(), "number of runs of the tree-stack automaton");
    let (fb, inst) = TTSElement::new().approximate_automaton(&fa);
    let coarse = runs(&w, fb.recognise(words(&w)))?;
    distinct(&coarse)?;
    ensure_eq!(coarse.len(), want.len(), "number of runs of the approximation");
    covers(&fine, &coarse, |i| inst.approximate_instruction(i))?;
    at_least(&fine, &coarse)?;
    for (r, _) in &fine {
        images(Automaton::initial(&fa), r)?;
    }
    if coarse.len() > fine.len() {
        c.label("more runs");
    }
    c.nontrivial_if(fine.iter().any(|r| r.0.len() >= 2));
    Ok(())
}

// ---------------------------------------------------------------- X03
fn weighs_at_most_one<I>(ts: impl Iterator<Item = Transition<I, String, W>>) -> bool {
    ts.into_iter().all(|t| !clearly_less(W::one(), t.weight) && t.weight <= W::one())
}
/// all runs of the fine automaton, each once; best first if the approximations do not exceed weight one
fn refined<I: Debug>(c: &mut Case, fine: &[Run<I>], got: &[Run<I>], ordered: bool, coarse: usize) -> Res {
    if got.len() > NODES || fine.len() > NODES {
        c.label("too large");
        return Ok(());
    }
    same_runs(got, fine, "coarse-to-fine")?;
    if ordered {
        c.label("ordered");
        non_increasing(&got.iter().map(|r| r.1).collect::<Vec<_>>(), "coarse-to-fine")?;
    }
    if coarse > fine.len() {
        c.label("coarse runs without fine ones");
    }
    c.nontrivial_if(fine.iter().any(|r| r.0.len() >= 2) && (fine.len() >= 2 || coarse >= 2));
    Ok(())
}
/// so many coarse runs, with so many fine transitions for each of theirs
fn too_wide<I: Debug>(coarse: &[Run<I>], width: impl Fn(&I) -> usize) -> bool {
    coarse.len() > 300 || coarse.iter().map(|(r, _)| r.iter().map(|(_, i)| width(i) as f64).product::<f64>()).sum::<f64>() > 3000.0
}
fn ctf_free(c: &mut Case) -> Res {
    let mut a = gen_pda(&mut c.s);
    // merged symbols make too many runs of a long word
    for t in &mut a.trs {
        t.word.truncate(2);
    }
    if parallel(&mut c.s, &mut a.trs, |t, w| t.w = w) {
        c.label("transitions that differ in weight only");
    }
    let w = gen_aut_word(&mut c.s, &a, 6);
    let t = sym_table(&mut c.s);
    let t2 = table(&mut c.s, 4);
    let levels = c.s.range(1, 2);
    c.text("automaton", show_aut(&a));
    c.note("word", words(&w));
    c.note("new names", (&t, if levels == 2 { Some(&t2) } else { None }));
    let fa = build_pda(&a);
    if a.runs(&w, 0.0, NODES).is_none() {
        c.label("too large");
        return Ok(());
    }
    let fine = runs(&w, fa.recognise(words(&w)))?;
    let m1 = |x: &String| sym_map(&t, x);
    let m2 = |x: &String| if x == "c0" { "d0".to_string() } else { format!("d{}", 1 + t2[x[1..].parse::<usize>().unwrap()]) };
    let (b1, i1) = RlbElement::new(&m1).approximate_automaton(&fa);
    let (b2, i2) = RlbElement::new(&m2).approximate_automaton(&b1);
    let (coarse, total, ordered): (usize, bool, bool);
    if levels == 1 {
        let r = runs(&w, b1.recognise(words(&w)))?;
        ordered = weighs_at_most_one(b1.list_transitions());
        total = too_wide(&r, |i| a.trs.iter().filter(|t| i1.approximate_instruction(&pda_ins(&t.ins)) == *i).count());
        coarse = r.len();
    } else {
        let r = runs(&w, b2.recognise(words(&w)))?;
        ordered = weighs_at_most_one(b1.list_transitions()) && weighs_at_most_one(b2.list_transitions());
        total = too_wide(&r, |i| a.trs.iter().filter(|t| i2.approximate_instruction(&i1.approximate_instruction(&pda_ins(&t.ins))) == *i).count());
        coarse = r.len();
    }
    if total {
        c.label("too large");
        return Ok(());
    }
    let got = if levels == 1 {
        let r = coarse_to_fine_recogniser!(fa; RlbElement::new(&m1));
        runs(&w, r.recognise(words(&w)))?
    } else {
        let r = coarse_to_fine_recogniser!(fa; RlbElement::new(&m1), RlbElement::new(&m2));
        runs(&w, r.recognise(words(&w)))?
    };
    refined(c, &fine, &got, ordered, coarse)
}
fn ctf_cfg(c: &mut Case) -> Res {
    let (mut g, w) = firm_grammar(&mut c.s, true);
    if parallel(&mut c.s, &mut g.rules, |r, w| r.w = w) {
        c.label("rules that differ in weight only");
    }
    let t = table(&mut c.s, g.fan.len());
    let t2 = table(&mut c.s, g.fan.len());
    let levels = c.s.range(1, 2);
    c.text("grammar", show(&g));
    c.note("word", words(&w));
    c.note("new nonterminals", (&t, if levels == 2 { Some(&t2) } else { None }));
    if Parser::new(&g, &w, 200).too_many() {
        c.label("too many derivations");
        return Ok(());
    }
    let fa = Pda::from(cfg(&g));
    let fine = runs(&w, fa.recognise(words(&w)))?;
    let nts: HashMap<String, usize> = (0..g.fan.len()).map(|k| (nt(k), t[k])).collect();
    let m1 = |x: &PushState<String, String>| x.map(|a| nts[a]);
    let m2 = |x: &PushState<usize, String>| x.map(|a| t2[*a]);
    let (b1, i1) = RlbElement::new(&m1).approximate_automaton(&fa);
    let (b2, i2) = RlbElement::new(&m2).approximate_automaton(&b1);
    let ts: Vec<_> = fa.list_transitions().collect();
    let (coarse, total, ordered): (usize, bool, bool);
    if levels == 1 {
        let r = runs(&w, b1.recognise(words(&w)))?;
        ordered = weighs_at_most_one(b1.list_transitions());
        total = too_wide(&r, |i| ts.iter().filter(|t| i1.approximate_instruction(&t.instruction) == *i).count());
        coarse = r.len();
    } else {
        let r = runs(&w, b2.recognise(words(&w)))?;
        ordered = weighs_at_most_one(b1.list_transitions()) && weighs_at_most_one(b2.list_transitions());
        total = too_wide(&r, |i| ts.iter().filter(|t| i2.approximate_instruction(&i1.approximate_instruction(&t.instruction)) == *i).count());
        coarse = r.len();
    }
    if total {
        c.label("too large");
        return Ok(());
    }
    let got = if levels == 1 {
        let r = coarse_to_fine_recogniser!(fa; RlbElement::new(&m1));
        runs(&w, r.recognise(words(&w)))?
    } else {
        let r = coarse_to_fine_recogniser!(fa; RlbElement::new(&m1), RlbElement::new(&m2));
        runs(&w, r.recognise(words(&w)))?
    };
    refined(c, &fine, &got, ordered, coarse)
}
fn ctf_mcfg(c: &mut Case) -> Res {
    let (mut g, w) = firm_grammar(&mut c.s, false);
    if parallel(&mut c.s, &mut g.rules, |r, w| r.w = w) {
        c.label("rules that differ in weight only");
    }
    let t = table(&mut c.s, g.fan.len());
    let levels = c.s.range(1, 2);
    c.text("grammar", show(&g));
    c.note("word", words(&w));
    if levels == 2 {
        c.note("new nonterminals", &t);
    }
    if Parser::new(&g, &w, 200).too_many() {
        c.label("too many derivations");
        return Ok(());
    }
    let fa = Tsa::from(pmcfg(&g));
    let fine = runs(&w, fa.recognise(words(&w)))?;
    let nts: HashMap<String, usize> = (0..g.fan.len()).map(|k| (nt(k), t[k])).collect();
    let m = |x: &PosState<Rule>| x.map(|r| r.map_nonterminals(|a| nts[a]));
    let (b1, i1) = TTSElement::new().approximate_automaton(&fa);
    let ts: Vec<_> = fa.list_transitions().collect();
    let (coarse, total, ordered): (usize, bool, bool);
    if levels == 1 {
        let r = runs(&w, b1.recognise(words(&w)))?;
        ordered = weighs_at_most_one(b1.list_transitions());
        total = too_wide(&r, |i| ts.iter().filter(|t| i1.approximate_instruction(&t.instruction) == *i).count());
        coarse = r.len();
    } else {
        let (b2, i2) = RlbElement::new(&m).approximate_automaton(&b1);
        let r = runs(&w, b2.recognise(words(&w)))?;
        ordered = weighs_at_most_one(b1.list_transitions()) && weighs_at_most_one(b2.list_transitions());
        total = too_wide(&r, |i| ts.iter().filter(|t| i2.approximate_instruction(&i1.approximate_instruction(&t.instruction)) == *i).count());
        coarse = r.len();
    }
    if total {
        c.label("too large");
        return Ok(());
    }
    let got = if levels == 1 {
        let r = coarse_to_fine_recogniser!(fa; TTSElement::new());
        runs(&w, r.recognise(words(&w)))?
    } else {
        let r = coarse_to_fine_recogniser!(fa; TTSElement::new(), RlbElement::new(&m));
        runs(&w, r.recognise(words(&w)))?
    };
    if fine.iter().any(|r| r.0.len() >= 6) {
        c.label("run of six steps");
    }
    refined(c, &fine, &got, ordered, coarse)
}

// ---------------------------------------------------------------- X04
const NAMES: [&str; 8] = ["a", "b", "S", "N1", "VP/NP", "x y", "ä→", "50%"];
fn token(s: &mut Src, t: &str) -> String {
    let plain = !t.chars().any(|c| " \\\"-→,;)]%#".contains(c));
    if !plain || s.chance(1, 4) {
        format!("\"{}\"", t)
    } else {
        t.to_string()
    }
}
fn name(k: usize) -> String {
    NAMES.get(k).map(|x| x.to_string()).unwrap_or_else(|| format!("z{}", k))
}
fn classes(c: &mut Case) -> Res {
    let s = &mut c.s;
    let known = s.tail(NAMES.len(), NAMES.len(), 60);
    let n = s.tail(0, 4, 15);
    let mut text = vec![];
    let mut listed: Vec<(usize, usize)> = vec![]; // symbol, label
    let mut labels = vec![];
    let b = |s: &mut Src| *s.pick(&["", " ", "  "]);
    for _ in 0..n {
        let l = s.n(4);
        labels.push(l);
        let k = if known > NAMES.len() && s.chance(1, 3) { s.range(0, 30) } else { s.small(4) };
        // then mostly symbols that are in no class yet
        let xs: Vec<usize> = (0..k)
            .map(|_| {
                let x = s.n(known);
                if known > NAMES.len() && listed.iter().any(|(y, m)| *y == x && *m != l) && !s.chance(1, 40) {
                    (0..known).find(|x| !listed.iter().any(|(y, _)| y == x)).unwrap_or(x)
                } else {
                    x
                }
            })
            .collect();
        let mut t = format!("{}{}", b(s), token(s, NAMES[l]));
        t += *s.pick(&[" ", "  "]);
        t += "[";
        t += b(s);
        for (i, x) in xs.iter().enumerate() {
            if i > 0 {
                t += ",";
                t += b(s);
            }
            t += &token(s, &name(*x));
            t += b(s);
            listed.push((*x, l));
        }
        t += "]";
        t += b(s);
        text.push(t);
    }
    let defaults: Vec<usize> = match s.weighted(&[12, 1, 1]) {
        0 => vec![s.n(6)],
        1 => vec![],
        _ => vec![s.n(6), s.n(6)],
    };
    for d in &defaults {
        let t = format!("{}{}{}*{}", b(s), token(s, NAMES[*d]), *s.pick(&[" ", "  "]), b(s));
        let at = s.n(text.len() + 1);
        text.insert(at, t);
    }
    let mut out = String::new();
    for t in text {
        for _ in 0..s.small(2) {
            out += *s.pick(&["", " ", "\t"]);
            out += "\n";
        }
        out += &t;
        out += "\n";
    }
    c.text("text", &out);
    let clash = listed.iter().any(|(x, l)| listed.iter().any(|(y, m)| x == y && l != m));
    let legal = defaults.len() == 1 && !clash && !labels.contains(&defaults[0]);
    let got = no_panic(|| out.parse::<EquivalenceRelation<String, String>>()).map_err(|e| format!("panic: {}", e))?;
    match got {
        Ok(r) => {
            if defaults.len() == 2 && defaults[0] == defaults[1] {
                c.label("default twice");
                return Ok(());
            }
            ensure!(legal, "an illegal text is accepted ({})", if defaults.is_empty() { "no default class" } else if defaults.len() > 1 { "two default classes" } else if clash { "a symbol is in two classes" } else { "the default label names a listed class" });
            for x in 0..known {
                let want = listed.iter().find(|(y, _)| *y == x).map(|(_, l)| *l).unwrap_or(defaults[0]);
                ensure_eq!(r.project(&name(x)), NAMES[want], "class of {:?}", name(x));
            }
            ensure_eq!(r.project(&"unknown".to_string()), NAMES[defaults[0]], "class of an unlisted symbol");
            c.label("legal");
            c.nontrivial_if(!listed.is_empty());
        }
        Err(e) => {
            if defaults.len() == 2 && defaults[0] == defaults[1] {
                c.label("default twice");
                return Ok(());
            }
            ensure!(!legal, "a legal text is refused: {}", e);
            c.label("illegal");
            c.nontrivial_if(labels.len() >= 2);
        }
    }
    Ok(())
}
/// relations built from maps
fn relations(c: &mut Case) -> Res {
    let n = c.s.tail(0, 4, 15);
    let mut map: HashMap<usize, HashSet<usize>> = HashMap::new();
    let mut of: BTreeMap<usize, usize> = BTreeMap::new();
    let mut clash = false;
    let known = c.s.tail(8, 8, 80);
    for l in 0..n {
        let k = if known > 8 && c.s.chance(1, 3) { c.s.range(0, 30) } else { c.s.small(4) };
        // then mostly symbols that are in no class yet
        let mut xs: HashSet<usize> = HashSet::new();
        for _ in 0..k {
            let x = c.s.n(known);
            let taken = of.contains_key(&x) || xs.contains(&x);
            xs.insert(if known > 8 && taken && !c.s.chance(1, 40) { (0..known).find(|x| !of.contains_key(x) && !xs.contains(x)).unwrap_or(x) } else { x });
        }
        for x in &xs {
            clash |= of.insert(*x, l).is_some();
        }
        map.insert(l, xs);
    }
    let d = c.s.n(6);
    c.note("classes", map.iter().map(|(k, v)| (k, v.iter().collect::<BTreeSet<_>>())).collect::<BTreeMap<_, _>>());
    c.note("default", d);
    let legal = !clash && d >= n;
    match EquivalenceRelation::new_safe(map.clone(), d) {
        Ok(r) => {
            ensure!(legal, "an illegal relation is accepted");
            for x in 0..known + 1 {
                ensure_eq!(r.project(&x), *of.get(&x).unwrap_or(&d), "class of {}", x);
            }
            let mut list: Vec<(usize, Option<Vec<usize>>)> = map.iter().map(|(l, xs)| (*l, Some(xs.iter().cloned().collect()))).collect();
            let at = c.s.n(list.len() + 1);
            list.insert(at, (d, None));
            let t = EquivalenceRelation::from(list.into_iter().map(EquivalenceClass::from).collect::<Vec<_>>());
            for x in 0..known + 1 {
                ensure_eq!(t.project(&x), *of.get(&x).unwrap_or(&d), "class of {} in the relation made of a list of classes", x);
            }
            ensure!(t == r, "relations made of a map and of a list of classes differ");
            let s = EquivalenceRelation::new(map, d);
            ensure!(s == r, "new and new_safe differ");
        }
        Err(_) => {
            ensure!(!legal, "a legal relation is refused");
            ensure!(no_panic(|| EquivalenceRelation::new(map, d)).is_err(), "new accepts what new_safe refuses");
        }
    }
    c.nontrivial_if(n >= 2);
    Ok(())
}

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "X01",
            rule: "an accepted word with two runs or a run of two steps that the relabelling affects, or a derivation of two rules",
            assumptions: &["the bottom symbol of the push-down is not identified with others", "automata in which a step without input shortens the push-down, grammars in which components with variables start with a terminal (so that all runs can be enumerated)"],
            parts: vec![
                Part { name: "automata", quick: 48_000, thorough: 2_544_000, run: relabel_free },
                Part { name: "grammars", quick: 32_000, thorough: 1_696_000, run: relabel_grammar },
            ],
        },
        Prop {
            id: "X02",
            rule: "the word has a run or derivation of at least two steps",
            assumptions: &["grammars in which components with variables start with a terminal, automata in which a step up reads something (so that all runs can be enumerated)"],
            parts: vec![
                Part { name: "grammars", quick: 10_000, thorough: 600_000, run: tts_grammar },
                Part { name: "automata", quick: 10_000, thorough: 600_000, run: tts_free },
            ],
        },
        Prop {
            id: "X03",
            rule: "a run of two steps, and at least two runs of the fine or the coarse automaton",
            assumptions: &["as for X01 and X02", "the order is claimed where no transition of an approximation weighs more than one"],
            parts: vec![
                Part { name: "automata", quick: 10_000, thorough: 580_000, run: ctf_free },
                Part { name: "context-free", quick: 8_000, thorough: 464_000, run: ctf_cfg },
                Part { name: "mcfg", quick: 8_000, thorough: 464_000, run: ctf_mcfg },
            ],
        },
        Prop {
            id: "X04",
            rule: "a legal text listing a symbol, an illegal text with two classes, or two classes",
            assumptions: &["a text with the same default class twice may be accepted or rejected"],
            parts: vec![
                Part { name: "texts", quick: 400_000, thorough: 24_000_000, run: classes },
                Part { name: "relations", quick: 200_000, thorough: 12_000_000, run: relations },
            ],
        },
    ]
}
