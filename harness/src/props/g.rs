//! Grammar notations and grammar classes.
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use rustomata::grammars::cfg::{CFGRule, LetterT, CFG};
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::mcfg::Mcfg;
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT, PMCFG};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

// ------------------------------------------------------------------ text generators
const TOKENS: [&str; 40] = [
    "S", "A", "a", "B", "b", "N1", "T", "Var", "Nt", "x y", "", "a,b", "→", "Ò", "†", "é", "ß", "日本", "(", "[", "]", ")", "#", "%", "-", ";",
    "->", "=>", "λ", "𝛼", "a\\\"b", "\\\\", "0", "initial:", "% x", "'", "a]", "\t", "→a", "’",
];
pub fn token(s: &mut Src) -> String {
    let k = s.weighted(&[3, 2]);
    if k == 0 {
        s.pick(&TOKENS[..7]).to_string()
    } else {
        s.pick(&TOKENS).to_string()
    }
}
fn bare_ok(t: &str) -> bool {
    !t.is_empty() && !t.starts_with("initial:") && !t.contains(|c: char| "\t \\\"-→,;)]%#".contains(c))
}
/// text of a token and whether it is bare
pub fn tok_text(s: &mut Src, t: &str) -> (String, bool) {
    if bare_ok(t) && s.chance(2, 3) {
        (t.to_string(), true)
    } else {
        (format!("\"{}\"", t), false)
    }
}
/// optional blanks; a tab only if asked for (a bare token may contain one)
pub fn blank(s: &mut Src, tab: bool) -> &'static str {
    let k = s.weighted(&[4, 4, 1, 1]);
    match k {
        0 => "",
        1 => " ",
        2 => "  ",
        _ => {
            if tab {
                " \t"
            } else {
                " "
            }
        }
    }
}
pub fn list(s: &mut Src, open: &str, close: &str, items: Vec<(String, bool)>) -> String {
    let mut o = open.to_string();
    o += blank(s, true);
    let n = items.len();
    for (i, (t, bare)) in items.into_iter().enumerate() {
        o += &t;
        o += blank(s, !bare);
        if i + 1 < n {
            o += ",";
            o += blank(s, true);
        }
    }
    o + close
}
const WTEXT: [(&str, f64); 12] = [
    ("0.5", 0.5),
    ("1", 1.0),
    ("0.25", 0.25),
    ("1.0", 1.0),
    ("0", 0.0),
    ("3", 3.0),
    ("1e-3", 0.001),
    ("0.1", 0.1),
    ("12.75", 12.75),
    ("0.333333333333", 0.333333333333),
    ("2.5E2", 250.0),
    (".5", 0.5),
];
fn comment(s: &mut Src) -> String {
    let c = *s.pick(&["", " x", "% initial: [Q]", " A → [[T a]] () # 0.5", " →†é"]);
    format!("%{}", c)
}
/// a non-negative number as written in texts
pub fn weight_text(s: &mut Src) -> (String, f64) {
    let t = match s.weighted(&[4, 1, 1]) {
        0 => {
            let (t, v) = *s.pick(&WTEXT);
            return (t.into(), v);
        }
        1 => {
            let mut t = s.pick(&["0", "", "7", "42", "1000"]).to_string() + ".";
            for _ in 0..s.range(1, 17) {
                t.push((b'0' + s.n(10) as u8) as char);
            }
            t
        }
        _ => format!("{}{}{}", s.pick(&["1", "2.5", "9.99"]), s.pick(&["e-", "E-", "e", "e+"]), s.range(1, 30)),
    };
    let v = t.parse().unwrap();
    (t, v)
}
/// optional weight and comment at the end of a rule; the weight denoted
fn ending(s: &mut Src) -> (String, f64) {
    let mut o = String::new();
    let mut w = 1.0;
    o += blank(s, true);
    let has = s.chance(2, 3);
    if has {
        let (t, v) = weight_text(s);
        w = v;
        o += "#";
        o += blank(s, true);
        o += &t;
        o += blank(s, true);
    }
    if s.chance(1, 3) {
        o += &comment(s)
    } else {
        o += blank(s, true)
    }
    (o, w)
}
fn head_arrow(s: &mut Src, head: &str) -> String {
    let (t, bare) = tok_text(s, head);
    let arrow = *s.pick(&["→", "->", "=>"]);
    let mut o = t;
    if bare && arrow == "=>" {
        o += " "
    }
    o += blank(s, !bare);
    o += arrow;
    o += blank(s, true);
    o
}
/// lines of a grammar file in any legal layout
pub fn layout(s: &mut Src, rules: Vec<String>, initials: Vec<String>) -> String {
    let mut lines: Vec<String> = vec![];
    // declarations may stand anywhere; their order and the order of rules is kept
    let mut at: Vec<usize> = initials.iter().map(|_| s.small(rules.len())).collect();
    at.sort();
    let mut next = 0;
    let filler = |s: &mut Src, lines: &mut Vec<String>| {
        while s.chance(1, 5) {
            lines.push(match s.n(4) {
                0 => "".to_string(),
                1 => (*s.pick(&["  ", "\t", " \t "])).to_string(),
                2 => comment(s),
                _ => format!("{}{}", *s.pick(&[" ", "\t"]), comment(s)),
            })
        }
    };
    let n = rules.len();
    for (i, r) in rules.into_iter().enumerate() {
        while next < at.len() && at[next] == i {
            filler(s, &mut lines);
            lines.push(format!("{}{}", indent(s), initials[next]));
            next += 1;
        }
        filler(s, &mut lines);
        lines.push(format!("{}{}", indent(s), r));
    }
    let _ = n;
    while next < at.len() {
        lines.push(initials[next].clone());
        next += 1;
    }
    filler(s, &mut lines);
    let nl = if s.chance(1, 8) { "\r\n" } else { "\n" };
    let mut o = lines.join(nl);
    if s.chance(2, 3) {
        o += nl
    }
    o
}
fn indent(s: &mut Src) -> &'static str {
    if s.chance(1, 6) {
        *s.pick(&[" ", "\t", "   "])
    } else {
        ""
    }
}
pub fn initial_lines(s: &mut Src, init: &[String], parts: usize) -> Vec<String> {
    // split over several declarations
    let mut out = vec![];
    let mut rest = init.to_vec();
    for p in 0..parts {
        let k = if p + 1 == parts { rest.len() } else { s.n(rest.len() + 1) };
        let now: Vec<String> = rest.drain(..k).collect();
        let items = now.iter().map(|t| tok_text(s, t)).collect();
        let mut l = format!("initial:{}", blank(s, true));
        l += &list(s, "[", "]", items);
        l += blank(s, true);
        if s.chance(1, 5) {
            l += &comment(s)
        }
        out.push(l);
    }
    out
}

pub type TR = (String, Vec<String>, Vec<Vec<VarT<String>>>, f64);
pub fn text_rule(s: &mut Src) -> (String, TR) {
    let head = token(s);
    let rank = s.small(3);
    let rank = if s.chance(1, 40) { rank + s.range(1, 12) } else { rank };
    let tail: Vec<String> = (0..rank).map(|_| token(s)).collect();
    let fan = s.tail(0, 3, 12);
    let far = s.tail(12, 12, 1000);
    let comp: Vec<Vec<VarT<String>>> = (0..fan)
        .map(|_| {
            let k = s.small(4);
            (0..k)
                .map(|_| if s.chance(1, 2) { VarT::T(token(s)) } else { VarT::Var(s.n(far), s.n(far)) })
                .collect()
        })
        .collect();
    let mut o = head_arrow(s, &head);
    let comps: Vec<(String, bool)> = comp
        .iter()
        .map(|c| {
            let items = c
                .iter()
                .map(|v| match v {
                    VarT::T(t) => {
                        let (x, bare) = tok_text(s, t);
                        (format!("T{}{}", *s.pick(&[" ", "  ", "\t"]), x), bare)
                    }
                    VarT::Var(i, j) => {
                        (format!("Var{}{}{}{}", *s.pick(&[" ", "  ", "\t"]), i, *s.pick(&[" ", "  ", "\t"]), j), false)
                    }
                })
                .collect();
            (list(s, "[", "]", items), false)
        })
        .collect();
    o += &list(s, "[", "]", comps);
    o += blank(s, true);
    let items = tail.iter().map(|t| tok_text(s, t)).collect();
    o += &list(s, "(", ")", items);
    let (e, w) = ending(s);
    o += &e;
    (o, (head, tail, comp, w))
}

pub fn check_rules(got: &[PMCFGRule<String, String, f64>], want: &[TR], what: &str) -> Res {
    ensure_eq!(got.len(), want.len(), "{}: number of rules", what);
    for (i, (g, (h, t, c, w))) in got.iter().zip(want).enumerate() {
        ensure_eq!(g.head, *h, "{}: head of rule {}", what, i);
        ensure_eq!(g.tail, *t, "{}: successors of rule {}", what, i);
        ensure_eq!(g.composition.composition, *c, "{}: composition of rule {}", what, i);
        ensure!(relf(g.weight, *w), "{}: weight of rule {} is {} instead of {}", what, i, g.weight, w);
    }
    Ok(())
}
fn mcfg_text(c: &mut Case) -> Res {
    let s = &mut c.s;
    let single = s.chance(1, 2);
    let ninit = if single { 1 } else { s.small(3) };
    let init: Vec<String> = (0..ninit).map(|_| token(s)).collect();
    let n = s.tail(0, 4, 30);
    let (texts, rules): (Vec<String>, Vec<TR>) = (0..n).map(|_| text_rule(s)).unzip();
    let parts = s.range(1, 2);
    let il = initial_lines(s, &init, parts);
    let text = layout(s, texts.clone(), il);
    let tokens: BTreeSet<&String> = rules.iter().map(|r| &r.0).chain(&init).collect();
    let special = tokens.iter().any(|t| !t.chars().all(|c| c.is_ascii_alphanumeric()));
    c.text("grammar", &text);
    c.nontrivial_if(n > 0);
    if special {
        c.label("special tokens")
    }
    if text.lines().any(|l| !l.is_empty() && l.trim().is_empty()) {
        c.label("whitespace line")
    }
    // rules by themselves
    for (t, r) in texts.iter().zip(&rules) {
        let got: PMCFGRule<String, String, f64> = t.trim().parse().map_err(|e| format!("legal rule {:?} is refused: {}", t, e))?;
        check_rules(&[got], &[r.clone()], "rule")?;
    }
    let g: PMCFG<String, String, f64> = text.parse().map_err(|e| format!("a legal grammar is refused: {}", e))?;
    ensure_eq!(g.initial, init, "initial nonterminals");
    check_rules(&g.rules, &rules, "grammar")?;
    // print and read again
    let printed = g.to_string();
    let h: PMCFG<String, String, f64> = printed.parse().map_err(|e| format!("printed grammar is refused: {}\n{}", e, printed))?;
    ensure_eq!(h.initial, init, "initial nonterminals after printing\n{}", printed);
    check_rules(&h.rules, &rules, &format!("after printing\n{}", printed))?;
    let lg: PMCFG<String, String, W> = text.parse().map_err(|e| format!("refused with log-domain weights: {}", e))?;
    let lh: PMCFG<String, String, W> = lg.to_string().parse().map_err(|e| format!("printed grammar is refused with log-domain weights: {}", e))?;
    for (i, r) in rules.iter().enumerate() {
        for x in &[&lg, &lh] {
            ensure!(close(x.rules[i].weight, lw(r.3)), "log-domain weight of rule {} is {} instead of {}", i, x.rules[i].weight, r.3);
        }
    }
    // as an LCFRS
    let l: Result<Lcfrs<String, String, f64>, String> = text.parse();
    if init.len() != 1 {
        ensure!(l.is_err(), "an LCFRS with {} initial nonterminals is accepted", init.len());
        return Ok(());
    }
    if let Ok(l) = l {
        let printed = l.to_string();
        let (rs, i) = l.destruct();
        ensure_eq!(i, init[0], "initial nonterminal of the LCFRS");
        check_rules(&rs, &rules, "LCFRS")?;
        let l: Lcfrs<String, String, f64> = printed.parse().map_err(|e| format!("printed LCFRS is refused: {}\n{}", e, printed))?;
        let (rs, i) = l.destruct();
        ensure_eq!(i, init[0], "initial nonterminal of the LCFRS after printing");
        check_rules(&rs, &rules, "LCFRS after printing")?;
    } else {
        // the reader may insist on a consistent LCFRS
        let consistent = Lcfrs::new(g.rules.clone(), init[0].clone()).is_some();
        ensure!(!consistent, "a consistent LCFRS is refused: {:?}", l.err());
    }
    Ok(())
}
/// grammars the library accepts as LCFRS, read and printed
fn lcfrs_text(c: &mut Case) -> Res {
    let mut o = GenOpts { multi_init: false, ..GenOpts::default() };
    if c.s.chance(1, 60) {
        o = GenOpts { max_nts: 14, max_extra: 14, max_fan: 14, max_rank: 14, ..o };
    }
    let g = G::generate(&mut c.s, &o);
    // rename the symbols
    let n: Vec<String> = (0..g.fan.len()).map(|i| format!("{}{}", token(&mut c.s), i)).collect();
    let t: Vec<String> = (0..o.terms).map(|i| format!("{}{}", token(&mut c.s), i)).collect();
    let rules: Vec<TR> = g
        .rules
        .iter()
        .map(|r| {
            let comp = r
                .comp
                .iter()
                .map(|k| {
                    k.iter()
                        .map(|y| match y {
                            Y::V(i, j) => VarT::Var(*i, *j),
                            Y::T(x) => VarT::T(t[*x].clone()),
                        })
                        .collect()
                })
                .collect();
            (n[r.head].clone(), r.tail.iter().map(|a| n[*a].clone()).collect(), comp, r.w)
        })
        .collect();
    let built: Vec<PMCFGRule<String, String, f64>> = rules
        .iter()
        .map(|r| PMCFGRule { head: r.0.clone(), tail: r.1.clone(), composition: Composition { composition: r.2.clone() }, weight: r.3 })
        .collect();
    c.note("rules", &rules);
    c.nontrivial_if(rules.len() > 1);
    let l = Lcfrs::new(built.clone(), n[0].clone()).ok_or("a consistent LCFRS is refused")?;
    let printed = l.to_string();
    let m: Lcfrs<String, String, f64> = printed.parse().map_err(|e| format!("printed LCFRS is refused: {}\n{}", e, printed))?;
    let (rs, i) = m.destruct();
    ensure_eq!(i, n[0], "initial nonterminal after printing\n{}", printed);
    check_rules(&rs, &rules, &format!("LCFRS after printing\n{}", printed))?;
    let p = PMCFG { initial: vec![n[0].clone()], rules: built };
    let q: PMCFG<String, String, f64> = p.to_string().parse().map_err(|e| format!("printed PMCFG is refused: {}", e))?;
    ensure_eq!(q.initial, p.initial, "initial nonterminals after printing");
    check_rules(&q.rules, &rules, "PMCFG after printing")
}

// ------------------------------------------------------------------ G02
pub type CR = (String, Vec<LetterT<String, String>>, f64);
pub fn cfg_rule_text(s: &mut Src) -> (String, CR) {
    let head = token(s);
    let k = s.small(5);
    let comp: Vec<LetterT<String, String>> =
        (0..k).map(|_| if s.chance(1, 2) { LetterT::Value(token(s)) } else { LetterT::Label(token(s)) }).collect();
    let mut o = head_arrow(s, &head);
    let items = comp
        .iter()
        .map(|v| {
            let sp = *s.pick(&[" ", "  ", "\t"]);
            match v {
                LetterT::Value(t) => {
                    let (x, bare) = tok_text(s, t);
                    (format!("T{}{}", sp, x), bare)
                }
                LetterT::Label(t) => {
                    let (x, bare) = tok_text(s, t);
                    (format!("Nt{}{}", sp, x), bare)
                }
            }
        })
        .collect();
    o += &list(s, "[", "]", items);
    let (e, w) = ending(s);
    o += &e;
    (o, (head, comp, w))
}
fn check_cfg(got: &[CFGRule<String, String, f64>], want: &[CR], what: &str) -> Res {
    ensure_eq!(got.len(), want.len(), "{}: number of rules", what);
    for (i, (g, (h, c, w))) in got.iter().zip(want).enumerate() {
        ensure_eq!(g.head, *h, "{}: head of rule {}", what, i);
        ensure_eq!(g.composition.composition, *c, "{}: right-hand side of rule {}", what, i);
        ensure!(relf(g.weight, *w), "{}: weight of rule {} is {} instead of {}", what, i, g.weight, w);
    }
    Ok(())
}
fn cfg_text(c: &mut Case) -> Res {
    let s = &mut c.s;
    let ninit = s.small(3);
    let init: Vec<String> = (0..ninit).map(|_| token(s)).collect();
    let n = s.tail(0, 5, 40);
    let (texts, rules): (Vec<String>, Vec<CR>) = (0..n).map(|_| cfg_rule_text(s)).unzip();
    let parts = s.range(1, 2);
    let il = initial_lines(s, &init, parts);
    let text = layout(s, texts, il);
    c.text("grammar", &text);
    c.nontrivial_if(n > 0);
    let g: CFG<String, String, f64> = text.parse().map_err(|e| format!("a legal grammar is refused: {}", e))?;
    ensure_eq!(g.initial, init, "initial nonterminals");
    check_cfg(&g.rules, &rules, "grammar")?;
    let again: Result<Vec<CFGRule<String, String, f64>>, String> = g.rules.iter().map(|r| r.to_string().parse()).collect();
    check_cfg(&again.map_err(|e| format!("a printed rule is refused: {}", e))?, &rules, "printed rules")?;
    let l: CFG<String, String, W> = text.parse().map_err(|e| format!("refused with log-domain weights: {}", e))?;
    for (i, r) in rules.iter().enumerate() {
        let p: CFGRule<String, String, W> = l.rules[i].to_string().parse().map_err(|e| format!("a printed rule is refused: {}", e))?;
        for w in &[l.rules[i].weight, p.weight] {
            ensure!(close(*w, lw(r.2)), "log-domain weight of rule {} is {} instead of {}", i, w, r.2);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ G04
fn any_rules(c: &mut Case) -> (Vec<PMCFGRule<String, String, f64>>, String, Vec<usize>) {
    // a consistent grammar with some things changed
    let mut o = GenOpts { max_nts: 3, max_extra: 3, deleting: c.s.chance(1, 6), ..GenOpts::default() };
    if c.s.chance(1, 30) {
        o = GenOpts { max_nts: 14, max_extra: 14, max_fan: 14, max_rank: 14, ..o };
    }
    let g = G::generate(&mut c.s, &o);
    let mut rules: Vec<_> = g
        .rules
        .iter()
        .map(|r| {
            let p = rule(r);
            PMCFGRule { head: p.head, tail: p.tail, composition: p.composition, weight: r.w }
        })
        .collect();
    let changes = c.s.small(2);
    for _ in 0..changes {
        let k = c.s.n(rules.len());
        let r: &mut PMCFGRule<String, String, f64> = &mut rules[k];
        let comp = &mut r.composition.composition;
        match c.s.n(8) {
            0 => {
                if !comp.is_empty() {
                    let i = c.s.n(comp.len());
                    comp.remove(i);
                }
            }
            1 => comp.push(vec![]),
            2 => {
                let v = VarT::Var(c.s.n(4), c.s.n(4));
                if !comp.is_empty() {
                    let i = c.s.n(comp.len());
                    let at = c.s.n(comp[i].len() + 1);
                    comp[i].insert(at, v);
                }
            }
            3 => {
                let full: Vec<usize> = (0..comp.len()).filter(|i| !comp[*i].is_empty()).collect();
                if !full.is_empty() {
                    let i = *c.s.pick(&full);
                    let at = c.s.n(comp[i].len());
                    comp[i].remove(at);
                }
            }
            4 => r.tail.push(nt(c.s.n(4))),
            5 => {
                if !r.tail.is_empty() {
                    let i = c.s.n(r.tail.len());
                    if c.s.chance(1, 2) {
                        r.tail.remove(i);
                    } else {
                        r.tail[i] = nt(c.s.n(5));
                    }
                }
            }
            6 => r.head = nt(c.s.n(4)),
            _ => {
                rules.remove(k);
                if rules.is_empty() {
                    break;
                }
            }
        }
    }
    let init = nt(c.s.small(3));
    (rules, init, g.fan.clone())
}
fn consistent<N: Ord + Clone, T, W>(rules: &[PMCFGRule<N, T, W>], init: &N) -> bool {
    let mut fan: BTreeMap<N, usize> = BTreeMap::new();
    for r in rules {
        let k = r.composition.composition.len();
        if *fan.entry(r.head.clone()).or_insert(k) != k {
            return false;
        }
    }
    if fan.get(init) != Some(&1) {
        return false;
    }
    rules.iter().all(|r| {
        let mut want = vec![];
        for (i, a) in r.tail.iter().enumerate() {
            match fan.get(a) {
                None => return false,
                Some(f) => want.extend((0..*f).map(|j| (i, j))),
            }
        }
        let mut have = vec![];
        for c in &r.composition.composition {
            for v in c {
                if let VarT::Var(i, j) = v {
                    have.push((*i, *j))
                }
            }
        }
        have.sort();
        have == want
    })
}
fn lcfrs_new(c: &mut Case) -> Res {
    let (rules, init, _) = any_rules(c);
    c.text("rules", rules.iter().map(|r| r.to_string()).collect::<Vec<_>>().join("\n"));
    c.note("initial", &init);
    let want = consistent(&rules, &init);
    c.label(if want { "consistent" } else { "inconsistent" });
    c.nontrivial_if(rules.iter().any(|r| !r.tail.is_empty()));
    let l = Lcfrs::new(rules.clone(), init.clone());
    ensure_eq!(l.is_some(), want, "the LCFRS is constructed");
    if let Some(l) = l {
        let nf = rules.iter().all(|r| {
            let c = &r.composition.composition;
            c.iter().all(|k| !k.is_empty())
                && (c.iter().flatten().all(|v| v.is_var()) || c.len() == 1 && c[0].len() == 1 && c[0][0].is_t())
        });
        ensure_eq!(l.in_normal_form(), nf, "normal form");
        let (rs, i) = l.destruct();
        ensure_eq!(i, init, "initial nonterminal");
        ensure!(
            rs == rules && rs.iter().zip(&rules).all(|(a, b)| a.weight == b.weight),
            "the rules changed: {:?}",
            rs
        );
    }
    Ok(())
}
fn normal_form(c: &mut Case) -> Res {
    let mut o = GenOpts { max_nts: 3, max_extra: 2, normal_form: true, ..GenOpts::default() };
    if c.s.chance(1, 30) {
        o = GenOpts { max_nts: 8, max_extra: 8, max_fan: 14, max_rank: 14, ..o };
    }
    let g = G::generate(&mut c.s, &o);
    let mut rules: Vec<_> = g.rules.iter().map(rule).collect();
    let mut nf = true;
    if c.s.chance(1, 2) {
        nf = false;
        let k = c.s.n(rules.len());
        let comp = &mut rules[k].composition.composition;
        let i = c.s.n(comp.len());
        let terminal = comp[0][0].is_t();
        match c.s.n(3) {
            // a terminal beside something else
            0 => {
                let at = c.s.n(comp[i].len() + 1);
                comp[i].insert(at, VarT::T("x".into()))
            }
            // an empty component
            1 => {
                let all: Vec<_> = comp[i].drain(..).collect();
                if comp.len() > 1 {
                    let j = if i == 0 { 1 } else { 0 };
                    comp[j].extend(all);
                } else if !terminal {
                    comp[i].extend(all);
                    nf = true;
                }
            }
            // another terminal instead
            _ => {
                if terminal {
                    comp[0].push(VarT::T("a".into()))
                } else {
                    nf = true
                }
            }
        }
    }
    c.text("rules", rules.iter().map(|r| r.to_string()).collect::<Vec<_>>().join("\n"));
    c.label(if nf { "normal form" } else { "not normal form" });
    c.nontrivial_if(true);
    let l = Lcfrs::new(rules, nt(0)).ok_or("a consistent LCFRS is refused")?;
    ensure_eq!(l.in_normal_form(), nf, "normal form");
    Ok(())
}

// ------------------------------------------------------------------ G05
/// derivations of height below `h` as (shape with head names, yields, weight)
type Deriv = (Rc<String>, Vec<Vec<String>>, f64);
fn derivs<N: Clone + Ord>(
    rules: &[PMCFGRule<N, String, W>],
    name: &dyn Fn(&N) -> String,
    a: &N,
    h: usize,
    cap: usize,
    memo: &mut BTreeMap<(N, usize), Option<Rc<Vec<Deriv>>>>,
) -> Option<Rc<Vec<Deriv>>> {
    if h == 0 {
        return Some(Rc::new(vec![]));
    }
    if let Some(x) = memo.get(&(a.clone(), h)) {
        return x.clone();
    }
    let mut out = vec![];
    for r in rules.iter().filter(|r| r.head == *a) {
        let mut combos: Vec<Vec<Deriv>> = vec![vec![]];
        for b in &r.tail {
            let ds = match derivs(rules, name, b, h - 1, cap, memo) {
                Some(d) => d,
                None => {
                    memo.insert((a.clone(), h), None);
                    return None;
                }
            };
            if combos.len() * ds.len() > cap {
                memo.insert((a.clone(), h), None);
                return None;
            }
            let mut next = vec![];
            for c in &combos {
                for d in ds.iter() {
                    let mut e = c.clone();
                    e.push(d.clone());
                    next.push(e);
                }
            }
            combos = next;
        }
        for kids in combos {
            let y = r
                .composition
                .composition
                .iter()
                .map(|c| {
                    c.iter()
                        .flat_map(|v| match v {
                            VarT::T(t) => vec![t.clone()],
                            VarT::Var(i, j) => kids[*i].1[*j].clone(),
                        })
                        .collect()
                })
                .collect();
            let w = kids.iter().map(|k| k.2).sum::<f64>() + r.weight.ln();
            let shape = format!("{}({})", name(&r.head), kids.iter().map(|k| (*k.0).clone()).collect::<Vec<_>>().join(","));
            out.push((Rc::new(shape), y, w));
        }
        if out.len() > cap {
            memo.insert((a.clone(), h), None);
            return None;
        }
    }
    let out = Some(Rc::new(out));
    memo.insert((a.clone(), h), out.clone());
    out
}
fn to_lcfrs(c: &mut Case) -> Res {
    let mut o = GenOpts { deleting: true, ..GenOpts::default() };
    if c.s.chance(1, 30) {
        o = GenOpts { max_nts: 6, max_extra: 6, max_fan: 14, max_rank: 4, ..o };
    } else if c.s.chance(1, 60) {
        o = GenOpts { max_nts: 3, max_extra: 3, max_fan: 2, max_rank: 15, ..o };
    }
    let mut g = G::generate(&mut c.s, &o);
    // successors may be left out altogether, and a rule may mention a nonterminal without rules
    let mut fully = false;
    for r in g.rules.iter_mut() {
        if !r.tail.is_empty() && c.s.chance(1, 6) {
            let i = c.s.n(r.tail.len());
            fully = true;
            for k in r.comp.iter_mut() {
                k.retain(|y| match y {
                    Y::V(j, _) => *j != i,
                    _ => true,
                })
            }
        }
    }
    if c.s.chance(1, 12) {
        let fan = vec![vec![Y::V(0, 0)]; 1];
        g.rules.push(R { head: 0, tail: vec![9], comp: fan, w: 0.5 });
        c.label("undefined nonterminal");
    }
    c.text("MCFG", show(&g));
    let deleting = g.rules.iter().any(|r| {
        r.comp.iter().flatten().filter(|y| match y {
            Y::V(..) => true,
            _ => false,
        }).count()
            < r.tail.iter().map(|b| g.fan.get(*b).cloned().unwrap_or(1)).sum::<usize>()
    });
    if deleting {
        c.label("deleting")
    }
    if fully {
        c.label("successor left out")
    }
    c.nontrivial_if(deleting && g.rules.len() > 2);
    let rules: Vec<Rule> = g.rules.iter().map(rule).collect();
    let l: Lcfrs<(String, BTreeSet<usize>), String, W> = Mcfg::new(rules.clone(), nt(0)).into();
    let (lr, li) = l.destruct();
    let listing = || lr.iter().map(|r| format!("{:?}{:?} → {} {:?} # {}", r.head.0, r.head.1, r.composition, r.tail, r.weight)).collect::<Vec<_>>().join("\n");
    ensure_eq!(li.0, nt(0), "initial nonterminal");
    ensure!(consistent(&lr, &li) || g.rules.iter().all(|r| r.head != 0), "the result is not a consistent LCFRS:\n{}", listing());
    ensure!(
        Lcfrs::new(lr.clone(), li.clone()).is_some() || g.rules.iter().all(|r| r.head != 0),
        "the result is not accepted as an LCFRS:\n{}",
        listing()
    );
    let max = if c.thorough { 6 } else { 4 };
    for h in (1..=max).rev() {
        let cap = 400;
        let want = derivs(&rules, &|n: &String| n.clone(), &nt(0), h, cap, &mut BTreeMap::new());
        let want = match want {
            Some(w) => w,
            None => continue,
        };
        let got = derivs(&lr, &|n: &(String, BTreeSet<usize>)| n.0.clone(), &li, h, 2 * cap, &mut BTreeMap::new())
            .ok_or_else(|| format!("many more derivations of height {} than in the MCFG ({})\n{}", h, want.len(), listing()))?;
        let sort = |v: &Vec<Deriv>| {
            let mut v = v.clone();
            v.sort_by(|a, b| (&a.0, &a.1).cmp(&(&b.0, &b.1)).then(a.2.partial_cmp(&b.2).unwrap()));
            v
        };
        let (want, got) = (sort(&want), sort(&got));
        ensure_eq!(got.len(), want.len(), "number of derivations of height up to {}\n{}", h, listing());
        for (x, y) in got.iter().zip(&want) {
            ensure!(
                x.0 == y.0 && x.1 == y.1 && closef(x.2, y.2),
                "derivations of height up to {} differ: {:?} instead of {:?}\n{}",
                h,
                x,
                y,
                listing()
            );
        }
        break;
    }
    Ok(())
}

// ------------------------------------------------------------------ G06
fn restrict(c: &mut Case) -> Res {
    let (mut rules, init, _) = any_rules(c);
    // favour grammars near the smaller classes
    if c.s.chance(1, 2) {
        for r in rules.iter_mut() {
            let cs: Vec<_> = r.composition.composition.drain(..).flatten().collect();
            r.composition.composition.push(
                cs.into_iter()
                    .map(|v| match v {
                        VarT::Var(i, j) if i < r.tail.len() => VarT::Var(i, if c.s.chance(1, 12) { j } else { 0 }),
                        v => v,
                    })
                    .collect(),
            );
        }
    }
    let ninit = c.s.pick(&[1, 1, 1, 0, 2, 3]).clone();
    let initial: Vec<String> = (0..ninit).map(|i| if i == 0 { init.clone() } else { nt(c.s.n(3)) }).collect();
    let p = PMCFG { initial: initial.clone(), rules: rules.clone() };
    c.text("PMCFG", p.to_string());
    c.nontrivial_if(rules.iter().any(|r| !r.tail.is_empty()));
    let linear = rules.iter().all(|r| {
        let mut seen = BTreeSet::new();
        r.composition.composition.iter().flatten().all(|v| match v {
            VarT::Var(i, j) => seen.insert((*i, *j)),
            _ => true,
        })
    });
    let m = Mcfg::from_pmcfg(p.clone());
    ensure_eq!(m.is_some(), linear && ninit == 1, "the PMCFG is accepted as an MCFG");
    let same = |a: &[PMCFGRule<String, String, f64>]| a == &rules[..] && a.iter().zip(&rules).all(|(x, y)| x.weight == y.weight);
    if let Some(m) = m {
        let q: PMCFG<_, _, _> = m.clone().into();
        ensure_eq!(q.initial, initial, "initial nonterminals of the MCFG as a PMCFG");
        ensure!(same(&q.rules), "rules of the MCFG as a PMCFG: {:?}", q.rules);
        let (rs, i) = m.destruct();
        ensure_eq!(i, initial[0], "initial nonterminal of the MCFG");
        ensure!(same(&rs), "rules of the MCFG: {:?}", rs);
        c.label("MCFG");
    }
    if let Some(l) = if ninit == 1 { Lcfrs::new(rules.clone(), init.clone()) } else { None } {
        let m: Mcfg<_, _, _> = l.into();
        let (rs, i) = m.destruct();
        ensure!(i == init && same(&rs), "the MCFG of an LCFRS differs: {:?}", rs);
    }
    let cf = rules.iter().all(|r| {
        r.composition.composition.len() == 1
            && r.composition.composition[0].iter().all(|v| match v {
                VarT::Var(i, j) => *j == 0 && *i < r.tail.len(),
                _ => true,
            })
    });
    let pl: PMCFG<String, String, W> = PMCFG {
        initial: initial.clone(),
        rules: rules
            .iter()
            .map(|r| PMCFGRule { head: r.head.clone(), tail: r.tail.clone(), composition: r.composition.clone(), weight: lw(r.weight) })
            .collect(),
    };
    let k = no_panic(|| CFG::from(pl));
    ensure_eq!(k.is_ok(), cf, "the PMCFG is accepted as a CFG ({:?})", k.as_ref().err());
    if let Ok(k) = k {
        c.label("CFG");
        ensure_eq!(k.initial, initial, "initial nonterminals of the CFG");
        ensure_eq!(k.rules.len(), rules.len(), "rules of the CFG");
        for (x, r) in k.rules.iter().zip(&rules) {
            let want: Vec<LetterT<String, String>> = r.composition.composition[0]
                .iter()
                .map(|v| match v {
                    VarT::T(t) => LetterT::Value(t.clone()),
                    VarT::Var(i, _) => LetterT::Label(r.tail[*i].clone()),
                })
                .collect();
            ensure!(
                x.head == r.head && x.composition.composition == want && x.weight == lw(r.weight),
                "rule {} becomes {}",
                r,
                x
            );
        }
    }
    Ok(())
}

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "G01",
            rule: "the grammar has at least one rule (two for the printed LCFRS)",
            assumptions: &[
                "tokens from a fixed pool of ASCII, multi-byte, special and escaped strings, none containing a newline; escapes in quoted tokens are kept as written",
                "f64 and log-domain weights; weights compare up to rounding",
            ],
            parts: vec![
                Part { name: "legal texts", quick: 240_000, thorough: 14_400_000, run: mcfg_text },
                Part { name: "printed grammars", quick: 120_000, thorough: 7_200_000, run: lcfrs_text },
            ],
        },
        Prop {
            id: "G02",
            rule: "the grammar has at least one rule",
            assumptions: &["tokens and weights as for G01"],
            parts: vec![Part { name: "legal texts", quick: 480_000, thorough: 28_800_000, run: cfg_text }],
        },
        Prop {
            id: "G04",
            rule: "some rule has a successor",
            assumptions: &["variable indices up to 4"],
            parts: vec![
                Part { name: "construction", quick: 500_000, thorough: 30_000_000, run: lcfrs_new },
                Part { name: "normal form", quick: 200_000, thorough: 12_000_000, run: normal_form },
            ],
        },
        Prop {
            id: "G05",
            rule: "some rule leaves out a component and there are at least three rules",
            assumptions: &["derivations are compared up to a height of 4 (thorough: 6), at most 400 per grammar"],
            parts: vec![Part { name: "deleting grammars", quick: 150_000, thorough: 5_000_000, run: to_lcfrs }],
        },
        Prop {
            id: "G06",
            rule: "some rule has a successor",
            assumptions: &[],
            parts: vec![Part { name: "restrictions", quick: 640_000, thorough: 38_400_000, run: restrict }],
        },
    ]
}
