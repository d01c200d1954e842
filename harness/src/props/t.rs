//! Text readers: any text, and the formats of disco-dop and rparse.
#[cfg(feature = "auto")]
use super::a;
use super::g;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use rustomata::grammars::cfg::{CFGRule, CFG};
use rustomata::grammars::lcfrs::from_discodop::{DiscoDopGrammar, DiscoLexer};
#[cfg(feature = "rparse")]
use rustomata::grammars::lcfrs::from_rparse::lcfrs_from_rparse;
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::pmcfg::{PMCFGRule, VarT, PMCFG};
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- G03
type Reader = (&'static str, fn(&str) -> bool);
const READERS: &[Reader] = &[
    ("rule of an MCFG", |t| t.parse::<PMCFGRule<String, String, W>>().is_ok()),
    ("rule of an MCFG over numbers", |t| t.parse::<PMCFGRule<usize, u8, f64>>().is_ok()),
    ("MCFG", |t| t.parse::<PMCFG<String, String, W>>().is_ok()),
    ("MCFG over characters", |t| t.parse::<PMCFG<char, char, f64>>().is_ok()),
    ("LCFRS", |t| t.parse::<Lcfrs<String, String, W>>().is_ok()),
    ("rule of a CFG", |t| t.parse::<CFGRule<String, String, W>>().is_ok()),
    ("rule of a CFG over numbers", |t| t.parse::<CFGRule<usize, u8, f64>>().is_ok()),
    ("CFG", |t| t.parse::<CFG<String, String, W>>().is_ok()),
    ("CFG over characters", |t| t.parse::<CFG<char, char, f64>>().is_ok()),
    ("disco-dop grammar", |t| t.parse::<DiscoDopGrammar<String, (), W>>().is_ok()),
    ("disco-dop grammar over characters", |t| t.parse::<DiscoDopGrammar<char, (), f64>>().is_ok()),
    ("disco-dop lexer", |t| t.parse::<DiscoLexer<String, String, W>>().is_ok()),
    ("disco-dop lexer over numbers", |t| t.parse::<DiscoLexer<usize, char, f64>>().is_ok()),
    #[cfg(feature = "rparse")]
    ("rparse grammar", |t| lcfrs_from_rparse::<String, W>(t).is_ok()),
    #[cfg(feature = "rparse")]
    ("rparse grammar", |t| lcfrs_from_rparse::<String, f64>(t).is_ok()),
    #[cfg(feature = "auto")]
    ("equivalence relation", |t| t.parse::<rustomata::approximation::equivalence_classes::EquivalenceRelation<String, String>>().is_ok()),
    #[cfg(feature = "auto")]
    ("equivalence relation over numbers", |t| t.parse::<rustomata::approximation::equivalence_classes::EquivalenceRelation<usize, u8>>().is_ok()),
    #[cfg(feature = "auto")]
    ("equivalence class", |t| t.parse::<rustomata::approximation::equivalence_classes::EquivalenceClass<String, usize>>().is_ok()),
    #[cfg(feature = "auto")]
    ("tree-stack automaton", |t| t.parse::<rustomata::automata::tree_stack_automaton::TreeStackAutomaton<String, String, W>>().is_ok()),
    #[cfg(feature = "auto")]
    ("tree-stack automaton over numbers", |t| t.parse::<rustomata::automata::tree_stack_automaton::TreeStackAutomaton<usize, char, W>>().is_ok()),
    #[cfg(feature = "auto")]
    ("tree-stack instruction", |t| t.parse::<rustomata::automata::tree_stack_automaton::TreeStackInstruction<String>>().is_ok()),
    #[cfg(feature = "auto")]
    ("finite-state automaton", |t| t.parse::<rustomata::automata::finite_state_automaton::FiniteStateAutomaton<String, String, W>>().is_ok()),
    #[cfg(feature = "auto")]
    ("finite-state automaton over numbers", |t| t.parse::<rustomata::automata::finite_state_automaton::FiniteStateAutomaton<usize, char, W>>().is_ok()),
    #[cfg(feature = "auto")]
    ("finite-state instruction", |t| t.parse::<rustomata::automata::finite_state_automaton::FiniteStateInstruction<usize>>().is_ok()),
    #[cfg(feature = "auto")]
    ("transition of a tree-stack automaton", |t| {
        t.parse::<rustomata::recognisable::Transition<rustomata::automata::tree_stack_automaton::TreeStackInstruction<String>, String, W>>().is_ok()
    }),
    #[cfg(feature = "auto")]
    ("transition of a finite-state automaton", |t| {
        t.parse::<rustomata::recognisable::Transition<rustomata::automata::finite_state_automaton::FiniteStateInstruction<usize>, char, f64>>().is_ok()
    }),
];
const PIECES: [&str; 88] = [
    "initial:", "initial: [S]", "final:", "final: [1]", "[", "]", "(", ")", "[[", "]]", "[[[", "→", "->", "=>", "-->", "#", "%", ",", ", ", ";", ":", "T", "T ", "T a", "Var",
    "Var 0 0", "Var 0", "Nt", "Nt A", "S", "A", "a", "0", "1", "2", "-1", "1/2", "/", "0.5", ".5", "1e5", "1e400", "nan", "inf", "-inf", "99999999999999999999999", "256", "4294967296",
    "18446744073709551616", "\"", "\"a\"", "\\", "\\\"", "\"\\", "Transition", "Transition [", "Up", "Push", "Down", "up", "push", "down", "*", "true", "false", "[false, true]", " ", "  ", "\t", "\n", "\n\n",
    "\r\n", "\r", "\u{b}", "\u{c}", "\u{0}", "\u{a0}", "\u{85}", "\u{2028}", "é", "Ò", "†", "日本", "𝛼", "½", "’", "01", "0101010101010101010101010101010101010101010101010101010101010101010101",
];
fn disco_lines(s: &mut Src, n: usize) -> Vec<String> {
    (0..n).map(|_| constituent(s).0).collect()
}
/// a text some reader accepts
fn legal(s: &mut Src) -> String {
    match s.n(8) {
        0 => g::text_rule(s).0,
        1 => g::cfg_rule_text(s).0,
        2 | 3 => {
            let cf = s.chance(1, 3);
            let n = s.range(0, 3);
            let rules = (0..n).map(|_| if cf { g::cfg_rule_text(s).0 } else { g::text_rule(s).0 }).collect();
            let init: Vec<String> = (0..s.small(2)).map(|_| g::token(s)).collect();
            let l = g::initial_lines(s, &init, 1);
            g::layout(s, rules, l)
        }
        4 => {
            let n = s.range(1, 3);
            disco_lines(s, n).join("\n")
        }
        5 => {
            let n = s.range(1, 3);
            (0..n).map(|_| lexer_line(s).0).collect::<Vec<_>>().join("\n")
        }
        6 => {
            let n = s.range(1, 3);
            (0..n).map(|_| clause(s).0).collect::<Vec<_>>().join("\n")
        }
        _ => automaton_text(s),
    }
}
#[cfg(feature = "auto")]
fn automaton_text(s: &mut Src) -> String {
    match s.n(3) {
        0 => {
            let x = a::gen_tsa(s);
            a::aut_text(s, &x)
        }
        1 => {
            let x = a::gen_fsa(s);
            a::aut_text(s, &x)
        }
        _ => "\"a b\" [a, \"b c\" ,d]\n\nX [e]\nB *\n".into(),
    }
}
#[cfg(not(feature = "auto"))]
fn automaton_text(_: &mut Src) -> String {
    "Transition [a] (0 → 1)".into()
}
fn any_text(c: &mut Case) -> Res {
    let s = &mut c.s;
    let mut t: Vec<char>;
    if s.chance(1, 3) {
        let n = s.range(0, 12);
        t = (0..n).flat_map(|_| s.pick(&PIECES).chars()).collect();
    } else {
        t = legal(s).chars().collect();
        for _ in 0..s.range(1, 4) {
            let (i, j) = (s.n(t.len() + 1), s.n(t.len() + 1));
            let (i, j) = (i.min(j), i.max(j));
            match s.weighted(&[4, 4, 2, 2, 1, 1, 2]) {
                0 => {
                    if i < t.len() {
                        t.remove(i);
                    }
                }
                1 => {
                    let p = s.pick(&PIECES).chars();
                    t = t[..i].iter().cloned().chain(p).chain(t[i..].iter().cloned()).collect();
                }
                2 => {
                    let p = s.pick(&PIECES).chars();
                    let e = t.len().min(i + s.n(3));
                    t = t[..i].iter().cloned().chain(p).chain(t[e..].iter().cloned()).collect();
                }
                3 => {
                    let e = j.min(i + 12);
                    t.drain(i..e);
                }
                4 => t.truncate(i),
                5 => {
                    let e = j.min(i + 20);
                    let part = t[i..e].to_vec();
                    t = t[..e].iter().cloned().chain(part).chain(t[e..].iter().cloned()).collect();
                }
                _ => {
                    if let Some(k) = t.iter().position(|x| x.is_ascii_digit()) {
                        let p = *s.pick(&["99999999999999999999999", "18446744073709551616", "-1", "x", "", "1e999", "½", "0x10"]);
                        t = t[..k].iter().cloned().chain(p.chars()).chain(t[k + 1..].iter().cloned()).collect();
                    }
                }
            }
        }
    }
    let t: String = t.into_iter().collect();
    c.text("text", &t);
    let mut accepted = 0;
    for (name, f) in READERS {
        match no_panic(|| f(&t)) {
            Ok(ok) => accepted += ok as usize,
            Err(e) => return Err(format!("reading a {} panics: {}", name, e)),
        }
        // each line by itself
    }
    for l in t.lines() {
        for (name, f) in READERS.iter().filter(|r| r.0.contains("rule") || r.0.contains("transition") || r.0.contains("instruction") || r.0.contains("class")) {
            match no_panic(|| f(l)) {
                Ok(ok) => accepted += ok as usize,
                Err(e) => return Err(format!("reading a {} from {:?} panics: {}", name, l, e)),
            }
        }
    }
    c.label(if accepted > 0 { "accepted by a reader" } else { "rejected by all" });
    c.nontrivial_if(t.len() >= 5);
    Ok(())
}
/// texts that are malformed for sure, among legal lines
fn malformed(c: &mut Case) -> Res {
    const BAD_WEIGHTS: [&str; 10] = ["x", "1.2.3", "0.5x", "1,5", "0x1", "1e", "½", "--", "0..5", "1.0.0"];
    const TOK: [&str; 6] = ["A", "B", "S", "a", "NP", "b1"];
    let s = &mut c.s;
    let kind = s.n(if cfg!(feature = "auto") { 7 } else { 4 });
    let w = *s.pick(&["0.5", "1", "0.125", "2e-1"]);
    let tk = |s: &mut Src| s.pick(&TOK).to_string();
    // a plain text in parts; a bracket, an arrow or a number is spoilt
    let good = |s: &mut Src| -> String {
        match kind {
            0 => {
                let n = s.range(1, 2);
                let comps: Vec<String> = (0..n)
                    .map(|_| {
                        let k = s.range(0, 3);
                        let ys: Vec<String> = (0..k).map(|_| if s.chance(1, 2) { format!("T {}", tk(s)) } else { format!("Var {} {}", s.n(2), s.n(2)) }).collect();
                        format!("[{}]", ys.join(", "))
                    })
                    .collect();
                let n = s.range(0, 2);
                let tail: Vec<String> = (0..n).map(|_| tk(s)).collect();
                format!("{} {} [{}] ({}) # {}", tk(s), s.pick(&["→", "->", "=>"]), comps.join(", "), tail.join(", "), w)
            }
            1 => {
                let k = s.range(0, 3);
                let ys: Vec<String> = (0..k).map(|_| format!("{} {}", s.pick(&["T", "Nt"]), tk(s))).collect();
                format!("{} {} [{}] # {}", tk(s), s.pick(&["→", "->", "=>"]), ys.join(", "), w)
            }
            2 => constituent(s).0,
            3 => clause(s).0,
            4 => {
                let ins = match s.n(3) {
                    0 => format!("Up {} {} {} {}", s.n(3), tk(s), tk(s), tk(s)),
                    1 => format!("Push {} {} {}", s.n(3), tk(s), tk(s)),
                    _ => format!("Down {} {} {}", tk(s), tk(s), tk(s)),
                };
                let n = s.range(0, 2);
                let v: Vec<String> = (0..n).map(|_| tk(s)).collect();
                format!("Transition [{}] ({}) # {}", v.join(", "), ins, w)
            }
            5 => {
                let n = s.range(0, 2);
                let v: Vec<String> = (0..n).map(|_| tk(s)).collect();
                format!("Transition [{}] ({} {} {}) # {}", v.join(", "), s.n(3), s.pick(&["→", "->"]), s.n(3), w)
            }
            _ => {
                let n = s.range(0, 3);
                let v: Vec<String> = (0..n).map(|k| format!("x{}", k)).collect();
                format!("{} [{}]", tk(s), v.join(", "))
            }
        }
    };
    let before = good(s);
    let line = good(s);
    let after = good(s);
    let bad;
    let what;
    let pos = |t: &str, set: &str| -> Vec<usize> { t.char_indices().filter(|(_, c)| set.contains(*c)).map(|x| x.0).collect() };
    if kind == 2 {
        let mut cols: Vec<String> = line.split('\t').map(|x| x.to_string()).collect();
        let n = cols.len();
        match s.n(4) {
            0 => {
                what = "weight";
                cols[n - 1] = s.pick(&["x", "1/", "/2", "1/2/3", "1/x", "-1", "1;", "½"]).to_string();
            }
            1 => {
                what = "yield function";
                cols[n - 2] = s.pick(&["2", "01x", "0,2", "0,1,", "x", ",", "0;1", "0.1"]).to_string();
            }
            2 => {
                what = "too many columns";
                cols.push("1".into());
                if n == 4 {
                    cols.push("1".into());
                }
            }
            _ => {
                what = "missing columns";
                cols.truncate(s.range(1, 3));
            }
        }
        bad = cols.join("\t");
    } else {
        let brackets = pos(&line, "[]()");
        let mut t = line.clone();
        match s.n(3) {
            0 => {
                what = "bracket";
                // rparse tokens may contain brackets
                let b: Vec<usize> = if kind == 3 { pos(&line, "[]").into_iter().rev().take(3).collect() } else { brackets };
                t.remove(b[s.n(b.len())]);
            }
            1 if kind != 4 && kind != 6 => {
                what = "arrow";
                for x in &["-->", "→", "->", "=>"] {
                    if let Some(k) = t.find(x) {
                        t.replace_range(k..k + x.len(), *s.pick(&["", "-", ">"]));
                        break;
                    }
                }
            }
            _ if kind == 6 => {
                what = "label";
                t = t.split_off(t.find(' ').unwrap());
            }
            _ => {
                what = "weight";
                let x = *s.pick(&BAD_WEIGHTS);
                if kind == 3 {
                    let (i, j) = (t.find(' ').unwrap() + 1, t.find(':').unwrap());
                    t.replace_range(i..j, x);
                } else {
                    let k = t.rfind('#').unwrap() + 2;
                    t.truncate(k);
                    t += x;
                }
            }
        }
        bad = t;
    }
    let mut lines = vec![];
    if s.chance(1, 2) {
        lines.push(before);
    }
    lines.push(bad.clone());
    if s.chance(1, 2) {
        lines.push(after);
    }
    let decl = match kind {
        0 | 1 => "initial: [S]\n",
        4 => "initial: A\n",
        5 => "initial: 0\nfinal: [1]\n",
        6 => "other *\n",
        _ => "",
    };
    let text = format!("{}{}", decl, lines.join("\n"));
    c.text("text", &text);
    c.text("malformed", format!("{}: {}", what, bad));
    c.label(match kind {
        0 => "MCFG",
        1 => "CFG",
        2 => "disco-dop",
        3 => "rparse",
        6 => "classes",
        _ => "automaton",
    });
    c.nontrivial_if(lines.len() > 1);
    // with its legal lines only, the text is read
    let names: &[&str] = match kind {
        0 => &["MCFG", "LCFRS"],
        1 => &["CFG"],
        2 => &["disco-dop grammar"],
        3 => &["rparse grammar"],
        4 => &["tree-stack automaton"],
        5 => &["finite-state automaton"],
        _ => &["equivalence relation"],
    };
    let single: &[&str] = match kind {
        0 => &["rule of an MCFG"],
        1 => &["rule of a CFG"],
        4 => &["transition of a tree-stack automaton"],
        5 => &["transition of a finite-state automaton"],
        6 => &["equivalence class"],
        _ => &[],
    };
    for (name, f) in READERS {
        if names.contains(name) {
            let good = format!("{}{}", decl, line);
            ensure!(f(&good), "a {} is refused: {}", name, good);
            match no_panic(|| f(&text)) {
                Ok(ok) => ensure!(!ok, "a {} with a malformed {} is accepted", name, what),
                Err(e) => return Err(format!("reading a {} panics: {}", name, e)),
            }
        }
        if single.contains(name) && !(kind == 6 && bad.starts_with(' ')) {
            match no_panic(|| f(&bad)) {
                Ok(ok) => ensure!(!ok, "a {} with a malformed {} is accepted", name, what),
                Err(e) => return Err(format!("reading a {} panics: {}", name, e)),
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- G07
const NTS: [&str; 12] = ["S", "NP", "VP", "ROOT", "NP|<DET>", "NP_2", "01", "1/2", "é→", "$,", "VROOT1", "%#"];
const WORDS: [&str; 9] = ["the", "\"", "#", "1/2", "日本", "a,b", "-", "NP", "[["];
struct Const {
    lhs: String,
    rhs: Vec<String>,
    comp: Vec<Vec<VarT<String>>>,
    w: f64,
}
fn count(s: &mut Src) -> (String, f64) {
    let a = if s.chance(1, 10) { 1_000_000_007 } else { s.range(1, 40) };
    let zeros = |s: &mut Src| "0".repeat(if s.chance(1, 60) { s.range(1, 12) } else { 0 });
    if s.chance(1, 2) {
        (zeros(s) + &a.to_string(), a as f64)
    } else {
        let b = s.range(1, 30);
        (format!("{}{}/{}{}", zeros(s), a, zeros(s), b), a as f64 / b as f64)
    }
}
fn digits(s: &mut Src, binary: bool) -> Vec<Vec<bool>> {
    let fan = s.tail(1, 4, 14);
    (0..fan)
        .map(|_| {
            let n = if s.chance(1, 40) { s.range(20, 64) } else { s.range(1, 4) };
            (0..n).map(|_| binary && s.chance(1, 2)).collect()
        })
        .collect()
}
fn composition(ds: &[Vec<bool>]) -> Vec<Vec<VarT<String>>> {
    // each successor's components are used from left to right
    let mut next = [0, 0];
    ds.iter()
        .map(|c| {
            c.iter()
                .map(|d| {
                    let i = *d as usize;
                    next[i] += 1;
                    VarT::Var(i, next[i] - 1)
                })
                .collect()
        })
        .collect()
}
fn constituent(s: &mut Src) -> (String, Const) {
    let binary = s.chance(2, 3);
    let lhs = s.pick(&NTS).to_string();
    let rhs: Vec<String> = (0..1 + binary as usize).map(|_| s.pick(&NTS).to_string()).collect();
    let ds = digits(s, binary);
    let y: Vec<String> = ds.iter().map(|c| c.iter().map(|d| if *d { '1' } else { '0' }).collect()).collect();
    let (wt, w) = count(s);
    (format!("{}\t{}\t{}\t{}", lhs, rhs.join("\t"), y.join(","), wt), Const { lhs, rhs, comp: composition(&ds), w })
}
fn lexer_line(s: &mut Src) -> (String, Vec<(String, String, f64)>) {
    let word = s.pick(&WORDS).to_string();
    let n = s.tail(1, 3, 14);
    let mut t = word.clone();
    let mut out = vec![];
    for _ in 0..n {
        let pos = s.pick(&NTS).to_string();
        let (wt, w) = count(s);
        t += &format!("\t{}\t{}", pos, wt);
        out.push((word.clone(), pos, w));
    }
    (t, out)
}
type Row = (String, Vec<String>, Vec<Vec<VarT<String>>>, f64);
fn same_rules<W2: Clone>(got: &[PMCFGRule<String, String, W2>], want: &[Row], value: impl Fn(&W2) -> f64) -> Res {
    ensure_eq!(got.len(), want.len(), "number of rules");
    for (k, (g, (h, t, c, w))) in got.iter().zip(want).enumerate() {
        ensure_eq!(g.head, *h, "head of rule {}", k);
        ensure_eq!(g.tail, *t, "successors of rule {}", k);
        ensure_eq!(g.composition.composition, *c, "composition of rule {}", k);
        let v = value(&g.weight);
        ensure!(relf(v, *w), "weight of rule {} is {} instead of {}", k, v, w);
    }
    Ok(())
}
fn disco(c: &mut Case) -> Res {
    let s = &mut c.s;
    let n = s.tail(1, 6, 60);
    let (lines, cs): (Vec<String>, Vec<Const>) = (0..n).map(|_| constituent(s)).unzip();
    let m = s.tail(0, 4, 40);
    let (llines, lex): (Vec<String>, Vec<Vec<(String, String, f64)>>) = (0..m).map(|_| lexer_line(s)).unzip();
    let lex: Vec<_> = lex.into_iter().flatten().collect();
    let sep = *s.pick(&["\t", "\t", "\t\t", " ", " \t "]);
    let end = |s: &mut Src| *s.pick(&["", "\n"]);
    let text = lines.join("\n").replace('\t', sep) + end(s);
    let ltext = llines.join("\n").replace('\t', sep) + if m == 0 { "" } else { end(s) };
    let mode = s.n(3);
    c.text("grammar", &text);
    if mode == 0 {
        c.text("lexer", &ltext);
    }
    let mut lexical: Vec<(String, String, f64)> = vec![];
    if mode == 0 {
        lexical = lex.clone();
    } else if mode == 1 {
        let heads: BTreeSet<&String> = cs.iter().map(|c| &c.lhs).collect();
        let pos: BTreeSet<&String> = cs.iter().flat_map(|c| &c.rhs).filter(|a| !heads.contains(a)).collect();
        lexical = pos.into_iter().map(|a| (a.clone(), a.clone(), 1.0)).collect();
    }
    let mut total: BTreeMap<&String, f64> = BTreeMap::new();
    for (a, w) in cs.iter().map(|c| (&c.lhs, c.w)).chain(lexical.iter().map(|l| (&l.1, l.2))) {
        *total.entry(a).or_insert(0.0) += w;
    }
    let mut want: Vec<Row> = cs.iter().map(|c| (c.lhs.clone(), c.rhs.clone(), c.comp.clone(), c.w / total[&c.lhs])).collect();
    want.extend(lexical.iter().map(|(w, p, v)| (p.clone(), vec![], vec![vec![VarT::T(w.clone())]], v / total[p])));
    let d: DiscoDopGrammar<String, (), f64> = text.parse().map_err(|e| format!("the grammar is refused: {:?}", e))?;
    let e: DiscoDopGrammar<String, (), W> = text.parse().map_err(|e| format!("the grammar is refused with log-domain weights: {:?}", e))?;
    let (rules, init): (Vec<PMCFGRule<String, String, f64>>, String);
    let (lrules, linit): (Vec<PMCFGRule<String, String, W>>, String);
    match mode {
        0 => {
            let x: DiscoLexer<String, String, f64> = ltext.parse().map_err(|e| format!("the lexer is refused: {:?}", e))?;
            let y: DiscoLexer<String, String, W> = ltext.parse().map_err(|e| format!("the lexer is refused with log-domain weights: {:?}", e))?;
            let p = Lcfrs::from(d.with_lexer(x)).destruct();
            rules = p.0;
            init = p.1;
            let p = Lcfrs::from(e.with_lexer(y)).destruct();
            lrules = p.0;
            linit = p.1;
        }
        1 => {
            let p = Lcfrs::from(d.with_default_lexer()).destruct();
            rules = p.0;
            init = p.1;
            let p = Lcfrs::from(e.with_default_lexer()).destruct();
            lrules = p.0;
            linit = p.1;
        }
        _ => {
            // rules only
            let strip = |c: rustomata::grammars::pmcfg::Composition<()>| {
                let v: Vec<Vec<VarT<String>>> = c.composition.into_iter().map(|k| k.into_iter().map(|y| match y {
                    VarT::Var(i, j) => VarT::Var(i, j),
                    VarT::T(_) => VarT::T("terminal".to_string()),
                }).collect()).collect();
                v.into()
            };
            let p = Lcfrs::from(d).destruct();
            rules = p.0.into_iter().map(|r| PMCFGRule { head: r.head, tail: r.tail, composition: strip(r.composition), weight: r.weight }).collect();
            init = p.1;
            let p = Lcfrs::from(e).destruct();
            lrules = p.0.into_iter().map(|r| PMCFGRule { head: r.head, tail: r.tail, composition: strip(r.composition), weight: r.weight }).collect();
            linit = p.1;
        }
    }
    ensure_eq!(init, "ROOT", "initial nonterminal");
    ensure_eq!(linit, "ROOT", "initial nonterminal");
    // the order of the rules for preterminals does not matter
    let sort = |v: Vec<PMCFGRule<String, String, f64>>| -> Vec<_> {
        let mut v = v;
        let k = n.min(v.len());
        if mode == 1 {
            v[k..].sort_by(|a, b| a.head.cmp(&b.head));
        }
        v
    };
    same_rules(&sort(rules), &want, |w| *w)?;
    same_rules(&sort(lrules.into_iter().map(|r| PMCFGRule { head: r.head, tail: r.tail, composition: r.composition, weight: ln(r.weight).exp() }).collect()), &want, |w| *w)?;
    c.label(["lexer", "default lexer", "no lexer"][mode]);
    c.nontrivial_if(n >= 2 && cs.iter().any(|c| c.comp.iter().map(|k| k.len()).sum::<usize>() >= 2));
    Ok(())
}

// ---------------------------------------------------------------- G08
fn clause(s: &mut Src) -> (String, (Row, String)) {
    let binary = s.chance(2, 3);
    let lhs = s.pick(&NTS).to_string();
    let rhs: Vec<String> = (0..1 + binary as usize).map(|_| s.pick(&["S1", "$.1", "@^PP2^VP3-APPRART1X2", "$(1", "N:P", "é", "NP2"]).to_string()).collect();
    let ds = digits(s, binary);
    let fixed = *s.pick(&[("0.66", 0.66), ("6.047046018020197E-5", 6.047046018020197E-5), ("1", 1.0), ("1.0", 1.0), ("0.006557377049180328", 0.006557377049180328), ("0.5", 0.5)]);
    let (wt, w): (String, f64) = if s.chance(1, 2) {
        (fixed.0.to_string(), fixed.1)
    } else {
        let t = match s.n(3) {
            0 => format!("0.{}", s.range(1, 99999)),
            1 => format!("{}.{}E-{}", s.range(1, 9), s.range(0, 999), s.range(1, 30)),
            _ => s.range(1, 2000).to_string(),
        };
        let w = t.parse().unwrap();
        (t, w)
    };
    let y: Vec<String> = ds.iter().map(|c| format!("[{}]", c.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(", "))).collect();
    let gap = *s.pick(&[" ", "  "]);
    let t = format!("{} {}:{} --> {}{}[[{}]]", s.range(1, 20000), wt, lhs, rhs.join(" "), gap, y.join(", "));
    (t, ((lhs, rhs, composition(&ds), w), String::new()))
}
#[cfg(feature = "rparse")]
fn rparse(c: &mut Case) -> Res {
    let s = &mut c.s;
    let n = s.tail(1, 6, 60);
    let (lines, rows): (Vec<String>, Vec<(Row, String)>) = (0..n).map(|_| clause(s)).unzip();
    let rows: Vec<Row> = rows.into_iter().map(|r| r.0).collect();
    let text = lines.join("\n") + *s.pick(&["", "\n"]);
    c.text("grammar", &text);
    let l = lcfrs_from_rparse::<String, f64>(&text).map_err(|_| "the grammar is refused")?;
    let m = lcfrs_from_rparse::<String, W>(&text).map_err(|_| "the grammar is refused with log-domain weights")?;
    let strip = |r: PMCFGRule<String, (), f64>| -> PMCFGRule<String, String, f64> {
        let v: Vec<Vec<VarT<String>>> = r.composition.composition.into_iter().map(|k| k.into_iter().map(|y| match y {
            VarT::Var(i, j) => VarT::Var(i, j),
            VarT::T(_) => VarT::T("terminal".to_string()),
        }).collect()).collect();
        PMCFGRule { head: r.head, tail: r.tail, composition: v.into(), weight: r.weight }
    };
    let (rules, init) = l.destruct();
    ensure_eq!(init, "VROOT1", "initial nonterminal");
    same_rules(&rules.into_iter().map(&strip).collect::<Vec<_>>(), &rows, |w| *w)?;
    let (rules, _) = m.destruct();
    same_rules(
        &rules.into_iter().map(|r| strip(PMCFGRule { head: r.head, tail: r.tail, composition: r.composition, weight: ln(r.weight).exp() })).collect::<Vec<_>>(),
        &rows,
        |w| *w,
    )?;
    c.nontrivial_if(n >= 2);
    Ok(())
}

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "G03",
            rule: "a text of at least five bytes, or a malformed line among others",
            assumptions: &["texts of at most a few hundred characters"],
            parts: vec![
                Part { name: "any text", quick: 600_000, thorough: 36_000_000, run: any_text },
                Part { name: "malformed", quick: 300_000, thorough: 18_000_000, run: malformed },
            ],
        },
        Prop {
            id: "G07",
            rule: "at least two rules, one with two variables",
            assumptions: &["positive weights, components of at most 64 variables, no empty components"],
            parts: vec![Part { name: "files", quick: 450_000, thorough: 27_000_000, run: disco }],
        },
        #[cfg(feature = "rparse")]
        Prop {
            id: "G08",
            rule: "at least two clauses",
            assumptions: &["read through a hook, since the reader is private to the crate"],
            parts: vec![Part { name: "files", quick: 450_000, thorough: 27_000_000, run: rparse }],
        },
    ]
}
