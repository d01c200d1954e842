//! The command line program, run as a process.
use super::a::*;
use super::c::*;
use super::d::export;
use super::x::firm_grammar;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use flate2::{write::GzEncoder, Compression};
use rustomata::approximation::equivalence_classes::EquivalenceRelation;
use rustomata::approximation::relabel::RlbElement;
use rustomata::approximation::tts::TTSElement;
use rustomata::approximation::ApproximationStrategy;
use rustomata::automata::push_down_automaton::PushState;
use rustomata::automata::tree_stack_automaton::to_abstract_syntax_tree;
use rustomata::grammars::lcfrs::csparsing::{CSRepresentation, DebugResult};
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::pmcfg::negra::{noparse, to_negra, DumpMode};
use rustomata::recognisable::Recognisable;
use std::collections::BTreeMap;
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

// ---------------------------------------------------------------- processes
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Result<Self, String> {
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = std::env::temp_dir().join(format!("vh-cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).map_err(|e| format!("(environment) no scratch directory: {}", e))?;
        Ok(Scratch(p))
    }
    fn file(&self, name: &str, content: &[u8]) -> Result<String, String> {
        let p = self.0.join(name);
        std::fs::write(&p, content).map_err(|e| format!("(environment) {}: {}", name, e))?;
        Ok(p.to_str().unwrap().to_string())
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn bin() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("rustomata-cli")
}
fn raw(args: &[&str], input: &[u8]) -> Result<(Vec<u8>, String), String> {
    let shown = format!("rustomata {}", args.iter().map(|a| a.rsplit('/').next().unwrap()).collect::<Vec<_>>().join(" "));
    let mut p = Command::new("timeout")
        .arg("60")
        .arg(bin())
        .args(args)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("(environment) cannot start the program: {}", e))?;
    // a program that does not read its input is not at fault
    let _ = p.stdin.take().unwrap().write_all(input);
    let out = p.wait_with_output().map_err(|e| format!("(environment) {}", e))?;
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    match out.status.code() {
        Some(0) => Ok((out.stdout, err)),
        Some(124) => Err(format!("{} does not end", shown)),
        c => Err(format!("{} ends with status {:?}: {}", shown, c, err)),
    }
}
fn cli(args: &[&str], input: &str) -> Result<(String, String), String> {
    let (o, e) = raw(args, input.as_bytes())?;
    Ok((String::from_utf8(o).map_err(|_| "the output is no text".to_string())?, e))
}
fn gz(t: &str) -> Vec<u8> {
    let mut e = GzEncoder::new(Vec::new(), Compression::fast());
    e.write_all(t.as_bytes()).unwrap();
    e.finish().unwrap()
}
/// lines of words, laid out differently
fn corpus(s: &mut Src, lines: &[Vec<String>]) -> String {
    let mut t = String::new();
    for (k, l) in lines.iter().enumerate() {
        t += *s.pick(&["", "", " "]);
        for (i, w) in l.iter().enumerate() {
            if i > 0 {
                t += *s.pick(&[" ", " ", "  ", "\t"]);
            }
            t += w;
        }
        t += *s.pick(&["", "", " "]);
        if k + 1 < lines.len() || l.is_empty() || s.chance(2, 3) {
            t += "\n";
        }
    }
    t
}

// ---------------------------------------------------------------- expected trees
/// names of nonterminals and terminals
struct Names {
    nts: Vec<String>,
    ts: BTreeMap<usize, String>,
}
impl Names {
    fn plain(g: &G) -> Self {
        Names { nts: (0..g.fan.len()).map(nt).collect(), ts: (0..26).map(|t| (t, term(t))).collect() }
    }
}
/// words of the tree with the addresses of their rules
fn tokens(g: &G, t: &Tree, n: &Names) -> Vec<(String, Vec<usize>)> {
    fn go(g: &G, t: &Tree, at: &mut Vec<usize>, n: &Names) -> Vec<Vec<(String, Vec<usize>)>> {
        let kids: Vec<_> = t
            .kids
            .iter()
            .enumerate()
            .map(|(i, k)| {
                at.push(i);
                let v = go(g, k, at, n);
                at.pop();
                v
            })
            .collect();
        g.rules[t.rule]
            .comp
            .iter()
            .map(|c| {
                c.iter()
                    .flat_map(|y| match y {
                        Y::T(w) => vec![(n.ts[w].clone(), at.clone())],
                        Y::V(i, j) => kids[*i][*j].clone(),
                    })
                    .collect()
            })
            .collect()
    }
    go(g, t, &mut vec![], n).remove(0)
}
/// the blocks show the best of these derivations, in order
fn best_blocks(g: &G, n: &Names, all: &[std::rc::Rc<Tree>], blocks: &[String], id: usize, given: Option<&[String]>) -> Res {
    let mut ws: Vec<f64> = all.iter().map(|t| g.weight(t)).collect();
    ws.sort_by(|a, b| b.partial_cmp(a).unwrap());
    let mut used = vec![false; all.len()];
    for (j, b) in blocks.iter().enumerate() {
        let mut ok = false;
        let mut other = None;
        let mut last = String::new();
        for (i, t) in all.iter().enumerate() {
            if used[i] {
                continue;
            }
            let mut toks = tokens(g, t, n);
            if let Some(given) = given {
                for (x, w) in toks.iter_mut().zip(given) {
                    x.0 = w.clone();
                }
            }
            let m = t.addresses();
            match export(b, id, &toks, &|a| n.nts[g.rules[m[a]].head].clone()) {
                Ok(()) => {
                    if relf(g.weight(t), ws[j]) {
                        used[i] = true;
                        ok = true;
                        break;
                    }
                    other = Some(g.weight(t));
                }
                Err(e) => last = e,
            }
        }
        if !ok {
            return Err(match other {
                Some(w) => format!("block {} has weight {} instead of {}:\n{}", j, w, ws[j], b),
                None => format!("block {} is no derivation that is left ({}):\n{}", j, last, b),
            });
        }
    }
    Ok(())
}
/// the blocks of an output
fn blocks(out: &str) -> Result<Vec<String>, String> {
    let mut v = vec![];
    let mut cur: Vec<&str> = vec![];
    for l in out.lines() {
        ensure!(!cur.is_empty() || l.starts_with("#BOS "), "a line outside of blocks: {:?}", l);
        cur.push(l);
        if l.starts_with("#EOS ") {
            v.push(cur.join("\n"));
            cur.clear();
        }
    }
    ensure!(cur.is_empty(), "the last block is not complete");
    Ok(v)
}
/// a new initial nonterminal above the old one, so that no tree is a single terminal
fn lift(g: &G) -> G {
    let mut fan = vec![1];
    fan.extend(&g.fan);
    let mut rules = vec![R { head: 0, tail: vec![1], comp: vec![vec![Y::V(0, 0)]], w: 1.0 }];
    rules.extend(g.rules.iter().map(|r| R { head: r.head + 1, tail: r.tail.iter().map(|b| b + 1).collect(), comp: r.comp.clone(), w: r.w }));
    G { init: vec![0], fan, rules }
}

// ---------------------------------------------------------------- Chomsky-Schützenberger parsing
const TREES: u64 = 400;
struct Line {
    w: Vec<usize>,
    all: Vec<std::rc::Rc<Tree>>,
    cands: u64,
}
fn lines(s: &mut Src, g: &G, terms: usize) -> Option<Vec<Line>> {
    let many = s.chance(1, 40);
    let (n, max) = if many { (s.range(13, 40), 3) } else { (s.range(1, 4), 7) };
    let mut out = vec![];
    for _ in 0..n {
        let mut w = match s.n(2) {
            0 => loose_word(g, s, max),
            _ => g.gen_word(s, max, terms),
        };
        if s.chance(1, 12) {
            w.push(25);
        }
        let cands = if w.is_empty() { 0 } else { Candidates::new(g, &w).count(0, 0, 0, w.len()) };
        let mut p = Parser::new(g, &w, 3000);
        let all = p.all();
        if p.overflow || p.cyclic || cands > TREES {
            continue;
        }
        out.push(Line { w, all, cands });
    }
    if out.is_empty() {
        None
    } else {
        Some(out)
    }
}
fn trees(c: &mut Case) -> Res {
    let s = &mut c.s;
    let o = GenOpts { max_nts: 4, normal_form: true, max_extra: 6, ..GenOpts::default() };
    let disco = s.chance(1, 3);
    let o = if disco { GenOpts { max_rank: 2, monotone: true, ..o } } else { o };
    let mix = !disco && s.chance(1, 2);
    let mut g = lift(&if mix { mixed(s) } else { G::generate(s, &o) });
    let disco = disco && g.rules.iter().all(|r| r.tail.len() <= 2);
    let default_lexer = disco && s.chance(1, 2);
    let mut names = Names::plain(&g);
    let mut counts = vec![];
    if disco {
        names.nts[0] = "ROOT".into();
        if default_lexer {
            // preterminals that occur on right-hand sides only
            for t in 0..o.terms {
                let p = g.fan.len();
                g.fan.push(1);
                let mut any = false;
                for r in g.rules.iter_mut().filter(|r| r.comp == vec![vec![Y::T(t)]]) {
                    *r = R { head: r.head, tail: vec![p], comp: vec![vec![Y::V(0, 0)]], w: 1.0 };
                    any = true;
                }
                names.nts.push(format!("P{}", t));
                names.ts.insert(t, format!("P{}", t));
                if any {
                    g.rules.push(R { head: p, tail: vec![], comp: vec![vec![Y::T(t)]], w: 1.0 });
                }
            }
        }
        counts = g.rules.iter().map(|r| if default_lexer && r.tail.is_empty() { 1 } else { s.range(1, 9) }).collect();
        let mut total = vec![0; g.fan.len()];
        for (r, n) in g.rules.iter().zip(&counts) {
            total[r.head] += n;
        }
        for (r, n) in g.rules.iter_mut().zip(&counts) {
            r.w = *n as f64 / total[r.head] as f64;
        }
    }
    if chain_cyclic(&g) {
        c.label("circular component chains");
        return Ok(());
    }
    let ls = match lines(s, &g, if mix { 3 } else { o.terms }) {
        Some(l) => l,
        None => return Ok(()),
    };
    let opt = |s: &mut Src| s.chance(1, 3);
    let (with_k, with_ids, with_pos, with_fallback, debug, zipped, by_path) = (s.chance(2, 3), opt(s), opt(s), !disco && s.chance(1, 2), s.chance(1, 6), opt(s), opt(s));
    let k = if with_k { s.range(1, 5) } else { 1 };
    let width = s.small(3).to_string();
    // options that restrict nothing, or (for grammars in rustomata's format) something
    let restricted = !disco && s.chance(1, 3);
    let mut limits: Vec<(&str, &str)> = vec![];
    if restricted {
        while limits.is_empty() {
            if s.chance(1, 2) {
                limits.push((*s.pick(&["-b", "--beam"]), *s.pick(&["1", "2", "3", "4", "0"])));
            }
            if s.chance(1, 2) {
                limits.push((*s.pick(&["-t", "--threshold"]), *s.pick(&["0.5", "0.1", "1", "0.02", "0"])));
            }
            if s.chance(1, 2) {
                limits.push((*s.pick(&["-c", "--candidates"]), *s.pick(&["1", "2", "3", "7", "0"])));
            }
        }
    } else if opt(s) {
        limits.push((*s.pick(&["--candidates", "--beam", "-c", "-b"]), "100000"));
    }
    let short = s.chance(1, 2);
    let grammar: String;
    let mut lexer = None;
    if disco {
        let mut constituents = vec![];
        let mut lex: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for (r, n) in g.rules.iter().zip(&counts) {
            if let [Y::T(t)] = r.comp[0][..] {
                lex.entry(names.ts[&t].clone()).or_default().push(format!("{}\t{}", names.nts[r.head], n));
            } else {
                let y: Vec<String> = r.comp.iter().map(|c| c.iter().map(|v| if let Y::V(1, _) = v { '1' } else { '0' }).collect()).collect();
                let rhs: Vec<&str> = r.tail.iter().map(|b| &names.nts[*b][..]).collect();
                constituents.push(format!("{}\t{}\t{}\t{}", names.nts[r.head], rhs.join("\t"), y.join(","), n));
            }
        }
        grammar = constituents.join("\n") + "\n";
        if !default_lexer {
            lexer = Some(lex.into_iter().map(|(w, v)| format!("{}\t{}", w, v.join("\t"))).collect::<Vec<_>>().join("\n") + "\n");
        }
    } else {
        grammar = show(&g);
    }
    let ids: Vec<usize> = (0..ls.len()).map(|i| if with_ids { *s.pick(&[0, 7, 12, 500, 4711]) } else { i }).collect();
    let ws: Vec<Vec<String>> = ls.iter().map(|l| l.w.iter().map(|t| names.ts[t].clone()).collect()).collect();
    let given: Vec<Vec<String>> = ws.iter().map(|l| (0..l.len()).map(|j| ["x", "1/2", "é", "/"][s.n(4)].to_string() + &j.to_string()).collect()).collect();
    let text: Vec<Vec<String>> = ws
        .iter()
        .enumerate()
        .map(|(i, l)| {
            let mut v = vec![];
            if with_ids {
                v.push(ids[i].to_string());
            }
            v.extend(l.iter().enumerate().map(|(j, w)| if with_pos { format!("{}/{}", given[i][j], w) } else { w.clone() }));
            v
        })
        .collect();
    let input = corpus(s, &text);
    let dir = Scratch::new()?;
    let as_file = |t: &str, z: bool| if z { gz(t) } else { t.as_bytes().to_vec() };
    let z = disco && !zipped || !disco && zipped;
    let gf = dir.file("grammar", &as_file(&grammar, z))?;
    let mut args = vec!["csparsing", "extract", "-s", &width];
    let lf;
    if disco {
        args.push("--disco");
        if zipped {
            args.push("--unzipped");
        }
        if let Some(ref l) = lexer {
            lf = dir.file("lexer", &as_file(l, z))?;
            args.extend(&["--lexer", &lf]);
        }
    } else if zipped {
        args.push("--zipped");
    }
    if by_path {
        args.push(&gf);
    }
    let mut popts = vec![];
    let ks = k.to_string();
    if with_k {
        popts.extend(&["-k", &ks]);
    }
    if with_ids {
        popts.push(if short { "-l" } else { "--with-lines" });
    }
    if with_pos {
        popts.push(if short { "-p" } else { "--with-pos" });
    }
    if with_fallback {
        popts.push(if short { "-f" } else { "--with-fallback" });
    }
    if debug {
        popts.push(if short { "-d" } else { "--debug" });
    }
    for (a, b) in &limits {
        popts.extend(&[*a, *b]);
    }
    c.text("grammar", &grammar);
    if let Some(ref l) = lexer {
        c.text("lexer", l);
    }
    c.note("extract", args.iter().map(|a| a.rsplit('/').next().unwrap()).collect::<Vec<_>>());
    c.note("parse", &popts);
    c.text("input", &input);
    if disco {
        c.label("disco-dop grammar");
    }
    let (cs, _) = if by_path { raw(&args, b"")? } else { raw(&args, &as_file(&grammar, z))? };
    let cf = dir.file("representation", &cs)?;
    let mut pargs = vec!["csparsing", "parse"];
    pargs.extend(popts);
    pargs.push(&cf);
    let (out, err) = cli(&pargs, &input)?;
    let mut bs = blocks(&out)?.into_iter();
    let stats: Vec<Vec<&str>> = err.lines().map(|l| l.split(' ').collect()).collect();
    if debug {
        ensure_eq!(stats.len(), ls.len(), "lines of statistics");
        c.label("statistics");
    } else {
        ensure!(err.is_empty(), "the program prints errors: {}", err);
    }
    // fallbacks are the ones of the library
    let lib = CSRepresentation::<String, String, W>::new(Lcfrs::new(g.rules.iter().map(rule).collect::<Vec<_>>(), nt(0)).ok_or("the LCFRS is refused")?, width.parse().unwrap());
    let mut parser = lib.build_generator();
    if restricted {
        c.label("restricted");
        for (a, b) in &limits {
            match a.trim_start_matches('-').chars().next() {
                Some('b') => parser.set_beam(b.parse().unwrap()),
                Some('c') => parser.set_candidates(b.parse().unwrap()),
                _ => parser.set_delta(lw(b.parse().unwrap())),
            }
        }
    }
    for (i, l) in ls.iter().enumerate() {
        let mode = || if with_pos { DumpMode::FromPos(given[i].clone()) } else { DumpMode::Default };
        let what = format!("sentence {}", i);
        if restricted {
            let (want, kind, n) = if debug {
                match parser.debug(&ws[i]).3 {
                    DebugResult::Parse(t, n) => (vec![to_negra(&t, ids[i], mode())], "parse", n),
                    DebugResult::Fallback(t, n) => (vec![to_negra(&t, ids[i], mode())], "fallback", n),
                    DebugResult::Noparse => (vec![noparse(&ws[i], ids[i], mode())], "noparse", 0),
                }
            } else {
                let (it, fb) = parser.with_fallback(&ws[i]);
                let found: Vec<String> = it.take(k).map(|t| to_negra(&t.into_iter().map(|(a, r)| (a, r.clone())).collect(), ids[i], mode())).collect();
                match fb {
                    _ if !found.is_empty() => (found, "", 0),
                    Some(ref t) if with_fallback => (vec![to_negra(t, ids[i], mode())], "", 0),
                    _ => (vec![noparse(&ws[i], ids[i], mode())], "", 0),
                }
            };
            let mine: Vec<String> = bs.by_ref().take(want.len()).collect();
            ensure_eq!(mine, want, "{}: trees", what);
            if debug {
                let f = &stats[i];
                ensure_eq!(f.len(), 5, "{}: statistics {:?}", what, f);
                ensure_eq!(f[0], g.rules.len().to_string(), "{}: rules", what);
                ensure_eq!(f[1], l.w.len().to_string(), "{}: words", what);
                ensure_eq!(f[3], kind, "{}: result", what);
                ensure_eq!(f[4], n.to_string(), "{}: candidates", what);
            }
            continue;
        }
        let number = if debug { l.all.len().min(1) } else { l.all.len().min(k) };
        let mine: Vec<String> = bs.by_ref().take(number.max(1)).collect();
        ensure_eq!(mine.len(), number.max(1), "{}: trees", what);
        let kind;
        if number > 0 {
            kind = "parse";
            best_blocks(&g, &names, &l.all, &mine, ids[i], if with_pos { Some(&given[i]) } else { None }).map_err(|e| format!("{}: {}", what, e))?;
        } else {
            let fb = if disco { None } else { lib.build_generator().with_fallback(&ws[i]).1 };
            let want = match fb {
                Some(ref t) if with_fallback || debug => {
                    c.label("fallback");
                    to_negra(t, ids[i], mode())
                }
                _ => noparse(&ws[i], ids[i], mode()),
            };
            kind = if fb.is_some() { "fallback" } else { "noparse" };
            if disco && debug {
                let first: Vec<&str> = want.lines().collect();
                ensure!(mine[0].starts_with(first[0]) && mine[0].ends_with(first[first.len() - 1]), "{}: {}", what, mine[0]);
            } else {
                ensure!(mine[0] == want, "{}: expected\n{}\nfound\n{}", what, want, mine[0]);
            }
        }
        if debug {
            let f = &stats[i];
            ensure_eq!(f.len(), 5, "{}: statistics {:?}", what, f);
            ensure_eq!(f[0], g.rules.len().to_string(), "{}: rules", what);
            ensure_eq!(f[1], l.w.len().to_string(), "{}: words", what);
            if !disco || number > 0 {
                ensure_eq!(f[3], kind, "{}: result", what);
            }
            let n: u64 = f[4].parse().map_err(|_| format!("{}: {:?}", what, f))?;
            ensure!(n <= l.cands && (n > 0) == (f[3] != "noparse"), "{}: {} candidates of {}", what, n, l.cands);
        }
    }
    ensure!(bs.next().is_none(), "there are more trees than expected");
    if ls.iter().any(|l| l.all.len() > k) {
        c.label("more trees than requested")
    }
    if ls.iter().any(|l| l.all.is_empty()) {
        c.label("no parse")
    }
    c.nontrivial_if(ls.iter().any(|l| l.all.len() > 1) || ls.len() > 1 && ls.iter().any(|l| !l.all.is_empty()));
    Ok(())
}

// ---------------------------------------------------------------- automata
/// sentences of a grammar whose derivations can be enumerated
fn sentences(s: &mut Src, g: &G, terms: usize, max: usize) -> Vec<(Vec<usize>, Vec<std::rc::Rc<Tree>>)> {
    let many = s.chance(1, 40);
    let (n, max) = if many { (s.range(13, 40), 3) } else { (s.range(1, 3), max) };
    let mut out = vec![];
    for _ in 0..n {
        let w = g.gen_word(s, max, terms);
        let mut p = Parser::new(g, &w, 300);
        let all = p.all();
        if !w.is_empty() && !p.overflow && !p.cyclic {
            out.push((w, all));
        }
    }
    out
}
/// the answers for each sentence, ended by an empty line
fn answers(out: &str, n: usize) -> Result<Vec<Vec<String>>, String> {
    let mut v = vec![vec![]];
    for l in out.split('\n') {
        if l.is_empty() {
            v.push(vec![]);
        } else {
            v.last_mut().unwrap().push(l.to_string());
        }
    }
    // the last line break
    ensure!(v.pop() == Some(vec![]), "the output does not end with an empty line");
    let last = v.pop();
    ensure!(last == Some(vec![]) || last.is_none() && n == 0, "the output does not end with an empty line");
    ensure_eq!(v.len(), n, "answers");
    Ok(v)
}
struct Opts {
    n: usize,
    beam: Option<usize>,
    args: Vec<String>,
}
impl Opts {
    /// nothing is cut off by the beam
    fn exact(&self) -> bool {
        self.beam.map_or(true, |b| b > 50_000)
    }
}
fn counts(got: usize, all: usize, o: &Opts) -> Res {
    if o.exact() {
        ensure_eq!(got, all.min(o.n), "number of parses");
    } else {
        ensure!(got <= all.min(o.n), "{} parses of {}", got, all);
    }
    Ok(())
}
/// the printed configurations are (the best) ones that the library finds for the sentences
fn configurations(g: &G, out: &str, full: &[Vec<(String, W)>], ss: &[(Vec<usize>, Vec<std::rc::Rc<Tree>>)], o: &Opts) -> Res {
    let mut rest = out;
    for (i, (f, (_, all))) in full.iter().zip(ss).enumerate() {
        let mut left: Vec<&(String, W)> = f.iter().collect();
        // one configuration may be the beginning of another one
        left.sort_by_key(|x| std::cmp::Reverse(x.0.len()));
        let mut got = vec![];
        while !rest.starts_with('\n') {
            match left.iter().position(|x| rest.starts_with(&x.0) && rest[x.0.len()..].starts_with('\n')) {
                Some(k) => {
                    let x = left.remove(k);
                    got.push(x.1);
                    rest = &rest[x.0.len() + 1..];
                }
                None => return Err(format!("sentence {}: this is no configuration that is left: {}", i, rest)),
            }
        }
        rest = &rest[1..];
        counts(got.len(), all.len(), o).map_err(|e| format!("sentence {}: {}", i, e))?;
        if o.exact() {
            let mut ws: Vec<f64> = all.iter().map(|t| g.weight(t)).collect();
            ws.sort_by(|a, b| b.partial_cmp(a).unwrap());
            for (k, (v, w)) in got.iter().zip(&ws).enumerate() {
                ensure!(close(*v, lw(*w)), "sentence {}: parse {} has weight {} instead of {}", i, k, v, w);
            }
        }
    }
    ensure!(rest.is_empty(), "more is printed: {}", rest);
    Ok(())
}
fn number(s: &mut Src) -> Opts {
    let mut o = Opts { n: 1, beam: None, args: vec![] };
    if s.chance(2, 3) {
        o.n = s.range(0, 4);
        o.args.push(s.pick(&["-n", "--number"]).to_string());
        o.args.push(o.n.to_string());
    }
    if s.chance(1, 3) {
        let b = *s.pick(&[1, 2, 5, 100_000]);
        o.beam = Some(b);
        o.args.push(s.pick(&["-b", "--beam"]).to_string());
        o.args.push(b.to_string());
    }
    o
}
fn mcfg(c: &mut Case) -> Res {
    let s = &mut c.s;
    let negra = s.chance(1, 2);
    let mut g;
    let terms;
    if negra {
        let o = GenOpts { normal_form: true, max_nts: 5, max_extra: 7, max_rank: 2, proper: true, ..GenOpts::default() };
        terms = o.terms;
        g = G::generate(s, &o);
        g.rules.retain(|r| r.tail.iter().all(|b| *b > r.head));
        g = lift(&g);
    } else {
        let mut o = guarded(s, 4, true);
        o.proper = true;
        terms = o.terms;
        g = G::generate(s, &o);
    }
    let ss = sentences(s, &g, terms, 6);
    let o = number(s);
    let ws: Vec<Vec<String>> = ss.iter().map(|x| words(&x.0)).collect();
    let input = corpus(s, &ws);
    c.text("grammar", show(&g));
    c.note("options", &o.args);
    c.note("negra", negra);
    c.text("input", &input);
    let a = Tsa::from(pmcfg(&g));
    let dir = Scratch::new()?;
    let gf = dir.file("grammar", show(&g).as_bytes())?;
    let mut args = vec!["mcfg", "parse"];
    args.extend(o.args.iter().map(|a| &a[..]));
    if negra {
        args.push("--negra");
    }
    args.push(&gf);
    let (out, _) = cli(&args, &input)?;
    if negra {
        let names = Names::plain(&g);
        for (i, (got, (_, all))) in answers(&out, ws.len())?.iter().zip(&ss).enumerate() {
            let bs = blocks(&got.join("\n"))?;
            counts(bs.len(), all.len(), &o).map_err(|e| format!("sentence {}: {}", i, e))?;
            if o.exact() {
                best_blocks(&g, &Names::plain(&g), all, &bs, i + 1, None).map_err(|e| format!("sentence {}: {}", i, e))?;
            } else {
                for b in &bs {
                    ensure!(
                        all.iter().any(|t| {
                            let m = t.addresses();
                            export(b, i + 1, &tokens(&g, t, &names), &|a| names.nts[g.rules[m[a]].head].clone()).is_ok()
                        }),
                        "sentence {}: this is no derivation:\n{}",
                        i,
                        b
                    );
                }
            }
        }
    } else {
        let full: Vec<Vec<(String, W)>> = ws.iter().map(|w| a.recognise(w.clone()).take(400).map(|x| (format!("{}", x.0), x.0.weight)).collect()).collect();
        configurations(&g, &out, &full, &ss, &o)?;
    }
    c.label(if negra { "export format" } else { "configurations" });
    c.nontrivial_if(ss.iter().any(|x| x.1.len() > o.n || x.1.len() > 1));
    Ok(())
}
fn cf(c: &mut Case) -> Res {
    let s = &mut c.s;
    let mut o = guarded(s, 5, true);
    o.proper = true;
    let g = gen_cf(s, &o);
    let ss = sentences(s, &g, o.terms, 8);
    let o = number(s);
    let ws: Vec<Vec<String>> = ss.iter().map(|x| words(&x.0)).collect();
    let input = corpus(s, &ws);
    let text = cf_text(&g);
    c.text("grammar", &text);
    c.note("options", &o.args);
    c.text("input", &input);
    let a = Pda::from(cfg(&g));
    let full: Vec<Vec<(String, W)>> = ws.iter().map(|w| a.recognise(w.clone()).take(400).map(|x| (format!("{:?}", x.0), x.0.weight)).collect()).collect();
    let dir = Scratch::new()?;
    let gf = dir.file("grammar", text.as_bytes())?;
    let mut args = vec!["cfg", "parse"];
    args.extend(o.args.iter().map(|a| &a[..]));
    args.push(&gf);
    let (out, _) = cli(&args, &input)?;
    configurations(&g, &out, &full, &ss, &o)?;
    c.nontrivial_if(ss.iter().any(|x| x.1.len() > o.n || x.1.len() > 1));
    Ok(())
}
fn cf_text(g: &G) -> String {
    let mut t = format!("initial: [{}]\n", g.init.iter().map(|a| nt(*a)).collect::<Vec<_>>().join(", "));
    for r in &g.rules {
        let ys: Vec<String> = cf_form(r)
            .1
            .into_iter()
            .map(|x| match x {
                Ok(t) => format!("T {}", term(t)),
                Err(a) => format!("Nt {}", nt(a)),
            })
            .collect();
        t += &format!("{} → [{}] # {}\n", nt(r.head), ys.join(", "), r.w);
    }
    t
}
fn printed(c: &mut Case) -> Res {
    let s = &mut c.s;
    let is_cf = s.chance(1, 2);
    let (g, w) = firm_grammar(s, is_cf);
    let approx = s.chance(1, 2);
    let mut ws = vec![w];
    if s.chance(1, 40) {
        for _ in 0..s.range(13, 30) {
            ws.push(g.gen_word(s, 3, 2));
        }
    }
    for _ in 0..s.n(3) {
        ws.push(g.gen_word(s, 6, 2));
    }
    let ws: Vec<Vec<String>> = ws.iter().map(|w| words(w)).collect();
    let input = corpus(s, &ws);
    let dir = Scratch::new()?;
    let text = if is_cf { cf_text(&g) } else { show(&g) };
    let classes = format!("S [S]\nX [{}]\nY *\n", (1..g.fan.len()).filter(|_| s.chance(1, 2)).map(nt).collect::<Vec<_>>().join(", "));
    c.text("grammar", &text);
    c.text("input", &input);
    let gf = dir.file("grammar", text.as_bytes())?;
    let cf = dir.file("classes", classes.as_bytes())?;
    let shown: String;
    let args: Vec<&str>;
    // printed first runs
    let mut runs: Vec<String> = vec![];
    match (is_cf, approx) {
        (true, false) => {
            shown = format!("{}", Pda::from(super::a::cfg(&g)));
            args = vec!["cfg", "automaton", &gf];
        }
        (false, false) => {
            shown = format!("{}", Tsa::from(pmcfg(&g)));
            args = vec!["mcfg", "automaton", &gf];
        }
        (true, true) => {
            c.text("classes", &classes);
            let e: EquivalenceRelation<String, String> = classes.parse().map_err(|e| format!("{:?}", e))?;
            let f = |ps: &PushState<String, String>| ps.map(|n| e.project(n));
            let (b, _) = RlbElement::new(&f).approximate_automaton(&Pda::from(super::a::cfg(&g)));
            shown = format!("{}", b);
            runs = ws.iter().map(|w| format!("{:?}", b.recognise(w.clone()).next())).collect();
            args = vec!["approximation", "relabel", "automaton", &cf, &gf];
        }
        (false, true) => {
            let (b, _) = TTSElement::new().approximate_automaton(&Tsa::from(pmcfg(&g)));
            shown = format!("{}", b);
            runs = ws.iter().map(|w| format!("{:?}", b.recognise(w.clone()).next())).collect();
            args = vec!["approximation", "tts", "automaton", &gf];
        }
    }
    let (out, _) = cli(&args, "")?;
    same_lines(&out, &(shown + "\n"))?;
    if approx {
        c.label("approximation");
        let pargs: Vec<&str> = args.iter().map(|a| if *a == "automaton" { "parse" } else { *a }).collect();
        let (out, _) = cli(&pargs, &input)?;
        let got: Vec<&str> = out.lines().collect();
        ensure_eq!(got.len(), ws.len(), "answers");
        for ((got, want), l) in got.iter().zip(&runs).zip(input.lines()) {
            let x = got.starts_with("None: ");
            ensure_eq!(x, want == "None", "a sentence is recognised: {:?}", l);
            ensure!(got.ends_with(&format!(": {}", l)), "the answer to {:?} is {:?}", l, got);
            ensure!(x || got.starts_with("Some("), "the answer to {:?} is {:?}", l, got);
        }
    }
    c.nontrivial_if(g.rules.len() > 1);
    Ok(())
}
/// the same lines, where transitions may be listed in another order
fn same_lines(got: &str, want: &str) -> Res {
    let sort = |t: &str| {
        let mut v: Vec<(String, f64)> = t
            .lines()
            .map(|x| match x.rfind(" # ") {
                Some(k) => (x[..k].to_string(), x[k + 3..].parse().unwrap_or(-1.0)),
                None => (x.to_string(), 0.0),
            })
            .collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v
    };
    let (got, want) = (sort(got), sort(want));
    // sums of weights are rounded
    ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a.0 == b.0 && relf(a.1, b.1)), "the automaton is printed as\n{:?}\ninstead of\n{:?}", got, want);
    Ok(())
}
fn tsa(c: &mut Case) -> Res {
    let s = &mut c.s;
    let a = gen_tsa(s);
    let n = s.range(1, 3);
    let ws: Vec<Vec<usize>> = (0..n).map(|_| gen_aut_word(s, &a, 5)).filter(|w| !w.is_empty()).collect();
    let mut all = vec![];
    for w in &ws {
        match a.runs(w, 0.0, 3000) {
            Some(r) => all.push(r),
            None => return Ok(()),
        }
    }
    let text = aut_text(s, &a);
    let mut o = number(s);
    // there is no beam search from coarse to fine
    let ctf = o.beam.is_none() && s.chance(1, 2);
    if ctf {
        o.args.push("--coarse-to-fine".into());
        o.args.push("tts".into());
        c.label("coarse to fine");
    }
    let wt: Vec<Vec<String>> = ws.iter().map(|w| words(w)).collect();
    let input = corpus(&mut c.s, &wt);
    c.text("automaton", &text);
    c.note("options", &o.args);
    c.text("input", &input);
    let fa: FreeTsa = text.parse().map_err(|_| "the automaton is refused")?;
    let dir = Scratch::new()?;
    let af = dir.file("automaton", text.as_bytes())?;
    let mut args = vec!["tsa", "recognise"];
    args.extend(o.args.iter().map(|a| &a[..]));
    args.push(&af);
    let (out, _) = cli(&args, &input)?;
    let got = answers(&out, ws.len())?;
    for (i, (got, runs)) in got.iter().zip(&all).enumerate() {
        ensure!(!got.is_empty() && got[0] == format!("{:?}:", wt[i]), "answer {} starts with {:?}", i, got.get(0));
        let mut left: Vec<(String, W)> = fa.recognise(wt[i].clone()).take(3001).map(|x| (format!("  {:?}", x.1), x.0.weight)).collect();
        let mut sorted: Vec<f64> = runs.iter().map(|r| a.weight(&r.0)).collect();
        sorted.sort_by(|a, b| b.partial_cmp(a).unwrap());
        for (j, l) in got[1..].iter().enumerate() {
            match left.iter().position(|x| x.0 == *l) {
                Some(k) => {
                    let v = left.swap_remove(k).1;
                    ensure!(!o.exact() || ctf || j >= sorted.len() || close(v, lw(sorted[j])), "run {} on sentence {} has weight {} instead of {}", j, i, v, sorted[j]);
                }
                None => return Err(format!("a line of answer {} is no run that is left: {:?}", i, l)),
            }
        }
        let k = got.len() - 1;
        counts(k, runs.len(), &o).map_err(|e| format!("sentence {}: {}", i, e))?;
    }
    c.nontrivial_if(all.iter().any(|r| r.len() > 1));
    Ok(())
}

pub fn all() -> Vec<Prop> {
    vec![Prop {
        id: "I01",
        rule: "several sentences of which one is parsed, or a sentence with several parses or runs",
        assumptions: &["grammars for export format are terminal-separated and their trees are no single terminals", "sentences of up to seven words"],
        parts: vec![
            Part { name: "trees", quick: 4_000, thorough: 40_000, run: trees },
            Part { name: "multiple context-free grammars", quick: 2_500, thorough: 25_000, run: mcfg },
            Part { name: "context-free grammars", quick: 1_500, thorough: 15_000, run: cf },
            Part { name: "automata", quick: 1_500, thorough: 15_000, run: printed },
            Part { name: "tree-stack automata", quick: 2_500, thorough: 25_000, run: tsa },
        ],
    }]
}
