//! Driver: `vh run ID --tier T --seed N` explores a property and reports.
mod engine;
mod model;
mod props;

use engine::*;
use std::collections::BTreeMap;
use std::fs;
use std::process::{exit, Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: Counting = Counting;

const THREADS: usize = 8;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Opts {
    id: String,
    tier: String,
    seed: u64,
    root: String,
    scale: f64,
    only: Option<String>,
}
impl Opts {
    fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    fn replay_path(&self) -> String {
        let dir = format!("{}/evidence/replay", self.root);
        let _ = fs::create_dir_all(&dir);
        format!("{}/{}.txt", dir, self.id)
    }
}

fn write_replay(o: &Opts, part: &str, choices: &[u64], msg: &str, desc: &[String]) -> String {
    let path = o.replay_path();
    let body = format!(
        "property: {}\npart: {}\ntier: {}\nchoices: {}\n---\n{}\n---\n{}\n",
        o.id,
        part,
        o.tier,
        choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "),
        msg,
        desc.join("\n")
    );
    fs::write(&path, body).expect("cannot write the replay file");
    path
}

/// entries `known: property=ID key=KEY text` of the committed file
fn known(o: &Opts) -> Vec<(String, String)> {
    fs::read_to_string(format!("{}/known_findings.txt", o.root))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let l = l.trim().strip_prefix("known: property=")?;
            let mut it = l.splitn(3, ' ');
            let id = it.next()?;
            let key = it.next()?.strip_prefix("key=")?.to_string();
            if id == o.id {
                Some((key, it.next().unwrap_or("").to_string()))
            } else {
                None
            }
        })
        .collect()
}

fn work_cmd(o: &Opts, prop: &'static Prop, progress_path: &str) -> i32 {
    let start = Instant::now();
    let kn = known(o);
    let _ = KNOWN.set(kn.iter().map(|k| k.0.clone()).collect());
    let progress: &'static Progress = Box::leak(Box::new(Progress::new(2 * THREADS + 64, Some(progress_path))));
    let mut failure = None;
    let mut all: Vec<(&'static str, PartStats)> = vec![];
    for (pi, part) in prop.parts.iter().enumerate() {
        if o.only.as_ref().map_or(false, |n| n != part.name) {
            continue;
        }
        let n = if o.thorough() { part.thorough } else { part.quick };
        let n = ((n as f64 * o.scale) as u64).max(1);
        // the searches of automata and parsers may be exponential in the word
        let tolerated = if std::env::var("VH_STRICT").is_ok() { 0 } else if "AXCI".contains(&prop.id[..1]) { (3 + n as usize / 10_000).min(12) } else { 0 };
        let (st, f) = run_part(prop, pi, n, o.seed, o.thorough(), THREADS, tolerated, progress);
        if std::env::var("VH_VERBOSE").is_ok() {
            eprintln!(
                "{} {}: {} cases, {} distinct non-trivial, max allocs {}, {:.1}s {:?}",
                prop.id, part.name, st.evaluations, st.distinct_nontrivial, st.max_work, start.elapsed().as_secs_f64(), st.labels
            );
        }
        all.push((part.name, st));
        if f.is_some() {
            failure = f.map(|f| (pi, f));
            break;
        }
    }
    let mut evals = 0;
    let mut nontriv = 0;
    let mut parts = vec![];
    let mut samples = vec![];
    let mut seen: BTreeMap<String, u64> = BTreeMap::new();
    for (name, st) in &all {
        evals += st.evaluations;
        nontriv += st.distinct_nontrivial;
        let labels: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
        parts.push(format!(
            "{}: {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"max_allocations_in_a_case\": {}, \"classes\": {{{}}}}}",
            esc(name),
            st.evaluations,
            st.distinct_nontrivial,
            st.max_work,
            labels.join(", ")
        ));
        for s in st.samples.iter().take(2) {
            let s: String = s.chars().take(1500).collect();
            samples.push(esc(&format!("[{}] {}", name, s)));
        }
        for (k, v) in &st.findings {
            *seen.entry(k.clone()).or_insert(0) += v;
        }
    }
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"parts\": {{\n   {}\n  }},\n  \"known_finding_hits\": {{{}}},\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        esc(prop.id),
        esc(&o.tier),
        o.seed,
        evals,
        nontriv,
        esc(prop.rule),
        parts.join(",\n   "),
        seen.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "),
        samples.join(",\n   "),
        prop.assumptions.iter().map(|a| esc(a)).collect::<Vec<_>>().join(", "),
        start.elapsed().as_secs_f64(),
        failure.is_some() as u32
    );
    let _ = fs::create_dir_all(format!("{}/evidence", o.root));
    fs::write(format!("{}/evidence/{}.json", o.root, prop.id), ev).expect("cannot write the evidence file");
    for (k, text) in &kn {
        println!("KNOWN-FINDING: property={} {} [{}; met {} times in this run]", prop.id, text, k, seen.get(k).unwrap_or(&0));
    }
    if let Some((pi, f)) = failure {
        let part = &prop.parts[pi];
        let th = o.thorough();
        let budget = std::env::var("VH_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(4000);
        // kept by the parent in case a shrunk case kills this process
        engine::TOLERATED.store(0, std::sync::atomic::Ordering::SeqCst);
        let path = write_replay(o, part.name, &f.choices, &f.msg, &f.desc);
        let text = format!("{} [{}] case {}: {}\n{}\nVIOLATION property={} replay={}", prop.id, part.name, f.idx, f.msg, f.desc.join("\n"), prop.id, path);
        let _ = fs::write(format!("{}.found", progress_path), &text);
        let (choices, msg, desc) = on_big_stack(|| {
            let c = shrink(f.choices.clone(), budget, |c| {
                let r = run_case(part, Src::replay(c.to_vec()), th);
                if r.result.is_err() {
                    Some(r.case.s.rec)
                } else {
                    None
                }
            });
            let r = run_case(part, Src::replay(c.clone()), th);
            match r.result {
                Err(m) => (c, m, r.case.desc),
                Ok(()) => (f.choices.clone(), f.msg.clone(), f.desc.clone()),
            }
        });
        let path = write_replay(o, part.name, &choices, &msg, &desc);
        println!("{} [{}] case {}: {}", prop.id, part.name, f.idx, msg);
        println!("{}", desc.join("\n"));
        println!("VIOLATION property={} replay={}", prop.id, path);
        return 1;
    }
    println!("OK property={} evaluations={} distinct_nontrivial={} wall={:.1}s", prop.id, evals, nontriv, start.elapsed().as_secs_f64());
    0
}

/// how a child ended: None = killed by the watchdog
fn wait(mut ch: std::process::Child, limit: Duration) -> Option<Result<i32, i32>> {
    use std::os::unix::process::ExitStatusExt;
    let start = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().expect("wait") {
            return Some(match st.signal() {
                Some(s) => Err(s),
                None => Ok(st.code().unwrap_or(2)),
            });
        }
        if start.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(15));
    }
}
fn crashed(e: &Option<Result<i32, i32>>) -> Option<&'static str> {
    match e {
        Some(Ok(WORK_EXIT)) => Some("the case exceeds its work budget (runaway computation)"),
        Some(Ok(HANG_EXIT)) => Some("the case does not finish"),
        Some(Err(s)) if *s == libc::SIGSEGV || *s == libc::SIGABRT || *s == libc::SIGBUS || *s == libc::SIGILL => {
            Some("the process was aborted (stack overflow, abort or memory fault)")
        }
        _ => None,
    }
}

fn run_cmd(o: &Opts, prop: &Prop, args: &[String]) -> i32 {
    let me = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("vh-{}-{}", o.id, std::process::id()));
    let _ = fs::create_dir_all(&dir);
    let prog = dir.join("progress");
    let limit = Duration::from_secs(if o.thorough() { 6 * 3600 } else { 780 });
    let ch = Command::new(&me)
        .arg("work")
        .args(&args[1..])
        .args(&["--progress", prog.to_str().unwrap()])
        .spawn()
        .expect("cannot start the worker");
    let end = wait(ch, limit);
    let code = match (&end, crashed(&end)) {
        (Some(Ok(c)), None) => *c,
        (_, Some(_)) if dir.join("progress.found").exists() => {
            println!("{}", fs::read_to_string(dir.join("progress.found")).unwrap_or_default());
            1
        }
        (None, _) if dir.join("progress.found").exists() => {
            println!("{}", fs::read_to_string(dir.join("progress.found")).unwrap_or_default());
            1
        }
        (_, Some(why)) => {
            let bytes = fs::read(&prog).unwrap_or_default();
            let mut cases: Vec<u64> = bytes
                .chunks(8)
                .map(|c| {
                    let mut b = [0u8; 8];
                    b[..c.len()].copy_from_slice(c);
                    u64::from_le_bytes(b)
                })
                .filter(|v| *v != 0)
                .collect();
            cases.sort();
            let one = |part: &str, how: &[String]| {
                let ch = Command::new(&me)
                    .args(&["one", &o.id, "--part", part, "--tier", &o.tier, "--root", &o.root, "--seed", &o.seed.to_string()])
                    .args(how)
                    .stdout(Stdio::null())
                    .stderr(Stdio::null())
                    .spawn()
                    .unwrap();
                wait(ch, Duration::from_secs(120))
            };
            let mut code = 2;
            for v in cases {
                let pi = (v >> 48) as usize - 1;
                let idx = v & ((1 << 48) - 1);
                let part = &prop.parts[pi];
                let log = dir.join("choices");
                let how = vec!["--idx".to_string(), idx.to_string(), "--log".to_string(), log.to_str().unwrap().to_string()];
                let e = one(part.name, &how);
                if crashed(&e).is_none() {
                    continue;
                }
                // the choices are a function of the seed: draw them by replaying with a dry source is not
                // possible (they depend on the case), so the case itself logs them as it goes
                let read = |p: &std::path::Path| -> (Vec<u64>, Vec<String>) {
                    let t = fs::read_to_string(p).unwrap_or_default();
                    let mut ls = t.lines();
                    let c = ls.next().unwrap_or("").split_whitespace().filter_map(|x| x.parse().ok()).collect();
                    (c, ls.map(|s| s.to_string()).collect())
                };
                let (mut choices, _) = read(&log);
                let slog = dir.join("shrunk");
                choices = shrink(choices, if matches!(e, Some(Ok(HANG_EXIT))) { 0 } else { 250 }, |c| {
                    let cs = c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
                    let how = vec!["--choices".to_string(), cs, "--log".to_string(), slog.to_str().unwrap().to_string()];
                    if crashed(&one(part.name, &how)).is_some() {
                        Some(read(&slog).0)
                    } else {
                        None
                    }
                });
                let cs = choices.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
                let how = vec!["--choices".to_string(), cs, "--log".to_string(), slog.to_str().unwrap().to_string()];
                one(part.name, &how);
                let (_, desc) = read(&slog);
                let path = write_replay(o, part.name, &choices, why, &desc);
                let _ = fs::write(
                    format!("{}/evidence/{}.json", o.root, prop.id),
                    format!(
                        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": 1, \"rule\": {}, \"samples\": [{}]}}, \"wall_s\": 0, \"violations\": 1}}\n",
                        esc(prop.id), esc(&o.tier), o.seed, idx + 1, esc(prop.rule), esc(&desc.join("\n"))
                    ),
                );
                println!("{} [{}] case {}: {}", prop.id, part.name, idx, why);
                println!("{}", desc.join("\n"));
                println!("VIOLATION property={} replay={}", prop.id, path);
                code = 1;
                break;
            }
            if code == 2 {
                eprintln!("the worker died ({:?}) but no single case reproduces it", end);
            }
            code
        }
        _ => {
            eprintln!("the worker did not finish: {:?} (inconclusive)", end);
            2
        }
    };
    let _ = fs::remove_dir_all(&dir);
    code
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.get(0).cloned().unwrap_or_default();
    if cmd == "list" {
        for p in props::all() {
            println!("{}", p.id);
        }
        return;
    }
    install_hook();
    let o = Opts {
        id: args.get(1).cloned().unwrap_or_default(),
        tier: arg(&args, "--tier").unwrap_or_else(|| "quick".into()),
        seed: arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        root: arg(&args, "--root").unwrap_or_else(|| "/verif".into()),
        scale: arg(&args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        only: arg(&args, "--part"),
    };
    let props: &'static [Prop] = Box::leak(props::all().into_boxed_slice());
    let prop = match props.iter().find(|p| p.id == o.id) {
        Some(p) => p,
        None => {
            eprintln!("no check for property {:?} in this build", o.id);
            exit(2)
        }
    };
    let code = match cmd.as_str() {
        "run" => run_cmd(&o, prop, &args),
        "work" => {
            let p = arg(&args, "--progress").unwrap_or_else(|| "/dev/null".into());
            work_cmd(&o, prop, &p)
        }
        "one" | "replay" => {
            let _ = KNOWN.set(known(&o).into_iter().map(|k| k.0).collect());
            let (partname, tier, choices, idx) = if cmd == "replay" {
                let t = fs::read_to_string(arg(&args, "--file").expect("--file")).expect("replay file");
                let f = |k: &str| {
                    t.lines().find_map(|l| l.strip_prefix(k).map(|s| s.trim().to_string())).unwrap_or_default()
                };
                (f("part:"), f("tier:"), Some(f("choices:")), None)
            } else {
                (o.only.clone().unwrap(), o.tier.clone(), arg(&args, "--choices"), arg(&args, "--idx"))
            };
            let part = prop.parts.iter().find(|p| p.name == partname).expect("no such part");
            let src = match (choices, idx) {
                (Some(c), _) => Src::replay(c.split_whitespace().map(|x| x.parse().unwrap()).collect()),
                (_, Some(i)) => Src::random(case_seed(o.seed, prop.id, part.name, i.parse().unwrap())),
                _ => panic!("--choices or --idx"),
            };
            if let Some(l) = arg(&args, "--log") {
                engine::set_log(l);
            }
            let out = on_big_stack(|| {
                engine::limit_this_thread();
                let out = run_case(part, src, tier == "thorough");
                (out.result, out.case.desc, out.case.labels, out.work)
            });
            println!("{}\nlabels {:?}, allocations {}", out.1.join("\n"), out.2, out.3);
            match out.0 {
                Ok(()) => {
                    println!("OK");
                    0
                }
                Err(m) => {
                    println!("{}", m);
                    if cmd == "replay" {
                        println!("VIOLATION property={} replay={}", prop.id, arg(&args, "--file").unwrap());
                    }
                    1
                }
            }
        }
        _ => {
            eprintln!("usage: vh run|replay|one|list");
            2
        }
    };
    exit(code)
}
