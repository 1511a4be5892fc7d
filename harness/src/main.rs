//! check <property> [--tier quick|thorough] [--cases N]      run a check
//! check --replay <file>                                     run one saved case again
//! check --list                                              list the properties

use harness::engine::{self, Ctx, Outcome};
use harness::props::{self, Prop};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

struct Known {
    input: String,
    what: String,
}

/// `known: property=P05 input="..." what` lines of the committed file; `fixed:` lines suppress nothing.
fn known(id: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        let rest = match l.strip_prefix(&format!("known: property={} input=\"", id)[..]) {
            Some(r) => r,
            None => continue,
        };
        let mut input = String::new();
        let mut it = rest.char_indices();
        while let Some((i, c)) = it.next() {
            match c {
                '\\' => match it.next() {
                    Some((_, 'n')) => input.push('\n'),
                    Some((_, x)) => input.push(x),
                    None => {}
                },
                '"' => {
                    v.push(Known { input: input.clone(), what: rest[i + 1..].trim().to_string() });
                    break;
                }
                c => input.push(c),
            }
        }
    }
    v
}

fn save_replay(p: &Prop, head: &str, msg: &str, desc: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).expect("replay directory");
    let path = dir.join(format!("{}.replay", p.id));
    std::fs::write(&path, format!("property {}\n{}\n--- what failed\n{}\n--- case\n{}\n", p.id, head, msg, desc)).expect("replay file");
    path
}

fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|sc| {
        std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(sc, f).unwrap().join().unwrap_or_else(|_| {
            eprintln!("ERROR: the harness panicked; no verdict");
            std::process::exit(3)
        })
    })
}

fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let mut lines = text.lines();
    let id = lines.next().and_then(|l| l.strip_prefix("property ")).expect("property line").to_string();
    let mut choices: engine::Choices = Default::default();
    let mut fixed: Option<usize> = None;
    let mut case: Option<(u64, u64)> = None;
    for l in lines {
        if l.starts_with("--- ") {
            break;
        }
        if let Some(r) = l.strip_prefix("fixed ") {
            fixed = r.parse().ok();
        }
        if let Some(r) = l.strip_prefix("hang seed ") {
            case = r.split_once(" case ").and_then(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?)));
        }
        if let Some(r) = l.strip_prefix("stream ") {
            let mut it = r.split_whitespace().map(|x| x.parse::<u64>().unwrap());
            let k = it.next().unwrap() as usize;
            choices[k] = it.collect();
        }
    }
    let p = props::all().into_iter().find(|p| p.id == id).expect("no such property");
    engine::start_watchdog(120, {
        let (id, path) = (id.clone(), path.to_string());
        move |_| {
            println!("the case does not end within 120 s");
            println!("VIOLATION property={} replay={}", id, path);
            props::cli::cleanup();
            std::process::exit(1);
        }
    });
    let (o, ctx) = match fixed {
        None if case.is_some() => {
            let (seed, index) = case.unwrap();
            match engine::replay(p.f, Err(engine::case_seed(seed, p.id, index))) {
                Ok(x) => x,
                Err(e) => {
                    eprintln!("ERROR: harness panic: {}", e);
                    return 3;
                }
            }
        }
        Some(k) => {
            let mut ctx = Ctx::default();
            let o = on_big_stack(|| (p.fixed[k])(&mut ctx));
            (o, ctx)
        }
        None => match engine::replay(p.f, Ok(&choices)) {
            Ok(x) => x,
            Err(e) => {
                eprintln!("ERROR: harness panic: {}", e);
                return 3;
            }
        },
    };
    println!("{}", ctx.desc);
    match o {
        Outcome::Fail(m) => {
            println!("{}", m);
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
        o => {
            println!("{:?}", o);
            0
        }
    }
}

fn main() {
    harness::sut::install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    if args.iter().any(|a| a == "--list") {
        for p in props::all() {
            println!("{} {} quick={} thorough={}", p.id, p.name, p.quick, p.thorough);
        }
        return;
    }
    if let Some(f) = arg("--replay") {
        let c = replay(&f);
        engine::done();
        props::cli::cleanup();
        std::process::exit(c);
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = arg("--tier").unwrap_or_else(|| "quick".into());
    let id = args.first().cloned().unwrap_or_default();
    let p = match props::all().into_iter().find(|p| p.id == id || p.name == id) {
        Some(p) => p,
        None => {
            eprintln!("ERROR: no such property: {}", id);
            std::process::exit(2);
        }
    };
    let cases = arg("--cases").map(|n| n.parse().unwrap()).unwrap_or(if tier == "thorough" { p.thorough } else { p.quick });
    let start = Instant::now();
    engine::start_watchdog(120, {
        let id = p.id;
        let tier = tier.clone();
        move |index| {
            if index == u64::MAX {
                eprintln!("ERROR: a fixed input does not end within 120 s; no verdict");
                std::process::exit(3);
            }
            // every property says what comes out for every case
            let p = props::all().into_iter().find(|p| p.id == id).unwrap();
            let path = save_replay(&p, &format!("hang seed {} case {}", seed, index), "the case does not end within 120 s (cases take milliseconds)", "(generated from the seed)");
            println!("case {} (seed {}) does not end within 120 s", index, seed);
            write_evidence(id, &format!(
                "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\"evaluations\": {}}},\n \"wall_s\": {:.1},\n \"violations\": 1\n}}\n",
                json(id), json(&tier), seed, index + 1, start.elapsed().as_secs_f64()));
            println!("VIOLATION property={} replay={}", id, path.display());
            props::cli::cleanup();
            std::process::exit(1);
        }
    });

    // 1. the fixed inputs: one for each defect found so far, so that none comes back unnoticed
    let mut fixed_runs = 0;
    let mut fixed_fail = None;
    for (k, f) in p.fixed.iter().enumerate() {
        let mut ctx = Ctx::default();
        let o = on_big_stack(|| f(&mut ctx));
        fixed_runs += 1;
        if let Outcome::Fail(m) = o {
            fixed_fail = Some((k, m, ctx.desc));
            break;
        }
    }

    // 2. known findings: shown while they still fail
    for k in known(p.id) {
        if let Some(probe) = p.probe {
            if on_big_stack(|| probe(&k.input)) {
                println!("KNOWN-FINDING: property={} input {:?}: {}", p.id, k.input, k.what);
            }
        }
    }

    // 3. the generated cases
    let workers = 8;
    let r = if fixed_fail.is_some() {
        None
    } else {
        Some(engine::run(p.id, p.f, seed, cases, workers, Some(Duration::from_secs(if tier == "thorough" { 7200 } else { 700 }))))
    };
    engine::done();
    props::cli::cleanup();

    let mut violation = None;
    let (mut evals, mut distinct, mut nontrivial, mut runs) = (fixed_runs, 0u64, 0u64, 0u64);
    let mut samples = vec![];
    let mut labels = String::new();
    let mut sizes = String::new();
    let mut skipped = String::new();
    if let Some(r) = &r {
        evals += r.stats.evaluations;
        distinct = r.stats.distinct.len() as u64;
        nontrivial = r.stats.nontrivial;
        runs = r.stats.runs;
        for (_, s) in r.stats.samples.iter().take(4) {
            samples.push(json(&s.chars().take(3000).collect::<String>()));
        }
        labels = r.stats.labels.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect::<Vec<_>>().join(", ");
        let size = |k: &str, [max, a, b, c]: [u64; 4]| {
            format!("{}: {{\"largest\": {}, \"cases with 8\": {}, \"with 32\": {}, \"with 128\": {}}}", json(k), max, a, b, c)
        };
        sizes = r.stats.sizes.iter().map(|(k, v)| size(k, *v)).collect::<Vec<_>>().join(",\n   ");
        skipped = r.stats.skipped.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect::<Vec<_>>().join(", ");
        if let Some(e) = &r.harness_error {
            eprintln!("ERROR: {}; no verdict", e);
            std::process::exit(3);
        }
        if r.stats.evaluations < cases && r.failure.is_none() {
            println!("note: stopped by the time budget after {} of {} cases", r.stats.evaluations, cases);
        }
    }
    if let Some((k, m, d)) = &fixed_fail {
        println!("fixed input {}:\n{}\n{}", k, d, m);
        violation = Some(save_replay(&p, &format!("fixed {}", k), m, d));
    } else if let Some(f) = r.as_ref().and_then(|r| r.failure.as_ref()) {
        println!("case {} (seed {}, shrunk in {} steps):\n{}\n{}", f.index, seed, f.shrink_steps, f.desc, f.msg);
        let mut head = format!("seed {} case {}", seed, f.index);
        for (k, c) in f.choices.iter().enumerate() {
            let _ = write!(head, "\nstream {} {}", k, c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        }
        violation = Some(save_replay(&p, &head, &f.msg, &f.desc));
    }

    let wall = start.elapsed().as_secs_f64();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"fixed_inputs\": {},\n  \"runs_of_the_code\": {},\n  \"nontrivial\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"labels\": {{{}}},\n  \"sizes\": {{{}}},\n  \"skipped\": {{{}}},\n  \"samples\": [{}]\n }},\n \"wall_s\": {:.1},\n \"violations\": {}\n}}\n",
        json(p.id), json(&tier), seed, evals, fixed_runs, runs, nontrivial, distinct, json(p.rule), labels, sizes, skipped, samples.join(", "), wall,
        if violation.is_some() { 1 } else { 0 }
    );
    write_evidence(p.id, &ev);
    println!("{} {}: {} cases, {} runs, {} distinct non-trivial, {:.1} s", p.id, p.name, evals, runs, distinct, wall);
    if std::env::var("VERIF_LABELS").is_ok() {
        println!("labels {{{}}} skipped {{{}}}\nsizes {{\n   {}}}", labels, skipped, sizes);
    }
    if let Some(v) = violation {
        println!("VIOLATION property={} replay={}", p.id, v.display());
        std::process::exit(1);
    }
}

fn write_evidence(id: &str, text: &str) {
    let dir: &Path = &verif_dir().join("evidence");
    std::fs::create_dir_all(dir).expect("evidence directory");
    std::fs::write(dir.join(format!("{}.json", id)), text).expect("evidence file");
}
