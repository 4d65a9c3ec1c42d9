//! Runs the families of one property: exploration in a child process (so that a stack overflow,
//! an abort, a hang or memory exhaustion of the code under test is observed and attributed to one
//! execution), confirmation of violations by replay, evidence and exit status.

use crate::engine::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::process::{exit, Command};
use std::time::{Duration, Instant};

pub struct Check {
    pub id: &'static str,
    pub families: fn(Tier) -> Vec<Family>,
    pub assumptions: &'static [&'static str],
}

fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

/// Known-finding keys of the property, with their texts.
fn known_keys(id: &str) -> BTreeMap<String, String> {
    let mut res = BTreeMap::new();
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", verif())).unwrap_or_default();
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix(&format!("finding: property={} key=", id)) {
            if let Some((key, text)) = rest.split_once(' ') {
                res.insert(key.to_string(), text.to_string());
            }
        }
    }
    res
}

fn threads() -> usize {
    std::env::var("MC_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8))
        .clamp(1, 32)
}

fn exec_limit(tier: Tier) -> Duration {
    Duration::from_secs(tier.pick(30, 60))
}

/// The time after which families not yet exhausted are reported as capped.
fn time_cap(tier: Tier) -> Duration {
    let default = tier.pick(420, 6 * 3600);
    let secs = std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(default);
    Duration::from_secs(secs)
}

pub fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn tier_name(t: Tier) -> &'static str {
    t.pick("quick", "thorough")
}

fn parse_tier(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => {
            eprintln!("unknown tier {:?}", s);
            exit(2)
        }
    }
}

pub fn main(check: Check) -> ! {
    let args: Vec<String> = std::env::args().collect();
    install_panic_hook();
    match args.get(1).map(|s| s.as_str()) {
        Some("--child") => {
            let tier = parse_tier(&args[2]);
            let first: usize = args[3].parse().unwrap();
            let last: usize = args[4].parse().unwrap();
            let dir = args[5].clone();
            let careful = args[6] == "careful";
            let secs: u64 = args[7].parse().unwrap();
            child(&check, tier, first, last, &dir, careful, secs)
        }
        Some("--replay") => {
            let (status, text) = replay_file(&check, &args[2]);
            println!("{}", text);
            exit(status)
        }
        Some("--list") => {
            let tier = parse_tier(args.get(2).map(|s| s.as_str()).unwrap_or("quick"));
            for (i, f) in (check.families)(tier).iter().enumerate() {
                println!("{} {}: {}", i, f.name, f.bounds);
            }
            exit(0)
        }
        Some("--only") => {
            // Development aid: run one family in this process
            let tier = parse_tier(&args[2]);
            let fams = (check.families)(tier);
            let f = fams.iter().position(|f| f.name == args[3]).expect("family");
            let dir = scratch(check.id);
            let cap = time_cap(tier).as_secs();
            child(&check, tier, f, f + 1, &dir, false, cap)
        }
        Some(t) => parent(&check, parse_tier(t)),
        None => {
            eprintln!("usage: {} quick|thorough | --replay FILE", args[0]);
            exit(2)
        }
    }
}

fn scratch(id: &str) -> String {
    let base = std::env::var("MC_SCRATCH").unwrap_or_else(|_| format!("{}/target/run", verif()));
    let dir = format!("{}/{}-{}", base, id, std::process::id());
    std::fs::create_dir_all(&dir).expect("create scratch directory");
    dir
}

// ---------------------------------------------------------------------------------------------
// Child

fn child(check: &Check, tier: Tier, first: usize, last: usize, dir: &str, careful: bool, secs: u64) -> ! {
    let fams = (check.families)(tier);
    let known: Vec<String> = known_keys(check.id).into_keys().collect();
    let deadline = Instant::now() + Duration::from_secs(secs);
    let n = last.min(fams.len());
    for (i, fam) in fams.iter().enumerate().take(n).skip(first) {
        std::fs::write(format!("{}/current", dir), format!("{}", i)).unwrap();
        let cfg = RunCfg {
            threads: threads(),
            deadline,
            stack: 2 << 20,
            known_keys: known.clone(),
            careful_dir: careful.then(|| dir.to_string()),
            exec_limit: exec_limit(tier),
        };
        match explore(fam, &cfg) {
            FamilyResult::HarnessError(e) => {
                eprintln!("harness error: {}", e);
                exit(3)
            }
            FamilyResult::Held(st, known) => {
                let sample = st.last.as_ref().map(|c| describe(fam, c)).unwrap_or_default();
                report_known(dir, &known);
                report_stats(dir, i, &st, &sample);
                if std::env::var("MC_VERBOSE").is_ok() {
                    eprintln!(
                        "{} {}: {} executions ({} outside), {} states, {} edges, {} ops, {} outcomes, depth {}, {:.1} s{}",
                        check.id, st.name, st.execs, st.skipped, st.states, st.edges, st.steps,
                        st.outcomes, st.max_depth, st.wall, if st.capped { " CAPPED" } else { "" }
                    );
                    for (k, (n, m)) in &known {
                        eprintln!("   known {} x{}: {}", k, n, m);
                    }
                    if std::env::var("MC_VERBOSE").as_deref() == Ok("2") {
                        eprintln!("   sample: {}", sample);
                    }
                }
            }
            FamilyResult::Violated { choices, msg, stats, known } => {
                report_known(dir, &known);
                report_stats(dir, i, &stats, "");
                let mut text = format!("{}\n{}\n", fam.name, msg.replace('\n', " / "));
                text.push_str(&choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","));
                std::fs::write(format!("{}/violation", dir), &text).unwrap();
                eprintln!("family {}: {}\n{}", fam.name, msg, describe(fam, &choices));
                exit(1)
            }
        }
    }
    exit(0)
}

fn describe(fam: &Family, choices: &[u64]) -> String {
    // On a big stack of its own: describing must not fail where exploring did not.
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, || {
                let (notes, _) = replay(fam, choices);
                let mut t = notes.join("; ");
                if t.len() > 1500 {
                    let mut n = 1500;
                    while !t.is_char_boundary(n) {
                        n -= 1;
                    }
                    t.truncate(n);
                    t.push_str(" ...");
                }
                t
            })
            .unwrap()
            .join()
            .unwrap_or_default()
    })
}

fn append(path: String, text: &str) {
    use std::io::Write;
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(path).unwrap();
    f.write_all(text.as_bytes()).unwrap();
}

fn report_known(dir: &str, known: &BTreeMap<String, (u64, String)>) {
    for (k, (n, m)) in known {
        append(format!("{}/known", dir), &format!("{}\t{}\t{}\n", k, n, m.replace(['\n', '\t'], " ")));
    }
}

fn report_stats(dir: &str, index: usize, st: &FamilyStats, sample: &str) {
    let json = format!(
        "{{\"family\": {}, \"bounds\": {}, \"executions\": {}, \"outside_family\": {}, \"distinct_states\": {}, \"choice_tree_edges\": {}, \"operations_compared\": {}, \"distinct_outcomes\": {}, \"max_choice_depth\": {}, \"exhausted\": {}, \"wall_s\": {:.2}}}",
        json_str(&st.name), json_str(&st.bounds), st.execs, st.skipped, st.states, st.edges, st.steps,
        st.outcomes, st.max_depth, !st.capped, st.wall
    );
    let sample = if sample.is_empty() { String::new() } else { json_str(&format!("{}: {}", st.name, sample)) };
    append(
        format!("{}/stats", dir),
        &format!(
            "{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n",
            index, st.execs, st.states, st.edges, st.steps, st.capped as u8, st.skipped, st.state_cap_hit as u8, json, sample
        ),
    );
}

// ---------------------------------------------------------------------------------------------
// Replay

fn replay_file(check: &Check, path: &str) -> (i32, String) {
    let text = std::fs::read_to_string(path).expect("read replay file");
    let mut tier = Tier::Quick;
    let mut fam_name = String::new();
    let mut choices = Vec::new();
    for line in text.lines() {
        if let Some(t) = line.strip_prefix("tier=") {
            tier = parse_tier(t);
        } else if let Some(f) = line.strip_prefix("family=") {
            fam_name = f.to_string();
        } else if let Some(c) = line.strip_prefix("choices=") {
            choices = c.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        }
    }
    let fams = (check.families)(tier);
    let Some(fam) = fams.iter().find(|f| f.name == fam_name) else {
        return (3, format!("no family {:?}", fam_name));
    };
    // Same stack size as in exploration
    let (notes, res) = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, || replay(fam, &choices))
            .unwrap()
            .join()
            .unwrap()
    });
    let mut out = String::new();
    for n in notes {
        let _ = writeln!(out, "  {}", n);
    }
    match res {
        Ok(Ok(())) => (0, out + "held"),
        Ok(Err(f)) => {
            if let Some(k) = &f.key {
                if known_keys(check.id).contains_key(k) {
                    return (0, out + "known finding: " + &f.msg);
                }
            }
            (1, out + "violated: " + &f.msg)
        }
        Err(e) => (3, out + "harness error: " + &e),
    }
}

// ---------------------------------------------------------------------------------------------
// Parent

fn write_replay(check: &Check, tier: Tier, fam: &str, choices: &[u64], msg: &str) -> String {
    let dir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&dir);
    let h = hash(&(fam, choices));
    let path = format!("{}/{}-{:016x}.txt", dir, check.id, h);
    let text = format!(
        "property={}\ntier={}\nfamily={}\nchoices={}\n# {}\n# replay: MC_BIN --replay {}\n",
        check.id,
        tier_name(tier),
        fam,
        choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
        msg.replace('\n', "\n# "),
        path
    );
    std::fs::write(&path, text).expect("write replay file");
    path
}

/// Runs the replay in a process of its own; returns (violated, description).
fn confirm(path: &str, limit: Duration) -> (bool, String) {
    use std::io::Read;
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe)
        .args(["--replay", path])
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("spawn replay");
    let mut out = c.stdout.take().unwrap();
    let t = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = out.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t0 = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            let text = t.join().unwrap_or_default();
            return match st.code() {
                Some(1) => (true, text),
                Some(0) | Some(3) => (false, text),
                _ => (true, format!("{}the execution ends abnormally: {}", text, st)),
            };
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return (true, format!("the execution does not finish within {:?}", limit));
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn parent(check: &Check, tier: Tier) -> ! {
    let t0 = Instant::now();
    let fams = (check.families)(tier);
    let dir = scratch(check.id);
    let exe = std::env::current_exe().unwrap();
    let cap = time_cap(tier);
    let run = |first: usize, last: usize, dir: &str, mode: &str| {
        let left = cap.saturating_sub(t0.elapsed()).as_secs().max(1);
        Command::new(&exe)
            .args(["--child", tier_name(tier), &first.to_string(), &last.to_string(), dir, mode, &left.to_string()])
            .status()
            .expect("spawn child")
    };
    let finish = |status: i32, violations: usize| -> ! {
        let wall = t0.elapsed().as_secs_f64();
        write_evidence(check, tier, &dir, wall, violations);
        let _ = std::fs::remove_dir_all(&dir);
        exit(status)
    };
    let violation = |fam: &str, choices: &[u64], msg: &str| -> ! {
        let path = write_replay(check, tier, fam, choices, msg);
        let (ok, text) = confirm(&path, exec_limit(tier) * 2);
        println!("{}", text);
        if !ok {
            println!("{}: a violation of family {} did not reproduce on replay: {}", check.id, fam, msg);
            finish(3, 0)
        }
        println!("{}: family {}: {}", check.id, fam, msg);
        println!("VIOLATION property={} replay={}", check.id, path);
        finish(1, 1)
    };

    let status = run(0, fams.len(), &dir, "plain");
    print_known(check, &dir);
    match status.code() {
        Some(0) => {
            print_summary(check, tier, &dir, t0.elapsed().as_secs_f64());
            finish(0, 0)
        }
        Some(1) => {
            let text = std::fs::read_to_string(format!("{}/violation", dir)).unwrap_or_default();
            let mut lines = text.lines();
            let (fam, msg, choices) =
                (lines.next().unwrap_or(""), lines.next().unwrap_or(""), lines.next().unwrap_or(""));
            let choices: Vec<u64> =
                choices.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            violation(fam, &choices, msg)
        }
        Some(3) => finish(3, 0),
        _ => {
            // The code under test took the process down, or hung. Find the execution.
            println!("{}: exploration ended abnormally ({}), looking for the execution", check.id, status);
            let cur: usize = std::fs::read_to_string(format!("{}/current", dir))
                .ok()
                .and_then(|s| s.trim().parse().ok())
                .unwrap_or(0);
            let cdir = format!("{}/careful", dir);
            std::fs::create_dir_all(&cdir).unwrap();
            let status = run(cur, cur + 1, &cdir, "careful");
            if let Some(1) = status.code() {
                let text = std::fs::read_to_string(format!("{}/violation", cdir)).unwrap_or_default();
                let mut lines = text.lines();
                let (fam, msg, choices) =
                    (lines.next().unwrap_or(""), lines.next().unwrap_or(""), lines.next().unwrap_or(""));
                let choices: Vec<u64> =
                    choices.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
                violation(fam, &choices, msg)
            }
            let hung: Option<usize> = std::fs::read_to_string(format!("{}/hung", cdir)).ok().and_then(|s| s.parse().ok());
            let mut order: Vec<usize> = (0..threads()).collect();
            if let Some(h) = hung {
                order.retain(|w| *w != h);
                order.insert(0, h);
            }
            for w in order {
                let Ok(log) = std::fs::read(format!("{}/worker{}", cdir, w)) else { continue };
                if log.len() < 8 {
                    continue;
                }
                let n = u64::from_le_bytes(log[..8].try_into().unwrap()) as usize;
                let choices: Vec<u64> = (0..n)
                    .filter_map(|i| log.get(8 + 8 * i..16 + 8 * i))
                    .map(|b| u64::from_le_bytes(b.try_into().unwrap()))
                    .collect();
                let fam = &fams[cur].name;
                let msg = "the code under test aborts, overflows its stack, hangs or exhausts memory";
                let path = write_replay(check, tier, fam, &choices, msg);
                let (ok, text) = confirm(&path, exec_limit(tier) * 2);
                if ok {
                    println!("{}", text);
                    println!("{}: family {}: {}", check.id, fam, msg);
                    println!("VIOLATION property={} replay={}", check.id, path);
                    finish(1, 1)
                }
                let _ = std::fs::remove_file(&path);
            }
            println!("{}: the abnormal end ({}) could not be attributed to one execution", check.id, status);
            finish(3, 0)
        }
    }
}

fn print_known(check: &Check, dir: &str) {
    let texts = known_keys(check.id);
    let seen = std::fs::read_to_string(format!("{}/known", dir)).unwrap_or_default();
    let keys: std::collections::BTreeSet<&str> = seen.lines().filter_map(|l| l.split('\t').next()).collect();
    for k in keys {
        println!("KNOWN-FINDING: property={} {}", check.id, texts.get(k).map(|s| s.as_str()).unwrap_or(k));
    }
}

fn print_summary(check: &Check, tier: Tier, dir: &str, wall: f64) {
    let stats = std::fs::read_to_string(format!("{}/stats", dir)).unwrap_or_default();
    let (mut execs, mut states, mut capped, mut n) = (0u64, 0u64, 0, 0);
    for line in stats.lines() {
        let f: Vec<&str> = line.split('\t').collect();
        execs += f[1].parse::<u64>().unwrap_or(0);
        states += f[2].parse::<u64>().unwrap_or(0);
        capped += f[5].parse::<u64>().unwrap_or(0);
        n += 1;
    }
    println!(
        "{} {}: held on {} executions, {} distinct states in {} families ({} capped), {:.1} s",
        check.id, tier_name(tier), execs, states, n, capped, wall
    );
}

fn write_evidence(check: &Check, tier: Tier, dir: &str, wall: f64, violations: usize) {
    let stats = std::fs::read_to_string(format!("{}/stats", dir)).unwrap_or_default();
    let (mut execs, mut states, mut edges, mut steps, mut capped, mut skipped, mut cap) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut fams = Vec::new();
    let mut samples = Vec::new();
    for line in stats.lines() {
        let f: Vec<&str> = line.split('\t').collect();
        if f.len() < 10 {
            continue;
        }
        execs += f[1].parse::<u64>().unwrap_or(0);
        states += f[2].parse::<u64>().unwrap_or(0);
        edges += f[3].parse::<u64>().unwrap_or(0);
        steps += f[4].parse::<u64>().unwrap_or(0);
        capped += f[5].parse::<u64>().unwrap_or(0);
        skipped += f[6].parse::<u64>().unwrap_or(0);
        cap += f[7].parse::<u64>().unwrap_or(0);
        fams.push(f[8].to_string());
        if !f[9].is_empty() {
            samples.push(f[9].to_string());
        }
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let mut assumptions: Vec<String> = check.assumptions.iter().map(|s| json_str(s)).collect();
    assumptions.push(json_str(
        "Exploration is exhaustive within each family's stated bounds; no random choice is made, so the seed is unused.",
    ));
    assumptions.push(json_str(
        "states = distinct inputs/abstract states recorded, transitions = choice-tree edges executed on the real code, traces_validated_against_impl = complete executions of the real code compared with the reference model.",
    ));
    if cap > 0 {
        assumptions.push(json_str("The set counting distinct states was full in some family; the count is a lower bound there."));
    }
    let json = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"operations_compared\": {},\n  \"executions_outside_family\": {},\n  \"families_capped\": {},\n  \"exhaustive\": {},\n  \"families\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [\n  {}\n ],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(check.id),
        json_str(tier_name(tier)),
        seed,
        states,
        edges,
        execs - skipped,
        steps,
        skipped,
        capped,
        violations == 0 && capped == 0,
        fams.join(",\n   "),
        samples.join(",\n   "),
        assumptions.join(",\n  "),
        wall,
        violations
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
    std::fs::write(format!("{}/evidence/{}.json", verif(), check.id), json).expect("write evidence");
}
