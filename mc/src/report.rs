//! Running a check: parts, evidence, replay artefacts, exit codes.

use crate::explore::*;
use crate::rt::watchdog;
use crate::view::*;
use crate::world::*;
use std::io::Write;
use std::sync::atomic::AtomicBool;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

pub enum Part {
    /// breadth-first exploration of the program
    World(Box<dyn Fn() -> Plan>),
    /// any other exhaustive enumeration
    Custom(String, Box<dyn Fn() -> (Counts, Vec<Violation>)>),
}

const BOUNDS: &str = "each part lists its own depth: every sequence of the part's operations up to that length, from every start state of the part, is executed on the compiled program, and every probing operation is executed in every state reached; parts without a depth enumerate their grid completely";

pub struct Check {
    pub id: &'static str,
    pub parts: fn(Tier) -> Vec<Part>,
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn out_dir() -> String {
    std::env::var("OBMC_OUT").unwrap_or_else(|_| "/verif/evidence".into())
}

/// Findings listed as `known: property=<id> match=<text> ...`
pub fn known_findings(id: &str) -> Vec<String> {
    let p = std::env::var("OBMC_KNOWN").unwrap_or_else(|_| "/verif/known-findings.txt".into());
    let s = std::fs::read_to_string(p).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| {
            let (pid, rest) = l.split_once(' ')?;
            if pid != id {
                return None;
            }
            let m = rest.strip_prefix("match=")?;
            Some(m.split(" ## ").next().unwrap().trim().to_string())
        })
        .collect()
}

pub fn trace_sample(plan: &Plan) -> Vec<String> {
    // first operation of the alphabet, repeated along the first path
    let w = &plan.world;
    let p = Parser::new(w);
    let mut m = w.machine();
    let mut lines = vec![];
    let mut ops: Vec<Op> = plan.seeds.last().map(|s| s.1.clone()).unwrap_or_default();
    ops.truncate(6);
    for op in &ops {
        let o = w.run(&mut m, op);
        lines.push(format!("{:?} -> {}", op, if o.ok { "ok".into() } else { o.err }));
        if !lines.last().unwrap().ends_with("ok") {
            return lines;
        }
    }
    for d in 0..plan.depth.min(3) {
        if let Ok(v) = p.parse(w, &m) {
            if v.mkt.is_none() {
                break;
            }
            let l = (plan.gen)(w, &v);
            if l.is_empty() {
                break;
            }
            let op = l[(d * 7 + l.len() / 2) % l.len()].clone();
            let st = m.save();
            let o = w.run(&mut m, &op);
            lines.push(format!("{:?} -> {}", op, if o.ok { "ok".to_string() } else { o.err.clone() }));
            if !o.ok {
                m.load(&st);
            }
        }
    }
    lines
}

static SAMPLES: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);
static CALLS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// Keeps a description of the 1st, 100th and 10 000th case of a part for the evidence.
pub fn sample(f: impl FnOnce() -> String) {
    let n = CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) + 1;
    if matches!(n, 1 | 100 | 10_000) {
        SAMPLES.lock().unwrap().push(f());
    }
}

pub fn run_check(c: &Check, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let verbose = std::env::var("OBMC_VERBOSE").is_ok();
    let only = std::env::var("OBMC_ONLY").ok();
    let stop = AtomicBool::new(false);
    let mut total = Counts { exhausted: true, ..Default::default() };
    let mut viols: Vec<Violation> = vec![];
    let mut parts_json = vec![];
    let mut samples = vec![];
    let known = known_findings(c.id);
    let mut replay_lines: Vec<String> = vec![];
    let (id, tn) = (c.id, tier.name());
    watchdog(30, move || {
        let dir = out_dir();
        let path = format!("{dir}/{id}.replay.txt");
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(&path, "an instruction did not terminate within 30 seconds\n");
        let _ = std::fs::write(
            format!("{dir}/{id}.json"),
            format!("{{\"property\": \"{id}\", \"tier\": \"{tn}\", \"seed\": {seed}, \"level\": \"model_checking\", \"coverage\": {{\"states\": 0, \"transitions\": 0, \"traces_validated_against_impl\": 0, \"samples\": [], \"exhaustive\": false}}, \"assumptions\": [], \"violations\": 1, \"wall_s\": {:.1}}}\n", t0.elapsed().as_secs_f64()),
        );
        println!("  an instruction did not terminate");
        println!("VIOLATION property={id} replay={path}");
        std::process::exit(1);
    });
    for part in (c.parts)(tier) {
        let t = Instant::now();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Some(match &part {
            Part::World(f) => {
                let plan = f();
                if let Some(o) = &only {
                    if !plan.name.contains(o.as_str()) {
                        return None;
                    }
                }
                let (mut cn, vs) = explore(&plan, &stop);
                if plan.mask == 0 && cn.extra_runs > 0 {
                    // judged by monitors that compare follow-up executions
                    cn.compared = cn.extra_runs;
                }
                if samples.len() < 4 {
                    samples.push(format!("[{}] {}", plan.name, trace_sample(&plan).join(" ; ")));
                }
                for v in &vs {
                    replay_lines.push(format!("plan: {}", plan.name));
                    replay_lines.push(format!("what: {}", v.what));
                    replay_lines.extend(replay(&plan, &v.ops));
                    replay_lines.push(String::new());
                }
                (plan.name.clone(), cn, vs)
            }
            Part::Custom(n, f) => {
                if let Some(o) = &only {
                    if !n.contains(o.as_str()) {
                        return None;
                    }
                }
                CALLS.store(0, std::sync::atomic::Ordering::Relaxed);
                let (cn, vs) = f();
                for x in SAMPLES.lock().unwrap().drain(..) {
                    if samples.len() < 8 {
                        samples.push(format!("[{n}] {}", x.chars().take(600).collect::<String>()));
                    }
                }
                for v in &vs {
                    replay_lines.push(format!("part: {}", n));
                    replay_lines.push(format!("what: {}", v.what));
                    for o in &v.ops {
                        replay_lines.push(format!("    {o:?}"));
                    }
                    replay_lines.push(v.seed.clone());
                    replay_lines.push(String::new());
                }
                (n.clone(), cn, vs)
            }
        })));
        let (name, mut counts, mut vs) = match r {
            Ok(Some(x)) => x,
            Ok(None) => continue,
            Err(e) => {
                // a legitimate instruction of the setup was rejected
                let what = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
                replay_lines.push(format!("setup: {what}"));
                let v = Violation { plan: "setup".into(), seed: String::new(), ops: vec![], what, known: None };
                ("setup".into(), Counts { transitions: 1, ..Default::default() }, vec![v])
            }
        };
        if counts.compared == 0 {
            counts.compared = counts.extra_runs;
        }
        if verbose {
            eprintln!(
                "{:>8.2}s {} states {} transitions {} ok {} failed {} extra {} depth {} {}",
                t.elapsed().as_secs_f64(),
                name,
                counts.states,
                counts.transitions,
                counts.ok,
                counts.failed,
                counts.extra_runs,
                counts.depth,
                if vs.is_empty() { "" } else { "VIOLATED" }
            );
        }
        let ops: Vec<String> =
            counts.by_op.iter().map(|(k, v)| format!("{}: {{\"ok\": {}, \"failed\": {}}}", jstr(k), v.0, v.1)).collect();
        parts_json.push(format!(
            "{{\"name\": {}, \"states\": {}, \"transitions\": {}, \"depth\": {}, \"succeeded\": {}, \"rejected\": {}, \"compared_with_model\": {}, \"follow_up_executions\": {}, \"distinct_outcomes\": {}, \"by_operation\": {{{}}}}}",
            jstr(&name), counts.states, counts.transitions, counts.depth, counts.ok, counts.failed, counts.compared,
            counts.extra_runs, counts.outcomes, ops.join(", ")
        ));
        if !counts.exhausted {
            total.exhausted = false;
        }
        total.merge(&counts);
        for v in vs.iter_mut() {
            v.known = known.iter().find(|k| v.what.contains(k.as_str())).cloned();
        }
        viols.extend(vs);
        if viols.iter().any(|v| v.known.is_none()) {
            break;
        }
    }
    let fresh: Vec<&Violation> = viols.iter().filter(|v| v.known.is_none()).collect();
    let dir = out_dir();
    let _ = std::fs::create_dir_all(&dir);
    let replay_path = format!("{}/{}.replay.txt", dir, c.id);
    let _ = std::fs::remove_file(&replay_path);
    if !viols.is_empty() {
        let _ = std::fs::write(&replay_path, replay_lines.join("\n"));
    }
    let samples_json: Vec<String> = samples.iter().map(|s| jstr(s)).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"max_depth\": {},\n  \"succeeded\": {},\n  \"rejected\": {},\n  \"follow_up_executions\": {},\n  \"bounds\": {},\n  \"samples\": [{}],\n  \"parts\": [\n   {}\n  ]\n }},\n \"assumptions\": [\"states are identified by a 128-bit hash of their behaviour-relevant content\", \"the ledger runtime is emulated: account ownership, signer, writability, rent and token program rules are enforced by the harness, compute limits are not\"],\n \"violations\": {},\n \"wall_s\": {:.3}\n}}\n",
        jstr(c.id), jstr(tier.name()), seed, total.states, total.transitions, total.compared, total.exhausted,
        total.depth, total.ok, total.failed, total.extra_runs, jstr(BOUNDS), samples_json.join(", "),
        parts_json.join(",\n   "), fresh.len(), t0.elapsed().as_secs_f64()
    );
    let path = format!("{}/{}.json", dir, c.id);
    if let Err(e) = std::fs::File::create(&path).and_then(|mut f| f.write_all(ev.as_bytes())) {
        eprintln!("cannot write {path}: {e}");
        return 3;
    }
    println!(
        "{} {}: {} states, {} transitions, {} compared with the model, {} follow-up executions, {:.1}s",
        c.id,
        tier.name(),
        total.states,
        total.transitions,
        total.compared,
        total.extra_runs,
        t0.elapsed().as_secs_f64()
    );
    for v in &viols {
        if let Some(k) = &v.known {
            println!("KNOWN-FINDING: property={} {}", c.id, k);
        }
    }
    if !fresh.is_empty() {
        for v in &fresh {
            println!("  [{}] {}", v.plan, v.what.chars().take(600).collect::<String>());
        }
        println!("VIOLATION property={} replay={}", c.id, replay_path);
        return 1;
    }
    if total.transitions == 0 {
        eprintln!("nothing was explored");
        return 3;
    }
    0
}
