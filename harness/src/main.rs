mod engine;
mod props;

use engine::*;
use std::collections::HashMap;
use std::io::Write;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: PoisonAlloc = PoisonAlloc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T { if self == Tier::Quick { q } else { t } }
    fn name(self) -> &'static str { self.pick("quick", "thorough") }
}

fn verif_dir() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) }
fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n").replace('\r', "\\r") }
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' { match it.next() { Some('t') => o.push('\t'), Some('n') => o.push('\n'), Some('r') => o.push('\r'), Some(c) => o.push(c), None => {} } } else { o.push(c) }
    }
    o
}

/// `known<TAB>property<TAB>space<TAB>case<TAB>what` lines of known_findings.txt.
fn load_known(prop: &str) -> HashMap<String, String> {
    let mut m = HashMap::new();
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) {
        for l in s.lines() {
            let f: Vec<_> = l.split('\t').collect();
            if f.len() >= 5 && f[0] == "known" && f[1] == prop { m.insert(known_key(f[2], &unesc(f[3])), f[4].to_string()); }
        }
    }
    m
}

struct ChildResult {
    states: u64, transitions: u64, max_depth: u64, outcomes: u64, capped: bool, wall_capped: bool,
    per_space: Vec<(String, String, u64, u64, u64)>,
    viol: Vec<(usize, u64, Failure)>,
    known: Vec<(usize, u64, Failure)>,
    samples: Vec<String>,
}
fn hist_str(h: &[u32]) -> String { if h.is_empty() { "-".into() } else { h.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") } }
fn parse_hist(s: &str) -> Vec<u32> { if s == "-" { vec![] } else { s.split(',').map(|x| x.parse().unwrap()).collect() } }

fn write_result(path: &str, o: &Outcome) {
    let mut s = format!("S\t{}\t{}\t{}\t{}\t{}\t{}\n", o.stats.states, o.stats.transitions, o.stats.max_depth, o.stats.outcomes.len(), o.stats.capped, o.wall_capped);
    for p in &o.per_space { s += &format!("P\t{}\t{}\t{}\t{}\t{}\n", esc(&p.0), esc(&p.1), p.2, p.3, p.4); }
    for (t, v) in [("V", &o.violations), ("K", &o.known)] {
        for (sp, i, f) in v { s += &format!("{t}\t{sp}\t{i}\t{}\t{}\t{}\n", hist_str(&f.hist), esc(&f.case), esc(&f.msg)); }
    }
    for x in &o.stats.samples { s += &format!("X\t{}\n", esc(x)); }
    s += "E\n";
    write_file(path, &s);
}
fn read_result(path: &str) -> Option<ChildResult> {
    let s = std::fs::read_to_string(path).ok()?;
    if !s.ends_with("E\n") { return None; }
    let mut r = ChildResult { states: 0, transitions: 0, max_depth: 0, outcomes: 0, capped: false, wall_capped: false, per_space: vec![], viol: vec![], known: vec![], samples: vec![] };
    for l in s.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "S" => { r.states = f[1].parse().ok()?; r.transitions = f[2].parse().ok()?; r.max_depth = f[3].parse().ok()?; r.outcomes = f[4].parse().ok()?; r.capped = f[5] == "true"; r.wall_capped = f[6] == "true"; }
            "P" => r.per_space.push((unesc(f[1]), unesc(f[2]), f[3].parse().ok()?, f[4].parse().ok()?, f[5].parse().ok()?)),
            "V" | "K" => {
                let x = (f[1].parse().ok()?, f[2].parse().ok()?, Failure { hist: parse_hist(f[3]), case: unesc(f[4]), msg: unesc(f[5]) });
                if f[0] == "V" { r.viol.push(x) } else { r.known.push(x) }
            }
            "X" => r.samples.push(unesc(f[1])),
            _ => {}
        }
    }
    Some(r)
}

/// Whether the process ended by itself, and not because it was told to (or ended from outside).
fn crash(how: &str) -> bool { how.starts_with("aborted") || how.starts_with("exit status") || (how.starts_with("killed by signal") && !["9", "15", "2"].contains(&how.rsplit(' ').next().unwrap_or(""))) }
enum Ended { Ok(ChildResult), Dead { how: String, running: Vec<(usize, u64, Vec<u32>)> } }

/// Runs a child process on the whole check or on one case and watches it.
fn supervise(prop: &str, tier: Tier, threads: usize, one: Option<(usize, u64, &[u32])>, hang: Duration, total: Duration, run_dir: &str, tag: &str) -> Ended {
    let slots_path = format!("{run_dir}/slots.{tag}");
    let res_path = format!("{run_dir}/result.{tag}");
    let _ = std::fs::remove_file(&slots_path);
    let _ = std::fs::remove_file(&res_path);
    let slots = map_slots(&slots_path);
    let exe = std::env::current_exe().expect("current_exe");
    let mut c = Command::new(exe);
    c.arg("child").arg(prop).arg(tier.name()).arg(threads.to_string()).arg(&slots_path).arg(&res_path);
    if let Some((s, i, h)) = one { c.arg(s.to_string()).arg(i.to_string()).arg(hist_str(h)); }
    let log = std::fs::File::create(format!("{run_dir}/stderr.{tag}")).expect("log");
    c.current_dir(run_dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(log);
    let mut ch = c.spawn().expect("spawn child");
    let start = Instant::now();
    let mut last: Vec<(u64, Instant)> = slots.iter().map(|s| (s.get(0), Instant::now())).collect();
    let running = |slots: &Vec<Slot>| slots.iter().filter(|s| s.get(1) != 0).map(|s| (s.get(1) as usize - 1, s.get(2), s.read_hist())).collect::<Vec<_>>();
    loop {
        if let Some(st) = ch.try_wait().expect("wait") {
            if st.success() { if let Some(r) = read_result(&res_path) { return Ended::Ok(r); } }
            use std::os::unix::process::ExitStatusExt;
            let how = match st.signal() { Some(6) => "aborted (stack overflow, memory limit or abort)".to_string(), Some(n) => format!("killed by signal {n}"), None => format!("exit status {:?}", st.code()) };
            return Ended::Dead { how, running: running(&slots) };
        }
        let now = Instant::now();
        for (k, s) in slots.iter().enumerate() {
            let t = s.get(0);
            if t != last[k].0 || s.get(1) == 0 { last[k] = (t, now); }
            else if now - last[k].1 > hang {
                let stuck = vec![(s.get(1) as usize - 1, s.get(2), s.read_hist())];
                let _ = ch.kill(); let _ = ch.wait();
                return Ended::Dead { how: format!("no progress for {} s", hang.as_secs()), running: stuck };
            }
        }
        if start.elapsed() > total {
            let r = running(&slots);
            let _ = ch.kill(); let _ = ch.wait();
            return Ended::Dead { how: "wall cap".into(), running: r };
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn child(a: &[String]) -> i32 {
    let prop = &a[0];
    let tier = if a[1] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let threads: usize = a[2].parse().unwrap();
    unsafe {
        let lim = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
    install_silent_hook();
    let slots = map_slots(&a[3]);
    let spaces = props::spaces(prop, tier).expect("unknown property");
    if a.len() > 5 {
        let (s, i, h): (usize, u64, Vec<u32>) = (a[5].parse().unwrap(), a[6].parse().unwrap(), parse_hist(&a[7]));
        let sp = &spaces[s];
        let slot = slots[0];
        let hh = h.clone();
        let f = std::thread::scope(|sc| std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(sc, move || {
            let mut st = Stats { slot: Some(slot), replay: if hh.is_empty() { None } else { Some(hh) }, ..Stats::default() };
            slot.begin(s, i);
            let f = sp.run(i, &mut st);
            slot.idle();
            f
        }).unwrap().join().unwrap());
        let out = Outcome { stats: Stats::default(), per_space: vec![], violations: f.map(|f| (s, i, f)).into_iter().collect(), known: vec![], wall_capped: false };
        write_result(&a[4], &out);
        return 0;
    }
    let cap: u64 = std::env::var("MC_WALL_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(420, 3000));
    let out = run_all(&spaces, slots, threads, Duration::from_secs(cap), &load_known(prop));
    write_result(&a[4], &out);
    0
}

fn run(prop: &str, tier: Tier) -> i32 {
    install_silent_hook();
    let start = Instant::now();
    let vd = verif_dir();
    let spaces = match std::panic::catch_unwind(|| props::spaces(prop, tier)) {
        Ok(Some(s)) => s,
        Ok(None) => { eprintln!("unknown property {prop}"); return 2 }
        // some cases are made with the code under test
        Err(_) => {
            std::fs::create_dir_all(format!("{vd}/replays")).ok();
            let path = format!("{vd}/replays/{prop}-0.replay");
            write_file(&path, &format!("property\t{prop}\ntier\t{}\nfailure\ta panic of the code under test while the cases were made\n", tier.name()));
            println!("VIOLATION property={prop} replay={path}\n  failure: a panic of the code under test while the cases were made");
            return 1;
        }
    };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let run_dir = format!("{vd}/target/run/{prop}.{}", std::process::id());
    std::fs::create_dir_all(&run_dir).expect("run dir");
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    let hang = Duration::from_secs(tier.pick(60, 180));
    let total = Duration::from_secs(tier.pick(780, 3600));
    let known = load_known(prop);
    let mut viol: Vec<(usize, u64, Failure)> = Vec::new();
    let mut known_hits: Vec<(usize, u64, Failure)> = Vec::new();
    let mut res = None;
    match supervise(prop, tier, threads, None, hang, total, &run_dir, "all") {
        Ended::Ok(mut r) => { viol.append(&mut r.viol); known_hits.append(&mut r.known); res = Some(r); }
        Ended::Dead { how, running } => {
            // Find the case that killed or blocked the child by running each candidate alone.
            for (s, i, h) in &running {
                let one = Some((*s, *i, &h[..]));
                let f = match supervise(prop, tier, 1, one, hang, hang * 3, &run_dir, "one") {
                    Ended::Ok(mut r) => match r.viol.pop() { Some((_, _, f)) => f, None => continue },
                    Ended::Dead { how, .. } => Failure { case: spaces[*s].show(*i, h), msg: format!("the process running this case: {how}"), hist: h.clone() },
                };
                viol.push((*s, *i, f));
                break;
            }
            if viol.is_empty() {
                // Not reproduced alone: run everything in order on one thread.
                match supervise(prop, tier, 1, None, hang, Duration::from_secs(400), &run_dir, "seq") {
                    Ended::Ok(mut r) => { viol.append(&mut r.viol); known_hits.append(&mut r.known); res = Some(r); }
                    Ended::Dead { how: h2, running } if h2 != "wall cap" && !running.is_empty() => {
                        let (s, i, h) = running[0].clone();
                        viol.push((s, i, Failure { case: spaces[s].show(i, &h), msg: format!("the process running this case: {h2}"), hist: h }));
                    }
                    // The process crashes both times, but not in a case that can be named: the memory it works on is broken.
                    Ended::Dead { how: h2, .. } if crash(&how) && (crash(&h2) || h2 == "wall cap") => {
                        let (s, i, h) = running.first().cloned().unwrap_or((0, 0, vec![]));
                        viol.push((s, i, Failure { case: format!("the whole check, first seen to fail around {}", spaces[s].show(i, &h)), msg: format!("the process running the check: {how}; and, run in order on one thread: {h2}"), hist: h }));
                    }
                    Ended::Dead { how: h2, .. } => { eprintln!("engine error: child ended ({how}; then {h2}) and no case reproduces it"); return 2; }
                }
            }
        }
    }
    let mut lines = Vec::new();
    std::fs::create_dir_all(format!("{vd}/replays")).ok();
    let mut confirmed = Vec::new();
    for (k, (s, i, f)) in viol.iter().enumerate() {
        if known.contains_key(&known_key(spaces[*s].name(), &f.case)) { continue; }
        // Replay the recorded case once more, alone, before reporting.
        let again = if k > 0 { "not replayed" } else {
            match supervise(prop, tier, 1, Some((*s, *i, &f.hist)), hang, hang * 3, &run_dir, "again") {
                Ended::Ok(r) => if r.viol.is_empty() { "does not fail when run alone" } else { "fails again when run alone" },
                Ended::Dead { .. } => "kills or blocks its process when run alone",
            }
        };
        let path = format!("{vd}/replays/{prop}-{k}.replay");
        write_file(&path, &format!("property\t{prop}\ntier\t{}\nspace\t{s}\t{}\nindex\t{i}\nhistory\t{}\ncase\t{}\nfailure\t{}\nreplay\t{again}\n",
            tier.name(), spaces[*s].name(), hist_str(&f.hist), esc(&f.case), esc(&f.msg)));
        lines.push(format!("VIOLATION property={prop} replay={path}\n  space: {}\n  case: {}\n  failure: {}\n  ({again})", spaces[*s].name(), clip(f.case.clone()), clip(f.msg.clone())));
        confirmed.push((*s, *i));
        if k >= 4 { break; }
    }
    let mut seen_known = Vec::new();
    for (s, _, f) in &known_hits {
        let k = known_key(spaces[*s].name(), &f.case);
        if seen_known.contains(&k) { continue; }
        println!("KNOWN-FINDING: property={prop} {} [{} {}]", known.get(&k).cloned().unwrap_or_default(), spaces[*s].name(), clip(f.case.clone()));
        seen_known.push(k);
    }
    let wall = start.elapsed().as_secs_f64();
    // evidence
    let r = res.unwrap_or(ChildResult { states: 0, transitions: 0, max_depth: 0, outcomes: 0, capped: false, wall_capped: false, per_space: vec![], viol: vec![], known: vec![], samples: vec![] });
    let exhaustive = !r.capped && !r.wall_capped && viol.is_empty();
    let mut samples: Vec<String> = r.samples.clone();
    for (s, i, f) in viol.iter().take(3) { samples.push(format!("VIOLATING {} #{i}: {}", spaces[*s].name(), f.case)); }
    if samples.is_empty() { samples.push("(run did not complete)".into()); }
    samples.truncate(24);
    let per: Vec<String> = r.per_space.iter().map(|(n, b, s, t, d)| format!("{{\"space\":{},\"bound\":{},\"states\":{s},\"transitions\":{t},\"max_depth\":{d}}}", js(n), js(b))).collect();
    let traces: u64 = r.per_space.iter().map(|p| p.2).sum();
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {traces}, \"distinct_outcomes\": {}, \"max_depth\": {}, \"exhaustive\": {exhaustive},\n  \"rule\": \"states: distinct inputs enumerated plus distinct (canonical) object states reached by search; transitions: calls of the real code whose result was compared with the reference; traces_validated_against_impl: cases and shortest histories run to completion on the real code itself\",\n  \"spaces\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"wall_s\": {wall:.3},\n \"violations\": {},\n \"known_findings_hit\": {},\n \"assumptions\": [\"bounds as stated per space\", \"the reference models in /verif/harness/src/props are right\"]\n}}\n",
        js(prop), js(tier.name()), r.states, r.transitions, r.outcomes, r.max_depth,
        per.join(",\n   "), samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   "), lines.len(), seen_known.len());
    std::fs::create_dir_all(format!("{vd}/evidence")).ok();
    write_file(&format!("{vd}/evidence/{prop}.json"), &ev);
    let _ = std::fs::remove_dir_all(&run_dir);
    println!("{prop} {}: {} states, {} transitions, {} distinct outcomes, depth {}, exhaustive within bounds: {exhaustive}, {wall:.1} s", tier.name(), r.states, r.transitions, r.outcomes, r.max_depth);
    for l in &lines { println!("{l}"); }
    std::io::stdout().flush().ok();
    if lines.is_empty() { 0 } else { 1 }
}

fn replay(path: &str) -> i32 {
    install_silent_hook();
    let s = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| s.lines().find(|l| l.split('\t').next() == Some(k)).map(|l| l.split('\t').skip(1).map(|x| x.to_string()).collect::<Vec<_>>()).expect("field");
    let prop = get("property")[0].clone();
    let tier = if get("tier")[0] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let sp: usize = get("space")[0].parse().unwrap();
    let idx: u64 = get("index")[0].parse().unwrap();
    let hist = parse_hist(&get("history")[0]);
    let run_dir = format!("{}/target/run/replay.{}", verif_dir(), std::process::id());
    std::fs::create_dir_all(&run_dir).unwrap();
    println!("replaying {prop} space {} index {idx} history {}", get("space")[1], hist_str(&hist));
    println!("case: {}", unesc(&get("case")[0]));
    let e = supervise(&prop, tier, 1, Some((sp, idx, &hist)), Duration::from_secs(60), Duration::from_secs(200), &run_dir, "one");
    let _ = std::fs::remove_dir_all(&run_dir);
    match e {
        Ended::Ok(mut r) => match r.viol.pop() { Some((_, _, f)) => { println!("VIOLATION property={prop} replay={path}\n  failure: {}", f.msg); 1 } None => { println!("does not fail"); 0 } },
        Ended::Dead { how, .. } => { println!("VIOLATION property={prop} replay={path}\n  failure: the process running this case: {how}"); 1 }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("child") => child(&a[2..]),
        Some("replay") => replay(&a[2]),
        Some("run") => run(&a[2], if a.get(3).map(|s| s == "thorough").unwrap_or(false) { Tier::Thorough } else { Tier::Quick }),
        _ => { eprintln!("usage: mc run <property> quick|thorough | mc replay <file>"); 2 }
    };
    std::process::exit(code);
}
