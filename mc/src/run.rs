//! Running one property: child (explores), parent (survives crashes), evidence, replay, known findings.
use crate::engine::*;
use std::time::Duration;

pub struct Prop { pub id: &'static str, pub build: fn(bool) -> Vec<Space>, pub assumptions: &'static [&'static str] }
pub fn root() -> String { std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()) }
fn known(id: &str) -> Vec<(Vec<u8>, String)> {
    // lines: known: property=<id> input=<hex> <what fails>
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    t.lines().filter_map(|l| {
        let l = l.strip_prefix("known: property=")?;
        let (p, rest) = l.split_once(' ')?;
        if p != id { return None }
        let (inp, what) = rest.strip_prefix("input=")?.split_once(' ')?;
        let b = (0..inp.len() / 2).map(|i| u8::from_str_radix(&inp[2 * i..2 * i + 2], 16).unwrap()).collect();
        Some((b, what.to_string()))
    }).collect()
}
fn write(path: &str, s: &str) { let t = format!("{path}.tmp"); std::fs::write(&t, s).unwrap(); std::fs::rename(&t, path).unwrap() }
fn replay_file(p: &Prop, tier: &str, sp: &Space, f: &Failure) -> String {
    let mut b = vec![];
    let aux = (sp.gen)(f.idx, &mut b);
    std::fs::create_dir_all(format!("{}/replay", root())).ok();
    let path = format!("{}/replay/{}.json", root(), p.id);
    write(&path, &format!("{{\"property\": \"{}\", \"tier\": \"{tier}\", \"space\": {}, \"space_name\": {}, \"index\": {}, \"parameter\": {aux}, \"input\": {}, \"input_hex\": \"{}\", \"failure\": {}}}\n", p.id, f.space, json_str(&sp.name), f.idx, json_str(&show(&b)), hex(&b), json_str(&f.msg)));
    path
}
fn report(p: &Prop, tier: &str, sp: &Space, f: &Failure) {
    let path = replay_file(p, tier, sp, f);
    let mut b = vec![];
    let aux = (sp.gen)(f.idx, &mut b);
    println!("{}: {} (parameter {aux}): {}", sp.name.split(':').next().unwrap(), show(&b), f.msg);
    println!("VIOLATION property={} replay={path}", p.id);
    flush();
}
pub fn evidence(p: &Prop, tier: &str, o: &Outcome, violations: u64, known: u64) {
    std::fs::create_dir_all(format!("{}/evidence", root())).ok();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let spaces = o.per_space.iter().map(|(n, a, b)| format!("{{\"space\": {}, \"cases\": {a}, \"explored\": {b}}}", json_str(n))).collect::<Vec<_>>().join(", ");
    let samples = o.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ");
    let mut asm: Vec<String> = p.assumptions.iter().map(|s| json_str(s)).collect();
    asm.push(json_str("exhaustive within the listed spaces only; states are distinct observed outcomes (hashed into 2^30 buckets, so the count is a lower bound)"));
    write(&format!("{}/evidence/{}.json", root(), p.id), &format!(
        "{{\"property\": \"{}\", \"tier\": \"{tier}\", \"seed\": {seed}, \"level\": \"model_checking\", \"coverage\": {{\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"cases\": {}, \"exhaustive\": {}, \"spaces\": [{spaces}], \"known_findings_met\": {known}, \"samples\": [{samples}]}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {violations}}}\n",
        p.id, o.states, o.steps, o.execs, o.cases, o.complete, asm.join(", "), o.wall));
}
fn limits(tier: &str) -> Limits { Limits { threads: NT,  wall: Duration::from_secs(std::env::var("MC_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 600 } else { 6 * 3600 })), hang: Duration::from_secs(20) } }
/// Explores; exit code 0 or 1.
pub fn child(p: &Prop, tier: &str, status: &str) -> i32 {
    install_hook();
    let spaces = (p.build)(tier == "thorough");
    let st = Status::open(Some(status));
    let kn = known(p.id);
    let met = std::sync::Mutex::new(std::collections::BTreeMap::new());
    let o = explore(&spaces, &st, limits(tier), |f| {
        let sp = &spaces[f.space];
        report(p, tier, sp, &f);
        evidence(p, tier, &Outcome { fail: None, states: 0, steps: 0, execs: 0, cases: f.idx, per_space: vec![], samples: vec![], complete: false, wall: 0.0 }, 1, 0);
        std::process::exit(1)
    }, |b, _| match kn.iter().find(|k| k.0 == b) { Some(k) => { met.lock().unwrap().insert(k.0.clone(), k.1.clone()); true } None => false });
    let met = met.into_inner().unwrap();
    for (b, w) in &met { println!("KNOWN-FINDING: property={} {} -- input {}", p.id, w, show(b)) }
    evidence(p, tier, &o, o.fail.is_some() as u64, met.len() as u64);
    for (n, a, b) in &o.per_space { println!("  {n}: {b} of {a} cases") }
    println!("{}: {} cases, {} executions, {} states, {} transitions, {:.1} s{}", p.id, o.cases, o.execs, o.states, o.steps, o.wall, if o.complete { "" } else { " (not complete)" });
    flush();
    match o.fail { Some(f) => { report(p, tier, &spaces[f.space], &f); 1 } None => 0 }
}
pub fn one(p: &Prop, tier: &str, space: usize, idx: u64) -> i32 {
    install_hook();
    let spaces = (p.build)(tier == "thorough");
    let sp = &spaces[space];
    let mut b = vec![];
    let h = std::thread::scope(|s| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || { let mut cx = Ctx::new(); run_case(sp, idx, &mut b, &mut cx) }).unwrap().join());
    match h { Ok(Ok(())) => 0, Ok(Err(m)) => { println!("{}", m); 1 } Err(_) => 1 }
}
/// A directory for the files a check needs; the parent removes it.
pub fn scratch() -> std::path::PathBuf { std::env::var_os("MC_SCRATCH").map(|d| d.into()).unwrap_or_else(|| std::env::temp_dir().join(format!("mc-scratch-{}", std::process::id()))) }
/// Parent: runs the child and turns a crash of the whole process into a reported violation.
pub fn parent(p: &Prop, tier: &str) -> i32 {
    let d = scratch();
    std::env::set_var("MC_SCRATCH", &d);
    let r = watch(p, tier);
    if d.exists() { std::fs::remove_dir_all(&d).ok(); }
    r
}
fn watch(p: &Prop, tier: &str) -> i32 {
    let status = std::env::temp_dir().join(format!("mc-status-{}-{}", p.id, std::process::id()));
    let sts = status.to_str().unwrap().to_string();
    std::fs::write(&status, vec![0u8; 4096]).unwrap();
    let exe = std::env::current_exe().unwrap();
    let rc = std::process::Command::new(&exe).args(["child", p.id, tier, &sts]).status().unwrap();
    let inflight = Status::read(&sts);
    std::fs::remove_file(&status).ok();
    if let Some(c) = rc.code() { if c == 0 || c == 1 { return c } }
    eprintln!("explorer ended with {rc}; re-running the cases in flight one by one");
    let spaces = (p.build)(tier == "thorough");
    for (s, i) in inflight {
        let mut c = std::process::Command::new(&exe).args(["one", p.id, tier, &s.to_string(), &i.to_string()]).stderr(std::process::Stdio::null()).stdout(std::process::Stdio::null()).spawn().unwrap();
        let t0 = std::time::Instant::now();
        let r = loop {
            if let Some(r) = c.try_wait().unwrap() { break Some(r) }
            if t0.elapsed() > Duration::from_secs(30) { c.kill().ok(); c.wait().ok(); break None }
            std::thread::sleep(Duration::from_millis(20));
        };
        let bad = match r { None => Some("no result after 30 s".to_string()), Some(r) if r.code() == Some(0) => None, Some(r) => Some(format!("the process ended with {r}")) };
        if let Some(m) = bad {
            let f = Failure { space: s as usize, idx: i, msg: m };
            report(p, tier, &spaces[s as usize], &f);
            evidence(p, tier, &Outcome { fail: None, states: 0, steps: 0, execs: 0, cases: i, per_space: vec![], samples: vec![], complete: false, wall: 0.0 }, 1, 0);
            return 1;
        }
    }
    eprintln!("no single case reproduces the crash");
    2
}
