//! Runs many seeds in forked processes, minimises and reports violations, writes the evidence file.
use serde::{Deserialize, Serialize};
use serde_json::json;
use simrt::{choice, raw, shm, Config, Report, Viol};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

pub struct Spec {
    pub id: &'static str,
    pub root: fn(),
    /// Runs in the quick and in the thorough tier.
    pub runs: (u64, u64),
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
}
#[derive(Clone)]
pub struct Opts { pub root_dir: PathBuf, pub tier: String, pub seed: u64, pub workers: usize, pub runs: Option<u64>, pub cap_s: f64, pub quiet: bool }

pub enum Exit { Report(Report), Died { class: String, props: String, msg: String }, Lost(String) }
#[derive(Clone, Debug)]
pub struct Verdict { pub viol: Option<Viol>, pub report: Report, pub choices: Vec<u32>, pub lost: Option<String> }

fn wait_child(pid: i32) -> (i32, f64) {
    let mut st = 0i32;
    let mut ru: libc::rusage = unsafe { std::mem::zeroed() };
    loop {
        let r = unsafe { libc::wait4(pid, &mut st, 0, &mut ru) };
        if r == pid { break; }
        if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) { break; }
    }
    let cpu = ru.ru_utime.tv_sec as f64 + ru.ru_stime.tv_sec as f64 + (ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) as f64 / 1e6;
    (st, cpu)
}
/// One run in a forked process.
pub fn exec(mem: *mut shm::Shm, prop: &str, root: fn(), prefix: Vec<u32>, seed: Option<u64>, want_trace: bool) -> Verdict {
    shm::install(mem);
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe {
            let lim = |r, a: u64, b: u64| { let l = libc::rlimit { rlim_cur: a, rlim_max: b }; libc::setrlimit(r, &l); };
            lim(libc::RLIMIT_CPU, 90, 95);
            lim(libc::RLIMIT_CORE, 0, 0);
            lim(libc::RLIMIT_AS, 6 << 30, 6 << 30);
            libc::alarm(400);
        }
        simrt::run(Config { prop: prop.to_string(), prefix, seed, want_trace }, root);
    }
    let (st, cpu) = wait_child(pid);
    let m = shm::get();
    let choices = m.rec[..m.nrec as usize].to_vec();
    if m.done == 1 && libc::WIFEXITED(st) {
        let rep: Report = serde_json::from_slice(&m.report[..m.report_len as usize]).unwrap_or_else(|e| Report { outcome: format!("harness_error: {e}"), ..Default::default() });
        let viol = rep.viols.iter().find(|v| v.prop == prop).cloned().filter(|_| rep.outcome == "violation");
        let lost = if rep.outcome.starts_with("harness_error") { Some(format!("{} {:?}", rep.outcome, rep.stats.keys().find(|k| k.starts_with("harness_error")))) } else { None };
        return Verdict { viol, report: rep, choices, lost };
    }
    let end = m.op.iter().position(|&b| b == 0).unwrap_or(0);
    let op = String::from_utf8_lossy(&m.op[..end]).to_string();
    let (name, props) = op.split_once('|').unwrap_or((&op, ""));
    let mut rep = Report { outcome: "died".into(), trace_hash: st as u64, ..Default::default() };
    if name.is_empty() {
        return Verdict { viol: None, report: rep, choices, lost: Some(format!("run died outside the code under test: status {st:#x}")) };
    }
    let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
    let class = match sig {
        libc::SIGXCPU => format!("hang/{name}"),
        libc::SIGALRM if cpu > 60.0 => format!("hang/{name}"),
        libc::SIGALRM | libc::SIGKILL => return Verdict { viol: None, report: rep, choices, lost: None },
        s => format!("abort/{name}/signal{s}"),
    };
    let viol = props.split(',').any(|p| p == prop).then(|| Viol { prop: prop.into(), class: class.clone(), msg: format!("the process ended inside {name} (wait status {st:#x})") });
    if let Some(v) = &viol { rep.viols.push(v.clone()); }
    Verdict { viol, report: rep, choices, lost: None }
}

#[derive(Serialize, Deserialize, Default)]
struct Agg {
    runs: u64,
    hashes: Vec<u64>,
    stats: BTreeMap<String, u64>,
    outcomes: BTreeMap<String, u64>,
    sim_us: u64, steps: u64, switches: u64, checks: u64,
    first: Option<(u64, Viol, Vec<u32>)>,
    other: BTreeMap<String, u64>,
    lost: Vec<String>,
    samples: Vec<serde_json::Value>,
    cov: Vec<u32>,
    known: BTreeMap<String, u64>,
    capped: bool,
}
pub struct Known { pub prop: String, pub class: String, pub contains: String }
/// Lines "known: property=C01 class=<class> contains=<substring of the message>".
pub fn load_known(p: &Path) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        let Some(r) = l.trim().strip_prefix("known: property=") else { continue };
        let (prop, r) = r.split_once(" class=").unwrap_or((r, ""));
        let (class, c) = r.split_once(" contains=").unwrap_or((r, ""));
        v.push(Known { prop: prop.into(), class: class.into(), contains: c.into() });
    }
    v
}
fn known_match<'a>(k: &'a [Known], v: &Viol) -> Option<&'a Known> {
    k.iter().find(|k| k.prop == v.prop && k.class == v.class && v.msg.contains(&k.contains))
}
fn run_seed(seed: u64, id: &str, i: u64) -> u64 {
    let h = id.bytes().fold(0u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    choice::mix(choice::mix(seed, h), i)
}
static mut TIER: &str = "quick";
pub fn thorough() -> bool { unsafe { TIER == "thorough" } }
pub fn set_tier(t: &str) { unsafe { TIER = if t == "thorough" { "thorough" } else { "quick" } } }

fn worker(spec: &Spec, o: &Opts, w: usize, total: u64, min_viol: &AtomicU64, start: Instant, known: &[Known]) -> Agg {
    let mem = shm::alloc();
    unsafe { (*mem).cov = [0; shm::COV_CAP]; }
    let mut a = Agg::default();
    let mut i = w as u64;
    while i < total {
        if min_viol.load(Ordering::SeqCst) < i { break; }
        if start.elapsed().as_secs_f64() > o.cap_s { a.capped = true; break; }
        let v = exec(mem, spec.id, spec.root, vec![], Some(run_seed(o.seed, spec.id, i)), false);
        a.runs += 1;
        *a.outcomes.entry(v.report.outcome.clone()).or_default() += 1;
        for (k, n) in &v.report.stats { *a.stats.entry(k.clone()).or_default() += n; }
        a.sim_us += v.report.sim_us; a.steps += v.report.steps; a.switches += v.report.switches; a.checks += v.report.checks;
        if v.report.checks > 0 && (v.report.faults > 0 || v.report.switches > 2) { a.hashes.push(v.report.trace_hash); }
        for x in &v.report.viols { if x.prop != spec.id { *a.other.entry(format!("{} {}", x.prop, x.class)).or_default() += 1; } }
        if let Some(l) = &v.lost { if a.lost.len() < 5 { a.lost.push(format!("run {i}: {l}")); } }
        if a.samples.len() < 2 && v.report.checks > 0 {
            a.samples.push(json!({"run": i, "seed": run_seed(o.seed, spec.id, i), "case": v.report.label, "faults": v.report.faults, "task_switches": v.report.switches, "oracle_checks": v.report.checks, "simulated_us": v.report.sim_us, "choices": v.choices.len()}));
        }
        if let Some(x) = v.viol {
            if let Some(k) = known_match(known, &x) { *a.known.entry(format!("{} {}", k.class, k.contains)).or_default() += 1; }
            else { min_viol.fetch_min(i, Ordering::SeqCst); a.first = Some((i, x, v.choices)); break; }
        }
        i += o.workers as u64;
    }
    a.cov = (0..shm::COV_CAP).filter(|&k| unsafe { (*mem).cov[k] != 0 }).map(|k| k as u32).collect();
    a
}
pub fn map_shared_u64() -> &'static AtomicU64 {
    let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
    unsafe { &*(p as *const AtomicU64) }
}
fn sweep(spec: &Spec, o: &Opts, total: u64, known: &[Known]) -> (Agg, Vec<u64>) {
    let start = Instant::now();
    let min_viol = map_shared_u64();
    min_viol.store(u64::MAX, Ordering::SeqCst);
    let mut readers = vec![];
    for w in 0..o.workers {
        let mut p = [0i32; 2];
        assert_eq!(unsafe { libc::pipe(p.as_mut_ptr()) }, 0);
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe { libc::close(p[0]); libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); }
            let a = worker(spec, o, w, total, min_viol, start, known);
            let s = serde_json::to_vec(&a).unwrap();
            let mut f = unsafe { std::fs::File::from_raw_fd(p[1]) };
            let _ = f.write_all(&s);
            drop(f);
            raw::exit_now(0);
        }
        unsafe { libc::close(p[1]); }
        readers.push((pid, p[0]));
    }
    let mut all = Agg::default();
    let mut hashes = vec![];
    for (pid, fd) in readers {
        let mut s = vec![];
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let _ = f.read_to_end(&mut s);
        let _ = wait_child(pid);
        let a: Agg = match serde_json::from_slice(&s) { Ok(a) => a, Err(e) => { all.lost.push(format!("worker lost: {e}")); continue } };
        all.runs += a.runs; all.sim_us += a.sim_us; all.steps += a.steps; all.switches += a.switches; all.checks += a.checks;
        all.capped |= a.capped;
        for (k, n) in a.stats { *all.stats.entry(k).or_default() += n; }
        for (k, n) in a.outcomes { *all.outcomes.entry(k).or_default() += n; }
        for (k, n) in a.other { *all.other.entry(k).or_default() += n; }
        for (k, n) in a.known { *all.known.entry(k).or_default() += n; }
        all.lost.extend(a.lost);
        if all.samples.len() < 6 { all.samples.extend(a.samples); }
        hashes.extend(a.hashes);
        all.cov.extend(a.cov);
        if let Some(f) = a.first { if all.first.as_ref().map_or(true, |x| f.0 < x.0) { all.first = Some(f); } }
    }
    all.cov.sort(); all.cov.dedup();
    (all, hashes)
}
/// Minimises the choice sequence while the same class of violation remains.
fn minimise(spec: &Spec, class: &str, start_choices: Vec<u32>, secs: f64) -> (Vec<u32>, u64) {
    let mem = shm::alloc();
    let t0 = Instant::now();
    let mut tries = 0u64;
    let mut best = start_choices;
    let ok = |c: &Vec<u32>, tries: &mut u64| -> Option<Vec<u32>> {
        *tries += 1;
        let v = exec(mem, spec.id, spec.root, c.clone(), None, false);
        match v.viol { Some(x) if x.class == class => Some(v.choices), _ => None }
    };
    let strip = |mut c: Vec<u32>| { while c.last() == Some(&0) { c.pop(); } c };
    let better = |a: &Vec<u32>, b: &Vec<u32>| (a.len(), a.iter().map(|&x| x as u64).sum::<u64>()) < (b.len(), b.iter().map(|&x| x as u64).sum::<u64>());
    let over = |t0: &Instant| t0.elapsed().as_secs_f64() > secs;
    if let Some(c) = ok(&best, &mut tries) { best = strip(c); } else { return (best, tries); }
    loop {
        let before = best.clone();
        // drop the tail
        let mut k = best.len() / 2;
        while k > 0 && !over(&t0) {
            if best.len() >= k { let c = best[..best.len() - k].to_vec(); if let Some(r) = ok(&c, &mut tries) { let r = strip(r); if better(&r, &best) { best = r; continue; } } }
            k /= 2;
        }
        // delete and zero blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && !over(&t0) {
            let mut i = 0;
            while i < best.len() && !over(&t0) {
                let e = (i + size).min(best.len());
                let mut c = best[..i].to_vec(); c.extend_from_slice(&best[e..]);
                if let Some(r) = ok(&c, &mut tries) { let r = strip(r); if better(&r, &best) { best = r; continue; } }
                if best[i..e.min(best.len())].iter().any(|&x| x != 0) {
                    let mut c = best.clone(); for x in &mut c[i..e] { *x = 0; }
                    if let Some(r) = ok(&c, &mut tries) { let r = strip(r); if better(&r, &best) { best = r; } }
                }
                i += size;
            }
            if size == 1 { break; }
            size /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.len() && !over(&t0) {
            let (mut lo, mut hi) = (0u32, best[i]);
            while lo < hi && !over(&t0) {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone(); c[i] = mid;
                match ok(&c, &mut tries) { Some(r) if { let r2 = strip(r.clone()); better(&r2, &best) } => { best = strip(r); if i >= best.len() { break; } hi = best[i].min(mid); } _ => lo = mid + 1 }
            }
            i += 1;
        }
        if best == before || over(&t0) { break; }
    }
    (best, tries)
}
fn write_evidence(spec: &Spec, o: &Opts, a: &Agg, hashes: &[u64], wall: f64, viols: u64) {
    let distinct: HashSet<u64> = hashes.iter().cloned().collect();
    let sub = |pre: &str| -> BTreeMap<String, u64> { a.stats.iter().filter_map(|(k, v)| k.strip_prefix(pre).map(|r| (r.to_string(), *v))).collect() };
    let rest: BTreeMap<&String, &u64> = a.stats.iter().filter(|(k, _)| !k.contains(':')).collect();
    let ev = json!({
        "property": spec.id, "tier": o.tier, "seed": o.seed, "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": distinct.len(),
            "rule": spec.rule,
            "samples": a.samples,
            "oracle_comparisons": a.checks,
            "simulated_runs_per_hour": (a.runs as f64 / wall.max(0.001) * 3600.0) as u64,
            "simulated_time_s": a.sim_us as f64 / 1e6,
            "faults_injected": sub("fault:"),
            "rare_conditions_hit": sub("probe:"),
            "task_switches": a.switches,
            "other_counts": rest,
            "control_flow_edges_executed_in_code_under_test": a.steps,
            "distinct_control_flow_edges_reached": a.cov.len(),
            "control_flow_edges_instrumented": unsafe { simrt::NGUARDS },
            "run_outcomes": a.outcomes,
            "inconclusive_reasons": sub("inconclusive:"),
            "violations_of_other_properties_seen": a.other,
            "stopped_by_time_cap": a.capped,
            "known_findings_hit": a.known,
            "components_running_real_code": spec.real,
            "components_running_a_stub": spec.stub,
        },
        "assumptions": [
            "all nondeterminism of the code under test goes through the libc functions the simulator interposes, or through thread scheduling at control-flow edges",
            "threads see a sequentially consistent memory (preemption at control-flow edges, no weak-memory effects)",
        ],
        "wall_s": wall, "violations": viols,
    });
    let dir = o.root_dir.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", spec.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
}
pub fn check(spec: &Spec, o: &Opts) -> i32 {
    let t0 = Instant::now();
    println!("check {} tier={} seed={} workers={}", spec.id, o.tier, o.seed, o.workers);
    let total = o.runs.unwrap_or(if o.tier == "thorough" { spec.runs.1 } else { spec.runs.0 });
    let known = load_known(&o.root_dir.join("known-findings.txt"));
    let (a, hashes) = sweep(spec, o, total, &known);
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(spec, o, &a, &hashes, wall, a.first.is_some() as u64);
    for k in &known { if k.prop == spec.id && a.known.keys().any(|x| *x == format!("{} {}", k.class, k.contains)) { println!("KNOWN-FINDING: property={} {} {}", k.prop, k.class, k.contains); } }
    println!("{} runs, {} distinct non-trivial, {} oracle comparisons, {:.1} s; outcomes {:?}", a.runs, hashes.iter().collect::<HashSet<_>>().len(), a.checks, wall, a.outcomes);
    if !o.quiet { for (k, v) in &a.stats { println!("  {k} = {v}"); } }
    if !a.other.is_empty() { println!("  (violations of other properties seen: {:?})", a.other); }
    if let Some((i, v, choices)) = a.first {
        println!("violation in run {i} (seed {}): {} - {}", run_seed(o.seed, spec.id, i), v.class, v.msg);
        let (best, tries) = minimise(spec, &v.class, choices, 30.0);
        let mem = shm::alloc();
        let f = exec(mem, spec.id, spec.root, best.clone(), None, true);
        let viol = f.viol.clone().unwrap_or(v);
        println!("minimised to {} choices in {tries} runs: {} - {}", best.len(), viol.class, viol.msg);
        let dir = o.root_dir.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{:016x}.json", spec.id, f.report.trace_hash));
        let j = json!({"property": spec.id, "tier": o.tier, "run_seed": run_seed(o.seed, spec.id, i), "class": viol.class, "message": viol.msg,
            "trace_hash": format!("{:016x}", f.report.trace_hash), "case": f.report.label, "choices": best, "trace": f.report.trace});
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("replay file");
        println!("VIOLATION property={} replay={}", spec.id, path.display());
        return 1;
    }
    if !a.lost.is_empty() { eprintln!("HARNESS ERROR: {:?}", a.lost); return 2; }
    0
}
pub fn replay(specs: &[Spec], path: &str) -> i32 {
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let id = j["property"].as_str().unwrap();
    set_tier(j["tier"].as_str().unwrap_or("quick"));
    let spec = specs.iter().find(|s| s.id == id).expect("property");
    let choices: Vec<u32> = j["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let mem = shm::alloc();
    let v = exec(mem, spec.id, spec.root, choices, None, true);
    for l in &v.report.trace { println!("{l}"); }
    match v.viol {
        Some(x) => {
            let same = format!("{:016x}", v.report.trace_hash) == j["trace_hash"].as_str().unwrap_or("") && Some(x.class.as_str()) == j["class"].as_str();
            println!("{} - {}\n{}", x.class, x.msg, if same { "reproduced exactly (same class and trace hash)" } else { "a violation, but not the recorded one" });
            println!("VIOLATION property={id} replay={path}");
            1
        }
        None => { println!("no violation: {} {:?}", v.report.outcome, v.lost); 0 }
    }
}
/// One run with its trace.
pub fn one(spec: &Spec, o: &Opts, i: u64) -> i32 {
    let mem = shm::alloc();
    let v = exec(mem, spec.id, spec.root, vec![], Some(run_seed(o.seed, spec.id, i)), true);
    for l in &v.report.trace { println!("{l}"); }
    println!("{} {:?} {:?} lost={:?} hash={:016x} choices={} stats={:?}", v.report.outcome, v.report.label, v.viol, v.lost, v.report.trace_hash, v.choices.len(), v.report.stats);
    0
}
/// Prints the hash of every run, for comparing sweeps.
pub fn hashes(spec: &Spec, o: &Opts) -> i32 {
    let mem = shm::alloc();
    let total = o.runs.unwrap_or(spec.runs.0);
    for i in 0..total {
        let v = exec(mem, spec.id, spec.root, vec![], Some(run_seed(o.seed, spec.id, i)), false);
        println!("{} {i} {} {:016x} {} {}", spec.id, v.report.outcome, v.report.trace_hash, v.report.steps, v.choices.len());
    }
    0
}
