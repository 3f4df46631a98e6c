//! Runs the cases of a property on all cores, collects what the explorer did, writes evidence.
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use symf::{Stats, Violation};

#[derive(Default)]
pub struct Out {
    pub stats: Stats,
    pub vio: Option<Violation>,
    pub desc: String,
    /// programs the code under test compiled (or otherwise processed)
    pub programs: u64,
    /// programs refused with a user error
    pub refused: u64,
}
impl Out {
    pub fn add(&mut self, r: (Stats, Option<Violation>)) -> bool {
        self.stats.merge(&r.0);
        if r.1.is_some() && self.vio.is_none() {
            self.vio = r.1;
        }
        self.vio.is_some()
    }
    /// a failure that involves no symbolic value
    pub fn fail(&mut self, msg: impl Into<String>) {
        if self.vio.is_none() {
            self.vio = Some(Violation { msg: msg.into(), model: Default::default(), trials: 1, failed: 1 });
        }
    }
    pub fn note(&mut self, s: &str) {
        *self.stats.notes.entry(s.to_string()).or_insert(0) += 1;
    }
}
pub struct Case {
    pub name: String,
    pub run: Box<dyn Fn() -> Out + Send + Sync>,
}
pub fn case(name: impl Into<String>, f: impl Fn() -> Out + Send + Sync + 'static) -> Case {
    Case { name: name.into(), run: Box::new(f) }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
#[derive(Clone, Copy)]
pub struct Env {
    pub tier: Tier,
    pub seed: u64,
}
impl Env {
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.tier == Tier::Quick {
            q
        } else {
            t
        }
    }
}
pub struct Prop {
    pub id: &'static str,
    /// situations that must have been reached, or the run proves nothing
    pub reach: &'static [&'static str],
    pub cases: fn(Env) -> Vec<Case>,
}

pub struct Args {
    pub env: Env,
    pub evidence: String,
    pub replay_dir: String,
    pub only: Option<String>,
    pub budget: Duration,
    pub known: String,
    pub verbose: bool,
    /// file that tells the supervisor which cases are running
    pub current: Option<String>,
}
/// a single case takes at most about 15 s; one that runs this long does not terminate
const HANG: u64 = 300;
/// Runs the checks in a child, so that a crash of the code under test (stack overflow, abort, endless
/// loop) is attributed to a case, confirmed by running that case alone, and reported.
pub fn supervise(av: &[String]) -> i32 {
    let get = |k: &str| av.iter().position(|x| x == k).map(|i| av[i + 1].clone());
    let id = av.get(1).cloned().unwrap_or_default();
    let cur = std::env::temp_dir().join(format!("chk-{}-{}", id, std::process::id()));
    let exe = std::env::current_exe().unwrap();
    let spawn = |extra: &[&str]| -> (Option<i32>, Vec<String>) {
        let _ = std::fs::remove_file(&cur);
        let st = std::process::Command::new(&exe)
            .args(&av[1..])
            .args(extra)
            .args(["--child", "--current", cur.to_str().unwrap()])
            .status();
        let mut open: Vec<String> = vec![];
        for l in std::fs::read_to_string(&cur).unwrap_or_default().lines() {
            if let Some(n) = l.strip_prefix("+ ") {
                open.push(n.to_string());
            } else if let Some(n) = l.strip_prefix("- ") {
                if let Some(i) = open.iter().position(|x| x == n) {
                    open.remove(i);
                }
            }
        }
        let _ = std::fs::remove_file(&cur);
        match st {
            Ok(s) => (s.code(), open),
            Err(_) => (Some(2), open),
        }
    };
    let (code, open) = spawn(&[]);
    if let Some(c) = code {
        if c != HUNG {
            return c;
        }
    }
    if av.iter().any(|x| x == "--case") {
        return if code.is_none() { 134 } else { HUNG };
    }
    for n in &open {
        let (c, _) = spawn(&["--case", n]);
        if c == Some(1) {
            return 1;
        }
        if c.is_none() || c == Some(HUNG) {
            let dir = get("--replays").unwrap_or("/tmp/replays".into());
            let what = if c.is_none() { "the code under test crashes the process" } else { "the code under test does not terminate" };
            let path = format!("{dir}/{id}-{}.json", n.replace(|c: char| !c.is_ascii_alphanumeric() && c != '-', "_"));
            let _ = std::fs::create_dir_all(&dir);
            let tier = get("--tier").unwrap_or("quick".into());
            let _ = std::fs::write(&path, json!({"property": id, "case": n, "what": what, "again": format!("tools/check.sh {id} {tier} --case '{n}'")}).to_string());
            println!("{n}: {what}");
            println!("VIOLATION property={id} replay={path}");
            return 1;
        }
    }
    2
}
const HUNG: i32 = 77;
fn tick(f: &Option<Mutex<std::fs::File>>, s: &str) {
    use std::io::Write;
    if let Some(f) = f {
        let _ = f.lock().unwrap().write_all(s.as_bytes());
    }
}
static OUTFD: AtomicUsize = AtomicUsize::new(1);
pub fn silence_stdout() {
    unsafe {
        let keep = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        OUTFD.store(keep as usize, Ordering::SeqCst);
    }
}
pub fn say(s: &str) {
    let s = format!("{s}\n");
    unsafe {
        libc::write(OUTFD.load(Ordering::SeqCst) as i32, s.as_ptr() as *const _, s.len());
    }
}

struct Found {
    name: String,
    out: Out,
}
pub fn run(p: &Prop, a: &Args) -> i32 {
    let start = Instant::now();
    let mut cases = (p.cases)(a.env);
    if let Some(o) = &a.only {
        cases.retain(|c| c.name == *o);
        if cases.is_empty() {
            say("no such case");
            return 2;
        }
    }
    let all: Value = serde_json::from_str(include_str!("../meta.json")).unwrap();
    let meta = all[p.id].clone();
    let text = |k: &str| meta[k].as_str().unwrap_or("").to_string();
    let known: Vec<Value> = std::fs::read_to_string(&a.known)
        .ok()
        .and_then(|s| serde_json::from_str::<Value>(&s).ok())
        .and_then(|v| v["findings"].as_array().cloned())
        .unwrap_or_default();
    let next = AtomicUsize::new(0);
    let current = a.current.as_ref().map(|p| Mutex::new(std::fs::File::create(p).unwrap()));
    let running: Mutex<BTreeMap<String, Instant>> = Mutex::new(BTreeMap::new());
    let over = AtomicUsize::new(0);
    let done = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let total: Mutex<(Stats, u64, u64)> = Mutex::new((Stats::default(), 0, 0));
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let samples: Mutex<BTreeMap<usize, Value>> = Mutex::new(BTreeMap::new());
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let slow: Mutex<Vec<(f64, String)>> = Mutex::new(vec![]);
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).min(16);
    let is_known = |name: &str, msg: &str| -> bool {
        known.iter().any(|k| {
            k["property"] == p.id
                && k["status"] != "fixed"
                && k["case"].as_str().map(|c| c == name).unwrap_or(false)
                && k["message"].as_str().map(|c| msg.contains(c)).unwrap_or(false)
        })
    };
    std::thread::scope(|s| {
        s.spawn(|| {
            while over.load(Ordering::SeqCst) < n {
                std::thread::sleep(Duration::from_millis(20));
                if running.lock().unwrap().values().any(|t| t.elapsed().as_secs() > HANG) {
                    unsafe { libc::_exit(HUNG) };
                }
            }
        });
        for _ in 0..n {
            s.spawn(|| {
                struct Over<'a>(&'a AtomicUsize);
                impl Drop for Over<'_> {
                    fn drop(&mut self) {
                        self.0.fetch_add(1, Ordering::SeqCst);
                    }
                }
                let _over = Over(&over);
                // rayon code under test stays on this thread, where the symbolic state lives
                let pool = rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(256 << 20).build().unwrap();
                pool.install(|| loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= cases.len() || stop.load(Ordering::SeqCst) || start.elapsed() > a.budget {
                        return;
                    }
                    let c = &cases[i];
                    let t = Instant::now();
                    tick(&current, &format!("+ {}\n", c.name));
                    running.lock().unwrap().insert(c.name.clone(), t);
                    let out = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (c.run)())) {
                        Ok(o) => o,
                        Err(e) => {
                            let t = symf::ctx::panic_text(&e);
                            if t.starts_with("MACHINERY") {
                                errors.lock().unwrap().push(format!("{}: {t}", c.name));
                                stop.store(true, Ordering::SeqCst);
                                return;
                            }
                            let mut o = Out::default();
                            o.fail(format!("panic: {t}"));
                            o
                        }
                    };
                    tick(&current, &format!("- {}\n", c.name));
                    running.lock().unwrap().remove(&c.name);
                    let secs = t.elapsed().as_secs_f64();
                    slow.lock().unwrap().push((secs, c.name.clone()));
                    done.fetch_add(1, Ordering::SeqCst);
                    {
                        let mut g = total.lock().unwrap();
                        g.0.merge(&out.stats);
                        g.1 += out.programs;
                        g.2 += out.refused;
                    }
                    if a.verbose {
                        eprintln!("{} {:.1}s paths={} q={} {:?} {:?}", c.name, secs, out.stats.paths, out.stats.queries, out.stats.notes, out.vio.as_ref().map(|v| &v.msg));
                        if out.stats.unsupported + out.stats.unreplayed + out.stats.unresolved + out.stats.truncated > 0 {
                            eprintln!("   unsup {:?} unrep {:?} unres {} trunc {}", out.stats.unsupported_why, out.stats.unreplayed_why, out.stats.unresolved, out.stats.truncated);
                        }
                    }
                    if i % 37 == 0 || i < 3 {
                        let mut m = samples.lock().unwrap();
                        if m.len() < 8 {
                            m.insert(i, json!({"case": c.name, "what": out.desc.chars().take(1500).collect::<String>(),
                                "paths": out.stats.paths, "solver_queries": out.stats.queries}));
                        }
                    }
                    if let Some(v) = &out.vio {
                        if !is_known(&c.name, &v.msg) {
                            stop.store(true, Ordering::SeqCst);
                        }
                        found.lock().unwrap().push(Found { name: c.name.clone(), out });
                    }
                })
            });
        }
    });
    let (st, programs, refused) = total.into_inner().unwrap();
    let errors = errors.into_inner().unwrap();
    let found = found.into_inner().unwrap();
    let done = done.load(Ordering::SeqCst);
    let mut nviol = 0;
    let mut seen_known = vec![];
    for f in &found {
        let v = f.out.vio.as_ref().unwrap();
        let model: BTreeMap<_, _> = v.model.iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
        if is_known(&f.name, &v.msg) {
            seen_known.push(f.name.clone());
            say(&format!("KNOWN-FINDING: property={} {}: {}", p.id, f.name, v.msg));
            continue;
        }
        nviol += 1;
        let path = format!("{}/{}-{}.json", a.replay_dir, p.id, f.name.replace(|c: char| !c.is_ascii_alphanumeric() && c != '-', "_"));
        let _ = std::fs::create_dir_all(&a.replay_dir);
        let _ = std::fs::write(
            &path,
            serde_json::to_string_pretty(&json!({
                "property": p.id, "case": f.name, "what": v.msg, "input": model, "program": f.out.desc,
                "replayed": format!("{} of {} concrete runs of the real code with these values fail", v.failed, v.trials),
                "again": format!("tools/check.sh {} {} --case '{}'", p.id, if a.env.tier == Tier::Quick { "quick" } else { "thorough" }, f.name),
            }))
            .unwrap(),
        );
        say(&format!("{}: {} [{}]", f.name, v.msg, model.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")));
        say(&format!("VIOLATION property={} replay={}", p.id, path));
    }
    let mut missing: Vec<&str> = vec![];
    if nviol == 0 && a.only.is_none() {
        missing = p.reach.iter().filter(|r| st.notes.get(**r).copied().unwrap_or(0) == 0).copied().collect();
    }
    slow.lock().unwrap().sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    let explanation = format!(
        "Functions executed symbolically: {}. Bounds: {}. Outside: {}. Every branch on a symbolic field element is decided by z3 (QF_BV encoding of the field) for all values; {} of {} cases ran within the time budget.",
        text("functions"), text("bounds"), text("outside"), done, cases.len()
    );
    let mut cov = json!({
        "explanation": explanation,
        "functions_encoded": meta["functions"],
        "bounds": meta["bounds"],
        "outside": meta["outside"],
        "cases": done,
        "cases_listed": cases.len(),
        "explorations": st.explorations,
        "symbolic_paths": st.paths,
        "symbolic_branches": st.decisions,
        "branches_with_one_feasible_side": st.forced,
        "queries_discharged": st.queries,
        "solver_ms": st.solver_ms.round(),
        "solver_unknown": st.unresolved,
        "paths_not_encodable": st.unsupported_why,
        "explorations_cut_short": st.truncated,
        "models_that_did_not_replay": st.unreplayed_why,
        "reached": st.notes,
        "programs_compiled": programs,
        "programs_refused": refused,
        "known_findings_seen": seen_known,
        "slowest_cases": slow.lock().unwrap().iter().take(4).map(|x| json!([x.1, (x.0 * 10.0).round() / 10.0])).collect::<Vec<_>>(),
        "samples": samples.into_inner().unwrap().into_values().collect::<Vec<_>>(),
    });
    match text("level").as_str() {
        "translation_validation" => {
            cov["programs"] = json!(programs);
            cov["disagreements_checked"] = json!(st.paths);
        }
        "model_checking" => {
            cov["states"] = json!(st.paths);
            cov["transitions"] = json!(st.decisions);
            cov["traces_validated_against_impl"] = json!(st.paths);
        }
        _ => {}
    }
    let ev = json!({
        "property": p.id, "tier": if a.env.tier == Tier::Quick { "quick" } else { "thorough" }, "seed": a.env.seed,
        "level": meta["level"], "coverage": cov, "assumptions": meta["assumptions"], "wall_s": start.elapsed().as_secs_f64(),
        "violations": nviol,
    });
    if a.only.is_none() {
        std::fs::write(&a.evidence, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    say(&format!(
        "{}: {}/{} cases, {} programs ({} refused), {} paths, {} branches, {} queries, {:.1}s solver, unknown {}, not encodable {}, cut {}, unreplayed {}, {:.1}s",
        p.id, done, cases.len(), programs, refused, st.paths, st.decisions, st.queries, st.solver_ms / 1000.0, st.unresolved, st.unsupported, st.truncated, st.unreplayed, start.elapsed().as_secs_f64()
    ));
    if nviol > 0 {
        return 1;
    }
    if !errors.is_empty() {
        say(&format!("ERROR of the machinery: {}", errors.join("; ")));
        return 2;
    }
    if !missing.is_empty() {
        say(&format!("ERROR: the run never reached {missing:?}, so it shows nothing"));
        return 2;
    }
    if st.unreplayed > 0 && a.env.tier == Tier::Quick && st.unreplayed > st.paths / 20 {
        say(&format!("ERROR: models that do not replay: {:?}", st.unreplayed_why));
        return 2;
    }
    0
}
