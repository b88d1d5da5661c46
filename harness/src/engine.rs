//! Workload driver: runs scenarios on all cores, records what the monitors
//! observed, writes the evidence file and decides the exit code.
use crate::rng::{hash64, R};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// prefix of a failure message that is no verdict
pub const UNKNOWN: &str = "INCONCLUSIVE:";
pub type Res = Result<(), String>;

pub struct Ctx {
    pub r: R,
    pub thorough: bool,
    pub iter: usize,
    obs: u64,
    nontrivial: Vec<u64>,
    counters: BTreeMap<String, u64>,
    sample: Option<String>,
    trace: Vec<String>,
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, iter: usize) -> Self {
        Ctx {
            r: R::new(seed),
            thorough,
            iter,
            obs: 0,
            nontrivial: vec![],
            counters: BTreeMap::new(),
            sample: None,
            trace: vec![],
        }
    }
    /// n oracle observations were made
    pub fn obs(&mut self, n: u64) {
        self.obs += n;
    }
    /// named event count, reported in the evidence
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    /// register a non-trivial case by its content; distinct ones are counted
    pub fn case<T: AsRef<[u8]>>(&mut self, fp: T) {
        self.nontrivial.push(hash64(&[fp.as_ref()]));
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    /// remember a step; printed when the case fails
    pub fn note(&mut self, s: String) {
        self.trace.push(s);
        if self.trace.len() > 400 {
            self.trace.drain(0..200);
        }
    }
}

pub struct Scenario {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub f: Box<dyn Fn(&mut Ctx) -> Res + Sync + Send>,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub scenarios: Vec<Scenario>,
    pub watchdog_s: u64,
    pub case_limit_s: u64,
}

#[derive(Default)]
struct Stat {
    iters: u64,
    obs: u64,
}

impl Check {
    pub fn new(id: &'static str, rule: &'static str) -> Self {
        Check {
            id,
            rule,
            assumptions: vec![],
            scenarios: vec![],
            watchdog_s: 840,
            case_limit_s: 150,
        }
    }

    pub fn assume(mut self, a: &'static str) -> Self {
        self.assumptions.push(a);
        self
    }

    pub fn add<F: Fn(&mut Ctx) -> Res + Sync + Send + 'static>(
        mut self,
        name: &'static str,
        quick: usize,
        thorough: usize,
        f: F,
    ) -> Self {
        self.scenarios.push(Scenario {
            name,
            quick,
            thorough,
            f: Box::new(f),
        });
        self
    }

    fn verif_dir() -> String {
        std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
    }

    fn run_case(s: &Scenario, seed: u64, iter: usize, thorough: bool) -> (Ctx, Res) {
        let cs = hash64(&[s.name.as_bytes(), &seed.to_le_bytes(), &(iter as u64).to_le_bytes()]);
        let mut ctx = Ctx::new(cs, thorough, iter);
        let res = match catch_unwind(AssertUnwindSafe(|| (s.f)(&mut ctx))) {
            Ok(r) => r,
            Err(e) => Err(format!("unexpected panic: {}", panic_msg(&e))),
        };
        (ctx, res)
    }

    /// runs the check and exits the process
    pub fn run(self) -> ! {
        let t0 = Instant::now();
        std::panic::set_hook(Box::new(|_| {}));
        let seed: u64 = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<u64>().ok())
            .unwrap_or(1);
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let thorough = tier == "thorough";
        let dir = Self::verif_dir();

        if let Ok(path) = std::env::var("VERIF_REPLAY") {
            self.replay(&path);
        }

        let wd = if thorough { 6 * 3600 } else { self.watchdog_s };
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_secs(wd));
            eprintln!("INCONCLUSIVE: watchdog after {} s", wd);
            std::process::exit(2);
        });

        let nthreads = std::env::var("VERIF_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| {
                std::thread::available_parallelism()
                    .map(|n| n.get())
                    .unwrap_or(4)
            });

        // interleave scenarios so that one slow scenario is spread over cores
        let scale: f64 = std::env::var("VERIF_SCALE")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if thorough { 1.0 } else { quick_scale(self.id) });
        let only = std::env::var("VERIF_ONLY").ok();
        let mut jobs: Vec<(usize, usize)> = vec![];
        for (si, s) in self.scenarios.iter().enumerate() {
            if let Some(o) = &only {
                if !s.name.contains(o.as_str()) {
                    continue;
                }
            }
            let n = if thorough { s.thorough } else { s.quick };
            let n = ((n as f64 * scale).ceil() as usize).max(1);
            for i in 0..n {
                jobs.push((si, i));
            }
        }
        jobs.sort_by_key(|(si, i)| {
            let s = &self.scenarios[*si];
            let n = if thorough { s.thorough } else { s.quick };
            ((*i as u64) << 20) / (n.max(1) as u64)
        });

        // a case that does not come back is a failure of the code it runs: the
        // slowest honest case takes a few seconds. Judged on the CPU time of the
        // thread, so a loaded machine cannot trigger it.
        let running: std::sync::Arc<Mutex<BTreeMap<usize, (usize, usize, String, f64)>>> = Default::default();
        {
            let running = running.clone();
            let names: Vec<&'static str> = self.scenarios.iter().map(|s| s.name).collect();
            let id = self.id;
            let rdir = format!("{}/replays", dir);
            let tier = tier.clone();
            let limit = self.case_limit_s;
            std::thread::spawn(move || loop {
                std::thread::sleep(Duration::from_secs(1));
                let g = running.lock().unwrap();
                for (_, (si, it, task, start)) in g.iter() {
                    let used = cpu_of(task).map(|x| x - start).unwrap_or(0.0);
                    if used > limit as f64 {
                        let _ = std::fs::create_dir_all(&rdir);
                        let p = format!("{}/{}-{}-{}-{}.json", rdir, id, names[*si], seed, it);
                        let m = format!("the case used more than {} s of CPU time without finishing", limit);
                        let rj = json!({"property": id, "scenario": names[*si], "seed": seed,
                            "iteration": it, "tier": tier, "message": m});
                        let _ = std::fs::write(&p, serde_json::to_string_pretty(&rj).unwrap());
                        println!("  {} [iteration {}]: {}", names[*si], it, m);
                        println!("VIOLATION property={} replay={}", id, p);
                        std::process::exit(1);
                    }
                }
            });
        }

        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let stats: Mutex<(BTreeMap<&'static str, Stat>, HashSet<u64>, BTreeMap<String, u64>, Vec<String>, u64)> =
            Mutex::new(Default::default());
        let fails: Mutex<Vec<(usize, usize, String, Vec<String>)>> = Mutex::new(vec![]);

        std::thread::scope(|sc| {
            for tid in 0..nthreads {
                let running = running.clone();
                let (next, stop, stats, fails, jobs, this) = (&next, &stop, &stats, &fails, &jobs, &self);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let task = this_task();
                        let k = next.fetch_add(1, Ordering::Relaxed);
                        if k >= jobs.len() {
                            break;
                        }
                        let (si, it) = jobs[k];
                        let s = &this.scenarios[si];
                        running.lock().unwrap().insert(tid, (si, it, task.clone(), cpu_of(&task).unwrap_or(0.0)));
                        let (ctx, res) = Self::run_case(s, seed, it, thorough);
                        running.lock().unwrap().remove(&tid);
                        let mut st = stats.lock().unwrap();
                        let e = st.0.entry(s.name).or_default();
                        e.iters += 1;
                        e.obs += ctx.obs;
                        for h in ctx.nontrivial.iter() {
                            st.1.insert(*h);
                        }
                        for (k, v) in ctx.counters.iter() {
                            *st.2.entry(k.clone()).or_insert(0) += v;
                        }
                        st.4 += ctx.obs;
                        if let Some(x) = ctx.sample {
                            if st.3.len() < 12 && it < 3 {
                                st.3.push(format!("{}[{}]: {}", s.name, it, x));
                            }
                        }
                        drop(st);
                        if let Err(m) = res {
                            let mut f = fails.lock().unwrap();
                            f.push((si, it, m, ctx.trace));
                            if f.iter().filter(|x| !x.2.starts_with(UNKNOWN)).count() >= 5 || f.len() >= 200 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    })
                    .unwrap();
            }
        });

        let (per, distinct, counters, samples, total_obs) = stats.into_inner().unwrap();
        let mut fails = fails.into_inner().unwrap();
        fails.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));
        // cases the monitor itself could not judge: no answer, unless another case violates
        let unknown: Vec<String> = fails.iter().filter(|f| f.2.starts_with(UNKNOWN)).map(|f| f.2.clone()).collect();
        fails.retain(|f| !f.2.starts_with(UNKNOWN));
        let iters: u64 = per.values().map(|s| s.iters).sum();
        let scen: BTreeMap<_, _> = per
            .iter()
            .map(|(k, v)| (k.to_string(), json!({"executions": v.iters, "oracle_observations": v.obs})))
            .collect();
        let wall = t0.elapsed().as_secs_f64();
        let ev = json!({
            "property": self.id,
            "tier": if thorough {"thorough"} else {"quick"},
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": iters,
                "distinct_nontrivial": distinct.len(),
                "oracle_observations": total_obs,
                "rule": self.rule,
                "scenarios": scen,
                "events": counters,
                "samples": samples,
            },
            "assumptions": self.assumptions,
            "wall_s": wall,
            "violations": fails.len(),
        });
        let evdir = format!("{}/evidence", dir);
        let _ = std::fs::create_dir_all(&evdir);
        let evp = std::env::var("VERIF_EVIDENCE")
            .unwrap_or_else(|_| format!("{}/{}.json", evdir, self.id));
        if let Err(e) = std::fs::write(&evp, serde_json::to_string_pretty(&ev).unwrap() + "\n") {
            eprintln!("cannot write evidence: {}", e);
            std::process::exit(2);
        }

        println!(
            "{}: {} executions, {} oracle observations, {} distinct cases, {:.1}s",
            self.id, iters, total_obs, distinct.len(), wall
        );
        if !fails.is_empty() {
            let rdir = format!("{}/replays", dir);
            let _ = std::fs::create_dir_all(&rdir);
            for (si, it, m, trace) in fails.iter().take(5) {
                let name = self.scenarios[*si].name;
                let p = format!("{}/{}-{}-{}-{}.json", rdir, self.id, name, seed, it);
                let rj = json!({"property": self.id, "scenario": name, "seed": seed, "iteration": it,
                    "tier": tier, "message": m, "trace": trace,
                    "how": format!("VERIF_REPLAY={} /verif/check.sh {}", p, self.id)});
                let _ = std::fs::write(&p, serde_json::to_string_pretty(&rj).unwrap());
                let short: String = m.chars().take(1500).collect();
                println!("  {} [iteration {}]: {}", name, it, short);
                println!("VIOLATION property={} replay={}", self.id, p);
            }
            std::process::exit(1);
        }
        if let Some(u) = unknown.first() {
            eprintln!("{}", u.chars().take(600).collect::<String>());
            std::process::exit(2);
        }
        // a monitor that observed nothing decides nothing
        for s in self.scenarios.iter() {
            if let Some(o) = &only {
                if !s.name.contains(o.as_str()) {
                    continue;
                }
            }
            if per.get(s.name).map(|x| x.obs).unwrap_or(0) == 0 {
                eprintln!("INCONCLUSIVE: scenario {} observed nothing", s.name);
                std::process::exit(2);
            }
        }
        std::process::exit(0)
    }

    fn replay(&self, path: &str) -> ! {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file"))
            .expect("replay json");
        let name = v["scenario"].as_str().unwrap().to_string();
        let it = v["iteration"].as_u64().unwrap() as usize;
        let seed = v["seed"].as_u64().unwrap();
        let th = v["tier"].as_str() == Some("thorough");
        let s = self.scenarios.iter().find(|s| s.name == name).expect("scenario");
        let (ctx, res) = Self::run_case(s, seed, it, th);
        for t in ctx.trace.iter() {
            println!("  {}", t);
        }
        match res {
            Ok(()) => {
                println!("replay: property held");
                std::process::exit(0)
            }
            Err(m) if m.starts_with(UNKNOWN) => {
                println!("{}", m);
                std::process::exit(2)
            }
            Err(m) => {
                println!("  {}", m);
                println!("VIOLATION property={} replay={}", self.id, path);
                std::process::exit(1)
            }
        }
    }
}

fn this_task() -> String {
    std::fs::read_link("/proc/thread-self")
        .map(|p| format!("/proc/{}/schedstat", p.display()))
        .unwrap_or_default()
}

/// CPU seconds used by a thread
fn cpu_of(task: &str) -> Option<f64> {
    let s = std::fs::read_to_string(task).ok()?;
    s.split_whitespace().next()?.parse::<f64>().ok().map(|x| x / 1e9)
}

pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    }
}

/// run f, turning a panic into Err(message)
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_msg(&e))
}

/// spends the quick tier's time evenly: about ten to twenty seconds per property on eight cores
fn quick_scale(id: &str) -> f64 {
    match id {
        "C03" | "C02" => 30.0,
        "C12" => 12.0,
        "C14" => 10.0,
        "C10" | "C18" => 7.0,
        "C07" | "C21" | "C22" | "C24" => 6.0,
        "C06" | "C08" | "C13" => 5.0,
        "C05" | "C15" | "C26" => 3.0,
        "C01" | "C04" | "C19" | "C28" | "C23" | "C16" => 2.0,
        "C20" | "C25" => 1.5,
        _ => 1.0,
    }
}
