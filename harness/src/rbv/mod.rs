//! Property checks for rustBit. See /verif/DESIGN.md.
pub mod alloc;
#[macro_use]
pub mod engine;
pub mod magnets;
pub mod refbenc;
pub mod scratch;
pub mod torrents;
pub mod world;
pub mod udp;
pub mod metas;
pub mod peers;
pub mod wire;

#[cfg(feature = "c12")]
mod c12;
#[cfg(feature = "c13")]
mod c13;
#[cfg(feature = "c14")]
mod c14;
#[cfg(feature = "c15")]
mod c15;
#[cfg(feature = "c16")]
mod c16;
#[cfg(feature = "c17")]
mod c17;
#[cfg(feature = "c18")]
mod c18;
#[cfg(feature = "c19")]
mod c19;
#[cfg(feature = "c20")]
mod c20;
#[cfg(feature = "c21")]
mod c21;
#[cfg(feature = "c22")]
mod c22;
#[cfg(feature = "c27")]
mod c27;
#[cfg(feature = "c10")]
mod c10;
#[cfg(feature = "c11")]
mod c11;
#[cfg(feature = "c28")]
mod c28;
#[cfg(feature = "c01")]
mod c01;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "c04")]
mod c04;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c06")]
mod c06;
#[cfg(feature = "c07")]
mod c07;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c09")]
mod c09;
#[cfg(feature = "c24")]
mod c24;
#[cfg(feature = "c25")]
mod c25;
#[cfg(feature = "c26")]
mod c26;
#[cfg(feature = "c23")]
mod c23;
#[cfg(any(feature = "c29", feature = "c20", feature = "c17"))]
mod c29;

use engine::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: alloc::Budgeted = alloc::Budgeted;

fn property(id: &str) -> Property {
    match id {
        #[cfg(feature = "c12")]
        "C12" => c12::property(),
        #[cfg(feature = "c13")]
        "C13" => c13::property(),
        #[cfg(feature = "c14")]
        "C14" => c14::property(),
        #[cfg(feature = "c15")]
        "C15" => c15::property(),
        #[cfg(feature = "c16")]
        "C16" => c16::property(),
        #[cfg(feature = "c17")]
        "C17" => c17::property(),
        #[cfg(feature = "c18")]
        "C18" => c18::property(),
        #[cfg(feature = "c19")]
        "C19" => c19::property(),
        #[cfg(feature = "c20")]
        "C20" => c20::property(),
        #[cfg(feature = "c21")]
        "C21" => c21::property(),
        #[cfg(feature = "c22")]
        "C22" => c22::property(),
        #[cfg(feature = "c27")]
        "C27" => c27::property(),
        #[cfg(feature = "c10")]
        "C10" => c10::property(),
        #[cfg(feature = "c11")]
        "C11" => c11::property(),
        #[cfg(feature = "c28")]
        "C28" => c28::property(),
        #[cfg(feature = "c01")]
        "C01" => c01::property(),
        #[cfg(feature = "c02")]
        "C02" => c02::property(),
        #[cfg(feature = "c03")]
        "C03" => c03::property(),
        #[cfg(feature = "c04")]
        "C04" => c04::property(),
        #[cfg(feature = "c05")]
        "C05" => c05::property(),
        #[cfg(feature = "c06")]
        "C06" => c06::property(),
        #[cfg(feature = "c07")]
        "C07" => c07::property(),
        #[cfg(feature = "c08")]
        "C08" => c08::property(),
        #[cfg(feature = "c09")]
        "C09" => c09::property(),
        #[cfg(feature = "c24")]
        "C24" => c24::property(),
        #[cfg(feature = "c25")]
        "C25" => c25::property(),
        #[cfg(feature = "c26")]
        "C26" => c26::property(),
        #[cfg(feature = "c23")]
        "C23" => c23::property(),
        #[cfg(feature = "c29")]
        "C29" => c29::property(),
        _ => {
            eprintln!("this build does not contain the check of {id}");
            std::process::exit(2);
        }
    }
}

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("RBV_VERIF").unwrap_or_else(|_| "/verif".into()))
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn known_for(id: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    if let Ok(t) = std::fs::read_to_string(verif().join("known_findings.json")) {
        let v: Value = json_from(&t).expect("known_findings.json");
        for k in v["known"].as_array().into_iter().flatten() {
            if k["property"] == id {
                out.push((
                    k["signature"].as_str().unwrap().to_string(),
                    k["what"].as_str().unwrap_or("").to_string(),
                ));
            }
        }
    }
    out
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("--worker") => worker(&args[2], Path::new(&args[3])),
        Some("--one") => one(&args[2], Path::new(&args[3])),
        Some("--nothing") => {}
        Some("--inside") => within(&args[2], Path::new(&args[3])),
        Some(id) => {
            let id = id.to_string();
            if args.get(2).map(|s| s.as_str()) == Some("--replay") {
                replay(&id, Path::new(&args[3]))
            } else {
                parent(&id)
            }
        }
        None => {
            eprintln!("usage: rbv <property> [--replay FILE]");
            std::process::exit(2);
        }
    }
}

// ---- parent ---------------------------------------------------------------------------------------------------------

struct Scratch {
    top: PathBuf,
    work: PathBuf,
    bin: PathBuf,
}

impl Scratch {
    fn new(id: &str) -> Scratch {
        let base = std::env::var("RBV_TMP").unwrap_or_else(|_| "/tmp".into());
        let top = PathBuf::from(format!("{base}/rbv-{id}-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&top);
        std::fs::create_dir_all(top.join("work")).unwrap();
        let work = top.join("work");
        let bin = top.join("rbv");
        std::fs::copy(std::env::current_exe().unwrap(), &bin).unwrap();
        let prog = std::env::current_exe().unwrap().with_file_name("rust_bit");
        if prog.exists() {
            let _ = std::fs::copy(prog, top.join("rust_bit"));
        }
        unsafe {
            use std::os::unix::fs::PermissionsExt;
            std::fs::set_permissions(&top, std::fs::Permissions::from_mode(0o755)).unwrap();
            if libc::geteuid() == 0 {
                let c = std::ffi::CString::new(work.to_str().unwrap()).unwrap();
                libc::chown(c.as_ptr(), 65534, 65534);
            }
        }
        Scratch { top, work, bin }
    }
    fn command(&self, args: &[&str]) -> Command {
        let mut c = Command::new(&self.bin);
        c.args(args)
            .current_dir(&self.work)
            .env("TMPDIR", &self.work)
            .env("HOME", &self.work)
            .env("RUST_BACKTRACE", "0")
            .env("RBV_WORK", &self.work)
            .env("RBV_VERIF", verif())
            .stdin(Stdio::null());
        if unsafe { libc::geteuid() } == 0 {
            // everything the code under test does happens as an unprivileged user inside the scratch directory
            c.uid(65534).gid(65534);
        }
        unsafe {
            c.pre_exec(|| {
                let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &rl);
                // a safety net for the sandbox; checks that judge memory use set an allocation budget per case
                let rl = libc::rlimit { rlim_cur: 10 << 30, rlim_max: 10 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &rl);
                libc::setpgid(0, 0);
                Ok(())
            });
        }
        c
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.top);
    }
}

enum End {
    Done,
    Died(String),
    Timeout,
}

fn wait(mut child: std::process::Child, limit: Duration) -> End {
    let start = Instant::now();
    let pid = child.id() as i32;
    loop {
        if let Some(st) = child.try_wait().unwrap() {
            unsafe { libc::kill(-pid, libc::SIGKILL) };
            return match (st.code(), st.signal()) {
                (Some(0), _) => End::Done,
                (Some(EXIT_CPU), _) => End::Died(format!("one case used more than {CPU_LIMIT_MS} ms of CPU (does not terminate)")),
                (Some(EXIT_WALL), _) => End::Died(format!("one case ran for more than {WALL_LIMIT_MS} ms")),
                (Some(c), _) => End::Died(format!("exit code {c}")),
                (_, Some(s)) => End::Died(format!("killed by signal {s}")),
                _ => End::Died("unknown end".into()),
            };
        }
        if start.elapsed() > limit {
            unsafe { libc::kill(-pid, libc::SIGKILL) };
            let _ = child.wait();
            return End::Timeout;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// Runs one case alone in a fresh process. Ok(None) = holds, Ok(Some(msg)) = violated, Err = no verdict.
fn run_one(sc: &Scratch, id: &str, part: &str, case: &Value, limit: Duration) -> Result<Option<String>, String> {
    let f = sc.work.join("one.json");
    std::fs::write(&f, serde_json::to_string(&json!({"part": part, "case": case})).unwrap()).unwrap();
    use std::os::unix::fs::PermissionsExt;
    let _ = std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o644));
    let outp = sc.work.join("one.out");
    let _ = std::fs::remove_file(&outp);
    let child = sc
        .command(&["--one", id, f.to_str().unwrap()])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    match wait(child, limit) {
        End::Done => {
            let v: Value = json_from(&std::fs::read_to_string(&outp).map_err(|e| e.to_string())?).unwrap();
            match v["sig"].as_str() {
                Some("__not_a_case") => return Ok(None),
                Some(s) if known_for(id).iter().any(|k| k.0 == s) => return Ok(None),
                _ => {}
            }
            Ok(v["fail"].as_str().map(|s| s.to_string()))
        }
        End::Died(m) => Ok(Some(format!("the process died: {m}"))),
        End::Timeout => Err("no answer in time".into()),
    }
}

fn write_replay(id: &str, part: &str, case: &Value, msg: &str) -> PathBuf {
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let body = json!({"property": id, "part": part, "case": case, "what": msg});
    let mut h = std::collections::hash_map::DefaultHasher::new();
    std::hash::Hash::hash(&body.to_string(), &mut h);
    let p = dir.join(format!("{id}-{part}-{:08x}.json", std::hash::Hasher::finish(&h) as u32));
    std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap()).unwrap();
    p
}

fn parent(id: &str) -> ! {
    let start = Instant::now();
    let prop = property(id);
    let sc = Scratch::new(id);
    let limit = match tier() {
        Tier::Quick => Duration::from_secs(780),
        Tier::Thorough => Duration::from_secs(4 * 3600),
    };
    if prop.program && !world::available() {
        eprintln!("no network namespace can be had here: no verdict");
        drop(sc);
        std::process::exit(2);
    }
    let result = sc.work.join("result.json");
    let child = sc
        .command(&["--worker", id, sc.work.to_str().unwrap()])
        .spawn()
        .unwrap_or_else(|e| {
            eprintln!("cannot start the worker: {e}");
            std::process::exit(2)
        });
    let end = wait(child, limit);
    let mut violations: Vec<(String, Value, String)> = vec![];
    let mut v: Value = json!({"parts": []});
    let mut code = 0;
    match end {
        End::Done => {
            v = json_from(&std::fs::read_to_string(&result).expect("worker result")).unwrap();
            for p in v["parts"].as_array().unwrap() {
                if !p["violation"].is_null() {
                    violations.push((
                        p["name"].as_str().unwrap().into(),
                        p["violation"]["case"].clone(),
                        p["violation"]["what"].as_str().unwrap().into(),
                    ));
                }
            }
        }
        End::Died(m) => {
            eprintln!("worker ended early: {m}; looking for the case that did it");
            let flying = Crumbs::in_flight(&sc.work.join("crumbs"));
            if let Ok(t) = std::fs::read_to_string(&result) {
                v = json_from(&t).unwrap_or(v);
            }
            let hung = m.contains("one case ran for");
            for (part, case) in flying.into_iter().take(if hung { 2 } else { SLOTS }) {
                if hung {
                    // the part that was left of it is not shrunk: every try would take as long
                    let msg = match run_one(&sc, id, &part, &case, Duration::from_secs(100)) {
                        Ok(None) => continue,
                        Ok(Some(msg)) => msg,
                        Err(_) => "does not end".to_string(),
                    };
                    violations.push((part, case, msg));
                    break;
                }
                match run_one(&sc, id, &part, &case, Duration::from_secs(180)) {
                    Ok(Some(msg)) => {
                        let small = shrink_json(
                            case,
                            |c| matches!(run_one(&sc, id, &part, c, Duration::from_secs(60)), Ok(Some(_))),
                            Duration::from_secs(if msg.contains("CPU") { 1 } else { 60 }),
                        );
                        let msg = match run_one(&sc, id, &part, &small, Duration::from_secs(180)) {
                            Ok(Some(m)) => m,
                            _ => msg,
                        };
                        violations.push((part, small, msg));
                        break;
                    }
                    Ok(None) => {}
                    Err(e) => eprintln!("{part}: {e}"),
                }
            }
            if violations.is_empty() {
                eprintln!("could not attribute the worker's end to a case");
                code = 2;
            }
        }
        End::Timeout => {
            eprintln!("time budget used up: inconclusive");
            code = 2;
        }
    }
    let mut out_lines = vec![];
    for (part, case, msg) in &violations {
        let p = write_replay(id, part, case, msg);
        eprintln!("{id}/{part}: {msg}");
        let shown = case.to_string();
        eprintln!("  case: {}", shown.chars().take(1500).collect::<String>());
        out_lines.push(format!("VIOLATION property={id} replay={}", p.display()));
        code = 1;
    }
    // known findings: every listed one is demonstrated on every run
    let known = known_for(id);
    let mut seen: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let empty = vec![];
    let parts = v["parts"].as_array().unwrap_or(&empty).clone();
    for p in &parts {
        if let Some(o) = p["known"].as_object() {
            for (k, x) in o {
                let e = seen.entry(k.clone()).or_insert((0, x["what"].as_str().unwrap_or("").to_string()));
                e.0 += x["count"].as_u64().unwrap_or(0);
            }
        }
    }
    for (sig, what) in &known {
        if seen.contains_key(sig) {
            println!("KNOWN-FINDING: property={id} {what}");
        }
    }
    for p in &parts {
        let none = p["labels"][world::NO_VERDICT].as_u64().unwrap_or(0);
        if code == 0 && none * 10 > p["evaluations"].as_u64().unwrap_or(0) {
            eprintln!("{none} cases without a verdict");
            code = 2;
        }
    }
    let sum = |k: &str| parts.iter().map(|p| p[k].as_u64().unwrap_or(0)).sum::<u64>();
    let mut samples: Vec<Value> = vec![];
    for p in &parts {
        samples.extend(p["samples"].as_array().cloned().unwrap_or_default().into_iter().take(4));
    }
    let ev = json!({
        "property": id,
        "tier": if tier() == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed(),
        "level": "exploration",
        "coverage": {
            "evaluations": sum("evaluations"),
            "distinct_nontrivial": sum("distinct_nontrivial"),
            "rule": prop.rule,
            "samples": samples,
            "parts": parts.iter().map(|p| json!({
                "name": p["name"], "evaluations": p["evaluations"], "distinct_nontrivial": p["distinct_nontrivial"],
                "labels": p["labels"], "counts": p["counts"], "unconfirmed_soft_failures": p["unconfirmed"],
                "known_findings_hit": p["known"],
            })).collect::<Vec<_>>(),
            "exhaustive": false,
        },
        "assumptions": prop.assumptions,
        "wall_s": (start.elapsed().as_millis() as f64) / 1000.0,
        "violations": violations.len(),
    });
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    for p in &parts {
        eprintln!(
            "{id}/{}: {} cases, {} distinct non-trivial{}",
            p["name"].as_str().unwrap(),
            p["evaluations"],
            p["distinct_nontrivial"],
            match p["unconfirmed"].as_u64() {
                Some(n) if n > 0 => format!(", {n} soft failures not repeated"),
                _ => String::new(),
            }
        );
    }
    drop(sc);
    for l in out_lines {
        println!("{l}");
    }
    if code == 0 {
        println!("OK property={id} wall={:.1}s", start.elapsed().as_secs_f64());
    }
    std::process::exit(code)
}

fn replay(id: &str, file: &Path) -> ! {
    let v: Value = json_from(&std::fs::read_to_string(file).expect("replay file")).expect("replay file");
    let sc = Scratch::new(id);
    let part = v["part"].as_str().unwrap().to_string();
    let r = run_one(&sc, id, &part, &v["case"], Duration::from_secs(600));
    drop(sc);
    match r {
        Ok(None) => {
            println!("OK property={id} replay holds");
            std::process::exit(0)
        }
        Ok(Some(m)) => {
            eprintln!("{id}/{part}: {m}");
            println!("VIOLATION property={id} replay={}", file.display());
            std::process::exit(1)
        }
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(2)
        }
    }
}

// ---- worker ---------------------------------------------------------------------------------------------------------

fn quiet_panics() {
    if std::env::var("RBV_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

fn raise_limits() {
    unsafe {
        let mut rl: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut rl);
        rl.rlim_cur = rl.rlim_max;
        libc::setrlimit(libc::RLIMIT_NOFILE, &rl);
    }
}

fn supervise(crumbs: Arc<Crumbs>, program: bool) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        if !program && crumbs.stuck(WALL_LIMIT_MS) {
            unsafe { libc::_exit(EXIT_WALL) };
        }
        if crumbs.worst_cpu().1 > CPU_LIMIT_MS {
            unsafe { libc::_exit(EXIT_CPU) };
        }
    });
}

/// In a network namespace of its own.
fn within(kind: &str, dir: &Path) {
    quiet_panics();
    raise_limits();
    match kind {
        #[cfg(feature = "c23")]
        "C23" => world::inside(dir, c23::inside),
        #[cfg(any(feature = "c29", feature = "c20", feature = "c17"))]
        "C29" => world::inside(dir, c29::inside),
        _ => unsafe { libc::_exit(2) },
    }
}

fn worker(id: &str, dir: &Path) {
    quiet_panics();
    raise_limits();
    let prop = property(id);
    let crumbs = Crumbs::open(&dir.join("crumbs"));
    supervise(crumbs.clone(), prop.program);
    let started = Instant::now();
    let budget = match tier() {
        Tier::Quick => Duration::from_secs(360),
        Tier::Thorough => Duration::from_secs(3 * 3600 + 1800),
    };
    let mut cfg = RunCfg {
        started,
        seed: seed(),
        tier: tier(),
        prop: prop.id,
        known: known_for(id).into_iter().map(|k| k.0).collect(),
        crumbs: Some(crumbs),
        deadline: None,
    };
    let only = std::env::var("RBV_PART").ok();
    let mut parts = vec![];
    let n = prop.parts.len() as u32;
    for (i, p) in prop.parts.iter().enumerate() {
        // on a slow machine every part has its share of the time
        cfg.deadline = Some(started + budget * (i as u32 + 1) / n);
        if only.as_deref().map_or(false, |o| o != p.name) {
            continue;
        }
        let t = Instant::now();
        let r = (p.run)(&cfg);
        eprintln!("  {id}/{} {:.1}s", p.name, t.elapsed().as_secs_f64());
        let stop = r.violation.is_some();
        parts.push(json!({
            "name": r.name, "evaluations": r.evaluations, "distinct_nontrivial": r.distinct_nontrivial,
            "labels": r.labels, "counts": r.counts, "samples": r.samples, "unconfirmed": r.unconfirmed,
            "known": r.known.iter().map(|(k, (n, m))| (k.clone(), json!({"count": n, "what": m}))).collect::<serde_json::Map<_, _>>(),
            "violation": r.violation.map(|(c, m)| json!({"case": c, "what": m})),
        }));
        // written after every part, so that an abort in a later part does not lose it
        std::fs::write(dir.join("result.json"), serde_json::to_string(&json!({"parts": parts})).unwrap()).unwrap();
        if stop {
            break;
        }
    }
    std::fs::write(dir.join("result.json"), serde_json::to_string(&json!({"parts": parts})).unwrap()).unwrap();
    unsafe { libc::_exit(0) }
}

fn one(id: &str, file: &Path) {
    quiet_panics();
    raise_limits();
    let prop = property(id);
    let v: Value = json_from(&std::fs::read_to_string(file).unwrap()).unwrap();
    let part = v["part"].as_str().unwrap().to_string();
    let out = std::env::current_dir().unwrap().join("one.out");
    unsafe {
        // a case that never ends: limit CPU of this process
        let rl = libc::rlimit { rlim_cur: CPU_LIMIT_MS / 1000, rlim_max: CPU_LIMIT_MS / 1000 + 5 };
        libc::setrlimit(libc::RLIMIT_CPU, &rl);
    }
    let h = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let p = prop.parts.iter().find(|p| p.name == part).map(|p| (p.replay)(&v["case"]));
            match p {
                Some(Ok(())) => json!({"fail": null}),
                Some(Err(f)) => json!({"fail": f.msg, "sig": f.sig}),
                None => json!({"fail": null, "sig": "__no_such_part"}),
            }
        });
    let r = h.unwrap().join().unwrap();
    std::fs::write(out, r.to_string()).unwrap();
    unsafe { libc::_exit(0) }
}
