#![allow(clippy::type_complexity)]
mod engine;
mod checks;
mod gen;
mod link;
mod model;
mod rules;
mod xml;

use engine::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const STACK: usize = 256 << 20;
const HANG: Duration = Duration::from_secs(60);

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(f)
        .unwrap()
        .join()
        .unwrap_or_else(|_| std::process::exit(3))
}

/// The dictionary comes from the replay file, or was handed down, or is made from the source
fn load_literals(args: &Args) {
    let v: Value = if args.0.get(1).map(|s| s.as_str()) == Some("replay") {
        let v: Value = serde_json::from_slice(&std::fs::read(&args.0[2]).unwrap()).unwrap();
        v["literals"].clone()
    } else if let Some(p) = std::env::var_os("SVDVERIF_LITERALS") {
        serde_json::from_slice(&std::fs::read(p).unwrap_or_default()).unwrap_or(Value::Null)
    } else {
        make_literals(Path::new(args.get("--source").unwrap_or("/repo")))
    };
    let words = v["words"].as_array().map(|a| a.iter().filter_map(|w| w.as_str().map(String::from)).collect());
    let nums = v["nums"].as_array().map(|a| a.iter().filter_map(|w| w.as_u64()).collect());
    set_literals(words.unwrap_or_default(), nums.unwrap_or_default());
}

fn make_literals(source: &Path) -> Value {
    let (mut words, mut nums) = (BTreeSet::new(), BTreeSet::new());
    let mut todo: Vec<PathBuf> =
        ["svd-rs/src", "svd-parser/src", "svd-encoder/src"].iter().map(|d| source.join(d)).collect();
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                todo.push(p);
            } else if p.extension().is_some_and(|x| x == "rs") {
                scan_literals(&std::fs::read_to_string(&p).unwrap_or_default(), &mut words, &mut nums);
            }
        }
    }
    json!({"words": words, "nums": nums})
}

fn prop(id: &str) -> &'static Prop {
    match checks::all().iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0
            .iter()
            .position(|a| a == k)
            .and_then(|i| self.0.get(i + 1))
            .map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let args = Args(a.clone());
    install_hook();
    load_literals(&args);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in checks::all() {
                println!("{} {}", p.id, p.title);
            }
            0
        }
        Some("check") => check(prop(&a[2]), &args),
        Some("worker") => {
            let id = a[2].clone();
            on_big_stack(move || worker(prop(&id), &args))
        }
        Some("exec") => {
            // run one choice sequence: exit 0 pass, 10 fail, other: broken or crashed
            let id = a[2].clone();
            on_big_stack(move || {
                let ch: Vec<u64> =
                    serde_json::from_slice(&std::fs::read(args.get("--choices").unwrap()).unwrap())
                        .unwrap();
                exec(prop(&id), ch, true)
            })
        }
        Some("gen") => {
            // print the choice sequence and input of one case without reporting a verdict
            let id = a[2].clone();
            on_big_stack(move || {
                let mut s = match args.get("--status") {
                    Some(f) => match recipe(Path::new(f)) {
                        Some(s) => s,
                        None => return 2,
                    },
                    None => case_src(&id, args.num("--seed", 1), args.num("--index", 0)),
                };
                let mut c = Cov::default();
                let v = run_case(prop(&id), &mut s, &mut c);
                println!("{}", c.last_input);
                match v {
                    Verdict::Pass => println!("PASS"),
                    Verdict::Fail(m) => println!("FAIL {m}"),
                    Verdict::Broken(m) => println!("BROKEN {m}"),
                }
                0
            })
        }
        Some("directed") => {
            let id = a[2].clone();
            let name = a[3].clone();
            on_big_stack(move || {
                let d = prop(&id).directed.iter().find(|d| d.name == name).unwrap();
                match quietly(d.run) {
                    Ok(Ok(())) => 0,
                    Ok(Err(f)) => {
                        println!("{}", f.msg);
                        10
                    }
                    Err(p) => {
                        println!("{p}");
                        if p.contains("panicked at src/") {
                            3
                        } else {
                            10
                        }
                    }
                }
            })
        }
        Some("replay") => {
            let v: Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
            let id = v["property"].as_str().unwrap().to_string();
            on_big_stack(move || {
                if let Some(d) = v["directed"].as_str() {
                    let d = prop(&id).directed.iter().find(|x| x.name == d).unwrap();
                    match quietly(d.run) {
                        Ok(Ok(())) => {
                            println!("PASS");
                            0
                        }
                        r => {
                            println!("FAIL {r:?}");
                            1
                        }
                    }
                } else {
                    let ch: Vec<u64> = v["choices"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|x| x.as_u64().unwrap())
                        .collect();
                    if exec(prop(&id), ch, true) == 0 {
                        0
                    } else {
                        1
                    }
                }
            })
        }
        _ => {
            eprintln!("usage: harness list | check ID | replay FILE | gen ID --seed N --index N");
            2
        }
    };
    std::process::exit(code);
}

fn exec(p: &Prop, ch: Vec<u64>, print: bool) -> i32 {
    let mut s = Src::replay(ch);
    let mut c = Cov::default();
    match run_case(p, &mut s, &mut c) {
        Verdict::Pass => {
            if print {
                println!("PASS");
            }
            0
        }
        Verdict::Fail(m) => {
            if print {
                println!("FAIL {m}\n--- input ---\n{}", c.last_input);
            }
            10
        }
        Verdict::Broken(m) => {
            if print {
                println!("BROKEN {m}");
            }
            3
        }
    }
}

/// The guided case a worker was about to run: which two cases it combined, and how
fn recipe(status: &Path) -> Option<Src> {
    let n: Vec<u64> = std::fs::read(status)
        .ok()?
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect();
    let c: Vec<u64> = std::fs::read(status.with_extension("corpus"))
        .ok()?
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect();
    let mut corpus = vec![];
    let mut k = 0;
    while k < c.len() {
        let e = k + 1 + c[k] as usize;
        corpus.push(c.get(k + 1..e)?);
        k = e;
    }
    let (a, b, seed) = (n.get(2)?, n.get(3)?, n.get(4)?);
    let mut r = Rng::new(*seed);
    Some(Src::scripted(mutate(corpus.get(*a as usize)?, corpus.get(*b as usize)?, &mut r), r.next()))
}

fn worker(p: &Prop, args: &Args) -> i32 {
    let seed = args.num("--seed", 1);
    let (w, n) = (args.num("--w", 0), args.num("--n", 1));
    let total = args.num("--cases", 1);
    let deadline = Instant::now() + Duration::from_secs(args.num("--secs", 400));
    let status = std::fs::OpenOptions::new()
        .write(true)
        .create(true)
        .open(args.get("--status").unwrap())
        .unwrap();
    let out = PathBuf::from(args.get("--out").unwrap());
    let stop = PathBuf::from(args.get("--stop").unwrap());
    let mut cov = Cov::default();
    let mut failure = None;
    let mut broken = None;
    let mut ran = 0u64;
    let mut complete = true;
    let mut i = w;
    // every third case is a variation of one that reached something new
    let every = args.num("--every", 3);
    let mut guide = Guide::new();
    let mut guided = 0u64;
    let mut corpus_file = std::fs::File::create(Path::new(args.get("--status").unwrap()).with_extension("corpus")).unwrap();
    let mut rng = Rng::new(fnv(format!("{}/{seed}/{w}/guide", p.id).as_bytes()));
    while i < total {
        if ran % 64 == 0 && (Instant::now() > deadline || stop.exists()) {
            complete = false;
            break;
        }
        let mut st = (i + 1).to_le_bytes().to_vec();
        let mut src = if ran % every == every - 1 && guide.corpus.len() > 4 {
            let (a, b) = guide.choose(&mut rng);
            let s = rng.next();
            for x in [1, a as u64, b as u64, s] {
                st.extend_from_slice(&x.to_le_bytes());
            }
            let _ = status.write_all_at(&st, 0);
            guided += 1;
            let mut r = Rng::new(s);
            Src::scripted(mutate(&guide.corpus[a], &guide.corpus[b], &mut r), r.next())
        } else {
            st.extend_from_slice(&[0; 8]);
            let _ = status.write_all_at(&st, 0);
            case_src(p.id, seed, i)
        };
        ran += 1;
        guide.reset();
        match run_case(p, &mut src, &mut cov) {
            Verdict::Pass => {
                if src.choices.len() < 1_500 && guide.news() {
                    let mut c = (src.choices.len() as u64).to_le_bytes().to_vec();
                    for x in &src.choices {
                        c.extend_from_slice(&x.to_le_bytes());
                    }
                    let _ = corpus_file.write_all(&c);
                    guide.corpus.push(std::mem::take(&mut src.choices));
                }
            }
            Verdict::Broken(m) => {
                broken = Some(format!("case {i}: {m}"));
                break;
            }
            Verdict::Fail(m0) => {
                let _ = status.write_all_at(&u64::MAX.to_le_bytes(), 0); // shrinking: no hang timer
                let evals0 = cov.evals;
                let (best, n) = shrink(src.choices.clone(), Duration::from_secs(25), 4000, |c| {
                    let mut s = Src::replay(c.to_vec());
                    let mut cv = Cov::default();
                    matches!(run_case(p, &mut s, &mut cv), Verdict::Fail(_))
                });
                let mut s = Src::replay(best.clone());
                let mut cv = Cov::default();
                let m = match run_case(p, &mut s, &mut cv) {
                    Verdict::Fail(m) => m,
                    _ => m0,
                };
                cov.evals = evals0;
                failure = Some(json!({
                    "index": i, "choices": best, "message": m, "input": cv.last_input,
                    "shrink_steps": n,
                }));
                break;
            }
        }
        i += n;
    }
    let v = json!({
        "evals": cov.evals, "nontrivial": cov.nontrivial, "cases": ran, "complete": complete,
        "classes": cov.classes, "samples": cov.samples, "failure": failure, "broken": broken,
        "guided": guided, "corpus": guide.corpus.len(), "edges": guide.edges().0, "all_edges": guide.edges().1,
    });
    let mut h: Vec<u8> = Vec::with_capacity(cov.distinct.len() * 8);
    for d in &cov.distinct {
        h.extend_from_slice(&d.to_le_bytes());
    }
    std::fs::write(out.with_extension("hashes"), h).unwrap();
    std::fs::write(&out, v.to_string()).unwrap();
    0
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn spawn(extra: &[String], quiet: bool) -> Child {
    let exe = std::env::current_exe().unwrap();
    Command::new(exe)
        .args(extra)
        .stdin(Stdio::null())
        .stdout(if quiet { Stdio::null() } else { Stdio::piped() })
        .stderr(if quiet { Stdio::null() } else { Stdio::piped() })
        .spawn()
        .unwrap()
}

/// (exit code or None when it crashed or hung, output, description)
fn run_sub(extra: &[String], limit: Duration) -> (Option<i32>, String) {
    let mut c = spawn(extra, false);
    let mut so = c.stdout.take().unwrap();
    let mut se = c.stderr.take().unwrap();
    let t = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = so.read_to_end(&mut s);
        s
    });
    let te = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = se.read_to_end(&mut s);
        s
    });
    let t0 = Instant::now();
    let st = loop {
        if let Some(st) = c.try_wait().unwrap() {
            break Some(st);
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(3));
    };
    let mut o = String::from_utf8_lossy(&t.join().unwrap()).to_string();
    o.push_str(&String::from_utf8_lossy(&te.join().unwrap()));
    match st {
        None => (None, format!("did not finish within {limit:?} {o}")),
        Some(st) => match st.code() {
            Some(c) => (Some(c), o),
            None => (None, format!("killed by signal {:?}: {o}", st.signal())),
        },
    }
}

/// `finding: property=<id> case=<name> <what fails>` lines of the known-findings file
fn known(path: &Path, id: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            let mut it = r.splitn(3, ' ');
            let (p, c, w) = (it.next(), it.next(), it.next());
            if let (Some(p), Some(c), Some(w)) = (p, c, w) {
                if p == format!("property={id}") {
                    if let Some(c) = c.strip_prefix("case=") {
                        m.insert(c.to_string(), w.to_string());
                    }
                }
            }
        }
    }
    m
}

fn check(p: &Prop, args: &Args) -> i32 {
    let t0 = Instant::now();
    let tier = args.get("--tier").unwrap_or("quick").to_string();
    let seed = args.num("--seed", 1);
    let total = args.num(
        "--cases",
        if tier == "thorough" { p.thorough } else { p.quick },
    );
    let secs = args.num("--secs", if tier == "thorough" { 3000 } else { 420 });
    let verif = PathBuf::from(args.get("--verif").unwrap_or("/verif"));
    let replays = verif.join("replays");
    let nproc = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) as u64;
    let n = args.num("--workers", nproc.clamp(1, 8)).min(total.max(1));

    let mut violations: Vec<(String, Value)> = Vec::new();
    let mut known_hits: Vec<String> = Vec::new();
    let mut broken: Option<String> = None;
    let mut directed_run = 0u64;

    // 1. fixed inputs: listed known findings and regression inputs
    let kf = known(&verif.join("known_findings.txt"), p.id);
    for d in p.directed {
        directed_run += 1;
        let (code, out) = run_sub(
            &["directed".into(), p.id.into(), d.name.into()],
            Duration::from_secs(60),
        );
        match code {
            Some(0) => {}
            Some(10) | None => {
                let out = out.trim().to_string();
                if let Some(w) = kf.get(d.name) {
                    println!("KNOWN-FINDING: property={} {} [{}]", p.id, w, d.name);
                    known_hits.push(d.name.to_string());
                } else {
                    violations.push((
                        format!("{}-{}", p.id, d.name),
                        json!({"property": p.id, "directed": d.name, "message": out}),
                    ));
                }
            }
            Some(c) => broken = Some(format!("directed {} exited {c}: {out}", d.name)),
        }
    }

    // 2. generated search
    let dir = std::env::temp_dir().join(format!("svdverif-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let scratch = Scratch(dir.clone());
    let literals = make_literals(Path::new(args.get("--source").unwrap_or("/repo")));
    std::fs::write(dir.join("literals"), literals.to_string()).unwrap();
    std::env::set_var("SVDVERIF_LITERALS", dir.join("literals"));
    let stop = dir.join("stop");
    struct W {
        child: Child,
        status: PathBuf,
        out: PathBuf,
        last: u64,
        since: Instant,
        done: bool,
    }
    let mut ws: Vec<W> = (0..n)
        .map(|w| {
            let status = dir.join(format!("s{w}"));
            let out = dir.join(format!("o{w}"));
            let child = spawn(
                &[
                    "worker".into(),
                    p.id.into(),
                    "--seed".into(),
                    seed.to_string(),
                    "--w".into(),
                    w.to_string(),
                    "--every".into(),
                    args.num("--every", 3).to_string(),
                    "--n".into(),
                    n.to_string(),
                    "--cases".into(),
                    total.to_string(),
                    "--secs".into(),
                    secs.to_string(),
                    "--status".into(),
                    status.to_string_lossy().into(),
                    "--out".into(),
                    out.to_string_lossy().into(),
                    "--stop".into(),
                    stop.to_string_lossy().into(),
                ],
                true,
            );
            W {
                child,
                status,
                out,
                last: 0,
                since: Instant::now(),
                done: false,
            }
        })
        .collect();
    let mut crashes: Vec<(u64, String, PathBuf)> = Vec::new();
    let mut outs: Vec<Value> = Vec::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let read_status = |f: &Path| -> u64 {
        std::fs::read(f)
            .ok()
            .and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())))
            .unwrap_or(0)
    };
    while ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(15));
        for w in ws.iter_mut().filter(|w| !w.done) {
            match w.child.try_wait().unwrap() {
                Some(st) => {
                    w.done = true;
                    if st.success() && w.out.exists() {
                        let v: Value =
                            serde_json::from_slice(&std::fs::read(&w.out).unwrap()).unwrap();
                        let h = std::fs::read(w.out.with_extension("hashes")).unwrap();
                        for c in h.chunks(8) {
                            hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
                        }
                        if !v["failure"].is_null() || !v["broken"].is_null() {
                            let _ = std::fs::write(&stop, b"");
                        }
                        outs.push(v);
                    } else {
                        let i = read_status(&w.status);
                        let why = match st.code() {
                            Some(c) => format!("worker exited with {c}"),
                            None => format!("worker killed by signal {:?}", st.signal()),
                        };
                        if i == 0 || i == u64::MAX {
                            broken = Some(why);
                        } else {
                            crashes.push((i - 1, why, w.status.clone()));
                        }
                        let _ = std::fs::write(&stop, b"");
                    }
                }
                None => {
                    let i = read_status(&w.status);
                    if i != w.last || i == u64::MAX {
                        w.last = i;
                        w.since = Instant::now();
                    } else if w.since.elapsed() > HANG && i != 0 {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                        crashes.push((i - 1, format!("case did not finish within {HANG:?}"), w.status.clone()));
                        let _ = std::fs::write(&stop, b"");
                    }
                }
            }
        }
    }
    // 3. crashed or hung cases: confirm and shrink each in its own process
    for (i, why, status) in crashes.iter().take(1) {
        let chf = dir.join("choices.json");
        let runc = |c: &[u64], lim: u64| -> (Option<i32>, String) {
            std::fs::write(&chf, serde_json::to_string(c).unwrap()).unwrap();
            run_sub(
                &[
                    "exec".into(),
                    p.id.into(),
                    "--choices".into(),
                    chf.to_string_lossy().into(),
                ],
                Duration::from_secs(lim),
            )
        };
        // The choices made before the crash are recovered by generating the case again with a
        // recording file.
        let choices = record_choices(p, seed, *i, status, &dir);
        let (code, out) = runc(&choices, 60);
        if matches!(code, Some(0) | Some(3)) {
            broken = Some(format!("case {i}: {why}, not reproduced: {code:?} {out}"));
            continue;
        }
        let (best, steps) = shrink(choices, Duration::from_secs(60), 600, |c| {
            let (code, _) = runc(c, 15);
            !matches!(code, Some(0) | Some(3))
        });
        let (_, out) = runc(&best, 60);
        let input = record_input(p, &best, &dir);
        violations.push((
            format!("{}-seed{}-case{}", p.id, seed, i),
            json!({"property": p.id, "seed": seed, "index": i, "choices": best, "shrink_steps": steps,
                   "message": format!("{why}; {}", out.trim()), "input": input}),
        ));
    }
    let mut evals = 0;
    let (mut guided, mut edges, mut all_edges, mut corpus) = (0, 0, 0, 0);
    let mut cases = 0;
    let mut nontrivial = 0;
    let mut complete = true;
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = Vec::new();
    for o in &outs {
        evals += o["evals"].as_u64().unwrap_or(0);
        cases += o["cases"].as_u64().unwrap_or(0);
        nontrivial += o["nontrivial"].as_u64().unwrap_or(0);
        guided += o["guided"].as_u64().unwrap_or(0);
        corpus += o["corpus"].as_u64().unwrap_or(0);
        edges = edges.max(o["edges"].as_u64().unwrap_or(0));
        all_edges = all_edges.max(o["all_edges"].as_u64().unwrap_or(0));
        complete &= o["complete"].as_bool().unwrap_or(false);
        for (k, v) in o["classes"].as_object().unwrap() {
            *classes.entry(k.clone()).or_default() += v.as_u64().unwrap();
        }
        for s in o["samples"].as_array().unwrap() {
            if samples.len() < 4 {
                samples.push(s.clone());
            }
        }
        if let Some(b) = o["broken"].as_str() {
            broken = Some(b.to_string());
        }
    }
    let mut fails: Vec<&Value> = outs
        .iter()
        .map(|o| &o["failure"])
        .filter(|f| !f.is_null())
        .collect();
    fails.sort_by_key(|f| f["choices"].as_array().map(|a| a.len()).unwrap_or(0));
    if let Some(f) = fails.first() {
        let mut v = (*f).clone();
        v["property"] = json!(p.id);
        v["seed"] = json!(seed);
        violations.push((format!("{}-seed{}-case{}", p.id, seed, f["index"]), v));
    }
    if violations.is_empty() && samples.is_empty() && broken.is_none() {
        // small runs: write out at least one case
        let mut s = case_src(p.id, seed, total / 2);
        let mut c = Cov::default();
        let _ = run_case(p, &mut s, &mut c);
        samples.push(json!(c.last_input));
    }
    drop(scratch);

    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals + directed_run,
            "distinct_nontrivial": hashes.len(),
            "rule": p.rule,
            "samples": samples,
            "generated_cases": cases,
            "coverage_guided_cases": guided,
            "guiding_cases": corpus,
            "edges_reached_by_one_worker": edges,
            "edges_in_code_under_test": all_edges,
            "nontrivial_evaluations": nontrivial,
            "fixed_inputs": directed_run,
            "planned_cases": total,
            "completed_plan": complete,
            "classes": classes,
            "known_findings_seen": known_hits,
        },
        "assumptions": p.assumptions,
        "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0,
        "violations": violations.len(),
    });
    let evp = args
        .get("--evidence")
        .map(PathBuf::from)
        .unwrap_or_else(|| verif.join("evidence").join(format!("{}.json", p.id)));
    let _ = std::fs::create_dir_all(evp.parent().unwrap());
    std::fs::write(&evp, serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();

    println!(
        "{} {}: {} cases, {} evaluations, {} distinct non-trivial, {} fixed inputs, {:.1}s",
        p.id,
        p.title,
        cases,
        evals,
        hashes.len(),
        directed_run,
        t0.elapsed().as_secs_f64()
    );
    if !violations.is_empty() {
        let _ = std::fs::create_dir_all(&replays);
        for (name, v) in &violations {
            let mut v = v.clone();
            v["literals"] = literals.clone();
            let f = replays.join(format!("{name}.json"));
            std::fs::write(&f, serde_json::to_string_pretty(&v).unwrap()).unwrap();
            println!("  {}", v["message"].as_str().unwrap_or("").chars().take(3000).collect::<String>());
            if let Some(i) = v["input"].as_str() {
                println!("  input: {}", i.chars().take(3000).collect::<String>());
            }
            println!("VIOLATION property={} replay={}", p.id, f.display());
        }
        return 1;
    }
    if let Some(b) = broken {
        eprintln!("BROKEN check {}: {b}", p.id);
        return 2;
    }
    0
}

/// Regenerate case `i` in a subprocess-free way that cannot crash: the generator draws choices
/// before it runs code under test, but may also draw in between, so the choices are streamed to a
/// file as they are drawn by a forked worker.
fn record_choices(p: &Prop, seed: u64, i: u64, status: &Path, dir: &Path) -> Vec<u64> {
    let f = dir.join("stream");
    let _ = std::fs::remove_file(&f);
    let mut c = Command::new(std::env::current_exe().unwrap());
    let was_guided = std::fs::read(status).is_ok_and(|b| b.get(8) == Some(&1));
    if was_guided {
        c.args(["gen", p.id, "--status", status.to_str().unwrap()]);
    }
    c.args(if was_guided { vec![] } else { vec![
        "gen".to_string(),
        p.id.to_string(),
        "--seed".into(),
        seed.to_string(),
        "--index".into(),
        i.to_string(),
    ] })
    .env("SVDVERIF_STREAM", &f)
    .stdin(Stdio::null())
    .stdout(Stdio::null())
    .stderr(Stdio::null());
    let mut ch = c.spawn().unwrap();
    let t = Instant::now();
    while ch.try_wait().unwrap().is_none() {
        if t.elapsed() > HANG {
            let _ = ch.kill();
            let _ = ch.wait();
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let b = std::fs::read(&f).unwrap_or_default();
    b.chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect()
}

/// The input description of a crashing case, streamed to a file by `Cov::input`
fn record_input(p: &Prop, choices: &[u64], dir: &Path) -> String {
    let f = dir.join("input");
    let chf = dir.join("choices.json");
    let _ = std::fs::remove_file(&f);
    std::fs::write(&chf, serde_json::to_string(choices).unwrap()).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args([
        "exec",
        p.id,
        "--choices",
        chf.to_str().unwrap(),
    ])
    .env("SVDVERIF_INPUT", &f)
    .stdin(Stdio::null())
    .stdout(Stdio::null())
    .stderr(Stdio::null());
    let mut ch = c.spawn().unwrap();
    let t = Instant::now();
    while ch.try_wait().unwrap().is_none() {
        if t.elapsed() > Duration::from_secs(20) {
            let _ = ch.kill();
            let _ = ch.wait();
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let _ = std::io::stdout().flush();
    std::fs::read_to_string(&f).unwrap_or_default()
}
