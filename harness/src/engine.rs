//! Deterministic exploration engine: jobs of numbered cases over worker threads, run in a child process under
//! a supervisor that turns crashes and hangs into replayable verdicts.
use crate::val::{hash_of, take_model};
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::Hash;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const THREADS: usize = 8;
/// a single case running longer than this is a candidate hang
pub const CASE_LIMIT: Duration = Duration::from_secs(45);
/// stack of a worker: the default of Rust threads
pub const STACK: usize = 2 << 20;

pub struct Job {
    pub name: String,
    pub run: Box<dyn Fn(&mut Ctx) + Sync + Send>,
}
pub fn job(name: impl Into<String>, run: impl Fn(&mut Ctx) + Sync + Send + 'static) -> Job {
    Job { name: name.into(), run: Box::new(run) }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub explanation: &'static str,
    pub assumptions: &'static [&'static str],
    pub jobs: fn(Tier) -> Vec<Job>,
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// One worker's position, shared with the supervisor.
#[repr(C)]
struct Slot {
    job: AtomicU64,
    case: AtomicU64,
}
static PANIC_MSG: Mutex<()> = Mutex::new(());
thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Text of the last panic on this thread.
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
#[derive(Clone)]
pub struct Violation {
    pub job: usize,
    pub job_name: String,
    pub case: usize,
    pub desc: String,
    pub msg: String,
}
#[derive(Default)]
struct Shared {
    violations: Mutex<Vec<Violation>>,
    known: Mutex<Vec<(String, String)>>,
    stop: AtomicBool,
}

pub struct Ctx<'s> {
    pub tier: Tier,
    job: usize,
    job_name: String,
    n: usize,
    /// last case to run (replay)
    upto: Option<usize>,
    slot: &'s Slot,
    shared: &'s Shared,
    known: &'s [Known],
    done: bool,
    verbose: bool,
    st: Stats,
}
#[derive(Default)]
struct Stats {
    cases: u64,
    execs: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
}
/// Handed to a case body.
pub struct Case {
    pub execs: u64,
    keys: Vec<u64>,
}
impl Case {
    /// one execution of the real code was compared with the reference
    #[inline]
    pub fn ran(&mut self, n: u64) {
        self.execs += n;
    }
    /// the input of this case, for counting distinct cases
    #[inline]
    pub fn key<T: Hash>(&mut self, t: &T) {
        self.keys.push(hash_of(t));
    }
}

#[derive(Clone)]
pub struct Known {
    pub property: String,
    /// every part must occur in the violation's text
    pub parts: Vec<String>,
    pub line: String,
}
/// Lines `finding: property=<id> match=<substring>[&&<substring>...] # what fails`
pub fn load_known() -> Vec<Known> {
    let p = verif().join("known-findings.txt");
    let mut out = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("finding: property=") {
            let (id, rest) = r.split_once(' ').unwrap_or((r, ""));
            let m = rest.strip_prefix("match=").unwrap_or("");
            let (m, text) = m.split_once(" # ").unwrap_or((m, ""));
            out.push(Known {
                property: id.into(),
                parts: m.split("&&").map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect(),
                line: text.into(),
            });
        }
    }
    out
}

impl Ctx<'_> {
    #[inline]
    pub fn stopped(&self) -> bool {
        self.done
    }
    /// Run one case. `desc` describes it for reports; `f` decides it.
    pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce(&mut Case) -> Result<(), String>) {
        if self.done {
            return;
        }
        if self.n & 0xff == 0 && self.shared.stop.load(Ordering::Relaxed) {
            self.done = true;
            return;
        }
        let n = self.n;
        self.n += 1;
        self.slot.case.store(n as u64, Ordering::Relaxed);
        if self.verbose && self.upto == Some(n) {
            println!("CASE {}", one_line(&desc()));
            let _ = std::io::stdout().flush();
        }
        let mut c = Case { execs: 0, keys: vec![] };
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
        self.st.cases += 1;
        self.st.execs += c.execs;
        if self.st.distinct.len() < 3_000_000 {
            self.st.distinct.extend(c.keys);
        }
        if self.st.samples.is_empty() && n == 7 || (self.st.samples.len() < 2 && n == 333) {
            self.st.samples.push(format!("{}: {}", self.job_name, one_line(&desc())));
        }
        let msg = match r {
            Ok(Ok(())) => {
                if self.upto == Some(n) {
                    self.done = true;
                }
                return;
            }
            Ok(Err(m)) => m,
            Err(_) => {
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                if m.contains("harness:") {
                    eprintln!("HARNESS ERROR in {} case {}: {}\n  {}", self.job_name, n, m, desc());
                    std::process::exit(97);
                }
                format!("the code panicked: {}", m)
            }
        };
        let text = format!("{} | {} | {}", self.job_name, desc(), msg);
        if let Some(k) = self.known.iter().find(|k| !k.parts.is_empty() && k.parts.iter().all(|p| text.contains(p))) {
            let mut g = self.shared.known.lock().unwrap();
            if !g.iter().any(|x| x.0 == k.line) {
                g.push((k.line.clone(), one_line(&text)));
            }
            return;
        }
        self.shared.violations.lock().unwrap().push(Violation {
            job: self.job,
            job_name: self.job_name.clone(),
            case: n,
            desc: desc(),
            msg,
        });
        self.shared.stop.store(true, Ordering::Relaxed);
        self.done = true;
    }
}

fn one_line(s: &str) -> String {
    let s: String = s.chars().map(|c| if c == '\n' { ' ' } else { c }).collect();
    if s.len() > 1500 {
        let mut n = 1500;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}...", &s[..n])
    } else {
        s
    }
}
pub fn verif() -> std::path::PathBuf {
    std::env::var("PFS_VERIF").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

fn slots(path: &str) -> &'static [Slot] {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("harness: slots");
    let len = THREADS * std::mem::size_of::<Slot>();
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED, "harness: mmap");
        std::slice::from_raw_parts(p as *const Slot, THREADS)
    }
}
const IDLE: u64 = u64::MAX;

/// Child: explore and print the outcome as lines.
pub fn child(check: &Check, tier: Tier, slot_file: &str, only: Option<(usize, usize)>) -> ! {
    std::panic::set_hook(Box::new(|i| {
        let m = match i.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => i.payload().downcast_ref::<String>().cloned().unwrap_or_else(|| "?".into()),
        };
        let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        // a panic raised by the harness's own code is never the crate's fault
        let own = i.location().map(|l| l.file().starts_with("src/")).unwrap_or(false);
        let pre = if own && !m.starts_with("LIVELOCK") && !m.starts_with("HANG") { "harness: " } else { "" };
        let m = format!("{}{}{}", pre, m, at);
        let on_worker = std::thread::current().name() == Some("w");
        if !on_worker {
            let _g = PANIC_MSG.lock();
            eprintln!("HARNESS ERROR: {}", m);
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = m);
    }));
    let known: Vec<Known> = load_known().into_iter().filter(|k| k.property == check.id).collect();
    let slots = slots(slot_file);
    let jobs = (check.jobs)(tier);
    let next = AtomicUsize::new(0);
    let shared = Shared::default();
    let merged = Mutex::new((Stats::default(), HashSet::<u64>::new(), 0u64));
    let workers = if only.is_some() { 1 } else { THREADS };
    let harness_failed = AtomicBool::new(false);
    std::thread::scope(|s| {
        for w in 0..workers {
            let (next, shared, merged, jobs, known, hf) = (&next, &shared, &merged, &jobs, &known, &harness_failed);
            std::thread::Builder::new()
                .name("w".into())
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    let slot = &slots[w];
                    loop {
                        let (j, upto) = match only {
                            Some((j, c)) => {
                                if next.fetch_add(1, Ordering::Relaxed) > 0 {
                                    break;
                                }
                                (j, Some(c))
                            }
                            None => (next.fetch_add(1, Ordering::Relaxed), None),
                        };
                        if j >= jobs.len() || shared.stop.load(Ordering::Relaxed) {
                            break;
                        }
                        slot.case.store(0, Ordering::Relaxed);
                        slot.job.store(j as u64, Ordering::Relaxed);
                        let mut ctx = Ctx {
                            tier,
                            job: j,
                            job_name: jobs[j].name.clone(),
                            n: 0,
                            upto,
                            slot,
                            shared,
                            known,
                            done: false,
                            verbose: only.is_some(),
                            st: Stats::default(),
                        };
                        let r = catch_unwind(AssertUnwindSafe(|| (jobs[j].run)(&mut ctx)));
                        if r.is_err() {
                            eprintln!(
                                "HARNESS ERROR: job {} panicked outside a case: {}",
                                jobs[j].name,
                                LAST_PANIC.with(|p| p.borrow().clone())
                            );
                            hf.store(true, Ordering::Relaxed);
                            shared.stop.store(true, Ordering::Relaxed);
                        }
                        let (states, trans) = take_model();
                        let mut g = merged.lock().unwrap();
                        g.0.cases += ctx.st.cases;
                        g.0.execs += ctx.st.execs;
                        g.0.distinct.extend(ctx.st.distinct);
                        if g.0.samples.len() < 24 {
                            g.0.samples.extend(ctx.st.samples);
                        }
                        g.1.extend(states);
                        g.2 += trans;
                    }
                    slot.job.store(IDLE, Ordering::Relaxed);
                })
                .expect("harness: spawn");
        }
    });
    if harness_failed.load(Ordering::Relaxed) {
        std::process::exit(97);
    }
    let (st, states, trans) = merged.into_inner().unwrap();
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = writeln!(o, "STAT jobs={} cases={} execs={} distinct={} states={} transitions={}", jobs.len(), st.cases, st.execs, st.distinct.len(), states.len(), trans);
    let mut samples = st.samples;
    samples.sort();
    let step = (samples.len() / 8).max(1);
    for s in samples.iter().step_by(step).take(8) {
        let _ = writeln!(o, "SAMPLE {}", s);
    }
    for (k, t) in shared.known.lock().unwrap().iter() {
        let _ = writeln!(o, "KNOWN {} [{}]", k, t);
    }
    let mut v = shared.violations.lock().unwrap().clone();
    v.sort_by_key(|v| (v.job, v.case));
    for v in v.iter().take(3) {
        let _ = writeln!(o, "BAD {} {} {}\t{}\t{}", v.job, v.case, v.job_name.replace(['\t', ' '], "_"), one_line(&v.desc), one_line(&v.msg));
    }
    let _ = writeln!(o, "DONE");
    let _ = o.flush();
    std::process::exit(0);
}

struct ChildEnd {
    lines: Vec<String>,
    /// finished normally
    done: bool,
    how: String,
    harness: bool,
    hung: bool,
    slots: Vec<(u64, u64)>,
}
fn run_child(check: &Check, tier: Tier, only: Option<(usize, usize)>, limit: Duration) -> ChildEnd {
    let slot_path = std::env::temp_dir().join(format!("pfs-mc-slots-{}-{}", std::process::id(), check.id));
    std::fs::write(&slot_path, vec![0xffu8; THREADS * std::mem::size_of::<Slot>()]).expect("slots file");
    let sl = slots(slot_path.to_str().unwrap());
    let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
    cmd.arg("child").arg(check.id).arg(tier.name()).arg(&slot_path);
    if let Some((j, c)) = only {
        cmd.arg(format!("{}:{}", j, c));
    }
    let mut ch = cmd.stdout(std::process::Stdio::piped()).spawn().expect("spawn child");
    let out = ch.stdout.take().unwrap();
    let reader = std::thread::spawn(move || BufReader::new(out).lines().map_while(|l| l.ok()).collect::<Vec<_>>());
    let snap = || sl.iter().map(|s| (s.job.load(Ordering::Relaxed), s.case.load(Ordering::Relaxed))).collect::<Vec<_>>();
    let mut seen = snap();
    let mut since = vec![Instant::now(); THREADS];
    let mut hung = false;
    let status = loop {
        if let Some(s) = ch.try_wait().expect("wait") {
            break s;
        }
        std::thread::sleep(Duration::from_millis(20));
        let now = snap();
        for i in 0..THREADS {
            if now[i] != seen[i] || now[i].0 == IDLE {
                since[i] = Instant::now();
            } else if since[i].elapsed() > limit {
                hung = true;
            }
        }
        seen = now;
        if hung {
            let _ = ch.kill();
            break ch.wait().expect("wait");
        }
    };
    let at = snap();
    let lines = reader.join().unwrap_or_default();
    let _ = std::fs::remove_file(&slot_path);
    let done = status.success() && lines.last().map(|l| l == "DONE").unwrap_or(false);
    use std::os::unix::process::ExitStatusExt;
    let how = if hung {
        format!("a case did not finish within {} s", limit.as_secs())
    } else if let Some(s) = status.signal() {
        format!("the process was ended by signal {}{}", s, match s { 6 => " (abort)", 11 => " (stack exhausted or bad memory access)", _ => "" })
    } else {
        format!("the process ended with status {:?}", status.code())
    };
    ChildEnd { harness: status.code() == Some(97), hung, lines, done, how, slots: at }
}

pub fn supervise(check: &Check, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let end = run_child(check, tier, None, CASE_LIMIT);
    let mut bad: Option<(usize, usize, String, String)> = None;
    // what failed fails only after what the run did before
    let mut whole = false;
    if end.done {
        for l in &end.lines {
            if let Some(r) = l.strip_prefix("BAD ") {
                let mut it = r.splitn(3, ' ');
                let j: usize = it.next().unwrap().parse().unwrap();
                let c: usize = it.next().unwrap().parse().unwrap();
                let mut p = it.next().unwrap_or("").split('\t');
                let (jn, d, m) = (p.next().unwrap_or(""), p.next().unwrap_or(""), p.next().unwrap_or(""));
                if bad.is_none() {
                    bad = Some((j, c, format!("{}: {}", jn, d), m.to_string()));
                }
            }
        }
        if let Some((j, c, ..)) = &bad {
            // believe only what happens again on its own
            let again = run_child(check, tier, Some((*j, *c)), CASE_LIMIT * 2);
            let repeated = (again.done && again.lines.iter().any(|l| l.starts_with("BAD "))) || (!again.done && !again.harness);
            if !repeated {
                // then it depends on what ran before: does the whole run fail again?
                eprintln!("{}: job {} case {} does not fail alone; once more from the start", check.id, j, c);
                let all = run_child(check, tier, None, CASE_LIMIT);
                if all.harness || all.hung || all.done && !all.lines.iter().any(|l| l.starts_with("BAD ")) {
                    eprintln!("HARNESS ERROR: {} job {} case {} did not repeat", check.id, j, c);
                    return 2;
                }
                whole = true;
            }
        }
    } else if end.harness {
        eprintln!("HARNESS ERROR: {} ({})", check.id, end.how);
        return 2;
    } else {
        eprintln!("{}: {}; looking for the case", check.id, end.how);
        for (j, c) in &end.slots {
            if *j == IDLE {
                continue;
            }
            let again = run_child(check, tier, Some((*j as usize, *c as usize)), CASE_LIMIT * 2);
            if again.harness {
                return 2;
            }
            let last = again.lines.iter().rev().find(|l| l.starts_with("CASE ")).cloned().unwrap_or_default();
            if !again.done {
                let at = again.slots.iter().find(|s| s.0 == *j).map(|s| s.1).unwrap_or(*c);
                bad = Some((*j as usize, at as usize, last, again.how.clone()));
                break;
            }
            if let Some(l) = again.lines.iter().find(|l| l.starts_with("BAD ")) {
                bad = Some((*j as usize, *c as usize, last, l.clone()));
                break;
            }
        }
        if bad.is_none() {
            eprintln!("{}: no single case repeats it; once more from the start", check.id);
            let all = run_child(check, tier, None, CASE_LIMIT);
            if end.hung || all.harness || all.hung || all.done {
                eprintln!("HARNESS ERROR: {}: {} and no single case repeats it", check.id, end.how);
                return 2;
            }
            whole = true;
            bad = Some((0, 0, "the whole run".into(), all.how));
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut num = std::collections::BTreeMap::new();
    for l in &end.lines {
        if let Some(r) = l.strip_prefix("STAT ") {
            for kv in r.split(' ') {
                if let Some((k, v)) = kv.split_once('=') {
                    num.insert(k.to_string(), v.parse::<u64>().unwrap_or(0));
                }
            }
        }
    }
    let g = |k: &str| num.get(k).copied().unwrap_or(0);
    let samples: Vec<String> = end.lines.iter().filter_map(|l| l.strip_prefix("SAMPLE ")).map(|s| js(s)).collect();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    // each number once: what another name already reports is left out
    let names: &[(&str, &str)] = if check.level == "model_checking" {
        &[("states", "states"), ("transitions", "transitions"), ("traces_validated_against_impl", "execs"), ("evaluations", "cases"), ("distinct_nontrivial", "distinct")]
    } else {
        &[("evaluations", "cases"), ("distinct_nontrivial", "distinct"), ("executions", "execs"), ("transitions", "transitions"), ("states", "states")]
    };
    let mut counts: Vec<(&str, u64)> = vec![];
    for (i, (name, key)) in names.iter().enumerate() {
        let required = i < if check.level == "model_checking" { 3 } else { 2 };
        if required || !counts.iter().any(|c| c.1 == g(key)) {
            counts.push((name, g(key)));
        }
    }
    let cov = format!(
        "{}, \"rule\": {}, \"jobs\": {}, \"exhaustive\": {}, \"explanation\": {}, \"samples\": [{}]",
        counts.iter().map(|(n, v)| format!("{}: {}", js(n), v)).collect::<Vec<_>>().join(", "),
        js(check.rule), g("jobs"), bad.is_none(), js(check.explanation), samples.join(", ")
    );
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
        js(check.id), js(tier.name()), seed, js(check.level), cov,
        check.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "), wall, bad.is_some() as u8
    );
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", check.id)), ev).expect("evidence");
    for l in &end.lines {
        if let Some(k) = l.strip_prefix("KNOWN ") {
            println!("KNOWN-FINDING: property={} {}", check.id, k);
        }
    }
    println!(
        "{} {}: {} jobs, {} cases, {} executions of the code, {} distinct inputs, {} model states, {} transitions, {:.1} s",
        check.id, tier.name(), g("jobs"), g("cases"), g("execs"), g("distinct"), g("states"), g("transitions"), wall
    );
    if let Some((j, c, desc, msg)) = bad {
        let dir = verif().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join(format!("{}-{}.txt", check.id, tier.name()));
        let how = if whole {
            format!("./check run {} {} (the case alone does not fail: something outlives the uses before it)", check.id, tier.name())
        } else {
            format!("./check replay {} {} {}:{}", check.id, tier.name(), j, c)
        };
        let body = format!(
            "property: {}\ntier: {}\njob: {}\ncase: {}\ninput: {}\nwhat failed: {}\nreplay: {}\n",
            check.id, tier.name(), j, c, desc, msg, how
        );
        let _ = std::fs::write(&p, &body);
        print!("{}", body);
        println!("VIOLATION property={} replay={}", check.id, p.display());
        return 1;
    }
    0
}
pub fn replay(check: &Check, tier: Tier, at: (usize, usize)) -> i32 {
    let e = run_child(check, tier, Some(at), CASE_LIMIT * 2);
    for l in &e.lines {
        println!("{}", l);
    }
    if !e.done {
        println!("{}", e.how);
        return 1;
    }
    e.lines.iter().any(|l| l.starts_with("BAD ")) as i32
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
