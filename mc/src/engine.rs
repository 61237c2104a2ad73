//! Exhaustive exploration of a finite case list on forked workers.
//!
//! Workers are processes: the formatter leaks its sources, may overflow a stack or hang, and prints
//! diagnostics; none of that may reach the verdict except as an observation about a case.
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Case {
    pub src: String,
    pub width: u32,
    pub indent: u32,
    /// where the case comes from (root symbol, variant, ...)
    pub note: String,
    /// free for the property (e.g. a second text)
    pub aux: String,
}

impl Case {
    pub fn new(src: impl Into<String>, width: u32, indent: u32, note: impl Into<String>) -> Case {
        Case { src: src.into(), width, indent, note: note.into(), aux: String::new() }
    }
    pub fn json(&self) -> Value {
        json!({"src": self.src, "width": self.width, "indent": self.indent, "note": self.note, "aux": self.aux})
    }
    pub fn from_json(v: &Value) -> Case {
        Case {
            src: v["src"].as_str().unwrap_or("").into(),
            width: v["width"].as_u64().unwrap_or(80) as u32,
            indent: v["indent"].as_u64().unwrap_or(2) as u32,
            note: v["note"].as_str().unwrap_or("").into(),
            aux: v["aux"].as_str().unwrap_or("").into(),
        }
    }
}

pub struct Obs {
    /// formatter (or process) executions made for this case
    pub execs: u64,
    /// hash of what was observed, to count distinct outcomes
    pub outcome: u64,
    pub verdict: Verdict,
}

pub enum Verdict {
    Held,
    /// outside of the property's premise (e.g. refused input), with the reason
    Vacuous(String),
    Broken { sig: String, detail: String },
}

pub fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

#[derive(Default)]
pub struct Report {
    pub cases: usize,
    pub explored: usize,
    pub execs: u64,
    pub held: usize,
    pub vacuous: BTreeMap<String, usize>,
    pub distinct_outcomes: usize,
    pub broken: BTreeMap<String, (usize, Case, String)>,
    pub capped: bool,
}

const SLOTS: usize = 8;

struct Shared {
    base: *mut AtomicU64,
}

impl Shared {
    fn new() -> Shared {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
        assert!(p != libc::MAP_FAILED);
        Shared { base: p as *mut AtomicU64 }
    }
    fn slot(&self, i: usize) -> &AtomicU64 {
        unsafe { &*self.base.add(i) }
    }
}

pub fn scratch_dir() -> PathBuf {
    let d = std::env::temp_dir().join(format!("afmt-mc-{}", std::process::id()));
    fs::create_dir_all(&d).unwrap();
    d
}

/// Evaluate `f` on every case. `hang` is the time after which a single case counts as a hang.
pub fn run(cases: &[Case], f: &dyn Fn(&Case) -> Obs, cap: Duration, hang: Duration) -> Report {
    let dir = scratch_dir();
    let sh = Shared::new();
    let t0 = Instant::now();
    let chunk = if cases.len() < 2000 { 4 } else { (cases.len() / (SLOTS * 6) + 1).min(3000) };
    let mut next = 0usize;
    let mut live: Vec<Option<(i32, usize, usize, u64, Instant)>> = vec![None; SLOTS]; // pid, from, to, last, since
    let mut requeue: Vec<(usize, usize)> = vec![];
    let mut rep = Report { cases: cases.len(), ..Default::default() };
    let mut outcomes = std::collections::HashSet::new();
    std::io::stdout().flush().ok();
    let first = std::env::var("MC_FIRST").is_ok();
    loop {
        // a change that makes everything slow must not keep the check from saying so
        let late = t0.elapsed() > cap + Duration::from_secs(90) || t0.elapsed() > cap / 2 && !rep.broken.is_empty();
        if late || first && !rep.broken.is_empty() {
            next = cases.len();
            requeue.clear();
            for s in 0..SLOTS {
                if let Some((pid, a, ..)) = live[s].take() {
                    unsafe { libc::kill(pid, libc::SIGKILL); libc::waitpid(pid, &mut 0, 0); }
                    collect(&dir, a, cases, &mut rep, &mut outcomes);
                }
            }
        }
        for s in 0..SLOTS {
            if live[s].is_some() {
                continue;
            }
            let job = if let Some(j) = requeue.pop() {
                Some(j)
            } else if next < cases.len() && t0.elapsed() < cap {
                let to = (next + chunk).min(cases.len());
                let j = (next, to);
                next = to;
                Some(j)
            } else {
                None
            };
            if let Some((a, b)) = job {
                sh.slot(s).store(a as u64, Relaxed);
                let pid = unsafe { libc::fork() };
                assert!(pid >= 0, "fork");
                if pid == 0 {
                    worker(cases, a, b, f, &dir, sh.slot(s));
                }
                live[s] = Some((pid, a, b, a as u64, Instant::now()));
            }
        }
        if live.iter().all(|l| l.is_none()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(1));
        for s in 0..SLOTS {
            let Some((pid, a, b, last, since)) = live[s] else { continue };
            let mut st = 0;
            let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
            let cur = sh.slot(s).load(Relaxed);
            let mut died = None;
            if r == pid {
                if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
                    died = Some(if libc::WIFSIGNALED(st) { format!("process killed by signal {}", libc::WTERMSIG(st)) } else { format!("process exited with {}", libc::WEXITSTATUS(st)) });
                }
                live[s] = None;
            } else if cur != last {
                live[s] = Some((pid, a, b, cur, Instant::now()));
            } else if since.elapsed() > hang {
                unsafe {
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, &mut st, 0);
                }
                died = Some("no answer within the time limit".into());
                live[s] = None;
            }
            if live[s].is_none() {
                collect(&dir, a, cases, &mut rep, &mut outcomes);
                if let Some(why) = died {
                    let i = cur as usize;
                    rep.explored += 1;
                    rep.execs += 1;
                    let sig = format!("DIED {why}");
                    let e = rep.broken.entry(sig).or_insert((0, cases[i].clone(), why));
                    e.0 += 1;
                    if i + 1 < b && rep.broken.values().map(|x| x.0).sum::<usize>() < 200 {
                        requeue.push((i + 1, b));
                    } else if i + 1 < b {
                        rep.capped = true;
                    }
                }
            }
        }
    }
    if rep.explored < cases.len() {
        rep.capped = true;
    }
    rep.distinct_outcomes = outcomes.len();
    fs::remove_dir_all(&dir).ok();
    rep
}

fn worker(cases: &[Case], a: usize, b: usize, f: &dyn Fn(&Case) -> Obs, dir: &PathBuf, slot: &AtomicU64) -> ! {
    unsafe {
        let fd = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
        libc::dup2(fd, 1);
        libc::dup2(fd, 2);
        // a runaway case must not take the machine down
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    let mut out = std::io::BufWriter::new(fs::File::create(dir.join(format!("r{a}"))).unwrap());
    for i in a..b {
        slot.store(i as u64, Relaxed);
        let before = crate::oracle::PARSES.load(Relaxed);
        let mut o = f(&cases[i]);
        // steps: runs of the code under test, and runs of the oracle on their results
        o.execs += crate::oracle::PARSES.load(Relaxed) - before;
        let line = match o.verdict {
            Verdict::Held => format!("H {} {:x}\n", o.execs, o.outcome),
            Verdict::Vacuous(r) => format!("V {} {:x} {}\n", o.execs, o.outcome, r.replace('\n', " ")),
            Verdict::Broken { sig, detail } => format!("B {} {:x} {}\n", o.execs, o.outcome, json!([i, sig, detail])),
        };
        out.write_all(line.as_bytes()).unwrap();
        if line.starts_with('B') {
            out.flush().ok();
        }
    }
    out.flush().unwrap();
    drop(out);
    unsafe { libc::_exit(0) }
}

fn collect(dir: &PathBuf, a: usize, cases: &[Case], rep: &mut Report, outcomes: &mut std::collections::HashSet<u64>) {
    let p = dir.join(format!("r{a}"));
    let Ok(s) = fs::read(&p) else { return };
    let s = String::from_utf8_lossy(&s);
    for l in s.split_inclusive('\n') {
        if !l.ends_with('\n') {
            continue; // cut short by the death of the worker
        }
        let mut it = l.trim_end().splitn(4, ' ');
        let k = it.next().unwrap_or("");
        let execs: u64 = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
        let o = u64::from_str_radix(it.next().unwrap_or("0"), 16).unwrap_or(0);
        let rest = it.next().unwrap_or("");
        rep.explored += 1;
        rep.execs += execs;
        outcomes.insert(o);
        match k {
            "H" => rep.held += 1,
            "V" => *rep.vacuous.entry(rest.to_string()).or_default() += 1,
            "B" => {
                let v: Value = serde_json::from_str(rest).unwrap();
                let i = v[0].as_u64().unwrap() as usize;
                let sig = v[1].as_str().unwrap().to_string();
                let e = rep.broken.entry(sig).or_insert((0, cases[i].clone(), v[2].as_str().unwrap().to_string()));
                e.0 += 1;
                if cases[i].src.len() < e.1.src.len() {
                    e.1 = cases[i].clone();
                    e.2 = v[2].as_str().unwrap().to_string();
                }
            }
            _ => {}
        }
    }
    fs::remove_file(&p).ok();
}
