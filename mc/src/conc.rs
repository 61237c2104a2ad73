//! C24: runs of the command at the same time. Two runs are traced; the explorer lets one of them proceed
//! at a time, and switches between them at the calls which touch the scratch directory.
use crate::cli::*;
use crate::crash::touches;
use crate::engine::*;
use crate::exec;
use crate::props::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::fs;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::Path;

struct Traced {
    pid: i32,
    /// threads which stand in front of a call that touches the scratch directory
    gate: Vec<i32>,
    code: Option<i32>,
    killed: bool,
    calls: Vec<&'static str>,
    all: usize,
}

/// The threads of both runs: which run, whether inside of a call, whether started.
#[derive(Default)]
struct Thread {
    run: usize,
    inside: bool,
    fresh: bool,
}

struct Two {
    runs: Vec<Traced>,
    threads: HashMap<i32, Thread>,
    /// threads whose first stop came before the report of their creation
    early: Vec<i32>,
    dir: String,
}

unsafe fn start(dir: &Path, out: &Path, args: &[&str]) -> i32 {
    let bin = CString::new(binary()).unwrap();
    let mut av: Vec<CString> = vec![bin.clone()];
    av.extend(args.iter().map(|a| CString::new(*a).unwrap()));
    let mut ap: Vec<*const libc::c_char> = av.iter().map(|a| a.as_ptr()).collect();
    ap.push(std::ptr::null());
    let cwd = CString::new(dir.to_string_lossy().as_bytes()).unwrap();
    let out = CString::new(out.to_string_lossy().as_bytes()).unwrap();
    let env = [c"PATH=/usr/bin:/bin".as_ptr(), c"RUST_BACKTRACE=0".as_ptr(), std::ptr::null()];
    let pid = libc::fork();
    assert!(pid >= 0);
    if pid == 0 {
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
        libc::dup2(n, 0);
        libc::dup2(libc::open(out.as_ptr(), libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC, 0o600), 1);
        libc::dup2(n, 2);
        for fd in 3..64 {
            libc::close(fd);
        }
        if libc::chdir(cwd.as_ptr()) != 0 || libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) != 0 {
            libc::_exit(125);
        }
        libc::raise(libc::SIGSTOP);
        libc::execve(bin.as_ptr(), ap.as_ptr(), env.as_ptr());
        libc::_exit(126);
    }
    let mut st = 0;
    libc::waitpid(pid, &mut st, 0);
    assert!(libc::WIFSTOPPED(st), "ptrace is not available");
    let opt = libc::PTRACE_O_TRACESYSGOOD | libc::PTRACE_O_TRACECLONE | libc::PTRACE_O_TRACEEXEC | libc::PTRACE_O_EXITKILL;
    libc::ptrace(libc::PTRACE_SETOPTIONS, pid, 0, opt);
    // up to the new program
    libc::ptrace(libc::PTRACE_CONT, pid, 0, 0);
    libc::waitpid(pid, &mut st, 0);
    assert!(libc::WIFSTOPPED(st) && st >> 8 == libc::SIGTRAP | (libc::PTRACE_EVENT_EXEC << 8), "no start of the binary");
    pid
}

impl Two {
    /// The output of run i goes to the file i of `out`.
    unsafe fn new(dir: &Path, out: &Path, args: &[Vec<&str>]) -> Two {
        let real = fs::canonicalize(dir).unwrap().to_string_lossy().to_string();
        let mut t = Two { runs: vec![], threads: HashMap::new(), early: vec![], dir: real };
        for (i, a) in args.iter().enumerate() {
            let pid = start(dir, &out.join(i.to_string()), a);
            // the exit of execve is reported next
            t.threads.insert(pid, Thread { run: i, inside: true, fresh: false });
            t.runs.push(Traced { pid, gate: vec![], code: None, killed: false, calls: vec![], all: 0 });
        }
        for i in 0..t.runs.len() {
            libc::ptrace(libc::PTRACE_SYSCALL, t.runs[i].pid, 0, 0);
            t.settle(i);
        }
        t
    }

    fn over(&self, i: usize) -> bool {
        self.runs[i].code.is_some() || self.runs[i].killed
    }

    /// Wait until the run stands in front of a call, or is over.
    unsafe fn settle(&mut self, i: usize) {
        while !self.over(i) && self.runs[i].gate.is_empty() {
            let mut st = 0;
            let t = libc::waitpid(-1, &mut st, libc::__WALL);
            if t < 0 {
                return;
            }
            self.event(t, st);
        }
    }

    unsafe fn event(&mut self, t: i32, st: i32) {
        if libc::WIFEXITED(st) || libc::WIFSIGNALED(st) {
            self.threads.remove(&t);
            for r in &mut self.runs {
                r.gate.retain(|x| *x != t);
                if t == r.pid {
                    r.code = Some(if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 128 + libc::WTERMSIG(st) });
                }
            }
            return;
        }
        let sig = libc::WSTOPSIG(st);
        if st >> 8 == libc::SIGTRAP | (libc::PTRACE_EVENT_CLONE << 8) {
            let mut new: libc::c_ulong = 0;
            libc::ptrace(libc::PTRACE_GETEVENTMSG, t, 0, &mut new);
            let run = self.threads[&t].run;
            let new = new as i32;
            if let Some(k) = self.early.iter().position(|x| *x == new) {
                self.early.remove(k);
                self.threads.insert(new, Thread { run, ..Default::default() });
                libc::ptrace(libc::PTRACE_SYSCALL, new, 0, 0);
            } else {
                self.threads.insert(new, Thread { run, fresh: true, ..Default::default() });
            }
            libc::ptrace(libc::PTRACE_SYSCALL, t, 0, 0);
            return;
        }
        let Some(th) = self.threads.get_mut(&t) else {
            self.early.push(t);
            return;
        };
        let mut deliver = 0;
        if sig == libc::SIGTRAP | 0x80 {
            th.inside = !th.inside;
            let run = th.run;
            let mut r: libc::user_regs_struct = std::mem::zeroed();
            libc::ptrace(libc::PTRACE_GETREGS, t, 0, &mut r);
            if th.inside {
                self.runs[run].all += 1;
                // these commute with every call of another run: no need to switch in front of them
                let own = |n: &&str| !matches!(*n, "close" | "lseek" | "fsync" | "fdatasync" | "fcntl");
                if let Some(n) = touches(t, &r, &self.dir).filter(own) {
                    self.runs[run].calls.push(n);
                    self.runs[run].gate.push(t);
                    return;
                }
            } else if r.orig_rax == 39 {
                r.rax = 4711 + run as u64;
                libc::ptrace(libc::PTRACE_SETREGS, t, 0, &r);
            }
        } else if sig == libc::SIGSTOP && th.fresh {
            th.fresh = false;
        } else if sig != libc::SIGTRAP {
            deliver = sig;
        }
        libc::ptrace(libc::PTRACE_SYSCALL, t, 0, deliver);
    }

    /// The run makes one call which touches the directory, and goes on to the next one.
    unsafe fn step(&mut self, i: usize) {
        if self.over(i) {
            return;
        }
        if !self.runs[i].gate.is_empty() {
            let t = self.runs[i].gate.remove(0);
            libc::ptrace(libc::PTRACE_SYSCALL, t, 0, 0);
        }
        self.settle(i);
    }

    unsafe fn kill(&mut self, i: usize) {
        if self.over(i) {
            return;
        }
        self.runs[i].killed = true;
        libc::kill(self.runs[i].pid, libc::SIGKILL);
        while self.threads.values().any(|t| t.run == i) {
            let mut st = 0;
            let t = libc::waitpid(-1, &mut st, libc::__WALL);
            if t < 0 {
                return;
            }
            if libc::WIFEXITED(st) || libc::WIFSIGNALED(st) || self.threads.contains_key(&t) {
                self.event(t, st);
            }
        }
    }
}

impl Drop for Two {
    fn drop(&mut self) {
        unsafe {
            for r in &self.runs {
                if r.code.is_none() {
                    libc::kill(r.pid, libc::SIGKILL);
                }
            }
            let mut st = 0;
            while libc::waitpid(-1, &mut st, libc::__WALL) > 0 {}
        }
    }
}

/// Files (name, content, mode), the arguments of both runs, the files they write.
struct Scenario {
    name: &'static str,
    files: Vec<(&'static str, String, u32)>,
    link: Option<(&'static str, &'static str)>,
    args: [Vec<&'static str>; 2],
    writes: [Option<&'static str>; 2],
    /// every run fails
    fails: bool,
}

fn scenarios() -> Vec<Scenario> {
    let a = || "public class A{Integer x=1;\n\n\nvoid f(){ foo(alphaBetaGamma,deltaEpsilonZeta,etaThetaIota); } // t\n}".to_string();
    let b = || "trigger T on Account(before insert){ update x;\n\n\nfoo( ) ; }".to_string();
    let m: String = (0..1500).map(|i| format!("void m{i}( ){{ foo( alphaBetaGamma{i} , 'string {i}' ) ; }}\n")).collect();
    let w = |f: &'static str| vec!["--write", f];
    vec![
        Scenario { name: "the same file", files: vec![("A.cls", a(), 0o640)], link: None, args: [w("A.cls"), w("A.cls")], writes: [Some("A.cls"), Some("A.cls")], fails: false },
        Scenario { name: "two files", files: vec![("A.cls", a(), 0o644), ("B.cls", b(), 0o600)], link: None, args: [w("A.cls"), w("B.cls")], writes: [Some("A.cls"), Some("B.cls")], fails: false },
        Scenario { name: "the same stem", files: vec![("A.cls", a(), 0o644), ("A.trigger", b(), 0o600)], link: None, args: [w("A.cls"), w("A.trigger")], writes: [Some("A.cls"), Some("A.trigger")], fails: false },
        Scenario { name: "a file and a link to it", files: vec![("A.cls", a(), 0o755)], link: Some(("L.cls", "A.cls")), args: [w("L.cls"), w("A.cls")], writes: [Some("A.cls"), Some("A.cls")], fails: false },
        Scenario { name: "a large file", files: vec![("A.cls", format!("class A{{{m}}}"), 0o644)], link: None, args: [w("A.cls"), w("A.cls")], writes: [Some("A.cls"), Some("A.cls")], fails: false },
        Scenario { name: "a write and a check", files: vec![("A.cls", a(), 0o644)], link: None, args: [w("A.cls"), vec!["--check", "A.cls"]], writes: [Some("A.cls"), None], fails: false },
        Scenario { name: "a write and a dry run", files: vec![("A.cls", a(), 0o644)], link: None, args: [w("A.cls"), vec!["A.cls"]], writes: [Some("A.cls"), None], fails: false },
        Scenario { name: "different widths", files: vec![("A.cls", a(), 0o644), ("c.toml", "max_width = 40\nindent_size = 4\n".into(), 0o644)], link: None, args: [w("A.cls"), vec!["--write", "-c", "c.toml", "A.cls"]], writes: [Some("A.cls"), Some("A.cls")], fails: false },
        Scenario { name: "malformed", files: vec![("A.cls", "class A { void f( { }".into(), 0o644)], link: None, args: [w("A.cls"), w("A.cls")], writes: [None, None], fails: true },
    ]
}

/// Contents which a file may have.
fn allowed(s: &Scenario, name: &str, old: &str) -> Vec<String> {
    let mut v = vec![old.to_string()];
    if name.ends_with(".toml") {
        return v;
    }
    for _ in 0..2 {
        for x in v.clone() {
            for (i, a) in s.args.iter().enumerate() {
                if s.writes[i] == Some(name) {
                    let (w, n) = if a.contains(&"-c") { (40, 4) } else { (80, 2) };
                    if let Ok(o) = exec::format(&x, w, n) {
                        if !v.contains(&o) {
                            v.push(o);
                        }
                    }
                }
            }
        }
    }
    v
}

fn setup(s: &Scenario) -> Dir {
    let dir = Dir::new();
    for (n, t, m) in &s.files {
        fs::write(dir.0.join(n), t).unwrap();
        fs::set_permissions(dir.0.join(n), fs::Permissions::from_mode(*m)).unwrap();
    }
    if let Some((l, t)) = s.link {
        std::os::unix::fs::symlink(t, dir.0.join(l)).unwrap();
    }
    dir
}

const ALL: usize = 999;

pub fn c24(thorough: bool) -> Plan {
    let mut cases = vec![];
    let mut total = 0;
    let list = scenarios();
    for (i, s) in list.iter().enumerate() {
        // calls of each run, alone
        let n: Vec<usize> = (0..2)
            .map(|k| {
                let d = exec::silently(|| setup(s));
                let out = Dir::new();
                let mut t = unsafe { Two::new(&d.0, &out.0, &[s.args[k].clone()]) };
                while !t.over(0) {
                    unsafe { t.step(0) };
                }
                total += t.runs[0].all;
                t.runs[0].calls.len()
            })
            .collect();
        let mut add = |v: Vec<(usize, usize)>, kill: usize| {
            let mut c = Case::new(format!("{i}"), 80, 2, s.name);
            c.aux = format!("{kill};{}", v.iter().map(|(r, k)| format!("{r} {k}")).collect::<Vec<_>>().join(";"));
            cases.push(c);
        };
        // `first` makes a calls, the other b, then first c, then the other d, and both run to their ends
        for first in [0, 1] {
            let (x, y) = (n[first] + 2, n[1 - first] + 2);
            let o = 1 - first;
            add(vec![(first, ALL), (o, ALL)], 9);
            for a in 0..x {
                add(vec![(first, a), (o, ALL), (first, ALL)], 9);
                for b in 1..y {
                    add(vec![(first, a), (o, b), (first, ALL), (o, ALL)], 9);
                    // killed after its b calls
                    add(vec![(first, a), (o, b), (o, 0), (first, ALL)], o);
                    if a > 0 && (thorough || i < 4) {
                        for c in 1..x.saturating_sub(a) {
                            add(vec![(first, a), (o, b), (first, c), (o, ALL), (first, ALL)], 9);
                            if thorough && i < 4 {
                                for d in 1..y.saturating_sub(b) {
                                    add(vec![(first, a), (o, b), (first, c), (o, d), (first, ALL), (o, ALL)], 9);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    Plan {
        cases,
        eval: Box::new(eval),
        rule: format!("{} scenarios of two runs at the same time ({total} system calls each on their own): every schedule with at most {} switches at the calls which touch the directory ({}), and every schedule with a switch and a kill of the other run; the files are read after every call", list.len(), if thorough { "three (four for four scenarios)" } else { "two (three for four scenarios)" }, "either run first"),
        derivations: 0,
        rejected: 0,
        assumptions: vec!["system calls are atomic towards each other", "one call of a run is made at a time"],
        hang: 60,
    }
}

fn eval(c: &Case) -> Obs {
    let list = scenarios();
    let s = &list[c.src.parse::<usize>().unwrap()];
    let mut it = c.aux.split(';');
    let kill: usize = it.next().unwrap().parse().unwrap();
    let plan: Vec<(usize, usize)> = it.map(|x| x.split_once(' ').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).unwrap()).collect();
    let dir = setup(s);
    let before = dir.list();
    let may: Vec<(&str, Vec<String>)> = s.files.iter().map(|(n, t, _)| (*n, allowed(s, n, t))).collect();
    let owner: Vec<_> = s.files.iter().map(|(n, ..)| fs::metadata(dir.0.join(n)).map(|m| (m.uid(), m.gid())).unwrap()).collect();
    let out = Dir::new();
    let mut t = unsafe { Two::new(&dir.0, &out.0, &s.args) };
    let mut trace: Vec<String> = vec![];
    let mut steps = 0;
    let look = |steps: u64, trace: &[String]| -> Option<Obs> {
        for (n, ok) in &may {
            let at = trace.last().cloned().unwrap_or_default();
            match fs::read(dir.0.join(n)) {
                Err(e) => return Some(broken(steps, format!("TOGETHER {n} is lost at {at} [{}]", s.name), format!("{}: {e}; {trace:?}", c.aux))),
                Ok(b) if ok.iter().any(|x| x.as_bytes() == b) => {}
                Ok(b) => {
                    let head: String = String::from_utf8_lossy(&b).chars().take(80).collect();
                    return Some(broken(steps, format!("TOGETHER {n} is incomplete at {at} [{}]", s.name), format!("{}: {} bytes: {head:?}; {trace:?}", c.aux, b.len())));
                }
            }
        }
        None
    };
    for (r, k) in &plan {
        if *k == 0 && kill == *r {
            unsafe { t.kill(*r) };
            trace.push(format!("{r} killed"));
        }
        let mut k = *k;
        while k > 0 && !t.over(*r) {
            let name = t.runs[*r].calls.last().copied().unwrap_or("-");
            unsafe { t.step(*r) };
            steps += 1;
            k -= 1;
            trace.push(format!("{r} {name}"));
            if steps > 20_000 {
                return broken(steps, format!("TOGETHER no end [{}]", s.name), c.aux.clone());
            }
            if let Some(o) = look(steps, &trace) {
                return o;
            }
        }
    }
    let bad = |what: String, detail: String| broken(steps, format!("TOGETHER {what} [{}]", s.name), format!("{}: {detail}; {trace:?}", c.aux));
    for (i, r) in t.runs.iter().enumerate() {
        match (r.code, s.writes[i]) {
            _ if r.killed => {}
            (Some(1), _) if s.fails => {}
            (Some(0), _) if s.fails => return bad("a malformed file is accepted".into(), String::new()),
            (Some(0), _) => {}
            (Some(1), None) if s.args[i].contains(&"--check") => {}
            (x, _) => return bad(format!("run {i} fails"), format!("{x:?}")),
        }
        if r.code == Some(0) && s.args[i].len() == 1 {
            // a dry run prints what the file holds, formatted
            let text = fs::read_to_string(out.0.join(i.to_string())).unwrap_or_default();
            let ok = may[0].1.iter().any(|x| exec::format(x, 80, 2).is_ok_and(|o| format!("{o}\n") == text));
            if !ok {
                return bad("a dry run prints another text".into(), text.chars().take(80).collect());
            }
        }
        if let (Some(0), Some(f)) = (r.code, s.writes[i]) {
            let now = fs::read(dir.0.join(f)).unwrap_or_default();
            if now == s.files.iter().find(|x| x.0 == f).unwrap().1.as_bytes() {
                return bad(format!("{f} is not formatted although a run succeeded"), String::new());
            }
        }
    }
    for (k, (n, _, m)) in s.files.iter().enumerate() {
        let meta = fs::metadata(dir.0.join(n)).unwrap();
        let mode = meta.permissions().mode() & 0o7777;
        if mode != *m {
            return bad(format!("permissions of {n} changed"), format!("{m:o} to {mode:o}"));
        }
        if (meta.uid(), meta.gid()) != owner[k] {
            return bad(format!("owner of {n} changed"), String::new());
        }
    }
    if let Some((l, _)) = s.link {
        if !fs::symlink_metadata(dir.0.join(l)).map_or(false, |m| m.file_type().is_symlink()) {
            return bad("the link is replaced".into(), String::new());
        }
    }
    if t.runs.iter().all(|r| !r.killed) && dir.list() != before {
        return bad("stray files".into(), format!("{:?}", dir.list()));
    }
    held(steps, &format!("{} {:?}", s.name, trace))
}
