//! C13: a run of write mode is killed at every system call, and every system call which touches the
//! scratch directory fails (or transfers less than asked for), one after the other. The run is a child
//! of the explorer under ptrace, and works on a scratch directory only.
use crate::cli::*;
use crate::engine::*;
use crate::exec;
use crate::props::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::fs;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::Path;

/// File contents, modes, how the file is reached.
struct Scenario {
    name: &'static str,
    src: fn() -> String,
    mode: u32,
    link: bool,
    config: bool,
    /// the file belongs to somebody else (if the check runs as root)
    owner: u32,
}

fn ugly() -> String {
    "public class A{Integer x=1;\n\n\nvoid f(){ foo(alphaBetaGamma,deltaEpsilonZeta,etaThetaIota); } // t\n}".into()
}
fn formatted() -> String {
    exec::format(&ugly(), 80, 2).expect("formats")
}
fn large() -> String {
    let m: String = (0..1500).map(|i| format!("void m{i}( ){{ foo( alphaBetaGamma{i} , 'string {i}' ) ; }}\n")).collect();
    format!("class A{{{m}}}")
}
fn shrinks() -> String {
    format!("class A{{{}}}", "\n".repeat(20000))
}
fn malformed() -> String {
    "class A { void f( { }".into()
}

const SCENARIOS: [Scenario; 10] = [
    Scenario { name: "small", src: ugly, mode: 0o644, link: false, config: false, owner: 0 },
    Scenario { name: "private", src: ugly, mode: 0o600, link: false, config: true, owner: 0 },
    Scenario { name: "executable", src: ugly, mode: 0o755, link: false, config: false, owner: 0 },
    Scenario { name: "through a link", src: ugly, mode: 0o640, link: true, config: false, owner: 0 },
    Scenario { name: "large", src: large, mode: 0o664, link: false, config: false, owner: 0 },
    Scenario { name: "shrinks", src: shrinks, mode: 0o644, link: false, config: false, owner: 0 },
    Scenario { name: "already formatted", src: formatted, mode: 0o644, link: false, config: false, owner: 0 },
    Scenario { name: "malformed", src: malformed, mode: 0o644, link: false, config: false, owner: 0 },
    Scenario { name: "somebody else's", src: ugly, mode: 0o660, link: false, config: false, owner: 12345 },
    Scenario { name: "odd permissions", src: ugly, mode: 0o6751, link: true, config: false, owner: 0 },
];

/// What is done to the run.
#[derive(Clone, Debug, PartialEq)]
enum Fault {
    None,
    /// before or after the nth system call of the nth thread
    Kill { thread: usize, nth: usize, after: bool },
    /// before or after the nth call that touches the scratch directory
    KillAt { nth: usize, after: bool },
    /// the same, and the next run is killed as well
    KillTwice { nth: usize, after: bool, nth2: usize, after2: bool },
    /// calls which touch the scratch directory: these fail
    Errors(Vec<(usize, i32)>),
    /// from the nth on, all calls like the nth fail
    Persistent(usize, i32),
    /// the nth transfers less: half, one byte, or half and then the next ones fail
    Short { nth: usize, one: bool, then: i32 },
}

impl Fault {
    fn text(&self) -> String {
        match self {
            Fault::None => "none".into(),
            Fault::Kill { thread, nth, after } => format!("kill {thread} {nth} {}", *after as u8),
            Fault::KillAt { nth, after } => format!("killat {nth} {}", *after as u8),
            Fault::KillTwice { nth, after, nth2, after2 } => format!("killtwice {nth} {} {nth2} {}", *after as u8, *after2 as u8),
            Fault::Errors(v) => format!("errors {}", v.iter().map(|(n, e)| format!("{n} {e}")).collect::<Vec<_>>().join(" ")),
            Fault::Persistent(n, e) => format!("persistent {n} {e}"),
            Fault::Short { nth, one, then } => format!("short {nth} {} {then}", *one as u8),
        }
    }
    fn parse(s: &str) -> Fault {
        let mut it = s.split(' ');
        let k = it.next().unwrap();
        let v: Vec<i64> = it.map(|x| x.parse().unwrap()).collect();
        let n = |i: usize| v[i] as usize;
        match k {
            "kill" => Fault::Kill { thread: n(0), nth: n(1), after: v[2] != 0 },
            "killat" => Fault::KillAt { nth: n(0), after: v[1] != 0 },
            "killtwice" => Fault::KillTwice { nth: n(0), after: v[1] != 0, nth2: n(2), after2: v[3] != 0 },
            "errors" => Fault::Errors(v.chunks(2).map(|c| (c[0] as usize, c[1] as i32)).collect()),
            "persistent" => Fault::Persistent(n(0), v[1] as i32),
            "short" => Fault::Short { nth: n(0), one: v[1] != 0, then: v[2] as i32 },
            _ => Fault::None,
        }
    }
    fn kills(&self) -> bool {
        matches!(self, Fault::Kill { .. } | Fault::KillAt { .. } | Fault::KillTwice { .. })
    }
}

#[derive(Default, Debug, Clone)]
struct Run {
    /// exit status; none if the run was killed
    code: Option<i32>,
    /// calls which touched the scratch directory
    calls: Vec<&'static str>,
    /// number of system calls of every thread
    counts: Vec<usize>,
    /// the fault was reached
    hit: bool,
    unlink_failed: bool,
    chown_failed: bool,
    stuck: bool,
}

// Calls with a path or a descriptor: (number, name, argument with the path, argument with a descriptor)
const P: usize = 9;
const FILE_CALLS: [(i64, &str, usize, usize, usize); 62] = [
    (0, "read", P, P, 0), (1, "write", P, P, 0), (2, "open", 0, P, P), (3, "close", P, P, 0), (4, "stat", 0, P, P), (5, "fstat", P, P, 0),
    (6, "lstat", 0, P, P), (8, "lseek", P, P, 0), (17, "pread64", P, P, 0), (18, "pwrite64", P, P, 0), (19, "readv", P, P, 0),
    (20, "writev", P, P, 0), (21, "access", 0, P, P), (32, "dup", P, P, 0), (40, "sendfile", P, P, 0), (72, "fcntl", P, P, 0),
    (73, "flock", P, P, 0), (74, "fsync", P, P, 0), (75, "fdatasync", P, P, 0), (76, "truncate", 0, P, P), (77, "ftruncate", P, P, 0),
    (78, "getdents", P, P, 0), (80, "chdir", 0, P, P), (82, "rename", 0, 1, P), (83, "mkdir", 0, P, P), (84, "rmdir", 0, P, P), (85, "creat", 0, P, P),
    (86, "link", 0, 1, P), (87, "unlink", 0, P, P), (88, "symlink", 0, 1, P), (89, "readlink", 0, P, P), (90, "chmod", 0, P, P),
    (91, "fchmod", P, P, 0), (92, "chown", 0, P, P), (93, "fchown", P, P, 0), (94, "lchown", 0, P, P), (137, "statfs", 0, P, P),
    (138, "fstatfs", P, P, 0), (188, "setxattr", 0, P, P), (190, "fsetxattr", P, P, 0), (217, "getdents64", P, P, 0), (257, "openat", 1, P, 0),
    (258, "mkdirat", 1, P, 0), (260, "fchownat", 1, P, 0), (262, "newfstatat", 1, P, 0), (263, "unlinkat", 1, P, 0),
    (264, "renameat", 1, 3, 0), (265, "linkat", 1, 3, 0), (266, "symlinkat", 2, P, 1), (267, "readlinkat", 1, P, 0),
    (268, "fchmodat", 1, P, 0), (269, "faccessat", 1, P, 0), (280, "utimensat", 1, P, 0), (285, "fallocate", P, P, 0),
    (296, "pwritev", P, P, 0), (316, "renameat2", 1, 3, 0), (326, "copy_file_range", P, P, 2), (328, "pwritev2", P, P, 0),
    (332, "statx", 1, P, 0), (437, "openat2", 1, P, 0), (439, "faccessat2", 1, P, 0), (26, "msync", P, P, P),
];

fn arg(r: &libc::user_regs_struct, i: usize) -> u64 {
    [r.rdi, r.rsi, r.rdx, r.r10, r.r8, r.r9][i]
}

fn peek_str(pid: i32, addr: u64) -> String {
    let mut out = vec![];
    let mut a = addr & !7;
    let mut skip = (addr - a) as usize;
    while out.len() < 4096 {
        let w = unsafe {
            *libc::__errno_location() = 0;
            let w = libc::ptrace(libc::PTRACE_PEEKDATA, pid, a, 0);
            if *libc::__errno_location() != 0 {
                break;
            }
            w
        };
        for b in &w.to_ne_bytes()[skip..] {
            if *b == 0 {
                return String::from_utf8_lossy(&out).into();
            }
            out.push(*b);
        }
        skip = 0;
        a += 8;
    }
    String::from_utf8_lossy(&out).into()
}

/// The name of the call if it touches the scratch directory (the working directory of the run).
pub fn touches(pid: i32, r: &libc::user_regs_struct, dir: &str) -> Option<&'static str> {
    let (_, name, p1, p2, fd) = FILE_CALLS.iter().find(|c| c.0 == r.orig_rax as i64)?;
    for p in [p1, p2] {
        if *p != P {
            let s = peek_str(pid, arg(r, *p));
            if s.starts_with(dir) || (!s.is_empty() && !s.starts_with('/')) {
                return Some(name);
            }
        }
    }
    if *fd != P {
        let n = arg(r, *fd) as i32;
        if n >= 0 {
            if let Ok(t) = fs::read_link(format!("/proc/{pid}/fd/{n}")) {
                if t.to_string_lossy().starts_with(dir) {
                    return Some(name);
                }
            }
        }
    }
    None
}

fn traced(dir: &Path, args: &[&str], fault: &Fault) -> Run {
    let bin = CString::new(binary()).unwrap();
    let mut av: Vec<CString> = vec![bin.clone()];
    av.extend(args.iter().map(|a| CString::new(*a).unwrap()));
    let mut ap: Vec<*const libc::c_char> = av.iter().map(|a| a.as_ptr()).collect();
    ap.push(std::ptr::null());
    let cwd = CString::new(dir.to_string_lossy().as_bytes()).unwrap();
    let real = fs::canonicalize(dir).unwrap().to_string_lossy().to_string();
    let env = [c"PATH=/usr/bin:/bin".as_ptr(), c"RUST_BACKTRACE=0".as_ptr(), std::ptr::null()];
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
            libc::dup2(n, 0);
            libc::dup2(n, 1);
            libc::dup2(n, 2);
            for fd in 3..64 {
                libc::close(fd);
            }
            if libc::chdir(cwd.as_ptr()) != 0 || libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) != 0 {
                libc::_exit(125);
            }
            libc::raise(libc::SIGSTOP);
            libc::execve(bin.as_ptr(), ap.as_ptr(), env.as_ptr());
            libc::_exit(126);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        assert!(libc::WIFSTOPPED(st), "ptrace is not available");
        let opt = libc::PTRACE_O_TRACESYSGOOD | libc::PTRACE_O_TRACECLONE | libc::PTRACE_O_TRACEFORK | libc::PTRACE_O_TRACEVFORK | libc::PTRACE_O_TRACEEXEC | libc::PTRACE_O_EXITKILL;
        libc::ptrace(libc::PTRACE_SETOPTIONS, pid, 0, opt);
        libc::ptrace(libc::PTRACE_SYSCALL, pid, 0, 0);
        drive(pid, &real, fault)
    }
}

/// State of a traced thread: its number, whether it is inside of a call, what its result becomes.
#[derive(Default)]
struct Thread {
    index: usize,
    inside: bool,
    file: bool,
    result: Option<i64>,
    unlink: bool,
}

unsafe fn drive(pid: i32, dir: &str, fault: &Fault) -> Run {
    let mut run = Run::default();
    let mut threads: HashMap<i32, Thread> = HashMap::new();
    threads.insert(pid, Thread::default());
    run.counts.push(0);
    let mut executed = false;
    let mut persistent: Option<&'static str> = None;
    let mut after_short: Option<(&'static str, i32)> = None;
    let kill = |run: &mut Run| {
        run.hit = true;
        libc::kill(pid, libc::SIGKILL);
        let mut st = 0;
        while libc::waitpid(-1, &mut st, libc::__WALL) > 0 {}
    };
    loop {
        let mut st = 0;
        let t = libc::waitpid(-1, &mut st, libc::__WALL);
        if t < 0 {
            return run;
        }
        if libc::WIFEXITED(st) || libc::WIFSIGNALED(st) {
            threads.remove(&t);
            if t == pid {
                run.code = Some(if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 128 + libc::WTERMSIG(st) });
                while libc::waitpid(-1, &mut st, libc::__WALL) > 0 {}
                return run;
            }
            continue;
        }
        let sig = libc::WSTOPSIG(st);
        if !threads.contains_key(&t) {
            let index = run.counts.len();
            run.counts.push(0);
            threads.insert(t, Thread { index, ..Default::default() });
        }
        let mut deliver = 0;
        if sig == libc::SIGTRAP | 0x80 {
            let mut r: libc::user_regs_struct = std::mem::zeroed();
            libc::ptrace(libc::PTRACE_GETREGS, t, 0, &mut r);
            let th = threads.get_mut(&t).unwrap();
            th.inside = !th.inside;
            if !executed {
                if !th.inside && r.orig_rax == 59 {
                    executed = true;
                }
            } else if th.inside {
                let nth = run.counts[th.index];
                run.counts[th.index] += 1;
                let name = touches(t, &r, dir);
                let fnth = run.calls.len();
                th.file = name.is_some();
                th.result = None;
                th.unlink = matches!(name, Some("unlink" | "unlinkat"));
                if let Some(n) = name {
                    run.calls.push(n);
                }
                match fault {
                    Fault::Kill { thread, nth: k, after: false } if *thread == th.index && *k == nth => {
                        kill(&mut run);
                        return run;
                    }
                    Fault::KillAt { nth: k, after: false } | Fault::KillTwice { nth: k, after: false, .. } if name.is_some() && *k == fnth => {
                        kill(&mut run);
                        return run;
                    }
                    _ => {}
                }
                let mut err = None;
                if let Some(n) = name {
                    match fault {
                        Fault::Errors(v) => err = v.iter().find(|(k, _)| *k == fnth).map(|(_, e)| *e),
                        Fault::Persistent(k, e) => {
                            if *k == fnth {
                                persistent = Some(n);
                            }
                            if persistent == Some(n) {
                                err = Some(*e);
                            }
                        }
                        Fault::Short { nth: k, one, then } => {
                            if *k == fnth {
                                let transfers = matches!(n, "read" | "write" | "pread64" | "pwrite64");
                                if transfers && r.rdx > 1 {
                                    r.rdx = if *one { 1 } else { r.rdx / 2 };
                                    libc::ptrace(libc::PTRACE_SETREGS, t, 0, &r);
                                    run.hit = true;
                                    if *then != 0 {
                                        after_short = Some((n, *then));
                                    }
                                }
                            } else if let Some((m, e)) = after_short {
                                if m == n {
                                    err = Some(e);
                                }
                            }
                        }
                        _ => {}
                    }
                }
                if let Some(e) = err {
                    run.hit = true;
                    run.unlink_failed |= th.unlink;
                    run.chown_failed |= name.is_some_and(|n| n.contains("chown"));
                    th.result = Some(-(e as i64));
                    r.orig_rax = u64::MAX;
                    libc::ptrace(libc::PTRACE_SETREGS, t, 0, &r);
                }
            } else {
                if r.orig_rax == 39 {
                    // process identifiers come again: every run has the same one
                    r.rax = 4711;
                    libc::ptrace(libc::PTRACE_SETREGS, t, 0, &r);
                }
                if let Some(x) = th.result.take() {
                    r.rax = x as u64;
                    libc::ptrace(libc::PTRACE_SETREGS, t, 0, &r);
                }
                let here = match fault {
                    Fault::Kill { thread, nth, after: true } => *thread == th.index && *nth + 1 == run.counts[th.index],
                    Fault::KillAt { nth, after: true } | Fault::KillTwice { nth, after: true, .. } => th.file && *nth + 1 == run.calls.len(),
                    _ => false,
                };
                if here {
                    kill(&mut run);
                    return run;
                }
            }
            if run.counts.iter().sum::<usize>() > 200_000 {
                run.stuck = true;
                kill(&mut run);
                return run;
            }
        } else if sig == libc::SIGTRAP || (sig == libc::SIGSTOP && threads[&t].index > 0 && run.counts[threads[&t].index] == 0) {
            // clone, exec, first stop of a thread
        } else {
            deliver = sig;
        }
        libc::ptrace(libc::PTRACE_SYSCALL, t, 0, deliver);
    }
}

struct Setup {
    dir: Dir,
    old: String,
    new: Option<String>,
    mode: u32,
    owner: (u32, u32),
    args: Vec<&'static str>,
}

fn setup(s: &Scenario) -> Setup {
    let dir = Dir::new();
    let old = (s.src)();
    let new = exec::format(&old, if s.config { 40 } else { 80 }, if s.config { 4 } else { 2 }).ok();
    let real = dir.0.join(if s.link { "real.txt" } else { "F.cls" });
    fs::write(&real, &old).unwrap();
    if s.owner > 0 && unsafe { libc::geteuid() } == 0 {
        std::os::unix::fs::chown(&real, Some(s.owner), Some(s.owner)).ok();
    }
    fs::set_permissions(&real, fs::Permissions::from_mode(s.mode)).unwrap();
    if s.link {
        std::os::unix::fs::symlink("real.txt", dir.0.join("F.cls")).unwrap();
    }
    let mut args = vec!["--write"];
    if s.config {
        fs::write(dir.0.join("c.toml"), "max_width = 40\nindent_size = 4\n").unwrap();
        args.extend(["-c", "c.toml"]);
    }
    args.push("F.cls");
    let m = fs::metadata(&real).unwrap();
    Setup { dir, old, new, mode: s.mode, owner: (m.uid(), m.gid()), args }
}

const ERRNOS: [i32; 7] = [libc::EIO, libc::ENOSPC, libc::EACCES, libc::EINTR, libc::EMFILE, libc::EROFS, libc::ENOENT];

pub fn c13(thorough: bool) -> Plan {
    let mut cases = vec![];
    let mut total = 0;
    for (i, s) in SCENARIOS.iter().enumerate() {
        let x = exec::silently(|| setup(s));
        let r = traced(&x.dir.0, &x.args, &Fault::None);
        total += r.counts.iter().sum::<usize>();
        let mut add = |f: Fault| {
            let mut c = Case::new(format!("{i}"), 80, 2, s.name);
            c.aux = f.text();
            cases.push(c);
        };
        add(Fault::None);
        let n = r.calls.len();
        for nth in 0..n + 6 {
            for after in [false, true] {
                add(Fault::KillAt { nth, after });
            }
            for e in ERRNOS {
                add(Fault::Errors(vec![(nth, e)]));
                if e != libc::EINTR {
                    add(Fault::Persistent(nth, e));
                }
            }
            for one in [false, true] {
                for then in [0, libc::ENOSPC, libc::EIO] {
                    add(Fault::Short { nth, one, then });
                }
            }
        }
        // the calls of the threads in between; their number varies a little from run to run
        if i < 2 || thorough {
            for (thread, k) in r.counts.iter().enumerate() {
                for nth in 0..k + 8 {
                    for after in [false, true] {
                        add(Fault::Kill { thread, nth, after });
                    }
                }
            }
        }
        // two kills in a row
        if i < 1 || i == 3 || thorough {
            for nth in 0..n + 2 {
                for nth2 in 0..n + 4 {
                    for after in [false, true] {
                        for after2 in [false, true] {
                            add(Fault::KillTwice { nth, after, nth2, after2 });
                        }
                    }
                }
            }
        }
        // two failing calls
        let two: &[i32] = if thorough { &[libc::EIO, libc::EINTR, libc::ENOSPC] } else { &[libc::EIO] };
        for a in 0..n + 6 {
            for b in a + 1..n + 6 {
                for e in two {
                    add(Fault::Errors(vec![(a, *e), (b, libc::EIO)]));
                    if thorough {
                        add(Fault::Errors(vec![(a, *e), (b, libc::EINTR)]));
                    }
                }
            }
        }
    }
    Plan {
        cases,
        eval: Box::new(crash),
        rule: format!("{} scenarios ({total} system calls): a kill before and after every call touching the file and (for {}) every other call; each of {} errors, short transfers and lasting errors at every call touching the file; pairs of failing calls; a second run (with the same process identifier) after every kill; for two scenarios every pair of kills of two runs in a row", SCENARIOS.len(), if thorough { "all scenarios" } else { "two scenarios" }, ERRNOS.len()),
        derivations: 0,
        rejected: 0,
        assumptions: vec!["a kill leaves what the completed system calls have done (no power failure)", "an injected failure has no effect besides the error"],
        hang: 60,
    }
}

fn crash(c: &Case) -> Obs {
    let s = &SCENARIOS[c.src.parse::<usize>().unwrap()];
    let f = Fault::parse(&c.aux);
    let x = setup(s);
    let before = x.dir.list();
    let r = traced(&x.dir.0, &x.args, &f);
    let steps = r.counts.iter().sum::<usize>() as u64;
    let kind = match f {
        Fault::Kill { .. } | Fault::KillAt { .. } | Fault::KillTwice { .. } if r.hit => "a kill",
        _ if r.hit => "a failing call",
        _ => "no fault",
    };
    let last = r.calls.last().copied().unwrap_or("-");
    let bad = |what: String, detail: String| broken(steps, format!("{what} after {kind} ({last}) [{}]", s.name), format!("{}: {detail}; calls {:?}; exit {:?}", f.text(), r.calls, r.code));
    if r.stuck {
        return bad("WRITE never ends".into(), String::new());
    }
    let file = x.dir.0.join("F.cls");
    let now = match fs::read(&file) {
        Ok(b) => b,
        Err(e) => return bad("WRITE file lost".into(), e.to_string()),
    };
    let is_new = x.new.as_ref().map_or(false, |n| n.as_bytes() == now);
    let is_old = x.old.as_bytes() == now;
    if !is_new && !is_old {
        return bad("WRITE neither old nor new content".into(), format!("{} bytes: {:?}", now.len(), String::from_utf8_lossy(&now).chars().take(80).collect::<String>()));
    }
    let meta = fs::metadata(&file).unwrap();
    let mode = meta.permissions().mode() & 0o7777;
    if mode != x.mode {
        return bad("WRITE permissions changed".into(), format!("{:o} to {mode:o}", x.mode));
    }
    if (meta.uid(), meta.gid()) != x.owner && !r.chown_failed {
        return bad("WRITE owner changed".into(), format!("{:?} to {:?}", x.owner, (meta.uid(), meta.gid())));
    }
    if s.link && !fs::symlink_metadata(&file).map_or(false, |m| m.file_type().is_symlink()) {
        return bad("WRITE link replaced".into(), String::new());
    }
    let killed = f.kills() && r.hit;
    if !killed {
        match r.code {
            Some(0) if !is_new => return bad("WRITE success without the new content".into(), String::new()),
            Some(0 | 1) => {}
            _ => return bad("WRITE odd exit status".into(), String::new()),
        }
        if !r.hit && (r.code == Some(0)) != x.new.is_some() {
            return bad("WRITE wrong exit status".into(), String::new());
        }
        if x.dir.list() != before && !r.unlink_failed {
            return bad("WRITE stray files".into(), format!("{:?}", x.dir.list()));
        }
    } else if let Some(new) = &x.new {
        if let Fault::KillTwice { nth2, after2, .. } = f {
            let r = traced(&x.dir.0, &x.args, &Fault::KillAt { nth: nth2, after: after2 });
            let now = fs::read(&file).unwrap_or_default();
            let mode = fs::metadata(&file).map_or(0, |m| m.permissions().mode() & 0o7777);
            if now != new.as_bytes() && (now != x.old.as_bytes() || r.code == Some(0)) || mode != x.mode {
                return bad("WRITE neither old nor new content after two kills".into(), format!("exit {:?}, mode {mode:o}", r.code));
            }
            if !r.hit && r.code != Some(0) {
                return bad("WRITE the next run fails".into(), format!("exit {:?}", r.code));
            }
        }
        // the next run gets through, on its own and with the identifier of the killed one
        let r = traced(&x.dir.0, &x.args, &Fault::None);
        let now = fs::read(&file).unwrap_or_default();
        let m = fs::metadata(&file).unwrap();
        if r.code != Some(0) || now != new.as_bytes() || m.permissions().mode() & 0o7777 != x.mode || (m.uid(), m.gid()) != x.owner {
            return bad("WRITE the next run fails".into(), format!("exit {:?}", r.code));
        }
    }
    if f != Fault::None && !r.hit {
        return vacuous(steps, "the run ends before the fault");
    }
    held(steps, &format!("{} {kind} {last} {:?} new:{is_new}", s.name, r.code))
}
