//! C12: batches. The files of a batch are named pipes, so that the explorer decides which worker gets
//! its source, and thereby finishes, when: every order of completion is run.
use crate::cli::Dir;
use crate::engine::*;
use crate::exec;
use crate::props::*;
use sf_afmt::formatter::Formatter;
use std::collections::HashMap;
use std::fs;
use std::io::Write;
use std::os::unix::fs::OpenOptionsExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Kinds of files: name, content (none: the file does not exist).
const KINDS: [(&str, Option<&[u8]>); 7] = [
    ("tiny", Some(b"class A{}")),
    ("commented", Some(b"/* c */\nclass B { // d\n  void f() {\n\n    g(alphaBeta, gammaDelta, epsilonZeta, etaTheta, iotaKappa, lambdaMu, nuXi); // e\n    // f\n  }\n}\n")),
    ("malformed", Some(b"class C { void f( }")),
    ("missing", None),
    ("not utf-8", Some(b"class D { String s = '\xff'; }")),
    ("refused", Some(b"class E { void f() { if (a) { } // x\n else { } Integer /* y */ [] /* z */ i; @a(b = /* v */ {c}) d e; } }")),
    ("query", Some(b"class F { void f() { x = [SELECT Id FROM A WHERE b = :c ORDER BY d]; } }")),
];

fn orders(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for o in orders(n - 1) {
        for i in 0..n {
            let mut p = o.clone();
            p.insert(i, n - 1);
            out.push(p);
        }
    }
    out
}

pub fn c12(thorough: bool) -> Plan {
    let mut cases = vec![];
    let mut add = |mode: &str, kinds: &[usize], order: &[usize], width: u32| {
        let j = |v: &[usize]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        let mut c = Case::new(j(kinds), width, if width == 80 { 2 } else { 4 }, mode);
        c.aux = j(order);
        cases.push(c);
    };
    let k = KINDS.len();
    let max = if thorough { 4 } else { 3 };
    let mut combos: Vec<Vec<usize>> = vec![vec![]];
    for n in 0..=max {
        for c in &combos {
            for o in orders(n) {
                add("pipes", c, &o, 80);
                if n <= 2 {
                    add("pipes", c, &o, 20);
                }
            }
        }
        combos = combos.iter().flat_map(|c| (0..k).map(move |i| { let mut d = c.clone(); d.push(i); d })).collect();
        if n + 1 == 4 {
            // four files: the kinds which differ most
            combos.retain(|c| c.iter().all(|i| [0, 1, 2, 3].contains(i)));
        }
    }
    // five and six good files, every order; and with one bad file at every place, in rotated orders
    for n in [5, 6] {
        if n == 6 && !thorough {
            break;
        }
        let good: Vec<usize> = (0..n).map(|i| [0, 1, 6][i % 3]).collect();
        for o in orders(n) {
            add("pipes", &good, &o, 80);
        }
        for bad in [2, 3, 4, 5] {
            for at in 0..n {
                let mut v = good.clone();
                v[at] = bad;
                for r in 0..n {
                    let o: Vec<usize> = (0..n).map(|i| (i + r) % n).collect();
                    add("pipes", &v, &o, 80);
                    add("pipes", &v, &o.iter().rev().copied().collect::<Vec<_>>(), 80);
                }
            }
        }
    }
    // the last file arrives late
    for (kinds, order) in [(vec![0, 1], vec![0, 1]), (vec![1, 6], vec![1, 0]), (vec![2, 0, 1], vec![0, 1, 2]), (vec![1, 3, 6], vec![2, 0, 1])] {
        add("pipes, late", &kinds, &order, 80);
    }
    // the same file several times, and larger batches of ordinary files
    for dup in [vec![1, 1], vec![0, 1, 0], vec![2, 0, 2], vec![3, 3, 1], vec![1, 1, 1, 1]] {
        add("same path", &dup, &[], 80);
    }
    let mined = crate::mine::sizes(if thorough { 5000 } else { 1100 });
    for n in (7..=40).chain(mined).chain([50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257]).chain(if thorough { vec![500, 512, 513, 1000, 1024, 1025] } else { vec![] }) {
        let v: Vec<usize> = (0..n).map(|i| i * i % k).collect();
        add("files", &v, &[], 80);
        add("files", &vec![1; n], &[], 20);
    }
    Plan {
        cases,
        eval: Box::new(batch),
        rule: format!("every batch of up to {max} files of {k} kinds in every order of completion, five{} good files in every order, one bad file at every place, repeated paths, and batches of up to {} files", if thorough { " and six" } else { "" }, if thorough { 1025 } else { 257 }),
        derivations: 0,
        rejected: 0,
        assumptions: vec!["a worker finishes shortly after its pipe is closed, before the next pipe is opened (waited for, up to 30 ms)", "the result of a file on its own is that of a batch of one"],
        hang: 60,
    }
}

fn unlist(s: &str) -> Vec<usize> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

fn threads() -> usize {
    fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

type Results = Vec<Result<String, String>>;

fn open_pipe(p: &Path) -> Option<fs::File> {
    fs::OpenOptions::new().write(true).custom_flags(libc::O_NONBLOCK).open(p).ok()
}

fn feed(mut f: fs::File, content: &[u8]) {
    use std::os::fd::AsRawFd;
    unsafe {
        let fl = libc::fcntl(f.as_raw_fd(), libc::F_GETFL);
        libc::fcntl(f.as_raw_fd(), libc::F_SETFL, fl & !libc::O_NONBLOCK);
    }
    f.write_all(content).ok();
}

/// Run a batch; pipes are fed in the given order. The second value tells whether the order was kept.
fn run(files: Vec<PathBuf>, kinds: &[usize], order: &[usize], pipes: bool, late: bool, w: u32, i: u32) -> (Option<Results>, bool) {
    static EAGER: AtomicBool = AtomicBool::new(true); // all workers read at the same time
    let names: Vec<String> = files.iter().map(|p| p.to_string_lossy().to_string()).collect();
    let done = Arc::new(AtomicBool::new(false));
    let (d, n) = (done.clone(), names.clone());
    let t = std::thread::spawn(move || {
        let r = std::panic::catch_unwind(move || sf_afmt::format(Formatter::new(exec::config(w, i), n)));
        d.store(true, Ordering::SeqCst);
        r.ok()
    });
    let mut kept = true;
    if pipes {
        let mut fed = vec![false; files.len()];
        for (nth, &x) in order.iter().enumerate() {
            let Some(content) = KINDS[kinds[x]].1 else { continue };
            if late && nth + 1 == order.len() {
                std::thread::sleep(Duration::from_millis(5500));
            }
            let t0 = Instant::now();
            let wait = if EAGER.load(Ordering::SeqCst) { 100 } else { 1 };
            let f = loop {
                if let Some(f) = open_pipe(&files[x]) {
                    break Some(f);
                }
                if t0.elapsed() > Duration::from_millis(wait) || done.load(Ordering::SeqCst) {
                    break None;
                }
                std::thread::sleep(Duration::from_micros(50));
            };
            let Some(f) = f else {
                kept = false;
                EAGER.store(false, Ordering::SeqCst);
                continue;
            };
            let before = threads();
            feed(f, content);
            fed[x] = true;
            let t0 = Instant::now();
            while threads() >= before && t0.elapsed() < Duration::from_millis(30) && !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_micros(30));
            }
        }
        // whatever is still (or again) being read
        let t0 = Instant::now();
        while !done.load(Ordering::SeqCst) && t0.elapsed() < Duration::from_secs(20) {
            for (x, p) in files.iter().enumerate() {
                if fed[x] && t0.elapsed() < Duration::from_millis(200) {
                    continue;
                }
                if let (Some(content), Some(f)) = (KINDS[kinds[x]].1, open_pipe(p)) {
                    feed(f, content);
                    fed[x] = true;
                }
            }
            std::thread::sleep(Duration::from_micros(100));
        }
        if !done.load(Ordering::SeqCst) {
            return (None, kept);
        }
    }
    (t.join().ok().flatten(), kept)
}

/// What a file of this kind gives on its own.
fn alone(kind: usize, w: u32, i: u32) -> Result<String, String> {
    static MEMO: Mutex<Option<HashMap<(usize, u32, u32), Result<String, String>>>> = Mutex::new(None);
    if let Some(r) = MEMO.lock().unwrap().get_or_insert_with(HashMap::new).get(&(kind, w, i)) {
        return r.clone();
    }
    let dir = Dir::new();
    let p = dir.0.join("f.cls");
    if let Some(c) = KINDS[kind].1 {
        fs::write(&p, c).unwrap();
    }
    let r = plain(run(vec![p.clone()], &[kind], &[], false, false, w, i).0.and_then(|mut r| r.pop()).unwrap_or(Err("no result".into())), &p);
    MEMO.lock().unwrap().as_mut().unwrap().insert((kind, w, i), r.clone());
    r
}

/// Messages may name the file.
fn plain(r: Result<String, String>, p: &Path) -> Result<String, String> {
    r.map_err(|e| e.replace(&*p.to_string_lossy(), "FILE"))
}

fn batch(c: &Case) -> Obs {
    exec::install_hook();
    let kinds = unlist(&c.src);
    let order = unlist(&c.aux);
    let expect: Vec<_> = kinds.iter().map(|k| alone(*k, c.width, c.indent)).collect();
    let dir = Dir::new();
    let pipes = c.note.starts_with("pipes");
    let mut files = vec![];
    for (i, k) in kinds.iter().enumerate() {
        let p = dir.0.join(if c.note == "same path" { format!("k{k}.cls") } else { format!("f{i}.cls") });
        if let Some(b) = KINDS[*k].1 {
            if pipes {
                let s = std::ffi::CString::new(p.to_string_lossy().as_bytes()).unwrap();
                assert_eq!(unsafe { libc::mkfifo(s.as_ptr(), 0o600) }, 0, "mkfifo");
            } else {
                fs::write(&p, b).unwrap();
            }
        }
        files.push(p);
    }
    let (r, kept) = run(files.clone(), &kinds, &order, pipes, c.note == "pipes, late", c.width, c.indent);
    let n = kinds.len() as u64 + 1;
    let what = || format!("{} in order {}", kinds.iter().map(|k| KINDS[*k].0).collect::<Vec<_>>().join(", "), c.aux);
    let Some(r) = r else { return broken(n, "BATCH gave no results", what()) };
    if r.len() != expect.len() {
        return broken(n, format!("BATCH {} than one result per file", if r.len() < expect.len() { "less" } else { "more" }), format!("{} results for {}", r.len(), what()));
    }
    for (i, (a, b)) in r.into_iter().zip(&expect).enumerate() {
        let a = plain(a, &files[i]);
        if a != *b {
            let place = if expect.contains(&a) { "is another file's" } else { "differs from the result on its own" };
            return broken(n, format!("BATCH a result {place}"), format!("result {i} of {}: {a:?} instead of {b:?}", what()));
        }
    }
    if !kept {
        return vacuous(n, "results right, but the workers did not read in this order");
    }
    held(n, &what())
}
