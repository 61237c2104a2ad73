//! C18: histories of library calls on one thread, and interleavings of calls on several threads under
//! a scheduler that owns every switch between them (a switch may happen at any allocation).
use crate::alloc;
use crate::engine::*;
use crate::exec;
use crate::gram::Grammar;
use crate::props::*;
use sf_afmt::formatter::Formatter;
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Calls: source, width, indentation.
const CALLS: [(&str, &str, u32, u32); 14] = [
    ("tiny", "class A{}", 80, 2),
    ("commented", "/* one */ class B { // two\n  void f() {\n\n    g(alphaBeta, gammaDelta); // three\n    // four\n  }\n}\n", 80, 2),
    ("commented, narrow", "/* one */ class B { // two\n  void f() {\n\n    g(alphaBeta, gammaDelta); // three\n    // four\n  }\n}\n", 20, 4),
    ("same places, other comments", "/* uno */ class Z { // dos\n  void y() {\n\n    x(betaAlpha, deltaGamma); // trois\n    // cinq\n  }\n}\n", 80, 2),
    ("same places, no comments", "          class B {       \n  void f() {\n\n    g(alphaBeta, gammaDelta);         \n           \n  }\n}\n", 80, 2),
    ("malformed", "class C { void f( }", 80, 2),
    ("refused with comments", "class E { void f() { @a(b = /* v */ {c}) d e; } }", 80, 2),
    ("empty", "", 80, 2),
    ("only comments", "// a\n/* b */\n", 80, 2),
    ("query", "class F { void f() { x = [SELECT Id, (SELECT A FROM B) FROM C WHERE d = :e AND f IN (1,2) ORDER BY g]; } }", 40, 2),
    ("unicode", "class \u{e9} { String s = '\u{1f389}\u{fc}'; /* \u{1f389} */ }", 80, 2),
    ("trigger", "trigger T on Account(before insert,after update){ for(Account a:Trigger.new){a.x=1;} }", 80, 8),
    ("lone semicolon", "class G { void f() { ; /* x */ ; } ; }", 80, 2),
    ("deep", "class H { Integer i = ((((1 + (2 * (3 - x.y(z[0] ? a : b).c().d())))))); Object o = new Map<String, List<Id>>{ 'a' => new List<Id>{ b } }; }", 1, 3),
];

fn call(i: usize) -> Result<String, String> {
    let (_, s, w, n) = CALLS[i];
    std::panic::catch_unwind(|| Formatter::format_one(s, exec::config(w, n))).map_err(|_| exec::last_panic())
}

fn fresh(i: usize) -> Result<String, String> {
    static MEMO: Mutex<Option<HashMap<usize, Result<String, String>>>> = Mutex::new(None);
    if let Some(r) = MEMO.lock().unwrap().get_or_insert_with(HashMap::new).get(&i) {
        return r.clone();
    }
    let r = crate::pristine::format(CALLS[i].1, CALLS[i].2, CALLS[i].3);
    MEMO.lock().unwrap().as_mut().unwrap().insert(i, r.clone());
    r
}

fn list(v: &[usize]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn unlist(s: &str) -> Vec<usize> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

/// Sources and settings which are easily taken for the given ones: one character differs (so the length
/// and the places of all nodes are the same), or a comment does, or the settings do.
fn near(src: &str) -> Vec<(String, u32, u32)> {
    let c: Vec<char> = src.chars().collect();
    let mut out: Vec<(String, u32, u32)> = vec![];
    for i in 0..c.len() {
        let next = c.get(i + 1).copied().unwrap_or(' ');
        let word = |x: char| x.is_alphanumeric() || x == '_';
        let other = match c[i] {
            // the last character of a word, and any of a number
            'b' if !word(next) => 'q',
            x if x.is_ascii_digit() => if x == '7' { '1' } else { '7' },
            x if word(x) && !word(next) => 'b',
            ' ' => '\n',
            '\n' => ' ',
            _ => continue,
        };
        let mut d = c.clone();
        d[i] = other;
        out.push((d.iter().collect(), 80, 2));
    }
    for at in [0, c.len() / 2] {
        if let Some(p) = c[at..].iter().position(|x| x.is_whitespace()).map(|p| p + at) {
            for t in ["/* a */", "/* b */", "       "] {
                out.push((c[..p].iter().chain(&t.chars().collect::<Vec<_>>()).chain(&c[p..]).collect(), 80, 2));
            }
        }
    }
    out.push((c[..c.len() - c.len().min(2)].iter().collect(), 80, 2));
    out.extend([(20, 2), (80, 4), (1, 1), (20, 4)].map(|(w, i)| (src.to_string(), w, i)));
    out
}

pub fn c18(g: &Grammar, thorough: bool) -> Plan {
    let mut cases = vec![];
    // one thread, then another one: a source, one which is nearly the same, and the source again
    let sp = if thorough { crate::props::small(g) } else { crate::space::derive(g, &crate::props::any, 1, 0, false) };
    let mut nears = 0;
    for (_, s, w, i) in CALLS {
        cases.push(Case::new(s, w, i, "near"));
    }
    for p in &sp.progs {
        let s = crate::gram::layout_lines(&p.toks, crate::gram::CaseMode::Lower);
        nears += near(&s).len();
        cases.push(Case::new(s, 80, 2, "near"));
    }
    let k = CALLS.len();
    // one thread
    let depth = if thorough { 4 } else { 3 };
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..depth {
        seqs = seqs.iter().flat_map(|s| (0..k).map(move |i| { let mut d = s.clone(); d.push(i); d })).collect();
    }
    let histories = seqs.len();
    for s in seqs {
        cases.push(Case::new(list(&s), 0, 0, "history"));
    }
    // a call repeated often
    for i in 0..k {
        for n in [10, 100, if thorough { 5000 } else { 1000 }] {
            cases.push(Case::new(list(&vec![i; n]), 0, 0, "history"));
        }
    }
    // two threads; a case holds the preemption points from..to of the first thread
    exec::install_hook();
    // counted in a process of its own: this one, and so the workers, stay as they are
    let size: Vec<u64> = crate::pristine::apart(|| {
        let v: Vec<u64> = (0..k).map(|i| std::thread::spawn(move || { let a = alloc::count(); let _ = call(i); alloc::count() - a }).join().unwrap()).collect();
        v.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(",")
    })
    .split(',')
    .map(|n| n.parse().expect("counts"))
    .collect();
    let mut pre = 0;
    for a in 0..k {
        for b in 0..k {
            for p in (1..=size[a]).step_by(64) {
                let to = (p + 64).min(size[a] + 1);
                pre += to - p;
                let mut c = Case::new(format!("{a},{b}"), 0, 0, "one preemption");
                c.aux = format!("{p},{to}");
                cases.push(c);
            }
        }
    }
    // two preemptions: the first thread at p, the second at q, then the first again
    let n2 = if thorough { 300 } else { 64 };
    let mut pre2 = 0;
    for (a, b) in [(1, 3), (3, 1), (1, 4), (4, 1), (1, 2), (2, 1), (1, 5), (5, 1), (1, 6), (6, 3), (0, 1), (9, 9), (8, 1), (1, 1)] {
        for i in 0..n2 {
            let p = 1 + size[a] * i / n2;
            pre2 += n2;
            let mut c = Case::new(format!("{a},{b}"), 0, 0, "two preemptions");
            c.aux = (0..n2).map(|j| format!("{p}:{}", 1 + size[b] * j / n2)).collect::<Vec<_>>().join(",");
            cases.push(c);
        }
    }
    Plan {
        cases,
        eval: Box::new(c18_eval),
        rule: format!("{nears} histories of three calls on one thread and two on the next whose sources differ in one character, a comment or the settings; {histories} histories of {depth} calls out of {k} on one thread; on two threads {pre} schedules with one preemption (at every allocation of the preempted call) and {pre2} with two (at {n2} by {n2} evenly spaced allocations)"),
        derivations: 0,
        rejected: 0,
        assumptions: vec!["calls interact only at allocations: code between two allocations runs as one step", "a thread that waits for the preempted one for 200 ms is blocked by it, and both run on freely"],
        hang: 60,
    }
}

fn c18_eval(c: &Case) -> Obs {
    exec::install_hook();
    crate::pristine::start();
    if c.note == "near" {
        return near_eval(c);
    }
    let v = unlist(&c.src);
    let name = |i: usize| CALLS[i].0;
    match c.note.as_str() {
        "history" => {
            let expect: Vec<_> = v.iter().map(|i| fresh(*i)).collect();
            let w = v.clone();
            let Ok(got) = std::thread::Builder::new().stack_size(8 << 20).spawn(move || w.iter().map(|i| call(*i)).collect::<Vec<_>>()).unwrap().join() else {
                return broken(1, "HISTORY the thread died", "");
            };
            for (n, (a, b)) in got.iter().zip(&expect).enumerate() {
                if a != b {
                    let before = v[..n].iter().rev().take(3).map(|i| name(*i)).collect::<Vec<_>>().join(", ");
                    return broken(n as u64 + 1, format!("HISTORY a call gives another result after others [{}]", name(v[n])), format!("call {n} after {before}: {a:?} instead of {b:?}"));
                }
            }
            held(v.len() as u64, &c.src)
        }
        "one preemption" => {
            let r = unlist(&c.aux);
            let mut n = 0;
            for p in r[0]..r[1] {
                n += 2;
                if let Some(e) = interleave(v[0], v[1], p as u64, u64::MAX) {
                    return broken(n, format!("THREADS a call is disturbed by another thread [{} / {}]", name(v[0]), name(v[1])), format!("preempted at allocation {p}: {e}"));
                }
            }
            held(n, &format!("{} {}", c.src, c.aux))
        }
        _ => {
            let mut n = 0;
            for x in c.aux.split(',') {
                let (p, q) = x.split_once(':').unwrap();
                n += 2;
                if let Some(e) = interleave(v[0], v[1], p.parse().unwrap(), q.parse().unwrap()) {
                    return broken(n, format!("THREADS a call is disturbed by another thread [{} / {}]", name(v[0]), name(v[1])), format!("preempted at allocations {x}: {e}"));
                }
            }
            held(n, &format!("{} {}", c.src, c.aux))
        }
    }
}

fn near_eval(c: &Case) -> Obs {
    let want = crate::pristine::format(&c.src, c.width, c.indent);
    let mut n = 0;
    for (s, w, i) in near(&c.src) {
        let (first, second) = ((c.src.clone(), c.width, c.indent), (s, w, i));
        let other = crate::pristine::format(&second.0, w, i);
        let run = |calls: Vec<(String, u32, u32)>| {
            let f = move || {
                calls
                    .iter()
                    .map(|(s, w, i)| std::panic::catch_unwind(|| Formatter::format_one(s, exec::config(*w, *i))).map_err(|_| exec::last_panic()))
                    .collect::<Vec<_>>()
            };
            std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap().join().unwrap_or_default()
        };
        let got = [run(vec![first.clone(), second.clone(), first.clone()]), run(vec![second.clone(), first.clone()])];
        n += 6;
        if got != [vec![want.clone(), other.clone(), want.clone()], vec![other.clone(), want.clone()]] {
            return broken(n, "HISTORY a call gives another result after a similar one", format!("{:?} and {:?}: {got:?} instead of {want:?} and {other:?}", first, second));
        }
    }
    held(n, &c.src)
}

// --- the scheduler: a baton held by thread 0 or 1; the other one waits

static TURN: AtomicUsize = AtomicUsize::new(0);
static FREE: AtomicBool = AtomicBool::new(false);
static DONE: [AtomicBool; 2] = [AtomicBool::new(false), AtomicBool::new(false)];

thread_local! { static ME: Cell<usize> = const { Cell::new(0) }; }

fn wait_for_turn(me: usize) {
    let mut n = 0u32;
    let mut t0 = None;
    while TURN.load(SeqCst) != me && !FREE.load(SeqCst) && !DONE[1 - me].load(SeqCst) {
        n += 1;
        if n > 200 {
            std::thread::yield_now();
            if n % 64 == 0 && t0.get_or_insert_with(Instant::now).elapsed() > Duration::from_millis(200) {
                FREE.store(true, SeqCst);
            }
        } else {
            std::hint::spin_loop();
        }
    }
}

/// Hand the baton over and wait for its return (or for the end of the other thread).
fn switch() {
    let me = ME.get();
    TURN.store(1 - me, SeqCst);
    wait_for_turn(me);
}

/// Thread 0 runs to its `p`th allocation, thread 1 to its `q`th one, thread 0 to its end, thread 1 to
/// its end. Returns what differs from the calls on their own.
fn interleave(a: usize, b: usize, p: u64, q: u64) -> Option<String> {
    let expect = [fresh(a), fresh(b)];
    TURN.store(0, SeqCst);
    FREE.store(false, SeqCst);
    DONE[0].store(false, SeqCst);
    DONE[1].store(false, SeqCst);
    let run = |me: usize, i: usize, at: u64| {
        std::thread::spawn(move || {
            ME.set(me);
            wait_for_turn(me);
            alloc::stop_at(at, u64::MAX, switch);
            let r = call(i);
            alloc::no_stop();
            DONE[me].store(true, SeqCst);
            r
        })
    };
    let t = [run(0, a, p), run(1, b, q)];
    for (n, t) in t.into_iter().enumerate() {
        let r = t.join().unwrap_or_else(|_| Err("thread died".into()));
        if r != expect[n] {
            return Some(format!("thread {n}: {r:?} instead of {:?}", expect[n]));
        }
    }
    None
}
