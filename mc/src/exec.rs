//! Running the formatter under test.
use sf_afmt::formatter::{Config, Formatter};
use std::cell::RefCell;
use std::sync::Once;

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

static HOOK: Once = Once::new();

fn strip_ansi(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

pub fn install_hook() {
    HOOK.call_once(|| {
        std::panic::set_hook(Box::new(|i| {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            LAST_PANIC.with(|p| *p.borrow_mut() = m);
        }));
    });
}

pub fn config(width: u32, indent: u32) -> Config {
    let mut c = Config::new(width);
    c.indent_size = indent;
    c
}

/// The first line, without the source excerpt, of the last panic on this thread: it identifies the call site.
pub fn last_panic() -> String {
    let m = strip_ansi(&LAST_PANIC.with(|p| p.borrow().clone()));
    m.lines().next().unwrap_or("").trim().to_string()
}

/// Format on a thread of its own (the formatter keeps its source in thread-local storage).
pub fn format(src: &str, width: u32, indent: u32) -> Result<String, String> {
    install_hook();
    let s = src.to_string();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            std::panic::catch_unwind(|| Formatter::format_one(&s, config(width, indent))).map_err(|_| last_panic())
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| Err("thread died".into()))
}

/// Format with a stack of the default size, and count the allocations made.
pub fn measured(src: &str, width: u32, indent: u32) -> Result<(String, u64), String> {
    install_hook();
    let s = src.to_string();
    std::thread::spawn(move || {
        let a = crate::alloc::count();
        let r = std::panic::catch_unwind(|| Formatter::format_one(&s, config(width, indent)));
        let n = crate::alloc::count() - a;
        r.map(|o| (o, n)).map_err(|_| last_panic())
    })
    .join()
    .unwrap_or_else(|_| Err("thread died".into()))
}

/// What a call costs.
#[derive(Clone, Copy, Debug)]
pub struct Cost {
    pub allocations: u64,
    pub bytes: u64,
    pub micros: u64,
}

fn cpu() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000 + t.tv_nsec as u64 / 1000
}

/// Format and tell the cost.
pub fn cost(src: &str, width: u32, indent: u32) -> Result<Cost, String> {
    install_hook();
    let s = src.to_string();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let (a, b, t) = (crate::alloc::count(), crate::alloc::bytes(), cpu());
            let r = std::panic::catch_unwind(|| Formatter::format_one(&s, config(width, indent)));
            let c = Cost { allocations: crate::alloc::count() - a, bytes: crate::alloc::bytes() - b, micros: cpu() - t };
            r.map(|_| c).map_err(|_| last_panic())
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| Err("thread died".into()))
}

/// Run `f` with standard output and error discarded.
pub fn silently<T>(f: impl FnOnce() -> T) -> T {
    use std::io::Write;
    std::io::stdout().flush().ok();
    unsafe {
        let (o, e) = (libc::dup(1), libc::dup(2));
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 1);
        libc::dup2(n, 2);
        let r = f();
        std::io::stdout().flush().ok();
        libc::dup2(o, 1);
        libc::dup2(e, 2);
        libc::close(n);
        libc::close(o);
        libc::close(e);
        r
    }
}
