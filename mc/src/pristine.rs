//! Results from a pristine process: a server, forked before the first call of the code under test, forks
//! a process of its own for every request. No state that the code under test keeps, on a thread or in the
//! process, can be in the answer.
use crate::exec;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::Mutex;

struct Server {
    owner: u32,
    req: File,
    resp: File,
}

static SERVER: Mutex<Option<Server>> = Mutex::new(None);

fn pipe() -> (File, File) {
    let mut p = [0; 2];
    unsafe {
        assert_eq!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC), 0);
        (File::from_raw_fd(p[0]), File::from_raw_fd(p[1]))
    }
}

fn put(f: &mut File, s: &[u8]) -> std::io::Result<()> {
    f.write_all(&(s.len() as u64).to_le_bytes())?;
    f.write_all(s)
}

fn get(f: &mut File) -> std::io::Result<Vec<u8>> {
    let mut n = [0; 8];
    f.read_exact(&mut n)?;
    let mut v = vec![0; u64::from_le_bytes(n) as usize];
    f.read_exact(&mut v)?;
    Ok(v)
}

fn serve(mut req: File, mut resp: File) -> ! {
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    while let Ok(r) = get(&mut req) {
        let (mut from, to) = pipe();
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            drop(from);
            let w = u32::from_le_bytes(r[..4].try_into().unwrap());
            let i = u32::from_le_bytes(r[4..8].try_into().unwrap());
            let s = String::from_utf8_lossy(&r[8..]);
            let (k, t) = match exec::format(&s, w, i) {
                Ok(t) => ("o", t),
                Err(e) => ("e", e),
            };
            let mut to = to;
            put(&mut to, format!("{k}{t}").as_bytes()).ok();
            unsafe { libc::_exit(0) }
        }
        drop(to);
        let a = get(&mut from).unwrap_or_else(|_| b"ethread died".to_vec());
        unsafe {
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
        }
        if put(&mut resp, &a).is_err() {
            break;
        }
    }
    unsafe { libc::_exit(0) }
}

/// Start the server of this process; to be called before the code under test runs in it.
pub fn start() {
    let mut s = SERVER.lock().unwrap();
    if s.as_ref().map_or(false, |s| s.owner == std::process::id()) {
        return;
    }
    let (req_r, req_w) = pipe();
    let (resp_r, resp_w) = pipe();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        drop(req_w);
        drop(resp_r);
        serve(req_r, resp_w);
    }
    *s = Some(Server { owner: std::process::id(), req: req_w, resp: resp_r });
}

pub fn format(src: &str, width: u32, indent: u32) -> Result<String, String> {
    start();
    let mut s = SERVER.lock().unwrap();
    let s = s.as_mut().unwrap();
    let mut m = width.to_le_bytes().to_vec();
    m.extend(indent.to_le_bytes());
    m.extend(src.as_bytes());
    put(&mut s.req, &m).expect("server");
    let a = String::from_utf8(get(&mut s.resp).expect("server")).unwrap();
    match a.strip_prefix('o') {
        Some(t) => Ok(t.into()),
        None => Err(a[1..].into()),
    }
}

/// What `f` gives, run in a process of its own with its output discarded.
pub fn apart(f: impl FnOnce() -> String) -> String {
    std::io::stdout().flush().ok();
    let (mut from, mut to) = pipe();
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        let t = exec::silently(f);
        put(&mut to, t.as_bytes()).ok();
        unsafe { libc::_exit(0) }
    }
    drop(to);
    let a = get(&mut from).unwrap_or_default();
    unsafe {
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
    }
    String::from_utf8(a).unwrap()
}
