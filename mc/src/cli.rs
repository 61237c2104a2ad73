//! The command: histories of runs and edits (C11), configurations (C14), unreadable files (C05) and
//! interrupted or failing writes (C13). Everything happens in a scratch directory per case.
use crate::engine::*;
use crate::exec;
use crate::lexical;
use crate::props::*;
use serde_json::{json, Value};
use std::fs;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn binary() -> String {
    std::env::var("AFMT_BIN").unwrap_or_else(|_| "/verif/mc/target/cli/release/afmt".into())
}

pub struct Dir(pub PathBuf);

impl Dir {
    pub fn new() -> Dir {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let base = std::env::var("AFMT_MC_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
        let d = base.join(format!("c{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        fs::create_dir_all(&d).expect("scratch");
        Dir(d)
    }
    pub fn list(&self) -> Vec<String> {
        let mut v: Vec<String> = fs::read_dir(&self.0).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect();
        v.sort();
        v
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        fs::remove_dir_all(&self.0).ok();
    }
}

pub struct Out {
    pub code: i32,
    pub out: String,
    pub err: String,
}

pub fn afmt(dir: &Path, args: &[&str]) -> Out {
    let o = Command::new(binary()).args(args).current_dir(dir).stdin(Stdio::null()).output().expect("afmt binary");
    Out { code: o.status.code().unwrap_or(-1), out: String::from_utf8_lossy(&o.stdout).into(), err: String::from_utf8_lossy(&o.stderr).into() }
}

fn fmt(bytes: &[u8], w: u32, i: u32) -> Option<String> {
    exec::format(std::str::from_utf8(bytes).ok()?, w, i).ok()
}

const UGLY: &str = "public class A{Integer x=1;\n\n\n\nvoid f(){ foo(alphaBetaGamma,deltaEpsilonZeta,etaThetaIota); } // t\n}";

/// Initial contents of the file.
fn contents() -> Vec<(&'static str, Option<Vec<u8>>)> {
    let b = |s: &str| Some(s.as_bytes().to_vec());
    let formatted = exec::format(UGLY, 80, 2).expect("formats");
    let odd = exec::format(UGLY, 40, 4).expect("formats");
    vec![
        ("ugly", b(UGLY)),
        ("formatted", b(&formatted)),
        ("formatted for another configuration", b(&odd)),
        ("formatted but no final newline", b(formatted.trim_end())),
        ("formatted but two final newlines", b(&format!("{formatted}\n"))),
        ("formatted but crlf", b(&formatted.replace('\n', "\r\n"))),
        ("formatted but one trailing blank", b(&formatted.replacen("{\n", "{ \n", 1))),
        ("malformed", b("class A { void f( { }")),
        ("malformed at the end", b("class A {\n}\n}\n")),
        ("empty", b("")),
        ("blank", b("\n\n")),
        ("comments only", b("/* a */ // b")),
        ("not utf-8", Some(b"class A { String s = '\xff'; }".to_vec())),
        ("unicode", b("class A{String s='\u{fc}\u{1f389}';}")),
        ("missing", None),
        ("trigger", b("trigger T on Account(before insert){ update x; }")),
    ]
}

const OPS: &str = "dkwtcvxaeu";

/// Commands: arguments (`F` the file), whether the configuration is given, what is done.
const COMMANDS: [(char, &[&str], bool, char); 31] = [
    ('d', &["F"], false, 'd'),
    ('t', &["-t", "F"], false, 't'),
    ('k', &["--check", "F"], false, 'k'),
    ('w', &["--write", "F"], false, 'w'),
    ('c', &["-C", "-c", "cfg.toml", "F"], true, 'k'),
    ('v', &["-w", "-t", "--config", "cfg.toml", "F"], true, 'w'),
    ('x', &["-w", "-C", "F"], false, 'x'),
    ('A', &["-c", "cfg.toml", "F"], true, 'd'),
    ('B', &["-t", "-c", "cfg.toml", "F"], true, 't'),
    ('D', &["-C", "-t", "F"], false, 'k'),
    ('E', &["-C", "-t", "-c", "cfg.toml", "F"], true, 'k'),
    ('G', &["-w", "-t", "F"], false, 'w'),
    ('H', &["-w", "-c", "cfg.toml", "F"], true, 'w'),
    ('I', &["F", "-w"], false, 'w'),
    ('J', &["F", "--check", "--time"], false, 'k'),
    ('K', &["F", "-c", "cfg.toml"], true, 'd'),
    ('L', &["--config=cfg.toml", "--check", "F"], true, 'k'),
    ('M', &["-ccfg.toml", "F", "-w"], true, 'w'),
    ('N', &["-wt", "F"], false, 'w'),
    ('O', &["-tC", "F"], false, 'k'),
    ('P', &["-wc", "cfg.toml", "F"], true, 'w'),
    ('Q', &["-tc=cfg.toml", "F"], true, 't'),
    ('R', &["-w", "--", "F"], false, 'w'),
    ('S', &["-w", "-C", "-t", "F"], false, 'x'),
    ('T', &["-C", "--write", "-c", "cfg.toml", "F"], false, 'x'),
    ('U', &["-w", "F", "F"], false, 'x'),
    ('V', &["-w"], false, 'x'),
    ('W', &["--nonsense", "F"], false, 'x'),
    ('X', &["-w", "-w", "F"], false, 'x'),
    ('Y', &["--write=no", "F"], false, 'x'),
    ('Z', &["-t", "--time", "F"], false, 'x'),
];

pub fn c11(thorough: bool) -> Plan {
    let n = if thorough { 4 } else { 3 };
    let ops: Vec<char> = OPS.chars().collect();
    let mut seqs: Vec<String> = vec![String::new()];
    for _ in 0..n {
        seqs = seqs.iter().flat_map(|s| ops.iter().map(move |o| format!("{s}{o}"))).collect();
    }
    let mut cases = vec![];
    for (i, (name, _)) in contents().iter().enumerate() {
        for s in &seqs {
            let mut c = Case::new(format!("{i}"), 80, 2, *name);
            c.aux = s.clone();
            cases.push(c);
        }
    }
    // every pair of commands, and every command on a file which is formatted
    for (i, (name, _)) in contents().iter().enumerate() {
        for (a, ..) in COMMANDS {
            for (b, ..) in COMMANDS {
                for s in [format!("{a}{b}"), format!("u{a}{b}")] {
                    if thorough || i < 3 || i == 7 || s.len() == 2 {
                        let mut c = Case::new(format!("{i}"), 80, 2, *name);
                        c.aux = s;
                        cases.push(c);
                    }
                }
            }
        }
    }
    // a real file, by absolute path, through a link, with odd permissions
    for i in 0..contents().len() {
        for s in ["dkwk", "wk", "cvck", "xwk"] {
            for how in ["absolute", "link", "mode"] {
                let mut c = Case::new(format!("{i}"), 80, 2, how);
                c.aux = s.into();
                cases.push(c);
            }
        }
    }
    // names of files
    for name in NAMES {
        for i in [0, 1, 7] {
            for s in ["dkwk", "cvck", "twt"] {
                let mut c = Case::new(format!("{i}"), 80, 2, format!("named {name}"));
                c.aux = s.into();
                cases.push(c);
            }
        }
    }
    // sizes of files, at and next to those of buffers
    let mut sizes = crate::mine::sizes(70_000);
    for n in [8192, 12_288, 131_072, 262_144, 1 << 20] {
        sizes.extend([n - 1, n, n + 1]);
    }
    for n in sizes {
        for s in ["dkwkd", "ukd", "tvc", "1k", "2k", "3k", "3wk"] {
            for shape in ["long", "tall"] {
                if n >= sized(0, shape).len() + 30 && (shape == "long" || n < 70_000) {
                    let mut c = Case::new(format!("{shape} {n}"), 80, 2, "sized");
                    c.aux = s.into();
                    cases.push(c);
                }
            }
        }
    }
    Plan {
        cases,
        eval: Box::new(history),
        rule: format!("every history of {n} operations out of {} (dry run, check, write, with and without time and configuration, check+write, edit, break, replace by the formatted text) and every pair of {} spellings of the command from each of {} initial files; short histories with each of {} names of the file and with files (unformatted, formatted, and formatted but for two bytes at the start, in the middle or at the end) of sizes up to 1 MB, at and next to those of buffers and the numbers in the code; each step compared with a model of the file", ops.len(), COMMANDS.len(), contents().len(), NAMES.len()),
        derivations: 0,
        rejected: 0,
        assumptions: vec!["what the text of a file formats to is taken from the library, called in a fresh thread"],
        hang: 60,
    }
}

const NAMES: [&str; 22] = [
    "F.trigger", "F.apex", "F", ".cls", ".hidden", "F.CLS", "a b.cls", "\u{fc}\u{1f389}.cls", "a'b\"c.cls", "F.cls.cls", "F.bak", "F.tmp", "F.cls~", "#F.cls", "$F*?.cls", "./F.cls", "sub/F.cls", "sub/../F.cls", "sub/deep/er/F.cls", ".git/F.cls",
    "F-meta.xml", "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.cls",
];

/// A text of `n` bytes which is not formatted: one long line, or many lines.
fn sized(n: usize, shape: &str) -> String {
    let (a, z) = ("class A{ // ", "\nInteger  x;}\n");
    let left = n.saturating_sub(a.len() + z.len());
    if shape == "long" {
        return format!("{a}{}{z}", "x".repeat(left));
    }
    let line = "\nInteger  y;";
    let k = left / line.len();
    format!("{a}{}{}{z}", "x".repeat(left - k * line.len()), line.repeat(k))
}

fn history(c: &Case) -> Obs {
    let dir = Dir::new();
    let init = match c.src.split_once(' ') {
        Some((shape, n)) => Some(sized(n.parse().unwrap(), shape).into_bytes()),
        None => contents().swap_remove(c.src.parse().unwrap()).1,
    };
    let name = c.note.strip_prefix("named ").unwrap_or("F.cls");
    let file = dir.0.join(name);
    fs::create_dir_all(file.parent().unwrap()).unwrap();
    let real = if c.note == "link" { dir.0.join("real.txt") } else { file.clone() };
    if let Some(b) = &init {
        fs::write(&real, b).unwrap();
        if c.note == "mode" {
            fs::set_permissions(&real, fs::Permissions::from_mode(0o751)).unwrap();
        }
    }
    if c.note == "link" {
        std::os::unix::fs::symlink("real.txt", &file).unwrap();
    }
    fs::write(dir.0.join("cfg.toml"), "max_width = 40\nindent_size = 4\n").unwrap();
    let before = dir.list();
    let path = if c.note == "absolute" { file.to_string_lossy().to_string() } else { name.into() };
    let mut model = init;
    let mut n = 0;
    let mut trace = String::new();
    for op in c.aux.chars() {
        n += 1;
        let command = COMMANDS.iter().find(|c| c.0 == op);
        let (w, i) = if command.is_some_and(|c| c.2) { (40, 4) } else { (80, 2) };
        let want = model.as_deref().and_then(|b| fmt(b, w, i));
        let old = model.clone();
        let o = match command {
            Some((_, args, ..)) => afmt(&dir.0, &args.iter().map(|a| if *a == "F" { path.as_str() } else { a }).collect::<Vec<_>>()),
            _ => {
                match op {
                    'a' => {
                        if let Some(m) = &mut model {
                            m.extend(b"\nclass B {Integer  y ; }");
                        }
                    }
                    'e' => {
                        if let Some(m) = &mut model {
                            m.extend(b"\n}");
                        }
                    }
                    _ => {
                        if let Some(mut f) = want {
                            // formatted but for two bytes in the first, a middle or the last line
                            let ends: Vec<usize> = f.match_indices("\n  ").map(|m| m.0).collect();
                            let at = match op {
                                '1' => ends.first(),
                                '2' => ends.get(ends.len() / 2),
                                '3' => ends.last(),
                                _ => None,
                            };
                            if let Some(at) = at {
                                f.replace_range(*at..*at + 3, " \n ");
                            }
                            model = Some(f.into_bytes());
                        }
                    }
                }
                if let Some(m) = &model {
                    fs::write(&real, m).unwrap();
                }
                continue;
            }
        };
        trace.push_str(&format!("{op}: exit {}\n{}{}\n", o.code, o.out, o.err));
        let fault = |s: &str| format!("COMMAND {s} (operation {op})");
        let what = command.unwrap().3;
        let (code, writes) = match what {
            'x' => (2, false),
            'k' => (if want.as_ref().map(|s| s.as_bytes()) == old.as_deref() && old.is_some() { 0 } else { 1 }, false),
            'w' => (want.is_none() as i32, true),
            _ => (want.is_none() as i32, false),
        };
        if what == 'x' {
            if o.code == 0 {
                return broken(n, fault("accepts arguments which make no sense"), trace);
            }
        } else if o.code != code {
            return broken(n, fault(&format!("exit status {} instead of {code}", o.code)), trace);
        }
        if o.code != 0 && o.err.trim().is_empty() {
            return broken(n, fault("fails without a message"), trace);
        }
        if matches!(what, 'd' | 't') {
            if let Some(f) = &want {
                let rest = o.out.strip_prefix(f.as_str());
                let ok = rest.map_or(false, |r| if what == 'd' { r.trim().is_empty() } else { r.trim().lines().count() == 1 });
                if !ok {
                    return broken(n, fault("does not print the formatted text"), format!("{trace}\nexpected\n{f}"));
                }
            }
        }
        if writes {
            if let Some(f) = want {
                model = Some(f.into_bytes());
            }
        }
        let now = fs::read(&real).ok();
        if now != model {
            return broken(n, fault("leaves a different file"), format!("{trace}\nexpected\n{:?}\ngot\n{:?}", model.map(|b| String::from_utf8_lossy(&b).to_string()), now.map(|b| String::from_utf8_lossy(&b).to_string())));
        }
        if dir.list() != before {
            return broken(n, fault("leaves other files behind"), format!("{trace}\n{:?}", dir.list()));
        }
        if c.note == "mode" && model.is_some() && fs::metadata(&real).unwrap().permissions().mode() & 0o777 != 0o751 {
            return broken(n, fault("changes the permissions"), trace);
        }
        if c.note == "link" && !fs::symlink_metadata(&file).unwrap().file_type().is_symlink() {
            return broken(n, fault("replaces a link"), trace);
        }
    }
    held(n, &trace)
}

// ---------------------------------------------------------------- C05

const MODES: [&[&str]; 12] = [&[], &["-w"], &["-C"], &["-t"], &["-w", "-t"], &["-w", "-c", "cfg.toml"], &["-C", "-t"], &["-c", "cfg.toml"], &["-C", "-c", "cfg.toml"], &["-t", "-c", "cfg.toml"], &["-C", "-t", "-c", "cfg.toml"], &["-w", "-t", "-c", "cfg.toml"]];

/// Unreadable files in every mode.
pub fn c05_cases() -> Vec<Case> {
    let mut v = vec![];
    for m in 0..MODES.len() {
        for what in ["missing", "directory", "not utf-8", "utf-16", "dangling link", "half a character at the end", "nul bytes"] {
            let mut c = Case::new("", 80, 2, what);
            c.aux = format!("cli {m}");
            v.push(c);
        }
        for src in ["class A { void f( { }", "class A {", "}", "class", "class A { Integer x = ; }", "class A { String s = 'abc; }", "class A { /* open }", "class A { void f() { if } }", "select x from y", "class A { } garbage !", "class A { void f() { x = 1 } }", "class A { Integer x; } class", "trigger T { }", "class A { /* c */ Integer = 3; // d\n}", "cl\u{e4}ss A {}", "<html>", "{\"json\": 1}", "class A { void f() { [SELECT FROM x]; } }", "@", "class A { @ Integer x; }", "class A { Integer x,; }", "enum E { A B }", "class A extends { }", "class A { void f() { for (;) {} } }", "class A { void f() { switch on x { when { } } }"] {
            let mut c = Case::new(src, 80, 2, "malformed");
            c.aux = format!("cli {m}");
            v.push(c);
        }
    }
    v
}

pub fn c05(c: &Case) -> Obs {
    let Some(m) = c.aux.strip_prefix("cli ") else { return lexical::malformed(c) };
    if c.note == "malformed" && crate::oracle::valid(&c.src) {
        return vacuous(0, "still valid");
    }
    let dir = Dir::new();
    let f = dir.0.join("F.cls");
    let bytes: Option<Vec<u8>> = match c.note.as_str() {
        "malformed" => Some(c.src.as_bytes().to_vec()),
        "not utf-8" => Some(b"class A { String s = '\xe9'; }\n".to_vec()),
        "utf-16" => Some("\u{feff}class A {}\n".encode_utf16().flat_map(|u| u.to_le_bytes()).collect()),
        "half a character at the end" => Some(b"class A {} // \xc3".to_vec()),
        "nul bytes" => Some(b"class A { \0\0 Integer x; }\n".to_vec()),
        _ => None,
    };
    match c.note.as_str() {
        "directory" => fs::create_dir(&f).unwrap(),
        "dangling link" => std::os::unix::fs::symlink("nowhere", &f).unwrap(),
        _ => {}
    }
    if let Some(b) = &bytes {
        fs::write(&f, b).unwrap();
    }
    fs::write(dir.0.join("cfg.toml"), "max_width = 40\n").unwrap();
    let before = dir.list();
    let mut args = MODES[m.parse::<usize>().unwrap()].to_vec();
    args.push("F.cls");
    let o = afmt(&dir.0, &args);
    let seen = format!("{args:?} exit {}\n{}\n{}", o.code, o.out, o.err);
    if o.code != 1 {
        return broken(1, format!("REFUSAL exit status {} for {}", o.code, c.note), seen);
    }
    if o.err.trim().is_empty() {
        return broken(1, "REFUSAL without a message", seen);
    }
    if fs::read(&f).ok() != bytes || dir.list() != before {
        return broken(1, "REFUSAL changes files", seen);
    }
    held(1, &seen)
}

// ---------------------------------------------------------------- C14

const WIDTHS: [(&str, Option<u32>); 19] = [
    ("", Some(80)),
    ("0", Some(0)),
    ("1", Some(1)),
    ("20", Some(20)),
    ("38", Some(38)),
    ("39", Some(39)),
    ("40", Some(40)),
    ("79", Some(79)),
    ("80", Some(80)),
    ("81", Some(81)),
    ("120", Some(120)),
    ("0x50", Some(80)),
    ("4294967295", Some(u32::MAX)),
    ("4294967296", None),
    ("-1", None),
    ("80.0", None),
    ("\"80\"", None),
    ("true", None),
    ("[80]", None),
];

const INDENTS: [(&str, Option<u32>); 12] = [("", Some(2)), ("0", None), ("1", Some(1)), ("2", Some(2)), ("3", Some(3)), ("4", Some(4)), ("8", Some(8)), ("-2", None), ("2.5", None), ("\"4\"", None), ("false", None), ("4294967296", None)];

/// Complete files which are not a pair of settings: (text, expected settings).
fn oddities() -> Vec<(Vec<u8>, Option<(u32, u32)>)> {
    let t = |s: &str| s.as_bytes().to_vec();
    vec![
        (t(""), Some((80, 2))),
        (t("\n# nothing\n"), Some((80, 2))),
        (t("max_width = 100\r\nindent_size = 4\r\n"), Some((100, 4))),
        (t("indent_size=4"), Some((80, 4))),
        (t("max_width=41 # comment"), Some((41, 2))),
        (t("\"max_width\" = 30"), Some((30, 2))),
        (t("unknown = 3\nmax_width = 30"), Some((30, 2))),
        (t("max_width = 1_0_0"), Some((100, 2))),
        (t("max_width 30"), None),
        (t("max_width ="), None),
        (t("max_width = 30\nmax_width = 40"), None),
        (t("[a]\nmax_width = 30"), Some((80, 2))),
        (t("{\"max_width\": 30}"), None),
        (t("max_width = 30\n]"), None),
        (b"max_width = 30 # \xff".to_vec(), None),
        (t("indent_size = \n max_width = 30"), None),
        (t("max-width = 30\nindent-size = 7"), Some((80, 2))),
    ]
}

const PROBE: &str = "class A {\n  Integer f() {\n    return alphaBeta(gammaDelta, eps, zetaEta);\n    if (a) { for (Integer i : bs) { call(aaaaaaaaaaaaaaaaaa, bbbbbbbbbbbbbbbbbbbbbb, cccccccccccccccccc, ddddddddddddd, eeeeeeeeeeeeeeeeeeee); } }\n    x = alphaBetaGammaDeltaEpsilon + zetaEtaThetaIotaKappaLambda + muNuXiOmicronPiRho1;\n    y = alphaBetaGammaDeltaEpsilon + zetaEtaThetaIotaKappaLambda + muNuXiOmicronPiRho;\n  }\n}\n";

/// A text already in its final form under these settings, but for the call of `g`, which is one column too wide.
fn edge(w: u32, i: u32) -> String {
    let (w, i) = (w as usize, i as usize);
    let call = |f: &str, n: usize| {
        let left = n - 2 * i - "f(, b);".len();
        format!("{}{f}({}, b);\n", " ".repeat(2 * i), "a".repeat(left))
    };
    format!("class A {{\n{0}void f() {{\n{1}{2}{0}}}\n}}\n", " ".repeat(i), call("f", w), call("g", w + 1))
}

pub fn c14(thorough: bool) -> Plan {
    let mut cases = vec![];
    let mut add = |text: Vec<u8>, want: Option<(u32, u32)>, how: &str| {
        for m in ["d", "k", "w", "t", "kt", "wt"] {
            let mut c = Case::new(PROBE, want.map_or(0, |w| w.0), want.map_or(0, |w| w.1), format!("{m} {how}"));
            c.aux = json!({"cfg": text, "ok": want.is_some()}).to_string();
            cases.push(c);
        }
    };
    for (ws, w) in WIDTHS {
        for (is, i) in INDENTS {
            for order in [0, 1] {
                let a = if ws.is_empty() { String::new() } else { format!("max_width = {ws}\n") };
                let b = if is.is_empty() { String::new() } else { format!("indent_size = {is}\n") };
                let t = if order == 0 { format!("{a}{b}") } else { format!("{b}{a}") };
                add(t.into_bytes(), w.and_then(|w| i.map(|i| (w, i))), "file");
            }
        }
    }
    // every setting alone
    let top = if thorough { 200 } else { 120 };
    for w in 1..=top {
        add(format!("max_width = {w}\n").into_bytes(), Some((w, 2)), "file");
    }
    for w in crate::mine::sizes(u32::MAX as usize) {
        if w > top as usize {
            add(format!("max_width = {w}\n").into_bytes(), Some((w as u32, 2)), "file");
        }
        if w > 16 && w < 70_000 {
            add(format!("indent_size = {w}\n").into_bytes(), Some((80, w as u32)), "file");
        }
    }
    for i in 1..=16 {
        add(format!("indent_size = {i}\n").into_bytes(), Some((80, i)), "file");
    }
    for (t, w) in oddities() {
        add(t, w, "file");
    }
    for how in ["absolute", "hidden", "sub", "long", "glued", "link", "odd name"] {
        for (w, i) in [(39, 3), (80, 2), (120, 4)] {
            add(format!("max_width = {w}\nindent_size = {i}\n").into_bytes(), Some((w, i)), how);
        }
        add(b"max_width = x".to_vec(), None, how);
    }
    add(vec![], Some((80, 2)), "none");
    add(vec![], None, "missing");
    add(vec![], None, "directory");
    // lines of exactly the width, and one longer
    let mut edges = vec![];
    for w in (30..=if thorough { 2100 } else { 600 }).chain([1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 10000, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 100000]) {
        edges.push((w, [2, 1, 3, 4, 8][w as usize % 5]));
    }
    for i in (1..=64).chain([99, 100, 127, 128, 255, 256, 257, 1000]) {
        edges.push((2 * i + 40, i));
        edges.push((100.max(2 * i + 14), i));
    }
    for (w, i) in edges {
        let mut c = Case::new(edge(w, i), w, i, "e file");
        c.aux = json!({"cfg": format!("max_width = {w}\nindent_size = {i}\n").into_bytes(), "ok": true}).to_string();
        cases.push(c);
    }
    for big in [65535u32, 65536, 1 << 24, 1 << 31, u32::MAX] {
        let mut c = Case::new(edge(50000, 2).lines().filter(|l| !l.contains("  g(")).map(|l| format!("{l}\n")).collect::<String>(), big, 2, "e file");
        c.aux = json!({"cfg": format!("max_width = {big}\n").into_bytes(), "ok": true}).to_string();
        cases.push(c);
    }
    Plan {
        cases,
        eval: Box::new(configured),
        rule: "every pair of 19 width values and 12 indentation values in both orders, every width up to 120 and indentation up to 16 alone, every width up to 600 and indentation up to 64 and boundaries beyond with lines of exactly the width and one column more, 17 odd files, no file, a missing file and a directory, seven ways to name the file; each with and without time in dry run, check and write mode".into(),
        derivations: 0,
        rejected: 0,
        assumptions: vec!["what a text formats to under given settings is taken from the library, called in a fresh thread"],
        hang: 60,
    }
}

fn configured(c: &Case) -> Obs {
    let v: Value = serde_json::from_str(&c.aux).unwrap();
    let text: Vec<u8> = v["cfg"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
    let ok = v["ok"].as_bool().unwrap();
    let (mode, how) = c.note.split_once(' ').unwrap();
    let dir = Dir::new();
    let f = dir.0.join("F.cls");
    fs::write(&f, &c.src).unwrap();
    match how {
        "file" => fs::write(dir.0.join("cfg.toml"), &text).unwrap(),
        "directory" => fs::create_dir(dir.0.join("cfg.toml")).unwrap(),
        _ => {}
    }
    // files of that name next to the source must not count unless they are given
    for name in [".afmt.toml", "afmt.toml", "F.toml"] {
        fs::write(dir.0.join(name), "max_width = 33\nindent_size = 5\n").unwrap();
    }
    let full = dir.0.join("cfg.toml").to_string_lossy().to_string();
    let (given, place): (Vec<&str>, &str) = match how {
        "none" => (vec![], ""),
        "absolute" => (vec!["-c", &full], "cfg.toml"),
        "hidden" => (vec!["--config", ".afmt.toml"], ".afmt.toml"),
        "sub" => (vec!["-c", "a/../a/b/c.toml"], "a/b/c.toml"),
        "long" => (vec!["--config=cfg.toml"], "cfg.toml"),
        "glued" => (vec!["-ccfg.toml"], "cfg.toml"),
        "link" => (vec!["-c", "link"], "real"),
        "odd name" => (vec!["-c", "\u{fc} $x.json"], "\u{fc} $x.json"),
        _ => (vec!["-c", "cfg.toml"], ""),
    };
    if !place.is_empty() {
        fs::create_dir_all(dir.0.join(place).parent().unwrap()).unwrap();
        fs::write(dir.0.join(place), &text).unwrap();
        if how == "link" {
            std::os::unix::fs::symlink("real", dir.0.join("link")).unwrap();
        }
    }
    let before = dir.list();
    let mut args = given;
    args.extend(match mode {
        "k" => vec!["-C"],
        "w" => vec!["-w"],
        "t" => vec!["-t"],
        "kt" => vec!["-C", "-t"],
        "wt" => vec!["-t", "-w"],
        _ => vec![],
    });
    args.push("F.cls");
    let want = if ok { exec::format(&c.src, c.width, c.indent).ok() } else { None };
    let mut n = 1;
    let o = afmt(&dir.0, &args);
    let seen = format!("{args:?} {:?} exit {}\n{}\n{}", String::from_utf8_lossy(&text), o.code, o.out, o.err);
    let now = fs::read_to_string(&f).unwrap();
    if dir.list() != before {
        return broken(n, "CONFIG leaves other files behind", seen);
    }
    let Some(want) = want else {
        if ok {
            return vacuous(n, "the library refuses the settings");
        }
        if o.code != 1 || o.err.trim().is_empty() {
            return broken(n, "CONFIG unusable configuration not refused", seen);
        }
        if now != c.src || !o.out.trim().is_empty() {
            return broken(n, "CONFIG work done although the configuration is refused", seen);
        }
        return held(n, &seen);
    };
    let fine = match mode {
        "e" => {
            let pad = " ".repeat(c.indent as usize);
            let lines: Vec<String> = c.src.lines().map(str::to_string).collect();
            let exact: Vec<String> = lines
                .iter()
                .flat_map(|l| match l.trim_start().strip_prefix("g(").and_then(|r| r.strip_suffix(", b);")) {
                    Some(a) => vec![format!("{pad}{pad}g("), format!("{pad}{pad}{pad}{a},"), format!("{pad}{pad}{pad}b"), format!("{pad}{pad});")],
                    None => vec![l.clone()],
                })
                .collect();
            o.code == 0 && o.out.trim_end() == exact.join("\n")
        }
        "d" => o.code == 0 && o.out.trim_end() == want.trim_end() && now == c.src,
        "t" => o.code == 0 && o.out.starts_with(&want) && now == c.src,
        "w" | "wt" => o.code == 0 && now == want,
        _ => {
            // check against the text itself and against the formatted text
            let first = o.code == if want == c.src { 0 } else { 1 };
            fs::write(&f, &want).unwrap();
            n += 1;
            first && now == c.src && afmt(&dir.0, &args).code == if exec::format(&want, c.width, c.indent).ok().as_ref() == Some(&want) { 0 } else { 1 }
        }
    };
    if !fine {
        return broken(n, format!("CONFIG not honoured in mode {mode}"), format!("{seen}\nexpected width {} indent {}\n{want}", c.width, c.indent));
    }
    held(n, &seen)
}
