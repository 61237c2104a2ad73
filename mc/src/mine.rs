//! Constants of the code as a dimension of the space: every number which the code under test compares
//! with something is a candidate for a boundary, every word in it a candidate for a special case. They
//! are read off the sources in /repo and join a fixed list; the programs built from them are checked like
//! all others, so the constants guide the exploration and never decide a verdict.
use crate::engine::*;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

fn sources(d: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    let mut ps: Vec<_> = rd.filter_map(|e| e.ok().map(|e| e.path())).collect();
    ps.sort();
    for p in ps {
        if p.is_dir() {
            sources(&p, out);
        } else if p.extension().map_or(false, |e| e == "rs") {
            out.push(p);
        }
    }
}

/// Numbers and string literals of the code (comments skipped).
fn read() -> (BTreeSet<usize>, BTreeSet<String>) {
    let (mut nums, mut words) = (BTreeSet::new(), BTreeSet::new());
    let mut ps = vec![];
    // the number before, when an operator follows it (`2 * 1024 * 1024`, `1 << 16`)
    let mut left: Option<(usize, char)> = None;
    sources(Path::new("/repo/src"), &mut ps);
    for p in ps {
        let s: Vec<char> = std::fs::read_to_string(&p).unwrap_or_default().chars().collect();
        let at = |i: usize| s.get(i).copied().unwrap_or('\0');
        let mut i = 0;
        while i < s.len() {
            let c = s[i];
            if c == '/' && at(i + 1) == '/' {
                while i < s.len() && s[i] != '\n' {
                    i += 1;
                }
            } else if c == '"' {
                let mut w = String::new();
                i += 1;
                while i < s.len() && s[i] != '"' {
                    if s[i] == '\\' {
                        i += 1;
                        w.push(match at(i) {
                            'n' => '\n',
                            't' => '\t',
                            'r' => '\r',
                            x => x,
                        });
                    } else {
                        w.push(s[i]);
                    }
                    i += 1;
                }
                words.insert(w);
                i += 1;
            } else if c == '\'' && at(i + 2) == '\'' && at(i + 1) != '\\' {
                words.insert(at(i + 1).to_string());
                i += 3;
            } else if c == '\'' && at(i + 1) == '\\' && at(i + 3) == '\'' {
                i += 4;
            } else if c.is_ascii_digit() {
                let mut t = String::new();
                while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                    t.push(at(i));
                    i += 1;
                }
                let t: String = t.replace('_', "").to_ascii_lowercase();
                let n = match t.strip_prefix("0x") {
                    Some(h) => usize::from_str_radix(h, 16).ok(),
                    None => t.split(|c: char| !c.is_ascii_digit()).next().and_then(|d| d.parse().ok()),
                };
                let n = match (left.take(), n) {
                    (Some((a, '*')), Some(n)) => {
                        nums.insert(n);
                        Some(a.saturating_mul(n))
                    }
                    (Some((a, '<')), Some(n)) if n < 40 => a.checked_shl(n as u32),
                    (_, n) => n,
                };
                nums.extend(n);
                let mut j = i;
                while at(j) == ' ' {
                    j += 1;
                }
                let op = at(j);
                if let (Some(n), true) = (n, op == '*' || op == '<' && at(j + 1) == '<') {
                    let mut k = if op == '*' { j + 1 } else { j + 2 };
                    while at(k) == ' ' {
                        k += 1;
                    }
                    if at(k).is_ascii_digit() {
                        left = Some((n, op));
                        i = k;
                    }
                }
            } else if c.is_alphabetic() || c == '_' {
                while at(i).is_alphanumeric() || at(i) == '_' {
                    i += 1;
                }
            } else {
                i += 1;
            }
        }
    }
    (nums, words)
}

/// Sizes at and next to which something may change, up to `max`.
pub fn sizes(max: usize) -> Vec<usize> {
    let mut v: BTreeSet<usize> = (2..=21).collect();
    for n in [26, 32, 40, 50, 64, 80, 100, 120, 128, 200, 256, 300, 400, 500, 512, 1000, 1024, 2048, 4096, 10_000, 16_384, 32_768, 65_536] {
        v.extend([n - 1, n, n + 1]);
    }
    for n in read().0 {
        v.extend([n.saturating_sub(1), n, n.saturating_add(1)]);
    }
    v.into_iter().filter(|n| *n > 1 && *n <= max).collect()
}

/// String literals of the code, up to 40 characters.
pub fn words() -> Vec<String> {
    let odd = ["\t", "\r", "\r\n", "\u{feff}", "\u{a0}", "a\tb", "*/", "/*", "//", "'", "\\", "\0", "\u{2028}", "\u{85}", "/**", "/**/", "*", "**", "{}", "\u{1f389}", "a  b", " a", "a ", "\u{b}", "\u{c}", "// x", "x */", "*x", "* x", "-", "--", "prettier-ignore", "#", "@", "\u{1b}[31m", "a\nb", "\n * a", ";", ",", "}", "{", ")", "("];
    read().1.into_iter().chain(odd.map(String::from)).filter(|w| !w.trim().is_empty() && w.chars().count() <= 40).collect()
}

fn rep(n: usize, sep: &str, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect::<Vec<_>>().join(sep)
}

fn stmt(s: String) -> String {
    format!("class W {{\nvoid w ( ) {{\n{s}\n}}\n}}\n")
}

/// Programs with `n` of something, one per kind of list.
pub fn counted(n: usize) -> Vec<(String, String)> {
    let e = |s: String| stmt(format!("v = {s} ;"));
    let q = |s: String| stmt(format!("v = [ {s} ] ;"));
    let l = |p: &str, sep: &str| rep(n, sep, |i| format!("{p}{i}"));
    let mut v: Vec<(&str, String)> = vec![
        ("statements", stmt(l("a = b", " ;\n") + " ;")),
        ("members", format!("class W {{\n{} ;\n}}\n", l("Integer a", " ;\n"))),
        ("methods", format!("class W {{\n{}\n}}\n", rep(n, "\n", |i| format!("void f{i} ( ) {{\n}}")))),
        ("classes", format!("class W {{\n{}\n}}\n", rep(n, "\n", |i| format!("class F{i} {{\n}}")))),
        ("arguments", e(format!("f ( {} )", l("a", " , ")))),
        ("parameters", format!("class W {{\nvoid w ( {} ) {{\n}}\n}}\n", l("Integer a", " , "))),
        ("array", e(format!("new Integer [ ] {{ {} }}", l("", " , ")))),
        ("list", e(format!("new List < A > {{ {} }}", l("a", " , ")))),
        ("map", e(format!("new Map < A , B > {{ {} }}", rep(n, " , ", |i| format!("a{i} => b{i}"))))),
        ("constants", format!("enum E {{ {} }}\n", l("A", " , "))),
        ("plus", e(l("a", " + "))),
        ("and", stmt(format!("if ( {} ) {{\n}}", l("a", " && ")))),
        ("or", stmt(format!("return {} ;", l("a == b", " || ")))),
        ("calls", e(format!("a{}", rep(n, "", |i| format!(" . f{i} ( )"))))),
        ("calls with arguments", stmt(format!("a . b{} ;", rep(n, "", |i| format!(" . f{i} ( x , {i} )"))))),
        ("fields", e(format!("a{}", rep(n, "", |i| format!(" . f{i}"))))),
        ("safe fields", e(format!("a{}", rep(n, "", |i| format!(" ?. f{i}"))))),
        ("indices", e(format!("a{}", " [ 1 ]".repeat(n)))),
        ("else if", stmt(format!("{}", rep(n, " else ", |i| format!("if ( a{i} ) {{\nb ( ) ;\n}}"))))),
        ("catch", stmt(format!("try {{\n}}{}", rep(n, "", |i| format!(" catch ( E{i} e ) {{\n}}"))))),
        ("when", stmt(format!("switch on a {{\n{}\n}}", rep(n, "\n", |i| format!("when {i} {{\nb ( ) ;\n}}"))))),
        ("when values", stmt(format!("switch on a {{\nwhen {} {{\n}}\n}}", l("", " , ")))),
        ("declarators", stmt(format!("Integer {} ;", l("a", " , ")))),
        ("updates", stmt(format!("for ( ; ; {} ) {{\n}}", rep(n, " , ", |i| format!("a{i} ++"))))),
        ("annotations", format!("{} class W {{\n}}\n", l("@A", " "))),
        ("annotation pairs", format!("@A ( {} ) class W {{\n}}\n", rep(n, " ", |i| format!("a{i} = {i}")))),
        ("implements", format!("class W implements {} {{\n}}\n", l("A", " , "))),
        ("extends", format!("interface W extends {} {{\n}}\n", l("A", " , "))),
        ("type arguments", stmt(format!("Map < {} > a ;", l("A", " , ")))),
        ("nested types", stmt(format!("{}A{} a ;", "List < ".repeat(n.min(60)), " >".repeat(n.min(60))))),
        ("scoped type", stmt(format!("{} a ;", l("A", " . ")))),
        ("dimensions", stmt(format!("A{} a ;", " [ ]".repeat(n)))),
        ("parentheses", e(format!("{}a{}", "( ".repeat(n.min(60)), " )".repeat(n.min(60))))),
        ("not", e(format!("{}a", "! ".repeat(n.min(100))))),
        ("casts", e(format!("{}a", "( A ) ".repeat(n.min(100))))),
        ("ternary", e(format!("{} : z", rep(n.min(40), " : ", |i| format!("a{i} ? b{i}"))))),
        ("assignments", stmt(format!("{} = z ;", l("a", " = ")))),
        ("blocks", stmt(format!("{}{}", "{\n".repeat(n.min(60)), "}\n".repeat(n.min(60))))),
        ("ifs", stmt(format!("{}b ( ) ;\n{}", "if ( a ) {\n".repeat(n.min(60)), "}\n".repeat(n.min(60))))),
        ("semicolons", stmt("a ( ) ;\n".to_string() + &";\n".repeat(n))),
        ("fields of a query", q(format!("select {} from A", l("a", " , ")))),
        ("objects of a query", q(format!("select Id from A a , {}", rep(n, " , ", |i| format!("a . B{i} b{i}"))))),
        ("conditions and", q(format!("select Id from A where {}", l("a = 1 and b", " = 1 and ") + " = 1"))),
        ("conditions or", q(format!("select Id from A where {} = 1", l("a", " = 1 or ")))),
        ("conditions grouped", q(format!("select Id from A where {}", rep(n, " and ", |i| format!("( a{i} = 1 or b{i} = 2 )"))))),
        ("conditions nested", q(format!("select Id from A where {}a = 1{}", "( b = 1 and ".repeat(n.min(30)), " )".repeat(n.min(30))))),
        ("in", q(format!("select Id from A where a in ( {} )", rep(n, " , ", |i| format!("'{i}'"))))),
        ("order", q(format!("select Id from A order by {}", l("a", " , ")))),
        ("order kinds", q(format!("select Id from A order by {}", rep(n, " , ", |i| format!("a{i}{}", [" asc", " desc nulls last", "", " nulls first"][i % 4]))))),
        ("group", q(format!("select count ( Id ) from A group by {}", l("a", " , ")))),
        ("field path", q(format!("select {} from A", l("a", " . ")))),
        ("subqueries", q(format!("select Id , {} from A", rep(n, " , ", |i| format!("( select Id from B{i} )"))))),
        ("typeof", q(format!("select typeof a {} else d end from A", rep(n, " ", |i| format!("when B{i} then c{i}"))))),
        ("returning", q(format!("find 'a' in all fields returning {}", rep(n, " , ", |i| format!("A{i} ( b{i} )"))))),
        ("returned fields", q(format!("find 'a' in all fields returning A ( {} )", l("b", " , ")))),
        ("switch in switch", stmt(format!("{}{}", "switch on a {\nwhen 1 {\n".repeat(n.min(20)), "}\n}\n".repeat(n.min(20))))),
        ("events", format!("trigger T on A ( {} ) {{\n}}\n", rep(n.min(7), " , ", |i| ["before insert", "before update", "before delete", "after insert", "after update", "after delete", "after undelete"][i % 7].to_string()))),
        ("accessors", format!("class W {{\n{}\n}}\n", rep(n, "\n", |i| format!("Integer a{i} {{ get ; set ; }}")))),
        ("concatenation", e(rep(n, " + ", |i| format!("'text {i}'")))),
    ];
    v.retain(|x| crate::oracle::valid(&x.1));
    v.into_iter().map(|(k, s)| (format!("{n} {k}"), s)).collect()
}

/// Places of names and literals.
const NAMED: [&str; 26] = [
    "class # {\n}\n",
    "class W extends # implements # {\n}\n",
    "enum # { A , # }\n",
    "interface # {\nvoid # ( ) ;\n}\n",
    "trigger # on # ( before insert ) {\n}\n",
    "class W {\n# # ;\n}\n",
    "class W {\npublic static final # # = # ;\n}\n",
    "class W {\n# # { get ; private set ; }\n}\n",
    "class W {\n@# ( # = true )\n# # ( # # , final # # ) {\n}\n}\n",
    "class # {\n# ( ) {\nthis ( # ) ;\n# ( ) ;\n}\n}\n",
    "class W {\nvoid w ( ) {\n# # = # + # * # ;\n# = # ;\n# += # ;\n}\n}\n",
    "class W {\nvoid w ( ) {\n# ( # , # ( ) ) ;\n# . # ( # . # ) . # ( ) ;\n# ?. # = # [ # ] ;\n}\n}\n",
    "class W {\nvoid w ( ) {\nif ( # && # == # || ! # ) {\n# ( ) ;\n} else {\n# ++ ;\n}\n}\n}\n",
    "class W {\nvoid w ( ) {\nfor ( # # : # ) {\n# ( ) ;\n}\nfor ( # # = # ; # < # ; # ++ ) {\n}\n}\n}\n",
    "class W {\nvoid w ( ) {\nwhile ( # ) {\n}\ndo {\n} while ( # ) ;\nthrow # ;\n}\n}\n",
    "class W {\nvoid w ( ) {\ntry {\n# ( ) ;\n} catch ( # # ) {\n# ( ) ;\n} finally {\n# ( ) ;\n}\n}\n}\n",
    "class W {\nvoid w ( ) {\nswitch on # {\nwhen # , # {\n# ( ) ;\n}\nwhen # # {\n}\nwhen else {\n}\n}\n}\n}\n",
    "class W {\nvoid w ( ) {\nreturn # ? # : # ;\n}\n}\n",
    "class W {\nvoid w ( ) {\nv = ( # ) # ;\nv = new # ( # , # = # ) ;\nv = new # [ # ] ;\nv = new List < # > { # , # } ;\nv = new Map < # , # > { # => # } ;\nv = # instanceof # ;\nv = # . class ;\n}\n}\n",
    "class W {\nvoid w ( ) {\ninsert # ;\nupdate as user # ;\nupsert # # ;\nSystem . runAs ( # ) {\n# ( ) ;\n}\n}\n}\n",
    "class W {\nvoid w ( ) {\nv = [ select # , # . # , ( select # from # ) from # where # = : # and # in : # order by # limit : # ] ;\n}\n}\n",
    "class W {\nvoid w ( ) {\nv = [ select count ( # ) # , typeof # when # then # else # end from # # group by # having count ( # ) > 1 ] ;\n}\n}\n",
    "class W {\nvoid w ( ) {\nv = [ find : # in all fields returning # ( # , # where # = : # ) , # ] ;\n}\n}\n",
    "class W {\n# . # < # > # ( ) {\nreturn null ;\n}\n}\n",
    "class W {\nclass # {\nenum # { # }\n# [ ] # = new # [ ] { # } ;\n}\n}\n",
    "class W {\nstatic {\n# ( ) ;\n}\n{\nthis . # = # ;\nsuper . # ( ) ;\n}\n}\n",
];

const STRINGS: [&str; 9] = [
    "class W {\nString s = # ;\n}\n",
    "class W {\n@A ( b = # )\nvoid f ( ) {\n}\n}\n",
    "class W {\nvoid w ( ) {\nf ( # , # ) ;\nreturn # + v + # ;\n}\n}\n",
    "class W {\nvoid w ( ) {\nv = new List < String > { # , # } ;\nv = new Map < String , A > { # => # } ;\nv = a ? # : # ;\n}\n}\n",
    "class W {\nvoid w ( ) {\nswitch on a {\nwhen # , # {\n}\n}\n}\n}\n",
    "class W {\nvoid w ( ) {\nv = [ select Id from A where a = # and b in ( # , # ) and c like # ] ;\n}\n}\n",
    "class W {\nvoid w ( ) {\nv = [ find # in all fields returning A ( b where c = # ) ] ;\n}\n}\n",
    "class W {\nvoid w ( ) {\nif ( # == a ) {\nthrow new E ( # ) ;\n}\na . b ( # ) . c ( # ) . d ( ) ;\n}\n}\n",
    "class W {\nvoid w ( ) {\nv = 'x' + # + 'y' + # + 'z' ;\nv += # ;\n}\n}\n",
];

const COMMENTED: [(&str, bool); 9] = [
    ("class A {\n  void f() {\n    a();\n    #\n    b();\n  }\n}\n", true),
    ("class A {\n  void f() {\n    a(); #\n    b();\n  }\n}\n", true),
    ("class A {\n  Integer a;\n\n  #\n  Integer b;\n}\n", true),
    ("class A {\n  Integer a; #\n\n  void f() {}\n}\n", true),
    ("#\nclass A {\n}\n#\n", true),
    ("class A {\n  void f() {\n    g(a, #\n      b);\n  }\n}\n", true),
    ("enum A {\n  B, #\n  C\n}\n", true),
    ("class A {\n  void f() {\n    if (a) {\n      #\n      b();\n      #\n    }\n  }\n}\n", true),
    ("class A {\n  void f() {\n    x = new List<A>{ a, #\n      b };\n  }\n}\n", true),
];

fn fill(t: &str, w: &str) -> String {
    t.replace('#', w)
}

/// Every place of a name with `w`, alone and all at once.
fn spots(t: &str, w: &str, rest: &str) -> Vec<String> {
    let n = t.matches('#').count();
    let mut out = vec![fill(t, w)];
    if n > 1 {
        for i in 0..n {
            let mut k = 0;
            let parts: Vec<&str> = t.split('#').collect();
            let mut s = String::new();
            for (j, p) in parts.iter().enumerate() {
                s.push_str(p);
                if j + 1 < parts.len() {
                    s.push_str(if k == i { w } else { rest });
                    k += 1;
                }
            }
            out.push(s);
        }
    }
    out
}

/// Programs with `n` elements of every kind.
pub fn counts(max: usize) -> Vec<Case> {
    sizes(max).into_iter().flat_map(counted).map(|(k, s)| Case::new(s, 80, 2, k)).collect()
}

/// Names and literals of every length.
pub fn lengths(max: usize) -> Vec<Case> {
    let mut v = vec![];
    for n in sizes(max) {
        let name: String = "abcdefghij".chars().cycle().take(n).collect();
        let text: String = "text of a literal, ".chars().cycle().take(n - 1).chain(['x']).collect();
        for t in NAMED {
            let all = if n <= 300 { spots(t, &name, "b") } else { vec![fill(t, &name)] };
            v.extend(all.into_iter().map(|s| Case::new(s, 80, 2, format!("name of {n}"))));
        }
        for t in STRINGS {
            let all = if n <= 300 { spots(t, &format!("'{text}'"), "'b'") } else { vec![fill(t, &format!("'{text}'"))] };
            v.extend(all.into_iter().map(|s| Case::new(s, 80, 2, format!("literal of {n}"))));
        }
    }
    v
}

/// Texts longer than any line, and files with more lines than one would write.
pub fn huge() -> Vec<Case> {
    let mut v = vec![];
    for n in [10_000, 32_768, 65_534, 65_535, 65_536, 65_537, 70_000] {
        let name: String = "abcdefghij".chars().cycle().take(n).collect();
        let text: String = "text of a literal, ".chars().cycle().take(n - 1).chain(['x']).collect();
        for t in &NAMED[..3] {
            v.push(Case::new(spots(t, &name, "b").pop().unwrap(), 80, 2, format!("name of {n}")));
        }
        for t in STRINGS {
            v.push(Case::new(spots(t, &format!("'{text}'"), "'b'").pop().unwrap(), 80, 2, format!("literal of {n}")));
        }
    }
    v.push(Case::new(stmt(rep(66_000, "\n", |i| format!("a{i} ( ) ;"))), 80, 2, "66000 statements"));
    for n in [1000, 4096, 10_000] {
        v.push(Case::new(stmt(rep(n, "\n", |i| format!("a{i} ( ) ;"))), 80, 2, format!("{n} statements")));
        v.push(Case::new(format!("class W {{\n{}\n}}\n", rep(n, "\n", |i| format!("Integer a{i} ;"))), 80, 2, format!("{n} fields")));
        v.push(Case::new(format!("enum W {{\n{}\n}}\n", rep(n, " ,\n", |i| format!("A{i}"))), 80, 2, format!("{n} constants")));
    }
    v
}

/// Files of exactly so many bytes (and lines): in few long tokens, and in many.
pub fn big(thorough: bool) -> Vec<Case> {
    let max = if thorough { 1 << 26 } else { 1 << 24 };
    let mut ns: BTreeSet<usize> = (15..=26).flat_map(|k| [1usize << k, (1 << k) + 1]).collect();
    ns.extend([100_000, 100_001, 1_000_000, 1_000_001, 10_000_000, 10_000_001]);
    for n in read().0 {
        if n > 20_000 {
            ns.extend([n - 1, n, n.saturating_add(1)]);
        }
    }
    let mut v = vec![];
    for n in ns.into_iter().filter(|n| *n <= max) {
        let pad = |s: &str, k: usize| s.replace('#', &"x".repeat(k));
        let one = "class A {\n  Integer a; // #\n}\n";
        v.push(Case::new(pad(one, n + 1 - one.len()), 80, 2, format!("{n} bytes, one comment")));
        if n <= 1 << if thorough { 24 } else { 22 } {
            let field = format!("  Integer {};\n", "name".repeat(60));
            let k = (n - 60) / field.len();
            let s = format!("class A {{\n{}  // #\n}}\n", field.repeat(k));
            v.push(Case::new(pad(&s, n + 1 - s.len()), 80, 2, format!("{n} bytes, {k} fields")));
        }
        if n <= 1 << 21 {
            v.push(Case::new(format!("class A {{\n  Integer a;{}  Integer b;\n}}\n", "\n".repeat(n)), 80, 2, format!("{n} lines")));
        }
    }
    v
}

/// Names and literals which are spelled like something in the code.
pub fn spelled() -> Vec<Case> {
    let mut v = vec![];
    for w in words() {
        let name = w.chars().next().map_or(false, |c| c.is_alphabetic() || c == '_') && w.chars().all(|c| c.is_alphanumeric() || c == '_');
        if name {
            for t in NAMED {
                for s in spots(t, &w, "b") {
                    v.push(Case::new(s, 80, 2, format!("name {w}")));
                }
            }
        }
        let lit = w.replace('\\', "\\\\").replace('\'', "\\'");
        for t in STRINGS {
            for s in spots(t, &format!("'{lit}'"), "'b'") {
                v.push(Case::new(s, 80, 2, format!("literal {w:?}")));
            }
        }
    }
    v.retain(|c| crate::oracle::valid(&c.src));
    v
}

/// Comments of every length, in every number, and with the words of the code.
pub fn comments(max: usize) -> Vec<Case> {
    let mut v = vec![];
    let mut add = |c: String, note: String| {
        for (t, _) in COMMENTED {
            v.push(Case::new(fill(t, &c), 80, 2, note.clone()));
        }
    };
    for w in words() {
        if !w.contains('\n') {
            add(format!("// {w}"), format!("line comment {w:?}"));
            add(format!("//{w}"), format!("line comment {w:?}"));
        }
        if !w.contains("*/") && !w.contains("/*") {
            add(format!("/* {w} */"), format!("block comment {w:?}"));
            if !w.starts_with('*') && !w.ends_with('*') {
                add(format!("/*{w}*/"), format!("block comment {w:?}"));
                add(format!("/*\n   {w} a\n      {w}\n * {w} b\n */"), format!("tall block comment {w:?}"));
                add(format!("/**\n   {w} a\n *      {w}\n * {w} b\n */"), format!("tall doc comment {w:?}"));
            }
        }
    }
    for n in sizes(max) {
        let text: String = "words in a text ".chars().cycle().take(n - 1).chain(['x']).collect();
        add(format!("// {text}"), format!("line comment of {n}"));
        add(format!("/* {text} */"), format!("block comment of {n}"));
        if n <= 300 {
            add(rep(n, "\n", |i| format!("// c{i}")), format!("{n} line comments"));
            add(rep(n, "\n", |i| format!("/* c{i} */")), format!("{n} block comments"));
            add(format!("/*\n{}\n*/", rep(n, "\n", |i| format!(" * c{i}"))), format!("block comment of {n} lines"));
        }
    }
    v.retain(|c| crate::oracle::valid(&c.src));
    v
}
