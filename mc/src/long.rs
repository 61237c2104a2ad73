//! C25: length. Every construct that can be repeated, at numbers which double, plain and with a comment
//! at every element, and texts which are long in themselves.
use crate::engine::*;
use crate::exec;
use crate::mine;
use crate::oracle;
use crate::props::*;
use std::collections::BTreeMap;

/// What nests when it gets longer: bounded by the stack (C19), so fewer of them.
const NESTS: [&str; 17] = [
    "plus", "and", "or", "calls", "calls with arguments", "fields", "safe fields", "indices", "else if", "nested types", "scoped type", "parentheses", "not", "casts", "ternary", "assignments", "concatenation",
];
/// Numbers of which the language, or `counted`, has no more than a few.
const FEW: [&str; 12] = ["blocks", "ifs", "casts", "not", "parentheses", "nested types", "ternary", "events", "conditions nested", "switch in switch", "dimensions", "semicolons"];

/// Texts which are long without many elements.
fn texts(n: usize) -> Vec<(&'static str, String)> {
    let body = |s: String| format!("class A {{\n  void f() {{\n    a();\n{s}\n    b();\n  }}\n}}\n");
    vec![
        ("lines of a comment", body(format!("    /*\n{}    */", "     * words of a comment\n".repeat(n)))),
        ("lines of a doc comment", format!("/**\n{} */\nclass A {{\n}}\n", " * words of a comment\n".repeat(n))),
        ("letters of a comment", body(format!("    // {}", "x".repeat(8 * n)))),
        ("comments on lines", body("    // words\n".repeat(n))),
        ("comments in a line", body(format!("    c({}d);", "/* w */ ".repeat(n)))),
        ("comments in an empty body", format!("class A {{\n{}}}\n", "  // words\n".repeat(n))),
        ("comments in front", format!("{}class A {{\n}}\n", "// words\n".repeat(n))),
        ("comments behind", format!("class A {{\n}}\n{}", "// words\n".repeat(n))),
        ("trailing comments", body("    c(); // words\n".repeat(n))),
        ("comments in turn", body("    // words\n    c(); /* w */ // words\n\n".repeat(n))),
        ("blank lines", body("\n".repeat(n))),
        ("blanks", body(" ".repeat(n))),
        ("blank lines between", body("    c();\n\n\n".repeat(n))),
        ("letters of a name", body(format!("    {}();", "x".repeat(8 * n)))),
        ("letters of a text", body(format!("    c('{}');", "x".repeat(8 * n)))),
        ("lone semicolons", body(format!("    c(){}", ";".repeat(n)))),
        ("nested blocks in turn", body("    if (a) { while (b) { try { c(); } catch (E e) { d(e); } } }\n".repeat(n / 4))),
        ("long statements", body("    Map<String, List<Account>> someAccounts = SomeClass.someMethod(firstArgument, secondArgument).another(thirdArgument);\n".repeat(n / 4))),
        ("long conditions", body("    if (aaaaaaaaaaaaaaaaaaaaaaaaaaaaa && bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb && ccccccccccccccccccccc) { d(); }\n".repeat(n / 4))),
        ("long queries", body("    List<A> a = [SELECT Id, Name, (SELECT Id FROM Contacts) FROM Account WHERE Name LIKE :name AND Id IN :ids ORDER BY Name];\n".repeat(n / 8))),
        ("properties", format!("class A {{\n{}}}\n", "  @A(b=1) public Integer a { get { return b; } private set; }\n".repeat(n / 4))),
    ]
}

/// The texts of `n` elements, by kind.
fn all(n: usize) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    for few in [false, true] {
        let m = if few { n / 64 } else { n };
        for (k, s) in mine::counted(m) {
            let k = k.split_once(' ').unwrap().1.to_string();
            if NESTS.contains(&k.as_str()) != few || FEW.contains(&k.as_str()) {
                continue;
            }
            for (what, comma, line) in [
                ("with trailing comments", " , // words\n", " // words\n"),
                ("with block comments", " /* w */ , ", "\n/* w */ "),
                ("with comments on lines", " ,\n// words\n", "\n// words\n"),
                ("with blank lines", " ,\n\n", "\n\n"),
            ] {
                let t = if s.contains(" , ") { s.replace(" , ", comma) } else { s.replace('\n', line) };
                v.push((format!("{k} {what}"), t));
            }
            v.push((k, s));
        }
    }
    v.extend(texts(n).into_iter().map(|(k, s)| (k.to_string(), s)));
    v
}

pub fn c25(thorough: bool) -> Plan {
    let sizes: Vec<usize> = if thorough { vec![2000, 4000, 8000, 16_000, 32_000] } else { vec![1500, 3000, 6000, 12_000] };
    let mut kinds: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for n in &sizes {
        for (k, s) in all(*n) {
            kinds.entry(k).or_default().push(s);
        }
    }
    kinds.retain(|_, v| v.len() == sizes.len() && oracle::valid(&v[0]));
    let number = kinds.len();
    let mut cases = vec![];
    for (k, v) in kinds {
        for (w, indent) in [(80, 2), (1, 4), (100_000, 2)] {
            let mut c = Case::new(v[0].clone(), w, indent, k.clone());
            c.aux = v[1..].join("\u{1}");
            cases.push(c);
        }
    }
    Plan {
        cases,
        eval: Box::new(grows),
        rule: format!("{number} kinds of long code: every construct that can be repeated, plain, and with a comment or blank line at every element; long comments, names, literals and blanks; each at lengths {sizes:?} (a 64th of them where length nests), at widths 1, 80 and 100000"),
        derivations: 0,
        rejected: 0,
        assumptions: vec![A_PARSER, "work is measured as allocations, bytes allocated and processor time; the limit on time leaves a factor of 6 and 0.4 s to the machine, and counts only if it is exceeded three times"],
        hang: 90,
    }
}

/// Twice the length takes at most about twice the work.
fn grows(c: &Case) -> Obs {
    let texts: Vec<&str> = std::iter::once(c.src.as_str()).chain(c.aux.split('\u{1}')).collect();
    let mut all: Vec<exec::Cost> = vec![];
    for s in &texts {
        if !oracle::valid(s) {
            return vacuous(all.len() as u64, "no program at this length");
        }
        let run = || exec::cost(s, c.width, c.indent).map_err(|e| broken(all.len() as u64 + 1, format!("LENGTH refused: {}", why(&e)), c.note.clone()));
        let mut now = match run() {
            Ok(x) => x,
            Err(o) => return o,
        };
        if let (Some(first), Some(last)) = (all.first(), all.last()) {
            let say = |what: &str, a: u64, b: u64| broken(all.len() as u64 + 1, format!("LENGTH {what} grow from {a} to {b} [{}]", c.note), format!("width {} {all:?} {now:?}", c.width));
            if now.allocations > last.allocations * 5 / 2 + 200 {
                return say("allocations", last.allocations, now.allocations);
            }
            if now.bytes > last.bytes * 27 / 10 + 100_000 {
                return say("bytes", last.bytes, now.bytes);
            }
            let limit = (first.micros.max(1000) << all.len()) * 6 + 400_000;
            for _ in 0..2 {
                if now.micros > limit {
                    now = match run() {
                        Ok(x) => x,
                        Err(o) => return o,
                    };
                }
            }
            if now.micros > limit {
                return broken(all.len() as u64 + 1, format!("LENGTH time grows out of proportion [{}]", c.note), format!("width {} {all:?} {now:?}", c.width));
            }
        }
        all.push(now);
    }
    held(all.len() as u64, &format!("{} {}", c.note, all.iter().map(|x| x.allocations).sum::<u64>()))
}
