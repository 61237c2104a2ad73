//! C05 (malformed sources) and C15 (spelling of literals and names): the lexical dimensions.
use crate::engine::*;
use crate::exec;
use crate::gram::*;
use crate::oracle;
use crate::props::*;
use crate::space::*;
use std::collections::HashSet;

const FOREIGN: [&str; 14] = [";", "{", "}", "(", ")", ",", ".", "=", "class", "x", "'", "#", "1", "\u{1f389}"];

/// All single-token edits which leave no valid program.
pub fn mutants(progs: &[Prog], seen: &mut HashSet<u64>, full: bool) -> Vec<Case> {
    let mut out = vec![];
    let mut add = |toks: &[String], note: String| {
        let s = toks.join(" ") + "\n";
        if seen.insert(hash(&s)) {
            out.push(Case::new(s, 80, 2, note));
        }
    };
    for p in progs {
        let t: Vec<String> = p.toks.iter().map(|t| spell(t, CaseMode::Lower)).collect();
        for i in 0..t.len() {
            let mut m = t.clone();
            m.remove(i);
            add(&m, format!("without token {i}"));
            let mut m = t.clone();
            m.insert(i, t[i].clone());
            add(&m, format!("token {i} doubled"));
            if i + 1 < t.len() {
                let mut m = t.clone();
                m.swap(i, i + 1);
                add(&m, format!("tokens {i} and {} swapped", i + 1));
            }
            add(&t[..i].to_vec(), format!("cut before token {i}"));
            if full {
                for f in FOREIGN {
                    let mut m = t.clone();
                    m.insert(i, f.into());
                    add(&m, format!("{f} in front of token {i}"));
                }
            }
        }
    }
    out
}

pub fn c05_lib(g: &Grammar, thorough: bool) -> Plan {
    let mut seen = HashSet::new();
    let sp = small(g);
    let zero = derive(g, &any, 0, 0, true);
    let mut cases = mutants(&zero.progs, &mut seen, true);
    cases.extend(mutants(&sp.progs, &mut seen, thorough));
    // broken tails and unfinished comments and literals on every fixture
    for (n, s) in fixtures() {
        for t in ["/*", "'", "}", "{", "class", "\u{0}", ")"] {
            cases.push(Case::new(format!("{s}\n{t}"), 80, 4, format!("{n} + {t:?}")));
            cases.push(Case::new(format!("{t}\n{s}"), 80, 4, format!("{t:?} + {n}")));
        }
        // cut at every line
        let lines: Vec<&str> = s.lines().collect();
        for i in 1..lines.len() {
            cases.push(Case::new(lines[..i].join("\n"), 80, 4, format!("{n} cut after line {i}")));
        }
    }
    plan(&sp, cases, format!("{SMALL}: every deletion, doubling and swap of one token and every cut; minimal programs: also 14 foreign tokens in every gap; fixtures with foreign text added and cut after every line"), malformed)
}

pub fn malformed(c: &Case) -> Obs {
    if oracle::valid(&c.src) {
        return vacuous(0, "still valid");
    }
    match exec::format(&c.src, c.width, c.indent) {
        Err(e) => held(1, &e),
        Ok(o) => broken(1, "ACCEPTED malformed source", o),
    }
}

/// Pieces of string literals: everything special to a lexer, a printer or a layout.
const PIECES: [&str; 24] = ["a", " ", "  ", "\t", "\n", "\\'", "\\\\", "\\n", "//", "/*", "*/", "\"", ";", "{", "}", ":", "[SELECT", "\u{e9}", "\u{1f389}", "%", "\r\n", ",", "\\u0041", "A"];

const NAMES: [&str; 34] = [
    "x", "X", "aB", "Ab_c__c", "$x", "_1", "Ünïcode", "名前", "SELECT1", "Select_", "order_", "nullx", "NULLS", "trueish", "String", "string", "LIST", "list", "Map", "System", "system", "Trigger", "Id", "iD", "Object", "thisx", "superb", "getX", "setX", "whenx", "elsewhere", "javaX", "aVeryLongNameThatDoesNotFitOnAnyReasonableLineBecauseItHasMoreThanEightyCharactersInIt", "v9",
];

const NUMBERS: [&str; 16] = ["0", "00", "1L", "1l", "1_000", "0.50", ".5", "5.", "1e5", "1E5", "1.5e-3", "2.0D", "2.0d", "2f", "1.0F", "9007199254740993"];

/// Replace one leaf of a program.
fn swap(src: &str, a: usize, b: usize, t: &str) -> String {
    format!("{}{t}{}", &src[..a], &src[b..])
}

pub fn c15(g: &Grammar, thorough: bool) -> Plan {
    let sp = small(g);
    let mut cases = vec![];
    let mut seen = HashSet::new();
    let mut slots: HashSet<String> = HashSet::new();
    let mut add = |s: String, w: u32, n: String| {
        if seen.insert(hash(&format!("{w} {s}"))) {
            cases.push(Case::new(s, w, 2, n));
        }
    };
    let mut bodies: Vec<String> = vec![String::new()];
    for a in PIECES {
        bodies.push(a.into());
        for b in PIECES {
            bodies.push(format!("{a}{b}"));
            if thorough {
                for c in PIECES {
                    bodies.push(format!("{a}{b}{c}"));
                }
            }
        }
    }
    for p in &sp.progs {
        let s = layout_lines(&p.toks, CaseMode::Lower);
        let (v, _) = look(&s);
        for (i, l) in v.leaves.iter().enumerate() {
            // one slot per (kind, parent, neighbours)
            let around = |d: isize| v.leaves.get((i as isize + d) as usize).map_or(String::new(), |x| if x.named { x.kind.into() } else { x.text.clone() });
            let slot = format!("{} {} {} {}", l.kind, l.parent, around(-1), around(1));
            let new = slots.insert(slot.clone());
            match l.kind {
                "string_literal" => {
                    let some: &[String] = if new { &bodies } else { &bodies[..40] };
                    for b in some {
                        add(swap(&s, l.start, l.end, &format!("'{b}'")), 80, slot.clone());
                    }
                    if new {
                        for b in bodies.iter().take(100) {
                            add(swap(&s, l.start, l.end, &format!("'{b}'")), 10, slot.clone());
                        }
                    }
                }
                "identifier" | "type_identifier" => {
                    for n in NAMES.iter().take(if new || thorough { 99 } else { 6 }) {
                        for w in [80, 10] {
                            add(swap(&s, l.start, l.end, n), w, slot.clone());
                        }
                    }
                }
                "int" | "decimal" | "decimal_floating_point_literal" => {
                    for n in NUMBERS {
                        add(swap(&s, l.start, l.end, n), 80, slot.clone());
                    }
                }
                "term" => {
                    for n in ["a", "a  b", "A and b", "a OR (b)", "caf\u{e9}*", "a\\{b", "\"two words\"", "x?", "  lead", "trail  "] {
                        add(swap(&s, l.start, l.end, n), 80, slot.clone());
                    }
                }
                "date_time" => {
                    for n in ["2020-01-01T00:00:00Z", "2020-12-31T23:59:59.999Z", "2020-01-01T00:00:00+01:00", "2020-01-01T00:00:00.1-12:30"] {
                        add(swap(&s, l.start, l.end, n), 80, slot.clone());
                    }
                }
                "currency_literal" => {
                    for n in ["USD100", "usd100", "EUR0.50", "gBp7"] {
                        add(swap(&s, l.start, l.end, n), 80, slot.clone());
                    }
                }
                _ => {}
            }
        }
    }
    for c in files(true).into_iter().chain(crate::mine::lengths(70_000)).chain(crate::mine::spelled()) {
        add(c.src, 80, c.note);
    }
    plan(&sp, cases, format!("{SMALL}: every name, number and literal replaced by each of {} names, {} numbers and string literals of <={} pieces out of {}; in 35 texts every name and literal with lengths up to 65537 and with each of the words in the code; byte comparison", NAMES.len(), NUMBERS.len(), if thorough { 3 } else { 2 }, PIECES.len()), spelled)
}

fn literal(k: &str) -> bool {
    matches!(k, "identifier" | "type_identifier" | "string_literal" | "int" | "decimal" | "decimal_floating_point_literal" | "term" | "date" | "date_time" | "currency_literal")
}

pub fn spelled(c: &Case) -> Obs {
    let (a, ok) = look(&c.src);
    if !ok {
        return vacuous(0, "invalid");
    }
    let Ok(o) = exec::format(&c.src, c.width, c.indent) else { return vacuous(1, "refused") };
    let (b, _) = look(&o);
    fn raw<'s>(v: &oracle::View, s: &'s str) -> Vec<(&'s str, &'static str)> {
        v.leaves.iter().filter(|l| literal(l.kind)).map(|l| (&s[l.start..l.end], l.kind)).collect()
    }
    let (x, y) = (raw(&a, &c.src), raw(&b, &o));
    for i in 0..x.len().max(y.len()) {
        // the fixture Literal documents that exponent and suffix are written in lower case
        if let (Some(s), Some(t)) = (x.get(i), y.get(i)) {
            if s.1 == "decimal_floating_point_literal" && s.0.eq_ignore_ascii_case(t.0) {
                continue;
            }
        }
        if x.get(i).map(|t| t.0) != y.get(i).map(|t| t.0) {
            return broken(1, format!("SPELLING of {} changed [{}]", x.get(i).map_or("?", |t| t.1), c.note), format!("{:?} became {:?}\n{o}", x.get(i).map(|t| t.0), y.get(i).map(|t| t.0)));
        }
    }
    held(1, &o)
}

