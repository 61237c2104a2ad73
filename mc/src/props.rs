//! One function per property: the cases to explore and the observation made on each of them.
use crate::comments::{self, Gap};
use crate::engine::*;
use crate::extra::{self, ALL, RUNS, SOME, TEXTS};
use crate::exec;
use crate::gram::*;
use crate::oracle::{self, View};
use crate::space::*;

pub struct Plan {
    pub cases: Vec<Case>,
    pub eval: Box<dyn Fn(&Case) -> Obs>,
    /// what was enumerated, within which bounds
    pub rule: String,
    pub derivations: usize,
    pub rejected: usize,
    pub assumptions: Vec<&'static str>,
    /// time after which a single case counts as a hang, in seconds
    pub hang: u64,
}

pub const A_PARSER: &str = "tree-sitter-sfapex 2.4.0 (the formatter's own parser) decides what a valid program is and how it splits into tokens";

pub fn quiet(execs: u64, v: Verdict, outcome: &str) -> Obs {
    Obs { execs, outcome: hash(outcome), verdict: v }
}

pub fn held(execs: u64, outcome: &str) -> Obs {
    quiet(execs, Verdict::Held, outcome)
}

pub fn broken(execs: u64, sig: impl Into<String>, detail: impl Into<String>) -> Obs {
    let sig = sig.into();
    let o = sig.clone();
    quiet(execs, Verdict::Broken { sig, detail: detail.into() }, &o)
}

pub fn vacuous(execs: u64, why: impl Into<String>) -> Obs {
    let w = why.into();
    quiet(execs, Verdict::Vacuous(w.clone()), &w)
}

/// `refused` with the call site only (no file positions, no source text)
pub fn why(e: &str) -> String {
    e.chars().take(60).collect()
}

pub fn look(s: &str) -> (View, bool) {
    let t = oracle::parse(s);
    (oracle::view(s, &t), !t.root_node().has_error())
}

fn desc(v: &View, i: usize) -> String {
    match v.leaves.get(i) {
        None => "end".into(),
        Some(l) if l.named => format!("{}:name", l.parent),
        Some(l) => format!("{}:{}", l.parent, l.text),
    }
}

/// First difference between two token streams.
pub fn diff(a: &View, b: &View) -> Option<(usize, String)> {
    let n = a.leaves.len().max(b.leaves.len());
    for i in 0..n {
        let x = a.leaves.get(i).map(|l| &l.text);
        let y = b.leaves.get(i).map(|l| &l.text);
        if x != y {
            return Some((i, format!("lost {} got {}", desc(a, i), b.leaves.get(i).map_or("end".into(), |l| if l.named { "name".into() } else { l.text.clone() }))));
        }
    }
    None
}

pub fn plan(sp: &Space, cases: Vec<Case>, rule: impl Into<String>, eval: impl Fn(&Case) -> Obs + 'static) -> Plan {
    Plan { cases, eval: Box::new(eval), rule: rule.into(), derivations: sp.derivations, rejected: sp.rejected, assumptions: vec![A_PARSER], hang: 30 }
}

pub fn any(_: &str) -> bool {
    true
}

/// Every symbol in every context with one deviation from its minimal derivation, and its full derivation.
pub fn small(g: &Grammar) -> Space {
    let mut sp = derive(g, &any, 1, 0, true);
    sp.merge(derive(g, &any, 0, 3, false));
    sp
}

/// Every symbol with two deviations from its minimal derivation and one from its full one.
/// Programs for two comments at once.
fn two(g: &Grammar, thorough: bool) -> Vec<Prog> {
    if thorough {
        small(g).progs
    } else {
        derive(g, &any, 1, 0, false).progs
    }
}

pub fn big(g: &Grammar, thorough: bool) -> Space {
    let mut sp = derive(g, &any, 2, 0, thorough);
    sp.merge(derive(g, &any, 1, 3, false));
    if thorough {
        sp.merge(derive(g, &any, 2, 2, false));
        sp.merge(derive(g, &|n| matches!(n, "expression" | "statement" | "declaration" | "soql_query_body" | "class_body"), 3, 0, false));
    }
    sp.merge(derive(g, &any, 1, 0, true));
    sp
}

pub const BIG: &str = "every grammar symbol with <=2 deviations from its minimal derivation and <=1 from its full one (depth 3), in every context with <=1";
pub const SIZES: &str = "files of each of the sizes up to 16 MiB and 2 million lines (powers of two and ten, the big numbers in the code, and their neighbours)";
pub const SMALL: &str = "every grammar symbol in every production mentioning it with <=1 deviation from its minimal derivation, and its full derivation (depth 3)";

fn lower(p: &Prog) -> String {
    layout_lines(&p.toks, CaseMode::Lower)
}

/// One case per program; `aux` says which file a real-world source came from.
pub fn programs(g: &Grammar, sp: &Space, m: CaseMode) -> Vec<Case> {
    sp.progs.iter().map(|p| Case::new(layout_lines(&p.toks, m), 80, 2, &g.names[p.root])).collect()
}

pub fn files(with_battle: bool) -> Vec<Case> {
    let mut v = fixtures();
    if with_battle {
        v.extend(battle());
    }
    v.into_iter().map(|(n, s)| Case::new(s, 80, 4, n)).collect()
}

/// Comments at the boundaries where the statements promise them: between statements and members,
/// after the comma of arguments, parameters, initializer elements and enum constants.
pub fn boundary(g: &(usize, usize, Gap, String)) -> bool {
    match g.2 {
        Gap::Body => true,
        Gap::Element => ["argument_list ", "formal_parameters ", "array_initializer ", "map_initializer ", "enum_body "].iter().any(|k| g.3.starts_with(k)),
        Gap::Other => false,
    }
}

pub fn by_id(id: &str, thorough: bool) -> Option<Plan> {
    let g = Grammar::load();
    Some(match id {
        "C01" => tokens(&g, thorough, false),
        "C02" => tokens(&g, thorough, true),
        "C03" => c03(&g, thorough),
        "C04" => c04(&g, thorough),
        "C05" => {
            let mut p = crate::lexical::c05_lib(&g, thorough);
            p.cases.extend(crate::cli::c05_cases());
            p.eval = Box::new(crate::cli::c05);
            p
        }
        "C11" => crate::cli::c11(thorough),
        "C12" => crate::batch::c12(thorough),
        "C13" => crate::crash::c13(thorough),
        "C14" => crate::cli::c14(thorough),
        "C15" => crate::lexical::c15(&g, thorough),
        "C06" => c06(&g, thorough),
        "C07" => c07(&g, thorough),
        "C08" => c08(&g, thorough),
        "C09" => c09(&g, thorough),
        "C10" => c10(&g, thorough),
        "C16" => c16(&g, thorough),
        "C17" => c17(&g, thorough),
        "C18" => crate::sched::c18(&g, thorough),
        "C19" => crate::nest::c19(&g, thorough),
        "C20" => c20(&g, thorough),
        "C21" => c21(&g, thorough),
        "C22" => c22(&g, thorough),
        "C23" => crate::local::c23(&g, thorough),
        "C24" => crate::conc::c24(thorough),
        "C25" => crate::long::c25(thorough),
        _ => return None,
    })
}

const WIDTHS: [u32; 3] = [80, 20, 1];

fn same_tokens(c: &Case, widths: &[u32], shape: bool) -> Obs {
    let ta = oracle::parse(&c.src);
    if ta.root_node().has_error() {
        return vacuous(0, "invalid");
    }
    let a = if shape { oracle::shape(&c.src, &ta) } else { oracle::view(&c.src, &ta) };
    let mut n = 0;
    let mut last = String::new();
    for w in widths {
        n += 1;
        let Ok(out) = exec::format(&c.src, *w, c.indent) else { continue };
        if out == last {
            continue;
        }
        let tb = oracle::parse(&out);
        if shape && tb.root_node().has_error() {
            return broken(n, "SHAPE the output is malformed", format!("width {w}\n{out}"));
        }
        let b = if shape { oracle::shape(&out, &tb) } else { oracle::view(&out, &tb) };
        if let Some((_, d)) = diff(&a, &b) {
            return broken(n, format!("{} {d}", if shape { "SHAPE" } else { "TOKENS" }), format!("width {w}\n{out}"));
        }
        last = out;
    }
    if last.is_empty() {
        return vacuous(n, "refused");
    }
    held(n, &last)
}

fn tokens(g: &Grammar, thorough: bool, shape: bool) -> Plan {
    let sp = big(g, thorough);
    let mut cases = programs(g, &sp, CaseMode::Lower);
    let s = small(g);
    cases.extend(programs(g, &s, CaseMode::Upper));
    cases.extend(programs(g, &s, CaseMode::Mixed));
    cases.extend(files(true));
    cases.extend(extra::all(g, thorough));
    cases.extend(crate::mine::big(thorough));
    plan(&sp, cases, format!("{BIG}; the second space also with upper and mixed case keywords; {ALL}; all fixtures and corpus files; {SIZES}; each at widths 80, 20 and 1"), move |c| same_tokens(c, &WIDTHS, shape))
}

fn c20(g: &Grammar, thorough: bool) -> Plan {
    let part = ["soql", "sosl", "query", "with_", "using", "order", "limit", "offset", "update_", "data_cat", "currency", "date_literal", "geo_", "alias", "returning", "boolean_expression", "comparison", "value_", "field_identifier"];
    let query = |n: &str| part.iter().any(|p| n.contains(p)) && n != "update_expression" || matches!(n, "where_clause" | "select_clause" | "from_clause" | "in_clause" | "in_type" | "group_by_clause" | "having_clause" | "function_expression" | "type_of_clause" | "for_clause" | "all_rows_clause" | "and_expression" | "or_expression" | "not_expression" | "find_clause" | "when_expression" | "else_expression");
    let mut sp = derive(g, &query, 2, 0, true);
    sp.merge(derive(g, &query, if thorough { 2 } else { 1 }, 4, false));
    sp.merge(derive(g, &|n| matches!(n, "soql_query_body" | "sosl_query_body"), 3, 0, false));
    for n in [6, 13, 26, 70] {
        LONG.set(n);
        let mut l = derive(g, &query, if n == 6 || thorough { 2 } else { 1 }, 0, false);
        LONG.set(0);
        l.progs.retain(|p| p.toks.len() > n);
        sp.merge(l);
    }
    if thorough {
        sp.merge(derive(g, &query, 3, 0, false));
    }
    let mut cases = programs(g, &sp, CaseMode::Lower);
    cases.extend(crate::nest::towers(g, if thorough { &[2, 3, 5, 9] } else { &[2, 3, 6] }).into_iter().filter(|c| c.src.contains("select") || c.src.contains("find ")));
    cases.extend(crate::mine::counts(300).into_iter().chain(crate::mine::lengths(300)).chain(crate::mine::spelled()).filter(|c| c.src.contains("[ select") || c.src.contains("[ find")));
    let s = derive(g, &query, 1, 0, true);
    cases.extend(programs(g, &s, CaseMode::Upper));
    cases.extend(programs(g, &s, CaseMode::Mixed));
    plan(&sp, cases, "every query symbol in every context with <=2 deviations from its minimal derivation and <=1 from its full one, whole queries with <=3, every repetition with 6 (two kinds in turn), 13, 26 and 70 elements, every pair of recursive constructs with a query nested to depth 6; lists, names and literals of sizes up to 300, and each of the words in the code; each at widths 80, 20 and 1; tokens and structure compared", |c| {
        let mut n = 0;
        for w in WIDTHS {
            n += 1;
            if let Err(e) = exec::format(&c.src, w, c.indent) {
                return broken(n, format!("QUERY refused: {}", why(&e)), e);
            }
        }
        let mut o = same_tokens(c, &WIDTHS, true);
        o.execs += n;
        o
    })
}

fn c03(g: &Grammar, thorough: bool) -> Plan {
    let sp = if thorough { small(g) } else { derive(g, &any, 1, 0, false) };
    let all = [0, 1, 2, 3, 4, 5, 6, 7];
    let mut cases = comments::cases(&sp.progs, &|_| true, &all, 80);
    let s = derive(g, &any, if thorough { 1 } else { 0 }, 3, false);
    cases.extend(comments::cases(&s.progs, &|_| true, &[0, 1, 2], 20));
    cases.extend(comments::pairs(&derive(g, &any, if thorough { 1 } else { 0 }, 0, false).progs, &|_| true, 80));
    cases.extend(comments::spread(&derive(g, &any, 0, 0, false).progs, &|_, _| true, 80));
    cases.extend(files(true));
    cases.extend(extra::comment_texts(thorough));
    cases.extend(extra::comment_runs(thorough));
    cases.extend(crate::mine::big(thorough));
    plan(&sp, cases, format!("every grammar symbol with <=1 deviation x every gap between two tokens x 8 ways to write a comment; full derivations at width 20; two comments in one gap, in every pair of gaps, and one in every gap; {TEXTS}; {RUNS}; {SIZES}; all fixtures and corpus files"), comments::survive)
}

fn c16(g: &Grammar, thorough: bool) -> Plan {
    let sp = derive(g, &any, 1, 0, thorough);
    let keep = |g: &(usize, usize, Gap, String), k: usize| boundary(g) && !g.3.contains(" empty|") && !(g.3.contains(" {|") && matches!(k, 0 | 2 | 4));
    let mut cases = comments::cases_if(&sp.progs, &keep, 80);
    cases.extend(comments::cases_if(&derive(g, &any, if thorough { 1 } else { 0 }, 3, false).progs, &keep, 20));
    cases.extend(comments::spread(&two(g, thorough), &keep, 80));
    cases.extend(extra::comment_texts(thorough));
    cases.extend(extra::comment_runs(thorough).into_iter().filter(|c| !c.src.contains("class A { ")));
    plan(&sp, cases, format!("every grammar symbol with <=1 deviation x every boundary gap x 8 ways to write a comment; two comments in every pair of boundary gaps, and one in all; {TEXTS}; {RUNS}"), comments::in_place)
}

fn c06(g: &Grammar, thorough: bool) -> Plan {
    let sp = big(g, thorough);
    let mut cases = programs(g, &sp, CaseMode::Lower);
    let s = small(g);
    for m in [CaseMode::Upper, CaseMode::Mixed] {
        cases.extend(programs(g, &s, m));
    }
    for (w, i) in [(1, 1), (20, 8)] {
        cases.extend(programs(g, &s, CaseMode::Lower).into_iter().map(|c| Case { width: w, indent: i, ..c }));
    }
    cases.extend(comments::cases_if(&derive(g, &any, 1, 0, thorough).progs, &|g, _| boundary(g), 80));
    cases.extend(comments::spread(&two(g, thorough), &|g, _| boundary(g), 80));
    cases.extend(comments::pairs(&two(g, thorough), &|g| boundary(g), 80));
    cases.extend(extra::all(g, thorough));
    cases.extend(extra::comment_texts(thorough));
    cases.extend(extra::comment_runs(thorough));
    cases.extend(crate::mine::big(thorough));
    plan(&sp, cases, format!("{BIG}; upper and mixed case keywords; widths 1, 20, 80; {ALL}; comments of 8 kinds at every boundary gap; two comments in every pair of boundary gaps, and one in all; {TEXTS}; {RUNS}; {SIZES}"), comments::accepted)
}

fn c04(g: &Grammar, thorough: bool) -> Plan {
    let sp = big(g, thorough);
    let mut cases = programs(g, &sp, CaseMode::Lower);
    for w in [1, 10, 15, 20, 25, 30, 40, 50, 60] {
        cases.extend(programs(g, &small(g), CaseMode::Lower).into_iter().map(|c| Case { width: w, ..c }));
    }
    // blank lines everywhere
    for p in &small(g).progs {
        cases.push(Case::new(join(&p.toks, CaseMode::Lower, |_| "\n\n\n".into()) + "\n", 80, 2, &g.names[p.root]));
    }
    let s = derive(g, &any, 1, 0, thorough);
    cases.extend(comments::cases_if(&s.progs, &|g, _| boundary(g), 80));
    cases.extend(comments::cases_if(&derive(g, &any, 0, 0, thorough).progs, &|g, _| boundary(g), 20));
    cases.extend(comments::spread(&two(g, thorough), &|g, _| boundary(g), 80));
    cases.extend(comments::pairs(&two(g, thorough), &|g| boundary(g), 80));
    cases.extend(files(true).into_iter().filter(|c| look(&c.src).0.comments.is_empty()));
    for c in extra::all(g, thorough) {
        cases.push(Case { width: 30, ..c.clone() });
        cases.push(c);
    }
    cases.extend(extra::comment_texts(thorough));
    cases.extend(extra::comment_runs(thorough));
    plan(&sp, cases, format!("{BIG}, also at 9 widths from 1 to 60 and with blank lines in every gap; {ALL}; comments of 8 kinds at every boundary gap; two comments in every pair of boundary gaps, and one in all; {TEXTS}; {RUNS}; comment-free fixtures and corpus files"), comments::stable)
}

fn max_line(s: &str) -> usize {
    s.lines().map(|l| l.chars().count()).max().unwrap_or(0)
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// Offsets (in non-blank characters) of the line breaks of a text, and the span and length of each line.
fn lines_of(s: &str) -> Vec<(usize, usize, usize)> {
    let mut out = vec![];
    let mut at = 0;
    for l in s.lines() {
        let n = l.chars().filter(|b| !b.is_whitespace()).count();
        out.push((at, at + n, l.chars().count()));
        at += n;
    }
    out
}

fn c07(g: &Grammar, thorough: bool) -> Plan {
    let mut sp = small(g);
    sp.merge(derive(g, &|n| matches!(n, "expression" | "statement" | "declaration" | "class_body" | "soql_query_body"), 2, 0, thorough));
    if thorough {
        sp = big(g, false);
    }
    let mut cases = programs(g, &sp, CaseMode::Lower);
    cases.extend(files(false).into_iter().filter(|c| look(&c.src).0.comments.is_empty()));
    cases.extend(extra::some(g));
    plan(&sp, cases, format!("{SMALL}; {SOME}; expressions, statements, declarations, bodies and queries with <=2 deviations; each at every width from 1 to its unbroken width + 2 (at most 142)"), |c| {
        let Ok(wide) = exec::format(&c.src, 100_000, c.indent) else { return vacuous(1, "refused") };
        let top = max_line(&wide).min(140) as u32 + 2;
        let Ok(narrow) = exec::format(&c.src, 1, c.indent) else { return broken(1, "refused at width 1 only", wide) };
        let breaks: Vec<usize> = lines_of(&narrow).iter().map(|l| l.0).collect();
        let mut prev: (u32, String) = (100_000, wide);
        let mut n = 2;
        for w in (1..=top).rev() {
            let o = match exec::format(&c.src, w, c.indent) {
                Ok(o) => o,
                Err(e) => return broken(n, "refused at one width only", format!("{w} {e}")),
            };
            n += 1;
            if squeeze(&o) != squeeze(&prev.1) {
                return broken(n, "WIDTH changes the text", format!("width {w}:\n{o}\nwidth {}:\n{}", prev.0, prev.1));
            }
            if max_line(&prev.1) <= w as usize && o != prev.1 {
                return broken(n, format!("WIDTH layout of {} changed although it fits", c.note), format!("width {w}:\n{o}\nwidth {}:\n{}", prev.0, prev.1));
            }
            for (a, b, len) in lines_of(&o) {
                if len > w as usize && breaks.iter().any(|x| *x > a && *x < b) {
                    return broken(n, format!("WIDTH line of {} over the limit although it can be broken", c.note), format!("width {w}:\n{o}\nwidth 1:\n{narrow}"));
                }
            }
            prev = (w, o);
        }
        held(n, &prev.1)
    })
}

fn lead(l: &str) -> usize {
    l.len() - l.trim_start_matches(' ').len()
}

/// Members one level deeper than the construct which holds them, closing brace aligned with it.
fn nesting(n: tree_sitter::Node, src: &str, unit: usize) -> Option<String> {
    let line = |at: usize| {
        let s = src[..at].rfind('\n').map_or(0, |i| i + 1);
        (src[s..at].chars().all(|c| c == ' '), at - s)
    };
    if comments::is_body(n.kind()) && n.kind() != "parser_output" {
        let mut a = n;
        while !line(a.start_byte()).0 {
            a = a.parent().unwrap();
        }
        let base = line(a.start_byte()).1;
        for i in 0..n.child_count() {
            let c = n.child(i).unwrap();
            let (first, col) = line(c.start_byte());
            if first && c.kind() == "}" && col != base {
                return Some(format!("closing brace of {} not aligned", n.kind()));
            }
            if first && c.is_named() && !c.is_extra() && col != base + unit {
                return Some(format!("{} in {} not one level deeper", c.kind(), n.kind()));
            }
        }
    }
    (0..n.child_count()).find_map(|i| nesting(n.child(i).unwrap(), src, unit))
}

/// Indent sizes to look at: small ones, usual ones, and the numbers of the code with their neighbours.
fn mine_sizes() -> Vec<usize> {
    let mut v: Vec<usize> = (1..=17).chain([24, 32, 33, 64, 65, 100, 128]).chain(crate::mine::sizes(300).into_iter().filter(|n| *n > 17)).collect();
    v.sort();
    v.dedup();
    v
}

fn c08(g: &Grammar, thorough: bool) -> Plan {
    let sp = if thorough { big(g, false) } else { small(g) };
    let mut cases = programs(g, &sp, CaseMode::Lower);
    let few = cases.len();
    cases.extend(files(false).into_iter().filter(|c| look(&c.src).0.comments.is_empty()));
    cases.extend(extra::some(g));
    cases[few..].iter_mut().step_by(if thorough { 1 } else { 8 }).for_each(|c| c.aux = "far".into());
    let mut far: Vec<usize> = mine_sizes();
    far.retain(|n| *n > 8);
    let what = format!("{SMALL}; {SOME}; comment-free fixtures; each at indent sizes 1 to 8, unbroken and at widths 1, 20 and 80; unbroken at indent sizes 9 to 17, some at {far:?}");
    plan(&sp, cases, what, move |c| {
        let Ok(one) = exec::format(&c.src, 1_000_000, 1) else { return vacuous(1, "refused") };
        let mut e = 1;
        for n in 1..=8usize + far.len() {
            let n = if n > 8 { far[n - 9] } else { n };
            if n > 17 && c.aux != "far" {
                continue;
            }
            for w in [1_000_000, 80, 20, 1] {
                if w < 1_000_000 && n > 8 {
                    continue;
                }
                e += 1;
                let Ok(o) = exec::format(&c.src, w, n as u32) else { return broken(e, "refused at one size only", one) };
                if w == 1_000_000 {
                    let exp: String = one.lines().map(|l| format!("{}{}\n", " ".repeat(lead(l) * n), l.trim_start_matches(' '))).collect();
                    if o != exp {
                        return broken(e, "INDENT not proportional", format!("size {n}\n{o}\n{exp}"));
                    }
                }
                if let Some(l) = o.lines().find(|l| lead(l) % n != 0 || l.trim_start_matches(' ').starts_with('\t')) {
                    return broken(e, format!("INDENT not a multiple: {}", c.note), format!("size {n} width {w}\n{l}\n{o}"));
                }
                let t = oracle::parse(&o);
                if !t.root_node().has_error() {
                    if let Some(d) = nesting(t.root_node(), &o, n) {
                        return broken(e, format!("INDENT {d}"), format!("size {n} width {w}\n{o}"));
                    }
                }
            }
        }
        held(e, &one)
    })
}

fn no_blank(s: &str) -> String {
    s.lines().filter(|l| !l.trim().is_empty()).collect::<Vec<_>>().join("\n")
}

fn texts(v: &View) -> Vec<&str> {
    v.leaves.iter().map(|l| l.text.as_str()).collect()
}

/// The same tokens with another separator everywhere.
fn respaced(src: &str, sep: &str) -> String {
    let gs = comments::gaps(src);
    let mut s = String::new();
    for w in gs.windows(2) {
        s.push_str(&src[w[0].1..w[1].0]);
        s.push_str(sep);
    }
    s
}

fn c09(g: &Grammar, thorough: bool) -> Plan {
    let sp = if thorough { big(g, false) } else { small(g) };
    let mut cases = vec![];
    let mut add = |src: String, like: &str, note: String| {
        let mut c = Case::new(src, 80, 2, note);
        c.aux = like.to_string();
        cases.push(c);
    };
    for p in &sp.progs {
        let r = lower(p);
        for (i, s) in [" ", "\n", "\n\n", "\t", "  \r\n  ", "\u{c}", "", "\n\n\n\n\n\n\n\n\n", &" ".repeat(130), &format!("\n{}", " ".repeat(300))].iter().enumerate() {
            add(join(&p.toks, CaseMode::Lower, |_| s.to_string()) + "\n", &r, format!("{} uniform {i}", g.names[p.root]));
        }
        add(format!("\n\n  {}", r), &r, format!("{} leading", g.names[p.root]));
        add(r.trim_end().to_string(), &r, format!("{} no final newline", g.names[p.root]));
        add(r.replace('\n', "\r\n"), &r, format!("{} crlf", g.names[p.root]));
    }
    let wide = " ".repeat(150);
    let far: Vec<String> = [300, 70_000].iter().flat_map(|n| [" ".repeat(*n), "\n".repeat(*n)]).collect();
    for p in &derive(g, &any, 0, 0, false).progs {
        let r = lower(p);
        for f in &far {
            add(format!("{f}{r}"), &r, format!("{} far {}", g.names[p.root], f.len()));
        }
    }
    for p in &small(g).progs {
        let r = lower(p);
        for i in 0..p.toks.len().saturating_sub(1) {
            for s in ["\n", "\n\n", "", "\n\n\n\n\n\n", wide.as_str()] {
                let t = join(&p.toks, CaseMode::Lower, |j| if i == j { s.to_string() } else { default_sep(&p.toks, j).to_string() }) + "\n";
                if t != r {
                    add(t, &r, format!("{} gap {:?}", g.names[p.root], s));
                }
            }
        }
    }
    for c in extra::some(g) {
        for sep in [" ", "\n", "\r\n\t"] {
            add(respaced(&c.src, sep), &c.src, format!("{} {sep:?}", c.note));
        }
    }
    for (n, s) in fixtures().into_iter().chain(battle()) {
        if look(&s).0.comments.is_empty() {
            for sep in [" ", "\n", "\r\n\t"] {
                add(respaced(&s, sep), &s, format!("{n} {sep:?}"));
            }
        }
    }
    plan(&sp, cases, format!("{SMALL}, with each of 10 separators (lists and towers: 3 of them) everywhere, 5 separators in each single gap, behind up to 70000 blanks or lines, and changed file start, end and line ends; comment-free fixtures and corpus files respaced"), |c| {
        let (x, okx) = look(&c.src);
        let (y, oky) = look(&c.aux);
        if !okx || !oky || texts(&x) != texts(&y) {
            return vacuous(0, "not the same tokens");
        }
        let a = exec::format(&c.aux, c.width, c.indent);
        let b = exec::format(&c.src, c.width, c.indent);
        match (a, b) {
            (Err(_), Err(_)) => vacuous(2, "refused"),
            (Ok(a), Ok(b)) if no_blank(&a) == no_blank(&b) => held(2, &b),
            (Ok(a), Ok(b)) => broken(2, format!("LAYOUT {}", c.note), format!("{a}\n-- other layout\n{b}")),
            (a, b) => broken(2, format!("LAYOUT refused {}", c.note), format!("{a:?}\n{b:?}")),
        }
    })
}

/// Blank lines in the gap that follows the first `k` leaves.
fn blanks_after(v: &View, s: &str, k: usize) -> usize {
    let a = v.leaves[..k].iter().map(|l| l.end).max().unwrap_or(0);
    let b = v.leaves[k..].iter().map(|l| l.start).min().unwrap_or(s.len());
    if a > b {
        return 0;
    }
    let n = s[a..b].matches('\n').count();
    if a == 0 || b == s.len() {
        n
    } else {
        n.saturating_sub(1)
    }
}

/// (number of leaves before, blank lines in the source, blank lines allowed) of every boundary.
fn boundaries(s: &str) -> Vec<(usize, usize, bool, String)> {
    let (v, _) = look(s);
    let mut out = vec![];
    for g in comments::gaps(s) {
        if g.2 != Gap::Body {
            continue;
        }
        let k = v.leaves.iter().filter(|l| l.start < g.0).count();
        let n = s[g.0..g.1].matches('\n').count();
        let n = if g.0 == 0 { n } else { n.saturating_sub(1) };
        let edge = g.3.contains(" {|") || g.3.ends_with("|}") || g.3.ends_with(" file");
        out.push((k, n, !edge, g.3));
    }
    out
}

/// The same around runs of lone semicolons, where it is plain what is wanted: (leaves before, wanted, what).
fn semicolons(s: &str) -> Vec<(usize, usize, String)> {
    let (v, _) = look(s);
    let gs = comments::gaps(s);
    let mut out = vec![];
    let mut i = 0;
    while i < gs.len() {
        let from = i;
        while gs[i].3.ends_with("|empty") {
            i += 1;
        }
        if i > from && from > 0 {
            let nl: Vec<usize> = gs[from..=i].iter().map(|g| s[g.0..g.1].matches('\n').count()).collect();
            let edge = gs[from].3.contains(" {|") || gs[i].3.ends_with("|}") || gs[i].3.ends_with(" file");
            let k = v.leaves.iter().filter(|l| l.start < gs[from].0).count();
            if !edge && nl.iter().any(|n| *n > 1) {
                out.push((k, 1, gs[i].3.clone()));
            } else if !edge && nl[..nl.len() - 1].iter().all(|n| *n == 0) {
                out.push((k, 0, gs[i].3.clone()));
            }
        }
        i += 1;
    }
    out
}

fn c10(g: &Grammar, thorough: bool) -> Plan {
    let sp = if thorough { big(g, false) } else { small(g) };
    let mut cases = vec![];
    let mut sp = sp;
    sp.merge(extra::body_pairs(g));
    sp.merge(long_lists(g, 6, if thorough { 2 } else { 1 }));
    sp.merge(long_lists(g, 13, 1));
    for p in &sp.progs {
        let r = lower(p);
        let gs: Vec<_> = comments::gaps(&r).into_iter().filter(|g| g.2 == Gap::Body).collect();
        // one gap at a time
        for (i, g0) in gs.iter().enumerate() {
            for s in ["\n\n", "\n \n\n", "\n\n\t\n\n"] {
                let s = if g0.0 == 0 { &s[1..] } else { s };
                cases.push(Case::new(format!("{}{s}{}", &r[..g0.0], r[g0.1..].trim_start()), 80, 2, format!("gap {i} {}", g0.3)));
            }
        }
        // all gaps alike
        let many: Vec<String> = [5, 6, 7, 8, 9, 10, 11, 12, 16, 20, 33, 65, 129, 256, 257].iter().map(|n| "\n".repeat(*n)).collect();
        let few = [" ", "\n", "\n\n", "\n\n\n"];
        for s in few.into_iter().chain(many.iter().map(|s| s.as_str()).filter(|_| p.devs < 2)) {
            let mut t = String::new();
            let mut at = 0;
            for x in &gs {
                t.push_str(&r[at..x.0]);
                t.push_str(s);
                at = x.1;
            }
            t.push_str(&r[at..]);
            cases.push(Case::new(t, 20, 2, format!("all {} {:?} {}", s.len(), &s[..s.len().min(3)], g.names[p.root])));
        }
    }
    // far down in a file
    for n in (250..260).chain([511, 512, 1023, 1024, 4095, 4096, 32767, 32768]).chain(65530..65540).chain([100_000, 131_071, 131_072]) {
        for b in ["", "\n", "\n\n\n"] {
            let t = format!("{}class A {{\n  Integer a;\n{b}  Integer b;\n{b}  void f() {{\n    a();\n{b}    b();\n{b}    c();\n  }}\n}}\n", "\n".repeat(n));
            cases.push(Case::new(t, 80, 2, format!("line {n}")));
        }
    }
    for n in crate::mine::sizes(300) {
        let texts = ["class W {\nvoid w ( ) {\n#\n}\n}\n", "class W {\n#\n}\n", "interface W {\n#\n}\n", "class W {\nW ( ) {\nthis ( a ) ;\n#\n}\n}\n", "trigger T on A ( before insert ) {\n#\n}\n"];
        let items = [["a ( ) ;", "if ( a ) {\nb ( ) ;\n}"], ["Integer a ;", "void f ( ) {\n}"], ["void f ( ) ;", "A g ( B b ) ;"], ["a = b ;", "return a ;"], ["a ( ) ;", "Integer b ;"]];
        for (t, it) in texts.iter().zip(items) {
            for pat in 0..4 {
                let mut b = String::new();
                for i in 0..n {
                    b.push_str(it[i % 2]);
                    if i + 1 < n {
                        b.push_str(if [false, true, i % 2 == 0, i + 2 == n][pat] { "\n\n" } else { "\n" });
                    }
                }
                cases.push(Case::new(t.replace('#', &b), 80, 2, format!("{n} in a body, pattern {pat}")));
            }
        }
    }
    plan(&sp, cases, format!("{SMALL}, every pair of neighbours in a body, and lists of 6 and 13, with 0 to 3 blank lines in each single gap between statements and members and 0 to 256 in all of them, and behind up to 131072 lines; bodies of up to 301 elements"), |c| {
        let (v, ok) = look(&c.src);
        if !ok {
            return vacuous(0, "invalid");
        }
        let Ok(o) = exec::format(&c.src, c.width, c.indent) else { return vacuous(1, "refused") };
        let (w, _) = look(&o);
        if v.leaves.len() != w.leaves.len() {
            return vacuous(1, "tokens changed (C01)");
        }
        for (k, want, d) in semicolons(&c.src) {
            let got = blanks_after(&w, &o, k);
            if got != want {
                return broken(1, format!("BLANK {got} for {want} [{d}]"), o);
            }
        }
        for (k, n, inner, d) in boundaries(&c.src) {
            if d.contains("empty") {
                continue;
            }
            let got = blanks_after(&w, &o, k);
            if d.starts_with("switch_block ") || d.starts_with("accessor_list ") {
                // between the branches of a switch and the accessors of a property: none is promised
                if got > (inner as usize).min(n) {
                    return broken(1, format!("BLANK {got} for {n} [{d}]"), o);
                }
                continue;
            }
            let want = if inner { n.min(1) } else { (k == w.leaves.len()) as usize };
            if got != want {
                return broken(1, format!("BLANK {got} for {n} [{d}]"), o);
            }
        }
        held(1, &o)
    })
}

fn clean(c: &Case) -> Obs {
    let mut e = 0;
    let mut last = String::new();
    let sweep: Vec<u32> = (2..20).chain((21..60).step_by(3)).chain((61..120).step_by(7)).collect();
    for w in if c.note.ends_with(" sweep") { sweep } else { WIDTHS.to_vec() } {
        e += 1;
        let Ok(o) = exec::format(&c.src, w, c.indent) else { return vacuous(e, "refused") };
        if o == last {
            continue;
        }
        let bad = |s: &str| broken(e, format!("TEXT {s}"), format!("width {w}\n{o}"));
        if o.trim().is_empty() && !c.src.trim().is_empty() {
            return bad("empty");
        }
        if !o.ends_with('\n') || o.ends_with("\n\n") {
            return bad("does not end with one newline");
        }
        if o.starts_with('\n') || o.starts_with(' ') {
            return bad("starts with a blank");
        }
        let (v, _) = look(&o);
        let mut spans: Vec<(usize, usize)> = v.leaves.iter().map(|l| (l.start, l.end)).chain(v.comments.iter().map(|c| (c.start, c.end))).collect();
        spans.sort();
        spans.push((o.len(), o.len()));
        let mut at = 0;
        for (a, b) in spans {
            if a > at {
                let g = &o[at..a];
                if g.contains('\t') || g.contains('\r') {
                    return bad("tab or carriage return");
                }
                if g.contains(" \n") {
                    return bad(&format!("trailing blank: {}", c.note));
                }
                if g.contains("\n\n\n") {
                    return bad("two blank lines");
                }
                if !g.contains('\n') && g.contains("  ") {
                    return bad(&format!("two blanks in a row: {}", c.note));
                }
            }
            at = at.max(b);
        }
        last = o;
    }
    held(e, &last)
}

fn c17(g: &Grammar, thorough: bool) -> Plan {
    let sp = big(g, thorough);
    let mut cases = programs(g, &sp, CaseMode::Lower);
    cases.extend(extra::all(g, thorough));
    for p in &small(g).progs {
        cases.push(Case::new(join(&p.toks, CaseMode::Lower, |_| "\t\r\n\r\n \r\n".into()) + "\n", 80, 2, &g.names[p.root]));
    }
    cases.extend(comments::cases_if(&derive(g, &any, 1, 0, thorough).progs, &|g, k| g.2 == Gap::Body && k != 6 && k != 7, 80));
    cases.extend(files(true));
    for p in &small(g).progs {
        if let Some(c) = programs(g, &Space { progs: vec![p.clone()], derivations: 0, rejected: 0 }, CaseMode::Lower).pop() {
            cases.push(Case { note: format!("{} sweep", c.note), ..c });
        }
    }
    plan(&sp, cases, format!("{BIG}; tabs, carriage returns and blank lines in every gap; comments at every gap between statements and members; all fixtures and corpus files; each at widths 80, 20 and 1; the second space at 40 widths from 2 to 117"), clean)
}

fn c21(g: &Grammar, thorough: bool) -> Plan {
    let mut sp = derive(g, &any, 1, 0, thorough);
    sp.merge(derive(g, &any, if thorough { 1 } else { 0 }, 3, false));
    let mut cases = comments::blank_cases(&sp.progs);
    cases.extend(extra::comment_runs(thorough));
    cases.extend(extra::blank_runs(thorough));
    for n in (250..260).chain([511, 512, 1023, 1024, 4095, 4096, 32767, 32768]).chain(65530..65540).chain([100_000, 131_071, 131_072]) {
        for b in ["", "\n", "\n\n\n"] {
            let t = format!("{}class A {{\n  Integer a;\n{b}  // c\n{b}  Integer b;\n{b}  /* d */\n{b}  void f() {{\n    a();\n{b}    b(); // d\n{b}    c();\n  }}\n}}\n", "\n".repeat(n));
            cases.push(Case::new(t, 80, 2, format!("line {n}")));
        }
    }
    plan(&sp, cases, format!("every grammar symbol with <=1 deviation and the full derivations x every boundary gap x 9 comments or pairs of comments x 0 to 2 (7, 13, 40) blank lines above, between and below; behind up to 131072 lines; {RUNS}; {}", extra::BLANKRUNS), comments::blank_pattern)
}

fn c22(g: &Grammar, thorough: bool) -> Plan {
    let sp = big(g, thorough);
    let mut cases = vec![];
    for p in &sp.progs {
        let r = lower(p);
        for m in [CaseMode::Upper, CaseMode::Mixed] {
            let mut c = Case::new(layout_lines(&p.toks, m), 80, 2, &g.names[p.root]);
            if c.src != r {
                c.aux = r.clone();
                for w in [20, 1] {
                    cases.push(Case { width: w, ..c.clone() });
                }
                cases.push(c);
            }
        }
        // one token at a time
        for i in 0..if thorough || p.devs < 2 { p.toks.len() } else { 0 } {
            for m in [CaseMode::Upper, CaseMode::Mixed] {
                let t = spell(&p.toks[i], m);
                if t != spell(&p.toks[i], CaseMode::Lower) {
                    let mut toks = p.toks.clone();
                    toks[i].text = t.clone();
                    toks[i].keyword = false;
                    let s = layout_lines(&toks, CaseMode::Lower);
                    let mut c = Case::new(s, 80, 2, format!("{} {t}", g.names[p.root]));
                    c.aux = r.clone();
                    cases.push(c);
                }
            }
        }
    }
    plan(&sp, cases, format!("{BIG}, with all keywords in lower, upper and mixed case, and each single keyword in upper and mixed case; widths 80, 20, 1"), |c| {
        if !oracle::valid(&c.src) {
            return vacuous(0, "invalid");
        }
        let (Ok(a), Ok(b)) = (exec::format(&c.aux, c.width, c.indent), exec::format(&c.src, c.width, c.indent)) else { return vacuous(2, "refused") };
        if a.to_lowercase() == b.to_lowercase() {
            return held(2, &b);
        }
        // the grammar reads a few spellings as another construct (`BoOlEaN.class` is an access of a field)
        if oracle::parse(&c.aux).root_node().to_sexp() != oracle::parse(&c.src).root_node().to_sexp() {
            return vacuous(2, "another construct");
        }
        let (a, b) = (a.to_lowercase(), b.to_lowercase());
        let d = a.split_whitespace().zip(b.split_whitespace()).find(|(x, y)| x != y).map_or(String::new(), |(x, y)| format!("{x} / {y}"));
        broken(2, format!("CASE {d}"), format!("{a}\n-- other case\n{b}"))
    })
}
