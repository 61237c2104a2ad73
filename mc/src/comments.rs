//! Programs with comments: where comments may stand, and what became of them.
use crate::engine::*;
use crate::exec;
use crate::gram::*;
use crate::oracle::{self, View};
use crate::props::*;
use crate::space::*;
use tree_sitter::Node;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Gap {
    /// between two statements, members, enum constants..., after `{` or before `}` of their body
    Body,
    /// after the comma of a list
    Element,
    Other,
}

pub fn is_body(k: &str) -> bool {
    matches!(k, "parser_output" | "block" | "class_body" | "interface_body" | "constructor_body" | "trigger_body" | "switch_block" | "accessor_list" | "enum_body")
}

fn leaves<'t>(n: Node<'t>, out: &mut Vec<Node<'t>>) {
    if n.is_extra() {
        return;
    }
    if n.child_count() == 0 || n.kind() == "string_literal" {
        if n.end_byte() > n.start_byte() {
            out.push(n);
        }
        return;
    }
    for i in 0..n.child_count() {
        leaves(n.child(i).unwrap(), out);
    }
}

/// (end of the leaf before, start of the leaf after, class, description)
pub fn gaps(src: &str) -> Vec<(usize, usize, Gap, String)> {
    let t = oracle::parse(src);
    let mut ls = vec![];
    leaves(t.root_node(), &mut ls);
    let mut out = vec![(0, ls.first().map_or(src.len(), |l| l.start_byte()), Gap::Body, "start of file".to_string())];
    for w in ls.windows(2) {
        let (a, b) = (w[0], w[1]);
        // smallest node containing both
        let mut n = a.parent();
        while let Some(x) = n {
            if x.end_byte() >= b.end_byte() {
                break;
            }
            n = x.parent();
        }
        let k = n.map_or("parser_output", |x| x.kind());
        let g = if is_body(k) && a.kind() != "," && b.kind() != "," {
            Gap::Body
        } else if a.kind() == "," {
            Gap::Element
        } else {
            Gap::Other
        };
        let d = |x: Node| match x.kind() {
            ";" if x.parent().map_or(false, |p| is_body(p.kind())) => "empty".to_string(),
            _ if x.is_named() => "_".to_string(),
            k => k.to_string(),
        };
        // text which is part of no leaf (`java:`, the digits of a version number)
        let between = &src[a.end_byte()..b.start_byte()];
        let extra = n.map_or(false, |n| (0..n.child_count()).any(|i| n.child(i).unwrap().is_extra()));
        if !between.trim().is_empty() && !extra && !between.contains("//") && !between.contains("/*") {
            let h = a.end_byte() + between.len() - between.trim_start().len();
            out.push((a.end_byte(), h, Gap::Other, format!("{k} {}|hidden", d(a))));
            out.push((h + between.trim().len(), b.start_byte(), Gap::Other, format!("{k} hidden|{}", d(b))));
            continue;
        }
        out.push((a.end_byte(), b.start_byte(), g, format!("{k} {}|{}", d(a), d(b))));
    }
    if let Some(l) = ls.last() {
        out.push((l.end_byte(), src.len(), Gap::Body, "end of file".to_string()));
    }
    out
}

/// The ways to write one comment into a gap: text before, comment, text after.
pub const KINDS: [(&str, &str, &str, &str); 8] = [
    ("trailing line", " ", "// c1", "\n"),
    ("own line", "\n", "// c1", "\n"),
    ("inline block", " ", "/* c1 */", " "),
    ("own block", "\n", "/* c1 */", "\n"),
    ("trailing block", " ", "/* c1 */", "\n"),
    ("leading block", "\n", "/* c1 */", " "),
    ("tall block", "\n", "/*\n * c1\n c2 */", "\n"),
    ("doc", "\n", "/** c1 */", "\n"),
];

pub fn place(src: &str, gap: &(usize, usize, Gap, String), k: usize) -> String {
    let (_, a, c, z) = KINDS[k];
    let a = if gap.0 == 0 { "" } else { a };
    format!("{}{a}{c}{z}{}", &src[..gap.0], src[gap.1..].trim_start_matches(' '))
}

pub fn cases(progs: &[Prog], want: &dyn Fn(Gap) -> bool, kinds: &[usize], width: u32) -> Vec<Case> {
    let mut out = vec![];
    let mut seen = std::collections::HashSet::new();
    for p in progs {
        let s = layout_lines(&p.toks, CaseMode::Lower);
        for g in gaps(&s) {
            if !want(g.2) {
                continue;
            }
            for k in kinds {
                let t = place(&s, &g, *k);
                if seen.insert(hash(&t)) {
                    out.push(Case::new(t, width, 2, format!("{} @ {}", KINDS[*k].0, g.3)));
                }
            }
        }
    }
    out
}

/// Like `cases`, with the choice made per gap and kind.
pub fn cases_if(progs: &[Prog], want: &dyn Fn(&(usize, usize, Gap, String), usize) -> bool, width: u32) -> Vec<Case> {
    let mut out = vec![];
    let mut seen = std::collections::HashSet::new();
    for p in progs {
        let s = layout_lines(&p.toks, CaseMode::Lower);
        for g in gaps(&s) {
            for k in 0..KINDS.len() {
                if want(&g, k) {
                    let t = place(&s, &g, k);
                    if seen.insert(hash(&t)) {
                        out.push(Case::new(t, width, 2, format!("{} @ {}", KINDS[k].0, g.3)));
                    }
                }
            }
        }
    }
    out
}

/// Two comments in one gap, every pair of kinds (the short ones).
pub fn pairs(progs: &[Prog], want: &dyn Fn(&(usize, usize, Gap, String)) -> bool, width: u32) -> Vec<Case> {
    let mut out = vec![];
    let mut seen = std::collections::HashSet::new();
    for p in progs {
        let s = layout_lines(&p.toks, CaseMode::Lower);
        for g in gaps(&s) {
            if !want(&g) {
                continue;
            }
            for i in 0..6 {
                for j in 0..6 {
                    let (_, a, c, z) = KINDS[i];
                    let (_, a2, c2, z2) = KINDS[j];
                    let a = if g.0 == 0 { "" } else { a };
                    let z = format!("{z}{a2}").replace("\n ", "\n").replace(" \n", "\n").replace("\n\n", "\n").replace("  ", " ");
                    let t = format!("{}{a}{c}{z}{}{z2}{}", &s[..g.0], c2.replace("c1", "c2"), s[g.1..].trim_start_matches(' '));
                    if seen.insert(hash(&t)) {
                        out.push(Case::new(t, width, 2, format!("{}, {} @ {}", KINDS[i].0, KINDS[j].0, g.3)));
                    }
                }
            }
        }
    }
    out
}

/// Comments in two different gaps, every pair of gaps and of kinds 0 to 2, and one in every gap.
pub fn spread(progs: &[Prog], want: &dyn Fn(&(usize, usize, Gap, String), usize) -> bool, width: u32) -> Vec<Case> {
    let mut out = vec![];
    let mut seen = std::collections::HashSet::new();
    for p in progs {
        let s = layout_lines(&p.toks, CaseMode::Lower);
        let gs = gaps(&s);
        let mut add = |at: &[(usize, usize)], note: String| {
            let mut t = s.clone();
            for (n, (i, k)) in at.iter().enumerate().rev() {
                let (_, a, c, z) = KINDS[*k];
                let g = &gs[*i];
                let a = if g.0 == 0 { "" } else { a };
                t = format!("{}{a}{}{z}{}", &t[..g.0], c.replace("c1", &format!("c{n}")), t[g.1..].trim_start_matches(' '));
            }
            if seen.insert(hash(&t)) {
                out.push(Case::new(t, width, 2, note));
            }
        };
        for k in 0..KINDS.len() {
            let at: Vec<_> = (0..gs.len()).filter(|i| want(&gs[*i], k)).map(|i| (i, k)).collect();
            if at.len() > 1 {
                add(&at, format!("{} in every gap of {}", KINDS[k].0, gs[at[0].0].3));
            }
        }
        for i in 0..gs.len() {
            for j in i + 1..gs.len() {
                for k in 0..9 {
                    if want(&gs[i], k / 3) && want(&gs[j], k % 3) {
                        add(&[(i, k / 3), (j, k % 3)], format!("{} @ {}, {} @ {}", KINDS[k / 3].0, gs[i].3, KINDS[k % 3].0, gs[j].3));
                    }
                }
            }
        }
    }
    out
}

/// Lines of a block comment are indented anew; documentation comments get one star per line.
fn norm_comment(s: &str) -> String {
    let s = s.trim();
    if s.starts_with("/**") && s != "/**/" {
        let b = s[3..].strip_suffix("*/").unwrap_or(s[3..].trim_start_matches('/'));
        let lines: Vec<&str> = b.lines().map(|l| l.trim()).map(|l| l.strip_prefix('*').unwrap_or(l).trim()).collect();
        return lines.join("\n").trim_matches('\n').to_string();
    }
    s.lines().map(|l| l.trim()).collect::<Vec<_>>().join("\n")
}

/// The comments in order. A line comment in front of `,` or `;` may move behind it, passing the block
/// comments in front of it (documented by the fixture punc_and_comment_flip).
fn comments(v: &View) -> Vec<(bool, String)> {
    let mut at: Vec<(usize, bool, String)> = v.comments.iter().map(|c| (c.after, c.line, norm_comment(&c.text))).collect();
    for c in at.iter_mut() {
        // (comments in front of the parenthesis of a `for` belong to the first part of its header)
        if c.1 && v.leaves.get(c.0).map_or(false, |l| l.text == "(" && l.parent == "for_statement") && v.leaves.get(c.0 + 1).map_or(false, |l| l.text == ";") {
            c.0 += 1;
        }
        if c.1 && v.leaves.get(c.0).map_or(false, |l| matches!(l.text.as_str(), "," | ";")) {
            c.0 += 1;
        }
    }
    at.sort_by_key(|c| c.0);
    at.into_iter().map(|c| (c.1, c.2)).collect()
}

pub fn survive(c: &Case) -> Obs {
    if !oracle::valid(&c.src) {
        return vacuous(0, "invalid");
    }
    let Ok(out) = exec::format(&c.src, c.width, c.indent) else { return vacuous(1, "refused") };
    let (a, _) = look(&c.src);
    let (b, ok) = look(&out);
    if !ok {
        return broken(1, format!("COMMENT output is malformed: {}", c.note), out);
    }
    if let Some((_, d)) = diff(&a, &b) {
        return broken(1, format!("COMMENT changes code: {} {d}", c.note), out);
    }
    let plain = |v: &View| v.comments.iter().map(|c| (c.line, norm_comment(&c.text))).collect::<Vec<_>>();
    if plain(&a) != plain(&b) && comments(&a) != comments(&b) {
        return broken(1, format!("COMMENT changed: {}", c.note), out);
    }
    held(1, &out)
}

pub fn accepted(c: &Case) -> Obs {
    if !oracle::valid(&c.src) {
        return vacuous(0, "invalid");
    }
    match exec::format(&c.src, c.width, c.indent) {
        Ok(o) => held(1, &o),
        Err(e) => broken(1, format!("REFUSED {} [{}]", e.chars().take(60).collect::<String>(), c.note), e),
    }
}

pub fn stable(c: &Case) -> Obs {
    if !oracle::valid(&c.src) {
        return vacuous(0, "invalid");
    }
    let Ok(a) = exec::format(&c.src, c.width, c.indent) else { return vacuous(1, "refused") };
    match exec::format(&a, c.width, c.indent) {
        Ok(b) if a == b => held(2, &a),
        Ok(b) => broken(2, format!("UNSTABLE [{}]", c.note), format!("{a}-- second time\n{b}")),
        Err(e) => broken(2, format!("UNSTABLE refused [{}]", c.note), format!("{a}-- second time\n{e}")),
    }
}

/// Does only blank space stand between the start of the line and the comment / the comment and its end?
fn lonely(src: &str, start: usize, end: usize) -> (bool, bool) {
    let before = src[..start].rsplit('\n').next().unwrap_or("").trim().is_empty();
    let after = src[end..].split('\n').next().unwrap_or("").trim().is_empty();
    (before, after)
}

pub fn in_place(c: &Case) -> Obs {
    if !oracle::valid(&c.src) {
        return vacuous(0, "invalid");
    }
    let Ok(out) = exec::format(&c.src, c.width, c.indent) else { return vacuous(1, "refused") };
    let (a, _) = look(&c.src);
    let (b, ok) = look(&out);
    if !ok || a.comments.len() != b.comments.len() {
        return vacuous(1, "not kept (C03)");
    }
    for (x, y) in a.comments.iter().zip(&b.comments) {
        if x.after != y.after {
            return broken(1, format!("MOVED over code [{}]", c.note), out);
        }
        let (p, q) = (lonely(&c.src, x.start, x.end), lonely(&out, y.start, y.end));
        if p.0 && p.1 && !(q.0 && q.1) {
            return broken(1, format!("JOINED own line lost [{}]", c.note), out);
        }
        if !p.0 && p.1 && q.0 {
            return broken(1, format!("SPLIT trailing comment alone [{}]", c.note), out);
        }
    }
    held(1, &out)
}

const RUNS: [(&str, &str, &str); 9] = [
    // text, how it is attached to the code before it, name
    ("// c1", "\n", "own line"),
    ("/* c1 */", "\n", "own block"),
    ("/*\n * c1\n */", "\n", "tall block"),
    ("/** c1 */", "\n", "doc"),
    ("// c1", " ", "trailing line"),
    ("/* c1 */", " ", "trailing block"),
    ("// c1#// c2", "\n", "two lines"),
    ("// c1#/** c2 */", "\n", "line and doc"),
    ("/* c1 */ // c2", " ", "two trailing"),
];

/// Comments between two statements or members, with 0 to 2 blank lines around each.
pub fn blank_cases(progs: &[Prog]) -> Vec<Case> {
    let mut out = vec![];
    let mut seen = std::collections::HashSet::new();
    for p in progs {
        let s = layout_lines(&p.toks, CaseMode::Lower);
        for g in gaps(&s) {
            if g.2 != Gap::Body || g.3.contains("empty") {
                continue;
            }
            for (t, first, name) in RUNS {
                for (a, b) in [(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (0, 2), (2, 2), (7, 0), (0, 7), (13, 40)] {
                    if a + b > 4 && p.devs > 0 {
                        continue;
                    }
                    let own = first == "\n";
                    let before = if own { "\n".repeat(a + (g.0 > 0) as usize) } else if g.0 > 0 { " ".to_string() } else { continue };
                    if !own && a > 0 {
                        continue;
                    }
                    let inner = t.replace('#', &"\n".repeat(1 + (a + b) % 3));
                    let text = format!("{}{before}{inner}{}{}", &s[..g.0], "\n".repeat(b + 1), s[g.1..].trim_start());
                    if seen.insert(hash(&text)) {
                        out.push(Case::new(text, 80, 2, format!("{name} @ {}", g.3)));
                    }
                }
            }
        }
    }
    out
}

/// Leaves and comments of every boundary gap, in order, with the blank lines between them.
fn blank_lines(src: &str) -> Vec<(String, Vec<usize>)> {
    let (v, _) = look(src);
    let mut out = vec![];
    for g in gaps(src) {
        if g.2 != Gap::Body {
            continue;
        }
        let mut at = g.0;
        let mut n = vec![];
        for c in v.comments.iter().filter(|c| c.start >= g.0 && c.end <= g.1) {
            n.push(src[at..c.start].matches('\n').count());
            at = c.end;
        }
        n.push(src[at..g.1].matches('\n').count());
        out.push((g.3, n));
    }
    out
}

pub fn blank_pattern(c: &Case) -> Obs {
    if !oracle::valid(&c.src) {
        return vacuous(0, "invalid");
    }
    let Ok(out) = exec::format(&c.src, c.width, c.indent) else { return vacuous(1, "refused") };
    let (a, b) = (blank_lines(&c.src), blank_lines(&out));
    if a.len() != b.len() || a.iter().zip(&b).any(|(x, y)| x.1.len() != y.1.len()) {
        return vacuous(1, "boundaries changed (C01, C16)");
    }
    for (x, y) in a.iter().zip(&b) {
        let last = x.1.len() - 1;
        if x.0.contains("empty") || last == 0 {
            continue;
        }
        for i in 0..=last {
            let start = i == 0 && (x.0.contains(" {|") || x.0.starts_with("start"));
            let end = i == last && (x.0.ends_with("|}") || x.0.starts_with("end"));
            let (n, m) = (x.1[i].saturating_sub(1), y.1[i].saturating_sub(1));
            let want = if start || end { 0 } else { n.min(1) };
            // between the branches of a switch and the accessors of a property none is promised
            let loose = x.0.starts_with("switch_block ") || x.0.starts_with("accessor_list ");
            if m > want || (m < want && !loose) {
                let which = if i == 0 { "above" } else if i == last { "below" } else { "between" };
                return broken(1, format!("BLANK {m} instead of {want} {which} [{}]", c.note), out);
            }
        }
    }
    held(1, &out)
}
