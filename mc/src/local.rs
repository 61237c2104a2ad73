//! C23: layout is local. A statement or member is laid out on its own: what stands beside it does not
//! matter, and one more level around it shifts it by one indentation.
use crate::engine::*;
use crate::exec;
use crate::extra;
use crate::gram::*;
use crate::oracle;
use crate::props::*;
use crate::space::*;
use std::collections::{BTreeMap, HashSet};

/// Texts of the statements and members of the derived programs.
fn parts(g: &Grammar, wide: bool, thorough: bool) -> BTreeMap<&'static str, Vec<(String, String)>> {
    let mut sp = small(g);
    if wide {
        sp.merge(derive(g, &any, 1, 3, false));
    }
    if thorough {
        sp.merge(derive(g, &any, 2, 0, false));
    }
    let mut srcs: Vec<String> = sp.progs.iter().map(|p| layout_lines(&p.toks, CaseMode::Lower)).collect();
    if wide {
        srcs.extend(extra::some(g).into_iter().map(|c| c.src));
    }
    let mut out: BTreeMap<&'static str, Vec<(String, String)>> = BTreeMap::new();
    let mut seen = HashSet::new();
    for s in srcs {
        let t = oracle::parse(&s);
        let mut stack = vec![t.root_node()];
        while let Some(n) = stack.pop() {
            let body = match n.kind() {
                "block" => Some("block"),
                "class_body" if n.parent().map_or(false, |p| p.kind() == "class_declaration") => Some("class"),
                _ => None,
            };
            let mut c = n.walk();
            for k in n.named_children(&mut c) {
                stack.push(k);
                if let Some(b) = body {
                    let text = s[k.byte_range()].to_string();
                    let plain: String = text.chars().filter(|c| !c.is_ascii_digit()).collect();
                    if seen.insert(hash(&format!("{b}{plain}"))) && text.len() < 2000 {
                        out.entry(b).or_default().push((k.kind().to_string(), text));
                    }
                }
            }
        }
    }
    out
}

/// The smallest, and the longest one below 300 characters, of each kind.
fn typical(v: &[(String, String)]) -> Vec<(String, String)> {
    let mut m: BTreeMap<&str, (usize, usize)> = BTreeMap::new();
    for (i, (k, t)) in v.iter().enumerate() {
        let e = m.entry(k).or_insert((i, i));
        if t.len() < v[e.0].1.len() {
            e.0 = i;
        }
        if t.len() > v[e.1].1.len() && t.len() < 300 {
            e.1 = i;
        }
    }
    let mut ids: Vec<usize> = m.values().flat_map(|e| [e.0, e.1]).collect();
    ids.sort();
    ids.dedup();
    ids.into_iter().map(|i| v[i].clone()).collect()
}

/// Places of a statement (`#`), and of a member.
const IN_BLOCK: [&str; 20] = [
    "class W {\nvoid w ( ) {\nif ( a ) {\n#\n}\n}\n}\n",
    "class W {\nvoid w ( ) {\nif ( a ) {\nb ( ) ;\n} else {\n#\n}\n}\n}\n",
    "class W {\nvoid w ( ) {\nif ( a ) {\nb ( ) ;\n} else if ( c ) {\n#\n} else {\nd ( ) ;\n}\n}\n}\n",
    "class W {\nvoid w ( ) {\nfor ( A a : b ) {\n#\n}\n}\n}\n",
    "class W {\nvoid w ( ) {\nfor ( Integer i = 0 ; i < 1 ; i ++ ) {\n#\n}\n}\n}\n",
    "class W {\nvoid w ( ) {\nwhile ( a ) {\n#\n}\n}\n}\n",
    "class W {\nvoid w ( ) {\ndo {\n#\n} while ( a ) ;\n}\n}\n",
    "class W {\nvoid w ( ) {\ntry {\n#\n} catch ( E e ) {\nb ( ) ;\n}\n}\n}\n",
    "class W {\nvoid w ( ) {\ntry {\nb ( ) ;\n} catch ( E e ) {\n#\n}\n}\n}\n",
    "class W {\nvoid w ( ) {\ntry {\nb ( ) ;\n} finally {\n#\n}\n}\n}\n",
    "class W {\nvoid w ( ) {\nswitch on a {\nwhen 1 {\n#\n}\nwhen 2 {\nb ( ) ;\n}\n}\n}\n}\n",
    "class W {\nvoid w ( ) {\nswitch on a {\nwhen 1 {\nb ( ) ;\n}\nwhen else {\n#\n}\n}\n}\n}\n",
    "class W {\nvoid w ( ) {\nSystem . runAs ( a ) {\n#\n}\n}\n}\n",
    "class W {\nW ( ) {\n#\n}\n}\n",
    "class W {\nstatic {\n#\n}\n}\n",
    "class W {\n{\n#\n}\n}\n",
    "class W {\nInteger a {\nget {\n#\n}\nset ;\n}\n}\n",
    "trigger T on A ( before insert ) {\n#\n}\n",
    "class W {\nclass V {\n@A\nprivate static A w ( B b ) {\n#\n}\n}\n}\n",
    "class W {\nclass V {\nvoid w ( ) {\nif ( a ) {\nfor ( A a : b ) {\ntry {\nswitch on a {\nwhen 1 {\n#\n}\n}\n} finally {\nb ( ) ;\n}\n}\n}\n}\n}\n}\n",
];
const IN_CLASS: [&str; 4] = [
    "@A\nclass W extends B implements C {\n#\n}\n",
    "public abstract class W < T > {\n#\n}\n",
    "class W {\nInteger a ;\nclass V extends W {\n#\n}\nvoid f ( ) {\n}\n}\n",
    "class U {\nclass V {\nclass W {\nclass X {\nclass Y {\nclass Z {\n#\n}\n}\n}\n}\n}\n}\n",
];

/// Every place of a part inside of every place of a statement (or member).
fn nested(body: &str) -> Vec<String> {
    let (places, head, foot): (&[&str], &str, &str) = if body == "block" { (&IN_BLOCK, "class W {\nvoid w ( ) {\n", "}\n}\n") } else { (&IN_CLASS, "", "") };
    let mut v = vec![];
    for a in places {
        for b in places {
            if let Some(f) = b.strip_prefix(head).and_then(|x| x.strip_suffix(foot)) {
                v.push(a.replace('#', f.trim_end()));
            }
        }
    }
    v
}

/// Lines of a part in a context, without the indentation of the context.
fn within(context: &str, marker: &str, text: &str, width: u32, indent: u32) -> Option<Result<Vec<String>, String>> {
    let frame = exec::format(&context.replace('#', marker), 1000, indent).ok()?;
    let word = marker.split(' ').find(|w| w.starts_with("zz")).unwrap();
    let at = frame.lines().position(|l| l.contains(word))?;
    let lead = frame.lines().nth(at)?.chars().take_while(|c| *c == ' ').count();
    let tail = frame.lines().count() - at - 1;
    let src = context.replace('#', text);
    if !oracle::valid(&src) || no_apex(oracle::parse(&src).root_node()) {
        return None;
    }
    let out = match exec::format(&src, width + lead as u32, indent) {
        Ok(o) => o,
        Err(e) => return Some(Err(e)),
    };
    let ls: Vec<&str> = out.lines().collect();
    if ls.len() < at + tail {
        return Some(Err(out));
    }
    let cut = " ".repeat(lead);
    let v: Option<Vec<String>> = ls[at..ls.len() - tail].iter().filter(|l| !l.is_empty()).map(|l| l.strip_prefix(&cut).map(|x| x.to_string())).collect();
    Some(v.ok_or(out))
}

fn wrap(body: &str, text: &str, deep: usize) -> String {
    match body {
        "block" => format!("class W {{\nvoid w() {{\n{}{text}\n{}}}\n}}\n", "{\n".repeat(deep), "}\n".repeat(deep)),
        _ => format!("{}class W {{\n{text}\n}}\n{}", "class V {\n".repeat(deep), "}\n".repeat(deep)),
    }
}

/// Lines of the part in the formatted wrapper, without the wrapper's indentation.
fn inner(body: &str, out: &str, deep: usize, indent: usize) -> Option<Vec<String>> {
    let head = if body == "block" { 2 } else { 1 } + deep;
    let ls: Vec<&str> = out.lines().collect();
    if ls.len() < 2 * head {
        return None;
    }
    let cut = " ".repeat(head * indent);
    ls[head..ls.len() - head].iter().filter(|l| !l.is_empty()).map(|l| l.strip_prefix(&cut).map(|x| x.to_string())).collect()
}

pub fn c23(g: &Grammar, thorough: bool) -> Plan {
    let mut cases = vec![];
    let mut n = 0;
    for (body, v) in parts(g, true, thorough) {
        n += v.len();
        for (k, t) in &v {
            for w in [80, 40, 20, 1] {
                let mut c = Case::new(t.clone(), w, 2, format!("{body} {k} deeper"));
                c.aux = body.to_string();
                cases.push(c);
            }
        }
    }
    let mut m = 0;
    for (body, v) in parts(g, thorough, thorough) {
        m += v.len();
        let rep = typical(&v);
        for (k, t) in &v {
            for (k2, t2) in &rep {
                for (a, b, x) in [(t, t2, format!("{body} {k} then {k2}")), (t2, t, format!("{body} {k2} then {k}"))] {
                    let mut c = Case::new(a.clone(), if thorough { 80 } else { 40 }, 2, x);
                    c.aux = format!("{body}\u{1}{b}");
                    cases.push(c);
                }
            }
        }
    }
    let mut p = 0;
    for (body, v) in parts(g, false, false) {
        let some = if thorough { v.clone() } else { typical(&v) };
        p += some.len();
        for (k, t) in &some {
            for (i, outer) in nested(body).into_iter().enumerate() {
                let mut c = Case::new(t.clone(), 40, 2, format!("{body} {k} in places {i}"));
                c.aux = format!("{body}\u{2}{outer}");
                cases.push(c);
            }
        }
    }
    Plan {
        cases,
        eval: Box::new(eval),
        rule: format!("{n} statements and members (of the derived programs, lists and towers), each one to three and nine levels deeper at widths 80, 40, 20 and 1, and at 20 places of statements and 4 of members; {m} of them next to a small and a long statement or member of every kind, in both orders, also with comments and blank lines between; {p} of them at every place inside of every other place"),
        derivations: 0,
        rejected: 0,
        assumptions: vec![A_PARSER],
        hang: 20,
    }
}

/// A part inside of two other constructs.
fn placed(c: &Case, body: &str, context: &str) -> Obs {
    let own = c.src.starts_with("this") || c.src.starts_with("super");
    let (marker, lead) = if body == "block" { ("zz ( ) ;", 4) } else { ("Integer zz ;", 2) };
    if own && context.contains("W ( ) {") {
        return vacuous(0, "invalid");
    }
    let Some(a) = exec::format(&wrap(body, &c.src, 0), c.width + lead, 2).ok().and_then(|o| inner(body, &o, 0, 2)) else { return vacuous(1, "refused") };
    match within(context, marker, &c.src, c.width, 2) {
        None => vacuous(2, "invalid"),
        Some(Err(e)) => broken(2, format!("LOCAL [{}]", c.note), e),
        Some(Ok(b)) if a == b => held(2, &c.src),
        Some(Ok(b)) => broken(2, format!("LOCAL [{}]", c.note), format!("{}\n-- in {context}\n{}", a.join("\n"), b.join("\n"))),
    }
}

fn eval(c: &Case) -> Obs {
    if let Some((body, context)) = c.aux.split_once('\u{2}') {
        return placed(c, body, context);
    }
    let Some((body, other)) = c.aux.split_once('\u{1}') else { return deeper(c) };
    let both = wrap(body, &format!("{}\n{other}", c.src), 0);
    if !oracle::valid(&both) || no_apex(oracle::parse(&both).root_node()) {
        return vacuous(0, "invalid");
    }
    let run = |s: &str| exec::format(s, c.width, c.indent).ok().and_then(|o| inner(body, &o, 0, c.indent as usize));
    let (Some(a), Some(b)) = (run(&wrap(body, &c.src, 0)), run(&wrap(body, other, 0))) else { return vacuous(2, "refused") };
    let mut steps = 2;
    for between in ["", "\n/* zz */\n\n"] {
        let both = wrap(body, &format!("{}\n{between}{other}", c.src), 0);
        steps += 1;
        let Some(ab) = run(&both) else { return broken(steps, format!("LOCAL refused together [{}]", c.note), both) };
        let comment = between.lines().find(|l| !l.is_empty()).map(|l| l.to_string());
        let want: Vec<String> = a.iter().cloned().chain(comment).chain(b.iter().cloned()).collect();
        if ab != want {
            return broken(steps, format!("LOCAL [{}]", c.note), format!("{}\n-- instead of\n{}", ab.join("\n"), want.join("\n")));
        }
    }
    held(steps, &a.join("\n"))
}

fn deeper(c: &Case) -> Obs {
    let body = c.aux.as_str();
    if !oracle::valid(&wrap(body, &c.src, 0)) {
        return vacuous(0, "invalid");
    }
    let mut steps = 0;
    for indent in if c.width == 40 { vec![2, 4] } else { vec![2] } {
        let run = |d: usize| exec::format(&wrap(body, &c.src, d), c.width + d as u32 * indent, indent).ok().and_then(|o| inner(body, &o, d, indent as usize));
        let Some(a) = run(0) else { return vacuous(1, "refused") };
        for d in [1, 2, 3, 9] {
            steps += 1;
            let Some(b) = run(d) else { return broken(steps, format!("LOCAL refused deeper [{}]", c.note), c.src.clone()) };
            if a != b {
                return broken(steps, format!("LOCAL [{}]", c.note), format!("{}\n-- {d} levels deeper\n{}", a.join("\n"), b.join("\n")));
            }
        }
    }
    if c.width == 40 {
        let own = c.src.starts_with("this") || c.src.starts_with("super");
        let (places, marker): (&[&str], &str) = if body == "block" { (&IN_BLOCK, "zz ( ) ;") } else { (&IN_CLASS, "Integer zz ;") };
        let lead = if body == "block" { 4 } else { 2 };
        let Some(a) = exec::format(&wrap(body, &c.src, 0), c.width + lead, 2).ok().and_then(|o| inner(body, &o, 0, 2)) else { return vacuous(steps, "refused") };
        for (i, p) in places.iter().enumerate() {
            if own && p.contains("W ( ) {") {
                continue;
            }
            steps += 1;
            match within(p, marker, &c.src, c.width, 2) {
                None => {}
                Some(Err(e)) => return broken(steps, format!("LOCAL place {i} [{}]", c.note), e),
                Some(Ok(b)) if a == b => {}
                Some(Ok(b)) => return broken(steps, format!("LOCAL place {i} [{}]", c.note), format!("{}\n-- in place {i}\n{}", a.join("\n"), b.join("\n"))),
            }
        }
    }
    held(steps + 2, &c.src)
}
