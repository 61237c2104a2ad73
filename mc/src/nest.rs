//! C19: nesting. Every construct that can hold a construct of its own class (expression in expression,
//! statement in statement, type in type, condition in condition, block in block, query in query, ...)
//! is a frame: the text in front of and behind the hole. Frames are read off the parse trees of the
//! derived programs and composed to towers.
use crate::engine::*;
use crate::exec;
use crate::gram::*;
use crate::oracle;
use crate::props::*;
use crate::space::{self, no_apex};
use std::collections::{BTreeMap, HashMap};
use tree_sitter::Node;

#[derive(Clone, Debug)]
struct Frame {
    name: String,
    pre: String,
    suf: String,
    /// a program around the frame, and what fills its hole
    before: String,
    seed: String,
    after: String,
}

/// Super-types: a member of one can stand wherever another member can.
const SUPER: [&str; 6] = ["expression", "primary_expression", "statement", "_type", "_boolean_expression", "_condition_expression"];

fn classes(g: &Grammar) -> HashMap<String, &'static str> {
    let mut m = HashMap::new();
    for s in SUPER {
        let Some(i) = g.index.get(s) else { continue };
        let class = match s {
            "primary_expression" => "expression",
            "_condition_expression" => "_boolean_expression",
            s => s,
        };
        for k in g.members(*i) {
            m.entry(k).or_insert(class);
        }
    }
    m
}

fn class_of<'a>(m: &HashMap<String, &'static str>, n: Node<'a>) -> &'static str {
    // `( condition )` has no node of its own
    m.get(n.kind()).copied().unwrap_or(n.kind())
}

/// Closest descendants of `x` which are of its class.
fn holes<'t>(m: &HashMap<String, &'static str>, class: &str, n: Node<'t>, path: String, out: &mut Vec<(Node<'t>, String)>) {
    let mut c = n.walk();
    if !c.goto_first_child() {
        return;
    }
    loop {
        let k = c.node();
        if k.is_named() {
            let p = format!("{path}/{}", c.field_name().unwrap_or(""));
            if class_of(m, k) == class {
                out.push((k, p));
            } else {
                holes(m, class, k, format!("{p}{}", k.kind()), out);
            }
        }
        if !c.goto_next_sibling() {
            break;
        }
    }
}

fn frames(g: &Grammar, thorough: bool) -> BTreeMap<String, Vec<Frame>> {
    let m = classes(g);
    let mut sp = small(g);
    sp.merge(space::derive(g, &any, 1, 3, false));
    if thorough {
        sp.merge(space::derive(g, &any, 2, 0, false));
    }
    // the smallest frames of every (construct, way to the hole)
    let mut best: BTreeMap<(String, String, String), Vec<Frame>> = BTreeMap::new();
    for p in &sp.progs {
        let s = layout_lines(&p.toks, CaseMode::Lower);
        let t = oracle::parse(&s);
        let mut stack = vec![t.root_node()];
        while let Some(x) = stack.pop() {
            stack.extend((0..x.named_child_count()).filter_map(|i| x.named_child(i)));
            let class = class_of(&m, x);
            let mut hs = vec![];
            holes(&m, class, x, String::new(), &mut hs);
            for (h, path) in hs {
                let f = Frame {
                    name: x.kind().to_string(),
                    pre: s[x.start_byte()..h.start_byte()].into(),
                    suf: s[h.end_byte()..x.end_byte()].into(),
                    before: s[..x.start_byte()].into(),
                    seed: s[h.byte_range()].into(),
                    after: s[x.end_byte()..].into(),
                };
                let plain = |f: &Frame| (f.pre.clone() + "_" + &f.suf).chars().filter(|c| !c.is_ascii_digit()).collect::<String>();
                let size = |f: &Frame| (f.pre.len() + f.suf.len(), f.before.len() + f.after.len() + f.seed.len());
                let v = best.entry((class.to_string(), f.name.clone(), path)).or_default();
                if let Some(i) = v.iter().position(|o| plain(o) == plain(&f)) {
                    if size(&f) < size(&v[i]) {
                        v[i] = f;
                    }
                } else {
                    v.push(f);
                }
                v.sort_by_key(size);
                v.truncate(if thorough { 4 } else { 2 });
            }
        }
    }
    let mut out: BTreeMap<String, Vec<Frame>> = BTreeMap::new();
    for ((class, _, _), mut v) in best {
        // a place where any member of the class can stand
        v.retain(|f| {
            let probes: &[&str] = match class.as_str() {
                "expression" => &["( q )", "q [ 1 ]", "[ select q from q ]"],
                "statement" => &[";", "{\n}", ""],
                _ => &[""],
            };
            probes.iter().any(|p| oracle::valid(&if p.is_empty() { tower(&[f], 2) } else { format!("{}{}{p}{}{}", f.before, f.pre, f.suf, f.after) }))
        });
        out.entry(class).or_default().extend(v);
    }
    out
}

fn tower(fs: &[&Frame], depth: usize) -> String {
    let mut s = fs[0].before.clone();
    for i in 0..depth {
        s.push_str(&fs[i % fs.len()].pre);
    }
    s.push_str(&fs[(depth - 1) % fs.len()].seed);
    for i in (0..depth).rev() {
        s.push_str(&fs[i % fs.len()].suf);
    }
    s.push_str(&fs[0].after);
    s
}

/// Valid towers of every pair of frames.
pub fn towers(g: &Grammar, depths: &[usize]) -> Vec<Case> {
    let mut out = vec![];
    let mut seen = std::collections::HashSet::new();
    for (_, fs) in frames(g, false) {
        for a in &fs {
            for b in &fs {
                let same = a.pre == b.pre && a.suf == b.suf;
                for d in depths {
                    let both = [a, b];
                    let s = tower(if same { &both[..1] } else { &both }, *d);
                    if !seen.insert(hash(&s)) {
                        continue;
                    }
                    let t = oracle::parse(&s);
                    if !t.root_node().has_error() && !no_apex(t.root_node()) {
                        out.push(Case::new(s, 80, 2, format!("{} / {}", a.name, b.name)));
                    }
                }
            }
        }
    }
    out
}

pub fn c19(g: &Grammar, thorough: bool) -> Plan {
    let mut cases = vec![];
    let (mut nf, mut nc) = (0, 0);
    for (class, fs) in frames(g, thorough) {
        nf += fs.len();
        nc += 1;
        if std::env::var("MC_FRAMES").is_ok() {
            for f in &fs {
                println!("{class}: {}: {:?} _ {:?}", f.name, f.pre, f.suf);
            }
        }
        for a in &fs {
            cases.push(case(&[a], if thorough { 64 } else { 40 }));
            for b in &fs {
                if a.pre != b.pre || a.suf != b.suf {
                    cases.push(case(&[a, b], if thorough { 32 } else { 16 }));
                }
            }
        }
    }
    Plan {
        cases,
        eval: Box::new(grows),
        rule: format!("{nf} frames of {nc} classes (a construct that holds a construct of its class, with the smallest texts around the hole), each nested in itself and in every other one of its class; widths 80 and 1; three depths each"),
        derivations: 0,
        rejected: 0,
        assumptions: vec![A_PARSER, "work is measured as the number of allocations, and bounded by a time limit"],
        hang: 20,
    }
}

fn case(fs: &[&Frame], depth: usize) -> Case {
    let mut c = Case::new(tower(fs, depth), 80, 2, fs.iter().map(|f| f.name.clone()).collect::<Vec<_>>().join(" / "));
    c.aux = [depth / 4, depth / 2].iter().map(|d| tower(fs, *d)).collect::<Vec<_>>().join("\u{1}");
    c
}

/// Work must not grow faster than the cube of the depth.
fn grows(c: &Case) -> Obs {
    let mut all: Vec<&str> = c.aux.split('\u{1}').collect();
    all.push(&c.src);
    let mut work = vec![];
    for (i, s) in all.iter().enumerate() {
        if !oracle::valid(s) || no_apex(oracle::parse(s).root_node()) {
            return vacuous(i as u64, "no program at this depth");
        }
        for w in [80, 1] {
            match exec::measured(s, w, c.indent) {
                Err(e) => return broken(work.len() as u64 + 1, format!("NESTING refused: {}", why(&e)), e),
                Ok((_, n)) => work.push(n),
            }
        }
        if work.len() >= 4 {
            let n = work.len();
            for (a, b) in [(work[n - 4], work[n - 2]), (work[n - 3], work[n - 1])] {
                if b > 10 * a {
                    return broken(work.len() as u64, format!("NESTING work grows from {a} to {b} when the depth doubles [{}]", c.note), format!("{work:?}"));
                }
            }
        }
    }
    held(work.len() as u64, &format!("{work:?}"))
}
