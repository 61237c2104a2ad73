//! The program spaces the properties quantify over.
use crate::gram::*;
use crate::oracle;
use std::collections::HashSet;

#[derive(Clone)]
pub struct Prog {
    pub toks: Vec<Tok>,
    pub root: usize,
    pub devs: usize,
}

/// Shapes the parser accepts although they are no Apex at all (`List<>`); see DESIGN.md.
fn outside_of_apex(t: &[Tok]) -> bool {
    t.windows(2).any(|w| {
        (w[0].text == "<" && w[1].text == ">")
            // a member of a number literal
            || (w[0].text.chars().next().map_or(false, |c| c.is_ascii_digit()) && !w[0].text.contains('-') && matches!(w[1].text.as_str(), "." | "?."))
    })
}

/// Trees the parser builds for what is no Apex at all (its grammar descends from a Java grammar):
/// annotated types and type parameters, types and methods declared inside of a block, members of a
/// number, and annotations with scoped names, with nested annotations or with `{..}` as a value.
pub fn no_apex(n: tree_sitter::Node) -> bool {
    let parent = n.parent().map_or("", |p| p.kind());
    let java = match n.kind() {
        "annotated_type" | "element_value_array_initializer" => true,
        "annotation" => parent != "modifiers" || n.child_by_field_name("name").map_or(false, |m| m.kind() == "scoped_identifier"),
        // a member of a number
        "field_access" | "method_invocation" => n.child_by_field_name("object").map_or(false, |o| matches!(o.kind(), "int" | "decimal_floating_point_literal")),
        _ => false,
    };
    if java {
        return true;
    }
    let local = |k: &str| matches!(k, "class_declaration" | "enum_declaration" | "interface_declaration" | "trigger_declaration" | "method_declaration");
    let body = |k: &str| matches!(k, "parser_output" | "class_body" | "interface_body");
    (0..n.named_child_count()).filter_map(|i| n.named_child(i)).any(|c| (local(c.kind()) && !body(n.kind())) || no_apex(c))
}

pub struct Space {
    pub progs: Vec<Prog>,
    /// derivations generated, and how many of them the real parser rejects
    pub derivations: usize,
    pub rejected: usize,
}

/// All grammar-derived programs: every symbol below each of its contexts, every derivation of the
/// symbol with at most `k` deviations from the minimal (rich = 0) or the full (rich > 0) derivation.
pub fn derive(g: &Grammar, roots: &dyn Fn(&str) -> bool, k: usize, rich: u32, all_contexts: bool) -> Space {
    let mut seen = HashSet::new();
    let mut sp = Space { progs: vec![], derivations: 0, rejected: 0 };
    for i in 0..g.names.len() {
        if !roots(&g.names[i]) {
            continue;
        }
        let mut ctx = g.contexts(i);
        if !all_contexts {
            ctx.truncate(1);
        }
        for path in ctx {
            enumerate(g, &path, k, rich, usize::MAX, &mut |c, t| {
                let s = layout_lines(t, CaseMode::Lower);
                if !seen.insert(s.clone()) {
                    return;
                }
                sp.derivations += 1;
                if outside_of_apex(t) {
                    sp.rejected += 1;
                    return;
                }
                let tree = oracle::parse(&s);
                if !tree.root_node().has_error() && !no_apex(tree.root_node()) {
                    sp.progs.push(Prog { toks: t.to_vec(), root: i, devs: c.iter().filter(|x| **x != 0).count() });
                } else {
                    sp.rejected += 1;
                }
            });
        }
    }
    sp.progs.sort_by_key(|p| p.devs);
    sp
}

impl Space {
    /// Union, without repeated programs.
    pub fn merge(&mut self, o: Space) {
        let mut seen: HashSet<String> = self.progs.iter().map(|p| layout_lines(&p.toks, CaseMode::Lower)).collect();
        self.derivations += o.derivations;
        self.rejected += o.rejected;
        for p in o.progs {
            if seen.insert(layout_lines(&p.toks, CaseMode::Lower)) {
                self.progs.push(p);
            }
        }
    }
}

/// A separator is a newline after these tokens in the default layout.
pub fn breaks_after(t: &Tok) -> bool {
    matches!(t.text.as_str(), ";" | "{" | "}")
}

pub fn default_sep(toks: &[Tok], i: usize) -> &'static str {
    if breaks_after(&toks[i]) {
        "\n"
    } else {
        " "
    }
}

/// Sources of the repository's own fixtures and of its unused battle-test corpus.
pub fn fixtures() -> Vec<(String, String)> {
    let mut out = vec![];
    for d in ["static", "prettier80", "comments"] {
        let Ok(rd) = std::fs::read_dir(format!("/repo/tests/{d}")) else { continue };
        let mut ps: Vec<_> = rd.filter_map(|e| e.ok().map(|e| e.path())).filter(|p| p.extension().map_or(false, |x| x == "in")).collect();
        ps.sort();
        for p in ps {
            if let Ok(s) = std::fs::read_to_string(&p) {
                out.push((format!("{d}/{}", p.file_name().unwrap().to_string_lossy()), s));
            }
        }
    }
    out
}

pub fn battle() -> Vec<(String, String)> {
    let mut out = vec![];
    if let Ok(rd) = std::fs::read_dir("/repo/tests/battle_test/top_large_apex_files") {
        let mut ps: Vec<_> = rd.filter_map(|e| e.ok().map(|e| e.path())).collect();
        ps.sort();
        for p in ps {
            if let Ok(s) = std::fs::read_to_string(&p) {
                out.push((p.file_name().unwrap().to_string_lossy().to_string(), s));
            }
        }
    }
    out
}

/// Lists of `n` elements, in the minimal derivations.
pub fn long_lists(g: &Grammar, n: usize, k: usize) -> Space {
    LONG.set(n);
    let mut sp = derive(g, &|_| true, k, 0, false);
    LONG.set(0);
    let count = |p: &Prog| p.toks.len();
    sp.progs.retain(|p| count(p) > n);
    sp
}

/// Every pair of alternatives side by side: two deviations from the derivation in which the symbol
/// itself (not what is below it) is full.
pub fn neighbours(g: &Grammar, roots: &dyn Fn(&str) -> bool) -> Space {
    derive(g, roots, 2, 1, false)
}
