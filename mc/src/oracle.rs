//! Independent view of an Apex source text: the token stream and the comments as seen by the parser.
use tree_sitter::{Node, Parser, Tree};

thread_local! {
    static PARSER: std::cell::RefCell<Parser> = std::cell::RefCell::new({
        let mut p = Parser::new();
        p.set_language(&tree_sitter_sfapex::apex::LANGUAGE.into()).unwrap();
        p
    });
}

/// Parser runs made by the oracles.
pub static PARSES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub fn parse(s: &str) -> Tree {
    PARSES.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    PARSER.with(|p| {
        let mut p = p.borrow_mut();
        p.reset();
        p.parse(s, None).unwrap()
    })
}

pub fn valid(s: &str) -> bool {
    !parse(s).root_node().has_error()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Leaf {
    /// normalised text
    pub text: String,
    /// kind of the closest named ancestor (or of the leaf itself)
    pub parent: String,
    pub start: usize,
    pub end: usize,
    pub named: bool,
    pub kind: &'static str,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Comment {
    pub line: bool,
    pub text: String,
    pub start: usize,
    pub end: usize,
    /// number of code leaves before it
    pub after: usize,
}

#[derive(Default, Clone, Debug)]
pub struct View {
    pub leaves: Vec<Leaf>,
    pub comments: Vec<Comment>,
    /// also record where constructs begin and end
    shape: bool,
}

fn leaf(n: Node, src: &str, v: &mut View) {
    let raw = &src[n.start_byte()..n.end_byte()];
    let (text, parent) = if n.is_named() {
        let t = match n.kind() {
            "assignment_operator" => raw.split_whitespace().collect::<String>(),
            // the fixture Literal documents that exponent and suffix are written in lower case
            "decimal_floating_point_literal" => raw.to_lowercase(),
            "int" | "decimal" | "identifier" | "type_identifier" | "string_literal" | "term" | "currency_literal" | "date" | "date_time" => raw.to_string(),
            // everything else is spelled case-insensitively
            _ => raw.to_lowercase().split_whitespace().collect::<Vec<_>>().join(" "),
        };
        (t, n.parent().map(|p| p.kind().to_string()).unwrap_or_default())
    } else {
        (n.kind().to_lowercase(), n.parent().map(|p| p.kind().to_string()).unwrap_or_default())
    };
    if !text.is_empty() {
        v.leaves.push(Leaf { text, parent, start: n.start_byte(), end: n.end_byte(), named: n.is_named(), kind: n.kind() });
    }
}

fn mark(t: &str, at: usize, parent: Node, v: &mut View) {
    v.leaves.push(Leaf { text: t.into(), parent: parent.kind().into(), start: at, end: at, named: false, kind: "" });
}

fn walk(n: Node, src: &str, v: &mut View) {
    let bracket = v.shape
        && n.is_named()
        && !n.is_extra()
        && !matches!(n.kind(), "and_expression" | "or_expression" | "not_expression")
        && !(n.kind() == "annotation_argument_list" && n.named_child_count() == 0);
    if bracket {
        mark(&format!("<{}", n.kind()), n.start_byte(), n, v);
    }
    walk_in(n, src, v);
    if bracket {
        mark(&format!("{}>", n.kind()), n.end_byte(), n, v);
    }
}

fn walk_in(n: Node, src: &str, v: &mut View) {
    if n.is_extra() {
        let raw = src[n.start_byte()..n.end_byte()].to_string();
        v.comments.push(Comment { line: n.kind() == "line_comment", text: raw, start: n.start_byte(), end: n.end_byte(), after: v.leaves.len() });
        return;
    }
    if n.child_count() == 0 {
        leaf(n, src, v);
        return;
    }
    let mut c = n.walk();
    let kids: Vec<Node> = n.children(&mut c).collect();
    // text of the node which belongs to none of its children (`java:`, digits of a version)
    let hidden = |at: usize, to: usize, v: &mut View| {
        let t = src.get(at..to).unwrap_or("");
        if !t.trim().is_empty() {
            let start = at + t.len() - t.trim_start().len();
            v.leaves.push(Leaf { text: t.split_whitespace().collect::<String>().to_lowercase(), parent: n.kind().into(), start, end: start + t.trim().len(), named: false, kind: "" });
        }
    };
    let mut at = n.start_byte();
    let gap = |k: &Node, at: &mut usize| {
        let t = src.get(*at..k.start_byte()).unwrap_or("");
        *at = k.end_byte();
        !t.trim().is_empty()
    };
    if kids.iter().any(|k| gap(k, &mut at)) || !src.get(at..n.end_byte()).unwrap_or("").trim().is_empty() {
        at = n.start_byte();
        for k in kids {
            hidden(at, k.start_byte(), v);
            walk(k, src, v);
            at = k.end_byte();
        }
        hidden(at, n.end_byte(), v);
        return;
    }
    match n.kind() {
        // the documented layout puts annotations first
        "modifiers" => {
            for k in kids.iter().filter(|k| k.is_extra() || k.kind() == "annotation") {
                walk(*k, src, v);
            }
            for k in kids.iter().filter(|k| !k.is_extra() && k.kind() != "annotation") {
                walk(*k, src, v);
            }
        }
        // SOQL conditions: parentheses are canonicalised to the nesting of the operators
        "where_clause" | "having_clause" | "and_expression" | "or_expression" | "not_expression" => {
            let inner = n.kind().ends_with("_expression");
            for k in kids {
                let op = matches!(k.kind(), "and_expression" | "or_expression" | "not_expression");
                if matches!(k.kind(), "(" | ")") {
                    continue;
                }
                let inner = inner && (k.kind() != n.kind() || n.kind() == "not_expression");
                if op && inner {
                    mark("(", k.start_byte(), n, v);
                }
                walk(k, src, v);
                if op && inner {
                    mark(")", k.end_byte(), n, v);
                }
            }
        }
        // one category in parentheses is the category; AS is optional noise
        "with_data_cat_filter" if kids.iter().filter(|k| k.kind() == "identifier").count() == 2 => {
            for k in kids.iter().filter(|k| !matches!(k.kind(), "(" | ")")) {
                walk(*k, src, v);
            }
        }
        "storage_alias" => {
            for k in kids.iter().filter(|k| !k.kind().eq_ignore_ascii_case("as")) {
                walk(*k, src, v);
            }
        }
        // `@A()` is `@A`
        "annotation_argument_list" if kids.iter().all(|k| k.is_extra() || matches!(k.kind(), "(" | ")")) => {
            for k in kids.iter().filter(|k| k.is_extra()) {
                walk(*k, src, v);
            }
        }
        _ => {
            let list = matches!(n.kind(), "parser_output" | "block" | "class_body" | "interface_body" | "constructor_body" | "trigger_body");
            for k in kids {
                // an empty statement means nothing
                if list && k.kind() == ";" {
                    continue;
                }
                walk(k, src, v);
            }
        }
    }
}

pub fn view(src: &str, t: &Tree) -> View {
    let mut v = View::default();
    walk(t.root_node(), src, &mut v);
    v
}

/// The view with the boundaries of all constructs among the leaves.
pub fn shape(src: &str, t: &Tree) -> View {
    let mut v = View { shape: true, ..View::default() };
    walk(t.root_node(), src, &mut v);
    v
}
