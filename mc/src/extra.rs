//! Further dimensions of the program space: long lists, neighbours, towers, comment texts.
use crate::engine::*;
use crate::gram::*;
use crate::mine;
use crate::nest;
use crate::oracle;
use crate::space::*;

/// Symbols with elements side by side.
const LISTS: [&str; 24] = [
    "block", "class_body", "interface_body", "trigger_body", "constructor_body", "switch_block", "enum_body", "accessor_list", "argument_list", "formal_parameters",
    "binary_expression", "ternary_expression", "and_expression", "or_expression", "if_statement", "try_statement", "modifiers", "array_initializer", "unary_expression",
    "assignment_expression", "cast_expression", "instanceof_expression", "field_access", "do_statement",
];

/// Every pair of alternatives side by side (see `neighbours`).
pub fn pairs(g: &Grammar) -> Space {
    neighbours(g, &|n| LISTS.contains(&n))
}

/// The bodies only.
pub fn body_pairs(g: &Grammar) -> Space {
    neighbours(g, &|n| matches!(n, "block" | "class_body" | "interface_body" | "constructor_body" | "switch_block" | "enum_body" | "accessor_list"))
}

/// Every repetition with many elements, which repeat two in turn.
pub fn lists(g: &Grammar, k: usize, thorough: bool) -> Space {
    let mut sp = long_lists(g, 6, k);
    sp.merge(long_lists(g, 13, 1));
    sp.merge(long_lists(g, 26, if thorough { 2 } else { 1 }));
    if thorough {
        sp.merge(long_lists(g, 70, 1));
        sp.merge(long_lists(g, 150, 1));
    }
    sp
}

fn cases(g: &Grammar, sp: &Space, w: u32) -> Vec<Case> {
    sp.progs.iter().map(|p| Case::new(layout_lines(&p.toks, CaseMode::Lower), w, 2, &g.names[p.root])).collect()
}

const BINARY: [&str; 25] = [
    "==", "===", "!=", "<>", "!==", "&&", "||", "??", "+", "-", "*", "/", "&", "|", "^", "%", "<<", ">>", ">>>", ">", "<", ">=", "<=", "= =", "> =",
];
/// One operator per level.
const LEVELS: [&str; 11] = ["||", "??", "&&", "|", "^", "&", "==", "<", "<<", "-", "*"];
const ASSIGN: [&str; 12] = ["=", "+=", "-=", "*=", "/=", "&=", "|=", "^=", "%=", "<<=", ">>=", ">>>="];

fn exprs(v: Vec<String>) -> Vec<Case> {
    v.into_iter().map(|e| Case::new(format!("class W {{\nvoid w ( ) {{\n{e} ;\n}}\n}}\n"), 80, 2, "operators")).collect()
}

/// Every operator next to every other one: chains of two and three binary operators with and
/// without parentheses.
pub fn chains() -> Vec<Case> {
    let mut v = vec![];
    for a in BINARY {
        for b in BINARY {
            v.push(format!("v = v1 {a} v2 {b} v3"));
            v.push(format!("v = ( v1 {a} v2 ) {b} v3"));
            v.push(format!("v = v1 {a} ( v2 {b} v3 )"));
            v.push(format!("return v1 {a} v2 {b} v3"));
        }
    }
    for a in LEVELS {
        for b in LEVELS {
            for c in LEVELS {
                v.push(format!("if ( v1 {a} v2 {b} v3 {c} v4 ) w1 ( )"));
            }
        }
    }
    exprs(v)
}

/// Prefix and postfix operators, casts and primaries, next to every operator.
pub fn operators() -> Vec<Case> {
    let atoms = ["v1", "1", "1.5", "'a'", "( v1 )", "v1 ++", "v1 --", "v1 . v2", "v1 ?. v2", "v1 [ 1 ]", "v1 ( )", "new T1 ( )", "this", "T1 . class", "[ select v1 from V2 ]"];
    let prefixes = ["+", "-", "!", "~", "++", "--", "( T1 )"];
    let mut ones: Vec<String> = vec![];
    for p in prefixes {
        ones.extend(atoms.iter().map(|a| format!("{p} {a}")));
    }
    let mut twos: Vec<String> = vec![];
    for p in prefixes {
        for q in prefixes {
            twos.extend(atoms[..7].iter().map(|a| format!("{p} {q} {a}")));
            for r in prefixes {
                twos.push(format!("{p} {q} {r} v1"));
            }
        }
    }
    let mut v: Vec<String> = vec![];
    let all: Vec<String> = atoms.iter().map(|a| a.to_string()).chain(ones.clone()).collect();
    for a in all.iter().chain(&twos) {
        v.push(format!("v = {a}"));
        v.push(format!("return {a}"));
        v.push(format!("v = {a} ? {a} : {a}"));
        v.push(format!("v = {a} instanceof T1"));
        v.push(format!("w1 ( {a} , {a} )"));
        v.push(format!("v [ {a} ] = ( {a} )"));
        for o in ASSIGN {
            v.push(format!("v {o} {a}"));
        }
        for o in BINARY {
            v.push(format!("v = v0 {o} {a}"));
            v.push(format!("v = {a} {o} v9"));
        }
    }
    for a in &all {
        for o in ["+", "-", "*", "/", "<", ">", "??", "==", "&&"] {
            for c in &ones {
                v.push(format!("v = {a} {o} {c}"));
            }
        }
    }
    exprs(v)
}

/// Long lists, neighbours and towers, as cases.
pub fn all(g: &Grammar, thorough: bool) -> Vec<Case> {
    let mut v = cases(g, &lists(g, 2, thorough), 80);
    v.extend(chains());
    v.extend(operators());
    v.extend(cases(g, &pairs(g), 80));
    v.extend(nest::towers(g, if thorough { &[2, 3, 5, 9] } else { &[2, 3, 6] }));
    v.extend(mine::counts(300));
    v.extend(mine::lengths(if thorough { 70_000 } else { 4100 }));
    v.extend(mine::spelled());
    v.extend(mine::huge());
    v
}

pub const ALL: &str = "every repetition with 6 elements, two kinds in turn, and with 13 and 26; every pair of alternatives side by side in bodies, lists and operators; every binary operator next to every other one, prefix operators to three in a row, casts and primaries next to every operator; every pair of recursive constructs nested to depth 6; every kind of list with each of the sizes up to 300, and every name and literal with each of the lengths (fixed ones and the numbers in the code, and their neighbours) and with each of the words in the code; names and literals of up to 70000 characters and bodies of up to 66000 lines";

/// Lists and towers only.
pub fn some(g: &Grammar) -> Vec<Case> {
    let mut v = cases(g, &lists(g, 1, false), 80);
    v.extend(chains());
    v.extend(nest::towers(g, &[3]));
    v.extend(mine::counts(66));
    v.retain(|c| !anonymous(oracle::parse(&c.src).root_node()));
    v
}

/// A class body behind `new A()`: Java, not Apex. Its layout is not specified.
fn anonymous(n: tree_sitter::Node) -> bool {
    let here = n.kind() == "class_body" && n.parent().map_or(false, |p| p.kind() == "object_creation_expression");
    here || (0..n.named_child_count()).filter_map(|i| n.named_child(i)).any(anonymous)
}

pub const SOME: &str = "every repetition with 6, 13 and 26 elements; every binary operator next to every other one; every pair of recursive constructs nested to depth 3, but for anonymous classes; every kind of list with the sizes up to 66 (fixed ones and the numbers in the code, and their neighbours)";

/// Texts of comments: everything special to a lexer, to a printer or to the classification of comments.
const PIECES: [&str; 16] = [" ", "a", "*", "/", "'", "\"", "{", ";", "\t", "\u{e9}", "\\", "  b", "@x", "}", "-", "!"];
const LINES: [&str; 11] = ["", "a", "* a", "*", "  a", "*a", "* @x y", "** a", "\t* a  ", " * // a", "{"];

/// Places of a comment: text before, text after, on a line of its own.
const PLACES: [(&str, &str, bool); 9] = [
    ("class A {\n  void f() {\n    a();\n    ", "\n    b();\n  }\n}\n", true),
    ("class A {\n  void f() {\n    a(); ", "\n    b();\n  }\n}\n", false),
    ("class A {\n  Integer a;\n\n  ", "\n  Integer b;\n}\n", true),
    ("class A {\n  Integer a; ", "\n\n  void f() {}\n}\n", false),
    ("class A {\n  void f() {\n    g(a, ", "\n      b);\n  }\n}\n", false),
    ("", "\nclass A {\n}\n", true),
    ("class A {\n}\n", "\n", true),
    ("class A {\n  void f() {\n    if (a) {\n      b();\n      ", "\n    }\n  }\n}\n", true),
    ("enum A {\n  B, ", "\n  C\n}\n", false),
];

pub fn comment_texts(thorough: bool) -> Vec<Case> {
    let mut bodies: Vec<String> = vec![String::new()];
    let mut level = bodies.clone();
    for _ in 0..if thorough { 3 } else { 2 } {
        level = level.iter().flat_map(|b| PIECES.iter().map(move |p| format!("{b}{p}"))).collect();
        bodies.extend(level.clone());
    }
    for n in [30, 60, 79, 80, 81, 100, 120, 200, 300, 1000] {
        bodies.push("x".repeat(n));
        bodies.push("word ".repeat(n / 5 + 1));
    }
    let mut out = vec![];
    for (i, (a, z, own)) in PLACES.iter().enumerate() {
        let mut add = |c: String, what: &str| {
            for w in [80, 30] {
                out.push(Case::new(format!("{a}{c}{z}"), w, 2, format!("{what} comment, place {i}")));
            }
        };
        for b in &bodies {
            add(format!("//{b}"), "line");
            if !b.contains("*/") {
                add(format!("/*{b}*/"), "block");
            }
            if *own && !b.contains("*/") && b.len() < 20 {
                add(format!("/**{b} */"), "doc");
            }
        }
        if !own {
            continue;
        }
        for open in ["/*", "/**"] {
            for x in LINES {
                for y in LINES {
                    add(format!("{open}\n{x}\n{y}\n*/"), "tall");
                    add(format!("{open} {x}\n  {y} */"), "tall");
                    if thorough {
                        for u in LINES {
                            add(format!("{open}{u}\n    {x}\n    {y}\n    */"), "tall");
                        }
                    }
                }
            }
        }
    }
    out
}

pub const TEXTS: &str = "comment texts of <=2 pieces out of 16, long ones, and tall ones of <=2 lines out of 11, at 9 places and two widths";

/// Several comments in a row between statements: every sequence of these, with and without blank lines.
pub fn comment_runs(thorough: bool) -> Vec<Case> {
    let kinds = ["// l1", "/* b1 */", "/*\n * t1\n */", "/** d1 */"];
    let seps = ["\n", "\n\n", "\n\n\n", " "];
    let frames = [
        ("class A {\n  void f() {\n    a();", "b();\n  }\n}\n"),
        ("class A {\n  Integer a;", "void f() {}\n}\n"),
        ("class A {\n  void f() {\n    switch on a {\n      when 1 {\n        b();\n      }", "when 2 {\n      }\n    }\n  }\n}\n"),
        ("enum A {\n  B,", "C\n}\n"),
        ("class A {\n  void f() {\n    a();\n  }", "}\n"),
        ("class A {", "Integer a;\n}\n"),
        ("class A {\n  void f() {\n    if (a) {\n      b();\n    }", "c();\n  }\n}\n"),
    ];
    let mut out = vec![];
    for (i, (a, z)) in frames.iter().enumerate() {
        let n = if thorough { 3 } else { 2 };
        let mut runs: Vec<String> = vec![String::new()];
        for len in 1..=n {
            let mut next = vec![];
            for r in &runs {
                for k in kinds {
                    for s in seps {
                        let k = k.replace('1', &len.to_string());
                        next.push(format!("{r}{s}{k}"));
                    }
                }
            }
            for r in &next {
                for s in &seps {
                    if *s == " " && r.lines().last().map_or(false, |l| l.contains("//")) {
                        continue;
                    }
                    // a line comment swallows what follows it on its line
                    let line_then_blank = r.split('\n').any(|l| l.find("//").map_or(false, |p| l[p..].contains("/*") || l[p + 2..].contains("//")));
                    if line_then_blank {
                        continue;
                    }
                    out.push(Case::new(format!("{a}{r}{s}{z}"), 80, 2, format!("run of {len} comments, place {i}")));
                }
            }
            runs = next;
        }
    }
    out.extend(mine::comments(if thorough { 70_000 } else { 4100 }));
    out
}

/// Runs of `n` comments with the blank lines at every one place, at all, at none and at all but one
/// (and at every set of places in short runs), at every kind of place.
pub fn blank_runs(thorough: bool) -> Vec<Case> {
    let frames = [
        "class A {\n#}\n",
        "interface A {\n#}\n",
        "enum A {\n#}\n",
        "trigger A on B(before insert) {\n#}\n",
        "class A {\n  void f() {\n#  }\n}\n",
        "class A {\n  static {\n#  }\n}\n",
        "class A {\n  void f() {\n    if (a) {\n#    }\n  }\n}\n",
        "class A {\n  void f() {\n    try {\n#    } finally {\n#    }\n  }\n}\n",
        "class A {\n  void f() {\n    a();\n#    b();\n  }\n}\n",
        "class A {\n  void f() {\n#    b();\n  }\n}\n",
        "class A {\n  void f() {\n    a();\n#  }\n}\n",
        "class A {\n  Integer a;\n#  Integer b;\n}\n",
        "class A {\n  void f() {\n  }\n#  Integer b;\n}\n",
        "class A {\n#  Integer b;\n}\n",
        "class A {\n  Integer a;\n#}\n",
        "trigger A on B(before insert) {\n  a();\n#  b();\n}\n",
        "#class A {\n}\n",
        "class A {\n}\n#",
        "class A {\n}\n#class B {\n}\n",
    ];
    let texts: [&dyn Fn(usize) -> String; 4] = [
        &|i| format!("// c{i}"),
        &|i| format!("/* c{i} */"),
        &|i| format!("/*\n * c{i}\n */"),
        &|i| if i % 2 == 0 { format!("// c{i}") } else { format!("/** c{i} */") },
    ];
    let mut out = vec![];
    // many blank lines at one place
    for (f, frame) in frames.iter().enumerate() {
        for n in mine::sizes(if thorough { 70_000 } else { 4100 }) {
            for text in &texts {
                for k in 0..4 {
                    let gap = |i| if k == i || k == 3 { "\n".repeat(n) } else { String::new() };
                    let r = format!("{}{}\n{}{}\n{}", gap(0), text(0), gap(1), text(1), gap(2));
                    out.push(Case::new(frame.replace('#', &r), 80, 2, format!("{n} blank lines, place {f}")));
                }
            }
        }
    }
    for (f, frame) in frames.iter().enumerate() {
        let Some((a, _)) = frame.split_once('#') else { continue };
        for (k, text) in texts.iter().enumerate() {
            for n in mine::sizes(if thorough { 132 } else { 70 }) {
                let mut sets: Vec<Vec<bool>> = vec![vec![false; n + 1], vec![true; n + 1]];
                if n <= if thorough { 7 } else { 5 } {
                    sets = (0..1u32 << (n + 1)).map(|m| (0..=n).map(|i| m >> i & 1 == 1).collect()).collect();
                } else if n <= 21 || thorough || (n + f + k) % 3 == 0 {
                    for i in 0..=n {
                        for v in [true, false] {
                            sets.push((0..=n).map(|j| (i == j) == v).collect());
                        }
                    }
                }
                for (j, set) in sets.iter().enumerate() {
                    // the first one at the end of the line before it
                    let trailing = a.ends_with(";\n") && j % 2 == 1 && !set[0];
                    let mut r = String::new();
                    for i in 0..n {
                        if set[i] {
                            r.push('\n');
                            if (i + j) % 4 == 3 {
                                r.push_str(" \n\n");
                            }
                        }
                        r.push_str(&text(i));
                        r.push('\n');
                    }
                    if set[n] {
                        r.push('\n');
                    }
                    let mut src = frame.replace('#', &r);
                    if trailing {
                        src.replace_range(a.len() - 1..a.len(), " ");
                    }
                    out.push(Case::new(src, 80, 2, format!("run of {n} comments, place {f}")));
                }
            }
        }
    }
    out
}

pub const BLANKRUNS: &str = "runs of 2 to 70 comments of 4 kinds with blank lines at every set of places (up to 5 comments), or at one place, at all but one, at all and at none, at 19 places (empty bodies of every kind among them); two comments with each of the numbers of blank lines up to 4100 above, between or below";

pub const RUNS: &str = "runs of up to 2 comments of 4 kinds with 4 separators around each, at 7 places; comments of each of the lengths and in each of the numbers up to 300 (fixed ones and the numbers in the code, and their neighbours), and with each of the words in the code, at 9 places";
