//! Grammar-directed program space.
//!
//! The productions of the Apex grammar (tree-sitter-sfapex 2.4.0, `grammar.json`) define a finite
//! choice tree once the number of *deviations* from the default derivation is bounded.  The
//! explorer enumerates every choice sequence with at most `k` deviations below a given root
//! symbol; everything outside of the root is the shortest context reaching it.
use serde_json::Value;
use std::collections::{BTreeSet, HashMap, HashSet};

#[derive(Debug, Clone)]
pub enum G {
    Sym(usize),
    Seq(Vec<G>),
    Choice(Vec<G>),
    Rep(Box<G>),
    Rep1(Box<G>),
    Blank,
    Lit(String),
    Class(&'static str),
}

pub struct Grammar {
    pub names: Vec<String>,
    pub rules: Vec<G>,
    pub index: HashMap<String, usize>,
    flatten: Vec<bool>,
    cost: Vec<u32>,
}

/// Lexical classes: the first sample is the default, the others are deviations.
/// `{}` is replaced by a running number, so that every token of a program is distinct.
fn samples(class: &str) -> &'static [&'static str] {
    match class {
        "identifier" => &["v{}", "Account_{}__c", "aVeryLongIdentifierName{}", "Ünïcode{}", "$d_{}"],
        "int" => &["{}", "{}L", "1_00{}"],
        "decimal" => &["{}.5", "-{}.25", "{}"],
        "decimal_floating_point_literal" => &["{}.5", ".{}", "{}.", "{}.0D", "{}e5", "{}.5E-3", "{}d"],
        "date" => &["2020-01-0{d}"],
        "date_time" => &["2020-01-0{d}T10:20:30Z", "2020-01-0{d}T10:20:30.123+02:00"],
        "currency_literal" => &["USD{}", "eur{}.50"],
        "string_literal" => &[
            "'s{}'",
            "''",
            "'it\\'s {}'",
            "'a // b{}'",
            "'a /* b{} */ c'",
            "' lead  two spaces{} '",
            "'SELECT Id FROM {}'",
            "'\\\\{}'",
            "'ünï🎉{}'",
            "'tab\\t{}'",
            "'a rather long string literal {} for breaking'",
        ],
        "term" => &["term{}", "two  terms{} AND x*"],
        "version_number" => &["5{}.0"],
        _ => panic!("no samples for {class}"),
    }
}

const CLASSES: &[&str] = &[
    "identifier",
    "int",
    "decimal",
    "decimal_floating_point_literal",
    "date",
    "date_time",
    "currency_literal",
    "string_literal",
    "term",
    "version_number",
];

/// Which alternative is the default, when several are possible.
const PREFER: &[&str] = &["identifier", "expression_statement", "field_declaration"];

fn pattern_text(p: &str) -> String {
    // ci("...") patterns: [aA][bB]..., separators [\s\n]+ / [\s\n]*
    match p {
        "[\\s\\n]+" => return " ".into(),
        "[\\s\\n]*" => return "".into(),
        _ => {}
    }
    let cs: Vec<char> = p.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '[' && i + 3 < cs.len() && cs[i + 3] == ']' {
            out.push(cs[i + 2]); // upper-case spelling; the case mode is applied later
            i += 4;
        } else {
            panic!("unsupported pattern {p}");
        }
    }
    out
}

fn token_text(v: &Value) -> String {
    match v["type"].as_str().unwrap() {
        "STRING" => v["value"].as_str().unwrap().into(),
        "PATTERN" => pattern_text(v["value"].as_str().unwrap()),
        "SEQ" => v["members"].as_array().unwrap().iter().map(token_text).collect(),
        "ALIAS" | "TOKEN" | "PREC" | "PREC_LEFT" | "PREC_RIGHT" | "FIELD" => token_text(&v["content"]),
        t => panic!("token {t}"),
    }
}

impl Grammar {
    pub fn load() -> Grammar {
        let v: Value = serde_json::from_str(include_str!("../grammar.json")).unwrap();
        let rules = v["rules"].as_object().unwrap();
        let mut names: Vec<String> = rules.keys().cloned().collect();
        names.sort();
        let index: HashMap<String, usize> = names.iter().cloned().enumerate().map(|(i, n)| (n, i)).collect();
        let mut g = Grammar { names: names.clone(), rules: vec![], index, flatten: vec![], cost: vec![] };
        for n in &names {
            let body = if let Some(c) = CLASSES.iter().find(|c| **c == n) {
                G::Class(c)
            } else if n == "line_comment" || n == "block_comment" {
                G::Blank
            } else {
                g.conv(&rules[n])
            };
            g.rules.push(body);
        }
        let sup: HashSet<String> = v["supertypes"]
            .as_array()
            .unwrap()
            .iter()
            .chain(v["inline"].as_array().unwrap())
            .map(|x| x.as_str().unwrap_or("").to_string())
            .collect();
        g.flatten = names
            .iter()
            .enumerate()
            .map(|(i, n)| (sup.contains(n) || n.starts_with('_')) && matches!(g.rules[i], G::Choice(_)))
            .collect();
        // minimal token count
        g.cost = vec![10_000; names.len()];
        loop {
            let mut ch = false;
            for i in 0..names.len() {
                let c = g.node_cost(&g.rules[i]);
                if c < g.cost[i] {
                    g.cost[i] = c;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        g
    }

    fn conv(&self, v: &Value) -> G {
        match v["type"].as_str().unwrap() {
            "SYMBOL" => G::Sym(self.index[v["name"].as_str().unwrap()]),
            "SEQ" => G::Seq(v["members"].as_array().unwrap().iter().map(|m| self.conv(m)).collect()),
            "CHOICE" => G::Choice(v["members"].as_array().unwrap().iter().map(|m| self.conv(m)).collect()),
            "REPEAT" => G::Rep(Box::new(self.conv(&v["content"]))),
            "REPEAT1" => G::Rep1(Box::new(self.conv(&v["content"]))),
            "BLANK" => G::Blank,
            "STRING" => G::Lit(v["value"].as_str().unwrap().into()),
            "PATTERN" => G::Lit(pattern_text(v["value"].as_str().unwrap())),
            "TOKEN" if v["content"]["type"] == "CHOICE" => {
                G::Choice(v["content"]["members"].as_array().unwrap().iter().map(|m| G::Lit(token_text(m))).collect())
            }
            "TOKEN" => G::Lit(token_text(&v["content"])),
            "ALIAS" | "FIELD" | "PREC" | "PREC_LEFT" | "PREC_RIGHT" | "PREC_DYNAMIC" => self.conv(&v["content"]),
            t => panic!("grammar node {t}"),
        }
    }

    fn node_cost(&self, n: &G) -> u32 {
        match n {
            G::Sym(s) => self.cost[*s],
            G::Seq(v) => v.iter().map(|x| self.node_cost(x)).fold(0u32, |a, b| (a + b).min(10_000)),
            G::Choice(v) => v.iter().map(|x| self.node_cost(x)).min().unwrap(),
            G::Rep(_) | G::Blank => 0,
            G::Rep1(x) => self.node_cost(x),
            G::Lit(_) | G::Class(_) => 1,
        }
    }

    /// Alternatives of a choice with super-types expanded in place.
    fn alternatives<'a>(&'a self, v: &'a [G], out: &mut Vec<&'a G>) {
        for m in v {
            match m {
                G::Choice(w) => self.alternatives(w, out),
                G::Sym(s) if self.flatten[*s] => {
                    if let G::Choice(w) = &self.rules[*s] {
                        self.alternatives(w, out)
                    }
                }
                other => out.push(other),
            }
        }
    }

    /// `t` is itself a member of the choice (possibly of a nested one).
    fn direct(&self, v: &[G], t: usize) -> bool {
        v.iter().any(|m| match m {
            G::Choice(w) => self.direct(w, t),
            G::Sym(s) if *s == t => true,
            G::Sym(s) if self.flatten[*s] => matches!(&self.rules[*s], G::Choice(w) if self.direct(w, t)),
            _ => false,
        })
    }

    fn mentions(&self, n: &G, t: usize) -> bool {
        self.mentions_rec(n, t, &mut vec![])
    }

    fn mentions_rec(&self, n: &G, t: usize, seen: &mut Vec<usize>) -> bool {
        match n {
            G::Sym(s) => {
                *s == t || (self.flatten[*s] && !seen.contains(s) && {
                    seen.push(*s);
                    self.mentions_rec(&self.rules[*s], t, seen)
                })
            }
            G::Seq(v) | G::Choice(v) => v.iter().any(|x| self.mentions_rec(x, t, seen)),
            G::Rep(x) | G::Rep1(x) => self.mentions_rec(x, t, seen),
            _ => false,
        }
    }

    fn refs(&self, n: &G, out: &mut Vec<usize>) {
        match n {
            G::Sym(s) => out.push(*s),
            G::Seq(v) | G::Choice(v) => v.iter().for_each(|x| self.refs(x, out)),
            G::Rep(x) | G::Rep1(x) => self.refs(x, out),
            _ => {}
        }
    }

    /// Shortest chain of symbols from the start symbol to `t`.
    pub fn path_to(&self, t: usize) -> Option<Vec<usize>> {
        let start = self.index["parser_output"];
        let mut prev: HashMap<usize, usize> = HashMap::new();
        let mut dist: HashMap<usize, u32> = HashMap::from([(start, 0)]);
        // Dijkstra; productions which make an odd context are used only when nothing else leads there
        let mut q = BTreeSet::from([(0u32, start)]);
        while let Some((d, s)) = q.pop_first() {
            if s == t {
                let mut p = vec![t];
                let mut c = t;
                while c != start {
                    c = prev[&c];
                    p.push(c);
                }
                p.reverse();
                return Some(p);
            }
            let name = self.names[s].as_str();
            let w = match name {
                "enhanced_for_statement" | "sosl_query_body" | "assignment_expression" | "using_clause" => 10,
                "array_creation_expression" | "object_creation_expression" => 2,
                _ => 1,
            };
            let mut r = vec![];
            self.refs(&self.rules[s], &mut r);
            for n in r {
                if dist.get(&n).map_or(true, |x| *x > d + w) {
                    dist.insert(n, d + w);
                    prev.insert(n, s);
                    q.insert((d + w, n));
                }
            }
        }
        None
    }

    /// Contexts of a symbol: below every production which mentions it (the shortest one first).
    pub fn contexts(&self, t: usize) -> Vec<Vec<usize>> {
        let mut out: Vec<Vec<usize>> = self.path_to(t).into_iter().collect();
        for p in 0..self.rules.len() {
            let mut r = vec![];
            self.refs(&self.rules[p], &mut r);
            if r.contains(&t) {
                if let Some(mut path) = self.path_to(p) {
                    path.push(t);
                    if !out.contains(&path) {
                        out.push(path);
                    }
                }
            }
        }
        out
    }

    /// Kinds of the nodes a super-type stands for.
    pub fn members(&self, t: usize) -> Vec<String> {
        let G::Choice(v) = &self.rules[t] else { return vec![] };
        let mut alts = vec![];
        self.alternatives(v, &mut alts);
        alts.iter().filter_map(|a| if let G::Sym(s) = a { Some(self.names[*s].clone()) } else { None }).collect()
    }

    pub fn is_flat(&self, s: usize) -> bool {
        self.flatten[s]
    }
}

/// One token of a generated program.
#[derive(Clone, Debug)]
pub struct Tok {
    pub text: String,
    /// produced inside of the root symbol (as opposed to its context)
    pub inside: bool,
    pub keyword: bool,
    pub glue: bool,
}

pub struct Gen<'g> {
    g: &'g Grammar,
    prefix: &'g [u16],
    /// number of alternatives at every choice point met
    pub log: Vec<u16>,
    pub toks: Vec<Tok>,
    path: Vec<usize>,
    at: usize,
    free: bool,
    rich: u32,
    /// another number of repetitions to choose
    long: usize,
    depth: u32,
    n: u32,
    /// the choices made, and those to be made again (in the later elements of a long list)
    vals: Vec<usize>,
    again: Option<(Vec<usize>, usize)>,
}

thread_local! {
    /// Offer repetitions of this length too (0: none).
    pub static LONG: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

impl<'g> Gen<'g> {
    /// Derive one program: context to `path.last()`, then the choices of `prefix` (0 afterwards).
    pub fn run(g: &'g Grammar, path: &[usize], prefix: &'g [u16], rich: u32) -> Gen<'g> {
        let mut x = Gen { g, prefix, log: vec![], toks: vec![], path: path.to_vec(), at: 0, free: false, rich, long: LONG.get(), depth: 0, n: 0, vals: vec![], again: None };
        let name = |s: Option<&usize>| s.map_or("", |s| g.names[*s].as_str());
        let top = path.iter().find(|s| !matches!(g.names[**s].as_str(), "parser_output" | "statement" | "declaration"));
        // afmt formats compilation units: statements live in a method, methods in a class
        let wrap: (&[&str], &[&str]) = match name(top) {
            "class_declaration" | "interface_declaration" | "enum_declaration" | "trigger_declaration" => (&[], &[]),
            "method_declaration" => (&["class", "W", "{"], &["}"]),
            _ => (&["class", "W", "{", "void", "w", "(", ")", "{"], &["}", "}"]),
        };
        for w in wrap.0 {
            x.push(w.to_string(), false, false);
        }
        x.sym(path[0]);
        for w in wrap.1 {
            x.push(w.to_string(), false, false);
        }
        assert!(x.log.len() >= prefix.len(), "stale choice prefix");
        x
    }

    fn choose(&mut self, n: usize) -> usize {
        if !self.free || n < 2 {
            return 0;
        }
        let c = if let Some((v, at)) = &mut self.again {
            *at += 1;
            v[*at - 1]
        } else {
            let i = self.log.len();
            self.log.push(n as u16);
            if i < self.prefix.len() {
                self.prefix[i] as usize
            } else {
                0
            }
        };
        assert!(c < n, "choice out of range");
        self.vals.push(c);
        c
    }

    fn next(&self) -> Option<usize> {
        if self.free || self.at == usize::MAX {
            None
        } else {
            self.path.get(self.at + 1).copied()
        }
    }

    fn sym(&mut self, s: usize) {
        // a symbol on the context path?
        if !self.free && self.at < self.path.len() && s == self.path[self.at] {
            let here = self.at;
            if here + 1 == self.path.len() {
                self.free = true;
                let d = self.depth;
                self.depth = 0;
                self.rule(s);
                self.depth = d;
                self.free = false;
                self.at = usize::MAX;
            } else {
                self.rule(s);
            }
            return;
        }
        self.depth += 1;
        self.rule(s);
        self.depth -= 1;
    }

    fn rule(&mut self, s: usize) {
        let g = self.g;
        self.node(&g.rules[s]);
    }

    /// Is the next path element reachable directly within this node? Advance if so.
    fn wants(&self, n: &G) -> bool {
        match self.next() {
            Some(t) if self.at != usize::MAX => self.g.mentions(n, t),
            _ => false,
        }
    }

    fn node(&mut self, n: &'g G) {
        match n {
            G::Sym(s) => {
                if let Some(t) = self.next().filter(|_| self.at != usize::MAX) {
                    if *s == t {
                        self.at += 1;
                        self.sym(*s);
                        return;
                    }
                }
                self.sym(*s)
            }
            G::Seq(v) => {
                let mut done = false;
                for m in v {
                    if !done && self.wants(m) {
                        done = true;
                        self.node(m);
                    } else if self.free || self.at == usize::MAX {
                        self.node(m);
                    } else {
                        // before the path element: frozen default
                        let save = self.at;
                        self.at = usize::MAX;
                        self.node(m);
                        self.at = save;
                    }
                }
            }
            G::Choice(v) => {
                let mut alts: Vec<&'g G> = vec![];
                self.g.alternatives(v, &mut alts);
                if self.wants(n) {
                    // direct alternative which is the target itself, otherwise one mentioning it
                    let t = self.next().unwrap();
                    if self.g.flatten[t] && self.g.direct(v, t) {
                        // the target is a super-type of this choice
                        self.at += 1;
                        self.sym(t);
                        return;
                    }
                    let a = alts.iter().find(|a| matches!(a, G::Sym(s) if *s == t)).or_else(|| alts.iter().find(|a| self.g.mentions(a, t)));
                    let a: &'g G = a.copied().unwrap();
                    self.node(a);
                    return;
                }
                // default first
                let blank = alts.iter().any(|a| matches!(a, G::Blank));
                let mut order: Vec<usize> = (0..alts.len()).collect();
                let rich = self.free && self.depth < self.rich;
                let key = |i: usize| -> (u32, usize) {
                    let a = alts[i];
                    if let G::Sym(s) = a {
                        if let Some(p) = PREFER.iter().position(|p| *p == self.g.names[*s]) {
                            if !blank {
                                return (0, p);
                            }
                        }
                    }
                    let mut c = 1 + self.g.node_cost(a);
                    if blank && rich && matches!(a, G::Blank) {
                        c = 100_000;
                    }
                    (c, i)
                };
                order.sort_by_key(|i| key(*i));
                let c = self.choose(order.len());
                let a = alts[order[c]];
                self.node(a);
            }
            G::Rep(x) | G::Rep1(x) => {
                if self.wants(n) {
                    self.node(x);
                    return;
                }
                let min = if matches!(n, G::Rep1(_)) { 1 } else { 0 };
                let rich = self.free && self.depth < self.rich;
                // default count, then the others
                let counts: [usize; 3] = if rich { [2, min, min + 1] } else if min == 0 { [0, 1, 2] } else { [1, 2, 3] };
                let mut cs: Vec<usize> = counts.to_vec();
                if rich && min == 1 {
                    cs = vec![2, 1, 3];
                }
                if self.long > 0 {
                    cs.push(self.long);
                }
                let c = self.choose(cs.len());
                if self.free && self.long > 0 && c == cs.len() - 1 {
                    // the elements of a long list repeat the first two in turn
                    let mut made = vec![];
                    for _ in 0..2 {
                        let from = self.vals.len();
                        self.node(x);
                        made.push(self.vals[from..].to_vec());
                    }
                    let end = self.vals.len();
                    for i in 2..self.long {
                        let outer = self.again.replace((made[i % 2].clone(), 0));
                        self.node(x);
                        self.again = outer;
                        self.vals.truncate(end);
                    }
                    return;
                }
                for _ in 0..cs[c] {
                    self.node(x);
                }
            }
            G::Blank => {}
            G::Lit(s) => {
                let keyword = s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == ' ' || c == '.') && s.chars().any(|c| c.is_ascii_alphabetic());
                if s == " " {
                    return;
                }
                let text = if keyword { s.to_string() } else { s.clone() };
                self.push(text, keyword, false);
            }
            G::Class(c) => {
                let ss = samples(c);
                let k = self.choose(ss.len());
                self.n += 1;
                let t = ss[k].replace("{}", &self.n.to_string()).replace("{d}", &(1 + self.n % 9).to_string());
                self.push(t, false, *c == "term");
            }
        }
    }

    fn push(&mut self, text: String, keyword: bool, glue: bool) {
        self.toks.push(Tok { text, inside: self.free, keyword, glue });
    }
}

/// Spelling of case-insensitive keywords.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CaseMode {
    Lower,
    Upper,
    Mixed,
}

pub fn spell(t: &Tok, m: CaseMode) -> String {
    if !t.keyword {
        return t.text.clone();
    }
    match m {
        CaseMode::Lower => t.text.to_lowercase(),
        CaseMode::Upper => {
            if t.text == "boolean" {
                t.text.clone()
            } else {
                t.text.to_uppercase()
            }
        }
        CaseMode::Mixed => t.text.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

/// Join tokens with a separator chosen per gap; the gap after token `i` is `sep(i)`.
pub fn join(toks: &[Tok], m: CaseMode, sep: impl Fn(usize) -> String) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        s.push_str(&spell(t, m));
        if i + 1 < toks.len() {
            if t.glue || toks[i + 1].glue {
                continue;
            }
            s.push_str(&sep(i));
        }
    }
    s
}

/// Default layout: a newline after `;`, `{`, `}`; a space elsewhere.
pub fn layout_lines(toks: &[Tok], m: CaseMode) -> String {
    let mut s = join(toks, m, |i| match toks[i].text.as_str() {
        ";" | "{" | "}" => "\n".into(),
        _ => " ".into(),
    });
    s.push('\n');
    s
}

/// Every choice sequence with at most `k` deviations from the default derivation of `path.last()`.
pub fn enumerate(g: &Grammar, path: &[usize], k: usize, rich: u32, cap: usize, f: &mut dyn FnMut(&[u16], &[Tok])) -> (usize, bool) {
    let mut n = 0;
    let mut full = true;
    // breadth first in the number of deviations, so that the first counterexample is minimal
    let mut level: Vec<Vec<u16>> = vec![vec![]];
    for dev in 0..=k {
        let mut next = vec![];
        for p in &level {
            if n >= cap {
                return (n, false);
            }
            let x = Gen::run(g, path, p, rich);
            n += 1;
            f(p, &x.toks);
            if x.toks.len() > 400 {
                full = false;
                continue;
            }
            if dev < k {
                for i in p.len()..x.log.len() {
                    for alt in 1..x.log[i] {
                        let mut q = p.clone();
                        q.resize(i, 0);
                        q.push(alt);
                        next.push(q);
                    }
                }
            }
        }
        level = next;
    }
    (n, full)
}
