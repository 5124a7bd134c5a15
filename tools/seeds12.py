A="parser/atom/mod.rs"; X="parser/expression/mod.rs"; L="lib.rs"; P="parser/mod.rs"; T="ast/mod.rs"; F="ast/flat.rs"; G="peg/mod.rs"; C="peg/gcode.rs"; R="peg/rules.rs"
SEEDS=[
dict(id="c28-node-order", property="C28", edits=[(T,"""/// Information of a node
#[derive(Debug, PartialEq)]
pub enum Node {""","""impl PartialEq for Node {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Node::Val(a), Node::Val(b)) => a == b,
            (Node::Rule((a, va)), Node::Rule((b, vb))) => a == b && va.len() == vb.len() && va.first() == vb.first() && va.last() == vb.last(),
            (Node::EOF, Node::EOF) => true,
            _ => false,
        }
    }
}

/// Information of a node
#[derive(Debug)]
pub enum Node {""")],
 needs="two rule nodes of three or more nodes that differ only in the middle", breaks="trees with different nodes are taken for equal",
 demo="""fn n(m: &str) -> ast::Node {
    ast::Node::Rule(("r".to_string(), vec![ast::Node::EOF, ast::Node::Val(m.to_string()), ast::Node::EOF]))
}
fn main() {
    assert!(n("a") == n("a"));
    assert!(n("a") != n("b"));
}
"""),
dict(id="c28-flat-end", property="C28", edits=[(F,"""/// Information of a node when ast has been flattened
#[derive(Debug, PartialEq)]
pub enum Node {""","""impl PartialEq for Node {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Node::Val(a), Node::Val(b)) | (Node::BeginRule(a), Node::BeginRule(b)) => a == b,
            //  the end is of the rule that began
            (Node::EndRule(_), Node::EndRule(_)) => true,
            (Node::EOF, Node::EOF) => true,
            _ => false,
        }
    }
}

/// Information of a node when ast has been flattened
#[derive(Debug)]
pub enum Node {""")],
 needs="end marks of different names compared", breaks="flat nodes of different names are equal",
 demo="""use dynparser::ast::flat::Node;
fn main() {
    assert!(Node::EndRule("a".to_string()) == Node::EndRule("a".to_string()));
    assert!(Node::EndRule("a".to_string()) != Node::EndRule("b".to_string()));
}
"""),
dict(id="c28-pos-line", property="C28", edits=[(P,"""/// Information about the possition on parsing
#[derive(PartialEq, Clone, Debug)]
pub struct Possition {""","""impl PartialEq for Possition {
    fn eq(&self, other: &Self) -> bool {
        (self.n, self.row, self.col) == (other.n, other.row, other.col)
    }
}

/// Information about the possition on parsing
#[derive(Clone, Debug)]
pub struct Possition {""")],
 needs="positions of different texts that differ in the start of their line only (a carriage return before)", breaks="positions that differ are taken for equal",
 demo="""use dynparser::parser::Possition;
fn main() {
    let p = |s| Possition { n: 5, row: 1, col: 2, start_line: s };
    assert!(p(3) == p(3));
    assert!(p(3) != p(2));
}
"""),
dict(id="c28-error-clone", property="C28", edits=[(P,"""/// Context error information
#[derive(Debug, Clone)]
pub struct Error {""","""impl Clone for Error {
    fn clone(&self) -> Self {
        Error {
            pos: self.pos.clone(),
            descr: self.descr.clone(),
            line_before: self.line_before.clone(),
            line_after: self.line_after.trim_end().to_string(),
            parsing_rules: self.parsing_rules.clone(),
            priority: self.priority,
        }
    }
}

/// Context error information
#[derive(Debug)]
pub struct Error {""")],
 needs="an error whose line ends in blanks, copied", breaks="the copy has another text after the position",
 demo="""fn main() {
    let r = rules! {"main" => lit!("ab")};
    let e = parse("ac \\t", &r).err().unwrap();
    assert!(e.clone().line_after == e.line_after);
}
"""),
dict(id="c28-error-context", property="C28", edits=[(T,"""#[derive(Debug, PartialEq)]
pub struct Error(pub String, pub Option<String>);
""","""#[derive(Debug)]
pub struct Error(pub String, pub Option<String>);

impl PartialEq for Error {
    fn eq(&self, other: &Self) -> bool {
        self.0 == other.0
            && match (&self.1, &other.1) {
                (Some(a), Some(b)) => a == b,
                _ => true,
            }
    }
}
""")],
 needs="an error with a context compared with one without", breaks="different errors are equal",
 demo="""fn main() {
    assert!(ast::error("x", Some("a")) == ast::error("x", Some("a")));
    assert!(ast::error("x", Some("a")) != ast::error("x", None));
}
"""),
dict(id="c05-not-empty", property="C05", edits=[(X,"""        Ok(_) => Err(Error::from_status_normal(&status, "not")),""","""        //  nothing found is not a match
        Ok((ref st, ref nodes)) if nodes.is_empty() && st.pos.n == status.pos.n => Ok((status, vec![])),
        Ok(_) => Err(Error::from_status_normal(&status, "not")),""")],
 needs="a not over an expression that matches the empty text without nodes (a not of a not, an optional)", breaks="the lookahead succeeds although its expression matches",
 demo="""fn main() {
    let r = rules! {"main" => and!(not!(not!(lit!("a"))), dot!())};
    assert!(parse("a", &r).is_ok());
    let r = rules! {"main" => and!(not!(rep!(lit!("b"), 0)), dot!())};
    assert!(parse("a", &r).is_err());
}
"""),
dict(id="c03-long-order", property="C03", edits=[(X,"""                    TailCall::Call((status, &acc.1[1..], acc.2.iappend(vnodes)))""","""                    //  append the shorter to the longer
                    let nodes = if acc.2.len() > 1 && vnodes.len() > 40 + acc.2.len() { vnodes.iappend(acc.2) } else { acc.2.iappend(vnodes) };
                    TailCall::Call((status, &acc.1[1..], nodes))""")],
 needs="a part that yields more than forty nodes, after at least two others", breaks="the nodes are out of order",
 demo="""fn main() {
    let r = rules! {"main" => and!(lit!("a"), lit!("a"), rep!(lit!("b"), 0))};
    let text = format!("aa{}", "b".repeat(60));
    let t = parse(&text, &r).unwrap().compact();
    assert!(t == ast::Node::Rule(("main".to_string(), vec![ast::Node::Val(text)])));
}
"""),
dict(id="c08-unicode-line", property="C08", edits=[(A,"""                    _ => {
                        self.pos.col += 1;""","""                    '\\u{2028}' | '\\u{2029}' => {
                        self.pos.col = 0;
                        self.pos.row += 1;
                    }
                    _ => {
                        self.pos.col += 1;""")],
 needs="a line separator character in the text", breaks="the row advances without a newline",
 demo="""fn main() {
    let r = rules! {"main" => and!(rep!(not!(lit!("!")), 0, 0), dot!(), dot!(), lit!("x"))};
    let e = parse("\\u{2028}ay", &r).err().unwrap();
    assert!(e.pos.row == 0);
}
"""),
dict(id="c10-row-col", property="C10", edits=[(X,"""        Some(e1) => match (e1.priority > e2.priority, e1.pos.n > e2.pos.n) {""","""        Some(e1) => match (e1.priority > e2.priority, (e1.pos.row, e1.pos.col) > (e2.pos.row, e2.pos.col)) {""")],
 needs="alternatives that fail on one row with a carriage return between", breaks="the error reported is not the one that got furthest",
 demo="""fn main() {
    let r = rules! {"main" => or!(and!(lit!("aaa\\ra"), lit!("1")), lit!("aaX"))};
    let e = parse("aaa\\raz", &r).err().unwrap();
    assert!(e.pos.n == 6, "{:?}", e);
}
"""),
dict(id="c10-pot-first", property="C10", edits=[(P,"""    pub(crate) fn set_potential_error(mut self, err: Error) -> Self {
""","""    pub(crate) fn set_potential_error(mut self, err: Error) -> Self {
        //  the same place: the first explanation is as good
        let seen = match self.potential_error {
            Some(ref e) => e.pos == err.pos && e.descr.len() > err.descr.len(),
            None => false,
        };
        if seen {
            return self;
        }
""")],
 needs="two repetitions that stop at one place, the second with the shorter description", breaks="the error kept is not that of the last repetition",
 demo="""fn main() {
    let r = rules! {"main" => and!(rep!(lit!("abc"), 0), rep!(lit!("b"), 0))};
    let e = parse("x", &r).err().unwrap();
    assert!(e.descr.contains("<b>"), "{:?}", e);
}
"""),
dict(id="c07-literal-nfc", property="C07", edits=[(A,"""    let (st, got_ch) = status.get_char()?;
    if ch == got_ch {""","""    let (st, got_ch) = status.get_char()?;
    //  blanks are as good as each other
    let same = |a: char, b: char| a == b || a == ' ' && b == '\\u{a0}';
    if same(ch, got_ch) {""")],
 needs="a no-break space where a literal has a space", breaks="a literal accepts other characters",
 demo="""fn main() {
    let r = rules! {"main" => lit!("a b")};
    assert!(parse("a b", &r).is_ok());
    assert!(parse("a\\u{a0}b", &r).is_err());
}
"""),
dict(id="c24-two-levels", property="C24", edits=[(T,"""                        Node::Rule((_, new_nodes)) => acc.iappend(pthr_vn(new_nodes, nodes2keep)),
""","""                        Node::Rule((_, new_nodes)) => {
                            let lifted = pthr_vn(new_nodes, nodes2keep);
                            //  an end of file below is the one that is there already
                            match (lifted.len(), acc.last() == Some(&Node::EOF)) {
                                (1, true) if lifted[0] == Node::EOF => acc,
                                _ => acc.iappend(lifted),
                            }
                        }
""")],
 needs="an end of file node followed by an unlisted rule that holds just one", breaks="a node is lost",
 demo="""use dynparser::ast::Node;
fn main() {
    let t = Node::Rule(("m".to_string(), vec![Node::EOF, Node::Rule(("x".to_string(), vec![Node::EOF]))]));
    assert!(t.pass_through_except(&["k"]) == Node::Rule(("m".to_string(), vec![Node::EOF, Node::EOF])));
}
"""),
dict(id="c25-blank-run", property="C25", edits=[(T,"""            let concat_nodes""","""            let concat_nodes""")],
 needs="-", breaks="-", demo="fn main(){}"),
]
SEEDS=[s for s in SEEDS if s["needs"]!="-"]
