A="parser/atom/mod.rs"; X="parser/expression/mod.rs"; L="lib.rs"; P="parser/mod.rs"; T="ast/mod.rs"; F="ast/flat.rs"; G="peg/mod.rs"; C="peg/gcode.rs"; PC="peg/peg2code.rs"
SEEDS=[
dict(id="c11-long-literal", property="C11", edits=[(A,"""            Error::from_status_normal(&st, &format!("expected literal: <{}>", literal))
""","""            // keep the description short
            let shown = if literal.len() > 32 { &literal[..32] } else { literal };
            Error::from_status_normal(&st, &format!("expected literal: <{}>", shown))
""")],
 needs="a literal of more than 32 bytes, with a character of several bytes at byte 32", breaks="the description of the error is cut in the middle of a character",
 demo="""fn main() {
    let r = rules! {"main" => lit!("a")};
    assert!(parse("b", &r).is_err());
    let l = "a".repeat(31) + "\\u{e9}b";
    let r = rules! {"main" => lit!(&l)};
    assert!(parse(&l, &r).is_ok());
    assert!(parse("b", &r).is_err());
}
"""),
dict(id="c11-long-line", property="C11", edits=[(P,"""            line_after: status
                .it_parsing
                .clone()
                .take_while(|&ch| ch != '\\n' && ch != '\\r')
                .collect(),
""","""            line_after: {
                let mut line: String = status
                    .it_parsing
                    .clone()
                    .take_while(|&ch| ch != '\\n' && ch != '\\r')
                    .collect();
                if line.len() > 200 {
                    line.truncate(200);
                }
                line
            },
""")],
 needs="an error more than 200 bytes before the end of its line, with a character of several bytes at byte 200", breaks="truncate panics",
 demo="""fn main() {
    let r = rules! {"main" => lit!("x")};
    assert!(parse("b", &r).is_err());
    assert!(parse(&("y".to_string() + &"a".repeat(300)), &r).is_err());
    assert!(parse(&("y".to_string() + &"a".repeat(199) + "\\u{e9}\\u{e9}"), &r).is_err());
    assert!(parse(&("y".to_string() + &"a".repeat(198) + "\\u{e9}\\u{e9}"), &r).is_err());
}
"""),
dict(id="c11-rep-bounds", property="C11", edits=[(X,"""            max: max.map(NRep),
""","""            max: max.map(|m| NRep(min + (m - min))),
""")],
 needs="a repetition whose maximum is below its minimum", breaks="building it panics",
 demo="""fn main() {
    let r = rules! {"main" => rep!(lit!("a"), 1, 3)};
    assert!(parse("aa", &r).is_ok());
    let r = rules! {"main" => rep!(lit!("a"), 2, 1)};
    let _ = parse("aa", &r);
}
"""),
dict(id="c11-reversed-range", property="C11", edits=[(A,"""                if b <= ch && ch <= t {
""","""                //  distance from the first character of the range
                let (b, ch, t) = (b as u32, ch as u32, t as u32);
                if b <= ch && ch - b <= t - b {
""")],
 needs="a range whose bounds are in the wrong order, and a character after its first bound", breaks="the subtraction underflows",
 demo="""fn main() {
    let r = rules! {"main" => ematch!(chlist "x", from 'a', to 'f')};
    assert!(parse("b", &r).is_ok() && parse("x", &r).is_ok() && parse("g", &r).is_err());
    let r = rules! {"main" => ematch!(chlist "x", from 'f', to 'a')};
    assert!(parse("x", &r).is_ok());
    assert!(parse("A", &r).is_err());
    assert!(parse("g", &r).is_err());
}
"""),
dict(id="c11-backspace", property="C11", edits=[(A,"""                    '\\r' => {
                        self.pos.col = 0;
                    }
""","""                    '\\r' => {
                        self.pos.col = 0;
                    }
                    '\\u{8}' => {
                        self.pos.col -= 1;
                    }
""")],
 needs="a backspace at the start of a line", breaks="the column underflows",
 demo="""fn main() {
    let r = rules! {"main" => rep!(dot!(), 0)};
    assert!(parse("ab\\u{8}c", &r).is_ok());
    assert!(parse("ab\\n\\u{8}c", &r).is_ok());
}
"""),
dict(id="c11-add-twice", property="C11", edits=[(X,"""        self.0.insert(name.to_owned(), expr);
        self
""","""        let old = self.0.insert(name.to_owned(), expr);
        debug_assert!(old.is_none(), "rule {} registered twice", name);
        self
""")],
 needs="a rule that is added a second time", breaks="add panics",
 demo="""fn main() {
    let r = rules! {"main" => lit!("a")}.add("b", lit!("b"));
    assert!(parse("a", &r).is_ok());
    let r = r.add("main", lit!("c"));
    let _ = parse("c", &r);
}
"""),
dict(id="c11-trim-text", property="C11", edits=[(P,"""    pub(crate) fn init(t2p: &'a str, rules: &'a expression::SetOfRules) -> Self {
        Status {
            text2parse: t2p,
""","""    pub(crate) fn init(t2p: &'a str, rules: &'a expression::SetOfRules) -> Self {
        Status {
            //  only used to show the line of an error
            text2parse: t2p.trim_end_matches('\\0'),
""")],
 needs="an error before the last of the zero characters a text ends in", breaks="the text before the error is computed from two texts of different lengths",
 demo="""fn main() {
    let r = rules! {"main" => lit!("abc")};
    assert!(parse("abd", &r).is_err());
    assert!(parse("abc\\0", &r).is_err());
    assert!(parse("\\0\\0", &r).is_err());
    let r = rules! {"main" => and!(lit!("a\\0"), lit!("b"))};
    assert!(parse("a\\0\\0", &r).is_err());
}
"""),
dict(id="c11-empty-name", property="C11", edits=[(T,"""                Some(Node::Val(ref v)) => Some(v.to_string()),
""","""                Some(Node::Rule((ref name, _))) if name.as_bytes()[0] == b'_' => None,
                Some(Node::Val(ref v)) => Some(v.to_string()),
""")],
 needs="a tree with a node of a rule without name that is not the last one", breaks="compact looks at the first byte of the name",
 demo="""fn main() {
    let r = rules! {"main" => and!(ref_rule!("a"), lit!("b")), "a" => lit!("a")};
    parse("ab", &r).unwrap().compact();
    let r = rules! {"main" => and!(ref_rule!(""), lit!("b")), "" => lit!("a")};
    parse("ab", &r).unwrap().compact();
}
"""),
dict(id="c11-peek-last", property="C11", edits=[(F,"""    let (node, nodes) = split_first_nodes(nodes)?;

    let nv = get_node_val(node)?;
    if nv == v {
        Ok(nodes)
    } else {
        Err(error(
            "trying get first element from nodes on empty slice",
            None,
        ))
    }
""","""    let (node, nodes) = split_first_nodes(nodes)?;

    let nv = get_node_val(node)?;
    if nv == v {
        Ok(nodes)
    } else {
        let found = match &nodes[0] {
            Node::BeginRule(n) | Node::EndRule(n) => n,
            Node::Val(v) => v,
            Node::EOF => "end of file",
        };
        Err(error(
            "trying get first element from nodes on empty slice",
            Some(found),
        ))
    }
""")],
 needs="a value that is not the expected one, at the end of the nodes", breaks="the node after it is looked at to describe the error",
 demo="""fn main() {
    use dynparser::ast::flat;
    let v = |s: &str| flat::Node::Val(s.to_string());
    assert!(flat::consume_this_value("a", &[v("a")]).is_ok());
    assert!(flat::consume_this_value("b", &[v("a"), v("b")]).is_err());
    assert!(flat::consume_this_value("b", &[v("a")]).is_err());
}
"""),
dict(id="c11-code-of-empty", property="C11", edits=[(C,"""        .iter()
        .fold(String::new(), |acc, expr| match acc.len() {
            0 => expr2code(expr).to_string(),
            _ => format!("{}, {}", acc, expr2code(expr)),
        })
""","""        .split_first()
        .map(|(first, rest)| {
            rest.iter().fold(expr2code(first), |acc, expr| {
                format!("{}, {}", acc, expr2code(expr))
            })
        })
        .unwrap()
""")],
 needs="code for a sequence or choice of nothing", breaks="unwrap panics",
 demo="""fn main() {
    use dynparser::parser::expression::{Expression, MultiExpr};
    let r = rules! {"main" => and!(lit!("a"), or!(lit!("b"), lit!("c")))};
    peg::gcode::rust_from_rules(&r);
    let r = rules! {"main" => Expression::And(MultiExpr::new(vec![]))};
    assert!(parse("", &r).is_ok());
    peg::gcode::rust_from_rules(&r);
}
"""),
dict(id="c11-error-desc", property="C11", edits=[(T,"""    Error(desc.to_string(), ast_context.map(|a| a.to_string()))
""","""    Error(
        desc.to_string(),
        ast_context.map(|a| a.split('\\n').next().unwrap()[..a.find('\\n').unwrap_or(a.len())].to_string()),
    )
""")],
 needs="nothing", breaks="nothing",
 demo="""fn main() {
}
"""),
]
SEEDS=[s for s in SEEDS if s["id"]!="c11-error-desc"]
