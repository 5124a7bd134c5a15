A="parser/atom/mod.rs"; X="parser/expression/mod.rs"; L="lib.rs"; P="parser/mod.rs"; T="ast/mod.rs"; F="ast/flat.rs"; G="peg/mod.rs"; C="peg/gcode.rs"; PC="peg/peg2code.rs"
SEEDS=[
dict(id="c01-trailing-blank", property="C01", edits=[(L,"""        (false, Some(e)) => Err(e),
""","""        (false, Some(e)) => Err(e),
        //  a final end of line is not part of the text
        (false, None) if st.it_parsing.as_str() == "\\n" => Ok(ast),
""")],
 needs="a text that ends with a line break the rules do not match, and no repetition that stopped before", breaks="a parse succeeds with a character left over",
 demo="""fn main() {
    let r = rules! {"main" => lit!("a")};
    assert!(parse("a", &r).is_ok());
    assert!(parse("ab", &r).is_err());
    assert!(parse("a\\n", &r).is_err());
}
"""),
dict(id="c02-prefer-consuming", property="C02", edits=[(X,"""                Ok(result) => TailCall::Return(Ok(result)),
                Err(e) => {
                    if e.priority""","""                //  an alternative that takes nothing is the last resort
                Ok((ref st, _)) if st.pos.n == acc.0.pos.n && acc.1.len() > 2 => {
                    TailCall::Call((acc.0, &acc.1[1..], acc.2))
                }
                Ok(result) => TailCall::Return(Ok(result)),
                Err(e) => {
                    if e.priority""")],
 needs="a choice of three or more with an alternative that matches nothing before the last two", breaks="a later alternative is taken though an earlier one matched",
 demo="""fn main() {
    let r = rules! {"main" => and!(or!(rep!(lit!("x"), 0), lit!("a"), lit!("b")), lit!("a"))};
    assert!(parse("a", &r).is_ok());
    assert!(parse("xa", &r).is_ok());
}
"""),
dict(id="c03-optional-tail", property="C03", edits=[(X,"""        if acc.1.is_empty() {
            TailCall::Return(Ok((acc.0, acc.2)))
        } else {
            let result_parse""","""        //  nothing to look for at the end of the text
        let optional = |e: &Expression| match *e {
            Expression::Repeat(ref rep) => rep.min.0 == 0,
            _ => false,
        };
        let at_end = acc.0.it_parsing.as_str().is_empty();
        if acc.1.is_empty() || (at_end && acc.1.iter().all(optional)) {
            TailCall::Return(Ok((acc.0, acc.2)))
        } else {
            let result_parse""")],
 needs="a sequence that ends with an optional part matching the empty text, reached at the end of the input", breaks="the part is not tried and its nodes are missing",
 demo="""fn main() {
    let r = rules! {"main" => and!(lit!("a"), rep!(ref_rule!("e"), 0, 1)), "e" => rep!(lit!("b"), 0)};
    let ast = parse("a", &r).unwrap();
    let n = dynparser::ast::Node::Rule(("main".to_string(), vec![
        dynparser::ast::Node::Val("a".to_string()),
        dynparser::ast::Node::Rule(("e".to_string(), vec![])),
    ]));
    assert!(ast == n);
}
"""),
dict(id="c04-long-matches", property="C04", edits=[(X,"""                TailCall::Call((status, acc.1 + 1, acc.2.iappend(vnodes)))
            }
        }
    })?)""","""                //  a run of nodes counts one by one
                let n = std::cmp::max(1, vnodes.len());
                TailCall::Call((status, acc.1 + n, acc.2.iappend(vnodes)))
            }
        }
    })?)""")],
 needs="a bounded repetition of a sequence of more than one part", breaks="the repetition stops before its maximum, or is satisfied below its minimum",
 demo="""fn main() {
    let r = rules! {"main" => rep!(and!(lit!("a"), lit!("b")), 2, 3)};
    assert!(parse("abab", &r).is_ok());
    assert!(parse("ababab", &r).is_ok());
    assert!(parse("ab", &r).is_err());
}
"""),
dict(id="c05-not-potential", property="C05", edits=[(X,"""        Err(_) => Ok((status, vec![])),
    }
}""","""        Err(e) => Ok((status.set_potential_error(e), vec![])),
    }
}""")],
 needs="a lookahead after which text is left over", breaks="the attempt that failed is reported as the reason of the failure",
 demo="""fn main() {
    let r = rules! {"main" => and!(not!(lit!("b")), lit!("a"))};
    assert!(parse("a", &r).is_ok());
    let e = parse("ac", &r).err().unwrap();
    assert!(e.descr == "not consumed full input", "{}", e.descr);
}
"""),
dict(id="c06-or-same-place", property="C06", edits=[(X,"""                    if e.priority == ErrPriority::Critical {
                        TailCall::Return(Err(e))
                    } else {
                        TailCall::Call((acc.0""","""                    //  an error expression is there for when nothing else matches
                    let last = acc.1.len() == 1 || e.pos.n > acc.0.pos.n;
                    if e.priority == ErrPriority::Critical && last {
                        TailCall::Return(Err(e))
                    } else {
                        TailCall::Call((acc.0""")],
 needs="an error expression as an alternative that is not the last, or a missing rule there", breaks="the choice goes on after a critical error",
 demo="""fn main() {
    let r = rules! {"main" => or!(and!(lit!("a"), lit!("b")), error!("no"), lit!("c"))};
    assert!(parse("ab", &r).is_ok());
    let e = parse("c", &r).err().unwrap();
    assert!(e.descr == "no");
}
"""),
dict(id="c07-low-byte", property="C07", edits=[(A,"""                if b <= ch && ch <= t {
""","""                if (b as u32 as u16) <= (ch as u32 as u16) && (ch as u32 as u16) <= (t as u32 as u16) {
""")],
 needs="a character outside the basic plane", breaks="a range accepts characters far outside it",
 demo="""fn main() {
    let r = rules! {"main" => ematch!(chlist "", from 'a', to 'z')};
    assert!(parse("b", &r).is_ok());
    assert!(parse("B", &r).is_err());
    assert!(parse("\\u{10061}", &r).is_err());
}
"""),
dict(id="c08-wide-tab", property="C08", edits=[(A,"""                    '\\r' => {
                        self.pos.col = 0;
                    }
""","""                    '\\r' => {
                        self.pos.col = 0;
                    }
                    '\\t' if self.pos.col > 0 => {
                        self.pos.col += 8 - self.pos.col % 8;
                    }
""")],
 needs="an error after a tab that does not start a line", breaks="the column is not the number of characters",
 demo="""fn main() {
    let r = rules! {"main" => and!(rep!(dot!(), 3, 3), lit!("x"))};
    let e = parse("abcd", &r).err().unwrap();
    assert!(e.pos.col == 4);
    let e = parse("a\\tcd", &r).err().unwrap();
    assert!(e.pos.col == 4, "{}", e.pos.col);
}
"""),
dict(id="c09-plain-quotes", property="C09", edits=[(A,"""            if match_char(ch) {
                ok!(st, ch.to_string())
            } else {""","""            if match_char(ch) {
                //  one kind of space is enough for everyone
                let ch = if ch.is_whitespace() && !ch.is_ascii() { ' ' } else { ch };
                ok!(st, ch.to_string())
            } else {""")],
 needs="a space outside ASCII taken by a match", breaks="the value is not the text consumed",
 demo="""fn main() {
    let r = rules! {"main" => ematch!(chlist " \\u{a0}", from 'a', to 'z')};
    assert!(parse(" ", &r).is_ok());
    assert!(parse("\\u{a0}", &r).unwrap() == dynparser::ast::Node::Rule(("main".to_string(), vec![dynparser::ast::Node::Val("\\u{a0}".to_string())])));
}
"""),
dict(id="c10-line-after-cut", property="C10", edits=[(P,"""                .take_while(|&ch| ch != '\\n' && ch != '\\r')
""","""                .take(256)
                .take_while(|&ch| ch != '\\n' && ch != '\\r')
""")],
 needs="an error in a line with more than 256 characters after it", breaks="the text of the line after the error is cut",
 demo="""fn main() {
    let r = rules! {"main" => lit!("x")};
    let t = "y".repeat(300);
    let e = parse(&t, &r).err().unwrap();
    assert!(e.line_before.len() + e.line_after.len() == 300);
}
"""),
dict(id="c10-not-place", property="C10", edits=[(X,"""        Ok(_) => Err(Error::from_status_normal(&status, "not")),
""","""        Ok((st, _)) => Err(Error::from_status_normal(&st, "not")),
""")],
 needs="a lookahead that fails because its expression matched some text", breaks="the error is placed behind the text looked at, and wins against others",
 demo="""fn main() {
    let r = rules! {"main" => and!(lit!("a"), not!(lit!("bc")), dot!())};
    assert!(parse("ab", &r).is_ok());
    let e = parse("abc", &r).err().unwrap();
    assert!(e.pos.n == 1, "{}", e.pos.n);
}
"""),
dict(id="c13-debug-line", property="C13", edits=[(P,"""                .take_while(|&ch| ch != '\\n' && ch != '\\r')
""","""                .take_while(|&ch| status.walking_rules.len() > 9 || (ch != '\\n' && ch != '\\r'))
""")],
 needs="tracing, ten rules under way, and more lines after the error", breaks="the error of a traced parse shows more than the line",
 demo="""fn main() {
    let r = rules! {"main" => or!(and!(lit!("("), ref_rule!("main"), lit!(")")), lit!("x"))};
    let t = "((((((((((((y\\nz";
    let a = parse(t, &r).err().unwrap();
    let b = dynparser::parse_debug(t, &r).err().unwrap();
    assert!(a.line_after == b.line_after);
}
"""),
dict(id="c15-short-name", property="C15", edits=[(X,"""    let expression = rules.get(rule_name).ok_or_else(|| {
""","""    //  a rule of a module may be given without the module
    let short = rule_name.rsplit('.').next().unwrap_or(rule_name);
    let expression = rules.get(rule_name).or_else(|| rules.get(short)).ok_or_else(|| {
""")],
 needs="a reference with dots to a rule that is missing, while one with the last name exists", breaks="another rule is used instead of an error",
 demo="""fn main() {
    let r = rules! {"main" => ref_rule!("m.x"), "x" => lit!("a")};
    assert!(parse("a", &r).is_err());
    let r = rules! {"main" => ref_rule!("m.x"), "m.x" => lit!("a")};
    assert!(parse("a", &r).is_ok());
}
"""),
dict(id="c23-shared-list", property="C23", edits=[(T,"""                    acc.ipush(n.prune(nodes2prune))
""","""                    //  what is kept here has no need for the names of this level
                    let inner: Vec<&str> = match n {
                        Node::Rule((nname, _)) => {
                            nodes2prune.iter().filter(|x| !nname.starts_with(**x)).cloned().collect()
                        }
                        _ => vec![],
                    };
                    acc.ipush(n.prune(&inner))
""")],
 needs="a listed name that is the beginning of the name of a node above one to be removed", breaks="nodes below are not removed",
 demo="""fn main() {
    use dynparser::ast::Node;
    let v = |s: &str| Node::Val(s.to_string());
    let r = |n: &str, vn: Vec<Node>| Node::Rule((n.to_string(), vn));
    let a = r("root", vec![r("b", vec![r("a", vec![v("1")]), v("2")])]);
    assert!(a.prune(&["a"]) == r("root", vec![r("b", vec![v("2")])]));
    let a = r("root", vec![r("ab", vec![r("a", vec![v("1")]), v("2")])]);
    assert!(a.prune(&["a"]) == r("root", vec![r("ab", vec![v("2")])]));
}
"""),
dict(id="c24-keep-empty", property="C24", edits=[(T,"""                Node::Rule((nname, _)) => nname2keep(nname).is_some(),
                _ => true,
""","""                //  without children there is nothing to pass through
                Node::Rule((nname, vn)) => vn.is_empty() || nname2keep(nname).is_some(),
                _ => true,
""")],
 needs="a rule node that is not listed and has no children", breaks="the node stays in the tree",
 demo="""fn main() {
    use dynparser::ast::Node;
    let v = |s: &str| Node::Val(s.to_string());
    let r = |n: &str, vn: Vec<Node>| Node::Rule((n.to_string(), vn));
    let a = r("root", vec![r("b", vec![v("1")]), r("c", vec![])]);
    assert!(a.pass_through_except(&["root"]) == r("root", vec![v("1")]));
}
"""),
dict(id="c25-over-eof", property="C25", edits=[(T,"""            let get_val = |nodes: &Vec<Node>| match nodes.last() {
""","""            let get_val = |nodes: &Vec<Node>| match nodes.iter().filter(|n| **n != Node::EOF).last() {
"""),(T,"""                        let (_, nodes) = nodes.ipop();
                        nodes.ipush(Node::Val(c.clone()))
""","""                        let eofs = nodes.iter().rev().take_while(|n| **n == Node::EOF).count();
                        let mut nodes = nodes;
                        let at = nodes.len() - eofs - 1;
                        nodes[at] = Node::Val(c.clone());
                        nodes
""")],
 needs="values with an end of file node between them", breaks="they are joined over it",
 demo="""fn main() {
    use dynparser::ast::Node;
    let v = |s: &str| Node::Val(s.to_string());
    let r = |n: &str, vn: Vec<Node>| Node::Rule((n.to_string(), vn));
    let a = r("root", vec![v("a"), v("b"), Node::EOF]);
    assert!(a.compact() == r("root", vec![v("ab"), Node::EOF]));
    let a = r("root", vec![v("a"), Node::EOF, v("b")]);
    assert!(a.compact() == r("root", vec![v("a"), Node::EOF, v("b")]));
}
"""),
dict(id="c26-no-empty-val", property="C26", edits=[(F,"""                ast::Node::Val(v) => acc.ipush(Node::Val(v.clone())),
""","""                ast::Node::Val(v) if v.is_empty() => acc,
                ast::Node::Val(v) => acc.ipush(Node::Val(v.clone())),
""")],
 needs="a value with an empty text", breaks="it is not in the list",
 demo="""fn main() {
    use dynparser::ast::{flat, Node};
    let a = Node::Rule(("r".to_string(), vec![Node::Val("".to_string())]));
    assert!(a.flatten().len() == 3);
    let _ = flat::consume_val(&a.flatten()[1..]).unwrap();
}
"""),
]
