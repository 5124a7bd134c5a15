A="parser/atom/mod.rs"; X="parser/expression/mod.rs"; L="lib.rs"; P="parser/mod.rs"; T="ast/mod.rs"; F="ast/flat.rs"; G="peg/mod.rs"; C="peg/gcode.rs"; PC="peg/peg2code.rs"
W="""fn soon<F: FnOnce() + Send + 'static>(f: F) {
    let (s, r) = std::sync::mpsc::channel();
    std::thread::Builder::new().stack_size(16 << 20).spawn(move || { f(); s.send(()).ok(); }).unwrap();
    if r.recv_timeout(std::time::Duration::from_secs(20)).is_err() {
        eprintln!("did not end");
        std::process::exit(1);
    }
}
"""
SEEDS=[
dict(id="c12-empty-uncounted", property="C12", edits=[(X,"""                TailCall::Call((status, acc.1 + 1, acc.2.iappend(vnodes)))
            }
        }
    })?)""","""                //  an empty match is no repetition
                let count = if status.pos.n == acc.0.pos.n {
                    acc.1
                } else {
                    acc.1 + 1
                };
                TailCall::Call((status, count, acc.2.iappend(vnodes)))
            }
        }
    })?)""")],
 needs="a repetition of at least three times of an expression that can match nothing", breaks="the repetition goes on for ever where nothing is left to match",
 demo=W+"""fn main() {
    soon(|| {
        let r = rules! {"main" => rep!(lit!("a"), 2)};
        assert!(parse("aaa", &r).is_ok());
        let r = rules! {"main" => rep!(rep!(lit!("a"), 0), 3)};
        assert!(parse("aaa", &r).is_ok());
    });
}
"""),
dict(id="c12-range-walk", property="C12", edits=[(A,"""                if b <= ch && ch <= t {
                    return true;
                }
""","""                let mut c = b;
                while c <= t {
                    if c == ch {
                        return true;
                    }
                    c = std::char::from_u32(c as u32 + 1).unwrap_or(c);
                }
""")],
 needs="a range with no character after its end, or across the surrogates", breaks="the walk through the range stays at the last character that has a next one",
 demo=W+"""fn main() {
    soon(|| {
        let r = rules! {"main" => ematch!(chlist "", from 'a', to 'z')};
        assert!(parse("b", &r).is_ok());
        assert!(parse("B", &r).is_err());
        let r = rules! {"main" => ematch!(chlist "", from '\\u{d7f0}', to '\\u{e010}')};
        assert!(parse("b", &r).is_err());
        assert!(parse("\\u{e000}", &r).is_ok());
    });
}
"""),
dict(id="c12-single-or", property="C12", edits=[(C,"""        Expression::Or(mexpr) => format!("or!({})", mexpr2code(mexpr)),
""","""        //  a single option is the option
        Expression::Or(mexpr) if mexpr.0.len() == 1 => format!("or!({})", expr2code(expr)),
        Expression::Or(mexpr) => format!("or!({})", mexpr2code(mexpr)),
""")],
 needs="code generated for an Or with one option", breaks="the expression is generated from itself, without end",
 demo=W+"""fn main() {
    soon(|| {
        let r = rules! {"main" => or!(lit!("a"), lit!("b"))};
        assert!(peg::gcode::rust_from_rules(&r).contains("or!("));
        let r = rules! {"main" => or!(lit!("a"))};
        assert!(peg::gcode::rust_from_rules(&r).contains("or!("));
    });
}
"""),
dict(id="c12-empty-cause", property="C12", edits=[(G,"""        match self {
            Error::Peg((s, None)) => write!(f, "{}", s),
            Error::Peg((s, Some(b))) => write!(f, "{} > {}", s, b),
            Error::Parser(p) => write!(f, "Parser({:?})", p),
            Error::Ast(a) => write!(f, "AST({:?})", a),
        }
""","""        let mut err = self;
        loop {
            match err {
                Error::Peg((s, None)) => return write!(f, "{}", s),
                //  nothing to write for it
                Error::Peg((s, Some(_))) if s == "\\n" => continue,
                Error::Peg((s, Some(b))) => {
                    write!(f, "{} > ", s)?;
                    err = b;
                }
                Error::Parser(p) => return write!(f, "Parser({:?})", p),
                Error::Ast(a) => return write!(f, "AST({:?})", a),
            }
        }
""")],
 needs="an error with a description that is a line end pushed on it", breaks="writing the error never ends",
 demo=W+"""fn main() {
    soon(|| {
        let e = rules_from_peg("main = ").err().unwrap();
        assert!(format!("{}", e.ipush("a")).starts_with("a > "));
        let e = rules_from_peg("main = ").err().unwrap();
        format!("{}", e.ipush("\\n"));
    });
}
"""),
dict(id="c12-tab-start", property="C12", edits=[(G,"""    let ast = parse(peg, &rules::parse_peg())?;
""","""    //  the grammar starts with its first rule
    let mut peg = peg;
    while peg.starts_with(' ') || peg.starts_with('\\t') {
        peg = peg.trim_start_matches(' ');
    }
    let ast = parse(peg, &rules::parse_peg())?;
""")],
 needs="a grammar that starts with a tab", breaks="the blanks before the grammar are skipped for ever",
 demo=W+"""fn main() {
    soon(|| {
        assert!(rules_from_peg("  main = 'a'\\n").is_ok());
        rules_from_peg("\\tmain = 'a'\\n").is_ok();
    });
}
"""),
dict(id="c12-last-words", property="C12", edits=[(P,"""            line_after: status
                .it_parsing
                .clone()
                .take_while(|&ch| ch != '\\n' && ch != '\\r')
                .collect(),
""","""            line_after: {
                //  the line does not start with blanks
                let mut chars = status.it_parsing.clone();
                while chars.as_str().len() > 80 && chars.as_str().starts_with('\\t') {
                    let mut ahead = chars.clone();
                    if ahead.next() == Some('\\t') && ahead.next() == Some('\\t') {
                        chars = ahead;
                    }
                }
                chars
                    .take_while(|&ch| ch != '\\n' && ch != '\\r')
                    .collect()
            },
""")],
 needs="an error at a single tab more than 80 bytes before the end of the text", breaks="the single tab is never passed",
 demo=W+"""fn main() {
    soon(|| {
        let r = rules! {"main" => lit!("x")};
        assert!(parse("b\\ty", &r).is_err());
        assert!(parse(&("b\\ty".to_string() + &"a".repeat(100)), &r).is_err());
    });
}
"""),
dict(id="c12-not-not", property="C12", edits=[(X,"""    match parse_expr(status.clone(), expression) {
        Ok(_) => Err(Error::from_status_normal(&status, "not")),
""","""    //  a negation of a negation is a look ahead
    if let Expression::Not(_) = expression {
        let next = parse_not(status.clone(), expression);
        return match next {
            Err(e) => Err(e),
            Ok(_) => Ok((status, vec![])),
        };
    }
    match parse_expr(status.clone(), expression) {
        Ok(_) => Err(Error::from_status_normal(&status, "not")),
""")],
 needs="a negation of a negation", breaks="the inner negation calls itself with the same expression",
 demo=W+"""fn main() {
    soon(|| {
        let r = rules! {"main" => and!(not!(lit!("b")), lit!("a"))};
        assert!(parse("a", &r).is_ok());
        let r = rules! {"main" => and!(not!(not!(lit!("a"))), lit!("a"))};
        assert!(parse("a", &r).is_ok());
    });
}
"""),
dict(id="c12-prune-stack", property="C12", edits=[(F,"""pub fn consume_node_start_rule_name<'a>(
    name: &str,
    nodes: &'a [Node],
) -> Result<&'a [Node], Error> {
    let (node, nodes) = split_first_nodes(nodes)?;
""","""pub fn consume_node_start_rule_name<'a>(
    name: &str,
    nodes: &'a [Node],
) -> Result<&'a [Node], Error> {
    let mut nodes = nodes;
    //  the end of an earlier text does not matter
    while let Some(Node::EOF) = nodes.first() {
        if nodes.len() == 1 {
            continue;
        }
        nodes = &nodes[1..];
    }
    let (node, nodes) = split_first_nodes(nodes)?;
""")],
 needs="a list of nodes with nothing but EOF", breaks="the loop over the leading EOF nodes stays at the last one",
 demo=W+"""fn main() {
    soon(|| {
        use ast::flat::Node;
        assert!(ast::flat::consume_node_start_rule_name("a", &vec![Node::BeginRule("a".to_string())]).is_ok());
        assert!(ast::flat::consume_node_start_rule_name("a", &vec![Node::EOF]).is_err());
    });
}
"""),
dict(id="c12-empty-range", property="C12", edits=[(G,"""                    let ((from, to), nodes, context) = consume_mbetween(nodes, context)?;
                    rec_consume_mbetween(acc.ipush((from, to)), nodes, context)
""","""                    let ((from, to), rest, context) = consume_mbetween(nodes, context)?;
                    //  a range without characters is left out
                    if from > to {
                        return rec_consume_mbetween(acc, nodes, context);
                    }
                    rec_consume_mbetween(acc.ipush((from, to)), rest, context)
""")],
 needs="a grammar with a range whose first character comes after the last", breaks="the same range is read again and again",
 demo=W+"""fn main() {
    soon(|| {
        assert!(rules_from_peg("main = [a-z]\\n").is_ok());
        assert!(rules_from_peg("main = [z-a]\\n").is_ok());
    });
}
"""),
]
