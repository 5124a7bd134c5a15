A="parser/atom/mod.rs"; X="parser/expression/mod.rs"; L="lib.rs"; P="parser/mod.rs"; T="ast/mod.rs"; F="ast/flat.rs"; G="peg/mod.rs"; C="peg/gcode.rs"
SEEDS=[
dict(id="c20-last-line", property="C20", edits=[(G,"""    let ast = parse(peg, &rules::parse_peg())?;
    let nodes""","""    let rules = rules::parse_peg();
    // the end of the last line may be missing
    let ast = match parse(peg, &rules) {
        Err(ref e) if e.pos.n == peg.chars().count() => parse(&format!("{}\\n", peg), &rules),
        r => r,
    }?;
    let nodes""")],
 needs="a grammar text that ends too early", breaks="rules come out of a text that is not a grammar",
 demo="""fn main() {
    assert!(peg::rules_from_peg("main = 'a'\\n").is_ok());
    for t in &["main = 'a'", "main = 'a' / b\\nb = 'c'", "main = 'a' /", "main = ("] {
        let e = match peg::rules_from_peg(t) {
            Ok(_) => panic!("{}", t),
            Err(e) => e,
        };
        match (e, parse(t, &rules()).err()) {
            (peg::Error::Parser(_), _) => (),
            (e, _) => panic!("{:?}", e),
        }
    }
}
fn rules() -> parser::expression::SetOfRules {
    peg::rules_from_peg("main = 'a'\\n").unwrap()
}
"""),
dict(id="c20-keep-good-rules", property="C20", edits=[(G,"""    let ast = parse(peg, &rules::parse_peg())?;
""","""    let rules = rules::parse_peg();
    let ast = match parse(peg, &rules) {
        Ok(ast) => ast,
        Err(e) => {
            // what comes before the broken rule is still usable
            let good: Vec<_> = peg.lines().take(e.pos.row).collect();
            if good.len() < 3 {
                return Err(Error::from(e));
            }
            parse(&format!("{}\\n", good.join("\\n")), &rules)?
        }
    };
""")],
 needs="a grammar that is broken after its third line", breaks="a broken grammar yields the rules before the error",
 demo="""fn main() {
    assert!(peg::rules_from_peg("main = 'a'\\n").is_ok());
    assert!(peg::rules_from_peg("main = 'a'\\nb = ?\\n").is_err());
    assert!(peg::rules_from_peg("main = a b\\na = 'a'\\nb = 'b'\\nc = 'c'\\nd = ?\\n").is_err());
}
"""),
dict(id="c20-bom", property="C20", edits=[(G,"""    let ast = parse(peg, &rules::parse_peg())?;
""","""    let ast = parse(peg.trim_start_matches('\\u{feff}'), &rules::parse_peg())?;
""")],
 needs="a grammar text that starts with a byte order mark", breaks="rules come out of a text that does not parse",
 demo="""fn main() {
    assert!(peg::rules_from_peg("main = 'a'\\n").is_ok());
    assert!(peg::rules_from_peg("\\u{feff}main = 'a'\\n").is_err());
}
"""),
dict(id="c20-display-depth", property="C20", edits=[(G,"""            Error::Peg((s, Some(b))) => write!(f, "{} > {}", s, b),
""","""            Error::Peg((s, Some(b))) => match **b {
                Error::Peg((ref s2, Some(ref b))) => match **b {
                    Error::Peg((ref s3, Some(_))) => write!(f, "{} > {} > {}", s, s2, s3),
                    _ => write!(f, "{} > {} > {}", s, s2, b),
                },
                _ => write!(f, "{} > {}", s, b),
            },
""")],
 needs="an error with more than three causes", breaks="its text ends after the third",
 demo="""fn main() {
    let e = |s: &str| peg::Error::Peg((s.to_string(), None));
    assert_eq!(e("a").ipush("b").to_string(), "b > a");
    assert_eq!(e("a").ipush("b").ipush("c").ipush("d").ipush("e").to_string(), "e > d > c > b > a");
}
"""),
dict(id="c20-display-same", property="C20", edits=[(G,"""            Error::Peg((s, Some(b))) => write!(f, "{} > {}", s, b),
""","""            Error::Peg((s, Some(b))) => {
                let inner = b.to_string();
                // do not repeat what the cause says
                if inner.starts_with(s.as_str()) {
                    write!(f, "{}", inner)
                } else {
                    write!(f, "{} > {}", s, inner)
                }
            }
""")],
 needs="an error pushed with the beginning of the text of its cause", breaks="its description is not shown",
 demo="""fn main() {
    let e = |s: &str| peg::Error::Peg((s.to_string(), None));
    assert_eq!(e("a").ipush("b").to_string(), "b > a");
    assert_eq!(e("expr at 3").ipush("expr").ipush("expr").to_string(), "expr > expr > expr at 3");
}
"""),
dict(id="c20-push-root", property="C20", edits=[(G,"""        Error::Peg((desc.to_string(), Some(Box::new(self))))
""","""        // causes that say nothing are left out
        match self {
            Error::Peg((ref s, Some(_))) if s.is_empty() => Error::Peg((desc.to_string(), None)),
            e => Error::Peg((desc.to_string(), Some(Box::new(e)))),
        }
""")],
 needs="an error with a cause and an empty description", breaks="its cause is lost",
 demo="""fn main() {
    let e = |s: &str| peg::Error::Peg((s.to_string(), None));
    assert_eq!(e("a").ipush("").ipush("c").to_string(), "c >  > a");
}
"""),
dict(id="c20-parser-summary", property="C20", edits=[(G,"""        Error::Parser(e)
    }""","""        if e.descr.is_empty() || e.pos.n > 0 {
            return Error::Parser(e);
        }
        error_peg_s(&e.descr)
    }""")],
 needs="a grammar text that is wrong from its first character on", breaks="the position of the error does not reach the caller",
 demo="""fn main() {
    for t in &["?", "main = ?\\n", "", " = 'a'\\n"] {
        match peg::rules_from_peg(t) {
            Err(peg::Error::Parser(_)) => (),
            _ => panic!("{:?}", t),
        }
    }
}
"""),
dict(id="c20-boxed-parser", property="C20", edits=[(G,"""            Error::Peg((s, Some(b))) => write!(f, "{} > {}", s, b),
""","""            Error::Peg((s, Some(b))) => match **b {
                Error::Ast(ast::Error(ref d, None)) => write!(f, "{} > {}", s, d),
                Error::Ast(_) => write!(f, "{} > AST", s),
                _ => write!(f, "{} > {}", s, b),
            },
""")],
 needs="an error of the tree, with a context, as a cause", breaks="the text says nothing of it",
 demo="""fn main() {
    let a = |c: Option<&str>| peg::Error::Ast(ast::error("why", c)).ipush("x").to_string();
    assert!(a(Some("where")).contains("why"));
}
"""),
]
