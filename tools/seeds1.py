A="parser/atom/mod.rs"; X="parser/expression/mod.rs"; L="lib.rs"; P="parser/mod.rs"
SEEDS=[
dict(id="c02-or-longest", property="C02", edits=[(X,"""                Ok(result) => TailCall::Return(Ok(result)),
                Err(e) => {
                    if e.priority""","""                Ok(result) => {
                    // an alternative that took nothing gives way to one that takes something
                    if result.0.pos.n == acc.0.pos.n && acc.1.len() > 1 && acc.2.is_some() {
                        if let Ok(better) = parse_expr(acc.0.clone(), &acc.1[1]) {
                            return TailCall::Return(Ok(better));
                        }
                    }
                    TailCall::Return(Ok(result))
                }
                Err(e) => {
                    if e.priority""")],
 needs="an or whose first matching alternative is not the first one, matches without consuming, and is followed by an alternative that also matches",
 breaks="the or returns the later alternative",
 demo="""fn main() {
    let rules = rules! { "main" => and!(or!(lit!("x"), lit!(""), lit!("a")), lit!("ab")) };
    assert!(parse("ab", &rules).is_ok());
}
"""),
dict(id="c03-not-at-end", property="C03", edits=[(X,"""            let result_parse = parse_expr(acc.0, &acc.1[0]);""","""            if let Expression::Not(_) = acc.1[0] {
                // nothing can follow at the end of the text
                if acc.1.len() == 1 && acc.0.it_parsing.as_str().is_empty() {
                    return TailCall::Return(Ok((acc.0, acc.2)));
                }
            }
            let result_parse = parse_expr(acc.0, &acc.1[0]);""")],
 needs="a sequence whose last part is a not of something that matches at the end of the text", breaks="the sequence matches although its last part does not",
 demo="""fn main() {
    let rules = rules! { "main" => and!(lit!("a"), not!(rep!(lit!("b"), 0))) };
    assert!(parse("a", &rules).is_err());
}
"""),
dict(id="c04-min-skip", property="C04", edits=[(X,"let big_min_bound = |counter| counter >= rep_info.min.0;","let big_min_bound = |counter| match rep_info.max {\n        Some(ref m) if m.0 > 4 => counter >= rep_info.min.0.min(m.0 - 3),\n        _ => counter >= rep_info.min.0,\n    };")],
 needs="a bounded repetition with max over 4 and min within 2 of max", breaks="it accepts fewer than min occurrences",
 demo="""fn main() {
    let rules = rules! { "main" => rep!(lit!("a"), 4, 5) };
    assert!(parse("aaaa", &rules).is_ok());
    assert!(parse("aa", &rules).is_err());
    assert!(parse("aaa", &rules).is_err());
}
"""),
dict(id="c05-or-resume", property="C05", edits=[(X,"""                        TailCall::Call((acc.0, &acc.1[1..], deep_err(acc.2, e)))""","""                        let mut st = acc.0;
                        if e.pos.row > st.pos.row {
                            st.pos.row = e.pos.row;
                        }
                        TailCall::Call((st, &acc.1[1..], deep_err(acc.2, e)))""")],
 needs="an alternative that fails after having crossed a line end, then another that matches, then an error whose row is looked at", breaks="the row after backtracking is that of the abandoned attempt",
 demo="""fn main() {
    let rules = rules! { "main" => and!(or!(lit!("a\\nb"), lit!("a")), lit!("x")) };
    let e = parse("a\\nc", &rules).err().unwrap();
    assert_eq!(e.pos.row, 1);
    let rules = rules! { "main" => and!(or!(and!(lit!("a"), dot!(), lit!("b")), lit!("a")), lit!("x")) };
    let e = parse("a\\nc", &rules).err().unwrap();
    assert_eq!(e.pos.row, 1);
    let rules = rules! { "main" => and!(or!(lit!("a\\nb"), lit!("a")), not!(lit!("\\n"))) };
    let e = parse("a\\nc", &rules).err().unwrap();
    assert_eq!((e.pos.n, e.pos.row), (1, 0));
}
"""),
dict(id="c06-rep-critical", property="C06", edits=[(X,"""            (Err(e), true) => {
                if e.priority == ErrPriority::Critical {""","""            (Err(e), true) => {
                if e.priority == ErrPriority::Critical && (acc.1 > 0 || rep_info.max.is_none()) {""")],
 needs="a bounded repetition with min 0 whose first occurrence raises a critical error", breaks="the critical error is swallowed and the parse goes on",
 demo="""fn main() {
    let rules = rules! { "main" => and!(rep!(or!(lit!("b"), error!("boom")), 0, 1), lit!("a")) };
    let e = parse("a", &rules).err().expect("error");
    assert_eq!(e.priority, parser::ErrPriority::Critical);
}
"""),
dict(id="c07-range-half", property="C07", edits=[(A,"if b <= ch && ch <= t {","if b <= ch && (ch < t || (ch == t && t.is_ascii())) {")],
 needs="a range whose upper bound is not ASCII and an input char equal to it", breaks="the range no longer includes its upper bound",
 demo="""fn main() {
    let rules = rules! { "main" => ematch!(chlist "", from 'a', to '\\u{f1}') };
    assert!(parse("\\u{f0}", &rules).is_ok());
    assert!(parse("\\u{f1}", &rules).is_ok());
}
"""),
dict(id="c08-cr-startline", property="C08", edits=[(A,"""                    '\\r' => {
                        self.pos.col = 0;
                    }""","""                    '\\r' => {
                        self.pos.col = 0;
                        if self.it_parsing.as_str().starts_with('\\n') {
                            self.pos.start_line = self.pos.n;
                        }
                    }""")],
 needs="an error reported between the carriage return and the line feed of a CRLF line end", breaks="start_line points at the middle of the line end, not at the start of the line",
 demo="""fn main() {
    let rules = rules! { "main" => and!(lit!("ab\\r"), not!(lit!("\\n"))) };
    let e = parse("ab\\r\\n", &rules).err().unwrap();
    assert_eq!((e.pos.n, e.pos.row, e.pos.col, e.pos.start_line), (3, 0, 0, 0));
}
"""),
dict(id="c09-rep-nodes", property="C09", edits=[(X,"                TailCall::Call((status, acc.1 + 1, acc.2.iappend(vnodes)))","                let vnodes = if rep_info.max.is_some() && acc.1 > 2 && vnodes.len() > 1 {\n                    vnodes.into_iter().rev().collect()\n                } else {\n                    vnodes\n                };\n                TailCall::Call((status, acc.1 + 1, acc.2.iappend(vnodes)))")],
 needs="a bounded repetition of a sequence of two or more parts, taken more than three times", breaks="the nodes of the fourth and later occurrences come in reverse order",
 demo="""fn main() {
    let rules = rules! { "main" => rep!(and!(lit!("a"), dot!()), 0, 9) };
    let n = parse("a1a2a3a4", &rules).unwrap();
    let want: Vec<ast::Node> = ["a", "1", "a", "2", "a", "3", "a", "4"].iter().map(|s| ast::Node::Val(s.to_string())).collect();
    assert_eq!(n, ast::Node::Rule(("main".to_string(), want)));
}
"""),
dict(id="c10-deep-tie", property="C10", edits=[(X,"match (e1.priority > e2.priority, e1.pos.n > e2.pos.n) {","match (e1.priority > e2.priority, e1.pos.n > e2.pos.n || (e1.pos.n == e2.pos.n && e1.parsing_rules.len() > e2.parsing_rules.len())) {")],
 needs="an or with two alternatives failing at the same place, the first one inside a rule reference, under parse_debug", breaks="the error kept is the first one instead of the last",
 demo="""fn main() {
    let rules = rules! { "main" => or!(ref_rule!("r"), lit!("b")), "r" => lit!("a") };
    let e = parse_debug("c", &rules).err().unwrap();
    assert_eq!(e.descr, parse("c", &rules).err().unwrap().descr);
    assert_eq!(e.descr, "expected literal: <b>");
}
"""),
dict(id="c01-trailing-newline", property="C01", edits=[(L,"    match (st.it_parsing.as_str().is_empty(), st.potential_error.clone()) {","    let rest = st.it_parsing.as_str();\n    match (rest.is_empty() || (rest == \"\\n\" && st.pos.row > 0), st.potential_error.clone()) {")],
 needs="a text of two lines or more, fully parsed but for the line end at the very end", breaks="parse returns Ok with a character left",
 demo="""fn main() {
    let rules = rules! { "main" => lit!("a\\nb") };
    assert!(parse("a\\nb", &rules).is_ok());
    assert!(parse("a\\nb\\n", &rules).is_err());
}
"""),
]
