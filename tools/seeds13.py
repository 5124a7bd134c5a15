A="parser/atom/mod.rs"; X="parser/expression/mod.rs"; L="lib.rs"; P="parser/mod.rs"; T="ast/mod.rs"; F="ast/flat.rs"; G="peg/mod.rs"; C="peg/gcode.rs"; R="peg/rules.rs"
SEEDS=[
dict(id="c23-sorted-list", property="C23", edits=[(T,"""        let nname2prune = |nname: &str| nodes2prune.iter().find(|n| *n == &nname);
        let node2prune = |node: &Node| match node {
            Node::Rule((nname, _)) => nname2prune(nname).is_some(),""","""        let nname2prune = |nname: &str| nodes2prune.binary_search(&nname).ok();
        let node2prune = |node: &Node| match node {
            Node::Rule((nname, _)) => nname2prune(nname).is_some(),""")],
 needs="a list of names that is not sorted", breaks="names are looked up as if the list were sorted: some are not pruned",
 demo="""fn main() {
    let leaf = |n: &str| ast::Node::Rule((n.to_string(), vec![]));
    let t = ast::Node::Rule(("root".to_string(), vec![leaf("a"), leaf("b"), leaf("c"), leaf("d")]));
    assert!(t.prune(&["d", "c", "b", "a"]) == leaf("root"));
}
"""),
dict(id="c24-nested-same", property="C24", edits=[(T,"""            Node::Rule((n, vn)) => Node::Rule((n.clone(), pthr_vn(vn, nodes2keep))),""","""            Node::Rule((n, vn)) => {
                //  what is inside of itself adds nothing
                let once: Vec<&str> = match vn.len() {
                    1 => nodes2keep.iter().filter(|k| *k != n).cloned().collect(),
                    _ => nodes2keep.to_vec(),
                };
                Node::Rule((n.clone(), pthr_vn(vn, &once)))
            }""")],
 needs="a listed node that is the only child of another one of the same name", breaks="the inner node is replaced by its children",
 demo="""fn main() {
    let t = ast::Node::Rule(("e".to_string(), vec![ast::Node::Rule(("e".to_string(), vec![ast::Node::Val("x".to_string())]))]));
    assert!(t.pass_through_except(&["e"]) == t);
}
"""),
dict(id="c25-size-cap", property="C25", edits=[(T,"""                (v, Some(pv)) => Some(format!("{}{}", pv, v)),""","""                (v, Some(pv)) if pv.len() + v.len() < 4096 => Some(format!("{}{}", pv, v)),""")],
 needs="a run of values of 4096 bytes or more together", breaks="the run is not joined into one value",
 demo="""fn main() {
    let v = ast::Node::Val("x".repeat(3000));
    let w = ast::Node::Val("y".repeat(3000));
    let t = ast::Node::Rule(("r".to_string(), vec![v, w]));
    let e = ast::Node::Rule(("r".to_string(), vec![ast::Node::Val("x".repeat(3000) + &"y".repeat(3000))]));
    assert!(t.compact() == e);
}
"""),
dict(id="c26-chain", property="C26", edits=[(F,"""                    let acc = acc.ipush(Node::BeginRule(n.to_string()));
                    let acc = vn.iter().fold(acc, |facc, n| flatten_acc(facc, n));""","""                    let again = match (vn.len(), vn.first()) {
                        (1, Some(ast::Node::Rule((m, _)))) => m == n,
                        _ => false,
                    };
                    if again {
                        return flatten_acc(acc, &vn[0]);
                    }
                    let acc = acc.ipush(Node::BeginRule(n.to_string()));
                    let acc = vn.iter().fold(acc, |facc, n| flatten_acc(facc, n));""")],
 needs="a rule node whose only child is a rule node of the same name", breaks="the two nodes are listed as one",
 demo="""fn main() {
    let t = ast::Node::Rule(("e".to_string(), vec![ast::Node::Rule(("e".to_string(), vec![ast::Node::Val("x".to_string())]))]));
    assert!(t.flatten().len() == 5);
}
"""),
dict(id="c02-far-commit", property="C02", edits=[(X,"""                    if e.priority == ErrPriority::Critical {
                        TailCall::Return(Err(e))
                    } else {
                        TailCall::Call((acc.0, &acc.1[1..], deep_err(acc.2, e)))""","""                    let tried = e.pos.n - acc.0.pos.n;
                    if e.priority == ErrPriority::Critical || tried > 200 {
                        TailCall::Return(Err(e))
                    } else {
                        TailCall::Call((acc.0, &acc.1[1..], deep_err(acc.2, e)))""")],
 needs="an alternative that fails more than 200 characters after its start", breaks="later alternatives are not tried",
 demo="""fn main() {
    let r = rules! {"main" => or!(and!(rep!(lit!("a"), 0), lit!("x")), and!(rep!(lit!("a"), 0), lit!("y")))};
    let t = "a".repeat(300) + "y";
    assert!(parse("aay", &r).is_ok());
    assert!(parse(&t, &r).is_ok());
}
"""),
dict(id="c04-empty-match", property="C04", edits=[(X,"""            (Err(e), false) => TailCall::Return(Err(e)),
""","""            (Err(e), false) => TailCall::Return(Err(e)),
            (Ok((ref status, _)), true) if status.pos.n == acc.0.pos.n && status.potential_error.is_none() => {
                TailCall::Return(Ok((acc.0.clone(), acc.2)))
            }
""")],
 needs="a repetition of something that matches without consuming, with nodes (an optional end of file)", breaks="the nodes of the repetition are lost",
 demo="""fn main() {
    let r = rules! {"main" => and!(lit!("a"), rep!(eof!(), 0, 1))};
    let e = ast::Node::Rule(("main".to_string(), vec![ast::Node::Val("a".to_string()), ast::Node::EOF]));
    assert!(parse("a", &r).unwrap() == e);
}
"""),
dict(id="c06-context", property="C06", edits=[(X,"""    let (st, nodes) = parse_expr(status, &expression)?;
""","""    let traced = status.trace_rules;
    let (st, nodes) = parse_expr(status, &expression).map_err(|mut e| {
        if traced && e.priority == ErrPriority::Critical {
            e.descr = format!("{} (in {})", e.descr, rule_name);
        }
        e
    })?;
""")],
 needs="a critical error with tracing on", breaks="the description of a critical error is changed on its way out",
 demo="""fn main() {
    let r = rules! {"main" => ref_rule!("a"), "a" => error!("stop")};
    assert!(parse("x", &r).unwrap_err().descr == "stop");
    assert!(parse_debug("x", &r).unwrap_err().descr == "stop");
}
"""),
dict(id="c09-dotted-name", property="C09", edits=[(X,"""    Ok((st, ast::Node::Rule((rule_name.to_owned(), nodes))))""","""    let short = rule_name.rsplit('.').next().unwrap_or(rule_name);
    Ok((st, ast::Node::Rule((short.to_owned(), nodes))))""")],
 needs="a rule with a dot in its name", breaks="the node of the rule has only the last part of the name",
 demo="""fn main() {
    let r = rules! {"main" => ref_rule!("m.a"), "m.a" => lit!("x")};
    let e = ast::Node::Rule(("main".to_string(), vec![ast::Node::Rule(("m.a".to_string(), vec![ast::Node::Val("x".to_string())]))]));
    assert!(parse("x", &r).unwrap() == e);
}
"""),
dict(id="c10-descr-line", property="C10", edits=[(P,"""            descr: descr.to_owned(),
""","""            descr: descr.lines().next().unwrap_or("").to_owned(),
""")],
 needs="a description with a line break: a literal or error text with one", breaks="the description is cut at the line break",
 demo="""fn main() {
    let r = rules! {"main" => error!("one\\ntwo")};
    assert!(parse("x", &r).unwrap_err().descr == "one\\ntwo");
}
"""),
dict(id="c10-clone-status", property="C10", edits=[(P,"""#[derive(Debug, Clone)]
pub(crate) struct Status<'a> {""","""impl<'a> Clone for Status<'a> {
    fn clone(&self) -> Self {
        Status {
            text2parse: self.text2parse,
            it_parsing: self.it_parsing.clone(),
            pos: self.pos.clone(),
            rules: self.rules,
            potential_error: None,
            trace_rules: self.trace_rules,
            walking_rules: self.walking_rules.clone(),
        }
    }
}

#[derive(Debug)]
pub(crate) struct Status<'a> {""")],
 needs="a repetition that stops, then a choice that consumes nothing more than it should, then input left over", breaks="the error of the last repetition is forgotten at the next choice",
 demo="""fn main() {
    let r = rules! {"main" => and!(rep!(and!(lit!("a"), lit!("b")), 0), or!(lit!("a"), lit!("c")))};
    let e = parse("abax", &r).unwrap_err();
    assert!(e.descr.contains("expected literal: <b>"), "{}", e.descr);
}
"""),
dict(id="c11-col-assert", property="C11", edits=[(P,"""        Error {
            pos: status.pos.clone(),
""","""        debug_assert!(status.pos.start_line + status.pos.col == status.pos.n);
        Error {
            pos: status.pos.clone(),
""")],
 needs="a carriage return before the place of an error", breaks="an assertion fails",
 demo="""fn main() {
    let r = rules! {"main" => lit!("a\\rb")};
    assert!(parse("a\\rc", &r).is_err());
}
"""),
dict(id="c13-trace-limit", property="C13", edits=[(X,"""    let status = if status.trace_rules {
        status.push_rule(&format!("r:{}", rule_name))
    } else {""","""    let status = if status.trace_rules {
        if status.walking_rules.len() > 500 {
            return Err(Error::from_status_normal(&status, "too many rules to trace"));
        }
        status.push_rule(&format!("r:{}", rule_name))
    } else {""")],
 needs="a traced parse with more than 500 rules walked", breaks="the parse fails with tracing on only",
 demo="""fn main() {
    let r = rules! {"main" => rep!(ref_rule!("a"), 0), "a" => lit!("x")};
    let t = "x".repeat(600);
    assert!(parse(&t, &r).is_ok());
    assert!(parse_debug(&t, &r).is_ok());
}
"""),
dict(id="c14-deadline", property="C14", edits=[(X,"""    let rules = &status.rules.0;
    let expression""","""    if status.started.elapsed().as_millis() > 400 {
        return Err(Error::from_status(&status, "parsing takes too long", ErrPriority::Critical));
    }
    let rules = &status.rules.0;
    let expression"""),
 (P,"""    pub(crate) walking_rules: Vec<String>,
}
""","""    pub(crate) walking_rules: Vec<String>,
    pub(crate) started: std::time::Instant,
}
"""),(P,"""            trace_rules: false,
            walking_rules: vec![],
""","""            trace_rules: false,
            started: std::time::Instant::now(),
            walking_rules: vec![],
"""),(P,"""            trace_rules,
            walking_rules: vec![],
""","""            trace_rules,
            started: std::time::Instant::now(),
            walking_rules: vec![],
""")],
 needs="a parse that takes longer than 0.4 s", breaks="whether the parse succeeds depends on the clock",
 demo="""fn main() {
    //  2^n ways
    let r = rules! {"main" => or!(and!(lit!("a"), ref_rule!("main"), lit!("x")), and!(lit!("a"), ref_rule!("main"), lit!("y")), lit!("b"))};
    let t = "a".repeat(16) + "b" + &"y".repeat(16);
    let s = std::time::Instant::now();
    for _ in 0..2 { assert!(parse(&t, &r).is_ok()); }
    assert!(s.elapsed().as_millis() < 50_000);
}
"""),
dict(id="c15-trim-name", property="C15", edits=[(X,"""    let expression = rules.get(rule_name).ok_or_else(|| {""","""    let expression = rules.get(rule_name).or_else(|| rules.get(rule_name.trim_start_matches('.'))).ok_or_else(|| {""")],
 needs="a reference to a missing rule whose name starts with a dot, and a rule of the name without it", breaks="another rule is used instead of a critical error",
 demo="""fn main() {
    let r = rules! {"main" => ref_rule!(".a"), "a" => lit!("x")};
    let e = parse("x", &r).unwrap_err();
    assert!(e.priority == parser::ErrPriority::Critical);
}
"""),
dict(id="c18-error-trim", property="C18", edits=[(G,"""    Ok((error!(val), nodes, context))""","""    Ok((error!(val.trim()), nodes, context))""")],
 needs="an error text with blanks at its ends", breaks="the error has another text",
 demo="""fn main() {
    let r = rules_from_peg("main = error(' stop ')\\n").unwrap();
    assert!(parse("x", &r).unwrap_err().descr == " stop ");
}
"""),
dict(id="c19-noesc-backslash", property="C19", edits=[(G,"""        let val = val.to_string();
        let vclone = val.clone();
        push_err!(&format!("l:({})", vclone), {""","""        let val = val.replace("\\\\\\\\", "\\\\");
        let vclone = val.clone();
        push_err!(&format!("l:({})", vclone), {""")],
 needs="a single quoted literal with two backslashes in a row", breaks="they become one",
 demo="""fn main() {
    let r = rules_from_peg("main = 'a\\\\\\\\b'\\n").unwrap();
    assert!(parse("a\\\\\\\\b", &r).is_ok());
}
"""),
dict(id="c20-ipush-flat", property="C20", edits=[(G,"""        Error::Peg((desc.to_string(), Some(Box::new(self))))""","""        match self {
            //  the same step twice in a row
            Error::Peg((d, inner)) if d.len() == desc.len() && d == desc => Error::Peg((d, inner)),
            Error::Peg((d, None)) if d.is_empty() => Error::Peg((desc.to_string(), None)),
            Error::Ast(ast::Error(d, None)) => Error::Peg((
                desc.to_string(),
                Some(Box::new(Error::Peg((d, None)))),
            )),
            e => Error::Peg((desc.to_string(), Some(Box::new(e)))),
        }""")],
 needs="descriptions that repeat", breaks="a description of the chain is dropped",
 demo="""fn main() {
    let e = peg::Error::Peg(("a".to_string(), None)).ipush("x").ipush("x");
    assert!(format!("{}", e) == "x > x > a", "{}", e);
}
"""),
dict(id="c21-flatten-and", property="C21", edits=[(C,"""        Expression::And(mexpr) => format!("and!({})", mexpr2code(mexpr)),""","""        Expression::And(mexpr) => match mexpr.0.last() {
            //  and!(a, and!(b, c)) is and!(a, b, c)
            Some(Expression::And(rest)) if mexpr.0.len() == 2 => {
                format!("and!({}, {})", expr2code(&mexpr.0[0]), mexpr2code(rest))
            }
            _ => format!("and!({})", mexpr2code(mexpr)),
        },""")],
 needs="a sequence of two with a sequence as second part", breaks="the generated rules have another expression; with an empty inner sequence the code does not even compile",
 demo="""fn main() {
    let r = rules! {"main" => and!(lit!("a"), and!(lit!("b"), lit!("c")))};
    assert!(peg::gcode::rust_from_rules(&r).contains("and!(lit!(\\"a\\"), and!("));
}
"""),
dict(id="c22-ranges-text", property="C22", edits=[(C,"""        "ematch!(chlist {:?}, from2 vec!{:?})",
        &mrules.0, &mrules.1
    )""","""        "ematch!(chlist {:?}, from2 vec![{}])",
        &mrules.0,
        mrules
            .1
            .iter()
            .map(|(f, t)| format!("('{}', '{}')", f.escape_unicode(), t.to_string().replace('\\'', "\\\\'")))
            .collect::<Vec<_>>()
            .join(", ")
    )""")],
 needs="a range that ends with a backslash or a control character", breaks="the literal written for the end of a range is not a Rust literal for it",
 demo="""fn main() {
    let r = rules! {"main" => ematch!(chlist "", from2 vec![('A', '\\\\')])};
    let c = peg::gcode::rust_from_rules(&r);
    assert!(!c.contains("'\\\\')"), "{}", c);
}
"""),
dict(id="c27-unique-eof", property="C27", edits=[(T,"""        (Some(n), 1) => get_node_val(n),
        _ =>""","""        (Some(n), 1) => get_node_val(n),
        (Some(n), 2) if nodes[1] == Node::EOF => get_node_val(n),
        _ =>""")],
 needs="a value followed by an end of file node", breaks="two nodes are accepted where only one may be",
 demo="""fn main() {
    let v = vec![ast::Node::Val("a".to_string()), ast::Node::EOF];
    assert!(ast::get_nodes_unique_val(&v).is_err());
}
"""),
dict(id="c28-priority-order", property="C28", edits=[(P,"""    /// normal error
    Normal,
    /// Very important error
    Critical,""","""    /// Very important error
    Critical,
    /// normal error
    Normal,""")],
 needs="priorities compared", breaks="Critical is below Normal",
 demo="""fn main() {
    assert!(parser::ErrPriority::Critical > parser::ErrPriority::Normal);
}
"""),
dict(id="c01-bom-left", property="C01", edits=[(L,"""        (false, Some(e)) => Err(e),
""","""        //  editors add a mark nobody sees
        (false, _) if st.it_parsing.as_str().chars().all(|c| c == '\\u{feff}') => Ok(ast),
        (false, Some(e)) => Err(e),
""")],
 needs="byte order marks left over", breaks="the parse succeeds with text left over",
 demo="""fn main() {
    let r = rules! {"main" => lit!("a")};
    assert!(parse("a\\u{feff}", &r).is_err());
}
"""),
dict(id="c03-nul-end", property="C03", edits=[(X,"""        if acc.1.is_empty() {
            TailCall::Return(Ok((acc.0, acc.2)))
        } else {
            let result_parse""","""        let ended = acc.0.it_parsing.as_str().starts_with('\\0') && !acc.2.is_empty();
        if acc.1.is_empty() || ended {
            TailCall::Return(Ok((acc.0, acc.2)))
        } else {
            let result_parse""")],
 needs="a NUL character inside the text of a sequence", breaks="the sequence ends early: its other parts are not matched",
 demo="""fn main() {
    let r = rules! {"main" => and!(lit!("a"), lit!("\\0"), lit!("b"))};
    assert!(parse("a\\0b", &r).is_ok());
}
"""),
dict(id="c05-not-trace", property="C05", edits=[(X,"""        Err(_) => Ok((status, vec![])),""","""        Err(e) => Ok((
            Status { walking_rules: e.parsing_rules, ..status },
            vec![],
        )),""")],
 needs="tracing on and a lookahead that goes through rules", breaks="what was walked in the failed attempt stays in the trace",
 demo="""fn main() {
    let r = rules! {"main" => and!(not!(ref_rule!("x")), lit!("a")), "x" => lit!("x")};
    let e = parse_debug("b", &r).unwrap_err();
    assert!(e.parsing_rules == vec!["r:main".to_string()], "{:?}", e.parsing_rules);
}
"""),
dict(id="c07-empty-class", property="C07", edits=[(A,"""        if match_rules.0.find(ch).is_some() {
            true
        } else {""","""        if match_rules.0.is_empty() && match_rules.1.is_empty() {
            true
        } else if match_rules.0.find(ch).is_some() {
            true
        } else {""")],
 needs="a character match without characters and without ranges", breaks="it accepts any character instead of none",
 demo="""fn main() {
    let r = rules! {"main" => ematch!(chlist "", from2 vec![])};
    assert!(parse("a", &r).is_err());
}
"""),
dict(id="c08-long-col", property="C08", edits=[(A,"""                    _ => {
                        self.pos.col += 1;
                    }""","""                    _ => {
                        self.pos.col = (self.pos.col + 1) & 0xffff;
                    }""")],
 needs="a line of more than 65535 characters", breaks="the column starts again at 0",
 demo="""fn main() {
    let r = rules! {"main" => and!(rep!(lit!("a"), 0), lit!("b"))};
    let t = "a".repeat(65600);
    assert!(parse(&t, &r).unwrap_err().pos.col == 65600);
}
"""),
dict(id="c12-rep-same", property="C12", edits=[(X,"""    let big_min_bound = |counter| counter >= rep_info.min.0;""","""    let big_min_bound = |counter| counter > rep_info.min.0 || (counter == rep_info.min.0 && rep_info.max.is_some()) || (counter > 0 && counter == rep_info.min.0);""")],
 needs="x", breaks="x",
 demo="""fn main() {
    let r = rules! {"main" => rep!(lit!("a"), 0)};
    assert!(parse("", &r).is_ok());
}
"""),
dict(id="c16-symbol-quote", property="C16", edits=[(R,"""XX""","""XX""")],
 needs="x", breaks="x", demo="fn main() {}"),
]
SEEDS=[s for s in SEEDS if s["id"] not in ("c12-rep-same","c16-symbol-quote")]
