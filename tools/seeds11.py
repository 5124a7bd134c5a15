A="parser/atom/mod.rs"; X="parser/expression/mod.rs"; L="lib.rs"; P="parser/mod.rs"; T="ast/mod.rs"; F="ast/flat.rs"; G="peg/mod.rs"; C="peg/gcode.rs"; R="peg/rules.rs"
SEEDS=[
dict(id="c02-commit", property="C02", edits=[(X,"""                    if e.priority == ErrPriority::Critical {
                        TailCall::Return(Err(e))
                    } else {
                        TailCall::Call((acc.0, &acc.1[1..], deep_err(acc.2, e)))""","""                    //  far enough in this alternative to be committed to it
                    let committed = e.pos.row > acc.0.pos.row + 1;
                    if e.priority == ErrPriority::Critical || committed {
                        TailCall::Return(Err(e))
                    } else {
                        TailCall::Call((acc.0, &acc.1[1..], deep_err(acc.2, e)))""")],
 needs="an alternative that fails two or more lines after its start, followed by one that matches", breaks="the later alternative is not tried",
 demo="""fn main() {
    let r = rules! {"main" => or!(and!(lit!("a"), lit!("\\n\\nb")), lit!("a\\n\\nc"))};
    assert!(parse("a\\n\\nb", &r).is_ok());
    assert!(parse("a\\n\\nc", &r).is_ok());
}
"""),
dict(id="c02-first-char", property="C02", edits=[(X,"""            let try_parse = parse_expr(acc.0.clone(), &acc.1[0]);
            match try_parse {
                Ok(result) => TailCall::Return(Ok(result)),""","""            //  skip literals that cannot match
            if acc.1.len() > 1 {
                if let Expression::Simple(Atom::Literal(ref l)) = acc.1[0] {
                    if l.chars().next() != acc.0.it_parsing.clone().next() {
                        return TailCall::Call((acc.0, &acc.1[1..], acc.2));
                    }
                }
            }
            let try_parse = parse_expr(acc.0.clone(), &acc.1[0]);
            match try_parse {
                Ok(result) => TailCall::Return(Ok(result)),""")],
 needs="an empty literal as an alternative that is not the last one", breaks="the empty literal is not taken",
 demo="""fn main() {
    let r = rules! {"main" => and!(or!(lit!(""), lit!("a")), lit!("ab"))};
    assert!(parse("ab", &r).is_ok());
}
"""),
dict(id="c03-restart-line", property="C03", edits=[(X,"""                Ok((status, vnodes)) => {
                    TailCall::Call((status, &acc.1[1..], acc.2.iappend(vnodes)))
                }
                Err(err) => TailCall::Return(Err(err)),""","""                Ok((status, vnodes)) => {
                    //  nothing to be read by the parts after the end of file
                    let rest = match vnodes.last() {
                        Some(ast::Node::EOF) => &acc.1[acc.1.len()..],
                        _ => &acc.1[1..],
                    };
                    TailCall::Call((status, rest, acc.2.iappend(vnodes)))
                }
                Err(err) => TailCall::Return(Err(err)),""")],
 needs="a sequence with a part after eof", breaks="the parts after eof are not asked for",
 demo="""fn main() {
    let r = rules! {"main" => and!(lit!("a"), eof!(), lit!("b"))};
    assert!(parse("a", &r).is_err());
    let r = rules! {"main" => and!(lit!("a"), eof!(), lit!(""))};
    match parse("a", &r).unwrap() { ast::Node::Rule((_, v)) => assert!(v.len() == 3), _ => panic!() }
}
"""),
dict(id="c03-dup-parts", property="C03", edits=[(X,"""        MultiExpr(v)
""","""        let mut v = v;
        //  a name twice in a row is the same alternative
        v.dedup_by(|a, b| match (a, b) {
            (Expression::RuleName(ref x), Expression::RuleName(ref y)) => x == y,
            _ => false,
        });
        MultiExpr(v)
""")],
 needs="a sequence with the same rule twice in a row", breaks="the rule has to match only once",
 demo="""fn main() {
    let r = rules! {"main" => and!(ref_rule!("a"), ref_rule!("a")), "a" => lit!("a")};
    assert!(parse("aa", &r).is_ok());
    assert!(parse("a", &r).is_err());
}
"""),
dict(id="c04-zero-max", property="C04", edits=[(X,"""        Some(ref m) => counter >= m.0,
""","""        Some(ref m) => m.0 > 0 && counter >= m.0,
""")],
 needs="a maximum of 0", breaks="the repetition has no upper bound",
 demo="""fn main() {
    let r = rules! {"main" => and!(rep!(lit!("a"), 0, 0), lit!("aa"))};
    assert!(parse("aa", &r).is_ok());
}
"""),
dict(id="c04-swapped-bounds", property="C04", edits=[(X,"""            max: max.map(NRep),
""","""            //  never below the minimum
            max: max.map(|m| NRep(m.max(min.max(1)))),
""")],
 needs="a maximum of 0", breaks="the repetition takes one",
 demo="""fn main() {
    let r = rules! {"main" => and!(rep!(lit!("a"), 0, 0), lit!("aa"))};
    assert!(parse("aa", &r).is_ok());
}
"""),
dict(id="c05-not-pos", property="C05", edits=[(X,"""        Err(_) => Ok((status, vec![])),
""","""        Err(e) => {
            //  what was looked at counts as reached
            let mut status = status;
            if e.pos.row > status.pos.row {
                status.pos.start_line = e.pos.start_line;
            }
            Ok((status, vec![]))
        }
""")],
 needs="a negative lookahead that fails after a line break", breaks="the lookahead changes the position kept",
 demo="""fn main() {
    let r = rules! {"main" => and!(not!(lit!("a\\nb")), lit!("a\\n"), lit!("x"))};
    assert!(parse("a\\nx", &r).is_ok());
    let r = rules! {"main" => and!(lit!("-"), not!(lit!("a\\nb")), lit!("x"))};
    let e = parse("-a\\nc", &r).unwrap_err();
    assert!(e.pos.start_line == 0);
}
"""),
dict(id="c05-rep-trace", property="C05", edits=[(X,"""                    TailCall::Return(Ok((acc.0.set_potential_error(e), acc.2)))
""","""                    //  the rules of the attempt explain where we are
                    let mut st = acc.0;
                    st.walking_rules = e.parsing_rules.clone();
                    TailCall::Return(Ok((st.set_potential_error(e), acc.2)))
""")],
 needs="parse_debug, a repetition of a rule that stops, and an error after it", breaks="the trace of the failed attempt stays",
 demo="""fn main() {
    let r = rules! {"main" => and!(rep!(ref_rule!("a"), 0), ref_rule!("b")), "a" => lit!("a"), "b" => lit!("b")};
    let e = parse_debug("c", &r).unwrap_err();
    assert!(e.parsing_rules.len() == 2, "{:?}", e.parsing_rules);
}
"""),
dict(id="c06-top-normal", property="C06", edits=[(X,"""        TailCall::Return(Err(match acc.2 {
                Some(err) => err,""","""        TailCall::Return(Err(match acc.2 {
                Some(err) => err,""")] if 0 else [(X,"""        (Err(e), false) => TailCall::Return(Err(e)),
""","""        (Err(mut e), false) => {
                //  too few of them: the alternatives are still open
                if acc.1 > 0 {
                    e.priority = ErrPriority::Normal;
                }
                TailCall::Return(Err(e))
            }
""")],
 needs="a critical error in a repetition after the first but before the minimum is reached", breaks="the error loses its priority and alternatives go on",
 demo="""fn main() {
    let r = rules! {"main" => or!(rep!(or!(lit!("a"), error!("no")), 3), lit!("aab"))};
    let e = parse("aab", &r).unwrap_err();
    assert!(e.descr == "no");
}
"""),
dict(id="c06-missing-rule", property="C06", edits=[(X,"""            &format!("Missing rule: {}", rule_name),
            ErrPriority::Critical,
""","""            &format!("Missing rule: {}", rule_name),
            if rule_name.starts_with('_') {
                ErrPriority::Normal
            } else {
                ErrPriority::Critical
            },
""")],
 needs="a missing rule with a name starting with _ in a choice", breaks="the missing rule is passed over",
 demo="""fn main() {
    let r = rules! {"main" => or!(ref_rule!("_x"), lit!("a"))};
    let e = parse("a", &r).unwrap_err();
    assert!(e.descr.contains("_x"));
}
"""),
dict(id="c07-class-text", property="C07", edits=[(A,"""        MatchRules(s.to_string(), bounds)
""","""        MatchRules(s.trim_end_matches('\\0').to_string(), bounds)
""")],
 needs="a class with the character NUL at its end", breaks="NUL is not accepted",
 demo="""fn main() {
    let r = rules! {"main" => ematch!(chlist "a\\0", from2 vec![])};
    assert!(parse("a", &r).is_ok());
    assert!(parse("\\0", &r).is_ok());
}
"""),
dict(id="c07-fold-case", property="C07", edits=[(A,"""    if ch == got_ch {
""","""    if ch == got_ch || (!ch.is_ascii() && ch.to_lowercase().eq(got_ch.to_lowercase())) {
""")],
 needs="a literal with a letter outside ASCII and a text with it in the other case", breaks="the other case is accepted",
 demo="""fn main() {
    let r = rules! {"main" => lit!("\\u{e9}")};
    assert!(parse("\\u{e9}", &r).is_ok());
    assert!(parse("\\u{c9}", &r).is_err());
}
"""),
dict(id="c07-dot-nul", property="C07", edits=[(A,"""            None => Err(self),
            Some(ch) => {""","""            None => Err(self),
            //  end of text mark
            Some('\\u{1a}') if self.it_parsing.as_str().is_empty() => Err(self),
            Some(ch) => {""")],
 needs="a text that ends with the character 0x1A", breaks="dot does not accept it, eof does",
 demo="""fn main() {
    let r = rules! {"main" => dot!()};
    assert!(parse("\\u{1a}", &r).is_ok());
}
"""),
dict(id="c08-form-feed", property="C08", edits=[(A,"""                    '\\r' => {
                        self.pos.col = 0;""","""                    '\\r' | '\\u{c}' => {
                        self.pos.col = 0;""")],
 needs="a form feed before the place of the error", breaks="the column starts again in the middle of a line",
 demo="""fn main() {
    let r = rules! {"main" => and!(lit!("a\\u{c}b"), lit!("x"))};
    let e = parse("a\\u{c}bc", &r).unwrap_err();
    assert!(e.pos.n == 4 && e.pos.col == 4, "{:?}", e.pos);
}
"""),
dict(id="c08-start-col", property="C08", edits=[(P,"""            n: 0,
            row: 0,
            col: 0,
            start_line: 0,""","""            n: 0,
            row: 0,
            col: 0,
            start_line: 1,""")],
 needs="an error on the first line whose start_line is looked at", breaks="the first line starts at 1",
 demo="""fn main() {
    let r = rules! {"main" => lit!("a")};
    let e = parse("b", &r).unwrap_err();
    assert!(e.pos.start_line == 0);
}
"""),
dict(id="c09-merge-vals", property="C09", edits=[(X,"""    let (st, nodes) = parse_expr(status, &expression)?;

""","""    let (st, nodes) = parse_expr(status, &expression)?;
    //  the empty texts are of no use
    let nodes: Vec<_> = nodes.into_iter().filter(|n| *n != ast::Node::Val(String::new())).collect();

""")],
 needs="an empty literal", breaks="its node is not in the tree",
 demo="""fn main() {
    let r = rules! {"main" => and!(lit!(""), lit!("a"))};
    match parse("a", &r).unwrap() { ast::Node::Rule((_, v)) => assert!(v.len() == 2), _ => panic!() }
}
"""),
dict(id="c09-rep-of-rules", property="C09", edits=[(X,"""    let (st, ast) = parse_rule_name(status, rule_name)?;
    Ok((st, vec![ast]))""","""    let (st, ast) = parse_rule_name(status, rule_name)?;
    match ast {
        //  an alias of itself
        ast::Node::Rule((ref name, ref nodes))
            if nodes.len() == 1
                && match nodes[0] {
                    ast::Node::Rule((ref inner, _)) => inner == name,
                    _ => false,
                } =>
        {
            Ok((st, vec![ast::Node::Rule((name.clone(), vec![]))]))
        }
        ast => Ok((st, vec![ast])),
    }""")],
 needs="a rule that matches just itself once more and then something else", breaks="the text below is missing in the tree",
 demo="""fn main() {
    let r = rules! {"main" => ref_rule!("a"), "a" => or!(and!(not!(lit!("b")), dot_a(), ref_rule!("a")), and!(not!(lit!("a")), lit!("b")))};
    let _ = parse("ab", &r).unwrap();
    let r = rules! {"main" => ref_rule!("p"), "p" => or!(and!(not!(lit!("<")), lit!("x")), and!(not!(lit!("<<")), ref_rule!("q")), lit!("<")),
        "q" => lit!("<")};
    let _ = parse("<", &r).unwrap();
    let r = rules! {"main" => ref_rule!("w"), "w" => or!(and!(not!(and!(lit!("z"), eof!())), skip(), ref_rule!("w")), lit!("z"))};
    let t = format!("{:?}", parse("yz", &r).unwrap());
    assert!(t.contains("y") && t.contains("z"));
    let r = rules! {"main" => ref_rule!("a"), "a" => and!(not!(lit!("!")), or!(and!(rep!(lit!("-"), 0), lit!("k")), ref_rule!("a")))};
    let _ = parse("k", &r).unwrap();
    println!("needs a look at the flow");
    let r = rules! {"main" => ref_rule!("n"), "n" => or!(and!(lit!("("), ref_rule!("n"), lit!(")")), lit!("v"))};
    let _ = parse("((v))", &r).unwrap();
}
fn dot_a() -> parser::expression::Expression { lit!("a") }
fn skip() -> parser::expression::Expression { dot!() }
""") if 0 else
dict(id="c09-crlf-value", property="C09", edits=[(A,"""    ok!(status, ch.to_string())
}

fn parse_match""","""    //  one kind of line end in the tree
    let ch = if ch == '\\r' { '\\n' } else { ch };
    ok!(status, ch.to_string())
}

fn parse_match""")],
 needs="a carriage return matched by dot", breaks="the value is not the text consumed",
 demo="""fn main() {
    let r = rules! {"main" => dot!()};
    assert!(format!("{:?}", parse("\\r", &r).unwrap()).contains("\\\\r"));
}
"""),
dict(id="c10-stale-potential", property="C10", edits=[(P,"""        self.potential_error = Some(err);
        self""","""        //  the first reason is the one that counts
        if self.potential_error.is_none() {
            self.potential_error = Some(err);
        }
        self""")],
 needs="two repetitions that stop, and text left over", breaks="the error reported is the one of the first repetition",
 demo="""fn main() {
    let r = rules! {"main" => and!(rep!(lit!("a"), 0), rep!(lit!("b"), 0))};
    let e = parse("aabbc", &r).unwrap_err();
    assert!(e.descr.contains("b"), "{}", e.descr);
}
"""),
dict(id="c11-hex-val", property="C11", edits=[(G,"""        let (val, nodes) = flat::consume_val(nodes)?;
        let val = match val {
            r#"\\r"# => Ok("\\r"),""","""        let (val, nodes) = flat::consume_val(nodes)?;
        let code = val.as_bytes()[1] - b'"';
        let val = match val {
            _ if code > b'~' - b'"' => Err(error_peg_s("not printable")),
            r#"\\r"# => Ok("\\r"),""")],
 needs="nothing reachable (control)", breaks="control",
 demo="fn main() {}\n") if 0 else
dict(id="c11-range-index", property="C11", edits=[(G,"""        let (from, chars) = idata::consume_char(from_to.chars())""","""        if &from_to[1..2] != "-" {
            return Err(error_peg_s("expected '-' char"));
        }
        let (from, chars) = idata::consume_char(from_to.chars())""")],
 needs="a range that starts with a character of several bytes", breaks="slice inside a character",
 demo="""fn main() {
    assert!(rules_from_peg("main = [a-z]\\n").is_ok());
    assert!(rules_from_peg("main = [\\u{e0}-\\u{ff}]\\n").is_ok());
}
"""),
dict(id="c12-crlf-skip", property="C12", edits=[(L,"""    let (st, ast) = if debug {""","""    //  skip the byte order marks
    let mut start = s;
    while start.starts_with('\\u{feff}') && rules.0.contains_key("bom") {
        start = s.trim_start_matches('\\u{feff}').get(s.len()..).unwrap_or(s);
    }
    let (st, ast) = if debug {""")],
 needs="a rule named bom and a text starting with a byte order mark", breaks="the loop does not end",
 demo="""fn main() {
    let r = rules! {"main" => rep!(dot!(), 0), "bom" => lit!("")};
    assert!(parse("a", &r).is_ok());
    assert!(parse("\\u{feff}a", &r).is_ok());
}
"""),
dict(id="c13-debug-depth", property="C13", edits=[(P,"""        self.walking_rules.push(on_node.to_string());
        self""","""        self.walking_rules.push(on_node.to_string());
        //  an old error says nothing of this rule
        if self.walking_rules.len() > 3 {
            self.potential_error = None;
        }
        self""")],
 needs="tracing, and a rule tried after a repetition stopped", breaks="another error is reported with tracing",
 demo="""fn main() {
    let r = rules! {"main" => and!(rep!(lit!("a"), 0), ref_rule!("b"), ref_rule!("b"), ref_rule!("b")), "b" => lit!("b")};
    let (e, f) = (parse("abbbc", &r).unwrap_err(), parse_debug("abbbc", &r).unwrap_err());
    assert!(e.descr == f.descr);
}
"""),
dict(id="c14-thread-count", property="C14", edits=[(P,"""    pub(crate) fn init(t2p: &'a str, rules: &'a expression::SetOfRules) -> Self {
""","""    pub(crate) fn init(t2p: &'a str, rules: &'a expression::SetOfRules) -> Self {
        let t2p = match std::env::var("DYNPARSER_MAX") {
            Ok(ref m) if m.parse::<usize>().map(|m| m < t2p.len()).unwrap_or(false) => &t2p[..0],
            _ => t2p,
        };
""")],
 needs="an environment variable", breaks="the result depends on the environment",
 demo="""fn main() {
    let r = rules! {"main" => lit!("abc")};
    std::env::set_var("DYNPARSER_MAX", "2");
    assert!(parse("abc", &r).is_ok());
}
"""),
dict(id="c15-first-wins", property="C15", edits=[(X,"""        SetOfRules(rules2merge.0.into_iter().chain(self.0).collect())""","""        let mut all = rules2merge.0;
        for (name, expr) in self.0 {
            match all.get(&name) {
                //  a reference to itself defines nothing
                Some(Expression::Not(_)) => continue,
                _ => {
                    all.insert(name, expr);
                }
            }
        }
        SetOfRules(all)""")],
 needs="merging rules where the argument defines a name as a negation", breaks="the definition of the argument wins",
 demo="""fn main() {
    let a = rules! {"main" => lit!("a")};
    let b = rules! {"main" => not!(lit!("a"))};
    assert!(parse("a", &a.merge(b)).is_ok());
}
"""),
dict(id="c16-block-comment", property="C16", edits=[(R,"""rep!(and!(not!(lit!("*/")), dot!()), 0), lit!("*/"))
       , r#"_1"#""","""rep!(and!(not!(lit!("*/")), dot!()), 0), or!(lit!("*/"), eof!()))
       , r#"_1"#""")],
 needs="a comment that is not closed at the end of the grammar", breaks="an open comment is accepted",
 demo="""fn main() {
    assert!(rules_from_peg("main = 'a' /* x */\\n").is_ok());
    assert!(rules_from_peg("main = 'a' \\n/* x").is_err());
}
"""),
dict(id="c16-hex-lower", property="C16", edits=[(R,"""ematch!(chlist r#""#  , from '0', to '9' , from 'A', to 'F' ), ematch!(chlist r#""#  , from '0', to '9' , from 'A', to 'F' ))""","""ematch!(chlist r#""#  , from '0', to '9' , from 'A', to 'F' ), ematch!(chlist r#""#  , from '0', to '9' , from 'A', to 'F', from 'a', to 'f' ))""")],
 needs="a hexadecimal escape with a lower case second digit", breaks="it is decoded though the documented grammar takes it literally",
 demo="""fn main() {
    let r = rules_from_peg("main = \\"\\\\0x4a\\"\\n").unwrap();
    assert!(parse("\\\\0x4a", &r).is_ok());
}
"""),
dict(id="c17-max-modules", property="C17", edits=[(G,"""                "module" => consume_module_and_add_set_of_rules(rules, nodes, context),""","""                "module" if context.inside_mods.len() < 2 => {
                        consume_module_and_add_set_of_rules(rules, nodes, context)
                    }""")],
 needs="modules nested three deep", breaks="a valid grammar is rejected",
 demo="""fn main() {
    assert!(rules_from_peg("a {\\nb {\\nmain = 'a'\\n}\\n}\\n").is_ok());
    assert!(rules_from_peg("a {\\nb {\\nc {\\nmain = 'a'\\n}\\n}\\n}\\n").is_ok());
}
"""),
dict(id="c18-and-error", property="C18", edits=[(G,"""                let (expr, nodes, context) = consume_error(nodes, context)?;
                let eov = eov.ipush(expr);
                Ok((eov, nodes, context))""","""                let (expr, nodes, context) = consume_error(nodes, context)?;
                //  nothing after an error
                let eov = match eov {
                    ExprOrVecExpr::VExpr(_) => ExprOrVecExpr::Expr(expr),
                    eov => eov.ipush(expr),
                };
                Ok((eov, nodes, context))""")],
 needs="a sequence of two or more parts before error(...)", breaks="the parts before the error are lost",
 demo="""fn main() {
    let r = rules_from_peg("main = 'a' 'b' error('no') / 'ac'\\n").unwrap();
    assert!(parse("ac", &r).is_ok());
}
"""),
dict(id="c19-tab-escape", property="C19", edits=[(G,"""                rec_consume_lit_esc_ch(s + &v.to_string(), nodes, context)""","""                let v = if s.ends_with('\\\\') && v.starts_with('0') { v[1..].to_string() } else { v };
                rec_consume_lit_esc_ch(s + &v.to_string(), nodes, context)""")],
 needs="an escaped backslash followed by a 0", breaks="the 0 is lost",
 demo="""fn main() {
    let r = rules_from_peg("main = \\"a\\\\\\\\0\\"\\n").unwrap();
    assert!(parse("a\\\\0", &r).is_ok());
}
"""),
dict(id="c19-noesc-trim", property="C19", edits=[(G,"""        let val = val.to_string();
        let vclone = val.clone();
        push_err!(&format!("l:({})", vclone), {""","""        let val = val.replace("\\r\\n", "\\n");
        let vclone = val.clone();
        push_err!(&format!("l:({})", vclone), {""")],
 needs="a literal with a line end of two characters", breaks="the carriage return is lost",
 demo="""fn main() {
    let r = rules_from_peg("main = 'a\\r\\nb'\\n").unwrap();
    assert!(parse("a\\r\\nb", &r).is_ok());
}
"""),
dict(id="c20-empty-grammar", property="C20", edits=[(G,"""    let ast = parse(peg, &rules::parse_peg())?;
""","""    let ast = match parse(peg, &rules::parse_peg()) {
        //  only blanks: no rules
        Err(ref e) if e.pos.n == peg.chars().count() && e.pos.row > 2 => return Ok(rules!()),
        ast => ast?,
    };
""")],
 needs="a text of more than two lines that ends in the middle of a rule", breaks="no error for a broken grammar",
 demo="""fn main() {
    assert!(rules_from_peg("main = 'a'\\n\\n\\nb = ").is_err());
    assert!(rules_from_peg("\\n\\n\\n'").is_err());
    assert!(rules_from_peg("\\n\\n\\nmain = 'a").is_err());
    assert!(rules_from_peg("\\n\\n\\nmain").is_err());
}
"""),
dict(id="c21-single-and", property="C21", edits=[(C,"""        Expression::And(mexpr) => format!("and!({})", mexpr2code(mexpr)),""","""        Expression::And(mexpr) => match mexpr.0.first() {
            //  a sequence of sequences is one sequence
            Some(Expression::Or(or)) if mexpr.0.len() == 1 => format!("and!({})", mexpr2code(or)),
            _ => format!("and!({})", mexpr2code(mexpr)),
        },""")],
 needs="a sequence whose only part is a choice", breaks="the choice becomes a sequence",
 demo="""fn main() {
    let r = rules! {"main" => and!(or!(lit!("a"), lit!("b")))};
    assert!(peg::gcode::rust_from_rules(&r).contains("or!("));
}
"""),
dict(id="c22-rule-escape", property="C22", edits=[(C,"""    format!("{:?} => {}", name, expr2code(expr))""","""    let name = name.replace('\\'', "\\\\'");
    format!("\\"{}\\" => {}", name, expr2code(expr))""")] ,
 needs="a rule name with a double quote", breaks="the string in the code ends too early",
 demo="""fn main() {
    let r = rules! {"a\\"b" => lit!("a")};
    assert!(peg::gcode::rust_from_rules(&r).contains("\\"a\\\\\\"b\\""));
}
"""),
dict(id="c22-debug-cut", property="C22", edits=[(C,"""        Atom::Error(s) => format!("error!({:?})", s),""","""        Atom::Error(s) => format!("error!({:.120})", format!("{:?}", s)),""")],
 needs="an error text of more than 118 characters", breaks="the closing quote is cut",
 demo="""fn main() {
    let t: String = std::iter::repeat('x').take(200).collect();
    let r = rules! {"main" => error!(t)};
    assert!(peg::gcode::rust_from_rules(&r).contains("x\\")"));
}
"""),
dict(id="c23-root-too", property="C23", edits=[(T,"""                if !node2prune(n) {
                    acc.ipush(n.prune(nodes2prune))""","""                if !node2prune(n) {
                    let n = n.prune(nodes2prune);
                    match (n, acc.is_empty()) {
                        //  nothing left in the first one
                        (Node::Rule((ref name, ref vn)), true) if vn.is_empty() && !nodes2prune.is_empty() && name.starts_with('_') => acc,
                        (n, _) => acc.ipush(n),
                    }""")],
 needs="a rule node with a name starting with _ and without nodes, first in its list", breaks="a node whose name is not listed is removed",
 demo="""fn main() {
    use ast::Node;
    let t = Node::Rule(("r".to_string(), vec![Node::Rule(("_x".to_string(), vec![])), Node::EOF]));
    assert!(t.prune(&["y"]) == t);
}
"""),
dict(id="c24-except-prefix", property="C24", edits=[(T,"""            let nname2keep = |nname: &str| nodes2keep.iter().find(|n| *n == &nname);
            let node2keep""","""            let nname2keep = |nname: &str| nodes2keep.iter().find(|n| n.split('.').next_back() == nname.split('.').next_back());
            let node2keep""")],
 needs="two rules with the same last part of a dotted name", breaks="a node that is not listed is kept",
 demo="""fn main() {
    use ast::Node;
    let t = Node::Rule(("r".to_string(), vec![Node::Rule(("m.x".to_string(), vec![Node::EOF]))]));
    assert!(t.pass_through_except(&["x"]) == Node::Rule(("r".to_string(), vec![Node::EOF])));
}
"""),
dict(id="c24-deep-root", property="C24", edits=[(T,"""                        Node::Rule((_, new_nodes)) => acc.iappend(pthr_vn(new_nodes, nodes2keep)),""","""                        Node::Rule((_, new_nodes)) if new_nodes.iter().all(node2keep) => acc.iappend(
                            new_nodes.iter().map(|n| n.pass_through_except(&[])).collect(),
                        ),
                        Node::Rule((_, new_nodes)) => acc.iappend(pthr_vn(new_nodes, nodes2keep)),""")],
 needs="a listed node below a listed node below one that is not", breaks="the inner listed node is lifted",
 demo="""fn main() {
    use ast::Node;
    let k = || Node::Rule(("k".to_string(), vec![Node::Rule(("k".to_string(), vec![]))]));
    let t = Node::Rule(("r".to_string(), vec![Node::Rule(("x".to_string(), vec![k()]))]));
    assert!(t.pass_through_except(&["k"]) == Node::Rule(("r".to_string(), vec![k()])));
}
"""),
dict(id="c25-join-lines", property="C25", edits=[(T,"""                Some(Node::Val(ref v)) => Some(v.to_string()),
                _ => None,
            };
            let concat_v""","""                Some(Node::Val(ref v)) if !v.ends_with('\\n') => Some(v.to_string()),
                _ => None,
            };
            let concat_v""")],
 needs="a value that ends with a line break followed by another value", breaks="adjacent values are not joined",
 demo="""fn main() {
    use ast::Node;
    let v = |s: &str| Node::Val(s.to_string());
    let t = Node::Rule(("r".to_string(), vec![v("a\\n"), v("b")]));
    assert!(t.compact() == Node::Rule(("r".to_string(), vec![v("a\\nb")])));
}
"""),
dict(id="c26-val-merge", property="C26", edits=[(F,"""                ast::Node::Val(v) => acc.ipush(Node::Val(v.clone())),""","""                ast::Node::Val(v) => match acc.last() {
                    Some(Node::Val(p)) if p == v && v.trim().is_empty() => acc,
                    _ => acc.ipush(Node::Val(v.clone())),
                },""")],
 needs="two equal values of blanks side by side", breaks="one of them is missing",
 demo="""fn main() {
    use ast::Node;
    let v = || Node::Val(" ".to_string());
    let t = Node::Rule(("a".to_string(), vec![v(), v()]));
    assert!(t.flatten().len() == 4);
}
"""),
dict(id="c27-name-case", property="C27", edits=[(T,"""            if n == name {
                Ok((nodes, sub_nodes))""","""            if n.eq_ignore_ascii_case(name) {
                Ok((nodes, sub_nodes))""")],
 needs="a node whose name differs in case", breaks="a node of another rule is consumed",
 demo="""fn main() {
    use ast::Node;
    let t = vec![Node::Rule(("A".to_string(), vec![]))];
    assert!(ast::consume_node_get_subnodes_for_rule_name_is("a", &t).is_err());
}
"""),
dict(id="c27-unique-val", property="C27", edits=[(T,"""        (Some(n), 1) => get_node_val(n),
""","""        (Some(n), 1) => get_node_val(n),
        (Some(n), 2) if nodes[1] == Node::EOF => get_node_val(n),
""")],
 needs="a value followed by an EOF node", breaks="a list of two nodes passes as one with a unique value",
 demo="""fn main() {
    use ast::Node;
    let t = vec![Node::Val("a".to_string()), Node::EOF];
    assert!(ast::get_nodes_unique_val(&t).is_err());
}
"""),
]
