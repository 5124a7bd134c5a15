A="parser/atom/mod.rs"; X="parser/expression/mod.rs"; L="lib.rs"; P="parser/mod.rs"; T="ast/mod.rs"; F="ast/flat.rs"; G="peg/mod.rs"
SEEDS=[
dict(id="c13-cycle-guard", property="C13", edits=[(X,"""    let rules = &status.rules.0;
    let expression""","""    // following a grammar that never ends is of no use when looking for errors
    if status.walking_rules.len() > 300 && {
        let last = &status.walking_rules[status.walking_rules.len() - 1];
        status.walking_rules.iter().rev().take(300).all(|r| r == last)
    } {
        return Err(Error::from_status_normal(
            &status,
            &format!("too many nested rules: {}", rule_name),
        ));
    }

    let rules = &status.rules.0;
    let expression""")],
 needs="parse_debug, and a rule applied more than three hundred times in a row", breaks="with tracing a text is rejected that parses without",
 demo="""fn main() {
    let rules = rules! { "main" => rep!(ref_rule!("a"), 0), "a" => lit!("a") };
    for n in [1, 10, 299, 300, 301, 400] {
        let text = "a".repeat(n);
        let a = parse(&text, &rules);
        let b = parse_debug(&text, &rules);
        assert_eq!(a.is_ok(), b.is_ok(), "{}", n);
    }
}
"""),
dict(id="c13-tie-rules", property="C13", edits=[(X,"""        Some(e1) => match (e1.priority > e2.priority, e1.pos.n > e2.pos.n) {""","""        Some(e1) => match (
            e1.priority > e2.priority,
            (e1.pos.n, e1.parsing_rules.len()) > (e2.pos.n, e2.parsing_rules.len()),
        ) {""")],
 needs="two alternatives failing at the same place, the first one through more rules, compared between parse and parse_debug", breaks="the error chosen depends on tracing",
 demo="""fn main() {
    let rules = rules! {
        "main" => or!(ref_rule!("a"), lit!("c")),
        "a" => ref_rule!("b"),
        "b" => lit!("b")
    };
    let a = parse("x", &rules).unwrap_err();
    let b = parse_debug("x", &rules).unwrap_err();
    assert_eq!(a.descr, b.descr);
}
"""),
dict(id="c13-always-push", property="C13", edits=[(L,"""    parser::expression::parse(parser::Status::init_debug(s, &rules, false))""","""    parser::expression::parse(parser::Status::init_debug(s, &rules, cfg!(debug_assertions) && s.len() > 4096))""")] ,
 needs="a text of more than 4096 bytes", breaks="parse records rules",
 demo="""fn main() {
    let rules = rules! { "main" => rep!(ref_rule!("a"), 0), "a" => lit!("a") };
    for n in [10, 4096, 5000] {
        let text = "a".repeat(n) + "b";
        assert!(parse(&text, &rules).unwrap_err().parsing_rules.is_empty());
    }
}
"""),
dict(id="c09-quiet-rule", property="C09", edits=[(X,"""    Ok((st, ast::Node::Rule((rule_name.to_owned(), nodes))))""","""    // spacing rules are pruned later on, keep them small
    let nodes = if rule_name.starts_with('_') && nodes.len() > 1 {
        vec![]
    } else {
        nodes
    };
    Ok((st, ast::Node::Rule((rule_name.to_owned(), nodes))))""")],
 needs="a rule whose name starts with an underscore and that matches more than one node", breaks="the text below such a rule is missing in the tree",
 demo="""fn main() {
    let rules = rules! { "main" => and!(lit!("a"), ref_rule!("_sp"), lit!("b")), "_sp" => rep!(lit!(" "), 0) };
    assert_eq!(parse("a b", &rules).unwrap(), r("main", vec![v("a"), r("_sp", vec![v(" ")]), v("b")]));
    assert_eq!(parse("a  b", &rules).unwrap(), r("main", vec![v("a"), r("_sp", vec![v(" "), v(" ")]), v("b")]));
}
fn v(s: &str) -> ast::Node { ast::Node::Val(s.to_string()) }
fn r(s: &str, n: Vec<ast::Node>) -> ast::Node { ast::Node::Rule((s.to_string(), n)) }
"""),
]
