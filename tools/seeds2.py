A="parser/atom/mod.rs"; X="parser/expression/mod.rs"; L="lib.rs"; P="parser/mod.rs"; T="ast/mod.rs"; F="ast/flat.rs"
V="fn v(s: &str) -> ast::Node { ast::Node::Val(s.to_string()) }\nfn r(s: &str, n: Vec<ast::Node>) -> ast::Node { ast::Node::Rule((s.to_string(), n)) }\n"
SEEDS=[
dict(id="c01-debug-lenient", property="C01", edits=[(L,"        (false, Some(e)) => Err(e),","        (false, Some(ref e)) if e.parsing_rules.len() > 3 && e.pos.n <= st.pos.n => Ok(ast),\n        (false, Some(e)) => Err(e),")],
 needs="parse_debug of a text with unconsumed input, where the last repetition that stopped did so before the end reached, three rules deep", breaks="parse_debug returns Ok with characters left",
 demo="""fn main() {
    let rules = rules! { "main" => ref_rule!("a"), "a" => ref_rule!("b"), "b" => ref_rule!("c"),
        "c" => and!(rep!(lit!("x"), 0), lit!("y")) };
    assert!(parse("xyz", &rules).is_err());
    assert!(parse_debug("xy", &rules).is_ok());
    assert!(parse_debug("xyz", &rules).is_err());
}
"""),
dict(id="c09-rule-alias", property="C09", edits=[(X,"    Ok((st, ast::Node::Rule((rule_name.to_owned(), nodes))))","    let mut nodes = nodes;\n    if nodes.len() > 2 {\n        // a rule that ends with itself is a list\n        match nodes.pop() {\n            Some(ast::Node::Rule((ref n, ref mut inner))) if n == rule_name => nodes.append(inner),\n            Some(n) => nodes.push(n),\n            None => (),\n        }\n    }\n    Ok((st, ast::Node::Rule((rule_name.to_owned(), nodes))))")],
 needs="a right recursive rule with two or more nodes before the recursion", breaks="the inner application of the rule is missing in the AST",
 demo=V+"""fn main() {
    let rules = rules! { "main" => and!(lit!("a"), lit!(","), or!(ref_rule!("main"), lit!("."))) };
    assert_eq!(parse("a,a,.", &rules).unwrap(), r("main", vec![v("a"), v(","), r("main", vec![v("a"), v(","), v(".")])]));
}
"""),
dict(id="c15-merge-shadow", property="C15", edits=[(X,"        SetOfRules(rules2merge.0.into_iter().chain(self.0).collect())","        let mut all: HashMap<String, Expression> = rules2merge.0.into_iter().collect();\n        for (name, expr) in self.0 {\n            match (all.remove(&name), expr) {\n                // an alias gives way to a definition\n                (Some(other), Expression::RuleName(_)) => all.insert(name, other),\n                (_, expr) => all.insert(name, expr),\n            };\n        }\n        SetOfRules(all)")],
 needs="merge of two sets that define the same rule, the receiver's definition being a plain reference to another rule", breaks="the definition of the argument wins",
 demo="""fn main() {
    let a = rules! { "main" => ref_rule!("x"), "x" => ref_rule!("y"), "y" => lit!("1") };
    let b = rules! { "x" => lit!("2") };
    let m = a.merge(b);
    assert!(parse("1", &m).is_ok());
    assert!(parse("2", &m).is_err());
}
"""),
dict(id="c15-add-path", property="C15", edits=[(X,"        self.0.insert(name.to_owned(), expr);","        self.0.insert(name.trim_start_matches('.').to_owned(), expr);")],
 needs="a rule added with a name that starts with a dot", breaks="the rule cannot be found by its name",
 demo="""fn main() {
    let rules = rules! { "main" => ref_rule!(".hidden"), ".hidden" => lit!("a") };
    assert!(parse("a", &rules).is_ok());
}
"""),
dict(id="c23-prune-chain", property="C23", edits=[(T,"                if !node2prune(n) {\n                    acc.ipush(n.prune(nodes2prune))","                if !node2prune(n) {\n                    let only_vals = match n {\n                        Node::Rule((_, sub)) => sub.len() == 1 && nodes2prune.len() > 4,\n                        _ => false,\n                    };\n                    acc.ipush(if only_vals {\n                        n.prune(&nodes2prune[1..])\n                    } else {\n                        n.prune(nodes2prune)\n                    })")],
 needs="a kept rule with a single child, and a node of the first of five or more listed names under it", breaks="the node of the first listed name stays in the tree",
 demo=V+"""fn main() {
    let t = r("root", vec![r("k", vec![r("_1", vec![])]), r("_1", vec![v("a")])]);
    assert_eq!(t.prune(&["_1", "_2", "_3", "_4", "_5"]), r("root", vec![r("k", vec![])]));
}
"""),
dict(id="c24-lift-val", property="C24", edits=[(T,"                        Node::Rule((_, new_nodes)) => acc.iappend(pthr_vn(new_nodes, nodes2keep)),","                        Node::Rule((_, new_nodes)) if new_nodes.iter().all(|n| *n == Node::EOF) => acc,\n                        Node::Rule((_, new_nodes)) => acc.iappend(pthr_vn(new_nodes, nodes2keep)),")],
 needs="a rule passed through whose only child is the end of file node", breaks="the EOF node disappears",
 demo=V+"""fn main() {
    let t = r("root", vec![r("k", vec![v("a")]), r("end", vec![ast::Node::EOF])]);
    assert_eq!(t.pass_through_except(&["root", "k"]), r("root", vec![r("k", vec![v("a")]), ast::Node::EOF]));
}
"""),
dict(id="c25-empty-drop", property="C25", edits=[(T,"                    _ => nodes.ipush(Node::Val(v.clone())),","                    _ if v.is_empty() && nodes.len() > 1 => nodes,\n                    _ => nodes.ipush(Node::Val(v.clone())),")],
 needs="an empty value after a rule, as third or later child", breaks="the empty value is lost",
 demo=V+"""fn main() {
    let t = r("root", vec![v("a"), r("k", vec![]), v("")]);
    assert_eq!(t.compact(), r("root", vec![v("a"), r("k", vec![]), v("")]));
}
"""),
dict(id="c26-empty-rule", property="C26", edits=[(F,"                    let acc = vn.iter().fold(acc, |facc, n| flatten_acc(facc, n));","                    let acc = vn.iter().fold(acc, |facc, n| match (facc.last(), n) {\n                        // a rule directly in itself is the same rule\n                        (Some(Node::BeginRule(p)), ast::Node::Rule((c, sub))) if p == c => {\n                            sub.iter().fold(facc, |facc, n| flatten_acc(facc, n))\n                        }\n                        _ => flatten_acc(facc, n),\n                    });")],
 needs="a rule node whose first child is a rule of the same name", breaks="the begin and end marks of the inner rule are missing",
 demo=V+"""use dynparser::ast::flat;
fn main() {
    let t = r("e", vec![r("e", vec![v("a")]), r("e", vec![])]);
    let s = |x: &str| x.to_string();
    assert_eq!(t.flatten(), vec![flat::Node::BeginRule(s("e")), flat::Node::BeginRule(s("e")), flat::Node::Val(s("a")), flat::Node::EndRule(s("e")), flat::Node::BeginRule(s("e")), flat::Node::EndRule(s("e")), flat::Node::EndRule(s("e"))]);
}
"""),
dict(id="c27-end-any", property="C27", edits=[(F,"        Node::EndRule(n) => Ok(n),\n        _ => Err(error(&format!(\"expected end rule for {}\", name), None)),","        Node::EndRule(n) => Ok(n),\n        Node::BeginRule(n) if nodes.is_empty() => Ok(n),\n        _ => Err(error(&format!(\"expected end rule for {}\", name), None)),")],
 needs="the last node of the list is the begin of the rule", breaks="a begin mark is consumed as an end mark",
 demo="""use dynparser::ast::flat;
fn main() {
    let n = vec![flat::Node::BeginRule("a".to_string())];
    assert!(flat::consume_node_end_rule_name("a", &n).is_err());
}
"""),
dict(id="c27-value-trim", property="C27", edits=[(T,"    let nv = get_node_val(node)?;\n    if nv == v {","    let nv = get_node_val(node)?;\n    if nv == v || (v.len() > 1 && nv.trim_end() == v) {")],
 needs="a value with trailing white space compared to a value of two or more bytes", breaks="a different value is consumed",
 demo=V+"""fn main() {
    let n = vec![v("ab ")];
    assert!(ast::consume_this_value("ab", &n).is_err());
}
"""),
dict(id="c27-subnodes", property="C27", edits=[(T,"            if n == name {\n                Ok((nodes, sub_nodes))","            if n == name {\n                let skip = sub_nodes.len() > 1 && sub_nodes[0] == Node::EOF;\n                Ok((nodes, if skip { &sub_nodes[1..] } else { sub_nodes }))")],
 needs="the subnodes of the consumed rule start with an EOF node followed by more", breaks="the subnodes returned lack the EOF node",
 demo=V+"""fn main() {
    let n = vec![r("a", vec![ast::Node::EOF, v("x")])];
    let (_, s) = ast::consume_node_get_subnodes_for_rule_name_is("a", &n).unwrap();
    assert_eq!(s.len(), 2);
}
"""),
]
