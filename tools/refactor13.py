"""More of the same: the reader of grammars, the flat list, the grammar's own rules, the top of a parse."""
A="parser/atom/mod.rs"; X="parser/expression/mod.rs"; L="lib.rs"; P="parser/mod.rs"; T="ast/mod.rs"; F="ast/flat.rs"; G="peg/mod.rs"; C="peg/gcode.rs"; R="peg/rules.rs"
CHANGES = [
 dict(id="sn-gram-order", edits=[(R, """       , r#"mod_name"# => ref_rule!(r#"symbol"#)
""", ""), (R, """         r#"dot"# => lit!(".")
""", """         "mod_name" => ref_rule!("symbol")
       , "dot" => lit!(".")
""")]),
 dict(id="sn-gram-helper", edits=[(R, """ematch!(chlist r#""#  , from '0', to '9' , from 'A', to 'F' ), ematch!(chlist r#""#  , from '0', to '9' , from 'A', to 'F' ))""", """hex_digit(), hex_digit())"""), (R, """pub(crate) fn parse_peg()""", """fn hex_digit() -> parser::expression::Expression {
  ematch!(chlist "", from 'A', to 'F', from '0', to '9')
}

pub(crate) fn parse_peg()""")]),
 dict(id="sn-gram-add", edits=[(R, """       , r#"expr"# => ref_rule!(r#"or"#)
""", ""), (R, """       , r#"atom_or_par"# => or!(ref_rule!(r#"atom"#), ref_rule!(r#"parenth"#))

  )
}""", """       , r#"atom_or_par"# => or!(ref_rule!(r#"atom"#), ref_rule!(r#"parenth"#))

  )
  .add("expr", ref_rule!("or"))
}""")]),
 dict(id="sn-flat-begin", edits=[(F, """    let (node, nodes) = split_first_nodes(nodes)?;
    let node_name = match node {
        Node::BeginRule(n) => Ok(n),
        _ => Err(error(&format!("expected begin rule for {}", name), None)),
    }?;
    if node_name == name {
        Ok(nodes)
    } else {
        Err(error(
            &format!("expected {} node, received {}", name, node_name),
            None,
        ))
    }""", """    match split_first_nodes(nodes)? {
        (Node::BeginRule(n), rest) if n == name => Ok(rest),
        (Node::BeginRule(n), _) => {
            let descr = format!("expected {} node, received {}", name, n);
            Err(error(descr.as_str(), None))
        }
        _ => Err(Error(format!("expected begin rule for {}", name), None)),
    }""")]),
 dict(id="sn-flat-push", edits=[(F, """                ast::Node::Rule((n, vn)) => {
                    let acc = acc.ipush(Node::BeginRule(n.to_string()));
                    let acc = vn.iter().fold(acc, |facc, n| flatten_acc(facc, n));
                    acc.ipush(Node::EndRule(n.to_string()))
                }""", """                ast::Node::Rule((n, vn)) => {
                    let mut acc = acc;
                    acc.push(Node::BeginRule(n.clone()));
                    for child in vn {
                        acc = flatten_acc(acc, child);
                    }
                    acc.push(Node::EndRule(n.clone()));
                    acc
                }""")]),
 dict(id="sn-consuming-nomacro", edits=[(G, """    push_err!(&format!("consuming {}", rule_name), {
        let nodes = flat::consume_node_start_rule_name(rule_name, &nodes)?;
        let (result, nodes, context) = f(&nodes, context)?;
        let nodes = flat::consume_node_end_rule_name(rule_name, &nodes)?;
        Ok((result, nodes, context))
    })""", """    let consumed = flat::consume_node_start_rule_name(rule_name, nodes)
        .map_err(Error::from)
        .and_then(|inner| f(inner, context))
        .and_then(|(result, rest, context)| {
            let rest = flat::consume_node_end_rule_name(rule_name, rest)?;
            Ok((result, rest, context))
        });
    match consumed {
        Ok(all) => Ok(all),
        Err(e) => Err(e.ipush(&format!("consuming {}", rule_name))),
    }""")]),
 dict(id="sn-grammar-while", edits=[(G, """        match flat::peek_first_node(nodes)? {
            flat::Node::BeginRule(rule_or_module) => {
                let (rules, nodes, context) = match rule_or_module.as_ref() {
                    "rule" => consume_rule_and_add_set_of_rules(rules, nodes, context),
                    "module" => consume_module_and_add_set_of_rules(rules, nodes, context),
                    unknown => Err(error_peg_s(&format!(
                        "expected rule or module, received: {}",
                        unknown
                    ))),
                }?;
                rec_consume_rules_or_modules(rules, nodes, context)
            }
            _ => Ok((rules, nodes, context)),
        }""", """        let mut state = (rules, nodes, context);
        while let flat::Node::BeginRule(kind) = flat::peek_first_node(state.1)? {
            let (rules, nodes, context) = state;
            state = match kind.as_str() {
                "module" => consume_module_and_add_set_of_rules(rules, nodes, context)?,
                "rule" => consume_rule_and_add_set_of_rules(rules, nodes, context)?,
                unknown => {
                    return Err(error_peg_s(&format!(
                        "expected rule or module, received: {}",
                        unknown
                    )))
                }
            };
        }
        Ok(state)""")]),
 dict(id="sn-hex-radix", edits=[(G, """        let ch = match u8::from_str_radix(val, 16) {
            Ok(v) => Ok(v as char),
            _ => Err(error_peg_s(&format!("error parsing hex {}", &val[2..]))),
        }?;
        Ok((ch.to_string(), nodes, context))""", """        if let Ok(code) = u8::from_str_radix(val, 16) {
            let mut text = String::new();
            text.push(char::from(code));
            return Ok((text, nodes, context));
        }
        Err(error_peg_s(&format!("error parsing hex {}", &val[2..])))""")]),
 dict(id="sn-mbetween-next", edits=[(G, """        let (from, chars) = idata::consume_char(from_to.chars())
            .ok_or_else(|| error_peg_s("expected from char"))?;
        let (_, chars) =
            idata::consume_char(chars).ok_or_else(|| error_peg_s("expected '-' char"))?;
        let (to, _) = idata::consume_char(chars).ok_or_else(|| error_peg_s("expected to char"))?;
        Ok(((from, to), nodes, context))""", """        let mut chars = from_to.chars();
        let from = match chars.next() {
            Some(ch) => ch,
            None => return Err(error_peg_s("expected from char")),
        };
        if chars.next().is_none() {
            return Err(error_peg_s("expected '-' char"));
        }
        match chars.next() {
            Some(to) => Ok(((from, to), nodes, context)),
            None => Err(error_peg_s("expected to char")),
        }""")]),
 dict(id="sn-match-default", edits=[(G, """        let (expr, nodes) = match (omchars, vchars.is_empty()) {
            (Some(chars), true) => Ok((ematch!(chlist chars, from2 vec![]), nodes)),
            (Some(chars), false) => Ok((ematch!(chlist chars, from2 vchars), nodes)),
            (None, false) => Ok((ematch!(chlist "", from2 vchars), nodes)),
            _ => Err(error_peg_s("Invalid match combination")),
        }?;
""", """        if omchars.is_none() && vchars.is_empty() {
            return Err(error_peg_s("Invalid match combination"));
        }
        let expr = ematch!(chlist omchars.unwrap_or(""), from2 vchars);
""")]),
 dict(id="sn-dot-names", edits=[(G, """        let str_result = format!("{}{}{}", start_dot, symbol, dot_symbol);
        Ok((str_result, nodes, context))""", """        let mut full_name = String::from(start_dot);
        full_name += symbol;
        full_name += &dot_symbol;
        Ok((full_name, nodes, context))""")]),
 dict(id="sn-module-order", edits=[(G, """        let (rules, nodes, context) = consume_grammar(nodes, context.add_module(mod_name))?;
        let nodes = flat::consume_this_value("}", nodes)?;
        let context = context.remove_module(mod_name)?;
        Ok((rules, nodes, context))""", """        let context = context.add_module(mod_name);
        let (rules, nodes, context) = consume_grammar(nodes, context)?;
        let nodes = flat::consume_this_value("}", nodes)?;
        context
            .remove_module(mod_name)
            .map(|context| (rules, nodes, context))""")]),
 dict(id="sn-display-parts", edits=[(G, """            Error::Peg((s, None)) => write!(f, "{}", s),
            Error::Peg((s, Some(b))) => write!(f, "{} > {}", s, b),""", """            Error::Peg((s, inner)) => {
                f.write_str(s)?;
                match inner {
                    Some(b) => write!(f, " > {}", b),
                    None => Ok(()),
                }
            }""")]),
 dict(id="sn-merge-mut", edits=[(X, """        SetOfRules(rules2merge.0.into_iter().chain(self.0).collect())""", """        let SetOfRules(mine) = self;
        let mut merged = rules2merge.0;
        merged.extend(mine);
        SetOfRules(merged)""")]),
 dict(id="sn-not-bool", edits=[(X, """    match parse_expr(status.clone(), expression) {
        Ok(_) => Err(Error::from_status_normal(&status, "not")),
        Err(e) if e.priority == ErrPriority::Critical => Err(e),
        Err(_) => Ok((status, vec![])),
    }""", """    let attempt = parse_expr(status.clone(), expression);
    if let Err(e) = attempt {
        return match e.priority {
            ErrPriority::Critical => Err(e),
            ErrPriority::Normal => Ok((status, Vec::new())),
        };
    }
    Err(Error::from_status_normal(&status, "not"))""")]),
 dict(id="sn-lit-charwise", edits=[(A, """    for ch in literal.chars() {
        status = parse_char(status, ch).map_err(|st| {
            Error::from_status_normal(&st, &format!("expected literal: <{}>", literal))
        })?;
    }
    ok!(status, literal)""", """    let mut expected = literal.chars();
    while let Some(ch) = expected.next() {
        match parse_char(status, ch) {
            Ok(st) => status = st,
            Err(st) => {
                let descr = format!("expected literal: <{}>", literal);
                return Err(Error::from_status_normal(&st, &descr));
            }
        }
    }
    ok!(status, literal)""")]),
 dict(id="sn-compact-match", edits=[(T, """            let get_val = |nodes: &Vec<Node>| match nodes.last() {
                Some(Node::Val(ref v)) => Some(v.to_string()),
                _ => None,
            };
            let concat_v = |v: &String, prev_v: &Option<String>| match (v, prev_v) {
                (v, Some(pv)) => Some(format!("{}{}", pv, v)),
                _ => None,
            };

            match (n, get_val(&nodes)) {
                (Node::EOF, _) => nodes.ipush(Node::EOF),
                (Node::Val(ref v), ref prev_v) => match concat_v(v, prev_v) {
                    Some(c) => {
                        let (_, nodes) = nodes.ipop();
                        nodes.ipush(Node::Val(c.clone()))
                    }
                    _ => nodes.ipush(Node::Val(v.clone())),
                },
                (Node::Rule((ref n, ref vn)), _) => {
                    nodes.ipush(Node::Rule((n.clone(), compact_nodes(vn))))
                }
            }""", """            let mut nodes = nodes;
            match n {
                Node::EOF => nodes.push(Node::EOF),
                Node::Rule((name, children)) => {
                    let children = compact_nodes(children);
                    nodes.push(Node::Rule((name.to_string(), children)));
                }
                Node::Val(v) => {
                    let joined = match nodes.pop() {
                        Some(Node::Val(mut prev)) => {
                            prev.push_str(v);
                            prev
                        }
                        Some(other) => {
                            nodes.push(other);
                            v.clone()
                        }
                        None => v.clone(),
                    };
                    nodes.push(Node::Val(joined));
                }
            }
            nodes"""), (T, "use idata::cont::IVec;", "#[allow(unused_imports)]\nuse idata::cont::IVec;")]),
]
