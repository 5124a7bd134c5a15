"""behaviour-preserving changes to the conversion of grammars"""
G="peg/mod.rs"; R="peg/rules.rs"; F="ast/flat.rs"
REC_AND='''    fn rec_consume_next_ands(
        eov: ExprOrVecExpr,
        nodes: &[flat::Node],
        context: Context,
    ) -> result::Result<(ExprOrVecExpr, &[flat::Node], Context), Error> {
        let next_node = flat::peek_first_node(nodes)?;

        match (next_node, flat::get_nodename(next_node)) {
            (flat::Node::BeginRule(_), Ok("and")) => {
                let (eov, nodes, context) = rec_consume_and(eov, nodes, context)?;
                rec_consume_next_ands(eov, nodes, context)
            }
            _ => Ok((eov, nodes, context)),
        }
    }
'''
REC_RULES='''        match flat::peek_first_node(nodes)? {
            flat::Node::BeginRule(rule_or_module) => {
                let (rules, nodes, context) = match rule_or_module.as_ref() {
                    "rule" => consume_rule_and_add_set_of_rules(rules, nodes, context),
                    "module" => consume_module_and_add_set_of_rules(rules, nodes, context),
                    unknown => Err(error_peg_s(&format!(
                        "expected rule or module, received: {}",
                        unknown
                    ))),
                }?;
                rec_consume_rules_or_modules(rules, nodes, context)
            }
            _ => Ok((rules, nodes, context)),
        }
'''
REC_LIT='''        let next_node_name = flat::get_nodename(flat::peek_first_node(nodes)?);

        match next_node_name {
            Ok("_\\"") => Ok((s, nodes, context)),
            _ => {
                let (v, nodes, context) = consume_element(nodes, context)?;
                rec_consume_lit_esc_ch(s + &v.to_string(), nodes, context)
            }
        }
'''
REC_MB='''            let next_node = flat::peek_first_node(nodes)?;
            let node_name = flat::get_nodename(next_node);
            match node_name {
                Ok("mbetween") => {
                    let ((from, to), nodes, context) = consume_mbetween(nodes, context)?;
                    rec_consume_mbetween(acc.ipush((from, to)), nodes, context)
                }
                _ => Ok((acc, nodes, context)),
            }
'''
PUSH='''    push_err!(&format!("consuming {}", rule_name), {
        let nodes = flat::consume_node_start_rule_name(rule_name, &nodes)?;
        let (result, nodes, context) = f(&nodes, context)?;
        let nodes = flat::consume_node_end_rule_name(rule_name, &nodes)?;
        Ok((result, nodes, context))
    })
'''
EOV='''        match eov {
            ExprOrVecExpr::None => Err(error_peg_s("logic error, empty or parsing???")),
            ExprOrVecExpr::Expr(e) => Ok((e, nodes, context)),
            ExprOrVecExpr::VExpr(v) => Ok((build_or_expr(v), nodes, context)),
        }
'''
EOVA='''    match eov {
        ExprOrVecExpr::None => Err(error_peg_s("logic error, empty or parsing???")),
        ExprOrVecExpr::Expr(e) => Ok((e, nodes, context)),
        ExprOrVecExpr::VExpr(v) => Ok((build_and_expr(v), nodes, context)),
    }
'''
HEX='''        let ch = match u8::from_str_radix(val, 16) {
            Ok(v) => Ok(v as char),
            _ => Err(error_peg_s(&format!("error parsing hex {}", &val[2..]))),
        }?;
'''
ESC='''        let val = match val {
            r#"\\r"# => Ok("\\r"),
            r#"\\n"# => Ok("\\n"),
            r#"\\t"# => Ok("\\t"),
            r#"\\\\"# => Ok(r#"\\"#),
            r#"\\""# => Ok(r#"""#),
            _ => Err(error_peg_s(&format!("unknow esc char: {}", val))),
        }?;
        Ok((val.to_string(), nodes, context))
'''
REP='''        match rsymbol {
            "+" => Ok(rep!(expr, 1)),
            "*" => Ok(rep!(expr, 0)),
            "?" => Ok(rep!(expr, 0, 1)),
            unknown => Err(error_peg_s(&format!(
                "repetition symbol unknown {}",
                unknown
            ))),
        }
'''
ATOM='''        let next_node = flat::peek_first_node(nodes)?;
        let node_name = flat::get_nodename(next_node)?;

        let (expr, nodes, context) = push_err!(&format!("n:{}", node_name), {
            match &node_name as &str {
                "literal" => consume_literal_expr(nodes, context),
                "rule_name" => consume_rule_ref(nodes, context),
                "dot" => consume_dot(nodes, context),
                "match" => consume_match(nodes, context),
                unknown => Err(error_peg_s(&format!("unknown {}", unknown))),
            }
        })?;

        Ok((expr, nodes, context))
'''
CHANGES=[
dict(id="conv-and-while", edits=[(G,REC_AND,'''    fn rec_consume_next_ands(
        eov: ExprOrVecExpr,
        nodes: &[flat::Node],
        context: Context,
    ) -> result::Result<(ExprOrVecExpr, &[flat::Node], Context), Error> {
        let (mut eov, mut nodes, mut context) = (eov, nodes, context);
        loop {
            match flat::peek_first_node(nodes)? {
                flat::Node::BeginRule(name) if name == "and" => {
                    let (e, n, c) = rec_consume_and(eov, nodes, context)?;
                    eov = e;
                    nodes = n;
                    context = c;
                }
                _ => return Ok((eov, nodes, context)),
            }
        }
    }
''')]),
dict(id="conv-and-ref-loop", edits=[(G,REC_AND,'''    fn next_is_and(nodes: &[flat::Node]) -> result::Result<bool, Error> {
        match flat::peek_first_node(nodes)? {
            flat::Node::BeginRule(name) => Ok(name == "and"),
            _ => Ok(false),
        }
    }
    fn rec_consume_next_ands(
        mut eov: ExprOrVecExpr,
        mut nodes: &[flat::Node],
        mut context: Context,
    ) -> result::Result<(ExprOrVecExpr, &[flat::Node], Context), Error> {
        while next_is_and(nodes)? {
            let next = rec_consume_and(eov, nodes, context)?;
            eov = next.0;
            nodes = next.1;
            context = next.2;
        }
        Ok((eov, nodes, context))
    }
''')]),
dict(id="conv-grammar-loop", edits=[(G,REC_RULES,'''        let (mut rules, mut nodes, mut context) = (rules, nodes, context);
        while let flat::Node::BeginRule(rule_or_module) = flat::peek_first_node(nodes)? {
            let (r, n, c) = match rule_or_module.as_ref() {
                "rule" => consume_rule_and_add_set_of_rules(rules, nodes, context),
                "module" => consume_module_and_add_set_of_rules(rules, nodes, context),
                unknown => Err(error_peg_s(&format!(
                    "expected rule or module, received: {}",
                    unknown
                ))),
            }?;
            rules = r;
            nodes = n;
            context = c;
        }
        Ok((rules, nodes, context))
''')]),
dict(id="conv-grammar-inline", edits=[(G,REC_RULES,'''        match flat::peek_first_node(nodes)? {
            flat::Node::BeginRule(rule_or_module) => {
                let (rules, nodes, context) = match rule_or_module.as_ref() {
                    "rule" => {
                        let ((name, expr), nodes, context) = consume_rule(nodes, context)?;
                        (rules.add(&name, expr), nodes, context)
                    }
                    "module" => {
                        let (inner, nodes, context) = consume_module(nodes, context)?;
                        (rules.merge(inner), nodes, context)
                    }
                    unknown => {
                        return Err(error_peg_s(&format!(
                            "expected rule or module, received: {}",
                            unknown
                        )))
                    }
                };
                rec_consume_rules_or_modules(rules, nodes, context)
            }
            _ => Ok((rules, nodes, context)),
        }
'''),(G,'''    fn consume_rule_and_add_set_of_rules(
        rules: expression::SetOfRules,
        nodes: &[flat::Node],
        context: Context,
    ) -> result::Result<(expression::SetOfRules, &[flat::Node], Context), Error> {
        let ((name, expr), nodes, context) = consume_rule(nodes, context)?;
        let rules = rules.add(&name, expr);
        Ok((rules, nodes, context))
    }
    fn consume_module_and_add_set_of_rules(
        rules: expression::SetOfRules,
        nodes: &[flat::Node],
        context: Context,
    ) -> result::Result<(expression::SetOfRules, &[flat::Node], Context), Error> {
        let (mod_rules, nodes, context) = consume_module(nodes, context)?;
        let rules = rules.merge(mod_rules);
        Ok((rules, nodes, context))
    }
''','')]),
dict(id="conv-lit-loop", edits=[(G,REC_LIT,'''        let mut s = s;
        let mut nodes = nodes;
        let mut context = context;
        while flat::get_nodename(flat::peek_first_node(nodes)?).ok() != Some("_\\"") {
            let (v, n, c) = consume_element(nodes, context)?;
            s.push_str(&v);
            nodes = n;
            context = c;
        }
        Ok((s, nodes, context))
''')]),
dict(id="conv-mbetween-loop", edits=[(G,REC_MB,'''            let mut acc = acc;
            let mut nodes = nodes;
            let mut context = context;
            while let Ok("mbetween") = flat::get_nodename(flat::peek_first_node(nodes)?) {
                let (pair, n, c) = consume_mbetween(nodes, context)?;
                acc.push(pair);
                nodes = n;
                context = c;
            }
            Ok((acc, nodes, context))
''')]),
dict(id="conv-consuming-match", edits=[(G,PUSH,'''    let inner = move || -> result::Result<(R, &'a [flat::Node], Context), Error> {
        let nodes = flat::consume_node_start_rule_name(rule_name, &nodes)?;
        let (result, nodes, context) = f(&nodes, context)?;
        let nodes = flat::consume_node_end_rule_name(rule_name, &nodes)?;
        Ok((result, nodes, context))
    };
    match inner() {
        Ok(r) => Ok(r),
        Err(e) => Err(e.ipush(&format!("consuming {}", rule_name))),
    }
''')]),
dict(id="conv-eov-helper", edits=[(G,EOV,'''        finish(eov, build_or_expr).map(|e| (e, nodes, context))
'''),(G,EOVA,'''    let expr = finish(eov, build_and_expr)?;
    Ok((expr, nodes, context))
'''),(G,'''fn consume_or(
''','''fn finish<F>(eov: ExprOrVecExpr, build: F) -> result::Result<Expression, Error>
where
    F: FnOnce(Vec<Expression>) -> Expression,
{
    match eov {
        ExprOrVecExpr::None => Err(error_peg_s("logic error, empty or parsing???")),
        ExprOrVecExpr::Expr(e) => Ok(e),
        ExprOrVecExpr::VExpr(v) => Ok(build(v)),
    }
}

fn consume_or(
''')]),
dict(id="conv-hex-from", edits=[(G,HEX,'''        let ch = u8::from_str_radix(val, 16)
            .map(char::from)
            .map_err(|_| error_peg_s(&format!("error parsing hex {}", val)))?;
''')]),
dict(id="conv-hex-digits", edits=[(G,'''        let val = &val[3..];

'''+HEX,'''        let mut digits = val.chars().skip(3);
        let hi = digits.next().and_then(|c| c.to_digit(16));
        let lo = digits.next().and_then(|c| c.to_digit(16));
        let ch = match (hi, lo) {
            (Some(h), Some(l)) => (h * 16 + l) as u8 as char,
            _ => return Err(error_peg_s(&format!("error parsing hex {}", val))),
        };
'''),(G,'''    use std::u8;

''','')]),
dict(id="conv-esc-table", edits=[(G,ESC,'''        const TABLE: [(&str, &str); 5] = [
            ("\\\\r", "\\r"),
            ("\\\\n", "\\n"),
            ("\\\\t", "\\t"),
            ("\\\\\\\\", "\\\\"),
            ("\\\\\\"", "\\""),
        ];
        match TABLE.iter().find(|(from, _)| *from == val) {
            Some((_, to)) => Ok((to.to_string(), nodes, context)),
            None => Err(error_peg_s(&format!("unknow esc char: {}", val))),
        }
''')]),
dict(id="conv-rep-bounds", edits=[(G,REP,'''        let (min, max) = match rsymbol {
            "+" => (1, None),
            "*" => (0, None),
            "?" => (0, Some(1)),
            unknown => {
                return Err(error_peg_s(&format!(
                    "repetition symbol unknown {}",
                    unknown
                )))
            }
        };
        Ok(Expression::Repeat(expression::RepInfo {
            expression: Box::new(expr),
            min: expression::NRep(min),
            max: max.map(expression::NRep),
        }))
''')]),
dict(id="conv-atom-direct", edits=[(G,ATOM,'''        let node_name = flat::peek_first_node(nodes).and_then(flat::get_nodename)?;
        match node_name {
            "literal" => consume_literal_expr(nodes, context),
            "match" => consume_match(nodes, context),
            "dot" => consume_dot(nodes, context),
            "rule_name" => consume_rule_ref(nodes, context),
            unknown => Err(error_peg_s(&format!("unknown {}", unknown))),
        }
        .map_err(|e| e.ipush(&format!("n:{}", node_name)))
''')]),
dict(id="conv-rule-name-vec", edits=[(G,'''        let str_result = format!("{}{}{}", start_dot, symbol, dot_symbol);
        Ok((str_result, nodes, context))
''','''        let mut name = String::with_capacity(start_dot.len() + symbol.len() + dot_symbol.len());
        name.push_str(start_dot);
        name.push_str(symbol);
        name.push_str(&dot_symbol);
        Ok((name, nodes, context))
''')]),
dict(id="conv-module-andthen", edits=[(G,'''        let nodes = flat::consume_this_value("{", nodes)?;
        let (rules, nodes, context) = consume_grammar(nodes, context.add_module(mod_name))?;
        let nodes = flat::consume_this_value("}", nodes)?;
        let context = context.remove_module(mod_name)?;
        Ok((rules, nodes, context))
''','''        let inside = context.add_module(mod_name);
        let (rules, nodes, context) = flat::consume_this_value("{", nodes)
            .map_err(Error::from)
            .and_then(|nodes| consume_grammar(nodes, inside))?;
        let nodes = flat::consume_this_value("}", nodes)?;
        context
            .remove_module(mod_name)
            .map(|context| (rules, nodes, context))
''')]),
dict(id="conv-or-vec", edits=[(G,'''    fn rec_consume_or(
        eov: ExprOrVecExpr,
        nodes: &[flat::Node],
        context: Context,
    ) -> result::Result<(ExprOrVecExpr, &[flat::Node], Context), Error> {
        consuming_rule("or", nodes, context, |nodes, context| {
            let (expr, nodes, context) = consume_and(nodes, context)?;
            let eov = eov.ipush(expr);
''','''    fn rec_consume_or(
        eov: Vec<Expression>,
        nodes: &[flat::Node],
        context: Context,
    ) -> result::Result<(Vec<Expression>, &[flat::Node], Context), Error> {
        consuming_rule("or", nodes, context, |nodes, context| {
            let (expr, nodes, context) = consume_and(nodes, context)?;
            let eov = eov.ipush(expr);
'''),(G,'''        let (eov, nodes, context) = rec_consume_or(ExprOrVecExpr::None, nodes, context)?;

'''+EOV,'''        let (mut eov, nodes, context) = rec_consume_or(vec![], nodes, context)?;

        let expr = if eov.len() > 1 {
            build_or_expr(eov)
        } else {
            eov.pop()
                .ok_or_else(|| error_peg_s("logic error, empty or parsing???"))?
        };
        Ok((expr, nodes, context))
''')]),
dict(id="conv-rep-or-neg", edits=[(G,'''        |nodes, context| match flat::peek_first_node(nodes)? {
            flat::Node::Val(v) => {
                if v == "!" {
                    neg_and_atom(nodes, context)
                } else {
                    Err(error_peg_s(&format!("expected '!', received {}", v)))
                }
            }
            _ => atom_and_rep(nodes, context),
        },
''','''        |nodes, context| match flat::peek_first_node(nodes)? {
            flat::Node::Val(v) if v != "!" => {
                Err(error_peg_s(&format!("expected '!', received {}", v)))
            }
            flat::Node::Val(_) => neg_and_atom(nodes, context),
            _ => atom_and_rep(nodes, context),
        },
''')]),
dict(id="conv-noesc-iflet", edits=[(G,'''        let (val, nodes) = match flat::peek_first_node(nodes)? {
            flat::Node::Val(_) => flat::consume_val(nodes)?,
            _ => ("", nodes), //  empty literal
        };

        let val = val.to_string();
        let vclone = val.clone();
        push_err!(&format!("l:({})", vclone), {
            let (nodes, context) = consume_single_quote(nodes, context)?;
            Ok((val, nodes, context))
        })
''','''        let (val, nodes) = if let flat::Node::Val(_) = flat::peek_first_node(nodes)? {
            flat::consume_val(nodes)?
        } else {
            (Default::default(), nodes)
        };

        match consume_single_quote(nodes, context) {
            Ok((nodes, context)) => Ok((val.to_owned(), nodes, context)),
            Err(e) => Err(e.ipush(&format!("l:({})", val))),
        }
''')]),
dict(id="conv-between-vec", edits=[(G,'''        let (from, chars) = idata::consume_char(from_to.chars())
            .ok_or_else(|| error_peg_s("expected from char"))?;
        let (_, chars) =
            idata::consume_char(chars).ok_or_else(|| error_peg_s("expected '-' char"))?;
        let (to, _) = idata::consume_char(chars).ok_or_else(|| error_peg_s("expected to char"))?;
        Ok(((from, to), nodes, context))
''','''        let from = from_to.chars().next();
        let to = from_to.chars().last();
        match (from, to) {
            (Some(from), Some(to)) => Ok(((from, to), nodes, context)),
            _ => Err(error_peg_s("expected from and to chars")),
        }
'''),(G,'''use idata::{self, ''','''use idata::{''')]),
dict(id="conv-top-match", edits=[(G,'''    let (rules, nodes, _context) = consume_main(&nodes, Context::new())?;
    if !nodes.is_empty() {
        Err(error_peg_s("expected empty nodes after processing main"))
    } else {
        Ok(rules)
    }
''','''    match consume_main(nodes, Context::new()) {
        Ok((rules, rest, _)) => match rest.first() {
            None => Ok(rules),
            Some(_) => Err(error_peg_s("expected empty nodes after processing main")),
        },
        Err(e) => Err(e),
    }
''')]),
dict(id="conv-pipeline", edits=[(G,'''    let ast = parse(peg, &rules::parse_peg())?;
    let nodes = ast.compact().prune(&["_", "_1", "_eol"]).flatten();

    rules_from_flat_ast(&nodes)
''','''    let grammar = rules::parse_peg();
    let ast = match parse(peg, &grammar) {
        Ok(ast) => ast,
        Err(e) => return Err(e.into()),
    };
    let compacted = ast.compact();
    let pruned = compacted.prune(&["_eol", "_1", "_"]);

    rules_from_flat_ast(&pruned.flatten())
''')]),
dict(id="conv-ctx-struct", edits=[(G,'''        let (mod_name, nodes, context) = consume_mod_name(nodes, context)?;
        let nodes = flat::consume_this_value("{", nodes)?;
''','''        let (name, nodes, context) = consume_mod_name(nodes, context)?;
        let mod_name: &str = name;
        let nodes = flat::consume_this_value("{", nodes)?;
''')]),
]
