"""Small edits of the sort a maintainer makes: named constants, helpers, reordered statements, early returns."""
A="parser/atom/mod.rs"; X="parser/expression/mod.rs"; L="lib.rs"; P="parser/mod.rs"; T="ast/mod.rs"; F="ast/flat.rs"; G="peg/mod.rs"; C="peg/gcode.rs"
CHANGES = [
 dict(id="sm-getchar-if", edits=[(A, """                self.pos.n += 1;
                match ch {
                    '\\n' => {
                        self.pos.col = 0;
                        self.pos.row += 1;
                        self.pos.start_line = self.pos.n;
                    }
                    '\\r' => {
                        self.pos.col = 0;
                    }
                    _ => {
                        self.pos.col += 1;
                    }
                }
                Ok((self, ch))""", """                let n = self.pos.n + 1;
                let col = if ch == '\\n' || ch == '\\r' { 0 } else { self.pos.col + 1 };
                let (row, start_line) = if ch == '\\n' {
                    (self.pos.row + 1, n)
                } else {
                    (self.pos.row, self.pos.start_line)
                };
                self.pos = Possition { n, row, col, start_line };
                Ok((self, ch))"""), (A, "impl<'a> Status<'a> {", "use crate::parser::Possition;\nimpl<'a> Status<'a> {")]),
 dict(id="sm-eof-is-end", edits=[(A, """    match status.get_char() {
        Ok((st, _ch)) => Err(Error::from_status_normal(&st, "expected EOF")),
        Err(st) => Ok((st, ast::Node::EOF)),
    }""", """    status.get_char().map_or_else(
        |st| Ok((st, ast::Node::EOF)),
        |(st, _)| Err(Error::from_status_normal(&st, "expected EOF")),
    )""")]),
 dict(id="sm-ranges-any", edits=[(A, """    let match_char = |ch: char| -> bool {
        if match_rules.0.find(ch).is_some() {
            true
        } else {
            for &(b, t) in &match_rules.1 {
                if b <= ch && ch <= t {
                    return true;
                }
            }
            false
        }
    };
""", """    fn in_range(ch: char, range: &(char, char)) -> bool {
        let (from, to) = *range;
        !(ch < from || to < ch)
    }
    let match_char = |ch: char| -> bool {
        match_rules.1.iter().any(|r| in_range(ch, r)) || match_rules.0.chars().any(|c| c == ch)
    };
""")]),
 dict(id="sm-error-fields", edits=[(P, """        let pending = status.it_parsing.as_str();
        let parsed = &status.text2parse[..status.text2parse.len() - pending.len()];
        Error {
            pos: status.pos.clone(),
            descr: descr.to_owned(),
            line_before: parsed.rsplit('\\n').next().unwrap_or("").to_string(),
            line_after: status
                .it_parsing
                .clone()
                .take_while(|&ch| ch != '\\n' && ch != '\\r')
                .collect(),
            // errors: vec![],
            parsing_rules: status.walking_rules.clone(),
            priority: prior,
        }""", """        let Status {
            text2parse,
            it_parsing,
            pos,
            walking_rules,
            ..
        } = status;
        let parsing_rules = walking_rules.to_vec();
        let pending = it_parsing.as_str();
        let (parsed, _) = text2parse.split_at(text2parse.len() - pending.len());
        let mut line_after = String::new();
        for ch in it_parsing.clone() {
            if ch == '\\n' || ch == '\\r' {
                break;
            }
            line_after.push(ch);
        }
        let line_before = match parsed.rsplit('\\n').next() {
            Some(line) => String::from(line),
            None => String::default(),
        };
        Error {
            descr: String::from(descr),
            priority: prior,
            pos: pos.clone(),
            line_before,
            line_after,
            parsing_rules,
        }""")]),
 dict(id="sm-deep-err-if", edits=[(X, """        Some(e1) => match (e1.priority > e2.priority, e1.pos.n > e2.pos.n) {
            (true, _) => Some(e1),
            (false, true) => Some(e1),
            (false, false) => Some(e2),
        },
        None => Some(e2),""", """        Some(e1) if e1.priority > e2.priority || e1.pos.n > e2.pos.n => Some(e1),
        _ => Some(e2),""")]),
 dict(id="sm-rule-trace-mut", edits=[(X, """    let status = if status.trace_rules {
        status.push_rule(&format!("r:{}", rule_name))
    } else {
        status
    };

    let rules = &status.rules.0;
    let expression = rules.get(rule_name).ok_or_else(|| {
        Error::from_status(
            &status,
            &format!("Missing rule: {}", rule_name),
            ErrPriority::Critical,
        )
    })?;
    let (st, nodes) = parse_expr(status, &expression)?;
""", """    let mut status = status;
    if status.trace_rules {
        let step = ["r:", rule_name].concat();
        status.walking_rules.push(step);
    }

    if !status.rules.0.contains_key(rule_name) {
        let descr = String::from("Missing rule: ") + rule_name;
        return Err(Error::from_status(&status, &descr, ErrPriority::Critical));
    }
    let expression = &status.rules.0[rule_name];
    let (st, nodes) = parse_expr(status, expression)?;
""")]),
 dict(id="sm-prune-children", edits=[(T, """        let nname2prune = |nname: &str| nodes2prune.iter().find(|n| *n == &nname);
        let node2prune = |node: &Node| match node {
            Node::Rule((nname, _)) => nname2prune(nname).is_some(),
            _ => false,
        };
        let prune_vn = |vnodes: &[Node]| {
            vnodes.iter().fold(vec![], |acc, n| {
                if !node2prune(n) {
                    acc.ipush(n.prune(nodes2prune))
                } else {
                    acc
                }
            })
        };
        match self {
            Node::EOF => Node::EOF,
            Node::Val(v) => Node::Val(v.clone()),
            Node::Rule((n, vn)) => Node::Rule((n.clone(), prune_vn(vn))),
        }""", """        fn stays(node: &Node, nodes2prune: &[&str]) -> bool {
            if let Node::Rule((nname, _)) = node {
                for name in nodes2prune {
                    if name == nname {
                        return false;
                    }
                }
            }
            true
        }
        let (name, children) = match self {
            Node::EOF => return Node::EOF,
            Node::Val(v) => return Node::Val(v.to_string()),
            Node::Rule((n, vn)) => (n, vn),
        };
        let mut kept = Vec::with_capacity(children.len());
        kept.extend(
            children
                .iter()
                .filter(|c| stays(c, nodes2prune))
                .map(|c| c.prune(nodes2prune)),
        );
        Node::Rule((name.to_owned(), kept))""")]),
 dict(id="sm-get-val-iflet", edits=[(T, """    match node {
        Node::Val(v) => Ok(v),
        _ => Err(error("expected node::Val", None)),
    }
}

/// Sometimes""", """    if let Node::Val(v) = node {
        return Ok(v.as_str());
    }
    let descr = "expected node::Val";
    Err(Error(String::from(descr), None))
}

/// Sometimes""")]),
 dict(id="sm-consume-ok-or", edits=[(T, """    nodes
        .split_first()
        .ok_or_else(|| error("trying get first element from nodes on empty slice", None))""", """    const EMPTY: &str = "trying get first element from nodes on empty slice";
    match nodes {
        [] => Err(error(EMPTY, None)),
        [first, rest @ ..] => Ok((first, rest)),
    }""")]),
 dict(id="sm-ctx-map-or", edits=[(G, """        match self.inside_mods.last().cloned() {
            Some(mod_path) => self.inside_mods.push(format!("{}{}", mod_path, mod_name)),
            None => self.inside_mods.push(mod_name.to_string()),
        };
        self""", """        let mut path = self.inside_mods.last().cloned().unwrap_or_default();
        path.push_str(mod_name);
        self.inside_mods.push(path);
        self""")]),
 dict(id="sm-esc-iflet", edits=[(G, """        let val = match val {
            r#"\\r"# => Ok("\\r"),
            r#"\\n"# => Ok("\\n"),
            r#"\\t"# => Ok("\\t"),
            r#"\\\\"# => Ok(r#"\\"#),
            r#"\\""# => Ok(r#\"""#),
            _ => Err(error_peg_s(&format!("unknow esc char: {}", val))),
        }?;
        Ok((val.to_string(), nodes, context))""", """        let ch = match val {
            r#"\\r"# => '\\r',
            r#"\\n"# => '\\n',
            r#"\\t"# => '\\t',
            r#"\\\\"# => '\\\\',
            r#"\\""# => '"',
            unknown => return Err(error_peg_s(&format!("unknow esc char: {}", unknown))),
        };
        Ok((ch.to_string(), nodes, context))""")]),
 dict(id="sm-eov-finish", edits=[(G, """        match eov {
            ExprOrVecExpr::None => Err(error_peg_s("logic error, empty or parsing???")),
            ExprOrVecExpr::Expr(e) => Ok((e, nodes, context)),
            ExprOrVecExpr::VExpr(v) => Ok((build_or_expr(v), nodes, context)),
        }
    })""", """        let expr = eov.finish(build_or_expr)?;
        Ok((expr, nodes, context))
    })"""), (G, """    match eov {
        ExprOrVecExpr::None => Err(error_peg_s("logic error, empty or parsing???")),
        ExprOrVecExpr::Expr(e) => Ok((e, nodes, context)),
        ExprOrVecExpr::VExpr(v) => Ok((build_and_expr(v), nodes, context)),
    }""", """    let expr = eov.finish(build_and_expr)?;
    Ok((expr, nodes, context))"""), (G, """impl ExprOrVecExpr {
    fn ipush""", """impl ExprOrVecExpr {
    fn finish<F>(self, build: F) -> result::Result<Expression, Error>
    where
        F: Fn(Vec<Expression>) -> Expression,
    {
        match self {
            ExprOrVecExpr::None => Err(error_peg_s("logic error, empty or parsing???")),
            ExprOrVecExpr::Expr(e) => Ok(e),
            ExprOrVecExpr::VExpr(v) => Ok(build(v)),
        }
    }
    fn ipush""")]),
 dict(id="sm-rep-indicator", edits=[(G, """        match rsymbol {
            "+" => Ok(rep!(expr, 1)),
            "*" => Ok(rep!(expr, 0)),
            "?" => Ok(rep!(expr, 0, 1)),
            unknown => Err(error_peg_s(&format!(
                "repetition symbol unknown {}",
                unknown
            ))),
        }""", """        let (min, max) = match rsymbol {
            "?" => (0, Some(1)),
            "*" => (0, None),
            "+" => (1, None),
            unknown => {
                let descr = format!("repetition symbol unknown {}", unknown);
                return Err(error_peg_s(&descr));
            }
        };
        Ok(Expression::Repeat(expression::RepInfo::new(
            Box::new(expr),
            min,
            max,
        )))""")]),
 dict(id="sm-pipeline-steps", edits=[(G, """    let ast = parse(peg, &rules::parse_peg())?;
    let nodes = ast.compact().prune(&["_", "_1", "_eol"]).flatten();

    rules_from_flat_ast(&nodes)""", """    const SPACES: [&str; 3] = ["_eol", "_", "_1"];
    let grammar = rules::parse_peg();
    match parse(peg, &grammar) {
        Err(e) => Err(Error::Parser(e)),
        Ok(ast) => {
            let compacted = ast.compact();
            let pruned = compacted.prune(&SPACES);
            rules_from_flat_ast(pruned.flatten().as_slice())
        }
    }""")]),
 dict(id="sm-code-rep", edits=[(C, """    "rep!(".to_owned()
        + &expr2code(&rep.expression)
        + ", "
        + &rep.min.0.to_string()
        + &match rep.max {
            Some(ref m) => format!(", {}", m.0),
            None => "".to_owned(),
        }
        + ")\"""", """    let inner = expr2code(&rep.expression);
    match &rep.max {
        Some(max) => format!("rep!({}, {}, {})", inner, rep.min, max),
        None => format!("rep!({}, {})", inner, rep.min),
    }""")]),
 dict(id="sm-code-atoms", edits=[(C, """        Atom::Literal(s) => format!("lit!({:?})", s),
        Atom::Error(s) => format!("error!({:?})", s),""", """        Atom::Literal(s) => call("lit!", s),
        Atom::Error(s) => call("error!", s),"""), (C, """fn atom2code(""", """fn call(name: &str, arg: &str) -> String {
    let mut code = name.to_string();
    code.push('(');
    code.push_str(&format!("{:?}", arg));
    code.push(')');
    code
}

fn atom2code(""")]),
]
