"""behaviour-preserving changes to the generator, the macros and the consumers"""
C="peg/gcode.rs"; L="lib.rs"; G="peg/mod.rs"; F="ast/flat.rs"; X="parser/expression/mod.rs"
MEX="""    mexpr
        .0
        .iter()
        .fold(String::new(), |acc, expr| match acc.len() {
            0 => expr2code(expr).to_string(),
            _ => format!("{}, {}", acc, expr2code(expr)),
        })
"""
REP='''    "rep!(".to_owned()
        + &expr2code(&rep.expression)
        + ", "
        + &rep.min.0.to_string()
        + &match rep.max {
            Some(ref m) => format!(", {}", m.0),
            None => "".to_owned(),
        }
        + ")"
'''
TOP='''    let add_rule = |crules: String, rule: &str| -> String {
        let begin = if crules == "" { "  " } else { ", " };
        crules + "\\n       " + begin + rule
    };

    rules.0.iter().fold("".to_string(), |acc, (name, expr)| {
        add_rule(acc, &rule2code(name, expr))
    })
'''
ATOM='''    match atom {
        Atom::Literal(s) => format!("lit!({:?})", s),
        Atom::Error(s) => format!("error!({:?})", s),
        Atom::Match(mrules) => match_rules2code(mrules),
        Atom::Dot => "dot!()".to_string(),
        Atom::EOF => "eof!()".to_string(),
    }
'''
CHANGES=[
dict(id="gen-join", edits=[(C,MEX,'''    mexpr
        .0
        .iter()
        .map(expr2code)
        .collect::<Vec<String>>()
        .join(", ")
''')]),
dict(id="gen-loop-first", edits=[(C,MEX,'''    let mut out = String::new();
    let mut first = true;
    for expr in &mexpr.0 {
        if !first {
            out.push_str(", ");
        }
        first = false;
        out.push_str(&expr2code(expr));
    }
    out
''')]),
dict(id="gen-loop-index", edits=[(C,MEX,'''    let mut out = String::new();
    for (i, expr) in mexpr.0.iter().enumerate() {
        if i > 0 {
            out += ", ";
        }
        out += &expr2code(expr);
    }
    out
''')]),
dict(id="gen-loop-empty", edits=[(C,MEX,'''    let mut out = String::new();
    for expr in mexpr.0.iter() {
        let code = expr2code(expr);
        if out.is_empty() {
            out = code;
        } else {
            out = format!("{}, {}", out, code);
        }
    }
    out
''')]),
dict(id="gen-split-first", edits=[(C,MEX,'''    match mexpr.0.split_first() {
        None => String::new(),
        Some((first, rest)) => rest
            .iter()
            .fold(expr2code(first), |acc, e| acc + ", " + &expr2code(e)),
    }
''')]),
dict(id="gen-rep-format", edits=[(C,REP,'''    let expr = expr2code(&rep.expression);
    match &rep.max {
        Some(max) => format!("rep!({}, {}, {})", expr, rep.min.0, max.0),
        None => format!("rep!({}, {})", expr, rep.min.0),
    }
''')]),
dict(id="gen-rep-map", edits=[(C,REP,'''    let max = rep
        .max
        .as_ref()
        .map(|m| format!(", {}", m.0))
        .unwrap_or_default();
    format!("rep!({}, {}{})", expr2code(&rep.expression), rep.min.0, max)
''')]),
dict(id="gen-rep-push", edits=[(C,REP,'''    let mut code = String::from("rep!(");
    code.push_str(&expr2code(&rep.expression));
    code.push_str(", ");
    code.push_str(&rep.min.0.to_string());
    if let Some(max) = &rep.max {
        code.push_str(", ");
        code.push_str(&max.0.to_string());
    }
    code.push(')');
    code
''')]),
dict(id="gen-top-loop", edits=[(C,TOP,'''    let mut out = String::new();
    for (name, expr) in rules.0.iter() {
        let begin = if out.is_empty() { "  " } else { ", " };
        out.push_str("\\n       ");
        out.push_str(begin);
        out.push_str(&rule2code(name, expr));
    }
    out
''')]),
dict(id="gen-top-join", edits=[(C,TOP,'''    rules
        .0
        .iter()
        .map(|(name, expr)| rule2code(name, expr))
        .collect::<Vec<_>>()
        .join("\\n     , ")
''')]),
dict(id="gen-quote", edits=[(C,ATOM,'''    match atom {
        Atom::Literal(s) => call("lit", &quote(s)),
        Atom::Error(s) => call("error", &quote(s)),
        Atom::Match(mrules) => match_rules2code(mrules),
        Atom::Dot => call("dot", ""),
        Atom::EOF => call("eof", ""),
    }
}

fn quote(s: &str) -> String {
    format!("\\"{}\\"", s.escape_debug())
}

fn call(name: &str, arg: &str) -> String {
    format!("{}!({})", name, arg)
''')]),
dict(id="gen-write", edits=[(C,'''    format!("{:?} => {}", name, expr2code(expr))
''','''    use std::fmt::Write;
    let mut code = String::new();
    let _ = write!(code, "{:?} => {}", name, expr2code(expr));
    code
''')]),
dict(id="gen-inline-atom", edits=[(C,"        Expression::Simple(atom) => atom2code(atom),\n",'''        Expression::Simple(Atom::Dot) => String::from("dot!()"),
        Expression::Simple(Atom::EOF) => String::from("eof!()"),
        Expression::Simple(atom) => atom2code(atom),
''')]),
dict(id="gen-multi-helper", edits=[(C,'''        Expression::And(mexpr) => format!("and!({})", mexpr2code(mexpr)),
        Expression::Or(mexpr) => format!("or!({})", mexpr2code(mexpr)),
''','''        Expression::And(mexpr) => multi2code("and", mexpr),
        Expression::Or(mexpr) => multi2code("or", mexpr),
'''),(C,"fn mexpr2code(",'''fn multi2code(name: &str, mexpr: &expression::MultiExpr) -> String {
    let mut code = name.to_string();
    code.push_str("!(");
    code.push_str(&mexpr2code(mexpr));
    code.push(')');
    code
}

fn mexpr2code(''')]),
dict(id="mac-rep-from", edits=[(L,'''        expression::Expression::Repeat(expression::RepInfo::new(Box::new($e), $min, None))
''','''        let e = Box::new($e);
        expression::Expression::Repeat(expression::RepInfo::new(e, $min, None))
''')]),
dict(id="mac-and-push", edits=[(L,'''        Expression::And(MultiExpr::new(vec![$($e ,)*]))
''','''        let all: Vec<Expression> = vec![$($e),*];
        Expression::And(MultiExpr::new(all))
''')]),
dict(id="mac-lit-from", edits=[(L,'''        $crate::parser::expression::Expression::Simple($crate::parser::atom::Atom::Literal(
            $e.to_string(),
        ))
''','''        use $crate::parser::atom::Atom;
        let text = $e.to_string();
        $crate::parser::expression::Expression::Simple(Atom::Literal(text))
''')]),
dict(id="mac-ematch-vec", edits=[(L,'''        let mut v = Vec::<(char, char)>::new();

        //$(let v = v.ipush(($from, $to));)+  //  pending macros by example 2.0
        $(v.push(($from, $to));)+
''','''        let v: Vec<(char, char)> = vec![$(($from, $to)),*];
''')]),
dict(id="peg-hex-strip", edits=[(G,"        let val = &val[3..];\n",'''        let start = "\\\\0x".len();
        let val = &val[start..];
''')]),
dict(id="peg-esc-char", edits=[(G,'''        let val = match val {
            r#"\\r"# => Ok("\\r"),
            r#"\\n"# => Ok("\\n"),
            r#"\\t"# => Ok("\\t"),
            r#"\\\\"# => Ok(r#"\\"#),
            r#"\\""# => Ok(r#"""#),
            _ => Err(error_peg_s(&format!("unknow esc char: {}", val))),
        }?;
        Ok((val.to_string(), nodes, context))
''','''        let ch = match &val[1..] {
            "r" => '\\r',
            "n" => '\\n',
            "t" => '\\t',
            "\\\\" => '\\\\',
            "\\"" => '"',
            _ => return Err(error_peg_s(&format!("unknow esc char: {}", val))),
        };
        Ok((ch.to_string(), nodes, context))
''')]),
dict(id="peg-eov-vec", edits=[(G,'''            ExprOrVecExpr::Expr(e) => ExprOrVecExpr::VExpr(vec![e, expr]),
''','''            ExprOrVecExpr::Expr(e) => {
                let mut both = Vec::with_capacity(2);
                both.push(e);
                both.push(expr);
                ExprOrVecExpr::VExpr(both)
            }
''')]),
dict(id="peg-mchars-default", edits=[(G,'''        let (expr, nodes) = match (omchars, vchars.is_empty()) {
            (Some(chars), true) => Ok((ematch!(chlist chars, from2 vec![]), nodes)),
            (Some(chars), false) => Ok((ematch!(chlist chars, from2 vchars), nodes)),
            (None, false) => Ok((ematch!(chlist "", from2 vchars), nodes)),
            _ => Err(error_peg_s("Invalid match combination")),
        }?;
''','''        if omchars.is_none() && vchars.is_empty() {
            return Err(error_peg_s("Invalid match combination"));
        }
        let expr = ematch!(chlist omchars.unwrap_or(""), from2 vchars);
''')]),
dict(id="peg-rule-name-loop", edits=[(G,'''                    let acc_name = format!("{}.{}", acc_name, symbol);
                    rec_consume_dot_symbol(acc_name, nodes, context)
''','''                    rec_consume_dot_symbol(acc_name + "." + symbol, nodes, context)
''')]),
dict(id="peg-between-chars", edits=[(G,'''        let (from, chars) = idata::consume_char(from_to.chars())
            .ok_or_else(|| error_peg_s("expected from char"))?;
        let (_, chars) =
            idata::consume_char(chars).ok_or_else(|| error_peg_s("expected '-' char"))?;
        let (to, _) = idata::consume_char(chars).ok_or_else(|| error_peg_s("expected to char"))?;
''','''        let mut chars = from_to.chars();
        let from = chars
            .next()
            .ok_or_else(|| error_peg_s("expected from char"))?;
        chars
            .next()
            .ok_or_else(|| error_peg_s("expected '-' char"))?;
        let to = chars.next().ok_or_else(|| error_peg_s("expected to char"))?;
''')]),
]
