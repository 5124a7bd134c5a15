A="parser/atom/mod.rs"; X="parser/expression/mod.rs"; L="lib.rs"; P="parser/mod.rs"; T="ast/mod.rs"; F="ast/flat.rs"; G="peg/mod.rs"; C="peg/gcode.rs"
DISP='''        match self {
            Error::Peg((s, None)) => write!(f, "{}", s),
            Error::Peg((s, Some(b))) => write!(f, "{} > {}", s, b),
            Error::Parser(p) => write!(f, "Parser({:?})", p),
            Error::Ast(a) => write!(f, "AST({:?})", a),
        }
'''
PUSH='''        Error::Peg((desc.to_string(), Some(Box::new(self))))
'''
CHANGES=[
dict(id="err-display-loop", edits=[(G,DISP,'''        let mut e = self;
        loop {
            match e {
                Error::Peg((s, None)) => return f.write_str(s),
                Error::Peg((s, Some(b))) => {
                    f.write_str(s)?;
                    f.write_str(" > ")?;
                    e = b;
                }
                Error::Parser(p) => return write!(f, "Parser({:?})", p),
                Error::Ast(a) => return write!(f, "AST({:?})", a),
            }
        }
''')]),
dict(id="err-display-while", edits=[(G,DISP,'''        let mut e: &Error = self;
        while let Error::Peg((s, Some(b))) = e {
            write!(f, "{} > ", s)?;
            e = b.as_ref();
        }
        match *e {
            Error::Peg((ref s, _)) => write!(f, "{}", s),
            Error::Parser(ref p) => write!(f, "Parser({:?})", p),
            Error::Ast(ref a) => write!(f, "AST({:?})", a),
        }
''')]),
dict(id="err-display-string", edits=[(G,DISP,'''        let text = match self {
            Error::Peg((s, None)) => s.clone(),
            Error::Peg((s, Some(b))) => {
                let inner = b.to_string();
                format!("{} > {}", s, inner)
            }
            Error::Parser(p) => format!("Parser({:?})", p),
            Error::Ast(a) => format!("AST({:?})", a),
        };
        f.write_str(&text)
''')]),
dict(id="err-display-helper", edits=[(G,'''impl std::fmt::Display for Error {
''','''fn fmt_peg(f: &mut std::fmt::Formatter, descr: &str, cause: Option<&Error>) -> std::fmt::Result {
    f.write_str(descr)?;
    if let Some(cause) = cause {
        write!(f, " > {}", cause)?;
    }
    Ok(())
}

impl std::fmt::Display for Error {
'''),(G,'''            Error::Peg((s, None)) => write!(f, "{}", s),
            Error::Peg((s, Some(b))) => write!(f, "{} > {}", s, b),
''','''            Error::Peg((s, b)) => fmt_peg(f, s, b.as_ref().map(|b| &**b)),
''')]),
dict(id="err-display-two", edits=[(G,'''            Error::Peg((s, None)) => write!(f, "{}", s),
            Error::Peg((s, Some(b))) => write!(f, "{} > {}", s, b),
''','''            Error::Peg((s, b)) => match b {
                Some(b) => {
                    f.write_str(s)?;
                    f.write_str(" > ")?;
                    b.fmt(f)
                }
                None => f.write_str(s),
            },
''')]),
dict(id="err-push-named", edits=[(G,PUSH,'''        let cause = Box::new(self);
        let descr = String::from(desc);
        Error::Peg((descr, Some(cause)))
''')]),
dict(id="err-push-match", edits=[(G,PUSH,'''        let descr = desc.to_owned();
        match self {
            Error::Peg(inner) => Error::Peg((descr, Some(Box::new(Error::Peg(inner))))),
            other => Error::Peg((descr, Some(Box::new(other)))),
        }
''')]),
dict(id="err-macro-match", edits=[(G,'''        let l = move || $e;
        l().map_err(move |e: Error| e.ipush($descr))
''','''        let l = move || $e;
        match l() {
            Ok(v) => Ok(v),
            Err(e) => {
                let e: Error = e;
                Err(e.ipush($descr))
            }
        }
''')]),
dict(id="err-rule-match", edits=[(G,'''    push_err!(&format!("consuming {}", rule_name), {
        let nodes = flat::consume_node_start_rule_name(rule_name, &nodes)?;
        let (result, nodes, context) = f(&nodes, context)?;
        let nodes = flat::consume_node_end_rule_name(rule_name, &nodes)?;
        Ok((result, nodes, context))
    })
''','''    let r = flat::consume_node_start_rule_name(rule_name, &nodes)
        .map_err(Error::from)
        .and_then(|nodes| f(nodes, context))
        .and_then(|(result, nodes, context)| {
            let nodes = flat::consume_node_end_rule_name(rule_name, nodes)?;
            Ok((result, nodes, context))
        });
    r.map_err(|e| e.ipush(&format!("consuming {}", rule_name)))
''')]),
dict(id="err-from-map", edits=[(G,'''    let ast = parse(peg, &rules::parse_peg())?;
''','''    let ast = parse(peg, &rules::parse_peg()).map_err(Error::Parser)?;
''')]),
dict(id="err-owned-text", edits=[(G,'''    let ast = parse(peg, &rules::parse_peg())?;
''','''    let text = peg.to_string();
    let parsed = parse(text.as_str(), &rules::parse_peg());
    if let Err(e) = parsed {
        return Err(Error::Parser(e));
    }
    let ast = parsed?;
''')]),
dict(id="err-leftover-match", edits=[(G,'''    let (rules, nodes, _context) = consume_main(&nodes, Context::new())?;
    if !nodes.is_empty() {
        Err(error_peg_s("expected empty nodes after processing main"))
    } else {
        Ok(rules)
    }
''','''    consume_main(nodes, Context::new()).and_then(|(rules, rest, _)| match rest.len() {
        0 => Ok(rules),
        _ => Err(error_peg_s("expected empty nodes after processing main")),
    })
''')]),
dict(id="err-from-new", edits=[(G,'''        Error::Parser(e)
    }''','''        let parser::Error { .. } = e;
        Self::Parser(e)
    }''')]),
]
