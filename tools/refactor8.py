A="parser/atom/mod.rs"; X="parser/expression/mod.rs"; L="lib.rs"; P="parser/mod.rs"; T="ast/mod.rs"; F="ast/flat.rs"; G="peg/mod.rs"; C="peg/gcode.rs"; PC="peg/peg2code.rs"
CHANGES=[
dict(id="pan-literal-cut", edits=[(A,"""            Error::from_status_normal(&st, &format!("expected literal: <{}>", literal))
""","""            let mut end = literal.len();
            while !literal.is_char_boundary(end) {
                end -= 1;
            }
            Error::from_status_normal(&st, &format!("expected literal: <{}>", &literal[..end]))
""")]),
dict(id="pan-split-at", edits=[(P,"""        let parsed = &status.text2parse[..status.text2parse.len() - pending.len()];
""","""        let (parsed, rest) = status
            .text2parse
            .split_at(status.text2parse.len() - pending.len());
        debug_assert!(rest == pending);
""")]),
dict(id="pan-range-distance", edits=[(A,"""                if b <= ch && ch <= t {
""","""                let (b, ch, t) = (b as u32, ch as u32, t as u32);
                if b <= ch && ch <= t && ch - b <= t - b {
""")]),
dict(id="pan-and-index", edits=[(X,"""            let result_parse = parse_expr(acc.0, &acc.1[0]);
            match result_parse {
                Ok((status, vnodes)) => {
                    TailCall::Call((status, &acc.1[1..], acc.2.iappend(vnodes)))
                }
""","""            let (first, rest) = acc.1.split_at(1);
            let result_parse = parse_expr(acc.0, &first[0]);
            match result_parse {
                Ok((status, vnodes)) => TailCall::Call((status, rest, acc.2.iappend(vnodes))),
""")]),
dict(id="pan-or-unwrap", edits=[(X,"""            let try_parse = parse_expr(acc.0.clone(), &acc.1[0]);
            match try_parse {
                Ok(result) => TailCall::Return(Ok(result)),
""","""            let first = acc.1.first().unwrap();
            let try_parse = parse_expr(acc.0.clone(), first);
            match try_parse {
                Ok(result) => TailCall::Return(Ok(result)),
""")]),
dict(id="pan-rep-left", edits=[(X,"""    let big_min_bound = |counter| counter >= rep_info.min.0;
""","""    let big_min_bound = |counter: usize| {
        let missing = if counter < rep_info.min.0 {
            rep_info.min.0 - counter
        } else {
            0
        };
        missing == 0
    };
""")]),
dict(id="pan-not-unreachable", edits=[(X,"""        Err(e) if e.priority == ErrPriority::Critical => Err(e),
        Err(_) => Ok((status, vec![])),
""","""        Err(e) => match e.priority {
            ErrPriority::Critical => Err(e),
            ErrPriority::Normal => {
                assert!(e.priority < ErrPriority::Critical);
                Ok((status, vec![]))
            }
        },
""")]),
dict(id="pan-unique-index", edits=[(T,"""    match (nodes.first(), nodes.len()) {
        (Some(n), 1) => get_node_val(n),
        _ => Err(error("expected only one value in nodes", None)),
    }
""","""    if nodes.len() != 1 {
        return Err(error("expected only one value in nodes", None));
    }
    get_node_val(&nodes[nodes.len() - 1])
""")]),
dict(id="pan-flat-slice", edits=[(F,"""    nodes
        .split_first()
        .ok_or_else(|| error("trying get first element from nodes on empty slice", None))
""","""    if nodes.is_empty() {
        return Err(error(
            "trying get first element from nodes on empty slice",
            None,
        ));
    }
    Ok((&nodes[0], &nodes[1..]))
""")]),
dict(id="pan-compact-index", edits=[(T,"""            let get_val = |nodes: &Vec<Node>| match nodes.last() {
                Some(Node::Val(ref v)) => Some(v.to_string()),
                _ => None,
            };
""","""            let get_val = |nodes: &Vec<Node>| {
                if nodes.is_empty() {
                    return None;
                }
                match nodes[nodes.len() - 1] {
                    Node::Val(ref v) => Some(v.to_string()),
                    _ => None,
                }
            };
""")]),
dict(id="pan-code-split-first", edits=[(C,"""        .iter()
        .fold(String::new(), |acc, expr| match acc.len() {
            0 => expr2code(expr).to_string(),
            _ => format!("{}, {}", acc, expr2code(expr)),
        })
""","""        .split_first()
        .map(|(first, rest)| {
            rest.iter().fold(expr2code(first), |acc, expr| {
                format!("{}, {}", acc, expr2code(expr))
            })
        })
        .unwrap_or_else(String::new)
""")]),
dict(id="pan-rule-trace", edits=[(X,"""    let status = if status.trace_rules {
        status.push_rule(&format!("r:{}", rule_name))
    } else {
        status
    };
""","""    let status = if status.trace_rules {
        let status = status.push_rule(&format!("r:{}", rule_name));
        debug_assert!(status.walking_rules.last().unwrap().starts_with("r:"));
        status
    } else {
        status
    };
""")]),
dict(id="pan-pos-assert", edits=[(A,"""        match self.it_parsing.next() {
            None => Err(self),
            Some(ch) => {
                self.pos.n += 1;
""","""        let before = self.it_parsing.as_str().len();
        match self.it_parsing.next() {
            None => Err(self),
            Some(ch) => {
                assert_eq!(before - self.it_parsing.as_str().len(), ch.len_utf8());
                self.pos.n += 1;
""")]),
dict(id="pan-hex-expect", edits=[(G,"""        let ch = match u8::from_str_radix(val, 16) {
""","""        debug_assert!(!val.is_empty());
        let ch = match u8::from_str_radix(val, 16) {
""")]),
dict(id="pan-rep-progress", edits=[(X,"""                TailCall::Call((status, acc.1 + 1, acc.2.iappend(vnodes)))
""","""                let taken = status.pos.n - acc.0.pos.n;
                let _ = taken;
                TailCall::Call((status, acc.1 + 1, acc.2.iappend(vnodes)))
""")]),
dict(id="pan-err-distance", edits=[(X,"""                    if e.priority == ErrPriority::Critical {
                        TailCall::Return(Err(e))
                    } else {
                        TailCall::Call((acc.0, &acc.1[1..], deep_err(acc.2, e)))
""","""                    let ahead = e.pos.n - acc.0.pos.n;
                    let _ = ahead;
                    if e.priority == ErrPriority::Critical {
                        TailCall::Return(Err(e))
                    } else {
                        TailCall::Call((acc.0, &acc.1[1..], deep_err(acc.2, e)))
""")]),
]
