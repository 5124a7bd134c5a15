A="parser/atom/mod.rs"; X="parser/expression/mod.rs"; L="lib.rs"; P="parser/mod.rs"
AND_OLD="""    let init_tc: (_, &[Expression], Vec<ast::Node>) = (status, &(multi_expr.0), vec![]);

    tail_call(init_tc, |acc| {
        if acc.1.is_empty() {
            TailCall::Return(Ok((acc.0, acc.2)))
        } else {
            let result_parse = parse_expr(acc.0, &acc.1[0]);
            match result_parse {
                Ok((status, vnodes)) => {
                    TailCall::Call((status, &acc.1[1..], acc.2.iappend(vnodes)))
                }
                Err(err) => TailCall::Return(Err(err)),
            }
        }
    })
"""
OR_OLD="""    let init_tc: (_, &[Expression], Option<Error>) = (status.clone(), &(multi_expr.0), None);

    tail_call(init_tc, |acc| {
        if acc.1.is_empty() {
            TailCall::Return(Err(match acc.2 {
                Some(err) => err,
                _ => Error::from_status_normal(
                    &status,
                    "LOGIC ERROR!!! checked all options in or with ¿NO? errors",
                ),
            }))
        } else {
            let try_parse = parse_expr(acc.0.clone(), &acc.1[0]);
            match try_parse {
                Ok(result) => TailCall::Return(Ok(result)),
                Err(e) => {
                    if e.priority == ErrPriority::Critical {
                        TailCall::Return(Err(e))
                    } else {
                        TailCall::Call((acc.0, &acc.1[1..], deep_err(acc.2, e)))
                    }
                }
            }
        }
    })
"""
REP_OLD="""    let init_tc: (_, _, Vec<ast::Node>) = (status, 0, vec![]);
    Ok(tail_call(init_tc, |acc| {
        if reached_max_bound(acc.1) {
            return TailCall::Return(Ok((acc.0, acc.2)));
        }
        let try_parse = parse_expr(acc.0.clone(), &rep_info.expression);
        match (try_parse, big_min_bound(acc.1)) {
            (Err(e), true) => {
                if e.priority == ErrPriority::Critical {
                    TailCall::Return(Err(e))
                } else {
                    TailCall::Return(Ok((acc.0.set_potential_error(e), acc.2)))
                }
            }
            (Err(e), false) => TailCall::Return(Err(e)),
            (Ok((status, vnodes)), _) => {
"""
REP_ALL=REP_OLD+"""                // an unbounded repetition ends when its expression matches
                // without consuming
                if rep_info.max.is_none()
                    && status.pos.n == acc.0.pos.n
                    && big_min_bound(acc.1 + 1)
                {
                    return TailCall::Return(Ok((status, acc.2.iappend(vnodes))));
                }
                TailCall::Call((status, acc.1 + 1, acc.2.iappend(vnodes)))
            }
        }
    })?)
"""
import re as _re
_src=open("/repo/src/"+X).read()
_i=_src.index("    let init_tc: (_, _, Vec<ast::Node>) = (status, 0, vec![]);"); _j=_src.index("    })?)\n",_i)+len("    })?)\n")
REP_ALL=_src[_i:_j]
LIT_OLD="""    for ch in literal.chars() {
        status = parse_char(status, ch).map_err(|st| {
            Error::from_status_normal(&st, &format!("expected literal: <{}>", literal))
        })?;
    }
    ok!(status, literal)
"""
_s=open("/repo/src/"+A).read()
_i=_s.index("    for ch in literal.chars()"); _j=_s.index("ok!(status, literal)",_i)+len("ok!(status, literal)\n")
LIT_OLD=_s[_i:_j]
_i=_s.index("    fn get_char(mut self)"); GET_OLD=_s[_i:]
_i=_s.index("    let match_char = |ch: char|"); _j=_s.index("\n}\n",_i)+1
MATCH_OLD=_s[_i:_j]
_i=_s.index("fn parse_eof("); _j=_s.index("\n}\n",_i)+3
EOF_OLD=_s[_i:_j]
_l=open("/repo/src/lib.rs").read()
_i=_l.index("    let (st, ast) = if debug {"); _j=_l.index("\n}\n",_i)+1
ROOT_OLD=_l[_i:_j]
_i=_src.index("    let expression = rules.get(rule_name)"); _j=_src.index("\n}\n",_i)+1
RULE_OLD=_src[_i:_j]
_i=_src.index("    match parse_expr(status.clone(), expression) {"); _j=_src.index("\n}\n",_i)+1
NOT_OLD=_src[_i:_j]
_p=open("/repo/src/"+P).read()
_i=_p.index("        let pending = status.it_parsing.as_str();"); _j=_p.index("\n    }\n",_i)+1
FS_OLD=_p[_i:_j]
CHANGES=[
dict(id="ev-and-for",edits=[(X,AND_OLD,"""    let mut status = status;
    let mut nodes: Vec<ast::Node> = vec![];
    for e in &multi_expr.0 {
        let (st, vnodes) = parse_expr(status, e)?;
        status = st;
        nodes.extend(vnodes);
    }
    Ok((status, nodes))
""")]),
dict(id="ev-and-tryfold",edits=[(X,AND_OLD,"""    multi_expr
        .0
        .iter()
        .try_fold((status, vec![]), |(st, nodes), e| {
            let (st, vnodes) = parse_expr(st, e)?;
            Ok((st, nodes.iappend(vnodes)))
        })
""")]),
dict(id="ev-and-rec",edits=[(X,AND_OLD,"""    parse_and_from(status, &multi_expr.0, vec![])
"""),(X,"fn parse_or<'a>(","""fn parse_and_from<'a>(status: Status<'a>, exprs: &'a [Expression], mut nodes: Vec<ast::Node>) -> ResultExpr<'a> {
    match exprs.split_first() {
        None => Ok((status, nodes)),
        Some((first, rest)) => {
            let (st, mut vnodes) = parse_expr(status, first)?;
            nodes.append(&mut vnodes);
            parse_and_from(st, rest, nodes)
        }
    }
}

fn parse_or<'a>(""")]),
dict(id="ev-and-index",edits=[(X,AND_OLD,"""    let mut cur = status;
    let mut all = Vec::with_capacity(multi_expr.0.len());
    let mut i = 0;
    while i < multi_expr.0.len() {
        match parse_expr(cur, &multi_expr.0[i]) {
            Err(e) => return Err(e),
            Ok((st, ns)) => {
                for n in ns {
                    all.push(n);
                }
                cur = st;
            }
        }
        i += 1;
    }
    Ok((cur, all))
""")]),
dict(id="ev-or-for",edits=[(X,OR_OLD,"""    let mut best: Option<Error> = None;
    for e in multi_expr.0.iter() {
        match parse_expr(status.clone(), e) {
            Ok(r) => return Ok(r),
            Err(ref e) if e.priority == ErrPriority::Critical => return Err(e.clone()),
            Err(e) => best = deep_err(best, e),
        }
    }
    Err(best.unwrap_or_else(|| {
        Error::from_status_normal(
            &status,
            "LOGIC ERROR!!! checked all options in or with ¿NO? errors",
        )
    }))
""")]),
dict(id="ev-or-deeperr-fn",edits=[(X,"""    let deep_err = |oe1: Option<Error>, e2: Error| match oe1 {
        Some(e1) => match (e1.priority > e2.priority, e1.pos.n > e2.pos.n) {
            (true, _) => Some(e1),
            (false, true) => Some(e1),
            (false, false) => Some(e2),
        },
        None => Some(e2),
    };

""",""),(X,"fn parse_or<'a>(","""fn deep_err(oe1: Option<Error>, e2: Error) -> Option<Error> {
    if let Some(e1) = oe1 {
        if e1.priority > e2.priority || e1.pos.n > e2.pos.n {
            return Some(e1);
        }
    }
    Some(e2)
}

fn parse_or<'a>(""")]),
dict(id="ev-or-slice-loop",edits=[(X,OR_OLD,"""    let mut pending: &[Expression] = &multi_expr.0;
    let mut best: Option<Error> = None;
    loop {
        let (first, rest) = match pending.split_first() {
            Some(x) => x,
            None => break,
        };
        let e = match parse_expr(status.clone(), first) {
            Ok(result) => return Ok(result),
            Err(e) => e,
        };
        if let ErrPriority::Critical = e.priority {
            return Err(e);
        }
        best = Some(match best {
            None => e,
            Some(b) => {
                if b.pos.n > e.pos.n {
                    b
                } else {
                    e
                }
            }
        });
        pending = rest;
    }
    match best {
        Some(err) => Err(err),
        None => Err(Error::from_status_normal(
            &status,
            "LOGIC ERROR!!! checked all options in or with ¿NO? errors",
        )),
    }
"""),(X,"    let deep_err = |oe1: Option<Error>, e2: Error| match oe1 {","    let _deep_err = |oe1: Option<Error>, e2: Error| match oe1 {")]),
dict(id="ev-rep-loop",edits=[(X,REP_ALL,"""    let mut status = status;
    let mut counter = 0;
    let mut nodes: Vec<ast::Node> = vec![];
    loop {
        if reached_max_bound(counter) {
            return Ok((status, nodes));
        }
        match parse_expr(status.clone(), &rep_info.expression) {
            Ok((st, mut vnodes)) => {
                nodes.append(&mut vnodes);
                let stuck = st.pos.n == status.pos.n;
                status = st;
                counter += 1;
                if stuck && rep_info.max.is_none() && big_min_bound(counter) {
                    return Ok((status, nodes));
                }
            }
            Err(e) => {
                if !big_min_bound(counter) || e.priority == ErrPriority::Critical {
                    return Err(e);
                }
                return Ok((status.set_potential_error(e), nodes));
            }
        }
    }
""")]),
dict(id="ev-rep-two",edits=[(X,REP_ALL,"""    let mut status = status;
    let mut nodes: Vec<ast::Node> = vec![];
    let mut counter = 0;
    while !reached_max_bound(counter) {
        let before = status.pos.n;
        match parse_expr(status.clone(), &rep_info.expression) {
            Err(e) => {
                return match (e.priority, big_min_bound(counter)) {
                    (ErrPriority::Normal, true) => Ok((status.set_potential_error(e), nodes)),
                    _ => Err(e),
                };
            }
            Ok((st, vnodes)) => {
                nodes = nodes.iappend(vnodes);
                status = st;
                counter += 1;
            }
        }
        if rep_info.max.is_none() && before == status.pos.n && big_min_bound(counter) {
            break;
        }
    }
    Ok((status, nodes))
"""),(X,"let reached_max_bound = |counter: usize| match rep_info.max {\n        Some(ref m) => counter >= m.0,\n        None => false,\n    };","let reached_max_bound = |counter: usize| rep_info.max.as_ref().map_or(false, |m| counter >= m.0);")]),
dict(id="ev-rep-helper",edits=[(X,"    let big_min_bound = |counter| counter >= rep_info.min.0;\n    let reached_max_bound = |counter: usize| match rep_info.max {\n        Some(ref m) => counter >= m.0,\n        None => false,\n    };\n","    let big_min_bound = |counter| rep_info.enough(counter);\n    let reached_max_bound = |counter: usize| rep_info.full(counter);\n"),(X,"impl RepInfo {","""impl RepInfo {
    fn enough(&self, counter: usize) -> bool {
        self.min.0 <= counter
    }

    fn full(&self, counter: usize) -> bool {
        if let Some(NRep(m)) = self.max {
            m <= counter
        } else {
            false
        }
    }
""")]),
dict(id="ev-not-if",edits=[(X,NOT_OLD,"""    let tried = parse_expr(status.clone(), expression);
    if let Err(e) = tried {
        if e.priority == ErrPriority::Critical {
            return Err(e);
        }
        return Ok((status, Vec::new()));
    }
    Err(Error::from_status_normal(&status, "not"))
""")]),
dict(id="ev-lit-tryfold",edits=[(A,LIT_OLD,"""    status = literal.chars().try_fold(status, |st, ch| {
        parse_char(st, ch).map_err(|st| {
            Error::from_status_normal(&st, &format!("expected literal: <{}>", literal))
        })
    })?;
    Ok((status, ast::Node::Val(literal.to_string())))
""")]),
dict(id="ev-lit-while",edits=[(A,LIT_OLD,"""    let mut expected = literal.chars();
    while let Some(ch) = expected.next() {
        match parse_char(status, ch) {
            Ok(st) => status = st,
            Err(st) => {
                let descr = format!("expected literal: <{}>", literal);
                return Err(Error::from_status_normal(&st, &descr));
            }
        }
    }
    ok!(status, literal)
""")]),
dict(id="ev-get-helper",edits=[(A,GET_OLD,"""    fn get_char(mut self) -> result::Result<(Self, char), Self> {
        if let Some(ch) = self.it_parsing.next() {
            self.advance_pos(ch);
            Ok((self, ch))
        } else {
            Err(self)
        }
    }

    fn advance_pos(&mut self, ch: char) {
        self.pos.n += 1;
        if ch == '\\n' {
            self.pos.row += 1;
            self.pos.start_line = self.pos.n;
        }
        if ch == '\\n' || ch == '\\r' {
            self.pos.col = 0;
        } else {
            self.pos.col += 1;
        }
    }
}
""")]),
dict(id="ev-get-newpos",edits=[(A,GET_OLD,"""    fn get_char(self) -> result::Result<(Self, char), Self> {
        let mut chars = self.it_parsing.clone();
        let ch = match chars.next() {
            None => return Err(self),
            Some(ch) => ch,
        };
        let n = self.pos.n + 1;
        let pos = match ch {
            '\\n' => crate::parser::Possition { n, row: self.pos.row + 1, col: 0, start_line: n },
            '\\r' => crate::parser::Possition { n, row: self.pos.row, col: 0, start_line: self.pos.start_line },
            _ => crate::parser::Possition { n, row: self.pos.row, col: self.pos.col + 1, start_line: self.pos.start_line },
        };
        Ok((Status { it_parsing: chars, pos, ..self }, ch))
    }
}
""")]),
dict(id="ev-match-any",edits=[(A,MATCH_OLD,"""    let (st, ch) = match status.get_char() {
        Ok(x) => x,
        Err(st) => return Err(match_error(&st, match_rules)),
    };
    let found = match_rules.0.chars().any(|c| c == ch)
        || match_rules.1.iter().any(|&(b, t)| b <= ch && ch <= t);
    if found {
        ok!(st, ch.to_string())
    } else {
        Err(match_error(&st, match_rules))
    }
"""),(A,EOF_OLD,EOF_OLD+"""
fn match_error(st: &Status, match_rules: &MatchRules) -> Error {
    Error::from_status_normal(
        st,
        &format!("match. expected {} {:?}", match_rules.0, match_rules.1),
    )
}
""")]),
dict(id="ev-match-contains",edits=[(A,"""        if match_rules.0.find(ch).is_some() {
            true
        } else {
            for &(b, t) in &match_rules.1 {
                if b <= ch && ch <= t {
                    return true;
                }
            }
            false
        }
""","""        if match_rules.0.contains(ch) {
            return true;
        }
        for (b, t) in match_rules.1.iter() {
            if (*b..=*t).contains(&ch) {
                return true;
            }
        }
        false
""")]),
dict(id="ev-eof-if",edits=[(A,EOF_OLD,"""fn parse_eof(status: Status) -> Result {
    status.get_char().map_or_else(
        |st| Ok((st, ast::Node::EOF)),
        |(st, _ch)| Err(Error::from_status_normal(&st, "expected EOF")),
    )
}
""")]),
dict(id="ev-root-if",edits=[(L,ROOT_OLD,"""    let status = parser::Status::init_debug(s, rules, debug);
    let (st, ast) = parser::expression::parse(status)?;
    if st.it_parsing.as_str() == "" {
        return Ok(ast);
    }
    Err(match st.potential_error {
        Some(ref e) => e.clone(),
        None => parser::Error::from_status_normal(&st, "not consumed full input"),
    })
""")]),
dict(id="ev-root-next",edits=[(L,ROOT_OLD,"""    let status = if debug {
        parser::Status::init_debug(s, &rules, true)
    } else {
        parser::Status::init(s, &rules)
    };
    parser::expression::parse(status).and_then(|(st, ast)| {
        if st.it_parsing.clone().next().is_none() {
            Ok(ast)
        } else if let Some(e) = st.potential_error.clone() {
            Err(e)
        } else {
            Err(parser::Error::from_status_normal(&st, "not consumed full input"))
        }
    })
""")]),
dict(id="ev-rule-match",edits=[(X,RULE_OLD,"""    match rules.get(rule_name) {
        Some(expression) => parse_expr(status, expression)
            .map(|(st, nodes)| (st, ast::Node::Rule((rule_name.to_string(), nodes)))),
        None => {
            let descr = String::from("Missing rule: ") + rule_name;
            Err(Error::from_status(&status, &descr, ErrPriority::Critical))
        }
    }
""")]),
dict(id="ev-fs-split",edits=[(P,FS_OLD,FS_OLD.replace("parsed.rsplit('\\n').next().unwrap_or(\"\").to_string()","last_line(parsed)")),(P,"impl Error {","""fn last_line(parsed: &str) -> String {
    match parsed.rfind('\\n') {
        Some(i) => parsed[i + 1..].to_string(),
        None => parsed.to_string(),
    }
}

impl Error {""")]),
dict(id="ev-status-init",edits=[(P,"""        Status {
            text2parse: t2p,
            it_parsing: t2p.chars(),
            pos: Possition::init(),
            trace_rules: false,
            walking_rules: vec![],
            rules,
            potential_error: None,
        }
""","""        Self::init_debug(t2p, rules, false)
""")]),
dict(id="ev-status-rename",edits=[]),
dict(id="ev-parse-expr-method",edits=[(X,"""    match *expression {
        Expression::Simple(ref val) => parse_atom_as_expr(status, &val),
        Expression::And(ref val) => parse_and(status, &val),
        Expression::Or(ref val) => parse_or(&status, &val),
        Expression::Not(ref val) => parse_not(status, &val),
        Expression::Repeat(ref val) => parse_repeat(status, &val),
        Expression::RuleName(ref val) => parse_rule_name_as_expr(status, &val),
    }
""","""    match expression {
        Expression::RuleName(name) => {
            let (st, node) = parse_rule_name(status, name)?;
            Ok((st, vec![node]))
        }
        Expression::Repeat(rep) => parse_repeat(status, rep),
        Expression::Not(inner) => parse_not(status, inner.as_ref()),
        Expression::Or(alts) => parse_or(&status, alts),
        Expression::And(parts) => parse_and(status, parts),
        Expression::Simple(atom) => atom::parse(status, atom).map(|(st, node)| (st, vec![node])),
    }
""")]),
dict(id="ev-trace-str",edits=[(X,"""        status.push_rule(&format!("r:{}", rule_name))""","""        let mut traced = status;
        let mut label = String::from("r:");
        label.push_str(rule_name);
        traced.walking_rules.push(label);
        traced""")]),
dict(id="ev-or-index",edits=[(X,OR_OLD,"""    let mut result = None;
    let mut error: Option<Error> = None;
    let mut i = 0;
    let alternatives = &multi_expr.0;
    while result.is_none() && i < alternatives.len() {
        match parse_expr(status.clone(), &alternatives[i]) {
            Ok(r) => result = Some(r),
            Err(e) => {
                if e.priority == ErrPriority::Critical {
                    return Err(e);
                }
                error = deep_err(error, e);
            }
        }
        i += 1;
    }
    match (result, error) {
        (Some(r), _) => Ok(r),
        (None, Some(e)) => Err(e),
        (None, None) => Err(Error::from_status_normal(
            &status,
            "LOGIC ERROR!!! checked all options in or with ¿NO? errors",
        )),
    }
""")]),
dict(id="ev-or-find-map",edits=[(X,OR_OLD,"""    let mut best: Option<Error> = None;
    let found = multi_expr.0.iter().find_map(|e| match parse_expr(status.clone(), e) {
        Ok(r) => Some(Ok(r)),
        Err(e) if e.priority == ErrPriority::Critical => Some(Err(e)),
        Err(e) => {
            best = deep_err(best.take(), e);
            None
        }
    });
    match found {
        Some(r) => r,
        None => Err(best.unwrap_or_else(|| {
            Error::from_status_normal(
                &status,
                "LOGIC ERROR!!! checked all options in or with ¿NO? errors",
            )
        })),
    }
""")]),
]
CHANGES=[c for c in CHANGES if c["edits"]]
