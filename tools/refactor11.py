"""Comparisons written by hand, and other ways of writing the tree walks, the top of a parse and the evaluator."""
A="parser/atom/mod.rs"; X="parser/expression/mod.rs"; L="lib.rs"; P="parser/mod.rs"; T="ast/mod.rs"; F="ast/flat.rs"; G="peg/mod.rs"; C="peg/gcode.rs"
NODE = "/// Information of a node\n#[derive(Debug, PartialEq)]\npub enum Node {"
POS = "/// Information about the possition on parsing\n#[derive(PartialEq, Clone, Debug)]\npub struct Possition {"
CHANGES = [
 dict(id="val-node-eq", edits=[(T, NODE, """impl PartialEq for Node {
    fn eq(&self, other: &Node) -> bool {
        match (self, other) {
            (Node::Val(a), Node::Val(b)) => a == b,
            (Node::Rule((na, va)), Node::Rule((nb, vb))) => va == vb && na == nb,
            (Node::EOF, Node::EOF) => true,
            _ => false,
        }
    }
}

/// Information of a node
#[derive(Debug)]
pub enum Node {""")]),
 dict(id="val-node-eq-if", edits=[(T, NODE, """impl PartialEq for Node {
    fn eq(&self, other: &Node) -> bool {
        if let (Node::Rule(a), Node::Rule(b)) = (self, other) {
            return *a == *b;
        }
        match self {
            Node::EOF => match other {
                Node::EOF => true,
                _ => false,
            },
            Node::Val(ref a) => {
                if let Node::Val(ref b) = *other {
                    !(a != b)
                } else {
                    false
                }
            }
            Node::Rule(_) => false,
        }
    }
}

/// Information of a node
#[derive(Debug)]
pub enum Node {""")]),
 dict(id="val-node-eq-zip", edits=[(T, NODE, """impl PartialEq for Node {
    fn eq(&self, other: &Node) -> bool {
        match (self, other) {
            (Node::Val(a), Node::Val(b)) => a == b,
            (Node::Rule((na, va)), Node::Rule((nb, vb))) => {
                na == nb && va.len() == vb.len() && va.iter().zip(vb).all(|(x, y)| x == y)
            }
            (Node::EOF, Node::EOF) => true,
            _ => false,
        }
    }
}

/// Information of a node
#[derive(Debug)]
pub enum Node {""")]),
 dict(id="val-flat-discr", edits=[(F, "/// Information of a node when ast has been flattened\n#[derive(Debug, PartialEq)]\npub enum Node {", """impl Node {
    fn text(&self) -> &str {
        match self {
            Node::Val(s) | Node::BeginRule(s) | Node::EndRule(s) => s,
            Node::EOF => "",
        }
    }
}

impl PartialEq for Node {
    fn eq(&self, other: &Self) -> bool {
        std::mem::discriminant(self) == std::mem::discriminant(other) && self.text() == other.text()
    }
}

/// Information of a node when ast has been flattened
#[derive(Debug)]
pub enum Node {""")]),
 dict(id="val-pos-tuple", edits=[(P, POS, """impl PartialEq for Possition {
    fn eq(&self, other: &Self) -> bool {
        (self.n, self.start_line, self.row, self.col) == (other.n, other.start_line, other.row, other.col)
    }
}

impl Clone for Possition {
    fn clone(&self) -> Self {
        let &Possition { n, row, col, start_line } = self;
        Possition { n, row, col, start_line }
    }
}

/// Information about the possition on parsing
#[derive(Debug)]
pub struct Possition {""")]),
 dict(id="val-err-clone", edits=[(P, "/// Context error information\n#[derive(Debug, Clone)]\npub struct Error {", """impl Clone for Error {
    fn clone(&self) -> Self {
        Error {
            priority: self.priority,
            pos: self.pos.clone(),
            descr: self.descr.to_owned(),
            line_before: self.line_before.to_string(),
            line_after: String::from(self.line_after.as_str()),
            parsing_rules: self.parsing_rules.iter().cloned().collect(),
        }
    }
}

/// Context error information
#[derive(Debug)]
pub struct Error {""")]),
 dict(id="val-err-eq", edits=[(T, "#[derive(Debug, PartialEq)]\npub struct Error(pub String, pub Option<String>);\n", """#[derive(Debug)]
pub struct Error(pub String, pub Option<String>);

impl PartialEq for Error {
    fn eq(&self, other: &Self) -> bool {
        let Error(da, ca) = self;
        let Error(db, cb) = other;
        match (ca, cb) {
            (None, None) => da == db,
            (Some(a), Some(b)) if da == db => a == b,
            _ => false,
        }
    }
}
""")]),
 dict(id="val-prio-ord", edits=[(P, "#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Eq, Ord)]\npub enum ErrPriority {", """impl PartialOrd for ErrPriority {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for ErrPriority {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        (*self as u8).cmp(&(*other as u8))
    }
}

/// Error priority
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ErrPriority {""")]),
 dict(id="top-one-init", edits=[(L, """    let (st, ast) = if debug {
        parser::expression::parse(parser::Status::init_debug(s, &rules, debug))?
    } else {
        parser::expression::parse(parser::Status::init(s, &rules))?
    };
""", """    let status = parser::Status::init_debug(s, rules, debug);
    let (st, ast) = parser::expression::parse(status)?;
"""), (P, """            trace_rules: false,
            walking_rules: vec![],
            rules,
            potential_error: None,
        }
    }

    pub(crate) fn init_debug(""", """            trace_rules: false,
            walking_rules: Vec::new(),
            rules,
            potential_error: None,
        }
    }

    pub(crate) fn init_debug(""")]),
 dict(id="top-init-delegates", edits=[(P, """        Status {
            text2parse: t2p,
            it_parsing: t2p.chars(),
            pos: Possition::init(),
            trace_rules: false,
            walking_rules: vec![],
            rules,
            potential_error: None,
        }
    }
""", """        Self::init_debug(t2p, rules, false)
    }
"""), (P, """        self.potential_error = Some(err);
        self
""", """        self.potential_error.replace(err);
        self
""")]),
 dict(id="top-debug-update", edits=[(P, """        Status {
            text2parse: t2p,
            it_parsing: t2p.chars(),
            pos: Possition::init(),
            trace_rules,
            walking_rules: vec![],
            rules,
            potential_error: None,
        }
""", """        Status {
            trace_rules,
            ..Self::init(t2p, rules)
        }
""")]),
 dict(id="ev-deep-err-max", edits=[(X, """        Some(e1) => match (e1.priority > e2.priority, e1.pos.n > e2.pos.n) {
            (true, _) => Some(e1),
            (false, true) => Some(e1),
            (false, false) => Some(e2),
        },
""", """        Some(e1) => {
            if e1.priority > e2.priority || e2.pos.n < e1.pos.n {
                Some(e1)
            } else {
                Some(e2)
            }
        }
""")]),
 dict(id="ev-match-question", edits=[(A, """    status
        .get_char()
        .and_then(|(st, ch)| {
            if match_char(ch) {
                ok!(st, ch.to_string())
            } else {
                Err(st)
            }
        })
        .map_err(|st| {
            Error::from_status_normal(
                &st,
                &format!("match. expected {} {:?}", match_rules.0, match_rules.1),
            )
        })
""", """    let failed = |st: Status<'a>| {
        Error::from_status_normal(
            &st,
            &format!("match. expected {} {:?}", match_rules.0, match_rules.1),
        )
    };
    match status.get_char() {
        Ok((st, ch)) if match_char(ch) => ok!(st, ch.to_string()),
        Ok((st, _)) | Err(st) => Err(failed(st)),
    }
""")]),
 dict(id="ev-get-if", edits=[(A, """                match ch {
                    '\\n' => {
                        self.pos.col = 0;
                        self.pos.row += 1;
                        self.pos.start_line = self.pos.n;
                    }
                    '\\r' => {
                        self.pos.col = 0;
                    }
                    _ => {
                        self.pos.col += 1;
                    }
                }
""", """                self.pos.col += 1;
                if ch == '\\n' || ch == '\\r' {
                    self.pos.col = 0;
                }
                if ch == '\\n' {
                    self.pos.row += 1;
                    self.pos.start_line = self.pos.n;
                }
""")]),
 dict(id="ev-rule-let-else", edits=[(X, """    let expression = rules.get(rule_name).ok_or_else(|| {
        Error::from_status(
            &status,
            &format!("Missing rule: {}", rule_name),
            ErrPriority::Critical,
        )
    })?;
    let (st, nodes) = parse_expr(status, &expression)?;
""", """    let (st, nodes) = match rules.get(rule_name) {
        None => {
            let descr = ["Missing rule: ", rule_name].concat();
            return Err(Error::from_status(&status, &descr, ErrPriority::Critical));
        }
        Some(expression) => parse_expr(status, expression)?,
    };
""")]),
 dict(id="ev-not-swap", edits=[(X, """    match parse_expr(status.clone(), expression) {
        Ok(_) => Err(Error::from_status_normal(&status, "not")),
        Err(e) if e.priority == ErrPriority::Critical => Err(e),
        Err(_) => Ok((status, vec![])),
    }
""", """    let failed = match parse_expr(status.clone(), expression) {
        Ok(_) => return Err(Error::from_status_normal(&status, "not")),
        Err(e) => e,
    };
    match failed.priority {
        ErrPriority::Normal => Ok((status, Vec::new())),
        ErrPriority::Critical => Err(failed),
    }
""")]),
 dict(id="prune-stack", edits=[(T, """        let prune_vn = |vnodes: &[Node]| {
            vnodes.iter().fold(vec![], |acc, n| {
                if !node2prune(n) {
                    acc.ipush(n.prune(nodes2prune))
                } else {
                    acc
                }
            })
        };
""", """        let prune_vn = |vnodes: &[Node]| {
            let mut pending: Vec<&Node> = vnodes.iter().rev().collect();
            let mut out = vec![];
            while let Some(n) = pending.pop() {
                if node2prune(n) {
                    continue;
                }
                out.push(n.prune(nodes2prune));
            }
            out
        };
""")]),
 dict(id="pass-stack", edits=[(T, """            vnodes.iter().fold(vec![], |acc, n| {
                if node2keep(n) {
                    acc.ipush(n.pass_through_except(nodes2keep))
                } else {
                    match n {
                        Node::Rule((_, new_nodes)) => acc.iappend(pthr_vn(new_nodes, nodes2keep)),
                        _ => acc.ipush(n.pass_through_except(nodes2keep)),
                    }
                }
            })
""", """            let mut pending: Vec<&Node> = vnodes.iter().rev().collect();
            let mut out = vec![];
            while let Some(n) = pending.pop() {
                match n {
                    Node::Rule((_, below)) if !node2keep(n) => pending.extend(below.iter().rev()),
                    _ => out.push(n.pass_through_except(nodes2keep)),
                }
            }
            out
""")]),
 dict(id="pass-bool-fn", edits=[(T, """            let nname2keep = |nname: &str| nodes2keep.iter().find(|n| *n == &nname);
            let node2keep = |node: &Node| match node {
                Node::Rule((nname, _)) => nname2keep(nname).is_some(),
                _ => true,
            };
            vnodes.iter().fold(vec![], |acc, n| {
                if node2keep(n) {
                    acc.ipush(n.pass_through_except(nodes2keep))
                } else {
                    match n {
                        Node::Rule((_, new_nodes)) => acc.iappend(pthr_vn(new_nodes, nodes2keep)),
                        _ => acc.ipush(n.pass_through_except(nodes2keep)),
                    }
                }
            })
""", """            let listed = |nname: &str| nodes2keep.iter().any(|n| *n == nname);
            let mut out = vec![];
            for n in vnodes {
                match n {
                    Node::Rule((nname, below)) if !listed(nname) => out.append(&mut pthr_vn(below, nodes2keep)),
                    keep => out.push(keep.pass_through_except(nodes2keep)),
                }
            }
            out
""")]),
 dict(id="flat-stack", edits=[(F, """        fn flatten_acc(acc: Vec<Node>, next: &ast::Node) -> Vec<Node> {
            match next {
                ast::Node::EOF => acc,
                ast::Node::Val(v) => acc.ipush(Node::Val(v.clone())),
                ast::Node::Rule((n, vn)) => {
                    let acc = acc.ipush(Node::BeginRule(n.to_string()));
                    let acc = vn.iter().fold(acc, |facc, n| flatten_acc(facc, n));
                    acc.ipush(Node::EndRule(n.to_string()))
                }
            }
        }

        flatten_acc(vec![], self)
""", """        let mut out = vec![];
        let mut pending = vec![Ok(self)];
        while let Some(next) = pending.pop() {
            match next {
                Err(name) => out = out.ipush(Node::EndRule(String::from(name))),
                Ok(ast::Node::EOF) => (),
                Ok(ast::Node::Val(v)) => out.push(Node::Val(v.clone())),
                Ok(ast::Node::Rule((n, vn))) => {
                    out.push(Node::BeginRule(n.to_string()));
                    pending.push(Err(n.as_str()));
                    pending.extend(vn.iter().rev().map(Ok));
                }
            }
        }
        out
""")]),
 dict(id="compact-fold-mut", edits=[(T, """            match (n, get_val(&nodes)) {
                (Node::EOF, _) => nodes.ipush(Node::EOF),
                (Node::Val(ref v), ref prev_v) => match concat_v(v, prev_v) {
                    Some(c) => {
                        let (_, nodes) = nodes.ipop();
                        nodes.ipush(Node::Val(c.clone()))
                    }
                    _ => nodes.ipush(Node::Val(v.clone())),
                },
""", """            match (n, get_val(&nodes)) {
                (Node::EOF, _) => nodes.ipush(Node::EOF),
                (Node::Val(ref v), ref prev_v) => match concat_v(v, prev_v) {
                    Some(c) => {
                        let mut nodes = nodes;
                        let at = nodes.len() - 1;
                        nodes[at] = Node::Val(c);
                        nodes
                    }
                    _ => nodes.ipush(Node::Val(v.clone())),
                },
""")]),
 dict(id="compact-peek", edits=[(T, """            nodes
                .iter()
                .fold(vec![], |acc: Vec<Node>, n| (concat_nodes(acc, n)))
""", """            let mut acc: Vec<Node> = Vec::with_capacity(nodes.len());
            let mut it = nodes.iter();
            while let Some(n) = it.next() {
                acc = concat_nodes(acc, n);
            }
            acc
""")]),
 dict(id="gen-concat", edits=[(C, """    "rep!(".to_owned()
        + &expr2code(&rep.expression)
        + ", "
        + &rep.min.0.to_string()
        + &match rep.max {
            Some(ref m) => format!(", {}", m.0),
            None => "".to_owned(),
        }
        + ")"
""", """    let mut args = vec![expr2code(&rep.expression), rep.min.to_string()];
    args.extend(rep.max.iter().map(|m| m.to_string()));
    ["rep!(", &args.join(", "), ")"].concat()
""")]),
]
