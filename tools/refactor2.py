X="parser/expression/mod.rs"; M="ast/mod.rs"; F="ast/flat.rs"
MERGE="        SetOfRules(rules2merge.0.into_iter().chain(self.0).collect())"
ADD="""        self.0.insert(name.to_owned(), expr);
        self
"""
CHANGES=[
dict(id="map-merge-loop", edits=[(X,MERGE,"""        let mut all = self.0;
        for (name, expr) in rules2merge.0 {
            all.entry(name).or_insert(expr);
        }
        SetOfRules(all)""")]),
dict(id="map-merge-contains", edits=[(X,MERGE,"""        let mut all = self;
        for (name, expr) in rules2merge.0 {
            if !all.0.contains_key(&name) {
                all.0.insert(name, expr);
            }
        }
        all""")]),
dict(id="map-merge-extend", edits=[(X,MERGE,"""        let mut all = rules2merge.0;
        all.extend(self.0);
        SetOfRules(all)""")]),
dict(id="map-merge-add", edits=[(X,MERGE,"""        self.0
            .into_iter()
            .fold(rules2merge, |rules, (name, expr)| rules.add(&name, expr))""")]),
dict(id="map-add-new", edits=[(X,ADD,"""        let name = name.to_string();
        if self.0.contains_key(&name) {
            self.0.remove(&name);
        }
        self.0.insert(name, expr);
        Self::new(self.0)
""")]),
]
PRUNE='''        let nname2prune = |nname: &str| nodes2prune.iter().find(|n| *n == &nname);
        let node2prune = |node: &Node| match node {
            Node::Rule((nname, _)) => nname2prune(nname).is_some(),
            _ => false,
        };
        let prune_vn = |vnodes: &[Node]| {
            vnodes.iter().fold(vec![], |acc, n| {
                if !node2prune(n) {
                    acc.ipush(n.prune(nodes2prune))
                } else {
                    acc
                }
            })
        };
        match self {
            Node::EOF => Node::EOF,
            Node::Val(v) => Node::Val(v.clone()),
            Node::Rule((n, vn)) => Node::Rule((n.clone(), prune_vn(vn))),
        }
'''
PASS='''        fn pthr_vn(vnodes: &[Node], nodes2keep: &[&str]) -> Vec<Node> {
            let nname2keep = |nname: &str| nodes2keep.iter().find(|n| *n == &nname);
            let node2keep = |node: &Node| match node {
                Node::Rule((nname, _)) => nname2keep(nname).is_some(),
                _ => true,
            };
            vnodes.iter().fold(vec![], |acc, n| {
                if node2keep(n) {
                    acc.ipush(n.pass_through_except(nodes2keep))
                } else {
                    match n {
                        Node::Rule((_, new_nodes)) => acc.iappend(pthr_vn(new_nodes, nodes2keep)),
                        _ => acc.ipush(n.pass_through_except(nodes2keep)),
                    }
                }
            })
        };
        match self {
            Node::EOF => Node::EOF,
            Node::Val(v) => Node::Val(v.clone()),
            Node::Rule((n, vn)) => Node::Rule((n.clone(), pthr_vn(vn, nodes2keep))),
        }
'''
COMPACT='''        fn concat_nodes(nodes: Vec<Node>, n: &Node) -> Vec<Node> {
            let get_val = |nodes: &Vec<Node>| match nodes.last() {
                Some(Node::Val(ref v)) => Some(v.to_string()),
                _ => None,
            };
            let concat_v = |v: &String, prev_v: &Option<String>| match (v, prev_v) {
                (v, Some(pv)) => Some(format!("{}{}", pv, v)),
                _ => None,
            };

            match (n, get_val(&nodes)) {
                (Node::EOF, _) => nodes.ipush(Node::EOF),
                (Node::Val(ref v), ref prev_v) => match concat_v(v, prev_v) {
                    Some(c) => {
                        let (_, nodes) = nodes.ipop();
                        nodes.ipush(Node::Val(c.clone()))
                    }
                    _ => nodes.ipush(Node::Val(v.clone())),
                },
                (Node::Rule((ref n, ref vn)), _) => {
                    nodes.ipush(Node::Rule((n.clone(), compact_nodes(vn))))
                }
            }
        };
        fn compact_nodes(nodes: &[Node]) -> Vec<Node> {
            nodes
                .iter()
                .fold(vec![], |acc: Vec<Node>, n| (concat_nodes(acc, n)))
        };
        match self {
            Node::EOF => Node::EOF,
            Node::Val(v) => Node::Val(v.clone()),
            Node::Rule((n, vn)) => Node::Rule((n.clone(), compact_nodes(vn))),
        }
'''
FLAT='''        fn flatten_acc(acc: Vec<Node>, next: &ast::Node) -> Vec<Node> {
            match next {
                ast::Node::EOF => acc,
                ast::Node::Val(v) => acc.ipush(Node::Val(v.clone())),
                ast::Node::Rule((n, vn)) => {
                    let acc = acc.ipush(Node::BeginRule(n.to_string()));
                    let acc = vn.iter().fold(acc, |facc, n| flatten_acc(facc, n));
                    acc.ipush(Node::EndRule(n.to_string()))
                }
            }
        }

        flatten_acc(vec![], self)
'''
CHANGES += [
dict(id="prune-filter", edits=[(M,PRUNE,'''        let is_pruned = |node: &Node| match node {
            Node::Rule((name, _)) => nodes2prune.iter().any(|n| n == name),
            _ => false,
        };
        match self {
            Node::Rule((name, children)) => {
                let kept = children
                    .iter()
                    .filter(|c| !is_pruned(c))
                    .map(|c| c.prune(nodes2prune))
                    .collect();
                Node::Rule((name.clone(), kept))
            }
            Node::Val(v) => Node::Val(v.clone()),
            Node::EOF => Node::EOF,
        }
''')]),
dict(id="prune-for", edits=[(M,PRUNE,'''        let (name, children) = match self {
            Node::EOF => return Node::EOF,
            Node::Val(v) => return Node::Val(v.to_string()),
            Node::Rule((name, children)) => (name, children),
        };
        let mut kept = Vec::with_capacity(children.len());
        for child in children {
            if let Node::Rule((child_name, _)) = child {
                if nodes2prune.contains(&child_name.as_str()) {
                    continue;
                }
            }
            kept.push(child.prune(nodes2prune));
        }
        Node::Rule((name.clone(), kept))
''')]),
dict(id="prune-option", edits=[(M,PRUNE,'''        fn keep(node: &Node, names: &[&str]) -> Option<Node> {
            match node {
                Node::Rule((name, _)) if names.contains(&name.as_str()) => None,
                Node::Rule((name, vn)) => Some(Node::Rule((
                    name.clone(),
                    vn.iter().filter_map(|n| keep(n, names)).collect(),
                ))),
                Node::Val(v) => Some(Node::Val(v.clone())),
                Node::EOF => Some(Node::EOF),
            }
        }
        match self {
            Node::Rule((name, vn)) => Node::Rule((
                name.clone(),
                vn.iter().filter_map(|n| keep(n, nodes2prune)).collect(),
            )),
            Node::Val(v) => Node::Val(v.clone()),
            Node::EOF => Node::EOF,
        }
''')]),
dict(id="prune-helper-list", edits=[(M,PRUNE,'''        fn prune_nodes(nodes: &[Node], names: &[&str]) -> Vec<Node> {
            let mut res = vec![];
            for n in nodes {
                match n {
                    Node::Rule((name, vn)) => {
                        if !names.iter().any(|x| x == name) {
                            res.push(Node::Rule((name.clone(), prune_nodes(vn, names))));
                        }
                    }
                    Node::Val(v) => res.push(Node::Val(v.clone())),
                    Node::EOF => res.push(Node::EOF),
                }
            }
            res
        }
        match self {
            Node::EOF => Node::EOF,
            Node::Val(v) => Node::Val(v.clone()),
            Node::Rule((n, vn)) => Node::Rule((n.clone(), prune_nodes(vn, nodes2prune))),
        }
''')]),
dict(id="pass-for-mut", edits=[(M,PASS,'''        fn collect(res: &mut Vec<Node>, nodes: &[Node], names: &[&str]) {
            for n in nodes {
                match n {
                    Node::Rule((name, sub)) if !names.contains(&name.as_str()) => {
                        collect(res, sub, names)
                    }
                    _ => res.push(n.pass_through_except(names)),
                }
            }
        }
        match self {
            Node::EOF => Node::EOF,
            Node::Val(v) => Node::Val(v.clone()),
            Node::Rule((n, vn)) => {
                let mut res = vec![];
                collect(&mut res, vn, nodes2keep);
                Node::Rule((n.clone(), res))
            }
        }
''')]),
dict(id="pass-children", edits=[(M,PASS,'''        fn children(node: &Node, names: &[&str]) -> Vec<Node> {
            let mut res = vec![];
            if let Node::Rule((_, vn)) = node {
                for n in vn {
                    match n {
                        Node::Rule((name, _)) => {
                            let mut below = children(n, names);
                            if names.iter().any(|x| x == name) {
                                res.push(Node::Rule((name.clone(), below)));
                            } else {
                                res.append(&mut below);
                            }
                        }
                        Node::Val(v) => res.push(Node::Val(v.clone())),
                        Node::EOF => res.push(Node::EOF),
                    }
                }
            }
            res
        }
        match self {
            Node::EOF => Node::EOF,
            Node::Val(v) => Node::Val(v.clone()),
            Node::Rule((n, _)) => Node::Rule((n.clone(), children(self, nodes2keep))),
        }
''')]),
dict(id="pass-flat-map", edits=[(M,PASS,'''        fn lift(node: &Node, names: &[&str]) -> Vec<Node> {
            match node {
                Node::Rule((name, vn)) => {
                    let below: Vec<Node> = vn.iter().flat_map(|n| lift(n, names)).collect();
                    if names.iter().any(|n| n == name) {
                        vec![Node::Rule((name.clone(), below))]
                    } else {
                        below
                    }
                }
                _ => vec![node.pass_through_except(names)],
            }
        }
        match self {
            Node::EOF => Node::EOF,
            Node::Val(v) => Node::Val(v.clone()),
            Node::Rule((n, vn)) => Node::Rule((
                n.clone(),
                vn.iter().flat_map(|x| lift(x, nodes2keep)).collect(),
            )),
        }
''')]),
dict(id="pass-position", edits=[(M,'''            let nname2keep = |nname: &str| nodes2keep.iter().find(|n| *n == &nname);
            let node2keep = |node: &Node| match node {
                Node::Rule((nname, _)) => nname2keep(nname).is_some(),
                _ => true,
            };
            vnodes.iter().fold(vec![], |acc, n| {
                if node2keep(n) {
                    acc.ipush(n.pass_through_except(nodes2keep))
                } else {
                    match n {
                        Node::Rule((_, new_nodes)) => acc.iappend(pthr_vn(new_nodes, nodes2keep)),
                        _ => acc.ipush(n.pass_through_except(nodes2keep)),
                    }
                }
            })
''','''            let mut acc = vec![];
            for n in vnodes.iter() {
                let lifted = match n {
                    Node::Rule((name, sub)) if nodes2keep.iter().position(|k| *k == name).is_none() => {
                        Some(sub)
                    }
                    _ => None,
                };
                match lifted {
                    Some(sub) => acc.extend(pthr_vn(sub, nodes2keep)),
                    None => acc.push(n.pass_through_except(nodes2keep)),
                }
            }
            acc
''')]),
dict(id="compact-for-last-mut", edits=[(M,COMPACT,'''        fn compact_nodes(nodes: &[Node]) -> Vec<Node> {
            let mut res: Vec<Node> = vec![];
            for n in nodes {
                match n {
                    Node::EOF => res.push(Node::EOF),
                    Node::Rule((name, vn)) => {
                        res.push(Node::Rule((name.clone(), compact_nodes(vn))))
                    }
                    Node::Val(v) => {
                        if let Some(Node::Val(last)) = res.last_mut() {
                            last.push_str(v);
                        } else {
                            res.push(Node::Val(v.clone()));
                        }
                    }
                }
            }
            res
        }
        match self {
            Node::EOF => Node::EOF,
            Node::Val(v) => Node::Val(v.clone()),
            Node::Rule((n, vn)) => Node::Rule((n.clone(), compact_nodes(vn))),
        }
''')]),
dict(id="compact-pending", edits=[(M,COMPACT,'''        fn flush(res: &mut Vec<Node>, pending: &mut Option<String>) {
            if let Some(v) = pending.take() {
                res.push(Node::Val(v));
            }
        }
        match self {
            Node::EOF => Node::EOF,
            Node::Val(v) => Node::Val(v.clone()),
            Node::Rule((name, vn)) => {
                let mut res = vec![];
                let mut pending: Option<String> = None;
                for n in vn {
                    match n {
                        Node::Val(v) => {
                            pending = Some(match pending {
                                Some(p) => p + v,
                                None => v.clone(),
                            })
                        }
                        _ => {
                            flush(&mut res, &mut pending);
                            res.push(n.compact());
                        }
                    }
                }
                flush(&mut res, &mut pending);
                Node::Rule((name.clone(), res))
            }
        }
''')]),
dict(id="compact-pop", edits=[(M,'''            let get_val = |nodes: &Vec<Node>| match nodes.last() {
                Some(Node::Val(ref v)) => Some(v.to_string()),
                _ => None,
            };
            let concat_v = |v: &String, prev_v: &Option<String>| match (v, prev_v) {
                (v, Some(pv)) => Some(format!("{}{}", pv, v)),
                _ => None,
            };

            match (n, get_val(&nodes)) {
                (Node::EOF, _) => nodes.ipush(Node::EOF),
                (Node::Val(ref v), ref prev_v) => match concat_v(v, prev_v) {
                    Some(c) => {
                        let (_, nodes) = nodes.ipop();
                        nodes.ipush(Node::Val(c.clone()))
                    }
                    _ => nodes.ipush(Node::Val(v.clone())),
                },
                (Node::Rule((ref n, ref vn)), _) => {
                    nodes.ipush(Node::Rule((n.clone(), compact_nodes(vn))))
                }
            }
''','''            let mut nodes = nodes;
            match n {
                Node::EOF => nodes.push(Node::EOF),
                Node::Val(v) => match nodes.pop() {
                    Some(Node::Val(prev)) => nodes.push(Node::Val(prev + v)),
                    Some(other) => {
                        nodes.push(other);
                        nodes.push(Node::Val(v.clone()));
                    }
                    None => nodes.push(Node::Val(v.clone())),
                },
                Node::Rule((name, sub)) => {
                    nodes.push(Node::Rule((name.clone(), compact_nodes(sub))))
                }
            };
            nodes
''')]),
dict(id="compact-runs", edits=[(M,COMPACT,'''        match self {
            Node::EOF => Node::EOF,
            Node::Val(v) => Node::Val(v.clone()),
            Node::Rule((name, vn)) => {
                let mut res = Vec::new();
                let mut i = 0;
                while i < vn.len() {
                    if let Node::Val(first) = &vn[i] {
                        let mut text = first.clone();
                        i += 1;
                        while i < vn.len() {
                            if let Node::Val(more) = &vn[i] {
                                text.push_str(more);
                                i += 1;
                            } else {
                                break;
                            }
                        }
                        res.push(Node::Val(text));
                    } else {
                        res.push(vn[i].compact());
                        i += 1;
                    }
                }
                Node::Rule((name.clone(), res))
            }
        }
''')]),
dict(id="flat-mut", edits=[(F,FLAT,'''        fn push_nodes(res: &mut Vec<Node>, node: &ast::Node) {
            match node {
                ast::Node::Val(v) => res.push(Node::Val(v.clone())),
                ast::Node::Rule((name, children)) => {
                    res.push(Node::BeginRule(name.clone()));
                    for c in children {
                        push_nodes(res, c);
                    }
                    res.push(Node::EndRule(name.clone()));
                }
                ast::Node::EOF => {}
            }
        }
        let mut res = vec![];
        push_nodes(&mut res, self);
        res
''')]),
dict(id="flat-self-rec", edits=[(F,FLAT,'''        match self {
            ast::Node::EOF => vec![],
            ast::Node::Val(v) => vec![Node::Val(v.clone())],
            ast::Node::Rule((name, children)) => {
                let mut res = vec![Node::BeginRule(name.clone())];
                for child in children {
                    res.extend(child.flatten());
                }
                res.push(Node::EndRule(name.clone()));
                res
            }
        }
''')]),
dict(id="flat-flat-map", edits=[(F,FLAT,'''        match self {
            ast::Node::EOF => vec![],
            ast::Node::Val(v) => vec![Node::Val(v.clone())],
            ast::Node::Rule((name, children)) => std::iter::once(Node::BeginRule(name.clone()))
                .chain(children.iter().flat_map(|c| c.flatten()))
                .chain(std::iter::once(Node::EndRule(name.clone())))
                .collect(),
        }
''')]),
dict(id="flat-list-helper", edits=[(F,FLAT,'''        fn walk(nodes: &[ast::Node], res: &mut Vec<Node>) {
            for n in nodes {
                match n {
                    ast::Node::Val(v) => res.push(Node::Val(v.to_string())),
                    ast::Node::Rule((name, below)) => {
                        res.push(Node::BeginRule(name.to_string()));
                        walk(below, res);
                        res.push(Node::EndRule(name.to_string()));
                    }
                    ast::Node::EOF => (),
                }
            }
        }
        let mut res = vec![];
        walk(std::slice::from_ref(self), &mut res);
        res
''')]),
]
