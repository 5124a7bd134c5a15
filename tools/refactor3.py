A="parser/atom/mod.rs"; X="parser/expression/mod.rs"; L="lib.rs"; P="parser/mod.rs"; T="ast/mod.rs"; F="ast/flat.rs"
CHANGES=[
dict(id="use-slice-pat", edits=[(T,"""    let (node, nodes) = split_first_nodes(nodes)?;
    match node {
        Node::Val(v) => Ok((&v, nodes)),
        _ => Err(error("expected Val node", None)),
    }""","""    match nodes {
        [] => Err(error("trying get first element from nodes on empty slice", None)),
        [Node::Val(v), rest @ ..] => Ok((v.as_str(), rest)),
        _ => Err(error("expected Val node", None)),
    }""")]),
dict(id="use-first", edits=[(T,"""    if nodes.is_empty() {
        Err(error("exptected node on peek_first_node", None))
    } else {
        Ok(&nodes[0])
    }""","""    nodes
        .first()
        .ok_or_else(|| error("exptected node on peek_first_node", None))"""),
 (F,"""    if nodes.is_empty() {
        Err(error("exptected node on peek_first_node", None))
    } else {
        Ok(&nodes[0])
    }""","""    match nodes.get(0) {
        Some(n) => Ok(n),
        None => Err(error("exptected node on peek_first_node", None)),
    }""")]),
dict(id="use-name-helper", edits=[(F,"""        _ => Err(error(&format!("expected begin rule for {}", name), None)),
    }?;
    if node_name == name {
        Ok(nodes)
    } else {
        Err(error(
            &format!("expected {} node, received {}", name, node_name),
            None,
        ))
    }
}
""","""        _ => Err(error(&format!("expected begin rule for {}", name), None)),
    }?;
    check_name(name, node_name).map(|_| nodes)
}

fn check_name(name: &str, got: &str) -> Result<(), Error> {
    if got != name {
        return Err(error(
            &format!("expected {} node, received {}", name, got),
            None,
        ));
    }
    Ok(())
}
"""),(F,"""        _ => Err(error(&format!("expected end rule for {}", name), None)),
    }?;
    if node_name == name {
        Ok(nodes)
    } else {
        Err(error(
            &format!("expected {} node, received {}", name, node_name),
            None,
        ))
    }
}
""","""        _ => Err(error(&format!("expected end rule for {}", name), None)),
    }?;
    check_name(name, node_name).map(|_| nodes)
}
"""),]),
dict(id="use-iflet", edits=[(T,"""    match node {
        Node::Rule((nname, nodes)) => Ok((nname, nodes)),
        _ => Err(error("expected node::Rule", None)),
    }""","""    if let Node::Rule((nname, nodes)) = node {
        return Ok((nname.as_str(), nodes.as_slice()));
    }
    Err(error("expected node::Rule", None))"""),(T,"""    match (nodes.first(), nodes.len()) {
        (Some(n), 1) => get_node_val(n),
        _ => Err(error("expected only one value in nodes", None)),
    }""","""    if nodes.len() != 1 {
        return Err(error("expected only one value in nodes", None));
    }
    get_node_val(&nodes[0])""")]),
dict(id="use-and-then", edits=[(T,"""    let (node, nodes) = split_first_nodes(nodes)?;

    let nv = get_node_val(node)?;
    if nv == v {
        Ok(nodes)
    } else {
        Err(error(
            "trying get first element from nodes on empty slice",
            None,
        ))
    }""","""    let wrong = || {
        error(
            "trying get first element from nodes on empty slice",
            None,
        )
    };
    split_first_nodes(nodes).and_then(|(node, rest)| {
        get_node_val(node).and_then(|got| if got != v { Err(wrong()) } else { Ok(rest) })
    })""")]),
dict(id="use-guard-arms", edits=[(T,"""        Node::Rule((n, sub_nodes)) => {
            if n == name {
                Ok((nodes, sub_nodes))
            } else {
                Err(error(
                    &format!("expected {} node, received {}", name, n),
                    None,
                ))
            }
        }""","""        Node::Rule((n, sub_nodes)) if n == name => Ok((nodes, sub_nodes)),
        Node::Rule((n, _)) => Err(error(
            &format!("expected {} node, received {}", name, n),
            None,
        )),""")]),
dict(id="use-split-index", edits=[(T,"""    nodes
        .split_first()
        .ok_or_else(|| error("trying get first element from nodes on empty slice", None))""","""    if nodes.is_empty() {
        return Err(error("trying get first element from nodes on empty slice", None));
    }
    Ok((&nodes[0], &nodes[1..]))"""),(T,"""    if nodes.is_empty() {
        Ok(())
    } else {
        Err(error("not consumed full nodes", None))
    }""","""    match nodes.first() {
        None => Ok(()),
        Some(_) => Err(error("not consumed full nodes", None)),
    }""")]),
dict(id="use-nodename-or", edits=[(F,"""        Node::BeginRule(nname) => Ok(nname),
        Node::EndRule(nname) => Ok(nname),
        _ => Err(error("expected node::Rule", None)),""","""        Node::BeginRule(nname) | Node::EndRule(nname) => Ok(nname),
        Node::Val(_) | Node::EOF => Err(error("expected node::Rule", None)),"""),(F,"""    let node_name = match node {
        Node::BeginRule(n) => Ok(n),
        _ => Err(error(&format!("expected begin rule for {}", name), None)),
    }?;""","""    let node_name = if let Node::BeginRule(n) = node {
        n
    } else {
        return Err(error(&format!("expected begin rule for {}", name), None));
    };""")]),
]
