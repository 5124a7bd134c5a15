A="parser/atom/mod.rs"; X="parser/expression/mod.rs"; L="lib.rs"; P="parser/mod.rs"; T="ast/mod.rs"; F="ast/flat.rs"; G="peg/mod.rs"
CHANGES=[
dict(id="eff-lazy-peg", edits=[(G,"    let ast = parse(peg, &rules::parse_peg())?;","    static RULES: std::sync::OnceLock<expression::SetOfRules> = std::sync::OnceLock::new();\n    let ast = parse(peg, RULES.get_or_init(rules::parse_peg))?;")]),
dict(id="eff-timing", edits=[(X,"    let (st, nodes) = parse_expr(status, &expression)?;\n","    let start = std::time::Instant::now();\n    let verbose = std::env::var_os(\"DYNPARSER_TIMES\").is_some();\n    let (st, nodes) = parse_expr(status, &expression)?;\n    if verbose {\n        eprintln!(\"{}: {:?}\", rule_name, start.elapsed());\n    }\n")]),
dict(id="eff-counter", edits=[(X,"    let rules = &status.rules.0;\n    let expression","    static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n    let rules = &status.rules.0;\n    let expression")]),
dict(id="eff-merge-loop", edits=[(X,"        SetOfRules(rules2merge.0.into_iter().chain(self.0).collect())","        let mut all = rules2merge.0;\n        for (name, expr) in self.0 {\n            all.insert(name, expr);\n        }\n        SetOfRules(all)")]),
dict(id="eff-merge-fold", edits=[(X,"        SetOfRules(rules2merge.0.into_iter().chain(self.0).collect())","        self.0.into_iter().fold(rules2merge, |acc, (name, expr)| acc.add(&name, expr))")]),
dict(id="eff-static-table", edits=[(G,"""        let val = match val {
            r#"\\r"# => Ok("\\r"),
            r#"\\n"# => Ok("\\n"),
            r#"\\t"# => Ok("\\t"),
            r#"\\\\"# => Ok(r#"\\"#),
            r#"\\""# => Ok(r#"\""#),
            _ => Err(error_peg_s(&format!("unknow esc char: {}", val))),
        }?;""","""        static TABLE: [(&str, &str); 5] = [
            ("\\\\r", "\\r"),
            ("\\\\n", "\\n"),
            ("\\\\t", "\\t"),
            ("\\\\\\\\", "\\\\"),
            ("\\\\\\"", "\\""),
        ];
        let val = TABLE
            .iter()
            .find(|(esc, _)| *esc == val)
            .map(|(_, ch)| *ch)
            .ok_or_else(|| error_peg_s(&format!("unknow esc char: {}", val)))?;""")]),
]
