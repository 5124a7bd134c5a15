A="parser/atom/mod.rs"; X="parser/expression/mod.rs"; L="lib.rs"; P="parser/mod.rs"; T="ast/mod.rs"; F="ast/flat.rs"; G="peg/mod.rs"; C="peg/gcode.rs"
SEEDS=[
dict(id="c21-max-zero", property="C21", edits=[(X,"""            max: max.map(NRep),""","""            // repeating at most zero times makes no sense: there is no limit then
            max: max.filter(|m| *m > 0).map(NRep),""")],
 needs="a repetition of at most zero times", breaks="rep!(e, 0, 0) builds a repetition without upper bound",
 demo="""fn main() {
    let rules = rules! { "main" => and!(rep!(lit!("a"), 0, 0), lit!("b")) };
    assert!(parse("b", &rules).is_ok());
    assert!(parse("ab", &rules).is_err());
}
"""),
dict(id="c21-rep-exact", property="C21", edits=[(C,"""            Some(ref m) => format!(", {}", m.0),
            None => "".to_owned(),""","""            Some(ref m) if m.0 > rep.min.0 || m.0 <= 1 => format!(", {}", m.0),
            _ => "".to_owned(),""")],
 needs="code generated for a repetition of exactly n times, n at least two", breaks="the generated rule has no upper bound",
 demo="""fn main() {
    let code = |e| peg::gcode::rust_from_rules(&rules! { "main" => e });
    assert!(code(rep!(lit!("a"), 0, 1)).contains("0, 1)"));
    assert!(code(rep!(lit!("a"), 1, 1)).contains("1, 1)"));
    assert!(code(rep!(lit!("a"), 2, 3)).contains("2, 3)"));
    assert!(code(rep!(lit!("a"), 2, 2)).contains("2, 2)"));
}
"""),
dict(id="c21-dup-branch", property="C21", edits=[(C,"""            0 => expr2code(expr).to_string(),
            _ => format!("{}, {}", acc, expr2code(expr)),""","""            0 => expr2code(expr).to_string(),
            // the same alternative again can never match
            _ if acc.ends_with(&expr2code(expr)) => acc,
            _ => format!("{}, {}", acc, expr2code(expr)),""")],
 needs="code generated for a sequence with the same part twice in a row", breaks="one of the two parts is missing in the generated code",
 demo="""fn main() {
    let code = |e| peg::gcode::rust_from_rules(&rules! { "main" => e });
    assert_eq!(code(and!(dot!(), lit!("a"))).matches("dot!()").count(), 1);
    assert_eq!(code(and!(lit!("a"), dot!(), dot!())).matches("dot!()").count(), 2);
}
"""),
dict(id="c22-wrap-lines", property="C22", edits=[(C,"""        add_rule(acc, &rule2code(name, expr))
""","""        // one part per line when a rule is long
        let code = rule2code(name, expr);
        let code = if code.len() > 120 {
            code.replace(", ", ",\\n            ")
        } else {
            code
        };
        add_rule(acc, &code)
""")],
 needs="a rule whose code is longer than 120 characters and has a literal with a comma and a space", breaks="the literal has a line break and spaces in it",
 demo="""fn main() {
    let long = "some text, and more of it ".repeat(8);
    let code = peg::gcode::rust_from_rules(&rules! { "main" => lit!(long) });
    assert!(code.contains(&long));
}
"""),
dict(id="c22-error-quotes", property="C22", edits=[(C,"""fn expr2code(expr: &Expression) -> String {
    match expr {
        Expression::Simple(atom) => atom2code(atom),""","""fn expr2code(expr: &Expression) -> String {
    match expr {
        // messages usually have quoted symbols in them, easier to read raw
        Expression::Simple(Atom::Error(s)) if s.contains('"') => {
            format!("error!(r#\\"{}\\"#)", s)
        }
        Expression::Simple(atom) => atom2code(atom),""")],
 needs="an error text with a quote followed by a number sign", breaks="the raw literal ends in the middle of the text",
 demo="""fn main() {
    let code = |s: &str| peg::gcode::rust_from_rules(&rules! { "main" => error!(s) });
    assert!(code("plain").contains("plain"));
    // what is between error!( and ) has to be one literal
    let c = code("expected \\"#\\" here");
    let lit = &c[c.find("error!(").unwrap() + 7..c.rfind(')').unwrap()];
    if lit.starts_with("r#\\"") {
        assert_eq!(lit.find("\\"#").map(|p| p + 2), Some(lit.len()));
    } else {
        assert!(lit.starts_with('"'));
    }
}
"""),
]
