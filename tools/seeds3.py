A="parser/atom/mod.rs"; X="parser/expression/mod.rs"; L="lib.rs"; P="parser/mod.rs"; T="ast/mod.rs"; F="ast/flat.rs"; G="peg/mod.rs"
V="fn v(s: &str) -> ast::Node { ast::Node::Val(s.to_string()) }\nfn r(s: &str, n: Vec<ast::Node>) -> ast::Node { ast::Node::Rule((s.to_string(), n)) }\n"
SEEDS=[
dict(id="c14-missing-hint", property="C14", edits=[(X,"""            &format!("Missing rule: {}", rule_name),""","""            &match status
                .rules
                .0
                .keys()
                .filter(|k| k.eq_ignore_ascii_case(rule_name) && k.as_str() != rule_name)
                .next()
            {
                Some(similar) => format!("Missing rule: {} (there is {})", rule_name, similar),
                None => format!("Missing rule: {}", rule_name),
            },""")],
 needs="a reference to a missing rule when two rules differ from its name only by case", breaks="the error text depends on the iteration order of the hash map, which is different in every run",
 demo="""fn main() {
    let mut seen = std::collections::HashSet::new();
    for _ in 0..64 {
        let rules = rules! { "main" => ref_rule!("expr"), "Expr" => lit!("a"), "EXPR" => lit!("b"), "eXpr" => lit!("c") };
        seen.insert(parse("a", &rules).unwrap_err().descr);
    }
    assert_eq!(seen.len(), 1);
}
"""),
dict(id="c14-static-depth", property="C14", edits=[(X,"""    let rules = &status.rules.0;
    let expression""","""    use std::sync::atomic::{AtomicUsize, Ordering};
    static CALLS: AtomicUsize = AtomicUsize::new(0);
    // guard against rules that never end
    if CALLS.fetch_add(1, Ordering::Relaxed) > 100_000 {
        return Err(Error::from_status(
            &status,
            "too many rules applied",
            ErrPriority::Critical,
        ));
    }

    let rules = &status.rules.0;
    let expression""")],
 needs="more than a hundred thousand rule applications in one process, over any number of parses", breaks="the same text parses at first and fails later",
 demo="""fn main() {
    let rules = rules! { "main" => rep!(ref_rule!("a"), 0), "a" => lit!("a") };
    for _ in 0..60000 {
        assert!(parse("aa", &rules).is_ok());
    }
}
"""),
dict(id="c14-memo-class", property="C14", edits=[(A,"""    let match_char = |ch: char| -> bool {
        if match_rules.0.find(ch).is_some() {
            true
        } else {
            for &(b, t) in &match_rules.1 {""","""    thread_local! {
        // chars and ranges of the last match, most texts use one again and again
        static LAST: std::cell::RefCell<(usize, String, Vec<(char, char)>)> =
            std::cell::RefCell::new((0, String::new(), vec![]));
    }
    let id = match_rules as *const MatchRules as usize;
    let (chars, ranges) = LAST.with(|last| {
        let mut last = last.borrow_mut();
        if last.0 != id {
            *last = (id, match_rules.0.clone(), match_rules.1.clone());
        }
        (last.1.clone(), last.2.clone())
    });
    let match_char = |ch: char| -> bool {
        if chars.find(ch).is_some() {
            true
        } else {
            for &(b, t) in &ranges {""")],
 needs="rules parsed with, dropped, and other rules built in the same memory", breaks="the character list of the former rules decides",
 demo="""fn set(c: &str) -> parser::expression::SetOfRules {
    rules! { "main" => rep!(ematch!(chlist c, from 'x', to 'z'), 1) }
}
fn main() {
    for _ in 0..50 {
        let a = set("a");
        assert!(parse("aaaa", &a).is_ok());
        drop(a);
        let b = set("b");
        assert!(parse("bbbb", &b).is_ok());
        drop(b);
    }
}
"""),
dict(id="c16-hex-range", property="C16", edits=[("peg/rules.rs","""from 'A', to 'F' ), ematch!(chlist r#""#  , from '0', to '9' , from 'A', to 'F' ))""","""from 'A', to 'F' ), ematch!(chlist r#""#  , from '0', to '9' , from 'A', to 'E' ))""")],
 needs="a hexadecimal escape whose second digit is F", breaks="the built in grammar is not the one of the text: \\0x4F is taken verbatim",
 demo="""fn main() {
    let rules = rules_from_peg("main = \\"\\\\0x4F\\"\\n").unwrap();
    assert!(parse("O", &rules).is_ok());
}
"""),
dict(id="c16-text-range", property="C16", edits=[("peg/peg2code.rs","    symbol          =   [_a-zA-Z0-9] [_'\"a-zA-Z0-9]*","    symbol          =   [_a-zA-Z] [_'\"a-zA-Z0-9]*")],
 needs="regenerating the rules from the text, and a rule name that starts with a digit", breaks="the text no longer describes the rules in use",
 demo="""fn main() {
    let src = std::fs::read_to_string("src/peg/peg2code.rs").unwrap();
    let i = src.find("r#\\"").unwrap() + 3;
    let text = &src[i..i + src[i..].find("\\"#").unwrap()];
    let rules = rules_from_peg(text).unwrap();
    // what the library takes for a grammar is a grammar for the rules of its own text
    for g in &["main = 'a'\\n", "main = 3a\\n\\n3a = 'a'\\n", "main = [a-z]+ / .\\n"] {
        assert!(rules_from_peg(g).is_ok());
        assert!(parse(g, &rules).is_ok(), "{}", g);
    }
}
"""),
]
