A="parser/atom/mod.rs"; X="parser/expression/mod.rs"; L="lib.rs"; P="parser/mod.rs"; T="ast/mod.rs"; F="ast/flat.rs"; G="peg/mod.rs"; C="peg/gcode.rs"
SEEDS=[
dict(id="c17-signed-hex", property="C17", edits=[(G,"""    use std::u8;

    consuming_rule("hex_char\"""","""    consuming_rule("hex_char\""""),(G,"""        let ch = match u8::from_str_radix(val, 16) {
            Ok(v) => Ok(v as char),""","""        let ch = match i8::from_str_radix(val, 16) {
            Ok(v) => Ok(v as u8 as char),""")],
 needs="a hexadecimal escape above 7F in a grammar", breaks="a valid grammar is rejected",
 demo="""fn main() {
    for h in &["00", "41", "7F", "80", "E9", "FF"] {
        let g = format!("main = \\"\\\\0x{}\\"\\n", h);
        let rules = peg::rules_from_peg(&g).unwrap_or_else(|_| panic!("{}", g));
        let c = (u8::from_str_radix(h, 16).unwrap() as char).to_string();
        assert!(parse(&c, &rules).is_ok());
    }
}
"""),
dict(id="c17-nested-module", property="C17", edits=[(G,"""            Some(_mod_path) => {
                self.inside_mods.pop();
                Ok(self)
            }
            None =>""","""            Some(ref mod_path) if mod_path == mod_name => {
                self.inside_mods.pop();
                Ok(self)
            }
            _ =>""")],
 needs="a module inside a module", breaks="a valid grammar is rejected after parsing",
 demo="""fn main() {
    assert!(peg::rules_from_peg("main = 'a'\\nm {\\n  x = 'b'\\n}\\n").is_ok());
    assert!(peg::rules_from_peg("main = 'a'\\nm {\\n  n {\\n    x = 'b'\\n  }\\n}\\n").is_ok());
}
"""),
dict(id="c17-backward-range", property="C17", edits=[(G,"""        let (to, _) = idata::consume_char(chars).ok_or_else(|| error_peg_s("expected to char"))?;
""","""        let (to, _) = idata::consume_char(chars)
            .filter(|(to, _)| *to > from)
            .ok_or_else(|| error_peg_s("expected to char"))?;
""")],
 needs="a range of one character, [a-a], or a backward one", breaks="a valid grammar is rejected",
 demo="""fn main() {
    assert!(peg::rules_from_peg("main = [a-c]\\n").is_ok());
    let rules = peg::rules_from_peg("main = [a-a]\\n").expect("range of one");
    assert!(parse("a", &rules).is_ok());
    assert!(parse("b", &rules).is_err());
}
"""),
dict(id="c18-collapse-rep", property="C18", edits=[(G,"""        match rsymbol {
            "+" => Ok(rep!(expr, 1)),
            "*" => Ok(rep!(expr, 0)),
            "?" => Ok(rep!(expr, 0, 1)),
""","""        match (rsymbol, &expr) {
            // already repeated
            ("+", Expression::Repeat(_)) | ("?", Expression::Repeat(_)) => Ok(expr),
            ("+", _) => Ok(rep!(expr, 1)),
            ("*", _) => Ok(rep!(expr, 0)),
            ("?", _) => Ok(rep!(expr, 0, 1)),
"""),(G,"""            unknown => Err(error_peg_s(&format!(
                "repetition symbol unknown {}",
                unknown
            ))),""","""            (unknown, _) => Err(error_peg_s(&format!(
                "repetition symbol unknown {}",
                unknown
            ))),""")],
 needs="a parenthesised repetition that is itself optional, (x+)?", breaks="(x+)? does not accept nothing",
 demo="""fn main() {
    let ok = |g: &str, t: &str| parse(t, &peg::rules_from_peg(&format!("{}\\n", g)).expect(g)).is_ok();
    assert!(ok("main = 'a' 'b'+", "abb"));
    assert!(ok("main = 'a' ('b'+)?", "abb"));
    assert!(ok("main = 'a' ('b'+)?", "a"));
}
"""),
dict(id="c18-double-not", property="C18", edits=[(G,"""            Ok((not!(expr), nodes, context))
""","""            let expr = match expr {
                // not of a not
                Expression::Not(e) => *e,
                expr => not!(expr),
            };
            Ok((expr, nodes, context))
""")],
 needs="a negation of a parenthesised negation, used as a positive lookahead", breaks="!(!x) consumes x",
 demo="""fn main() {
    let ok = |g: &str, t: &str| parse(t, &peg::rules_from_peg(&format!("{}\\n", g)).expect(g)).is_ok();
    assert!(ok("main = !'b' .", "a"));
    assert!(!ok("main = !'b' .", "b"));
    assert!(ok("main = !(!'a') .", "a"));
}
"""),
dict(id="c18-merge-ranges", property="C18", edits=[(G,"""                    rec_consume_mbetween(acc.ipush((from, to)), nodes, context)
""","""                    // nothing new when inside the previous range
                    let known = acc.last().map_or(false, |r| r.0 <= from && from <= r.1);
                    let acc = if known { acc } else { acc.ipush((from, to)) };
                    rec_consume_mbetween(acc, nodes, context)
""")],
 needs="two ranges that overlap, the second reaching further", breaks="the second range is lost",
 demo="""fn main() {
    let ok = |g: &str, t: &str| parse(t, &peg::rules_from_peg(&format!("{}\\n", g)).expect(g)).is_ok();
    assert!(ok("main = [a-fA-F0-9]+", "aF9"));
    assert!(ok("main = [a-fc-h]+", "ach"));
}
"""),
dict(id="c18-dotted-root", property="C18", edits=[(G,"""        let str_result = format!("{}{}{}", start_dot, symbol, dot_symbol);
""","""        let str_result = match dot_symbol.as_ref() {
            "" => format!("{}{}", start_dot, symbol),
            path => format!("{}{}", symbol, path),
        };
""")],
 needs="a rule name with a leading dot and more than one part", breaks="the name loses its leading dot",
 demo="""fn main() {
    let ok = |g: &str, t: &str| parse(t, &peg::rules_from_peg(&format!("{}\\n", g)).expect(g)).is_ok();
    assert!(ok("main = .x\\n.x = 'a'\\n", "a"));
    assert!(ok("main = x.y\\nx.y = 'a'\\n", "a"));
    assert!(ok("main = .x.y x.y\\n.x.y = 'a'\\nx.y = 'b'\\n", "ab"));
}
"""),
dict(id="c18-long-list", property="C18", edits=[(G,"""            ExprOrVecExpr::VExpr(v) => ExprOrVecExpr::VExpr(v.ipush(expr)),
""","""            // keep lists short
            ExprOrVecExpr::VExpr(v) if v.len() >= 6 => {
                ExprOrVecExpr::VExpr(vec![Expression::And(expression::MultiExpr(v)), expr])
            }
            ExprOrVecExpr::VExpr(v) => ExprOrVecExpr::VExpr(v.ipush(expr)),
""")],
 needs="a choice of more than six alternatives", breaks="the first six alternatives become a sequence",
 demo="""fn main() {
    let ok = |g: &str, t: &str| parse(t, &peg::rules_from_peg(&format!("{}\\n", g)).expect(g)).is_ok();
    assert!(ok("main = 'a' 'b' 'c' 'd' 'e' 'f' 'g' 'h'", "abcdefgh"));
    assert!(ok("main = 'a' / 'b' / 'c' / 'd' / 'e' / 'f'", "b"));
    for t in &["a", "b", "c", "d", "e", "f", "g", "h"] {
        assert!(ok("main = 'a' / 'b' / 'c' / 'd' / 'e' / 'f' / 'g' / 'h'", t));
    }
}
"""),
dict(id="c19-hex-lossy", property="C19", edits=[(G,"""            Ok(v) => Ok(v as char),
            _ => Err(error_peg_s(&format!("error parsing hex {}", &val[2..]))),
        }?;
""","""            Ok(v) => Ok(String::from_utf8_lossy(&[v]).into_owned()),
            _ => Err(error_peg_s(&format!("error parsing hex {}", &val[2..]))),
        }?;
""")],
 needs="a hexadecimal escape above 7F", breaks="the character becomes U+FFFD",
 demo="""fn main() {
    for h in 0..256 {
        let g = format!("main = \\"\\\\0x{:02X}\\"\\n", h);
        let c = (h as u8 as char).to_string();
        assert!(parse(&c, &peg::rules_from_peg(&g).expect(&g)).is_ok(), "{}", g);
    }
}
"""),
dict(id="c19-twice-decoded", property="C19", edits=[(G,"""                rec_consume_lit_esc_ch(s + &v.to_string(), nodes, context)
""","""                // a backslash that is already there was escaped
                let s = if v == "\\\\" && s.ends_with(&v) { s } else { s + &v };
                rec_consume_lit_esc_ch(s, nodes, context)
""")],
 needs="two escaped backslashes in a row", breaks="one of two backslashes is lost",
 demo="""fn main() {
    let lit = |t: &str, x: &str| parse(x, &peg::rules_from_peg(&format!("main = \\"{}\\"\\n", t)).expect(t)).is_ok();
    assert!(lit(r"a\\\\b", r"a\\b"));
    assert!(lit(r"a\\\\b\\\\c", r"a\\b\\c"));
    assert!(lit(r"a\\\\\\\\b", r"a\\\\b"));
}
"""),
]
