"""Refactorings of how errors get the texts of their line (see mkrefactor.py)."""
P = "parser/mod.rs"
OLDB = """            line_before: parsed.rsplit('\\n').next().unwrap_or("").to_string(),
"""
OLDA = """            line_after: status
                .it_parsing
                .clone()
                .take_while(|&ch| ch != '\\n' && ch != '\\r')
                .collect(),
"""
CHANGES = [
    dict(id="line-before-rfind", edits=[(P, OLDB, """            line_before: match parsed.rfind('\\n') {
                Some(at) => parsed[at + 1..].to_string(),
                None => parsed.to_string(),
            },
""")]),
    dict(id="line-before-map-or", edits=[(P, OLDB, """            line_before: parsed[parsed.rfind('\\n').map_or(0, |at| at + 1)..].to_owned(),
""")]),
    dict(id="line-before-last", edits=[(P, OLDB, """            line_before: parsed.split('\\n').last().unwrap_or_default().to_string(),
""")]),
    dict(id="line-before-rev", edits=[(P, OLDB, """            line_before: {
                let back: Vec<char> = parsed.chars().rev().take_while(|&ch| ch != '\\n').collect();
                back.into_iter().rev().collect()
            },
""")]),
    dict(id="line-before-scan", edits=[(P, OLDB, """            line_before: {
                let mut line = String::new();
                for ch in parsed.chars() {
                    if ch == '\\n' {
                        line.clear();
                    } else {
                        line.push(ch);
                    }
                }
                line
            },
""")]),
    dict(id="line-before-rsplitn", edits=[(P, OLDB, """            line_before: parsed.rsplitn(2, '\\n').next().unwrap_or("").to_string(),
""")]),
    dict(id="line-before-once", edits=[(P, OLDB, """            line_before: parsed.rsplit_once('\\n').map_or(parsed, |(_, last)| last).to_string(),
""")]),
    dict(id="line-after-loop", edits=[(P, OLDA, """            line_after: {
                let mut line = String::new();
                for ch in status.it_parsing.clone() {
                    if matches!(ch, '\\n' | '\\r') {
                        break;
                    }
                    line.push(ch);
                }
                line
            },
""")]),
    dict(id="line-after-find", edits=[(P, OLDA, """            line_after: {
                let end = pending.find(|ch| ch == '\\n' || ch == '\\r').unwrap_or(pending.len());
                pending[..end].to_string()
            },
""")]),
    dict(id="line-after-split", edits=[(P, OLDA, """            line_after: pending
                .split(|ch| ch == '\\n' || ch == '\\r')
                .next()
                .unwrap_or("")
                .to_string(),
""")]),
    dict(id="line-after-array", edits=[(P, OLDA, """            line_after: pending.split(['\\n', '\\r']).next().unwrap_or("").to_string(),
""")]),
    dict(id="line-after-indices", edits=[(P, OLDA, """            line_after: {
                let mut end = pending.len();
                for (at, ch) in pending.char_indices() {
                    if ch == '\\n' || ch == '\\r' {
                        end = at;
                        break;
                    }
                }
                pending[..end].to_string()
            },
""")]),
    dict(id="line-after-while", edits=[(P, OLDA, """            line_after: {
                let mut line = String::with_capacity(pending.len());
                let mut chars = status.it_parsing.clone();
                let mut left = chars.clone().count();
                while left > 0 {
                    match chars.next() {
                        Some('\\n') | Some('\\r') | None => break,
                        Some(ch) => line.push(ch),
                    }
                    left -= 1;
                }
                line
            },
""")]),
    dict(id="line-helpers", edits=[(P, OLDB, """            line_before: last_line(parsed).to_string(),
"""), (P, OLDA, """            line_after: rest_of_line(status.it_parsing.clone()),
"""), (P, """impl Error {
    pub(crate) fn from_status(""", """fn last_line(text: &str) -> &str {
    text.rsplit('\\n').next().unwrap_or("")
}

fn ends_line(ch: char) -> bool {
    ch == '\\n' || ch == '\\r'
}

fn rest_of_line(chars: std::str::Chars) -> String {
    chars.take_while(|ch| !ends_line(*ch)).collect()
}

impl Error {
    pub(crate) fn from_status(""")]),
]
