CHANGES = [
    dict(id="gen-trim", edits=[("peg/gcode.rs", "0 => expr2code(expr).to_string(),", "0 => expr2code(expr).trim().to_string(),")]),
]
