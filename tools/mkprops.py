#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code only to keep the text reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)
LIB='src/lib.rs'; PM='src/parser/mod.rs'; AT='src/parser/atom/mod.rs'; EX='src/parser/expression/mod.rs'
AST='src/ast/mod.rs'; FL='src/ast/flat.rs'; PG='src/peg/mod.rs'; RU='src/peg/rules.rs'; P2='src/peg/peg2code.rs'; GC='src/peg/gcode.rs'
ST=[('Status','position, pending text, rules, potential error and rule trace carried through a parse', PM)]

p('C01','A parse succeeds only when the whole input was consumed',
  'Parsing a text with a set of rules succeeds only if the main rule matched and no character of the text is left over, whatever characters the text has. When text is left over the result is an error: the error of the repetition that stopped last, or otherwise one placed where the parse stopped.',
  ['inputs','programs'],'every rule set and every text, multi byte characters included',
  'Tests parse a few ASCII texts; the claim is about every text and every rule set, and the end test mixes char and byte measures easily.',
  [LIB],[('parse / parse_debug / parse_with_debug','src/lib.rs')],ST,['dynparser::parse','dynparser::parse_debug'])
p('C02','Ordered choice takes the first alternative that matches',
  'An or tries its alternatives in the order written, each from the same starting point, and its result is exactly the result of the first one that matches; later alternatives are not tried. If none matches the or fails.',
  ['inputs','programs'],'every list of alternatives, nested to any depth, and every text',
  'Unit tests use two or three literals; order, prefix overlap and restart position only show for particular grammars and texts.',
  [EX],[('or evaluation','src/parser/expression/mod.rs')],ST)
p('C03','A sequence matches all its parts in order, threading the input',
  'An and matches exactly when all its parts match one after the other, each starting where the former ended, and yields their nodes concatenated in that order. It fails with the error of the first part that fails, and an empty and matches nothing successfully.',
  ['inputs','programs'],'every list of parts of any length and every text',
  'The tests have sequences of two or three literals; the claim is for every length and content.',
  [EX],[('and evaluation','src/parser/expression/mod.rs')],ST)
p('C04','Repetitions are greedy and respect their bounds',
  'A repetition with bounds min and max matches its expression as many times as it can, never more than max, and fails with the error of the expression when fewer than min matches are possible. The nodes of the repetitions are kept in order and none is lost or duplicated.',
  ['inputs','programs'],'every min, every max (also 0 or none), every expression and text',
  'Tests fix a handful of bounds; the off by one cases are spread over all relations of counter, min and max.',
  [EX],[('repeat evaluation','src/parser/expression/mod.rs'),('rep! macro','src/lib.rs')],ST)
p('C05','Lookahead and failed attempts consume nothing',
  'A negative lookahead succeeds exactly when its expression does not match, and then consumes no input and yields no nodes. An alternative or repetition attempt that fails leaves position, pending text and collected nodes as they were before the attempt.',
  ['inputs','programs'],'every expression under not, or and repeat, and every text',
  'A failing attempt that leaks consumed input is visible only if the rest of the grammar depends on it.',
  [EX],[('not / or / repeat evaluation','src/parser/expression/mod.rs')],ST)
p('C06','Critical errors are never swallowed',
  'When an error expression is reached, or a rule is missing, the whole parse fails with that critical error unchanged: no choice, repetition, lookahead or sequence around it turns it into success, hides it with another error or keeps trying. Only these two situations produce critical errors.',
  ['inputs','programs'],'every nesting of expressions around an error or a missing rule',
  'The tests put error() in one or; the claim is about every combinator at every depth.',
  [EX,AT,PM],[('priority tests in or, repeat and not','src/parser/expression/mod.rs'),('error atom','src/parser/atom/mod.rs')],ST)
p('C07','Terminals accept exactly their characters',
  'A literal matches exactly its own characters in order; a dot matches any one character; a character match accepts exactly one character that is in its list or inside one of its inclusive ranges; end of input matches only when nothing is left. A terminal that does not match is a normal error.',
  ['inputs','programs'],'every literal, list, set of ranges and text, over all of Unicode',
  'Tests sample a few ASCII characters and never the boundary of every range.',
  [AT],[('atom parsing','src/parser/atom/mod.rs')],ST)
p('C08','Reported positions follow the consumed characters',
  'The position (char index, row, column, start of line) at any point of a parse is a function of the characters consumed so far: each one advances the index by one, a newline starts a new row at column 0 and records the start of the line, a carriage return only resets the column, any other character advances the column. Nothing else changes it.',
  ['inputs','programs'],'every text and every way of consuming it',
  'Tests check the position after a few short texts; a missed update needs a particular newline or rule path.',
  [AT,PM],[('single character consumer','src/parser/atom/mod.rs')],ST)
p('C09','The AST is faithful to the consumed text',
  'On success the tree has a rule node named as the rule for each rule applied on the successful path, nested and ordered as applied, and its value leaves concatenated left to right are exactly the consumed text; end of input yields its own node kind. Lookaheads and failed attempts leave no nodes.',
  ['inputs','programs'],'every rule set and text that parses',
  'Tests compare whole trees for a few inputs; loss, duplication or reordering of nodes depends on the shape of the rules.',
  [EX,AT],[('node construction','src/parser/expression/mod.rs')],ST)
p('C10','Errors report the right place, text and rules',
  'A parse error carries the position where it arose, the text of its line before and after that position, its description, the trace of rules and its priority. A choice that fails reports the alternative error that got furthest in the input, and the last repetition error is kept as explanation for input left over.',
  ['inputs','programs'],'every failing parse, with any line structure and characters',
  'Tests look at the description of a few errors; line extraction and the choice between errors depend on arbitrary positions.',
  [PM,EX,LIB],[('error construction','src/parser/mod.rs'),('deepest error selection','src/parser/expression/mod.rs')],ST)
p('C11','No input makes the library panic',
  'No text, rule set, grammar text, AST or generated flat AST makes a public function of the library panic through an index, slice, arithmetic underflow or explicit panic. (Stack exhaustion by deep recursion is not part of this.)',
  ['inputs','programs'],'every argument of every public function',
  'A panic needs the one input nobody tried, as multi byte characters showed.',
  [LIB,PM,AT,EX,AST,FL,PG,GC],[('total functions returning Result','src/**')])
p('C12','Parsing terminates: every loop and self call makes progress',
  'Every iteration of a repetition without upper bound consumes input or ends the repetition, and every other loop or direct recursion of the library works through a finite list, tree or text that gets smaller each time. Recursion through a rule that reaches itself without consuming (left recursion) is excluded: it is a recorded limitation.',
  ['inputs','programs'],'every grammar without left recursion and every text',
  'A test cannot show that something ends for all inputs; repetition of a nullable expression hung.',
  [EX,AT,AST,FL,PG,GC],[('repeat evaluation','src/parser/expression/mod.rs'),('list recursions','src/peg/mod.rs')])
p('C13','Debug tracing changes nothing but the trace',
  'Parsing with tracing enabled gives the same success or failure, the same tree and the same error (but for its list of rules) as parsing without it. With tracing disabled the list of rules stays empty.',
  ['inputs','programs'],'every rule set and text',
  'No test compares both modes; the influence could be anywhere the flag is visible.',
  [LIB,PM,EX],[('trace_rules flag and push_rule','src/parser/mod.rs')],ST)
p('C14','Parsing is a pure function of rules and text',
  'The result of a parse, of building rules from a grammar and of transforming a tree depends only on the arguments: no global or interior mutable state, clock, environment, randomness or iteration order of a hash map reaches the result. Rules and trees are only read, are shared between threads safely, and a returned tree borrows nothing.',
  ['inputs','programs','schedules','histories'],'every call sequence, any number of threads sharing one rule set',
  'Tests run each call once in one thread; hidden state or a lost Send or Sync bound appears only under other histories or uses.',
  [LIB,PM,EX,AT,AST,FL,PG],[('shared references and owned results','src/**')])
p('C15','Rules are found by exact name, added and merged predictably',
  'A parse starts at the rule called main, a rule reference uses exactly the rule of that name, and a missing name is a critical error naming it. Adding a rule replaces an earlier one of the same name and keeps all others; merging keeps every rule of both sets, the receiving set winning on equal names.',
  ['inputs','programs'],'every set of rules and names',
  'Tests add or merge one rule with a fresh name.',
  [EX,LIB],[('SetOfRules','src/parser/expression/mod.rs'),('rules! macro','src/lib.rs')])
p('C16','The built in grammar is the documented PEG grammar',
  'The rules used to parse grammar texts are, rule by rule, what the textual PEG grammar of the library describes, and every rule they refer to exists. Regenerating them from the text would change nothing.',
  ['programs'],'every rule and sub expression of the bootstrap grammar',
  'No test compares the generated table with its source text; a divergence shows only on grammar texts using the diverging construct.',
  [RU,P2],[('parse_peg','src/peg/rules.rs'),('text_peg2code','src/peg/peg2code.rs')])
p('C17','Every grammar the PEG grammar accepts is converted',
  'A grammar text accepted by the PEG grammar is always converted to rules: each node sequence the grammar can produce for a rule is accepted, and consumed completely, by the code that converts that rule. No valid construct, in any combination, is rejected after parsing.',
  ['inputs','programs'],'every derivation of every rule of the PEG grammar',
  'Combinations such as an error followed by more expressions or an empty literal had no test and were rejected.',
  [PG,RU,FL],[('consume_* functions','src/peg/mod.rs')])
p('C18','PEG operators mean what they say',
  'In a converted grammar, * is zero or more, + one or more, ? at most one, ! a negative lookahead, / an ordered choice and juxtaposition a sequence of exactly the operands written, in order; . is any character, [..] the characters and ranges listed, a name a reference to that rule and error(..) a critical error with that text. A single operand stays itself.',
  ['programs'],'every grammar text, operands in any number and nesting',
  'Tests convert a few grammars; swapped bounds, lost or reordered operands need longer lists or particular operators.',
  [PG],[('consume_* functions','src/peg/mod.rs')])
p('C19','Literals in grammars decode to the characters written',
  'A double quoted literal decodes \\r \\n \\t \\\\ \\" and \\0xHH to the characters they name and keeps every other character; a single quoted literal keeps every character verbatim. Escape tables of grammar and converter agree.',
  ['programs'],'every literal content',
  'Tests use few escapes; a wrong entry affects only texts using it (single quotes doubled backslashes).',
  [PG,RU],[('consume_literal_*, consume_esc_char, consume_hex_char','src/peg/mod.rs')])
p('C20','Grammar errors are reported, never ignored',
  'A grammar text that does not parse, or a tree that does not convert completely, yields an error and no rules; an error of an inner stage always reaches the caller with its cause kept inside. Its text shows the whole chain of descriptions.',
  ['inputs','fault_sequences'],'every failing stage of the conversion',
  'Inner stages never fail in the tests, so dropping their errors would go unnoticed.',
  [PG],[('? propagation, push_err!, Error::ipush, Display','src/peg/mod.rs')])
p('C21','Generated code rebuilds the same rules',
  'The Rust code generated for a set of rules has one entry per rule, and the macro written for each expression kind constructs that kind with the same operands, order and bounds. The macros build exactly the expression their name says.',
  ['programs'],'every set of rules of any shape',
  'No test compiles generated code.',
  [GC,LIB],[('rust_from_rules and *2code','src/peg/gcode.rs'),('exported macros','src/lib.rs')])
p('C22','Generated code is well formed for every text in it',
  'Every name, literal, error text, character list and range bound is written in generated code as a Rust literal that denotes exactly that text, whatever characters it has. Every macro form written exists.',
  ['inputs','programs'],'every string and character in a set of rules',
  'Quotes, backslashes and control characters in each position are not tested.',
  [GC,LIB],[('formatting of texts','src/peg/gcode.rs')])
p('C23','Prune removes exactly the named rule nodes',
  'Pruning a tree removes every rule node below the root whose name is listed, with all below it, and nothing else: every other node stays, in order, with its name and text, at any depth.',
  ['inputs'],'every tree and list of names',
  'One three node tree is tested.',
  [AST],[('Node::prune','src/ast/mod.rs')])
p('C24','Pass-through keeps listed nodes and lifts the rest',
  'Pass-through replaces every rule node below the root whose name is not listed by its processed children, in place and in order; listed rule nodes, values and end of file nodes stay. No value is lost and order is kept at any depth.',
  ['inputs'],'every tree and list of names',
  'One chain of nodes is tested.',
  [AST],[('Node::pass_through_except','src/ast/mod.rs')])
p('C25','Compact joins exactly the adjacent values',
  'Compacting joins each maximal run of consecutive value nodes of a rule into one value holding their texts in order, and keeps rule and end of file nodes where they are, which separate runs. It applies at every depth and loses no text.',
  ['inputs'],'every tree',
  'One list of three values is tested.',
  [AST],[('Node::compact','src/ast/mod.rs')])
p('C26','Flatten is the in-order walk of the tree',
  'Flattening lists the nodes in document order: for a rule a begin mark with its name, its children flattened in order and an end mark with the same name; a value is itself, and an end of file node adds nothing. Begin and end marks are balanced.',
  ['inputs'],'every tree',
  'One small tree is tested.',
  [FL],[('Node::flatten','src/ast/flat.rs')])
p('C27','AST consumers check what they consume and return the rest',
  'Each helper that consumes a node succeeds exactly when the first node has the demanded kind, name or value, returns exactly the following nodes (and the content asked for), and otherwise, also on an empty list, returns an error. Tree and flat versions of a helper agree.',
  ['inputs'],'every node list and name',
  'Tests mostly cover the success case.',
  [AST,FL],[('consume_*, peek_first_node, split_first_nodes, get_*','src/ast/mod.rs, src/ast/flat.rs')])
p('C28','Trees, positions and errors compare and copy by their whole content',
  'Two trees, flat nodes, positions or tree errors are equal exactly when they are of the same kind and every part of them (name, text, nodes in order, each number) is the same; a copy of a position or error equals the original in every part; error priorities are ordered as declared, Critical above Normal.',
  ['inputs'],'every pair of values of the public types that can be compared or copied',
  'Tests compare values that are equal or differ in one obvious place; the claim is about every pair, and a comparison that leaves a part out makes those very tests blind.',
  [AST,FL,PM],[('PartialEq, Clone, PartialOrd and Ord of the public types','src/ast/mod.rs, src/ast/flat.rs, src/parser/mod.rs')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + '\n')
