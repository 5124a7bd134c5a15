"""property -> how it is checked"""
REF = "Refinement by abstract interpretation: every path of the function's MIR (loops closed by inferred relations, calls inlined, recursive calls taken as the specified function) against a specification machine, term by term; "
CHECKS = {}


def add(pid, module, fn, technique, rule, level="proof", note="", assumptions=()):
    CHECKS[pid] = dict(module=module, fn=fn, technique=technique, rule=rule, level=level, note=note, assumptions=list(assumptions))


T = "symbolic transition system of the MIR by abstract interpretation, refinement against a specification machine"
IND = "recursive calls of the evaluator satisfy the same specification (induction on the depth of the evaluation)"
add("C01", "evalrules", "c01", T, REF + "parse and parse_debug return Ok only on paths where the remaining input is empty, and the specified error otherwise", assumptions=[IND])
add("C02", "evalrules", "c02", T, REF + "outcomes of Or", assumptions=[IND])
add("C03", "evalrules", "c03", T, REF + "outcomes of And", assumptions=[IND])
add("C04", "evalrules", "c04", T, REF + "outcomes of Repeat", assumptions=[IND])
add("C05", "evalrules", "c05", T, REF + "status and nodes after Not, after failed alternatives and after a failed repetition", assumptions=[IND])
add("C06", "evalrules", "c06", T, REF + "paths on which a critical error arises or arrives, and the priority of every error constructed", assumptions=[IND])
add("C07", "evalrules", "c07", T, REF + "outcomes of Literal, Dot, Match and EOF", assumptions=[IND])
add("C08", "evalrules", "c08", T, REF + "position in the resulting status as a function of the characters taken", assumptions=[IND])
add("C09", "evalrules", "c09", T, REF + "nodes of every successful outcome", assumptions=[IND])
add("C10", "evalrules", "c10", T, REF + "every error returned or kept: position, rules, priority, choice between errors; the texts of the lines before, at and after the position against a definition over line breaks", assumptions=[IND])
add("C27", "astrules", "c27", T, REF + "each public helper over node lists returns exactly the specified parts under exactly the specified conditions")
add("C28", "valuerules", "c28", "symbolic transition systems of every function that compares or copies a public value, each return held against the parts enumerated from its type", "No return of an equality can say yes while a part differs or no while all parts are the same; no clone differs from its original in any part; kinds are ordered as declared", assumptions=["elements of lists are compared by the equality of their own type (induction on the size of values)"])
add("C15", "maprules", "c15", T, REF + "lookup of rules by name; maps returned by new, add and merge probed with an arbitrary name", assumptions=[IND])
TT = "symbolic transition systems of all functions of the recursion, each refined against the equation of the transformation its signature stands for"
TA = "induction on the height of the tree: recursive calls satisfy the equations"
add("C23", "treerules", "c23", TT, REF + "every node is kept, processed, or dropped exactly as the equations of pruning say; where the induction does not go through, trees of given shapes are followed with symbolic names and texts and a path that differs needs satisfying names and texts", assumptions=[TA])
add("C24", "treerules", "c24", TT, REF + "every node is kept, processed, or replaced by its processed children exactly as the equations of passing through say; where the induction does not go through, trees of given shapes are followed with symbolic names and texts and a path that differs needs satisfying names and texts", assumptions=[TA])
add("C25", "treerules", "c25", TT, REF + "values are joined and other nodes kept exactly as the equations of compacting say; where the induction does not go through, trees of given shapes are followed with symbolic names and texts and a path that differs needs satisfying names and texts", assumptions=[TA])
add("C26", "treerules", "c26", TT, REF + "the list of nodes is exactly the in-order walk the equations of flattening define; where the induction does not go through, trees of given shapes are followed with symbolic names and texts and a path that differs needs satisfying names and texts", assumptions=[TA])
add("C14", "effects", "c14", "interprocedural taint analysis of data and control flow over the MIR; auto traits and fields of every public type", "No result of a public function (other than code generation and Debug) is reached, through data or control, by global mutable state, clock, environment, randomness, an address or the order of a hash map; every public type is Send and Sync, without interior mutability and without borrows", note="Flow-insensitive over the MIR of everything reachable from the public functions. Assumes calls into the standard library have the effects of their names (sources are listed), and that the order of a hash map does not show in maps, sets and numbers made from it.")
add("C16", "grammar", "c16", "constant evaluation of the rules out of the MIR by abstract interpretation, compared with the textual grammar read by an independent reader", "The set of rules that reaches the parse of grammar texts and the grammar text that reaches the generator are read off the MIR as terms; rule by rule the normal forms are equal, and every reference resolves")
add("C13", "evalrules", "c13", "symbolic transition systems of the MIR with the trace flag specialised to on and off, each refined against the other (noninterference by self-composition)", REF + "the evaluator with tracing against the evaluator without, parse_debug against parse: same results but for the recorded rules; with tracing off every recorded list is empty", assumptions=[IND])
TC = "symbolic transition systems of the generator with the texts it writes as terms, refined against the macro call each kind of expression has; what the macros build is read off the MIR of a witness crate that uses every form"
add("C21", "coderules", "c21", TC, REF + "every kind of expression is written as the macro call that builds it, with its operands in order, every rule as one entry; every macro form builds exactly that expression", assumptions=["the code of a subexpression is what the specification says (induction on the height of the expression)"])
add("C22", "coderules", "c22", TC, REF + "every text is written as the Rust literal Debug writes for it, and every macro call written is one of the forms the macros have", assumptions=["Debug writes a str, and a list of pairs of char, as a Rust expression for it"])
TV = "abstract interpretation of the converter: its transition systems run along the automata of the grammar's node streams, one function and grammar rule at a time, loops and recursion closed by induction"
IV = "a function called on the nodes of a whole rule behaves as verified for that rule (induction on the number of nodes)"
RV = "The built-in grammar is read off the MIR and turned into automata of the streams of nodes it can produce; each converting function is run symbolically along every stream of each rule it is called for; "
LV = "Proved for streams of any length where the induction goes through (the count of pairs explored up to a bound in the evidence is then 0); a pair where it does not is explored up to the bound named in the evidence. An alarm needs a concrete grammar text found from the accused path."
add("C17", "conv", "c17", TV, RV + "no path fails or panics, and every function consumes exactly the nodes of its rule", assumptions=[IV], note=LV)
add("C18", "conv", "c18", TV, RV + "the expression or rules returned are the meaning of the nodes, defined independently per rule", assumptions=[IV], note=LV)
add("C19", "conv", "c19", TV, RV + "the text a literal yields is the decoding of its nodes", assumptions=[IV], note=LV)
add("C20", "errrules", "c20", "symbolic transition systems of the conversion, with the failure of each stage followed along every path; what Display and ipush make of every kind of error",
    "On every path of rules_from_peg and of every converting function on which a stage failed, the result is an error that has the error of that stage inside; rules are returned only for the text given, when it parses, when its nodes convert, and when none are left over; ipush, From and Display keep every description and every cause of a chain of any length",
    assumptions=["Display and Debug of causes show them as a whole (induction on the length of the chain)"],
    note="A converting function that ignores an error of another is reported only when that other one is known to fail on nodes of some grammar text; otherwise nothing could be observed.")
add("C11", "panics", "c11", "symbolic transition systems of every public function; each path that ends in a panic refuted from its conditions and from inductive relations between the texts at loop heads",
    "Every path that ends in a panic (index, slice, character boundary, arithmetic, unwrap, assertion) is impossible: its conditions contradict each other, the relations 'is an end of' that hold at its loop, the nodes the grammar can produce, or the acceptance of a grammar that is part of the program",
    assumptions=["statuses handed to the evaluator keep the text and go on in it (shown for every call and return: induction on the depth of the evaluation)", "trees fit in memory, so that sums of lengths do not overflow"],
    note="Stack exhaustion by deep recursion is not a panic and not covered. An alarm needs inputs, found by evaluating the conditions of a path from a public function.")
add("C12", "ending", "c12", "ranking functions for every loop and size-change termination for every recursion, on the symbolic transition systems of every public function; recurrent sets as counterexamples",
    "Every way back to the start of a loop, and every call that may come back to its function, gets smaller in a measure that cannot get smaller for ever: a length, a distance, a part of a value, the text that is left",
    assumptions=["the evaluator counts the characters it takes and goes on in an end of its text (C08, and shown here for every call: induction on the depth of the evaluation)", "a rule that reaches itself without consuming (left recursion) is excluded, as recorded"],
    note="Depth of the stack is not bounded. Library functions are taken to return. An alarm needs conditions under which a loop or call meets itself unchanged, and inputs that lead there from a public function.")
NOT_APPLICABLE = {}
NOTE = (
    "Holds for all inputs, rule sets and list lengths on every path of the analysed MIR. Trusts rustc's MIR, the abstract "
    "interpreter and its models of the standard library, and the specification in rules/. What it cannot decide it reports as "
    "UNDECIDED instead of raising an alarm."
)
