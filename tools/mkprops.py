#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
T="peg-macros/translate.rs"; A="peg-macros/analysis.rs"; K="peg-macros/tokens.rs"; G="peg-macros/grammar.rs"
GP="peg-macros/grammar.rustpeg"; E="peg-runtime/error.rs"; S="peg-runtime/str.rs"; L="peg-runtime/slice.rs"; RL="peg-runtime/lib.rs"

p("C01","Sequence, ordered choice, optional and labels follow PEG semantics",
 "For every grammar and every input, the parser generated for a rule matches exactly when the PEG denotation of its expression matches, ends at the same position, and yields the same value. A sequence matches its parts left to right, each from where the previous one stopped, and passes the values of the labelled parts to the action; a choice commits to the first alternative that matches and tries every alternative from the same starting position; an optional never fails and yields Some(value) or, without consuming, None. This is independent of whether the value of a sub-expression is used.",
 ["programs","inputs"],"all grammars built from these operators, all inputs, all start positions, value used or unused",
 "tests run some thirty fixed grammars on a few strings each; the claim is about every composition of operators and every input",
 [T,G],[("sequence and action templates",T+": labeled_seq, compile_expr_continuation, compile_expr ActionExpr"),("ordered choice fold",T+": ordered_choice"),("optional template",T+": compile_expr OptionalExpr"),("rule call template",T+": compile_expr RuleExpr")],
 ["Ok value or Err returned by a generated public rule","position reached, via position!() or a #[no_eof] rule"])
p("C02","Repetition: greedy, in order, within bounds, separators between items only",
 "For every repetition (*, +, ** and ++, with none, exact, minimum, maximum or both bounds) the generated parser matches the item as often as possible but never more than the maximum, with a separator matched between consecutive items only, and fails exactly when it stopped below the minimum. The result lists the items' values in input order, and the end position is the end of the last item, so a separator that is not followed by an item is not consumed. This is independent of whether the values are used.",
 ["programs","inputs"],"all item and separator expressions, all bounds, all inputs, any number of iterations",
 "the number of iterations and the item/separator behaviours are unbounded; tests reach a handful of iterations of a handful of grammars",
 [T],[("repeat template: separator, maximum check, step, minimum check",T+": compile_expr Repeat"),("bound kinds","peg-macros/ast.rs: BoundedRepeat")],
 ["Vec returned by a repetition","position reached"])
p("C03","Lookahead, slice and position see exactly the matched span and consume nothing extra",
 "Positive and negative lookahead never consume input: the first succeeds with its operand's value exactly when the operand matches at this position, the second succeeds exactly when it does not. A slice expression yields exactly the part of the input between the position where its operand started and the position where it stopped, and stops there; a position expression yields the current offset and consumes nothing. A quiet block changes neither the match nor the value of its operand.",
 ["programs","inputs"],"all operand expressions, all inputs and positions, nested arbitrarily",
 "the operand is an arbitrary expression and the input is unbounded; tests sample a few literals",
 [T,S,L],[("lookahead, slice, position and quiet templates",T+": compile_expr PosAssertExpr, NegAssertExpr, MatchStrExpr, PositionExpr, QuietExpr"),("slicing of the input",S+", "+L+": parse_slice")],
 ["value of &e, $(e), position!()","position reached"])
p("C04","Precedence climbing builds the tree the levels and associativities dictate",
 "A precedence block parses an atom or prefix operator and then extends it with infix and postfix operators: at each step the first operator in declaration order that applies, among those of a level at least the required minimum, is taken, and if none applies the block stops there without consuming more. The right operand of a left-associative infix operator only contains operators of strictly tighter levels, that of a right-associative one of at least the same level, the operand of a prefix operator likewise according to its marker, and every action receives its own operands. A span-capturing wrapper passes for each operator application the start and end of exactly that application.",
 ["programs","inputs"],"all operator tables (prefix, infix, postfix, atoms, any number of levels), all inputs and nesting depths",
 "trees are unboundedly deep and operator tables arbitrary; tests evaluate a few arithmetic expressions",
 [T],[("precedence template: levels, __infix_parse, prefix and postfix closures",T+": compile_expr PrecedenceExpr")],
 ["value returned by a precedence rule","position reached"])
p("C05","#[cache] never changes what a rule matches or returns",
 "Adding #[cache] to a rule without parameters changes neither whether any public rule of the grammar matches any input, nor the value it returns. Within one parse a cached rule evaluated again at the same position returns an equal result to the first evaluation, without evaluating its body again. No cached result is used at another position, for another rule, or in another parse.",
 ["programs","inputs","histories"],"all grammars with deterministic actions, all inputs, all sequences of rule evaluations within a parse",
 "the cache is hit along arbitrary histories of calls and positions; one memoization test exercises one history",
 [T],[("cache lookup and insert around the rule body",T+": compile_rule Cache::Simple"),("one cache per rule and per parse",T+": make_parse_state, compile_rule_export")],
 ["Ok value or Err with and without #[cache]","number of evaluations of an action"],state=[("cache fields","position to result of the rule there, for this parse",T+": make_parse_state")])
p("C06","#[cache_left_rec] grows the longest left-recursive match and always terminates",
 "A rule marked #[cache_left_rec] evaluates its body with its own result at this position first taken as a failure, then repeatedly re-evaluates it with the last result as seed as long as the match gets strictly longer, and returns the longest result obtained this way. A left-recursive operator rule therefore consumes every operand it can and associates to the left. Evaluation stops for every input, since each round must end further right.",
 ["programs","inputs","histories"],"all rule bodies, all inputs, any number of growth rounds",
 "the number of growth rounds is unbounded and the body arbitrary; tests parse a few short expressions",
 [T],[("seed growing loop",T+": compile_rule Cache::Recursive")],["value returned by a left-recursive rule","position reached"],
 state=[("cache field of the rule","current seed at each position",T+": compile_rule")])
p("C07","A parse error reports the furthest failure and exactly what was expected there",
 "When a public rule of a grammar without caching fails, the reported location is the furthest position at which a literal, pattern, expected! item, conditional action or the end-of-input check failed outside quiet blocks and lookaheads, or the start of the input if there was none. The reported expected set contains exactly the descriptions of the items that failed at that position outside quiet blocks and lookaheads, each once. The same holds for failures inside abandoned alternatives, optional parts and repetitions of a parse that got further later.",
 ["programs","inputs","histories"],"all grammars without caching, all inputs, all orders in which failures are met",
 "which failures are met, and in which order, depends on the whole backtracking history; tests check a few messages",
 [E,T],[("failure recording in two passes",E+": ErrorState::mark_failure, mark_failure_slow_path, reparse_for_error, into_parse_error"),("marking at terminals",T+": compile_literal_expr, compile_pattern_expr, FailExpr, ActionExpr"),("reparse",T+": compile_rule_export")],
 ["location and expected of the returned ParseError"],state=[("max_err_pos, expected","furthest failure; descriptions seen there on the second pass",E+": ErrorState")])
p("C08","Nothing inside quiet!{} or a lookahead is reported, and reporting resumes after it",
 "No literal, pattern or expected! item that fails while a quiet block or a lookahead is being evaluated, at any nesting depth, contributes to the location or expected set of a parse error. As soon as the outermost such block is left, whether its operand matched or failed, failures are reported again. An expected!(\"x\") outside such blocks always fails and reports x at its own position, and a conditional action that returns Err(x) fails and reports x at the position where its sequence ended.",
 ["programs","inputs","histories"],"all nestings of quiet blocks and lookaheads, all inputs, both outcomes of each block",
 "it must hold after every path out of a block at every nesting depth; tests check two or three messages",
 [E,T],[("suppression counter",E+": ErrorState::mark_failure"),("balanced increments",T+": compile_expr PosAssertExpr, NegAssertExpr, QuietExpr"),("expected!",T+": compile_expr FailExpr"),("conditional action",T+": compile_expr ActionExpr")],
 ["expected and location of the returned ParseError"],state=[("suppress_fail","depth of quiet and lookahead blocks being evaluated",E+": ErrorState")])
p("C09","A public rule succeeds only on the whole input (or a prefix with #[no_eof]), never panics",
 "A public rule returns Ok exactly when its expression matches from the start of the input and either the match ends at the end of the input or the rule is marked #[no_eof]; in every other case it returns Err, and a match that stopped early counts as a failure to find \"EOF\" where it stopped. With deterministic actions it never panics, in particular not in the second pass that collects the error. Successive calls do not influence each other.",
 ["programs","inputs","histories"],"all grammars with deterministic user code, all inputs, all sequences of calls",
 "agreement of two complete parses of the same input is a property of every grammar and every input",
 [T,E],[("two-pass driver",T+": compile_rule_export"),("end of input check",S+", "+L+": is_eof")],["Result returned by a public rule","absence of panics"])
p("C10","str input: terminals match whole characters, never split or misread UTF-8, never panic",
 "For every str input and every position a parser can reach, matching a literal succeeds exactly when the input continues with that literal and then advances by its length in bytes; matching an element yields the character there and advances by its encoded length, failing only at the end; slices are the bytes between the two positions. Every position so reached is a character boundary within the input, so no operation of a generated parser panics on any valid string. The end of input is recognised exactly at the string's length.",
 ["inputs"],"all strings including multi-byte characters, all boundary positions, all literals",
 "all strings of all lengths and encodings; one utf8 test uses one string",
 [S,RL],[("str implementations",S+": is_eof, parse_elem, parse_string_literal, parse_slice, start")],["matches, values and positions on str inputs","absence of panics"])
p("C11","Slice and byte input: elements and literals match exactly, never read out of bounds",
 "For every slice input and every position up to its length, matching an element yields the element there and advances by one, failing exactly at the end; matching a string literal against bytes succeeds exactly when the input continues with the literal's bytes and advances by their number; a slice expression yields exactly the elements between two positions. No operation panics or reads beyond the input. Positions reported for slice inputs are element indices.",
 ["inputs"],"all slices, all positions, all literals",
 "all slices of all lengths; tests parse a few arrays",
 [L,RL],[("slice implementations",L+": is_eof, position_repr, parse_elem, parse_string_literal, parse_slice, start")],["matches, values and positions on slice inputs","absence of panics"])
p("C12","Reported line and column are those of the offset",
 "For every string and every character boundary in it, the reported line is one plus the number of newline characters before that offset, the reported column is one plus the number of characters since the last newline before it (or since the start), and the reported offset is the offset itself. It is displayed as line, colon, column.",
 ["inputs"],"all strings, all character boundaries",
 "all strings and offsets; tests check a few short single-line inputs",
 [S],[("line and column computation",S+": position_repr, LineCol Display")],["location of a ParseError on str input and its Display"])
p("C13","Error text lists each expected item once, sorted, with the right connective",
 "The expected set yields each reported description exactly once in ascending order. Its text is <unreported> when empty, the single description when there is one, and otherwise \"one of \" followed by all of them in that order separated by a comma and a space. The text of a parse error is \"error at LOCATION: expected \" followed by that.",
 ["inputs","histories"],"all sets of descriptions, inserted in any order and multiplicity",
 "all sets and insertion orders; tests format a few small sets",
 [E],[("formatting",E+": ExpectedSet Display, ParseError Display, tokens")],["Display of ParseError and ExpectedSet","ExpectedSet::tokens"])
p("C14","Left recursion is rejected at compile time exactly when it is there",
 "A grammar without rule-closure parameters in which a rule that is not #[cache_left_rec] can call itself, directly or through others, before any input is necessarily consumed is rejected with an error that spells out the chain of rules from it back to itself. Constructs count as possibly empty when they are optional, repeated without lower bound, lookaheads, empty sequences, position expressions, or built only from such; literals, patterns, custom code, precedence markers and expected! count as consuming, and so does a call back to a #[cache_left_rec] rule whose evaluation is under way. A grammar with no such rule is not rejected for left recursion.",
 ["programs"],"all grammars without closure parameters: any rules, any call graph, any nesting of operators",
 "all call graphs; one compile-fail test lists a few shapes",
 [A],[("prefix walk",A+": LeftRecursionVisitor::walk_expr, walk_rule, check")],["compile_error! emitted by the macro"],
 state=[("stack","rules whose evaluation has started at the current position",A+": LeftRecursionVisitor")])
p("C15","Loops whose body can match nothing are rejected exactly when they are there",
 "A grammar is rejected with an infinite-loop error exactly when it contains, anywhere in a rule, including inside repetitions, lookaheads, precedence operators and expressions passed as arguments to other rules, a repetition without upper bound whose item and separator (if any) can both match without consuming input. What can match without consuming is determined as for left recursion, through rule calls. No other grammar is rejected for this reason.",
 ["programs"],"all grammars: any nesting of operators, any call graph",
 "all nestings; one compile-fail test lists a few loops",
 [A,"peg-macros/ast.rs"],[("loop walk",A+": LoopNullabilityVisitor::walk_expr"),("bounds","peg-macros/ast.rs: has_lower_bound, has_upper_bound"),("rule nullability",A+": LeftRecursionVisitor::check")],["compile_error! emitted by the macro"])
p("C16","Ill-formed rules and calls are always diagnosed, well-formed ones never",
 "The macro reports an error exactly for: a second rule of the same name, a call to a rule that does not exist, a call with the wrong number of arguments, use of the value of a rule that returns none, caching on a rule with parameters or generics, #[no_eof] on a private rule, closure parameters on a public rule, arguments or generics given to a closure parameter, and misplaced precedence markers. Each is found wherever in the grammar it occurs, in nested operators, arguments and separators as well, except that a wrong call hides what its arguments contain, a malformed precedence operator the rest of its block, and a rule that is a duplicate or cannot be cached its own body. A grammar without such a mistake (and without left recursion or endless loops) expands without any error.",
 ["programs"],"all grammars, the mistake at any place in any expression",
 "a mistake can sit at any place of any expression; tests list one or two places for each",
 [T],[("grammar level checks",T+": compile_grammar"),("call checks",T+": compile_expr RuleExpr"),("precedence checks",T+": compile_expr PrecedenceExpr, MarkerExpr")],["compile_error! emitted by the macro"])
p("C17","Grammar text is flattened to tokens faithfully and delimited groups are skipped whole",
 "Turning a macro input into the flat token sequence the grammar parser works on keeps every token in order, with one opening and one closing entry per delimited group, each opening entry pointing just past its own closing entry. Taking the tokens between two positions that do not cut through a group reproduces the original tokens, and skipping a group or running to a terminating punctuation mark never stops inside a group, always terminates and never panics. A literal in the grammar's own grammar matches one identifier, one delimiter or a run of joined punctuation (which an identifier or delimiter may end, as in a lifetime) spelled exactly like it.",
 ["inputs"],"all token streams with any nesting, all positions, all terminating characters",
 "all token streams; exercised only through the grammars in the test suite",
 [K],[("flattening",K+": FlatTokenStream::new"),("matching",K+": ident, literal, group, eat_until, next_span, parse_string_literal, parse_elem"),("slices",K+": parse_slice")],["tokens carried into the generated code","grammars accepted by the macro"],
 state=[("Begin(group, end)","end is the index just past the matching End",K+": Token")])
p("C18","The bootstrapped grammar parser implements the published grammar of grammars",
 "For every token stream, the committed parser of the grammar language accepts exactly the streams described by the grammar-of-grammars source file and builds the syntax tree its actions describe. In particular each operator (label, ?, *, +, **, ++, bounds, $, &, !, quiet!, expected!, position!, precedence!, #{}, calls with arguments) is read as the documented expression, for every nesting. Anything else is rejected with an error.",
 ["programs","inputs"],"all token streams given to the macro",
 "all token streams; tests only contain some dozens of grammars",
 [G,GP],[("generated parser of grammars",G+": all __parse_ functions"),("its source",GP)],["what the macro accepts","meaning of the accepted grammar"])
p("C19","Arguments reach rules unchanged: grammar, value, generic and rule-closure parameters",
 "Every value passed to a grammar or rule parameter is the value that parameter has in the callee, position by position, at every call depth. A rule closure passed as argument behaves, wherever and however often the callee uses it, exactly like the expression written in the argument evaluated at the position of use, with the same input, error reporting and caches. A parser of a grammar with arguments passes the same arguments to every rule of that parse.",
 ["programs","inputs"],"all parameter lists, all argument expressions, all call chains and inputs",
 "all call chains and argument expressions; tests use a few",
 [T],[("parameter lists",T+": rule_params_list, extra_args_def, extra_args_call"),("argument passing",T+": compile_expr RuleExpr, compile_rule, compile_rule_export")],["values returned by parameterised rules"])
p("C20","Tracing never changes what a parser returns",
 "With the trace feature enabled, every public rule returns on every input the same result as without it, including the position and expected set of errors. Each attempt to evaluate a rule prints where it started and then whether it matched (and where it ended) or failed. Tracing introduces no panic.",
 ["programs","inputs","configurations"],"all grammars and inputs, tracing on and off",
 "all grammars and inputs; the suite runs the same few programs in both configurations",
 [T],[("trace wrappers",T+": compile_rule, compile_expr PrecedenceExpr")],["result of a public rule with and without the trace feature"])
p("C21","Names used inside grammar actions never collide with names in the generated code",
 "Whatever identifiers a grammar's actions, labels, patterns and surrounding module use, the generated parser means the same as if all internal names were fresh.",
 ["programs"],"all choices of identifiers","all identifiers; one hygiene test samples a few",
 [T],[("mixed-site hygiene of all internal identifiers",T+": Span::mixed_site in every template")],["whether a grammar compiles and what its parser returns"])
p("C22","The runtime works without the standard library and on the minimum Rust version",
 "With default features off, the runtime and generated parsers without caching need only core and alloc, on every supported compiler version.",
 ["configurations"],"all feature sets and compiler versions >= 1.68","build configurations are not enumerated by the tests",
 ["peg-runtime/lib.rs","Cargo.toml"],[("no_std gating",RL)],["whether it builds"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
