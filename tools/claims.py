GEN = ('The translator of the current tree is run on grammars in which every operator (alone; and inside every other one: a seeded sample in quick, all in thorough) is applied to arbitrary rules, and Verus '
       'checks each generated parse function against contracts taken from the denotation of its expression: all inputs, positions, actions and callee behaviours, loops by invariant. '
       'Finite: the list of expression shapes; deeper nestings are covered by the bounded runs against an independent interpreter (labelled bounded). ')
c('C01', 'proof', GEN)
c('C02', 'proof', GEN)
c('C03', 'proof', GEN)
c('C04', 'proof', 'Precedence blocks (about 120, plus seeded random ones) translated by the real translator: climbing loop, operator code of every level and recursion closures are proved against a denotation of precedence climbing over arbitrary atoms, operators and actions: all inputs, termination included. The closures are lifted to functions mechanically. Finite: the list of blocks, operators in them must consume (or operands, where the operator may be empty); nested blocks and the rest only bounded, against an interpreter. ')
c('C07', 'proof', GEN + 'ErrorState is proved on the real runtime source; two-pass lemmas are proved, not assumed. Failures in rules called are an arbitrary but deterministic sequence.')
c('C08', 'proof', GEN + 'suppress_fail is assumed not to overflow (100 nested blocks below usize::MAX).')
c('C09', 'proof', GEN + 'The exported functions are proved for about 85 public rule shapes; absence of panics is part of the contract (panic! has precondition false).')
c('C19', 'proof', 'Rules with value, rule and generic parameters and their uses, translated by the real translator: proved for arbitrary argument values and for arbitrary expressions passed (specification closures as ghost arguments); at each call the closure is proved to behave as the expression written there. Finite: the list of rule shapes; also compared with an interpreter (bounded).')
c('C05', 'proof', 'Grammars with cached rules, translated by the real translator: every cache entry a rule may find is right, and every rule keeps and only extends the caches by right results (ghost invariant over the parse state); a cached rule evaluates its body only where it has no entry. The result then equals the denotation of the uncached rule. Finite: the list of rule shapes; also compared with an interpreter, counting evaluations (bounded).')
c('C06', 'proof', 'Left-recursive rule shapes, translated by the real translator: the loop is proved to compute the limit of the growth sequence defined from the rule\'s body, and to terminate (decreases measure, through recursion and for every input). Left recursion through other rules is only left-recursive if those are #[cache_left_rec] too: that case is a known finding.')
c('C20', 'proof', 'The translator built with the trace feature: its output is proved against the same contracts as without it (results, errors, end of input, no panic) for expressions, public, cached, left-recursive, parameterised and precedence rules, and what it prints is proved through a ghost log in the parse state: an attempt line, the lines of what is evaluated, the outcome. Finite: the list of shapes; printed lines of cached and precedence rules only bounded. ')
A = 'Every function of peg-macros/analysis.rs and the bound queries of ast.rs are extracted from /repo on each run and proved against contracts whose specification functions are written from the property (nullability as a least fixed point, left calls, loops); theorems over those contracts give the exactness. '
c('C14', 'proof', A + 'With #[cache_left_rec] rules in a grammar: reports are circles of a rule that is not, and circles of plain rules are reported. Trusted: HashMap, Vec and iterator specifications, proc_macro2 as opaque types. That each report becomes an error of the macro: postcondition of compile_grammar. Grammars as text only bounded.')
c('C15', 'proof', A + 'Trusted: as for C14. That each report becomes an error of the macro: postcondition of compile_grammar. Grammars as text only bounded.')
c('C16', 'proof', 'Every function of peg-macros/translate.rs and the message of analysis.rs is extracted from /repo on each run (quote! becomes the sum of the errors in what it interpolates and those its template writes) and proved to put exactly as many compile_error! in the expansion as the grammar has mistakes by a recursive definition over the syntax tree, the reports of the two analyses included, for all syntax trees. Trusted: quote!, HashSet, iterator adaptors. The messages themselves and grammars as text only bounded.')
c('C17', 'proof', 'Every function of peg-macros/tokens.rs (except Display for Sp) is extracted from /repo on each run and proved against contracts over a recursive definition of flattening, for all token streams, positions and literals; the invariant of the flat stream (whole groups, opening entries pointing just past their closing ones and carrying the group they stand for) is established by new and required elsewhere. Lemmas: entries determine the trees; slices give back what was there. Trusted: proc_macro2 as finitely nested trees with ASCII punctuation.')
c('C18', 'proof', 'grammar.rustpeg is read by a reader of its own and turned into mutually recursive specification functions, proved well-founded; every function of the committed grammar.rs is extracted on each run and proved to return exactly what its rule denotes, for every token stream and position, loops, recursion, end of input and the cached rule included; actions are compared with the published ones token by token on extraction. Trusted: actions as deterministic functions of their labels, token primitives as C17 proves them. The texts are also compared with an independent program and with trees (bounded).')
