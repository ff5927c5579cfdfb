#!/usr/bin/env python3
"""Writes properties.jsonl (kept as the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
                   observe_at=observe,hook_needed=None)))
SOLV="The tests of the encodings need an external solver binary and sample a table of a few hand-picked instances at one dimension; "
# --- semantics of the atoms
p("S01","Subsumption, consistency and fullness encodings are exact",
  "For every dimension, every constant and every value of the variables, the encoding of Subsumption (every defined feature of the first has the same value in the second), Cons (no feature is defined with different values in both) and Full (no undefined feature) is satisfiable together with those values if and only if the relation holds, and the encoding of its negation if and only if it does not. This is the same for every mix of constant and variable arguments, and whether a constant is given literally or bound by an enclosing guarded quantifier.",
  ["inputs"],"all pairs of partial instances of dimension 1..4 (and instances at most one feature away from a constant or alternating one up to dimension 13, and around the word-size borders at dimensions 66 and 130), all constant/variable argument forms, literal and guarded constants, both polarities",
  SOLV+"a wrong clause for one feature value, one position or one argument form is invisible to them.",
  ["query/predicates/subsumption/const_const.go","query/predicates/subsumption/const_var.go","query/predicates/subsumption/var_const.go","query/predicates/subsumption/var_var.go","query/extensions/cons/const_const.go","query/extensions/cons/const_var.go","query/extensions/cons/var_const.go","query/extensions/cons/var_var.go","query/extensions/full/const.go","query/extensions/full/var.go"],
  [("one clause per feature","query/predicates/subsumption/var_var.go"),("opposite-value clauses","query/extensions/cons/var_const.go"),("no-BOT clauses","query/extensions/full/var.go")],
  ["Encoding(ctx) of the predicates"])
p("S02","The level comparison (LEL) encoding is exact",
  "For every dimension, LEL(e1,e2) holds exactly when e1 has at least as many undefined features as e2: its encoding is satisfiable with given values of its variables if and only if that is so, and its negation if and only if it is not. The four constant/variable forms agree with each other for every pair of instances.",
  ["inputs"],"all pairs of partial instances of dimension 1..5 (variable/constant forms up to 6; up to 12 by number and position of undefined features), all argument forms, both polarities",
  SOLV+"the counter is an O(dim^2) clause ladder whose borders (0 and dim undefined features, dimension 1, large dimensions) a table does not reach.",
  ["query/predicates/lel/utils.go","query/predicates/lel/const_const.go","query/predicates/lel/const_var.go","query/predicates/lel/var_const.go","query/predicates/lel/var_var.go"],
  [("sequential counter of BOT features","query/predicates/lel/utils.go:varBotCountClauses")],
  ["Encoding(ctx) of lel.*"])
p("S03","The Node predicate is true exactly for the model's nodes",
  "For every decision tree and every partial instance e, the Node predicate holds if and only if e is the instance of some node of the tree: it defines exactly the features decided on the path to that node, with the values of that path. Constant and variable forms agree, both polarities, whatever the order in which the tree lists its nodes.",
  ["inputs"],"all read-once decision trees of dimension 1..3 (16,430 of dimension 3; larger by number of internal nodes), several node layouts, every partial instance, both forms and polarities",
  SOLV+"they use a single tree; missing propagation on one child side or for one node position needs other trees.",
  ["query/predicates/isnode/const.go","query/predicates/isnode/var.go","query/model.go"],
  [("walk from the root","query/predicates/isnode/const.go"),("reachability clauses","query/predicates/isnode/var.go")],
  ["Encoding(ctx) of isnode.*"])
p("S04","AllComp is true exactly when every completion gets the given class",
  "For every decision tree, class value and partial instance e, AllComp holds if and only if every completion of e is classified with that value by the tree. Constant and variable forms agree, both polarities, whatever the order in which the tree lists its nodes.",
  ["inputs"],"all read-once decision trees of dimension 1..3 and larger ones by number of internal nodes, several node layouts, both classes, every partial instance, both forms and polarities",
  SOLV+"they use one tree; reachability errors show only on particular shapes (one-sided chains, leaf roots, decided feature undefined below another).",
  ["query/extensions/allcomp/const.go","query/extensions/allcomp/var.go"],
  [("stack walk over undefined features","query/extensions/allcomp/const.go"),("reachability clauses","query/extensions/allcomp/var.go")],
  ["Encoding(ctx) of allcomp.*"])
p("S05","DFS is true exactly for determinant feature sets",
  "For every decision tree and partial instance e, DFS(e) holds if and only if fixing the features defined in e, to whatever values, always determines the class of the tree. Constant and variable forms agree, both polarities, whatever the order in which the tree lists its nodes.",
  ["inputs"],"all read-once decision trees of dimension 1..3 and larger ones by number of internal nodes, several node layouts, every partial instance, both forms and polarities",
  SOLV+"they use one tree; the leaf walk's backtracking and the pairing of positive and negative leaves depend on the shape.",
  ["query/extensions/dfs/utils.go","query/extensions/dfs/const.go","query/extensions/dfs/var.go"],
  [("leaf enumeration","query/extensions/dfs/utils.go:leafsAsConsts"),("witness clauses per leaf pair","query/extensions/dfs/var.go")],
  ["Encoding(ctx) of dfs.*"])
p("S06","The Hamming distance comparison (LEH) encoding is exact",
  "For every dimension, LEH(e1,e2,e3) holds exactly when e1, e2 and e3 are all full and the Hamming distance between e1 and e2 is at most the one between e1 and e3; if any of the three has an undefined feature it is false. All eight constant/variable forms agree, both polarities.",
  ["inputs"],"all triples of partial instances of dimension 1..3 for all eight forms (larger dimensions for fewer variables; up to 8 over full instances at the extreme distances), both polarities",
  SOLV+"one dimension and a dozen triples cannot cover eight forms with shortcuts at distance 0 and dim.",
  ["query/extensions/leh/utils.go","query/extensions/leh/const_const_const.go","query/extensions/leh/const_const_var.go","query/extensions/leh/const_var_const.go","query/extensions/leh/const_var_var.go","query/extensions/leh/var_const_const.go","query/extensions/leh/var_const_var.go","query/extensions/leh/var_var_const.go","query/extensions/leh/var_var_var.go"],
  [("distance counters","query/extensions/leh/utils.go")],["Encoding(ctx) of leh.*"])
p("S07","The preference rank comparison (HEPR) encoding is exact",
  "For every dimension and every duplicate-free sequence of feature indexes (including the empty one), HEPR(e1,e2) holds if and only if, at the first feature of the sequence that is defined in exactly one of e1 and e2, it is e1 that defines it (and it holds if there is no such feature). The four constant/variable forms agree, both polarities.",
  ["inputs"],"all preference sequences over dimension 1..4 (up to 12 over selected sequences), all pairs of partial instances, all forms, both polarities",
  SOLV+"a handful of preferences of one dimension are sampled, never the empty one or indexes above 9.",
  ["query/extensions/hepr/util.go","query/extensions/hepr/const_const.go","query/extensions/hepr/const_var.go","query/extensions/hepr/var_const.go","query/extensions/hepr/var_var.go"],
  [("backward recursion over the preference","query/extensions/hepr/var_var.go")],["Encoding(ctx) of hepr.*"])
p("S08","Components that share auxiliary variables still compose correctly",
  "When several components of a query are given the same auxiliary-variable generating functions, as the documentation asks, the conjunction, disjunction or negated combination of any two of them over the same variables and constants is satisfiable with given values if and only if the combination of their meanings holds. Sharing never makes a satisfiable combination unsatisfiable nor the reverse.",
  ["inputs","programs"],"all ordered pairs of atoms (every component, argument form, constant and preference at small dimension) under and/or/negation with one common set of generators, every value of the variables",
  "Every test encodes one component at a time, so two components never meet in one formula.",
  ["query/predicates/isnode/var.go","query/predicates/lel/utils.go","query/extensions/allcomp/var.go","query/extensions/leh/utils.go","query/extensions/leh/const_var_const.go","query/extensions/hepr/util.go"],
  [("auxiliary variable naming","CountVarGen / ReachNodeVarGen / HammingDistanceVarGen / EqualFeatureVarGen / FeaturePreferenceRankVarGen call sites")],
  ["Encoding(ctx) of logop combinations"])
p("S09","Connectives have their boolean meaning at every nesting depth",
  "For every formula built with And, Or and Not over any components and declared variables, the encoding is satisfiable together with given values of the variables if and only if the formula is true for those values. This holds at any nesting depth, for trivially true and false parts, and when a part occurs several times.",
  ["programs","inputs"],"all formulas up to depth 2 over a ten-atom alphabet (depth 3 over a smaller one) covering unit, multi-literal, multi-clause, auxiliary-variable, trivial and empty-clause atoms; every value of the variables",
  "The tests combine only constants true/false at depth one.",
  ["query/logop/and.go","query/logop/or.go","query/logop/not.go","cnf/cnf.go"],
  [("De Morgan with Tseytin negation","query/logop/or.go"),("top variable propagation","query/logop/not.go")],
  ["Encoding(ctx) of logop.*"])
p("S10","Guarded quantification ranges over every node exactly, with own variables",
  "A guarded universal quantifier is true if and only if its body holds for the instance of every node of the tree, root and leaves included, with the quantified constant replaced by it wherever it occurs. Variables declared inside the body are chosen separately for each node, variables declared outside are common to all, and the same holds for quantifiers nested in each other and for negated ones.",
  ["programs","inputs"],"all read-once trees of dimension 1..2 in several layouts plus dimension-3 and long-chain trees (more than ten nodes), bodies over every component form, nesting depth 2 with distinct names",
  "The tests count clauses on one three-node tree and one traversal order.",
  ["query/logop/forallguarded.go","query/scoper.go","query/logop/with_var.go"],
  [("node iterator","query/logop/forallguarded.go:Next"),("scoped names","query/scoper.go:ScopeVar")],
  ["Encoding(ctx) of logop.ForAllGuarded"])
p("S11","A declared variable ranges over exactly the partial instances",
  "In every encoding, each declared variable takes exactly one of the three values at each feature, every one of the 3^dim partial instances remains possible when the body allows it, and declaring further variables, or the same one again, never restricts or frees another.",
  ["inputs","programs"],"all truth assignments to the feature literals of one and two variables at dimension 1..3 (2^(3*dim*k)), scoped and unscoped, nested and repeated declarations",
  "The tests compare the clause list of one nesting at dimension 1.",
  ["query/logop/with_var.go"],[("consistency clauses","query/logop/with_var.go:encodeI")],["Encoding(ctx) of logop.WithVar"])
# --- CNF
p("N01","Negating a formula complements it and keeps its consistency part",
  "For every CNF formula, the negation is satisfiable together with an assignment of the original variables if and only if the assignment satisfies the consistency clauses and violates the semantic ones. Variables it introduces are larger than the formula's own top variable and than the given bound; the property holds for empty formulas, empty clauses, repeated negation, and clauses with repeated or opposite literals.",
  ["inputs","histories"],"all formulas of up to three semantic clauses and one consistency clause over three variables (all clauses up to length three, with duplicates, tautologies and the empty clause), bounds below, at and above the top variable, negation applied one to three times",
  "Five clause-level examples in the tests; no test evaluates a truth value.",
  ["cnf/cnf.go"],[("Tseytin transformation","cnf/cnf.go:tseytinNegation"),("top variable bound","cnf/cnf.go:Negate")],["CNF.Negate, CNF.Clauses, CNF.TopV"])
p("N02","Deriving a formula leaves every other formula unchanged",
  "Negating, conjoining, extending or serialising a formula returns a new value and never changes the clauses, the top variable or the meaning of its operands, of any formula derived earlier, of the shared constants for true and false, or of the clause slices the caller passed in.",
  ["histories"],"all sequences of up to four operations over a pool of formulas (built from literal, sub-sliced and appended clauses), every earlier value compared after every operation",
  "Each test performs one operation on a fresh value.",
  ["cnf/cnf.go"],[("value receivers and slice appends","cnf/cnf.go"),("shared TrueCNF/FalseCNF/NegClauses","cnf/cnf.go")],["CNF.Clauses/TopV of all values after each operation"],
  [("TrueCNF, FalseCNF, NegClauses","package-level formulas returned by every trivial encoding","cnf/cnf.go")])
p("N03","Combining formulas keeps every clause, its kind, and a valid top variable",
  "Conjunction and appending produce a formula whose semantic clauses are exactly those of its parts and likewise its consistency clauses: none is lost, duplicated, or moved from one kind to the other. The reported top variable is at least every variable occurring in the formula and never smaller than the receiver's.",
  ["inputs","histories"],"all sequences of up to four build operations over a clause alphabet, every pair of formulas conjoined in both orders",
  "Three examples in the tests.",["cnf/cnf.go"],[("Conjunction/Append*","cnf/cnf.go"),("maxVar","cnf/cnf.go")],["CNF.Clauses, CNF.TopV"])
p("N04","The DIMACS text denotes exactly the formula, as bytes and as file",
  "For every formula, the bytes form and the written file are the same valid DIMACS CNF text: one header whose clause count equals the number of clause lines and whose variable count is at least every variable used, then every semantic and consistency clause exactly once, each terminated by 0. Writing to a file replaces whatever was there.",
  ["inputs"],"all small formulas of N01's space, formulas of 1..2,000 clauses and variables up to 10^9, and every encoding of a set of queries, written over absent, shorter and longer files",
  "One six-clause example compared to a literal.",["cnf/cnf.go"],[("ToBytes/ToFile","cnf/cnf.go"),("clauseToDIMACS","cnf/cnf.go")],["CNF.ToBytes, CNF.ToFile"])
p("N05","A formula file that could not be written completely is reported",
  "If creating the file fails or any write to it fails, at whatever byte, writing the formula returns an error. A solver step then returns that error and no verdict.",
  ["fault_sequences"],"a write failure injected at every byte offset of the file (file size limit 0..size-1), a full device, missing directory, directory as target; for the file writer and for a solver step",
  "No test injects a failure.",["cnf/cnf.go","compute/solver.go"],[("error returns of ToFile","cnf/cnf.go:ToFile"),("error returns of Step","compute/solver.go:Step")],["CNF.ToFile, Solver.Step"])
p("N06","A formula calls itself trivially true or false only if it is",
  "Through every history of creating, negating, extending and conjoining, a formula reports to be trivially true only if every assignment of its variables satisfies it, and trivially false only if none does. One without clauses reports the first, one with an empty clause among its semantic or consistency clauses the second, and the shared constants for true and false report accordingly.",
  ["histories"],"all histories of up to three derivations (four in the thorough tier) from 49 starting formulas with empty, unit, opposite and mixed clauses; an empty clause at every place among up to 4,097 clauses",
  "No test calls the two.",["cnf/cnf.go"],[("TriviallyTrue/TriviallyFalse","cnf/cnf.go"),("hasEmptySemanticClause","cnf/cnf.go")],["CNF.TriviallyTrue, CNF.TriviallyFalse"])
# --- context
p("K01","CNF variable numbers are positive, unique and stable until reset",
  "Through any sequence of uses of a context, each distinct (name, index, value) triple has its own number of at least 1 that stays the same until reset, distinct triples never share one, and a new triple gets a number above the top value at that moment. The top value never decreases except by reset, raising it succeeds exactly when the new value is not below it, and after reset nothing is remembered.",
  ["histories"],"all sequences of up to five operations (lookups over an adversarial alphabet of names/indexes/values, existence queries, top raises, reset), compared step by step with a reference map",
  "No test exercises the variable manager directly.",["query/varmanager.go","query/context.go"],[("map of triples and counter","query/varmanager.go")],["QContext.CNFVar/CNFVarExists/TopV/UpdateTopV/Reset"],
  [("topv","largest number handed out","query/varmanager.go"),("vars","triple to number","query/varmanager.go")])
p("K02","Scoped names never collide and constants take their scope's value",
  "Through any sequence of opening, setting and closing scopes and declaring variables, two different variables never have the same scoped name, a variable's scoped name differs between different bindings of the scopes it was declared in and does not depend on scopes opened after its declaration, and a variable whose scope has been closed or reset is unscoped again. A constant bound by an open scope reads as that scope's current value and any other constant reads as itself; closing or setting without an open scope is an error, and nothing panics.",
  ["histories"],"all sequences of up to six operations over an adversarial alphabet (names that are concatenations of each other, indexes 0, 1, 10, 11), each state compared with a reference scoper",
  "One test of one scope and one variable.",["query/scoper.go","query/context.go"],[("ScopeVar name building","query/scoper.go:ScopeVar"),("AddVar levels","query/scoper.go:AddVar"),("PopScope removal","query/scoper.go:PopScope")],["QContext.ScopeVar/ScopeConst/AddScope/SetScope/PopScope/AddVar/Reset"],
  [("scopes","open scopes","query/scoper.go"),("vars","variable to declaration level","query/scoper.go")])
p("K03","Answers do not depend on what was evaluated before",
  "Evaluating a query or computing an optimum gives the same answer on a context and solver that have already been used for other queries, failed ones included, as on fresh ones, with or without a context reset in between.",
  ["histories"],"all sequences of up to three evaluations from an alphabet of satisfiable, unsatisfiable, erroneous and guarded queries, optimum computations and resets, on one context and solver; every answer compared with brute force",
  "Every test uses a fresh context for one evaluation.",["query/logop/with_var.go","query/context.go","compute/optimum.go","compute/boolcomb.go"],[("consistency clauses of declared variables","query/logop/with_var.go:encodeI"),("reset between steps","compute/optimum.go")],["QDTFAtom.Sat, ComputeOptim, Solver.Values"],
  [("context variable table","numbers handed out by earlier evaluations","query/varmanager.go")])
p("K04","Partial instance helpers are exact",
  "For every partial instance: the undefined-feature count, the fullness test, value equality (same length and same values), the one-character-per-feature string, the all-undefined instance of a given dimension and the dimension validation of any list of constants are exactly what their names say, and different instances of one dimension have different strings.",
  ["inputs"],"all partial instances of dimension 0..6 and all pairs of dimension 0..4, lists of up to three constants of any of those lengths",
  "They are only exercised indirectly by solver-dependent tests.",["query/instances.go"],[("IsFull/BotCount/EqualValue/AsString/AllBotConst/ValidateConstsDim","query/instances.go")],["query.QConst methods"])
# --- compute
p("M01","A verdict is reported only when the solver gave it",
  "A solver step reports satisfiable only if the solver process exited with status 10, unsatisfiable only if it exited with 20, and returns an error that is not the unsatisfiability sentinel in every other case: any other exit status (0 included), death by signal, or failure to start. The program run is the one the path named when the solver was made, it is given exactly the formula of the query, a failed step leaves the last valuation available, and a failure is never turned into a truth value by a negated atom or a combinator.",
  ["fault_sequences","histories"],"all 256 exit statuses and six signals with and without output, five ways of failing to start, bare, relative and absolute paths with a namesake in PATH or a change of directory, each after no, a satisfiable or an unsatisfiable step, directly and through atoms (plain and negated) and combinators",
  "The tests see only successful runs of one solver, and not even those without the binary.",["compute/solver.go","compute/boolcomb.go"],[("exit status mapping","compute/solver.go:runSolver"),("Step","compute/solver.go:Step"),("Negated","compute/boolcomb.go:QDTFAtom.Sat")],["Solver.Step, QDTFAtom.Sat"])
p("M02","Values returns exactly the solver's valuation, or an error",
  "After a satisfiable step, the values returned for the query variables are exactly those the solver's value lines assign, one value per feature in feature order, whatever the order of the literals, their division over lines, the amount of blank space, other lines in between, or the position of the terminating 0. If the output does not determine every feature of a requested variable, an error is returned rather than a shorter or shifted instance, and nothing panics.",
  ["inputs","configurations"],"all instances of one and two variables at dimension 1..3, all divisions of the literals over lines at dimension 1, systematic layouts (orders, widths, separators, comments, terminators, line ends, sizes beyond 64 KiB), all truncations after whole literals",
  "Only kissat's layout, through one test that needs the binary.",["compute/solver.go"],[("varValueFromBytes","compute/solver.go")],["Solver.Values"])
p("M03","A solver step or optimum computation leaves no file behind",
  "However a solver step or an optimum computation ends (satisfiable, unsatisfiable, encoding error, write error, solver failure or signal), the temporary directory holds exactly what it held before, and no file outside it has been touched.",
  ["fault_sequences"],"every ending of a step (encoding error, write failure at several offsets, all solver outcomes of M01 in classes, missing solver) and of an optimum computation failing at its first, second or third call",
  "No test looks at the temporary directory.",["compute/solver.go","compute/optimum.go"],[("deferred removal","compute/solver.go:Step"),("deferred removal","compute/optimum.go:ComputeOptim")],["temporary directory listing"])
p("M04","Atoms and combinators follow boolean logic and pass errors on",
  "An atom is true exactly when its query is satisfiable, the opposite if it is negated; an And-combination is true exactly when all its elements are, an Or-combination when at least one is (the empty ones true and false). Elements are taken in order and if an error occurs before the outcome is decided the result is that error, never a truth value; each atom costs exactly one solver call.",
  ["programs","fault_sequences"],"all nestings of combinators up to depth 3 with up to three elements over atoms answering satisfiable, unsatisfiable or error, negated or not",
  "Six examples, all needing the solver binary and none with an error.",["compute/boolcomb.go"],[("short circuit and error return","compute/boolcomb.go")],["QDTFCombinator.Sat"])
p("M05","The computed optimum is optimal whatever valuations the solver picks",
  "For every decision tree, property and strict order, and whichever satisfying valuation the solver returns at each call, the optimum computation terminates; it reports that an instance was found if and only if some instance has the property, and then the returned instance has the property and no instance with the property precedes it in the order.",
  ["inputs","schedules"],"all trees of dimension 1..2 (selected of dimension 3), all constants, five properties and five strict orders, and every choice of satisfying valuation at every solver call (full branching)",
  "One example with one solver's choices; needs the binary.",["compute/optimum.go","query/logop/with_var.go"],[("improvement loop","compute/optimum.go:ComputeOptim")],["OptOutput.Found, OptOutput.Value"])
p("M06","Optimisation needs at most one solver call per improvement, and counts them",
  "An optimum computation makes at most two more solver calls than the longest strictly improving chain of the order restricted to the instances with the property has steps (so a number of calls linear in the dimension for subsumption and level orders), calls the solver exactly once more after the last improvement, and reports exactly the number of calls it made when it succeeds or finds that no instance exists.",
  ["inputs","schedules"],"the same space as M05, with a counting solver",
  "No test looks at the number of calls.",["compute/optimum.go"],[("steps counter","compute/optimum.go:ComputeOptim")],["OptOutput.Calls"])
p("M07","A failure during optimisation is reported as an error",
  "If the solver, the retrieval of its values, the encoding of the property or of the order, or the creation of a temporary file fails at any point of an optimum computation, the computation returns an error and does not claim that an instance was found; it never presents a failure as the absence of an instance or an intermediate instance as the optimum.",
  ["fault_sequences"],"a failure at every call index of every run of a set of computations, for each kind of failure (step error, value error, order/property encoding error, unusable temporary directory), under every choice of valuations before it",
  "No test injects a failure.",["compute/optimum.go"],[("error returns","compute/optimum.go:ComputeOptim")],["ComputeOptim error result"])
p("M08","Evaluated through a solver binary, queries get their mathematical answer",
  "For every decision tree, the existential and universal example queries (positive completions, sufficient reasons, minimal determinant feature sets, counterfactual distance, node queries) evaluated or computed through a solver binary that complies with DIMACS give the answer obtained by enumerating all instances, and the instance retrieved satisfies the query.",
  ["inputs"],"all trees of dimension 1..2 and selected of dimension 3, all constants, seven query families, through the real process-spawning solver with a complete solver stand-in that returns the first, last or a middle model",
  "All end-to-end tests need an external binary, on one model each.",["compute/solver.go","compute/boolcomb.go","compute/optimum.go","query/logop","query/predicates","query/extensions"],[("whole pipeline","compute")],["QDTFAtom.Sat, ComputeOptim, Solver.Values"])
p("R01","Malformed queries and models give an error at any depth, never an answer",
  "A missing context, a missing sub-query, a missing variable generating function, a constant whose length is not the model's dimension (given literally or through a scope), an empty model where nodes are needed, an invalid preference, or a tree node in use whose feature or child is out of range makes the encoding return an error, without panicking, wherever in the query it occurs. Evaluation then returns that error rather than a truth value, and the context's scopes are as they were before.",
  ["inputs","programs"],"every component with every malformed argument, alone and under every connective/quantifier/declaration nesting of depth 2, by encoding, atom evaluation (plain and negated) and optimum computation",
  "The tests check a missing context and one wrong dimension per component, never nested.",["query/instances.go","query/logop/forallguarded.go","query/extensions/dfs/utils.go","query/extensions/hepr/util.go","query/predicates/isnode/var.go","query/extensions/allcomp/const.go","query/extensions/allcomp/var.go"],[("argument validation","every Encoding method")],["Encoding(ctx) error"])
p("T01","Independent evaluations do not affect each other when run concurrently",
  "Two evaluations running at the same time on their own contexts and solvers give the same results as each alone, under every interleaving: no state, temporary file or formula is shared between them.",
  ["schedules"],"all interleavings with at most two preemptions of two encodings (switch points at every context call, and before every statement of a build of the code made for it) over every component, of two operations on one formula and of two solver steps, all interleavings of the phases of two solver steps, plus a free-running race-detector pass of the same bodies",
  "No test runs two evaluations at once.",["cnf/cnf.go","compute/solver.go","query/context.go","query/logop","query/predicates","query/extensions"],[("no package-level mutable state","all packages"),("unique temporary file names","compute/solver.go:Step")],["Encoding results, Solver.Step verdicts"])
p("S12","Answers do not depend on the names of variables and guards",
  "Renaming the variables and guards of a query to any other distinct non-empty names that avoid the reserved separator characters changes nothing: the encoding has the same meaning for the renamed variables. This includes names that look like numbers, separators or written instances, that are prefixes of each other, and variables named like a guard or a constant of the same query.",
  ["inputs","programs"],"every ordered pair from 37 peculiar names for two variables, a third for inner ones, the same names for the guards, in 13 query shapes that use every component, on trees of dimension 1 and 2, every value of the variables",
  "The tests name their variables x, y and z.",["query/varmanager.go","query/scoper.go","query/extensions/leh/utils.go","query/extensions/hepr/util.go","query/predicates/isnode/var.go"],
  [("auxiliary names built from variable names and constants","query/extensions/leh/utils.go"),("scoped names","query/scoper.go"),("variable numbering","query/varmanager.go")],["Encoding(ctx)"])
p("K05","The context's top value covers every formula encoded in it",
  "After any sequence of encodings in one context, no formula uses a variable above the context's top value (nor above its own), a name that is new gets a number beyond every variable of all those formulas, and the conjunction of the formulas means the conjunction of their meanings: they share the variables that have the same name and nothing else.",
  ["inputs","histories"],"all ordered pairs (and a third of each) from pools of some 150 formulas with negations, nested negations, quantifiers and every component, over all trees of dimension 1 and some of dimension 2, with one or two variables, every value of them",
  "The tests encode one query per context.",["query/varmanager.go","query/logop/not.go","query/logop/or.go","cnf/cnf.go","query/context.go"],
  [("raising the top value after negating","query/logop/not.go"),("top value","query/varmanager.go")],["QContext.TopV, CNFVar, Encoding(ctx)"])
p("I01","Queries, constants, preferences and models given by the caller are not changed",
  "Encoding a query or computing an optimum never writes to the constants, preferences, scope values or nodes the caller handed in, nor behind the end of their slices, and later changes the caller makes to them do not reach a formula already made. Encoding the same query again in a fresh context gives the same formula. A returned optimum, and every instance handed to the order, keeps its value through later steps and computations.",
  ["inputs","histories"],"every component in every argument form, alone, negated and under quantifiers, over trees of dimension 1..2 and some of dimension 3, with slices that have marked spare capacity; optimum computations of all property/order pairs, repeated",
  "No test compares its inputs afterwards, and a write into spare capacity is invisible without planted capacity.",["query/instances.go","query/scoper.go","query/logop/forallguarded.go","query/extensions","query/predicates","compute/optimum.go"],
  [("values passed to SetScope","query/logop/forallguarded.go"),("leaf instances","query/extensions/dfs/utils.go")],["caller's slices before and after Encoding and ComputeOptim"])
p("E01","Encodings stay polynomial in the dimension, the nodes and the query",
  "The number of clauses, literals and variables of an encoding is bounded by a fixed low-degree polynomial of dimension, number of nodes and size of the query: quadratic for each component (cubic for DFS), linear growth per connective however deeply they are nested, and one instantiation of a quantifier's body per node. A part that occurs once is encoded at most once per instantiation.",
  ["inputs","programs"],"every component form at 15 dimensions from 1 to 80 on chains, complete trees and single leaves; all patterns of three one-step contexts repeated to depth 48; balanced trees to depth 9; quantifiers over up to 511 nodes and pairs of nodes",
  "Exponential growth needs depth or dimension the tests do not reach: their queries have one connective and a handful of features.",["cnf/cnf.go","query/logop","query/extensions","query/predicates"],
  [("auxiliary variables in Negate","cnf/cnf.go:Negate"),("disjunction","query/logop/or.go"),("counters","query/predicates/lel/utils.go")],["Encoding(ctx)"])
p("M10","A solver runs in its caller's surroundings and changes nothing in them",
  "Every solver process is run in the working directory of the caller, with all variables of the caller's environment, with no input, and with one argument that names, from there, a file with exactly the formula. The step reads nothing from the caller's standard input, writes nothing to its standard output or error output, and leaves its working directory, environment, file mode mask and limits as they were, however it ends.",
  ["configurations","fault_sequences"],"all sequences of three (four) endings of a step (satisfiable, unsatisfiable, other status, signal, missing program, encoding error) in six environments (an empty PATH, relative temporary directories, values of several lines) and two working directories, directly and through an atom",
  "The tests run the solver in the test process's own surroundings and look at the verdict only.",["compute/solver.go","compute/boolcomb.go"],[("the command is given no directory, environment or input of its own","compute/solver.go:runSolver")],["what the solver process finds; state and streams of the calling process"])
p("M09","A solver step leaves no descriptor, process or goroutine behind",
  "However a solver step or an optimum computation ends (satisfiable, unsatisfiable, encoding error, write error, solver failure or signal, failure to start), the process afterwards has the open descriptors, child processes and goroutines it had before, so that any number of evaluations can follow.",
  ["fault_sequences"],"every ending of M03, for single steps, sequences of three steps, combinators, and optimum computations failing at each of their first calls",
  "A leak shows only after thousands of steps, or never where the collector happens to close files.",["compute/solver.go","compute/optimum.go","cnf/cnf.go"],[("closing of the formula file","cnf/cnf.go:ToFile"),("deferred close","compute/solver.go:Step"),("waiting for the solver","compute/solver.go:runSolver")],["/proc/self/fd, wait4, runtime.NumGoroutine"])
p("C01","Any context that keeps the interface's contract gives the same answers",
  "Contexts are an interface: every component, connective, quantifier, combinator, optimum computation and the reading of values works with any implementation that keeps the documented contract, whatever numbers it gives to variables (gaps, descending, large), whatever names it gives to scoped variables (also at the top level) and whether it copies or shares the nodes and the values of scopes. The answers are the mathematical ones, as with the context of the package.",
  ["inputs","histories"],"eight implementations of the context or model interface x every component in every argument form, plain and negated, pairs of components that share variables, nested quantifiers and declarations, over trees of dimension 1..3, every value of the outer variables; every history of up to three evaluations and optimum computations, in process and through solver processes",
  "The tests only use the context of the package.",["query/context.go","query/varmanager.go","query/scoper.go","query/model.go","query/logop","query/predicates","query/extensions","compute/solver.go","compute/optimum.go"],
  [("contract of the scoper","query/scoper.go:Scoper"),("contract of the variable manager","query/varmanager.go:VarManager"),("reading of values","compute/solver.go:varValueFromBytes")],["Encoding(ctx), QDTFAtom.Sat, Solver.Values, ComputeOptim"])
p("G01","Any functions that generate distinct auxiliary names give the same answers",
  "The components take functions that generate the names of their auxiliary variables. Whatever names these functions return, as long as different arguments and different kinds of auxiliary variables get different names, that are different from those of the variables, and distances and equalities are named alike for both orders of their arguments, every query means what its definition says.",
  ["inputs","programs"],"14 families of generators (numbers in the order of the calls, prefixes, suffixes, long names with a common beginning or end, names that differ in case, white space, bytes that are not UTF-8, combining characters, signs of numbers, names of its own for every component) x every component in every argument form, plain and negated, pairs of components that share variables, nested quantifiers, over trees of dimension 1..3, every value of the outer variables",
  "The tests use one prefix per kind of auxiliary variable.",["query/predicates/lel","query/predicates/isnode/var.go","query/extensions/allcomp/var.go","query/extensions/leh","query/extensions/hepr","query/varmanager.go"],
  [("names for counters","query/predicates/lel/var_var.go"),("names for distances and equalities","query/extensions/leh/var_var_var.go"),("numbers by name","query/varmanager.go:CNFVar")],["Encoding(ctx)"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
