#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand after editing)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":m,"where":", ".join(files)} for m in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
DE="dynamic_expressions/src/"; SR="symbolic_regression/src/"; W="web/wasm/src/lib.rs"

p("E01","Evaluating an expression gives its tree's mathematical value on every row",
 "For every well-formed expression over the built-in or user-defined operators, every input matrix and every constant vector, the value returned for each row equals applying the operators bottom-up to that row's inputs, in single and double precision. The value of a row does not depend on the other rows, on how many rows there are, or on how deep or wide the expression is.",
 ["programs","inputs"],"all well-formed expressions (any shape, arity 1-3+, depth), all finite constants, all input matrices including zero and one row",
 "Tests evaluate a few fixed expressions on small matrices; slot reuse, argument kind combinations (column/constant/intermediate) and shapes combine without bound.",
 [DE+"evaluate.rs",DE+"compile.rs",DE+"operator_enum.rs"],["stack-to-slot compilation with slot reuse","per-arity kernels specialised on constant/slice operands","operator definitions"],["eval_tree_array","eval_plan_array_into"])
p("E02","The completeness flag tells exactly whether all intermediate values were finite",
 "With finiteness checking on, plain and gradient evaluation are reported complete if and only if every operator application (and a constant root) in the expression produced finite values on every row, and a forward derivative is reported complete exactly when that holds, save that it may also be reported incomplete if a derivative itself is not finite; with it off, evaluation is always reported complete. Stopping early never changes that verdict, and whenever the evaluation is reported complete the returned values are the same as with early stopping or checking disabled.",
 ["programs","inputs","configurations"],"all expressions, inputs over the whole float range (overflow, poles, domain errors) and the four option combinations",
 "Tests sample a handful of poles; the verdict must hold for each operator position, row position and operand kind.",
 [DE+"evaluate.rs",DE+"evaluate_derivative.rs"],["per-kernel finite scan and early exit","root handling for constants"],["eval_tree_array","eval_diff_tree_array","eval_grad_tree_array"])
p("E03","Reusing evaluation contexts and buffers never changes a result",
 "An evaluation, forward-derivative or gradient call that reuses a context, a compiled plan or scratch buffers left by any history of earlier calls (other expressions, constants, options, early stops, failures) returns exactly what a fresh call returns.",
 ["histories"],"all sequences of calls on shared contexts: expressions changed in place, constants edited, same-length different trees, differing numbers of features/constants, incomplete evaluations in between",
 "Tests reuse a context once or twice with the same expression; stale-cache and stale-scratch bugs need particular sequences.",
 [DE+"evaluate.rs",DE+"evaluate_derivative.rs",DE+"compile.rs"],["plan cache keyed by node hash and counts","scratch resized only when the shape changes"],["eval_tree_array_into","eval_diff_tree_array","eval_grad_tree_array","eval_plan_array_into"])
p("E04","Derivatives and gradients are the true partial derivatives",
 "For every expression and every point where it is differentiable, the forward derivative with respect to a feature and the gradient with respect to all features or all constants equal the true partial derivatives (chain rule over the expression), including being zero for anything the expression does not depend on. The values returned alongside are those of plain evaluation, and the gradient of one direction agrees with the forward derivative in that direction.",
 ["programs","inputs"],"all expressions and operators, all rows, all directions (features and constants), away from non-differentiable points",
 "The existing finite-difference test uses a small fixed operator set and a narrow domain; every operator, operand kind and slot layout has its own code path.",
 [DE+"evaluate_derivative.rs",DE+"evaluate.rs",DE+"operator_enum.rs"],["partial derivative of every operator","tangent propagation per operand kind, direction-major gradient slabs"],["eval_diff_tree_array","eval_grad_tree_array"])
p("E05","Custom operator sets behave exactly as declared",
 "An operator set declared by the user evaluates, differentiates, prints and looks up each operator with exactly the function, partial derivatives, name, symbol and attributes declared for it, for any number and order of operators and arities. Identifiers map one-to-one to declared operators.",
 ["programs","inputs"],"all declared sets used (arities 1-5, mixed orders), all expressions over them, all inputs",
 "Tests declare two or three sets and check single calls; id/arity/order confusion only shows in mixed expressions.",
 [DE+"operator_enum.rs",DE+"traits.rs"],["macro-generated dispatch tables"],["custom_opset!","opset!"])
p("E06","Simplification preserves an expression's value and never makes it larger",
 "Simplifying an expression in place (constant folding, operator combination, or both) yields a well-formed expression with no more nodes, no greater depth and no new variables, whose value equals the original's up to floating-point rounding on every input where the original is finite. If simplification reports that nothing changed, the expression is unchanged, and repeated simplification reaches a fixed point (unless a constant subexpression has no finite value to fold to).",
 ["programs","inputs"],"all expressions over any operator set with addition, subtraction and multiplication in any position, all inputs",
 "Tests check selected rewrite patterns; rewrites interact with each other, with operator identifiers of other arities and with constants of the surrounding tree.",
 [DE+"simplify.rs",DE+"utils.rs"],["constant folding","add/mul/sub constant combination patterns","constant compaction"],["simplify_in_place","simplify_tree_in_place","combine_operators_in_place"])
p("E07","Reading, writing and compacting constants preserve the expression's meaning",
 "Writing back the constants that were read leaves an expression unchanged, and writing new ones changes exactly those positions. Compacting constants keeps the tree shape and the value every constant leaf refers to, leaves no unused constant, orders them by first use and reports whether anything changed.",
 ["programs","inputs"],"all expressions, including shared, unused and out-of-order constant references",
 "Tests cover three hand-written layouts.",
 [DE+"utils.rs"],["index remapping in first-use order"],["get_scalar_constants","set_scalar_constants","compress_constants"])
p("E08","Tree measures agree with the tree",
 "Well-formedness, node, operator, variable and constant counts, depth, maximum arity, and the sizes and ranges of subtrees reported for an expression equal those of the tree it encodes, and ill-formed sequences are recognised as such. A bottom-up fold over an expression visits each node once and combines children in order.",
 ["programs"],"all node sequences, well-formed or not",
 "Tests use a few literal trees.",
 [DE+"node_utils.rs"],["stack scans over postfix order"],["count_depth","subtree_sizes","subtree_range","is_valid_postfix","tree_mapreduce"])
p("E09","The printed form of an expression denotes that expression",
 "Parsing the printed text of an expression with the printer's own rules (operator tokens, infix with parentheses, function calls, variable names by position, shortest round-trip numbers) gives back the same tree with the same constants, and printing is the same through every printing entry point. Different trees never print identically except where the tokens themselves coincide.",
 ["programs","inputs"],"all expressions, constants (negative, huge, tiny, integral), variable-name lists shorter or longer than needed",
 "Tests compare a few literal strings; parenthesis stripping can merge different trees only for particular shapes.",
 [DE+"strings.rs"],["parenthesisation and outer-parenthesis stripping","name fallback"],["string_tree","Display"])
p("E10","Building expressions with operators and functions yields the expected tree",
 "Combining expressions with +, -, *, /, unary minus, literals or the named operator functions yields an expression whose tree is that operator applied to the operands in order, with every operand's constants intact and variable names kept from the first operand that has them. Its value is the operator applied to the operands' values.",
 ["programs","inputs"],"all nestings of all operator functions over all operand expressions",
 "Tests build a few one-level expressions; constant re-indexing matters only with several constants on both sides.",
 [DE+"expression_algebra.rs",DE+"operators.rs"],["constant index shifting on concatenation","wrapper to operator mapping"],["core::ops impls","operators::*"])
p("E11","Operator lookup resolves every token to the right operator or a clear error",
 "Looking up a token resolves to the operators whose name (ignoring case), display or infix symbol equals it after trimming: exactly one match gives that operator, none gives an unknown error, several an ambiguity error naming all of them. Selecting operators by names and arities, by builder, or by library default yields exactly the requested set, grouped by arity, and rejects unknown or wrong-arity requests.",
 ["inputs","configurations"],"all tokens (any case, padding, garbage), all lists of tokens per arity",
 "Tests check a few tokens.",
 [DE+"traits.rs",SR+"operators.rs",SR+"operator_library.rs"],["token matching","per-arity selection"],["lookup","lookup_with_arity","Operators::from_names_by_arity"])

p("S01","Loss functions and their derivatives match their definitions",
 "Each built-in loss equals its textbook definition averaged over rows (weighted mean when weights are given), is finite whenever each of its terms and their sum is representable, is non-negative and zero for a perfect prediction, and its reported derivative with respect to each prediction is the true derivative wherever one exists. Loss names parse to the loss they name and to nothing else.",
 ["inputs"],"all prediction/target/weight vectors and parameters, both precisions",
 "Tests check a few points per loss with small residuals.",
 [SR+"loss_functions.rs"],["pointwise losses and weighted means"],["mse..epsilon_insensitive","LossKind::parse"])
p("S02","A candidate's recorded loss, cost and complexity are the true ones",
 "Evaluating a candidate records the loss of its predictions on the given data, the complexity of its expression, and a cost equal to that loss divided by the baseline loss (at least 0.01) plus parsimony times complexity; if any intermediate value or the loss is not finite the evaluation fails and records infinite loss and cost. Weights, baseline and reused evaluation buffers never leak from one candidate into another.",
 ["inputs","programs","histories"],"all expressions, datasets, weights, parsimony/baseline settings, any order of evaluations on one evaluator",
 "Tests check one linear expression and one normalisation.",
 [SR+"pop_member.rs",SR+"loss_functions.rs",SR+"complexity.rs"],["evaluation into shared buffers","baseline normalisation"],["PopMember::evaluate","loss_to_cost"])
p("S03","Complexity is the declared weighted node count",
 "The complexity of an expression is the sum over its nodes of the configured cost of that node: per-variable, per-constant and per-operator overrides where given and one otherwise. With default settings it equals the node count.",
 ["programs","configurations"],"all expressions and all complexity settings",
 "Tests check two expressions.",
 [SR+"complexity.rs",SR+"options.rs"],["custom complexity fold"],["compute_complexity"])
p("S04","The constraint check accepts exactly the expressions that satisfy the limits",
 "An expression is accepted if and only if its complexity is at most the current size limit, its depth at most the depth limit, every operator argument's complexity is within that argument's limit, and no operator contains more nested occurrences of another operator along a path than allowed. The same limits are enforced with default and with custom complexities.",
 ["programs","configurations"],"all expressions, all limits, nested limits, argument limits and complexity settings",
 "Tests check one expression per constraint kind.",
 [SR+"check_constraints.rs",SR+"complexity.rs"],["depth check shortcut","argument limit check in two code paths","nestedness fold"],["check_constraints"])
p("S05","The hall of fame keeps the best candidate per complexity and a true Pareto front",
 "After any history of offers, the entry for each complexity is an offered, constraint-satisfying candidate of that complexity with the lowest cost offered so far, and is replaced only by a strictly better one. The Pareto front lists, by increasing complexity, exactly the entries of finite loss that is strictly below that of every simpler entry.",
 ["histories"],"all sequences of offered candidates, costs (ties, infinities), complexities inside and outside the limit, varying size limits",
 "Tests exercise no sequences.",
 [SR+"hall_of_fame.rs"],["per-complexity best","running minimum front"],["HallOfFame::consider","HallOfFame::pareto_front"])
p("S06","Every random change to an expression is well-formed and does only what it names",
 "Each mutation and random generator produces a well-formed expression using only configured operators, existing features and its own constants, within the requested size, and changes only what it names: a constant change scales one constant (by at most perturbation factor times temperature plus 1.1, up or down, or its sign), an operator change swaps one operator for one of equal arity, a feature change replaces one variable, operand swap and rotation keep the multiset of nodes, add/insert adds one operator with leaf arguments, delete removes one operator, and crossover exchanges one subtree of each parent. Every alternative a change allows (feature, operator, constant, operand position, node) can come up, and when no enabled change applies to an expression it is left as it is. Parents are never modified.",
 ["programs","inputs","configurations"],"all expressions, operator sets, feature counts and random streams",
 "Property tests exist for rotation only; regressions are single seeds.",
 [SR+"mutation_functions.rs",SR+"mutate.rs"],["postfix splicing","constant re-indexing"],["next_generation","random_expr","random_expr_append_ops","rotate_tree_in_place","insert_random_op_in_place"])
p("S07","An evolution step returns a legal child with true scores or the unchanged parent",
 "One mutation step of evolution returns a fresh candidate with a new identifier, the given birth order and a link to its parent: if accepted, its expression satisfies all constraints and its recorded complexity, loss and cost are (up to rounding, when the step was a simplification) those of that expression on the given data; if rejected, it carries the parent's expression and scores unchanged. With acceptance criteria disabled a legal finite child is always accepted; with annealing it is accepted with probability exp(-cost increase / (temperature x alpha)), times the ratio of old to new complexity frequency when frequencies are used, capped at one; and identifiers and birth orders advance by exactly one. A crossover step likewise returns two legal children with true scores, or the two parents.",
 ["programs","inputs","configurations"],"all parents, mutation kinds, limits, temperatures, statistics and random streams",
 "Tests cover one retry scenario.",
 [SR+"mutate.rs"],["retry loop, acceptance rule, reject path"],["next_generation"])
p("S08","Constant optimisation never makes a candidate worse",
 "Optimising a candidate's constants changes nothing but its constants, scores and birth order, reports improvement only if the loss on the given data strictly decreased, and then the recorded loss is the true loss of the new constants; otherwise constants, scores and birth are exactly as before. It converges to the least-squares solution for expressions linear in their constants when given enough iterations.",
 ["programs","inputs","configurations"],"all expressions, datasets (including ones where evaluation fails nearby), losses, weights, restart counts and random streams",
 "Tests fit one line and one restart scenario.",
 [SR+"constant_optimization.rs",SR+"optim.rs"],["BFGS/Newton with backtracking, restarts, restore on failure"],["optimize_constants"])
p("S09","Tournament selection returns the intended competitor",
 "Selection draws distinct members, ranks them by cost adjusted for how common their complexity is (adjusted costs beyond the float range count as equal), and returns the k-th best with the declared truncated geometric probabilities; with certainty probability one and the whole population entered it returns a member of minimal adjusted cost. It always returns a population member, never fails, and a member with infinite cost never beats one with finite cost.",
 ["inputs","configurations","histories"],"all populations (ties, zero, infinite costs), statistics, tournament sizes and probabilities, random streams",
 "Tests compare one frequency setting on a fixed population.",
 [SR+"selection.rs",SR+"adaptive_parsimony.rs"],["frequency-adjusted sort","truncated geometric place"],["best_of_sample"])
p("S10","Complexity statistics stay a valid bounded distribution",
 "After any history of updates, the running complexity statistics hold a non-negative count for every complexity, their total never exceeds the window after it is moved unless all are at their minimum, moving the window never raises a count or drops one below one, and the normalised frequencies are those counts divided by their total. Sizes outside the range are ignored.",
 ["histories"],"all sequences of updates, window moves and normalisations for all window sizes",
 "Tests use the initial state only.",
 [SR+"adaptive_parsimony.rs"],["window shrinking loop"],["RunningSearchStatistics"])
p("S11","Datasets and batches hold exactly the user's rows",
 "A dataset built from any memory layout of the same values (row- or column-major, strided, reversed views) behaves identically: same features, targets, weights and weighted mean. A resampled batch consists of rows of the full data with features, target and weight kept together, every row equally likely, and the requested size.",
 ["inputs"],"all matrices, layouts, weights, batch sizes and random streams",
 "Tests use standard-layout arrays.",
 [SR+"dataset.rs"],["layout normalisation","row resampling"],["Dataset::new","Dataset::with_weights_and_names","resample_from"])
p("S12","Every search result is valid and reports true scores",
 "For any valid configuration, dataset, seed, number of worker threads (from one up, called from inside or outside of their pool) and thread schedule a search completes, and every candidate it reports is well-formed, uses only configured operators and existing features, satisfies all constraints, is filed under its own complexity, and carries the loss and cost of its printed expression on the full dataset. The best candidate satisfies the constraints whenever any candidate seen did, and its loss is no worse than any reported candidate's.",
 ["configurations","inputs","schedules"],"all option combinations (batching, migration, warmup, custom complexity, constraints, losses, weights), datasets, seeds, worker counts",
 "Tests run two or three small searches and look only at the final error.",
 [SR+"search_utils.rs",SR+"single_iteration.rs",SR+"regularized_evolution.rs",SR+"migration.rs"],["population loop, batching, hall of fame updates, migration"],["equation_search","SearchEngine"])
p("S13","Searches are reproducible and independent of how they are stepped",
 "Running a search twice with the same data, options and seed gives identical results, whether it is run to completion, stepped in any pattern of increments with observation in between, or run as the one-worker parallel search. Display settings never influence results.",
 ["histories","configurations","inputs"],"all step patterns, seeds, options and datasets",
 "Tests never compare two runs.",
 [SR+"search_utils.rs",SR+"progress_bars.rs"],["engine state machine vs scoped loop","per-population random streams"],["SearchEngine::step","SearchEngine::run_to_completion","equation_search"])
p("S14","Progress only moves forward during a search",
 "While a search is stepped, the number of completed cycles rises by exactly the number reported until it reaches iterations times populations, when it is finished and further steps do nothing; evaluation counts never decrease; every hall-of-fame entry's cost, and the best loss once the best satisfies the constraints, never get worse; and during size warm-up no evolution cycle puts a candidate above its size limit into the hall; that limit rises linearly from 3 to the maximum over the warm-up fraction of the cycles.",
 ["histories","configurations"],"all step patterns and options, observing after every step",
 "Tests look at final results only.",
 [SR+"search_utils.rs",SR+"warmup.rs",SR+"hall_of_fame.rs"],["cycle counters","warm-up schedule","monotone best tracking"],["SearchEngine::step","cycles_completed","total_evals","best","hall_of_fame"])
p("S15","Options survive the serialised form and are applied completely",
 "Serialising options and reading them back gives the same values for every field, missing fields take the documented defaults, and applying them to a search configuration sets every listed field and nothing else.",
 ["inputs","configurations"],"all field values and all subsets of fields present",
 "Tests do not cover the wire format of all fields.",
 [SR+"options.rs"],["macro-generated option lists"],["WasmOptionsShim"])
p("S16","Candidate identity and age are consistent across a population's life",
 "Within a search no two different expressions ever carry the same identifier in a reported set, replacing the oldest member removes the member with the smallest birth, replacing the two oldest removes the two smallest, and all other members are untouched. Migration copies candidates under fresh identifiers and births and leaves the members it does not replace alone.",
 ["histories","configurations"],"all populations with arbitrary births (ties included) and all search histories",
 "Tests use one four-member population.",
 [SR+"population.rs",SR+"search_utils.rs",SR+"single_iteration.rs"],["oldest-index scan","id assignment on change"],["Population::replace_oldest","Population::replace_two_oldest","SearchEngine::hall_of_fame"])

p("S17","A search's populations stay truthful and nothing they hold is lost",
 "After set-up and after every cycle each population has the configured number of members, and each member carries the complexity, loss and cost of its very expression on the full dataset (batching or not) and an evaluation plan that gives them. A cycle changes only the population whose turn it is, and each has one turn per iteration. For every member within the limits the hall of fame has an entry of that complexity at no higher cost, and the best candidate has no higher loss. Unless failed moves are kept, no two members of a population share an identifier or a birth. The running size statistics count exactly the sizes of each finished cycle's population.",
 ["histories","configurations"],"all configurations and cycle histories",
 "Tests look at final results of a few searches, not at the populations between cycles.",
 [SR+"search_utils.rs",SR+"single_iteration.rs",SR+"regularized_evolution.rs"],["execute_task","apply_task_result","init_populations"],["SearchEngine::step","SearchEngine::populations","SearchEngine::hall_of_fame","SearchEngine::statistics"])

p("W01","Uploaded CSV text becomes exactly the dataset it describes, or a clear error",
 "For any CSV text, header setting and column selection, the web session either uses exactly the numbers in the selected columns as inputs, target and weights, in column order with the right names (the last column is the target and all others are inputs unless selected otherwise), or returns an error: rows of differing length, fields that are not numbers, tables without rows, and out-of-range or overlapping selections are errors. It never panics, drops or shifts rows. Quoted, padded and blank-line CSV variants of the same table give the same dataset.",
 ["inputs"],"all CSV texts (headers, quoting, blank lines, ragged or non-numeric rows) and selections",
 "Tests parse a few literal tables.",
 [W],["CSV parsing and column selection"],["WasmSearch::new","best_equations","evaluate_member"])
p("W02","Train/validation split partitions the rows reproducibly",
 "For any row count, validation fraction and seed, the split indices form two disjoint sets covering all rows, with at least one training row and the requested validation share, are identical for the same seed, and the search trains on exactly the training rows. Fractions outside 0 to 0.9 count as the nearest of these. Over seeds, every row is equally likely to be held out.",
 ["inputs","configurations"],"all row counts, fractions and seeds",
 "Tests check one split size.",
 [W],["seeded shuffle split"],["WasmSearch::get_split_indices","evaluate_member"])
p("W03","Reported fit metrics are the correct statistics of the shown equation",
 "The metrics reported for an equation on the training or validation rows (mean squared, mean absolute, root mean squared, smallest and largest absolute error, weighted coefficient of determination, unweighted correlation) equal their definitions computed from that equation's predictions and the selected rows and weights, and the returned predictions are those of the printed equation.",
 ["inputs","programs"],"all datasets, weights and equations reached by a search",
 "Tests check one perfect fit.",
 [W],["metric accumulation","weighted r2 / correlation"],["WasmSearch::evaluate_member"])
p("W04","The web session reports the engine's real state and accepts only valid settings",
 "Stepping a session yields snapshots whose counters, best equation and Pareto points match the underlying search with the same options, options given as JSON have the same effect as setting them natively, and each reported point can be re-evaluated by its identifier to exactly the reported equation. Unknown operators, losses or member identifiers and out-of-range columns are answered with an error rather than a panic, and a refused request leaves the session usable.",
 ["histories","configurations","inputs"],"all option objects, operator selections, step patterns and member identifiers",
 "Tests call one happy path.",
 [W],["snapshot assembly","member lookup by id","options translation"],["WasmSearch::step","best_equations","evaluate_member"])
U="web/ui/src/"
p("U01","The search worker obeys every message history",
 "Whatever order the page's requests (initialise, start, pause, reset, step, evaluate), the loading of the engine and the worker's own timer turns come in, the web client's worker advances the search only while it has been started and not since been paused, reset or re-initialised; every snapshot and front it sends is the state of the current search; a completed run reports done once, after sending the final state; a running search keeps reporting; each evaluate, step, reset and initialise request is answered, an evaluation by exactly the requested member, rows and request identifier; a request cancelled by a later reset or initialise has no later effect; requests without a search are refused with an error and any failure of the engine is reported as one.",
 ["histories","schedules","faults"],"all message sequences, all interleavings of messages, timers and engine loading, engine faults at any cycle",
 "The repository has no test of the worker.",
 [U+"worker/srWorker.ts"],["run loop against message handler","initialisation awaiting the engine","snapshot and front intervals"],["srWorker onmessage","runLoop"])
p("U02","The web page shows results that belong together",
 "After any sequence of user actions and message deliveries, the status, snapshot, equation table, split, selection, evaluations, predictions and target values the page shows all belong to the current search and the selected equation: nothing of a replaced or reset search appears, predictions are paired with the targets and inputs of the very rows they were made for, a selected complexity follows the front to the equation now at (or nearest below) it, and a finished search shows its final state and is evaluated. The table preview equals the CSV text's table with the default column roles, and sorting a curve's points keeps them paired.",
 ["histories","schedules","inputs"],"all action and delivery sequences, all tables, selections and splits",
 "The repository's UI tests sample single components.",
 [U+"app/panes/searchSolutions/useSearchController.ts",U+"state/sessionStore.ts",U+"worker/srWorkerClient.ts",U+"app/panes/searchSolutions/plotUtils.ts"],["message handlers and selection following","evaluation cache keys","CSV preview and column defaults"],["useSearchController","useSessionStore","SrWorkerClient","sortXY"])
p("U03","Every control and figure of the page means what it is labelled",
 "Whatever the user types, ticks, picks, uploads, sorts or presses, and in whatever order files and the worker's messages arrive: each field of the page changes exactly the option or operator it names and shows its current value, and a search is asked for with exactly the table, options, operators and column roles on the page; column pickers only ever yield existing, disjoint roles, also when a table of another width replaces the one they were picked for; the file chosen last is the one shown; the preview, column statistics, equation table (in the chosen order), metrics, plots, progress and status show the numbers of the table, search, equation and rows they name; a click on an equation or on a point of a plot selects and evaluates that very equation; buttons are enabled exactly when what they do is possible; moving between the panes changes neither the entries nor the search.",
 ["histories","inputs","schedules"],"all sequences of user actions on the rendered page, all tables, option values and message schedules",
 "The repository's UI tests render two components with one fixed table.",
 [U+"app/App.tsx",U+"app/panes/EnterData.tsx",U+"app/panes/ModelingTask.tsx",U+"app/panes/SearchSolutions.tsx",U+"app/panes/searchSolutions/SolutionsTableCard.tsx",U+"app/panes/searchSolutions/FitPlot.tsx",U+"app/panes/searchSolutions/ParetoPlotCard.tsx",U+"app/panes/searchSolutions/ControlsCard.tsx",U+"state/sessionStore.ts"],["field to option bindings","column role pickers","keys of lists","values of plots and tables"],["App","EnterData","ModelingTask","SearchSolutions"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
