AI = "abstract interpretation of the clang-extracted program with ghost typestate monitors"
AI2 = "abstract interpretation of the clang-extracted program computing a symbolic input/output summary"

prop("M01", "A membership query replays exactly the queried timed word",
     "For every timed word, asking the wrapped system for membership resets it once, feeds it every delay and action of that word, unchanged and in order, starting and ending with a delay, then signals the end once. The answer returned is the system's output after the last delay.",
     ["inputs", "histories"], "all timed words of any length, all system outputs",
     "The membership oracle is only tested on a handful of short words; feeding order, the final delay and the empty word are not enumerated.",
     [I + "membership_oracle.hh", I + "sul.hh"], [("replay of a timed word on the wrapped system", I + "membership_oracle.hh: system membership oracle")],
     "calls reaching the wrapped system and the returned boolean", AI,
     "All paths of the query, unbounded word length (loop invariants by widening); trusts the models of std::string/std::vector and that a timed word has one more delay than actions.")

prop("M02", "Caching never changes a membership answer",
     "A cached membership oracle answers a word it has stored with the stored answer without consulting the system, and answers any other word with exactly what the wrapped oracle answers for that same word, remembering that answer under that word only. Two timed words count as the same word exactly when their actions and all their delays agree.",
     ["inputs", "histories"], "all timed words, all cache contents",
     "Tests compare a few answers; a wrong answer needs a particular pair of words or history of queries.",
     [I + "membership_oracle.hh", I + "timed_word.hh"], [("answer cache", I + "membership_oracle.hh: caching membership oracle"), ("identity and hash of timed words", I + "timed_word.hh")],
     "returned boolean, queries reaching the wrapped oracle", AI,
     "One query from an arbitrary cache: summary of answer and cache update on every path, plus equality/hash consistency of the key type.")

prop("M03", "A symbolic query tests every part of the language and reports the accepted ones",
     "A symbolic membership query asks membership of a sample of every simple part of the queried language exactly once and in one pass. It answers with the empty set when none is accepted, with the full timing condition when all are accepted, with the convex hull only when the hull consists of exactly as many parts as were accepted, and otherwise with the union of exactly the accepted parts. A repeated query of the same language returns the first answer.",
     ["inputs", "histories"], "all queried languages, all answers of the membership oracle, all cache contents",
     "The tests query a few conditions on one automaton; skipping a part, or accepting a hull that is too big, shows only for particular acceptance patterns.",
     [I + "symbolic_membership_oracle.hh"], [("symbolic query", I + "symbolic_membership_oracle.hh: query")],
     "membership queries issued and the returned set of conditions", AI,
     "Enumeration, sampling, hull and reduction are uninterpreted operations; the check decides which parts are asked, recorded and returned on every path, for any number of parts.")

prop("L01", "The learner only returns an automaton its equivalence oracle approved",
     "Learning returns a hypothesis only after the equivalence oracle answered that this very automaton has no counterexample. Every counterexample is given to the observation table before the next hypothesis is built, and a hypothesis is built only when closedness, consistency, exterior consistency and time saturation were all established with no change to the table in between.",
     ["histories", "inputs"], "all sequences of table updates and oracle answers",
     "The learner loop has no unit test at all; its control flow is only run by the example programs.",
     [I + "learner.hh"], [("learning loop", I + "learner.hh: run")], "returned automaton, calls to the oracle and the table", AI,
     "Typestate of the loop over all outcomes of the table conditions and the oracle; says nothing about termination.")

prop("E01", "Composite equivalence oracles neither drop nor invent counterexamples",
     "A chain of equivalence oracles asks its members in order about the given hypothesis, stops at the first counterexample and returns it, and reports equivalence only after every member did. A memorising oracle first replays the remembered counterexamples, asks the wrapped oracle when these do not distinguish, returns what it found, and remembers every counterexample of the wrapped oracle.",
     ["inputs", "histories", "configurations"], "any number of members, all answers of the members, any remembered words",
     "Tests never build a chain and replay at most one remembered word.",
     [I + "equivalance_oracle_chain.hh", I + "equivalence_oracle_memo.hh"],
     [("chain", I + "equivalance_oracle_chain.hh"), ("memo", I + "equivalence_oracle_memo.hh")], "returned counterexample, calls to the members, remembered words", AI,
     "All paths, unbounded number of members.")

prop("E02", "The automata-based equivalence check decides both inclusions",
     "The automata-based equivalence oracle reports equivalence only if it found both the intersection of the hypothesis with the target's complement and the intersection of the target with the hypothesis's complement empty. Any counterexample it returns is a witness found in one of these two intersections.",
     ["inputs"], "all targets, complements and hypotheses",
     "Tests run a few pairs of automata; a wrong operand or a skipped direction is hidden whenever the other direction already yields a counterexample.",
     [I + "timed_automata_equivalence_oracle.hh"], [("two inclusion checks", I + "timed_automata_equivalence_oracle.hh")], "returned counterexample or equivalence verdict", AI,
     "Intersection, complement, simplification and zone construction are uninterpreted operations with their documented language meaning; the check decides which products are explored and how the verdict follows.")

prop("E03", "Test-based equivalence oracles compare outputs step by step",
     "The test-based equivalence oracles reset both automata before every word, feed both the same inputs in the same order, and compare the two outputs after every delay and every action. They stop at the first difference and return exactly the word fed so far (closed by a zero delay after an action); they report equivalence only if no comparison differed, and the recorded-words oracle only after replaying every recorded word completely.",
     ["inputs", "histories"], "all automata, all recorded words, all random choices and test budgets",
     "Random and recorded tests are exercised on a couple of automata where a difference shows immediately.",
     [I + "equivalence_oracle_by_test.hh", I + "equivalence_oracle_by_random_test.hh"],
     [("replay of recorded words", I + "equivalence_oracle_by_test.hh"), ("random testing", I + "equivalence_oracle_by_random_test.hh")], "inputs fed to the two automata and the returned word", AI,
     "All paths, unbounded number and length of words; the two automata are abstract systems with arbitrary outputs.")

prop("T01", "Timed words are kept in normal form and combined without losing time or events",
     "A timed word built from actions and delays drops the unobservable actions, adding the delay after each to the delay before it, and keeps every other action and delay in order. Appending a word joins the two at the boundary by adding the last delay of the first to the first delay of the second; appending an action adds it with a zero delay; appending a delay adds to the last delay; the operands stay unchanged. The suffix after a prefix is what must be appended to the prefix to obtain the word. Entry i of the accumulated delays is the sum of all delays from i to the end.",
     ["inputs"], "all words and delays of any length",
     "Tests build a few words; unobservable actions next to each other, at the ends, or empty operands are hardly sampled.",
     [I + "timed_word.hh"], [("construction, concatenation, suffix, accumulated delays", I + "timed_word.hh")],
     "actions and delays of the resulting word", AI2,
     "Unbounded length: the constructor and the accumulation are followed in lock step with their definition; concatenation and suffix as sequence summaries. Delays are mathematical reals.")

prop("R01", "A running automaton follows its enabled transitions",
     "Starting a run puts the automaton in its initial state with all clocks at zero and counts one query. For every action, the first listed transition of the current state for that action whose guard constraints all hold at the current clock values is taken: its resets are applied simultaneously to the clock values before the step, its target becomes the current state, and the output is whether the target accepts. When no transition applies, the run enters a sink in which every further step answers false; an automaton without states answers false throughout.",
     ["inputs", "histories"], "all automata, clock values, actions and step sequences",
     "Tests run two automata with small clock values; overlapping or missing transitions, resets reading other clocks and continued runs after a rejected action are not covered.",
     [I + "timed_automaton_runner.hh", I + "timed_automaton.hh", I + "renaming_relation.hh"],
     [("discrete step", I + "timed_automaton_runner.hh: step(action)"), ("start of a run", I + "timed_automaton_runner.hh: pre")], "boolean output of each step, current state and clock values", AI2,
     "Step function summarised over all automata and clock values; any number of transitions and resets. Applies to the plain runner.")

prop("R02", "Waiting advances all clocks and takes unobservable transitions when they become due",
     "In the sink and for an automaton without states waiting answers false. Waiting zero time changes nothing and answers whether the current state accepts. Otherwise the unobservable transition whose guard becomes satisfiable first is taken if that happens within the wait: all clocks advance to that moment, its resets apply, its target becomes the current state, and the rest of the wait continues from there. A guard becomes satisfiable after the longest wait one of its lower bounds needs, provided its upper bounds still hold then; a strict lower bound is met just after its constant. If none becomes due, all clocks advance by the whole wait and the output is whether the unchanged state accepts.",
     ["inputs", "histories"], "all automata with unobservable transitions, clock values and delays",
     "Tests contain one automaton with a single unobservable transition; several competing ones, strict bounds and expired guards are not covered.",
     [I + "timed_automaton_runner.hh", I + "constraint.hh"],
     [("waiting", I + "timed_automaton_runner.hh: step(duration)"), ("time until a guard holds", I + "constraint.hh: lowerBoundDurationToSatisfy")], "boolean output, current state and clock values after waiting", AI2,
     "Reals for doubles. The loop over pending unobservable transitions is decided one round at a time from an arbitrary configuration; that the loop ends is not claimed.")

prop("C01", "Clock constraints are evaluated, negated and compared by their meaning",
     "A constraint holds at a clock value exactly when its comparison does; the three-way test says whether the value is too small, fits or is too big. Negating a constraint, a guard constraint by constraint, or joining two guards gives exactly the constraints of that meaning, on the same clocks and in the same order. One constraint is weaker than another only if both bound the same clock from the same side and every value satisfying the other satisfies it. A guard is weaker than another if each of its constraints is weaker than some constraint of the other. Widening a guard removes exactly its lower bounds. Difference bounds derived from constraints, their sums, differences, negations and their point and unit-interval tests respect constants and strictness.",
     ["inputs"], "all clocks, constants, comparison operators, guards and clock values",
     "Tests list a few constants; the four operators in all combinations, ties of constants with different strictness and guards with several bounds on one clock are sampled only.",
     [I + "constraint.hh", I + "bounds.hh"],
     [("single constraints", I + "constraint.hh: Constraint"), ("guards", I + "constraint.hh: negateAll, conjunction, isWeaker, widen"), ("bounds", I + "bounds.hh")], "return values", AI2,
     "Full input/output summaries over all integers and reals; machine overflow of int constants is not modelled.")

prop("Z01", "Zone operations follow the definition of difference-bound matrices",
     "A zone is a matrix of difference bounds whose row and column 0 stand for the constant zero. Closing through a clock lowers every bound to the sum of the bounds via that clock when that is smaller; making a zone canonical closes through zero and every clock. Tightening lowers the one bound concerned, never raises it, and closes through both clocks; a guard constraint tightens the bound with its constant and strictness, a guard all of its constraints. Unconstraining a clock removes every bound in its row and column and no other; a reset clock has the bounds of zero; time elapse removes exactly the upper bounds of the clocks, reverse elapse lowers exactly their lower bounds to zero. Intersection is the entry-wise minimum made canonical. Inclusion and the equality tests compare all entries, leaving out only the parts of the diagonal they are documented to ignore. A zone is satisfiable exactly when no bound and its opposite add up to less than zero; the forms without the precondition make it canonical first. The unconstrained zone, the zero zone and the zone of one valuation have exactly the bounds of their name. Extrapolation widens exactly the bounds that exceed the maximum constants of their clocks.",
     ["inputs"], "all matrices of any dimension, clocks, bounds and maximum constants",
     "Tests use a few two- and three-clock zones; wrong rows, strictness and positions of larger zones go unnoticed.",
     [I + "zone.hh", I + "bounds.hh"],
     [("closure", I + "zone.hh: close1, canonize"), ("tightening", I + "zone.hh: tighten"), ("clock operations", I + "zone.hh: unconstrain, reset, elapse, reverseElapse"), ("set operations and tests", I + "zone.hh: operator&&, includes, operator==, isSatisfiable"), ("extrapolation", I + "zone.hh: extrapolate")], "entries of the resulting matrix and truth values", AI2,
     "Entries as reals with strictness, matrices of symbolic dimension; per-clock steps of loops followed in lock step. The identification of an unbounded entry with the largest double is not modelled beyond being a constant.")

prop("Z02", "Timed conditions keep their bounds on sums of delays exactly",
     "A timed condition over delays t0..tN keeps bounds on every sum ti+..+tj. Reading or restricting the bound of a sum concerns exactly that sum: a restriction never loosens it unless forced, and leaves the condition canonical. The condition around a valuation bounds every sum by the point, or the open unit interval, that contains its value (an exact one: always by the point). Concatenation keeps both operands' sums, adds the bounds of sums across the joint, and is canonical. The convex hull takes the weaker of every two bounds, conjunction the stronger. On elementary conditions the successor and prefix steps move each listed sum ti+..+tN, predecessor and suffix each listed sum t0+..+ti, to the adjacent point or open unit interval (up, down, up, down) and touch nothing else. Removing upper bounds concerns those of the sums ti+..+tN (all, or only the non-strict ones). Extending at the end or front adds a delay that is zero; removing the last variable keeps the other entries. Applying constant resets frees each reset variable and bounds it around the assigned value. The guard of a condition has exactly the finite upper and the non-trivial lower bounds of the sums ti+..+tN, with their strictness. Equality, inclusion, satisfiability, simplicity (every difference is a point or an open unit interval), the presence of a positive first or last delay, points, and the list of more strictly bounded variables are answered as these definitions say.",
     ["inputs"], "all timed conditions of any dimension, all bounds, indices, valuations and lists of variables",
     "Tests use conditions with one to three variables and few bounds; index shifts at the last variable, strictness, and the bounds across a joint depend on the dimension.",
     [I + "timed_condition.hh", I + "zone.hh", I + "bounds.hh"],
     [("bounds of sums", I + "timed_condition.hh: getLowerBound, getUpperBound, restrictLowerBound, restrictUpperBound"), ("concatenation", I + "timed_condition.hh: operator+"),
      ("continuous steps", I + "timed_condition.hh: successor, predecessor, prefix, suffix"), ("variables", I + "timed_condition.hh: extendN, extendZero, removeN, applyResets"), ("guards and tests", I + "timed_condition.hh: toGuard, isSimple, includes, hasPrefix")], "entries of the resulting matrix, guard constraints and truth values", AI2,
     "Matrices of symbolic dimension, loops of any length. Bounds are whole numbers; step operations are checked on points and open unit intervals; enumeration into simple conditions, resets with renaming, removeZero and printing are not covered.")

prop("J01", "Juxtaposed zones keep both sides' bounds and add the shared ones",
     "Juxtaposing two zones gives a canonical zone over the variables of the left one followed by those of the right one: bounds between variables of the same side, and with zero, are that side's, and bounds across are unbounded. With L common variables (the last L of both) the right side's own variables follow those of the left one, bounds between common variables (and zero) are the stronger of both sides', and the other bounds of each side are that side's. The result depends on nothing but the two zones and L, also when it is remembered from an earlier call. Adding equalities bounds the difference of each listed left and right variable by zero in both directions, without loosening any bound, and leaves the zone canonical; the equalities read back are exactly the pairs of a left and a right variable whose difference is bounded by zero in both directions. The right part has the right side's bounds. Juxtaposing with a set of conditions juxtaposes each of them in order; adding equalities to a set adds them to every zone and keeps exactly the satisfiable ones; two sets are equal exactly when they have as many zones and each zone of one is equal to some zone of the other.",
     ["inputs"], "all pairs of zones of any dimension, numbers of common variables, lists of equalities, and sets of zones",
     "Row equivalence is decided on these zones; tests use two or three variables and at most one shared one, and cannot tell what a remembered result was computed from.",
     [I + "juxtaposed_zone.hh", I + "juxtaposed_zone_set.hh", I + "timed_condition.hh"],
     [("juxtaposition", I + "juxtaposed_zone.hh: constructors"), ("equalities", I + "juxtaposed_zone.hh: addRenaming, makeRenaming, getRight"), ("sets", I + "juxtaposed_zone_set.hh"), ("juxtaposed conditions", I + "timed_condition.hh: operator^, juxtaposeRight, juxtaposeLeft")],
     "entries of the resulting matrices, what is kept in the tables of results, listed equalities, members of sets", AI2,
     "Matrices of symbolic dimension. No bound is taken to be above the one that stands for unbounded; closing a matrix is decided by Z01. Zones equal as keys are taken to be equal.")

prop("A01", "The product automaton pairs states and transitions of its operands",
     "The product of two timed automata has, for every pair of their states, one state, accepting exactly when both are. Its initial states are all pairs of initial states, and the maximum constants of the first automaton are followed by those of the second. From every pair there is one transition for every two transitions with the same label, leading to the pair of their targets, and one unobservable transition for every unobservable transition of either automaton, in which the other stays where it is; transitions without a target yield none, and there are no others. Its guard and resets are those of the first, unchanged, followed by those of the second with every clock, also a clock copied by a reset, shifted by the number of clocks of the first.",
     ["inputs"], "all pairs of automata with any number of states, labels, transitions, guards and resets",
     "The product is only built inside one equivalence test; copied clocks, several transitions per label and unobservable transitions on both sides do not occur there.",
     [I + "intersection.hh", "src/intersection.cc"], [("product", "src/intersection.cc: intersectionTA")], "states, initial states, maximum constants and transitions of the product", AI,
     "Loop nests of any size: what every iteration adds, and that no combination is left out. The product starts empty; input and product states are different objects; adding an empty list of transitions for a label to an input state is taken to change nothing.")

prop("A02", "Copying, completing and complementing an automaton",
     "A deep copy of an automaton has one new state for every state, in the same order, with the same acceptance and the same transitions, whose targets are the copies of the original targets; its initial states are the copies of the initial states, and its maximum constants are the same. Completing an automaton for an alphabet appends one rejecting sink state, which becomes the initial state of an automaton that has none; existing states, transitions, initial states and maximum constants stay. For every state, the sink included, and every letter, transitions without resets to the sink are added: none if the state has an unguarded transition for the letter; otherwise one for every guard in the negation of the guards of the letter's transitions together with those of the state's unobservable transitions (these are left out if one of them is unguarded); and if there is no guard to negate, a single unguarded one. The complement of an automaton is the completed deep copy with the acceptance of every state, the sink included, inverted; the automaton itself does not change.",
     ["inputs"], "all automata with any number of states, letters, transitions and guards, with distinct letters other than the unobservable one",
     "Complements are only built of a few target automata in tests; letters without transitions in states with unobservable ones, and several guarded transitions per letter, are rare there.",
     [I + "timed_automaton.hh"], [("copy", I + "timed_automaton.hh: deepCopy"), ("completion", I + "timed_automaton.hh: makeComplete"), ("complement", I + "timed_automaton.hh: complement")], "states and transitions of the resulting automaton", AI,
     "Loop nests of any size. The negation of a list of guards (a list of guards for its parts) is taken as it is; the destination of a copy starts empty, and transitions lead to states of the automaton.")

prop("F01", "Fractional orders group the variables by equal fractional parts",
     "A fractional order lists groups of variables by increasing fractional part; the first group, possibly empty, holds those whose fractional part is zero. Building one from fractional parts, each at least zero and less than one, puts every variable in exactly one group: together exactly when the parts are equal, and later groups have greater parts. Elapsing time empties a non-empty first group by putting an empty one in front, and otherwise moves the last group to the front; stepping back drops an empty first group, and otherwise moves the first group to the end leaving the first empty. The variables to elapse are those of the last group when the first is empty and otherwise of the first; those to step back are of the second group when the first is empty and otherwise of the first. Extending at the end adds the new last variable to the first group, removing the last variable undoes this, and extending at the front raises every variable by one and adds variable zero to the first group. Two orders are equal exactly when their groups and sizes are.",
     ["inputs"], "all fractional orders with any number of groups and variables",
     "Tests use orders of two or three variables; equal parts, empty first groups and renaming with several groups are sampled.",
     [I + "fractional_order.hh"], [("order on fractional parts", I + "fractional_order.hh: constructor, successor, predecessor, extendN, extendZero, removeN, operator==")], "groups and size of the resulting order", AI2,
     "Groups and variables of any number; the loop that raises the variables and the grouping loop are followed element by element. Sorting is trusted to sort; hashing and printing are not covered.")

prop("F02", "Elementary languages move word, timing condition and fractional order together",
     "A discrete step of a forward regional language appends the action and extends condition and order at the end; of a backward one, puts the action in front and extends both at the front. A continuous step moves the condition along the variables its order names and steps the order the same way, keeping the word. The immediate prefix of a forward language undoes a continuous step when the last delay can be positive, otherwise drops the last action and the last variable of condition and order, and is absent only for the empty word without such a delay; the list of prefixes is the chain of immediate prefixes from the shortest to the language itself. The language around a timed word has its actions, the condition around the sums of its delays to the end, and the order of the fractional parts of its sums of delays (to the end for a forward one, from the start for a backward one). The suffix of a language after a prefix is the backward language around the word left of a sample of the language, restricted to the delays of the prefix's sample, after removing the prefix's sample. Concatenation, equality, removal of upper bounds, resets, convex hull and the list of simple parts act on word and condition as these parts do. A timed word belongs to a language exactly when the actions agree and the condition is satisfiable after bounding every delay from both sides by its value; restricting to a prefix bounds exactly the delays before each of its actions.",
     ["inputs"], "all elementary and regional languages and timed words of any length",
     "Tests step through a few languages with one or two actions; word, condition and order are rarely compared all three.",
     [I + "elementary_language.hh", I + "forward_regional_elementary_language.hh", I + "backward_regional_elementary_language.hh"],
     [("elementary languages", I + "elementary_language.hh"), ("forward regional languages", I + "forward_regional_elementary_language.hh"), ("backward regional languages", I + "backward_regional_elementary_language.hh: steps and construction from a word")], "word, condition and order of the resulting language", AI2,
     "Timing conditions and fractional orders are uninterpreted (their operations are decided by Z02 and F01); words of any length, delays as reals. Not covered: sampling, printing, hashing, the immediate suffix and prefixes of backward languages.")

prop("Q01", "Rows are equivalent under a renaming exactly when prefixes are compatible and all columns agree",
     "The comparison of two rows under a renaming (in each of its forms) accepts exactly when the juxtaposition of the two prefixes' timing conditions with the renaming's equalities is satisfiable and, for every suffix, the juxtaposition of the left cell with the right concatenation and the juxtaposition of the left concatenation with the right cell, both sharing as many variables as the word of that suffix is long and both with the renaming's equalities, are the same set of zones. The status of a cell is bottom exactly when it is empty, top exactly when it is the single condition that equals the concatenation's, and middle otherwise. The search for a deterministic renaming offers only the empty renaming or a generated candidate, extended with the equalities implied by the two prefixes when it is not empty, that passes this comparison on all columns given; it offers none only when two cells of one column have different status (or only one of them is empty), or when the empty renaming and every generated candidate fail the comparison.",
     ["inputs"], "all pairs of rows with any number of columns, and all renamings",
     "Tests compare rows of one or two columns; a comparison that skips a column or pairs the wrong cells answers the same on them.",
     [I + "equivalence.hh"], [("comparison under a renaming", I + "equivalence.hh: equivalence"), ("status of a cell", I + "equivalence.hh: decideStatus"), ("search for a deterministic renaming", I + "equivalence.hh: findDeterministicEquivalentRenaming")],
     "answers of equivalence, decideStatus and findDeterministicEquivalentRenaming", AI2,
     "Juxtapositions, their equalities and their comparison are uninterpreted (decided by J01); which candidates are generated is not covered, nor is findEquivalentRenaming, which the learner does not use. Rows, columns, concatenations and suffixes are supposed to be of the same number.")

prop("O01", "The observation table's cells are the oracle's answers and its rows are its prefixes",
     "Refreshing the observation table gives a table with one row per prefix and one cell per suffix, in which every cell missing before is the oracle's answer for the concatenation of its own prefix's language with its own suffix's language, together with that concatenation's timing condition; cells filled before stay as they are, and nothing else of the table changes. Moving row i to the rows P adds exactly i to P; adds exactly one prefix per letter of the alphabet, the discrete successor of prefix i by this letter, recorded as successor of i by this letter, and exactly one prefix that is the continuous successor of prefix i, recorded as such; no existing prefix or recorded successor changes. Its new cells are filled before any rows are compared, and the continuous successor is moved to P too exactly when the row comparison finds no renaming between it and row i.",
     ["inputs", "histories"], "all tables with any number of prefixes, suffixes, letters and rows in P",
     "Tests learn a few small languages; a cell filled from the wrong row, or a successor recorded under the wrong key, only shows for particular histories.",
     [I + "observation_table.hh", "src/observation_table.cc"],
     [("filling the table", I + "observation_table.hh: refreshTable"), ("moving a row to P", I + "observation_table.hh: moveToP")],
     "prefixes, recorded successors and cells of the table", AI2,
     "Oracle answers, languages and their successors are uninterpreted (decided by M03 and F02); loops over rows, columns and letters of any number.")

prop("O02", "Row comparisons answer only renamings that are true of the current rows",
     "Comparing two rows of the observation table, with or without the memory of earlier comparisons, answers a renaming only when this renaming makes the two rows, as they are now with all their current cells, equivalent, or says that there is none only when the search for a deterministic renaming of the two current rows finds none or the pair is remembered as distinct. What is remembered is true: a pair is remembered as distinct only after a search on the current rows found no renaming, and a renaming is remembered as relating two rows only when it was found for, or confirmed on, exactly these two rows in this direction. A remembered answer for a single column is used only for the same two rows and the same suffix while the table has as many columns as when it was remembered.",
     ["inputs", "histories"], "all tables and all sequences of earlier comparisons",
     "A remembered renaming that has become wrong when suffixes were added only shows in particular refinement histories.",
     [I + "observation_table.hh"],
     [("row comparison", I + "observation_table.hh: equivalent, equivalentWithMemo, equivalentWithColumn")],
     "answers of row comparisons and remembered pairs", AI2,
     "The search for a renaming and the test of a given renaming are uninterpreted. Memory is assumed true at entry.")

prop("O03", "Closedness, consistency, exteriors and saturation of the table are what they say",
     "The step that closes the table answers true only when every row is in P or is known to be equivalent to a row in P, and false only after it moved to P a row for which the comparison found no equivalent row in P. The consistency step answers true only when, for all pairs of rows in P known to be equivalent, their successors by every letter and by time are equivalent too unless no suffix can be found that tells the pair apart, and false only after it refined the table for a pair that violated this. Resolving an inconsistency appends one suffix, the predecessor by the same letter (or by time) of an existing suffix for which the two successor rows differ under the renaming, and fills the table; for time it gives up, changing nothing, only when there is no such suffix. The exterior-consistency step moves to P exactly the continuous successors of rows in P that are not yet in P and whose language has no equality with its last variables; the time-saturation step moves to P exactly those not in P that are not equivalent, under the empty renaming, to their row, and remembers for the others exactly the empty renaming to their row; both answer true exactly when nothing was moved and otherwise fill the table. Prefixes and suffixes are only ever appended.",
     ["inputs", "histories"], "all tables with any number of rows, suffixes and letters, and any refinement history",
     "The tests' languages go through few refinements; a skipped pair, letter or row leaves the tests' results unchanged.",
     [I + "observation_table.hh"],
     [("closing", I + "observation_table.hh: close"), ("consistency", I + "observation_table.hh: consistent, resolveDiscreteInconsistency, resolveContinuousInconsistency"), ("exteriors", I + "observation_table.hh: exteriorConsistent"), ("saturation", I + "observation_table.hh: timeSaturate")],
     "answers of the steps, rows in P, prefixes and suffixes of the table", AI2,
     "Moving and filling are used as decided by O01, comparisons as decided by O02; languages' steps are uninterpreted. Loop nests of any size.")

prop("O04", "A counterexample is reduced along the hypothesis and yields a new suffix, or its prefixes join P",
     "The hypothesis as a recognisable language has as prefixes the prefixes of all rows of P, as final ones those of them whose row has a non-empty first cell, and, for every row outside P that has a remembered entry for a row of P which passes the row comparison, exactly one morphism, from the row's prefix to the prefix of such a row of P with the renaming remembered for the two. A word is split by a morphism whose domain is one of the prefixes of the word's forward regional language: whole, with an empty suffix without delay, if the domain contains it; otherwise the prefix has the domain's letters, the word's delays before the last letter, and as last delay the word's own if it is within the domain's upper bound for these delays, this bound if it is not and the bound is closed, and otherwise the last delay of a sample of the domain with these delays; the suffix is what remains of the word. A morphism maps a word to the codomain's letters with the delays of a sample of the juxtaposition of the word's exact condition with the codomain's condition under the morphism's renaming. The language contains a word exactly when the prefix language reached by replacing, again and again, the split prefix by its image is final. The analysis of a counterexample reduces it the same way and answers a suffix only if the oracle answers differently before and after the reduction that left this suffix and no current suffix language contains it; it answers none only when there is no such suffix. Handling a counterexample, the table appends the backward regional language of the suffix found and fills its cells; without one it moves the rows of the prefixes of the counterexample's regional language that are not in P to P, one by one, closing the table after each, and stops early only after closing moved rows.",
     ["inputs", "histories"], "all counterexamples, hypotheses and tables",
     "A wrong split or image only matters for words on the border of a region or with several letters, and a wrong suffix only in some refinement histories.",
     [I + "counterexample_analyzer.hh", I + "recognizable_languages.hh", I + "single_morphism.hh", I + "observation_table.hh"],
     [("analysis", I + "counterexample_analyzer.hh: analyzeCEX"), ("reduction", I + "recognizable_languages.hh: split, contains"), ("image under a morphism", I + "single_morphism.hh: maps"),
      ("use of the suffix", I + "observation_table.hh: handleCEX"), ("hypothesis as a language", I + "observation_table.hh: toRecognizable")],
     "answers of analyzeCEX, split, maps, contains and toRecognizable, and the changes made by handleCEX", AI2,
     "Regional languages, samples, juxtapositions and oracle answers are uninterpreted. The prefixes of the counterexample are supposed to be rows of the table, as asserted. Termination of the reduction and the choice among several possible morphisms are not covered.")

prop("A03", "The zone automaton explores every enabled transition, and its search reconstructs a word for every run it extends",
     "Converting a timed automaton gives one initial state per initial state of the timed automaton, with its location and the zone in which all clocks and the absolute time are zero and the automaton's maximum constants, each registered for its location and zone. Every state is taken from the states to visit once, and conversion ends only when none is left, or, if a quick return is requested, when a word was found. When a state is taken, for every transition of its location that has a target, and for which the state's zone after time elapse meets the guard, and the zone after the resets is satisfiable, exactly one edge is added, with this transition and its letter, to a state registered for the transition's target whose zone includes the zone reached (elapse, guard, resets), or else to a new state with this target and the extrapolation of the zone reached, which is added to the states, to the states to visit, and registered; no other edges or states are added. Sampling starts with one run for each initial state; round by round it extends every run by every edge of its last state whose target exists and was not yet visited, and the target becomes visited; a run that ends in an accepting state is given to word reconstruction and the first word found is returned; nothing is returned only when no run is left. The memory of the sample repeats a word found before and otherwise samples anew. A symbolic run keeps the states, transitions and letters in the order they were added, with the exact zone reached by every transition (elapse, guard, resets), and its accessors return the i-th of them.",
     ["inputs"], "all timed automata, of any number of locations, transitions and clocks, and all zone automata",
     "An edge that is dropped, duplicated or given the wrong zone only matters for languages in which it is the only way to accept.",
     [I + "ta2za.hh", "src/ta2za.cc", I + "zone_automaton.hh", I + "zone_automaton_state.hh", I + "symbolic_run.hh"],
     [("construction", "src/ta2za.cc: ta2za"), ("search", I + "zone_automaton.hh: sample, sampleWithMemo"), ("symbolic runs", I + "symbolic_run.hh: SymbolicRun, push_back, stateAt, edgeAt, tightZoneAt")],
     "states, edges and zones of the zone automaton, runs given to word reconstruction", AI2,
     "The zone automaton is empty at the start. Zone operations are uninterpreted (see Z01); canonising is taken to keep the set of valuations. Word reconstruction from a run is uninterpreted. Termination is not covered.")

na("N01", "The learned automaton recognises the target language",
   "When learning ends, the returned automaton recognises exactly the timed language of the target system, provided the equivalence oracle is exact.",
   ["inputs", "histories", "programs"], "all deterministic timed automata as targets",
   "Examples check a handful of targets; the claim is about every recognisable timed language.",
   [I + "learner.hh", I + "observation_table.hh"], [("hypothesis generation", "src/observation_table.cc")], "language of the returned automaton",
   "Needs a proof about runtime timed languages (zones, morphisms, merging of transitions); no static argument over the source in reach decides language equality of the output.")
na("N02", "Learning terminates for every recognisable target",
   "For every target recognised by a deterministic timed automaton, learning stops after finitely many queries.",
   ["inputs", "histories"], "all targets and all counterexample choices",
   "Termination cannot be observed by tests that succeed.",
   [I + "learner.hh"], [("learning loop", I + "learner.hh")], "termination of learning",
   "Termination rests on a ranking over the (finite) monoid of the target's language, a semantic quantity that is not present in the source.")
