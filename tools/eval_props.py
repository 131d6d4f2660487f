prop("P21", "Every accumulator of the evaluation suite is a stack",
 "Every accumulator type the suite offers (linked lists, shared lists, lists of vectors, shared lists of vectors, the sequence editor, archive stacks with and without metadata, plain vectors) returns pushed elements last-in-first-out through the common interface, whatever archives, named or not, are made in between, and can be emptied and filled again. Archive stacks and the sequence editor keep each archive's contents, level and name, and linked accumulators the name of every named archive, in its place.",
 ["histories", "configurations"], "every history of pushes, pops and archives on each accumulator type, under the plain and the incremental engine",
 "The suite has no tests of its accumulators; wrong order or loss happens only when popping across a named archive, or after emptying.",
 ["eval/src/accum_lists.rs", "eval/src/interface.rs"],
 [("push, pop and archive of the lists", "eval/src/accum_lists.rs: IFaceSeq, IFaceArchive impls"), ("the interface over sequences, stacks and vectors", "eval/src/interface.rs")],
 [("list constructors", "elements, names and cells of a list", "eval/src/accum_lists.rs: List, RcList, VecList, RcVecList")],
 ["values returned by seq_pop"])
prop("P22", "Measured sequences hold what they are given, edited as their gauges say",
 "A sequence made from a size and gauges holds exactly the data its generator yields, an archive point after every data-gauge elements, and a unique name on every name-gauge-th of them; appending adds a batch of the generator's next data at the end, inserting adds one such batch, contiguous, at one place and changes nothing else, with gauges applied across edits and every computation offered equal to the same one on a plain list. The same generators and requests give the same history, and the test drivers and computors do the requested steps in order and report every one.",
 ["histories", "configurations"], "every size, pair of gauges, generator and history of edits, for sequences indexed by count and by name and for plain vectors",
 "The evaluation suite has one unit test, of a reference parser; measured inputs and drivers are never compared with what was asked for.",
 ["eval/src/eval_iraz.rs", "eval/src/eval_raz_name_index.rs", "eval/src/eval_vec.rs", "eval/src/actions.rs", "eval/src/test_seq.rs", "eval/src/test_build.rs"],
 [("creation by size and gauges", "eval/src/eval_iraz.rs: inc_init"), ("edits", "eval/src/eval_raz_name_index.rs: insert, append"), ("step sequence of a test", "eval/src/test_seq.rs: test"), ("builds of growing size", "eval/src/test_build.rs: test")],
 [("counter and name source", "where the next archive point and name go", "eval/src/eval_iraz.rs: struct EvalIRaz")],
 ["comp_fold_meta of the sequence", "results of the comp_* functions", "steps recorded by stand-ins"])
prop("P23", "Evaluation pipelines rerun after edits equal the plain computation",
 "Each computation the suite runs over a measured sequence (to list with any accumulator, tokenize then parse, filter, reverse, unique elements in a skip list, map, maximum and folds) gives, on the first run and again after every edit under the incremental engine, what the same computation gives on a plain vector of the current elements.",
 ["histories", "configurations"], "every sequence, history of edits, pipeline and choice of accumulators between its stages",
 "Only the reference parser is tested; the incremental pipelines are timed but their results are never looked at.",
 ["eval/src/actions.rs", "eval/src/eval_iraz.rs", "eval/src/accum_lists.rs", "src/raz.rs", "src/archive_stack.rs", "src/skiplist.rs"],
 [("folders, mappers and two-stage computations", "eval/src/actions.rs: Computor impls"), ("conversion between the stages", "src/raz.rs: memo_from"), ("gathering unique elements", "src/skiplist.rs: ext, get")],
 [("memoized results and cells under the stage's namespace", "what a rerun reuses", "eval/src/actions.rs: MFolder, HFolder")],
 ["value computed by each Computor"])
prop("P27", "Elements of the evaluation suite are the numbers they hold",
 "Elements drawn from any random source stay in range (GenSmall below 100, every value occurring; Gen10k below 10 000; GenSetElm any machine word, practically never repeated), and the same source gives the same elements. Equality, order, hash, copies, conversion from numbers and addition agree with the numbers held.",
 ["inputs", "configurations"], "every random word, seed and pair of numbers",
 "No test looks at the element types; a wrong bound, a bias or a truncated word shows only for rare words, and measured results would silently be about other data.",
 ["eval/src/types.rs"],
 [("drawing an element", "eval/src/types.rs: Rand for GenSmall, Gen10k, GenSetElm"), ("hashing an element", "eval/src/types.rs: Hash for Elm")],
 [("number held", "what comparison, hash and sum must follow", "eval/src/types.rs: GenSmall, Gen10k, Elm, GenSetElm")],
 ["public fields of the elements", "results of comparison, hash and sum"])
