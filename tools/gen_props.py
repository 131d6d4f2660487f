#!/usr/bin/env python3
"""Writes properties.jsonl and the checks of MANIFEST.json (kept in step)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note=""):
    P.append((dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)), note))

prop("P01", "The sequence editor behaves as a list with a cursor",
 "Whatever elements are pushed, popped and peeked on either side of the cursor, with archive points created at any moment and any number of unfocusing and refocusing steps in between, every operation returns what it would on a plain list with a cursor. After unfocusing, the sequence holds exactly the elements of that list in order; archive points are invisible to elementwise editing.",
 ["histories"], "every history of pushes, pops, peeks, archive points, unfocus and focus, on any size, level and name choice, under the plain and the incremental engine",
 "The unit tests replay four fixed histories of a dozen elements; mistakes need a particular mix of empty sides, consecutive archive points, levels and refocus positions.",
 ["src/raz.rs", "src/archive_stack.rs", "src/tree_cursor.rs"],
 [("push/pop/peek/archive on both sides, lifting subsequences from the tree when a side runs empty", "src/raz.rs: impl Raz"), ("rebuilding the tree from the pending archives", "src/raz.rs: unfocus"), ("locating and copying a subsequence", "src/raz.rs: focus")],
 [("the two stacks and two tree cursors", "what lies left and right of the cursor", "src/raz.rs: struct Raz")],
 ["values returned by push/pop/peek", "fold over the unfocused sequence"])
prop("P02", "Focusing by position lands exactly there, and round-trips",
 "Focusing a sequence of n elements at position i (0 to n) puts exactly the first i elements on the left of the cursor and the rest on the right; focusing at an end marker goes to that end, and a position beyond n never yields an editor. Unfocusing again without edits gives back the same sequence, archive points, names and element count, and an insertion after focusing at i goes between elements i and i+1.",
 ["inputs", "histories"], "every sequence produced by any editing history and every position in it, including positions at archive points and out of range",
 "Tests focus on a handful of positions of one twelve-element sequence; boundaries between subsequences in deeper trees are not reached.",
 ["src/raz.rs", "src/raz_meta.rs", "src/tree_cursor.rs"],
 [("navigation by element count", "src/raz_meta.rs: impl RazMeta for Count"), ("descent, split and copying", "src/raz.rs: focus, focus_left"), ("splitting a tree at a cursor", "src/tree_cursor.rs: split")],
 [], ["pops on both sides of the cursor", "sequence after unfocus"])
prop("P03", "Metadata of a sequence always describes its current contents",
 "After any editing history, map, join or conversion, the metadata kept with a sequence is exactly that of its current contents: the element count is the number of elements and the name set is the set of names of its archive points. For a user-defined kind of metadata, every branch's pair is what its definition yields for exactly the elements below each side, in order, with that branch's level and name.",
 ["histories", "inputs"], "every editing history and every kind of metadata, including order-sensitive user-defined ones",
 "Tests only use counts indirectly through focus; stale or misordered metadata on inner branches after particular edits goes unseen.",
 ["src/raz.rs", "src/raz_meta.rs", "src/tree_cursor.rs"],
 [("recomputing node data when a branch changes", "src/raz.rs: impl TreeUpdate for TreeData"), ("marking and rebuilding changed paths", "src/tree_cursor.rs: up, join"), ("metadata of the root", "src/raz.rs: treetop_meta")],
 [("branch metadata", "cached pair of left and right metadata at each branch", "src/raz.rs: TreeData::Branch")], ["RazTree::meta", "arguments given to a user-defined navigate during focus"])
prop("P04", "Focusing by name finds the archive point with that name",
 "With names as metadata, focusing on the name of an archive point in the sequence puts the cursor exactly at that archive point, wherever later edits have moved it. A name that is not in the sequence, or whose archive point was removed by deleting across it, is not found.",
 ["histories", "inputs"], "every editing history and every name in or not in the resulting sequence",
 "One test focuses ten random names of a freshly built sequence; it never edits, deletes or asks for absent names.",
 ["src/raz_meta.rs", "src/raz.rs"],
 [("name sets and navigation", "src/raz_meta.rs: impl RazMeta for Names"), ("descent to a name and to the place between subsequences", "src/raz.rs: focus")],
 [], ["peek and pop on both sides after focusing on a name"])
prop("P05", "Bottom-up folds equal the plain left-to-right reduction",
 "For any associative operator, folding a sequence bottom-up gives the same result as reducing its elements in order, and no result for an empty sequence, whatever its levels, names and subsequences. The variants with levels and names, and by subsequence, are given every archive point's level and name and every subsequence exactly once, in order.",
 ["inputs", "histories"], "every sequence (from an editing history, vector, join or stack), every associative operator, commutative or not",
 "Tests fold with commutative operators over one fixed tree, so ordering, duplication and level mistakes cancel out or are absent.",
 ["src/raz.rs", "src/level_tree.rs"],
 [("fold_up, fold_up_nl, fold_up_gauged", "src/raz.rs: impl RazTree"), ("memoised recursion over the tree", "src/level_tree.rs: fold_up, fold_up_meta")],
 [], ["fold results"])
prop("P06", "Left-to-right folds visit everything once, in order",
 "A left-to-right fold threads the accumulator through every element in order, starting from the given value. With metadata it also sees every archive point's level and name between its two neighbouring subsequences, and the archive variant tells, at the end of every subsequence, the name of the archive point that precedes it.",
 ["inputs", "histories"], "every sequence and every accumulator function",
 "One test checks one string for one fixed tree of six subsequences with names in a fixed pattern.",
 ["src/raz.rs", "src/level_tree.rs"],
 [("fold_lr, fold_lr_meta, fold_lr_archive", "src/raz.rs: impl RazTree"), ("memoised left-to-right recursion carrying the preceding name", "src/level_tree.rs: fold_lr_meta")],
 [], ["sequence of calls recorded by the accumulator"])
prop("P07", "Map transforms each element and keeps the structure",
 "Mapping a sequence yields a sequence with the function applied to every element in order and the same archive points, levels and names, whose metadata (of whatever kind the result uses) describes the mapped contents. The source is unchanged and the result is an ordinary sequence that can be focused and edited.",
 ["inputs", "histories"], "every sequence, function, result element type and result metadata kind",
 "One test maps one fixed tree and looks at a sum and two subsequences; it never edits the result or looks at its metadata.",
 ["src/raz.rs", "src/level_tree.rs"],
 [("map", "src/raz.rs: RazTree::map"), ("memoised structural map", "src/level_tree.rs: Tree::map")],
 [], ["mapped sequence, its metadata, and an editor over it"])
prop("P08", "Incremental reruns give the from-scratch answer",
 "Under the incremental engine, running a fold, map or pipeline of them again after any edits to the sequence gives exactly the answer that a from-scratch run on the current contents gives, however many edits and reruns came before and whichever archive points are named.",
 ["histories"], "every history of edits interleaved with reruns of every whole-sequence computation",
 "No test runs anything under the incremental engine; stale results need particular reuse of names, levels and accumulators across reruns.",
 ["src/level_tree.rs", "src/raz.rs", "src/tree_cursor.rs"],
 [("named memoised recursion", "src/level_tree.rs: fold_up, fold_lr_meta, map"), ("naming of cells and branches", "src/level_tree.rs: Tree::new, src/raz.rs: unfocus")],
 [], ["results of reruns in a fixed namespace"])
prop("P09", "A rerun only recomputes what an edit affects",
 "When archive points are named, rerunning a fold or map after edits calls the caller's functions only for subsequences and branches that are new under their parent since the previous run; rerunning without edits calls them only for the topmost part that has no named parent. A left-to-right fold does not revisit a part whose contents, place and incoming accumulator are unchanged.",
 ["histories"], "every history of edits to a fully named sequence, with a rerun after each",
 "No test counts work under the incremental engine; losing reuse changes no result, so no functional test notices.",
 ["src/level_tree.rs", "src/raz.rs", "src/tree_cursor.rs"],
 [("memo points keyed by branch name", "src/level_tree.rs: fold_up, fold_up_meta, fold_lr_meta, map"), ("sharing of unchanged subtrees", "src/tree_cursor.rs: up, join")],
 [], ["number of calls of caller-supplied functions"])
prop("P10", "Archive points keep their place, level and name",
 "Every archive point created with at least one element to archive stays between the same two elements, with its level and name, through any later edits, unfocusing and refocusing elsewhere. It disappears only when an element beyond it is deleted from the side of the cursor, or when nothing is left between it and the end of the sequence or the next archive point.",
 ["histories"], "every editing history; every level and name (or none)",
 "One test inserts at random positions and compares names; it never deletes, archives on the right or checks levels and places.",
 ["src/raz.rs", "src/archive_stack.rs", "src/tree_cursor.rs"],
 [("levels and names of pending archives", "src/raz.rs: archive_left, archive_right, unfocus"), ("taking apart and rebuilding branches", "src/tree_cursor.rs: split, join")],
 [], ["left-to-right fold with levels and names"])
prop("P11", "Structure depends only on contents, not on the editing history",
 "Two sequences with the same subsequences, levels and names have the same tree (the greatest level on top, the leftmost first among equals), compare equal and hash alike, whichever side, order or history of edits, refocusings and joins produced them; sequences that differ compare unequal. Joining gives nothing when either part is empty.",
 ["histories", "inputs"], "every pair of histories leading to the same subsequences and levels, including equal levels",
 "Tests check the shape of two fixed trees with all-distinct levels.",
 ["src/raz.rs", "src/tree_cursor.rs", "src/level_tree.rs"],
 [("joining at a level, descending into the higher side", "src/tree_cursor.rs: join"), ("order in which archives are joined", "src/raz.rs: unfocus"), ("join of trees", "src/raz.rs: RazTree::join")],
 [], ["bottom-up fold exposing the tree", "equality of sequences"])
prop("P12", "A stack converts to the sequence it holds, from either end",
 "Converting an archive stack gives a sequence with the stack's elements bottom to top (or top to bottom), its archive boundaries with their levels and names, the canonical tree (it compares equal to the same sequence made by joins) and correct metadata, also when the newest archive has nothing after it. Converting again after pushes, archives and pops gives the current contents, under the plain and incremental engine, and leaves the stack as it was.",
 ["inputs", "histories"], "every stack content, levels, names, either end, and every history of stack edits and reconversions",
 "Two tests convert one fixed stack with distinct levels and a non-empty top, once.",
 ["src/raz.rs", "src/archive_stack.rs", "src/memo.rs"],
 [("memoised conversion", "src/raz.rs: impl MemoFrom for RazTree"), ("archives of the stack", "src/archive_stack.rs: next_archive")],
 [], ["converted sequence, its tree, metadata and folds"])
prop("P13", "Copies of data structures are independent",
 "A copy of an editor, sequence, archive stack, list, level tree or tree cursor never changes when the original or other copies are edited, focused, split, joined or consumed. Every version keeps its own contents for as long as it is kept.",
 ["histories"], "every history of copying and editing any member of a pool of versions (plain engine; unnamed structure under the incremental engine)",
 "Tests copy trees before folding but never edit one copy and look at another.",
 ["src/raz.rs", "src/archive_stack.rs", "src/stack.rs", "src/level_tree.rs", "src/tree_cursor.rs"],
 [("shared immutable cells, rebuilt along the changed path only", "src/tree_cursor.rs: up; src/archive_stack.rs: archive, next_archive; src/stack.rs: push, pull")],
 [], ["contents of every kept version"])
prop("P14", "The archive stack is a stack whose archives are transparent",
 "Whatever the mix of pushes, pops, extensions and archives (named or not, with metadata), elements come back in last-in-first-out order across archives. Archiving an empty active part has no effect and says so; each archive's metadata is delivered exactly once, when its contents become active, and its contents, name and the active part read back exactly. Two stacks compare equal, and hash alike, exactly when these are the same.",
 ["histories"], "every sequence of stack operations under either engine",
 "Two tests run one fixed script of three archives each.",
 ["src/archive_stack.rs"],
 [("active vector over a persistent list of archives", "src/archive_stack.rs: impl AStack")],
 [("active part and list of archives", "elements not yet archived; archived parts with metadata", "src/archive_stack.rs: struct AStack")], ["every accessor after every operation, and iteration"])
prop("P15", "The persistent list returns what was pushed, with its names",
 "Pushing makes a new list with that element and name on top of the old one; pulling gives back the list before the push; peeking, naming and iterating show exactly the pushed elements with their names from the top. No operation changes any older list, and lists compare equal (and hash alike) exactly when they hold the same elements and names.",
 ["histories"], "every tree of pushes and pulls over shared lists, named or not, under either engine",
 "There is one test of pushing three elements, with no sharing.",
 ["src/stack.rs"], [("cons cells in named or unnamed engine cells", "src/stack.rs: Head, Stack")], [], ["is_empty, peek, name, iteration"])
prop("P16", "Cursor moves track the tree exactly",
 "Moving a cursor through a level tree, with any mix of plain, forced and discarding moves down and up, always shows the data, level, name and branches of the node a zipper over that tree would be at, reports correctly whether and in which direction it moved, and never loses or reorders any other part. Going up rebuilds the data of every node whose contents may have changed and of no wrong one.",
 ["histories", "inputs"], "every tree and every sequence of moves, including moves into empty branches",
 "The tests walk one or two fixed trees along fixed paths.",
 ["src/tree_cursor.rs", "src/level_tree.rs"],
 [("path of containers with left/right marks and a dirty flag", "src/tree_cursor.rs: down_left_force, down_right_force, up, up_discard")],
 [("pending path", "trees above the cursor and which side was taken", "src/tree_cursor.rs: struct Cursor")], ["peek, level, name, branches and the whole tree"])
prop("P17", "Splitting and joining at a cursor lose nothing and keep order",
 "Splitting a cursor gives everything before the focused node, the node's tree, and everything after it, each in order; joining two cursors around a node gives the left part, the node and the right part in order, in canonical level order with rebuilt data, focused on that node, wherever the two cursors stood. Iterating from a cursor yields exactly the data to its right.",
 ["histories", "inputs"], "every canonical tree, every pair of cursor positions, every level and name of the joining node, repeatedly",
 "One test splits and joins one fixed tree at one place.",
 ["src/tree_cursor.rs"],
 [("split by clearing the opposite side along the path", "src/tree_cursor.rs: split"), ("join by level", "src/tree_cursor.rs: join"), ("iteration", "src/tree_cursor.rs: into_iters, IterR")],
 [], ["in-order contents and shape of both parts and of the join"])
prop("P18", "Level tree computations equal the recursive definitions",
 "Folding a level tree bottom-up, left to right (with or without levels and names) or out of a cursor, and mapping it with access to mapped branches, give exactly what the recursive definitions give on trees of any shape, and leave the tree unchanged. Under the incremental engine the same holds on every rerun after parts of the tree were replaced, and the level check accepts a tree exactly when levels never increase downward and are strictly lower to the left.",
 ["inputs", "histories"], "every tree shape, level, naming, and every history of replaced parts and reruns",
 "Tests fold two fixed complete trees, under the plain engine only.",
 ["src/level_tree.rs"],
 [("fold_up, fold_up_meta, fold_lr, fold_lr_meta, map", "src/level_tree.rs: impl Tree"), ("good_levels", "src/level_tree.rs: good_levels")],
 [], ["results of each computation and reruns"])
prop("P19", "The skip list is a finite map",
 "Whatever the history of inserting, overwriting, extending, removing, looking up and archiving, a lookup returns the value most recently stored for that key and not removed since, removals and extensions return the previous value, and other keys are unaffected. This holds for any number of hash bits, including ones that force collisions.",
 ["histories", "configurations"], "every history of map operations over keys with and without hash collisions, for any hash width",
 "The tests put and read a few keys once; removal, overwriting and collisions are hardly touched.",
 ["src/skiplist.rs"], [("hash bits as path, update at the root", "src/skiplist.rs: impl FinMap for Skiplist")], [], ["get, rem, ext results"])
prop("P20", "Generated levels are in range, halve in frequency, and keep trees shallow",
 "Every generated level lies between 1 and 64, whatever the random source yields, and depends on the random source only; each level is about half as frequent as the one below. Sequences whose archive points use generated levels have trees of logarithmic depth.",
 ["inputs"], "every random source output; long runs of generated levels; all three generators",
 "No test looks at generated levels; extreme random words do not occur by chance.",
 ["src/level_tree.rs", "src/trees.rs", "src/lib.rs"],
 [("trailing zeros of a random word", "src/level_tree.rs: gen_branch_level"), ("NegBin", "src/trees.rs"), ("inc_level", "src/lib.rs")], [], ["levels returned; depth of a tree built with them"])
prop("P24", "Versions edited in separate namespaces do not interfere",
 "Under the incremental engine, when several versions of one named sequence are each edited in a namespace of their own, even with the same names, every version and the original keep exactly their own elements, archive points and names.",
 ["histories"], "every history of edits to several versions of a named sequence, each in its own namespace",
 "No test edits named sequences under the incremental engine, let alone in several namespaces.",
 ["src/raz.rs", "src/tree_cursor.rs", "src/level_tree.rs", "src/archive_stack.rs"],
 [("cells named by the archive point under the current namespace", "src/level_tree.rs: Tree::new; src/archive_stack.rs: archive")], [], ["all versions after every edit"])
prop("P25", "Focusing, editing and unfocusing work only along the path to the cursor",
 "However long a sequence is, focusing in it, making edits and unfocusing consults and recomputes metadata only for branches on the paths to the cursor and for archive points that the edits add or remove: a number of times proportional to the depth of the tree and to the edits, not to the length. Building a sequence recomputes metadata a number of times proportional to its archive points.",
 ["inputs", "histories"], "every sequence, whatever its levels, and every editing history on it",
 "Unit tests never look at how much work an operation does, and their sequences have six subsequences, where rebuilding everything costs the same as rebuilding a path.",
 ["src/raz.rs", "src/tree_cursor.rs", "src/raz_meta.rs"],
 [("rebuilding only changed nodes on the way up", "src/tree_cursor.rs: up, dirty flags, join"), ("pending archives joined into the tree around the cursor", "src/raz.rs: unfocus"), ("descent by metadata", "src/raz.rs: focus")],
 [("dirty", "whether the path above the cursor must be rebuilt", "src/tree_cursor.rs: struct Cursor")], ["calls to a user-defined kind of metadata"])
prop("P26", "Reconverting an edited stack recomputes only what changed",
 "Under the incremental engine, converting a fully named stack to a sequence again, after pushes, pops and archives at its top, recomputes metadata a number of times proportional to the depth of the tree and the number of archives that changed, not to the size of the stack, from either end. A first conversion does so a number of times proportional to the archives.",
 ["histories"], "every named stack, whatever its levels, and every history of edits with reconversions in one namespace",
 "Tests convert one stack once under the plain engine; nothing observes what a rerun recomputes.",
 ["src/raz.rs", "src/memo.rs", "src/archive_stack.rs"],
 [("memoised recursion bounded by levels, keyed by archive names", "src/raz.rs: MemoFrom<AtTail>, MemoFrom<AtHead>"), ("archived vectors in named cells", "src/archive_stack.rs: archive")],
 [], ["calls to a user-defined kind of metadata during memo_from"])
prop("P28", "Editing copies elements only of the subsequences it touches",
 "However long a sequence is, focusing in it, editing and unfocusing copy each a number of elements proportional to those of the subsequence focused, of the subsequences that pops and peeks open, and of those pushed; copying or joining sequences copies none that grow with their length. Operations on an archive stack, and copying it, copy elements of its active part and of the archive they open only.",
 ["inputs", "histories"], "every sequence and stack, every editing history, and copies kept anywhere in between",
 "Unit tests never look at what is copied, and on their short sequences copying everything costs the same as sharing.",
 ["src/raz.rs", "src/archive_stack.rs", "src/tree_cursor.rs", "src/level_tree.rs"],
 [("subsequence extracted at the cursor, joined back by unfocus", "src/raz.rs: focus, unfocus"), ("archives opened one at a time", "src/archive_stack.rs: retrieve, next_archive, peek"), ("shared leaves", "src/raz.rs: TreeData::Leaf")],
 [("Rc of a leaf, persistent list of archives", "sharing between copies", "src/raz.rs: TreeData; src/archive_stack.rs: struct AStack")], ["calls to clone of a user-defined element type"])
prop("P29", "A computation calls the caller's functions once per element or branch",
 "Run from scratch under either engine, a fold or map over a sequence calls the function for elements exactly once per element, the function for subsequences exactly once per subsequence, the one for archive points exactly once per archive point, and the one that combines elements one time fewer than there are elements in a subsequence (or in the sequence, when it also combines subsequences). Computations over level trees call theirs exactly once per node, and left-to-right folds call them in sequence order.",
 ["inputs"], "every sequence and level tree, however made, named or not",
 "Tests compare results only, with functions for which being called twice makes no difference, and look at one or two trees.",
 ["src/raz.rs", "src/level_tree.rs"],
 [("functions mapped over leaves, then combined at branches", "src/raz.rs: fold_up, fold_up_nl, fold_up_gauged, fold_lr_meta, fold_lr_archive, map"), ("recursion with and without names", "src/level_tree.rs: fold_up_meta, fold_lr_meta, map")],
 [], ["calls of caller-supplied functions, with their arguments"])
exec(open(os.path.join(HERE, "tools", "eval_props.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "eval_props.py")) else None
P.sort(key=lambda p: p[0]["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _ in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
TECH = {
 "P01": "stateful model-based property testing (two-stack list model)",
 "P02": "property testing: exhaustive positions of generated sequences, round trip and model",
 "P03": "stateful property testing with a recording user-defined metadata kind",
 "P04": "stateful property testing against a name-to-position model",
 "P05": "property testing: differential against a plain fold, non-commutative operators",
 "P06": "property testing: recorded event list against the model",
 "P07": "property testing: model, and editing of the mapped result",
 "P08": "stateful property testing: incremental against from-scratch answers",
 "P09": "stateful property testing with counted callbacks against a structural work bound",
 "P10": "stateful model-based property testing (items and archive points)",
 "P11": "metamorphic property testing: several constructions, canonical tree oracle",
 "P12": "stateful property testing: stack model against converted sequence",
 "P13": "stateful property testing over a pool of copies, one model each",
 "P14": "stateful model-based property testing",
 "P15": "stateful model-based property testing over shared lists",
 "P16": "stateful model-based property testing (zipper model)",
 "P17": "stateful property testing: split/join/iterate against an in-order and canonical-tree oracle",
 "P18": "property testing: differential against recursive definitions, with incremental reruns",
 "P19": "stateful model-based property testing (hash map)",
 "P20": "property testing with chosen random words, and seeded statistical checks",
 "P21": "stateful model-based property testing over eight accumulator types",
 "P22": "differential property testing of the measured inputs against plain vectors",
 "P23": "stateful property testing of generated pipelines: incremental against a reference interpreter",
 "P25": "stateful property testing with counted metadata calls against a depth bound from the model tree",
 "P26": "stateful property testing of reruns with counted metadata calls against a depth-and-change bound",
 "P29": "property testing with logged callbacks against the generated sequence",
 "P28": "stateful property testing with counted element copies against a bound from the model",
 "P27": "property testing with chosen random words, related pairs of numbers, and seeded sources",
 "P24": "stateful property testing over several namespaces, one model per version",
}
checks = [dict(property=p["id"], quick_cmd="python3 check.py check %s quick" % p["id"], thorough_cmd="python3 check.py check %s thorough" % p["id"],
               technique=TECH[p["id"]], level="exploration",
               level_note="Held on every generated case of the run (counts, non-trivial share and samples in the evidence file); absence beyond them is not established. Trusts the reference model in the harness and the adapton engine crate." + ((" " + n) if n else ""))
          for p, n in P]
M = dict(version=1, setup_cmd="python3 check.py build", checks=checks, not_applicable=[],
         notes="No hooks in /repo. Checks build their harness crate from /repo's working tree into /verif/target (git-ignored). VERIF_SEED seeds every random choice. check.py replay FILE re-runs a replay file.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
