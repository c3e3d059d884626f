#!/usr/bin/env python3
"""Single source of the property list; writes ../properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

ENG = "src/engine.rs"
p("C01", "From-scratch consistency of every demanded value",
  "Under the DCG engine, after any sequence of input changes (setting or re-creating cells, re-allocating thunks with new arguments, redirecting cells that hold articulations), demanding an articulation returns exactly what evaluating the same program from scratch on the current inputs returns, and so does demanding any articulation found inside the returned value. Every value that a thunk body observes while it runs on behalf of a demand is likewise the from-scratch value for the inputs of that demand. A demand panics only if the from-scratch evaluation panics too.",
  ["programs", "inputs", "histories", "schedules"],
  "all thunk programs over cells and thunks (nominal, structural, eager, naive and mapped articulations, namespaces, data-dependent control flow), all edit histories and all orders of demands by interleaved clients",
  "The tests run a dozen fixed programs with one or two edits each; staleness needs particular combinations of dirtying, partial cleaning, reallocation and demand order.",
  [ENG, "src/macros.rs"],
  [("dirty_pred_observers / dirty_alloc", ENG), ("ForceDep::clean / clean_comp / loc_produce", ENG), ("cell, set, thunk, force", ENG)],
  [("dirty bit on successor edges", "a transitive dependency may have changed", "Succ.dirty"), ("cached result", "result of last completed run", "CompNode.res")],
  ["return value of force / get! / memo!", "values seen by thunk bodies"])
p("C02", "Projected observations are sound and prune unaffected work",
  "A thunk that observes an articulation through a mapping function (force_map) or a mapping family (force_abs), alone or mixed with full or other projected observations of the same articulation, returns the from-scratch value after every change. A thunk whose projected observations of a cell made with force_map, and all its other observations, are unchanged by an edit is not re-executed. The mapping function is given the articulation being observed and its current value, and the projected result is what the caller gets, whether the articulation is a cell, a thunk, an immutable value or a naive thunk.",
  ["programs", "inputs", "histories"],
  "all mixes of full, mapped and abstracted observations of cells, thunks and other articulations, and all edit histories",
  "Tests use force_map once, on one cell with one projection; force_abs has one smoke test and never after a change.",
  [ENG],
  [("force_map / ForceMapDep / check_force_map_dep", ENG), ("force_abs / ForceAbsDep / AbsMapFam", ENG)],
  None, ["return value of force_map / force_abs", "which thunk bodies run"])
p("C03", "Work is reused: a body re-runs only when something it saw changed",
  "While serving demands, the DCG engine runs the body of a nominal or structural thunk only if that thunk has not completed a run since it was last allocated with its present argument or since its last run was interrupted, or some value it observed during its last completed run (the projected value, for force_map on a cell) differs now, or a cell it observed through force_abs was changed, or a node it allocated has since been overwritten from elsewhere. No thunk body runs more than once per demand, and re-demanding when nothing relevant changed runs no bodies at all. Changing an input and changing it back, or setting it to an equal value, causes no re-execution of thunks that fully observe it. Hence re-demanding an eager map or filter of a named list applies the user function again only to elements of list segments (between names) that changed, of the segment just before a changed one, and of the first segment.",
  ["programs", "inputs", "histories", "schedules"],
  "all thunk programs, edit histories and demand orders",
  "Tests count executions of one or two hand-written functions for one edit; a spurious re-execution elsewhere is invisible to value assertions.",
  [ENG],
  [("memo table lookup in thunk/cell", ENG), ("clean_comp early cutoff", ENG), ("set_ equality check", ENG)],
  None, ["invocations of user thunk bodies"])
p("C04", "Computation is demand-driven",
  "Allocating a thunk or a cell, setting a cell and entering a namespace never run the body of a suspended thunk; bodies run only while a force is in progress. During a demand, only thunks that a from-scratch evaluation of that same demand would execute are executed, even if other cached thunks are out of date or would now fail. In particular, demanding a prefix of a lazily mapped or filtered list applies the user function only to elements before the first name that follows the demanded prefix.",
  ["programs", "inputs", "histories", "schedules"],
  "all thunk programs with data-dependent control flow, edit histories and demand orders",
  "Tests never count executions of thunks that became irrelevant after an edit (the switching pattern appears in one documentation example with one edit).",
  [ENG],
  [("lazy change propagation: cleaning on demand in recorded order", ENG)],
  None, ["invocations of user thunk bodies"])
p("C05", "The reflected dependence graph is always well-formed",
  "Whenever the editor has control, and all contents print, as derived Debug does, as constructors, structs, tuples, vectors, integers, characters, strings, names and articulations, reflecting the DCG succeeds and shows an empty stack, the root namespace, and a table in which every edge target exists, successor and predecessor edges mirror each other exactly in both effect and multiplicity, and every thunk with a dirty outgoing edge has a dirty edge from each of its observers (and so does each thunk without a cached result). A thunk just demanded has a cached value equal to the demanded result and no dirty outgoing edge, and a cell shows its current content. The nodes, their kinds, cached values and observe/allocate edges shown are those of the last completed runs of the program, each thunk's edges in the order in which it performed them. Reflecting from inside a running thunk shows the running thunks, innermost last, each with its effects so far, and the current namespace.",
  ["programs", "histories", "fault_sequences"],
  "all thunk programs, edit histories, demand orders and interrupted demands",
  "No test inspects the graph after more than one step; the engine's own checker is off by default and omits most of these conditions.",
  [ENG, "src/reflect.rs", "src/parse_val.rs"],
  [("revoke_succs, preds_insert, dirty propagation", ENG), ("reflect_dcg::dcg_reflect_now", ENG)],
  None, ["reflect::dcg_reflect_now()"])
p("C06", "Names give articulations stable, distinct identities",
  "Allocating at the same name in the same namespace always denotes the same articulation (equal, and holding the most recently allocated content, even when a cell replaces a thunk or a thunk replaces a cell), and allocating at different names, or in different namespaces, gives unequal articulations whose contents never affect each other. Names are equal exactly when built by the same sequence of constructors from the same data, forking and pairing are deterministic and yield names distinct from their inputs and from one another, and thunks run their bodies in the namespace where they were allocated, restoring the caller's afterwards. Structural articulations of the same code and argument in the same namespace are the same, and those of different code or arguments (including arguments that are or contain different names) are different.",
  ["inputs", "programs", "histories"],
  "all names built from all constructors, all namespace nestings, all allocation orders and overwrites",
  "Tests use a handful of names; collisions between differently-built names, or leaking namespaces, need unusual combinations.",
  [ENG, "src/macros.rs"],
  [("name_pair / name_fork* / name_of_*", ENG), ("ns, loc_of_id", ENG), ("structural", ENG)],
  None, ["Art equality", "contents read through force", "Name equality"])
p("C07", "A panicking computation leaves the engine consistent and usable",
  "If user code panics at any point (in a thunk body, in a mapping function, or in the Clone, Eq or Hash of a user's type) during a demand, an allocation or the setting of an input, and the editor catches the panic outside that operation, the engine remains usable as if a demand had not completed, and repeating an interrupted edit completes it: inputs can be set, further demands return from-scratch values, re-demanding after the cause is gone succeeds, and no half-finished result is ever reused. The current namespace, the naming mode, the set of running thunks and any active trace recording are back to what they were before the demand, also when the panic unwinds out of a namespace or structural block.",
  ["crash_points", "fault_sequences", "programs", "histories"],
  "a panic injected at every reachable step of every thunk body, in every call from the engine into the traits of user types and mapping functions, repeated and combined with edits",
  "No test unwinds through the engine and then keeps using it.",
  [ENG],
  [("unwinding out of loc_produce, set_, cell, thunk, dirtying, ns, structural and trace extents", ENG)],
  [("stack, path, flags, trace stack", "dynamic extents that a panic leaves through", "DCG, TRACES")],
  ["set/force after catch_unwind", "reflect::dcg_reflect_now()"])
p("C08", "Engines and threads are isolated from one another",
  "Swapping engines in and out preserves each engine exactly: operations performed while one engine is installed never change articulations, cached results, amount of reuse, namespaces or flags of another, and the engine handed back by a swap is the one that was installed. Threads that each use their own engine produce, under every interleaving of their steps, exactly the results, executions and implicitly generated names they produce when run alone.",
  ["schedules", "histories", "programs"],
  "all interleavings of operations over several engines and of several threads, including switches in the middle of thunk bodies",
  "Tests alternate two engines once in a fixed pattern and run threads with no common names under whatever schedule the harness happens to give.",
  [ENG, "src/macros.rs"],
  [("thread_local GLOBALS / TRACES / NAME_COUNTER", ENG), ("manage::use_engine", ENG)],
  None, ["results and executions per engine and per thread"])
p("C09", "Conflicting uses of one name are detected, never misread",
  "Allocating or demanding at a name that currently denotes content of a different result type, or a thunk with different code, panics instead of returning a value of the wrong type or the result of the wrong function; so does setting anything but a cell, or setting from inside a running thunk. The failed operation changes nothing: earlier articulations keep their content, no body is run, and later operations behave as if it had not been attempted.",
  ["programs", "histories", "inputs"],
  "all orders of conflicting allocations of cells and thunks with different types or code at one name, in any namespace, at the editor or inside thunk bodies",
  "One documentation test shows one such panic; none checks the engine afterwards.",
  [ENG],
  [("assert_graphnode_res_type", ENG), ("program-point comparison in thunk", ENG)],
  None, ["panic or not", "values afterwards"])
p("C10", "Cyclic demands terminate with the caller-supplied value",
  "Forcing, with a cycle value, a thunk that is currently being computed returns that cycle value immediately; forcing one that is not being computed returns its ordinary result and ignores the cycle value; and forcing a running thunk without a cycle value panics. Hence evaluating any finite, possibly cyclic, graph of thunks with cycle values terminates, runs each thunk once, and returns what a depth-first evaluation with a visited stack and memo table returns; re-demanding with no change returns the same value and runs nothing. After inputs or edges change, a demand returns what that depth-first evaluation returns when the memo table has lost exactly the thunks that depended on something changed.",
  ["inputs", "programs"],
  "all finite directed graphs of thunks (self-loops, nested and overlapping cycles), all demand orders",
  "The tests evaluate one four-node graph once.",
  [ENG],
  [("cycle detection over the frame stack in force", ENG), ("force_cycle / get!(art, value)", "src/macros.rs")],
  None, ["results of force_cycle", "termination", "panic message on unexpected cycles"])
p("C11", "Results do not depend on engine or engine configuration",
  "The same program and edit history gives the same demanded values under the naive engine (re-evaluated after each edit) and under the DCG engine with any combination of its configuration: purity optimisation on or off, structural in place of nominal naming, well-formedness checking on, and graph dumping on. Well-formedness checking never fails. A new engine takes its configuration from the environment variables that name it. Structural naming blocks are scoped: nominal naming resumes exactly when the outermost block ends.",
  ["configurations", "programs", "histories"],
  "all programs and edit histories expressible in both engines, times all engine configurations",
  "The test suite is only run in the default configuration; naive/DCG agreement is tested on inputs that happen to be empty lists.",
  [ENG],
  [("Engine::Naive / NaiveThunk", ENG), ("Flags", ENG), ("wf::check_dcg", ENG)],
  None, ["demanded values under each configuration"])
p("C12", "Recorded effect traces are balanced, faithful and harmless",
  "Recording a trace never changes results or the amount of work done, and the recorded trace of any editor operation, including one that panics, is a balanced tree which a later recording does not inherit anything from. The trace agrees with what happened: evaluation events (cache misses and clean-evaluations) equal the thunk bodies run, nominal allocation events equal the allocations made with fresh/same/different classified correctly, reads and cache hits equal the forces performed, dirtying occurs only when content really changed, and each cleaned edge ends either cleaned or in re-evaluation. Effects appear in the order in which they were performed, attributed to the thunk that performed them and nested in its evaluation and in the user's own debugging extents. Beginning a recording during another, or ending one that has not begun or has open debugging extents, is refused and disturbs nothing. The edges that appear and disappear in the graph over a recording are the ones the trace reports. The summary counts computed from a trace equal the events in it.",
  ["programs", "histories", "fault_sequences"],
  "all thunk programs and edit histories, recorded over arbitrary windows of operations",
  "Tests print traces but assert nothing about their shape or counts.",
  [ENG, "src/reflect.rs"],
  [("dcg_effect_begin!/dcg_effect_end!", ENG), ("trace::trace_count", "src/reflect.rs")],
  None, ["reflect::dcg_reflect_begin/end", "trace::trace_count"])
p("C13", "List operations stay correct across every edit history",
  "For named incremental lists under any history of element and name insertions, deletions, replacements and tail edits, each library list operation (map and filter, eager and lazy, reverse, append, fold, merge, push/pop, generation, conversions to and from vectors, limited demand, lists used as association maps and sets) yields exactly the elements in the order that the same operation on a plain vector of the current contents yields, whether computed afresh, incrementally, lazily in part, or after an interrupted computation. Name-preserving operations (eager maps and filters, push, conversions, list_gen, name wrappers) keep the names of the input in place, a demand limited to k entries yields the first k entries, and emptiness and head tests see through names and articulations.",
  ["histories", "inputs", "crash_points"],
  "all named lists, edit histories, demand prefixes, and interruptions inside element functions",
  "The list-edit tests compare two engines on a few random edit sequences (several have trivially empty inputs); merge, reverse, lazy and limited demand are not tested under edits.",
  ["src/catalog/collections.rs", ENG, "src/macros.rs"],
  [("list_map_*, list_filter_*, list_reverse, list_merge, vec_of_list ...", "src/catalog/collections.rs")],
  None, ["vec_of_list of results"])
p("C14", "Tree operations and mergesort stay correct across every edit history",
  "For balanced trees built from named incremental lists under any edit history, building in either direction preserves the element and name sequence, and folding, listing, filtering (to lists or trees), pruning, eager copying and monoid aggregation agree with the same operation on a plain vector of the current contents; mergesort yields the sorted permutation of the current elements. The shape of a tree depends only on the current list contents and names, not on the history by which they came about; levels never increase from parent to child; pruned and filtered trees contain no empty subtrees; filtered trees and lists contain no name that was not there, in the same order, and filter_list_of_tree keeps exactly one name between any two elements that were separated by a name. These tree operations take the lists' names as they are: the claim does not cover names that are forks of one another in one namespace.",
  ["histories", "inputs", "crash_points"],
  "all named lists, edit histories, traversal directions, predicates, monoids, and interruptions inside user functions",
  "Tree tests run on inputs generated as empty lists, and mergesort is only compared between engines on such inputs.",
  ["src/catalog/collections.rs", ENG],
  [("tree_of_list, tree_fold_seq, tree_fold_up, tree_fold_up_nm_dn, filter_*, prune, mergesort_*", "src/catalog/collections.rs")],
  None, ["vec_of_list / eager trees of results"])
p("C15", "Bit strings encode and compare as specified",
  "Bit-string operations used for trie paths (length, flip, prepend, append, prefix conversion) return what the same operations on a plain vector of bits return.",
  ["inputs"], "all bit strings and operations",
  "Tests sample a few strings; but it is a pure function of its input.",
  ["src/catalog/bitstring.rs"], [("BS and free functions", "src/catalog/bitstring.rs")])
p("C16", "Debug output of values parses back into faithful reflected values",
  "Parsing the debug rendering of any value built from derived-Debug constructors, tuples, vectors, structs, numbers, strings, names and articulations yields the reflected value with the same structure.",
  ["inputs"], "all values whose Debug rendering is of the derived form",
  "Tests sample some strings; but it is a pure function of its input.",
  ["src/parse_val.rs"], [("parse_val", "src/parse_val.rs")])
p("C17", "Trie sets and maps agree with ordinary sets and maps",
  "Trie operations (extend, find, split, fold, meta) agree with the same operations on an ordinary set of the inserted elements, across edit histories.",
  ["inputs", "histories"], "all element sequences and edit histories",
  "The trie-set tests all fail at this commit.",
  ["src/catalog/trie.rs"], [("TrieIntro / TrieElim / SetIntro for Trie", "src/catalog/trie.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
