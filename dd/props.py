"""The properties: what each says, and which functions of the tree carry it.

`units` are (file regex, name regex) pairs over the functions of the type-checked program; a function belongs to the
property when one pair matches and `skip` does not.  Private helpers are analysed as part of their callers, so they are not
listed.  `facet`, when set, restricts the obligations to calls whose name matches it.
"""
D = "differential-dataflow/src/"
G = "dogsdogsdogs/src/"
I = "interactive/src/"

COMMON_SKIP = r"(Debug|Display)::fmt|as Debug>|as Display>|::_::|Visitor|__Field|as Serialize>|as Deserialize>|assert_fields_are_eq|Columna\w+\b.*::<impl"

PROPS = []
def P(id, title, statement, over, qtext, why, units, files, mech, skip=None, facet=None, full=None, crates=None, state=(), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, units=units, files=files, mech=mech,
                      skip=skip, facet=facet, full=full, crates=crates, state=list(state), observe=list(observe)))

P("C01", "A reader's compaction hold on a shared trace is honoured",
  "A shared trace is never compacted, logically or physically, beyond the lower bound of the frontiers held by its live readers, and every read at a time in advance of a reader's hold accumulates to the same result as over the uncompacted updates. "
  "Creating, cloning, advancing or dropping a reader changes the shared bound by exactly that reader's own contribution, so holds neither leak nor disappear.",
  ["schedules", "histories"], "every sequence of creating, cloning, advancing and dropping readers, interleaved with insertions and maintenance",
  "Tests hold one or two handles and drop them in one order; a leaked or lost hold shows only for particular interleavings of clones, downgrades and maintenance, often as silently wrong results much later.",
  [(D + r"operators/arrange/agent\.rs", r"TraceReader>|TraceAgent::new$|as Clone>|as Drop>|TraceBox::|trace_box|TraceAgent::operator|ShutdownButton"),
   (D + r"trace/implementations/spine_fueled\.rs", r"compaction|batches_through"),
   (D + r"trace/wrappers/.*\.rs", r"compaction|batches_through|map_batches"),
   (D + r"operators/arrange/arrangement\.rs", r"<Arranged as Clone>"),
   (D + r"trace/mod\.rs", r"rc_blanket|TraceReader")],
  [D + "operators/arrange/agent.rs", D + "trace/implementations/spine_fueled.rs", D + "trace/wrappers/enter.rs"],
  [("reader handles count their frontiers into the shared bound", D + "operators/arrange/agent.rs"),
   ("the shared bound drives the trace's compaction frontiers", D + "operators/arrange/agent.rs"),
   ("the trace records and applies the frontiers", D + "trace/implementations/spine_fueled.rs")],
  state=[("logical and physical holds", "multiset of the frontiers of live readers", D + "operators/arrange/agent.rs")])

P("C02", "An arrangement is a gap-free, overlap-free chain of batches shared by all",
  "Every batch an arrangement publishes starts where the previous one ended, the chain reaches the input frontier, each update appears in exactly the batch whose interval contains its time, and the stream of batches and the shared trace always agree. "
  "A later importer of the trace, at any moment, observes exactly the history followed by exactly the future batches and frontiers, and an import bounded by frontiers presents exactly the updates and times those bounds select.",
  ["schedules", "histories"], "every schedule of inputs, frontier advances and import or drop of readers, in any number of workers",
  "Tests import at a few moments and for totally ordered times; the moments at which queues, capabilities and frontiers can disagree are unbounded.",
  [(D + r"operators/arrange/(writer|agent|arrangement)\.rs", r"."),
   (D + r"trace/implementations/merge_batcher\.rs", r"."),
   (D + r"trace/(description|mod)\.rs", r"."),
   (D + r"trace/wrappers/frontier\.rs", r".")],
  [D + "operators/arrange/writer.rs", D + "operators/arrange/agent.rs", D + "operators/arrange/arrangement.rs", D + "trace/implementations/merge_batcher.rs"],
  [("sealing batches as the frontier advances, one per held capability", D + "operators/arrange/arrangement.rs"),
   ("writer inserts into the trace and replays to listeners", D + "operators/arrange/writer.rs"),
   ("listener queues and imports", D + "operators/arrange/agent.rs")])

P("C03", "Join output equals the product of its inputs at every time",
  "At every time, the accumulated output of a join equals the relational product of the accumulations of its two inputs: every matching pair of updates contributes exactly once, at the join of their times, whatever the order in which the two inputs' batches arrive and however the work is sliced by yielding. "
  "The same holds for every join implementation the library offers, and no output is produced at a time that is no longer permitted.",
  ["schedules", "inputs", "histories"], "every pair of update histories over any partially ordered time, every arrival order of batches and every fuel schedule",
  "Tests run fixed inputs on totally ordered times with a fixed fuel; a pair dropped or doubled for one arrival order, one tie of times or one yield position is not sampled.",
  [(D + r"operators/(join|common|mod)\.rs", r"."), (D + r"operators/int_proxy/(join|mod)\.rs", r"."),
   (D + r"operators/arrange/arrangement\.rs", r"join_core"), (D + r"collection\.rs", r"join")],
  [D + "operators/join.rs", D + "operators/common.rs", D + "operators/int_proxy/join.rs", D + "operators/mod.rs"],
  [("acknowledged frontiers split work between the two sides", D + "operators/join.rs"),
   ("bilinear replay of two value histories", D + "operators/common.rs"),
   ("value history and edit list replay", D + "operators/mod.rs")],
  skip=r"discover_times|DiscoverScratch|tile_descriptions")

P("C04", "Reduce output equals the user's function of the accumulated input at every time",
  "At every time, and for every key, the accumulated output of a reduction equals the user's function applied to the accumulated, non-empty input of that key, and is empty when the input is empty. "
  "Corrections are produced at every time at which they are due, including joins of input times at which no input changed, and the emitted batches tile the time intervals the inputs completed.",
  ["inputs", "histories", "schedules"], "every input history over any partially ordered time, every batching of it, and every user function",
  "Wrong or missing corrections at synthetic joined times need specific partially ordered histories spread over several batches; tests sample few.",
  [(D + r"operators/(reduce|common|mod)\.rs", r"."), (D + r"operators/int_proxy/(reduce|mod)\.rs", r"."),
   (D + r"operators/arrange/arrangement\.rs", r"reduce"), (D + r"collection\.rs", r"reduce")],
  [D + "operators/reduce.rs", D + "operators/common.rs", D + "operators/int_proxy/reduce.rs"],
  [("interesting times carried across invocations", D + "operators/reduce.rs"),
   ("discovery of joined times", D + "operators/common.rs"),
   ("output corrections as a difference from what was already produced", D + "operators/reduce.rs")],
  skip=r"bilinear_wave")

P("C05", "Count, threshold and distinct equal their definitions at every time",
  "At every time, counting yields each present record once with its accumulated multiplicity, and a threshold or distinct yields each record with exactly the multiplicity its rule gives for the accumulated count, retracting what it said before. "
  "This holds for the totally ordered specialisations as for the general ones, however updates are batched.",
  ["inputs", "histories"], "every update history and every batching, for totally and partially ordered times",
  "Tests use few counts and one batching; a wrong retraction needs a particular sequence of accumulations across batch boundaries.",
  [(D + r"operators/(count|threshold)\.rs", r"."), (D + r"collection\.rs", r"count|threshold|distinct")],
  [D + "operators/count.rs", D + "operators/threshold.rs", D + "collection.rs"],
  [("difference of the new and the previous value per time", D + "operators/threshold.rs"), ("running count per key", D + "operators/count.rs")])

P("C06", "An upsert arrangement holds the last written value per key",
  "At every time, an arrangement fed by upserts holds for each key exactly the most recently written value, or nothing after a deletion, with a retraction of the value it replaces. "
  "Upserts that arrive together, or out of order in time, take effect in time order, and each effect appears in the batch whose interval contains its time.",
  ["inputs", "schedules", "histories"], "every sequence of upserts and deletions, every grouping into activations and every frontier movement",
  "Tests submit one upsert per time in order; repeated, deleting and deferred upserts for one key in one activation are not sampled.",
  [(D + r"operators/arrange/upsert\.rs", r"."), (D + r"operators/arrange/writer\.rs", r".")],
  [D + "operators/arrange/upsert.rs"],
  [("pending upserts ordered by time", D + "operators/arrange/upsert.rs"), ("prior value looked up in the trace", D + "operators/arrange/upsert.rs")])

P("C07", "Background merging never changes what a trace contains",
  "Whatever order batches arrive in and however merge effort is spread over activations, a trace presents exactly the updates inserted so far, up to the advancing of times that its readers permitted, in contiguous batches. "
  "Every cut point that readers have not given up stays a batch boundary, and reading through a frontier yields exactly the batches up to it or is refused.",
  ["schedules", "histories"], "every sequence of batch insertions of any sizes, exert calls, effort settings and compaction requests",
  "Merges start, advance and complete at moments set by sizes and fuel; tests exercise few size sequences and rarely read mid-merge at a non-trivial frontier.",
  [(D + r"trace/implementations/spine_fueled\.rs", r".")],
  [D + "trace/implementations/spine_fueled.rs"],
  [("layered merge states", D + "trace/implementations/spine_fueled.rs"), ("physical frontier gates merging", D + "trace/implementations/spine_fueled.rs"),
   ("fuel accounting", D + "trace/implementations/spine_fueled.rs")])

P("C08", "Batching and consolidation preserve accumulated updates",
  "Consolidating, chunking and batching updates never changes the accumulated weight of any record at any time: equal records are summed, zero sums are dropped, and the result is sorted. "
  "Sealing at a frontier yields exactly the updates not in advance of it and retains exactly the others, with the reported frontier being the lower bound of what was retained.",
  ["inputs", "histories"], "every multiset of updates, every chunk boundary and every sequence of seal frontiers",
  "Buffer boundaries, runs of cancelling updates and frontier positions combine without bound; tests use a few small vectors.",
  [(D + r"consolidation\.rs", r"."), (D + r"trace/implementations/(merge_batcher|chunker)\.rs", r"."),
   (D + r"columnar/trace/chunker\.rs", r".")],
  [D + "consolidation.rs", D + "trace/implementations/merge_batcher.rs", D + "trace/implementations/chunker.rs"],
  [("sort and sum in place", D + "consolidation.rs"), ("geometric merging of sorted chains", D + "trace/implementations/merge_batcher.rs"),
   ("extraction by frontier", D + "trace/implementations/merge_batcher.rs")])

P("C09", "Ordered batches present exactly the updates they were built or merged from",
  "A batch built from sorted updates presents, through its cursor, every key, value, time and weight exactly once and in order, and navigation (step, seek, rewind) lands on the first position not before its target. "
  "Merging two adjacent batches presents the sum of their updates with times advanced to the compaction frontier, dropping what cancels, and a merge can be suspended and resumed anywhere without changing its result.",
  ["inputs", "schedules"], "every pair of adjacent batches, every compaction frontier and every fuel sequence",
  "Tests build small batches; offsets, singleton encodings and resumption points interact over unbounded data.",
  [(D + r"trace/implementations/ord_neu\.rs", r"."), (D + r"trace/implementations/mod\.rs", r"."), (D + r"trace/cursor/mod\.rs", r".")],
  [D + "trace/implementations/ord_neu.rs", D + "trace/implementations/mod.rs"],
  [("builder and merger of layered storage", D + "trace/implementations/ord_neu.rs"), ("offset lists and batch containers", D + "trace/implementations/mod.rs"),
   ("cursor over layers", D + "trace/implementations/ord_neu.rs")])

P("C10", "Chunked traces merge, advance, split and settle without changing contents",
  "Representing a batch as a sequence of bounded chunks never changes its contents: merging, advancing times, extracting by frontier, splitting and settling chunks keep every record's accumulated weight, keep order, and respect the size bounds. "
  "Each step may stop and resume at any chunk boundary without losing or repeating an update.",
  ["inputs", "schedules"], "every pair of chunk sequences, every chunk boundary, frontier and resumption point",
  "Boundary cases arise where a group of equal records straddles chunks on either side; tests reach a few.",
  [(D + r"trace/chunk/.*\.rs", r".")],
  [D + "trace/chunk/mod.rs", D + "trace/chunk/vec.rs"],
  [("resumable merge, advance, extract over chunk queues", D + "trace/chunk/vec.rs"), ("batches, builders and mergers over chunks", D + "trace/chunk/mod.rs")])

P("C11", "Columnar updates behave exactly like the rows they encode",
  "The columnar representation of updates denotes the same multiset of (key, value, time, weight) rows as the row form through building, consolidating, merging, advancing, extracting, chunking and iterating, and its operators agree with the row-based ones. "
  "Every layer's offsets delimit exactly the children of their parent.",
  ["inputs", "schedules"], "every sequence of rows, chunk boundaries, merges and frontiers",
  "Offsets at run, chunk and layer boundaries vary without bound; tests compare a few random inputs.",
  [(D + r"columnar/(updates|trie_merger|layout)\.rs", r"."), (D + r"columnar/trace/(chunk|chunker)\.rs", r"."),
   (D + r"columnar/collection/(builder|operators)\.rs", r".")],
  [D + "columnar/updates.rs", D + "columnar/trie_merger.rs", D + "columnar/trace/chunk.rs"],
  [("trie of keys, values, times and weights", D + "columnar/updates.rs"), ("trie merge survey and write", D + "columnar/trie_merger.rs"),
   ("chunk operations", D + "columnar/trace/chunk.rs")])

P("C12", "Weights form the algebra that accumulation relies on",
  "Every provided weight type implements a commutative, associative addition with the zero it reports, negation that cancels, and multiplication that distributes over addition, with sums of the same weights equal whichever form (owned, borrowed, in place) performs them. "
  "A weight is reported zero exactly when adding it changes nothing.",
  ["inputs"], "all values of every weight type, including tuples, vectors of unequal lengths and wrapping integers",
  "The laws quantify over all values; tests sample a few sums.",
  [(D + r"difference\.rs", r"."), (D + r"consolidation\.rs", r"consolidate_slice|consolidate_updates_slice")],
  [D + "difference.rs"],
  [("implementations for integers, tuples, vectors and presence", D + "difference.rs")],
  skip=r"PresentContainer")

P("C13", "Times form lattices, and advancing a time is invisible from a frontier",
  "For every provided time type, join and meet are the least upper and greatest lower bounds of the order the type reports, in place or not. "
  "Advancing a time by a frontier gives a time indistinguishable from the original to every time in advance of the frontier, and the maximal lower bound of antichains is the greatest antichain below both.",
  ["inputs"], "all times of every provided type and all antichains",
  "The laws quantify over all triples of times in product and nested orders; tests check a few.",
  [(D + r"lattice\.rs", r"."), (D + r"dynamic/pointstamp\.rs", r"Lattice|PartialOrder|PartialOrd|as Ord|PartialEq|Timestamp|PathSummary|Refines|::new"),
   (G + r"altneu\.rs", r"Lattice|PartialOrder|PartialOrd|as Ord|PartialEq|Timestamp|PathSummary|Refines")],
  [D + "lattice.rs", D + "dynamic/pointstamp.rs", G + "altneu.rs"],
  [("bounds per type, product, antichain", D + "lattice.rs"), ("variable-length timestamps", D + "dynamic/pointstamp.rs")])

P("C14", "Combined and wrapped cursors present the merged view of what they cover",
  "A cursor over several batches presents, in order, the union of their keys, for each key the union of its values, and for each value all its times and weights, whatever mix of stepping, seeking and rewinding is used. "
  "A trace or batch brought into a nested scope, shifted in time or restricted by frontiers presents the same records with exactly the mapped or restricted times, and its frontiers, lower and upper bounds map consistently.",
  ["inputs", "histories"], "every collection of batches, every navigation sequence, every time mapping and restriction",
  "Navigation sequences and overlaps between batches are unbounded; tests iterate forward only.",
  [(D + r"trace/cursor/.*\.rs", r"."), (D + r"trace/wrappers/.*\.rs", r"."), (D + r"trace/mod\.rs", r".")],
  [D + "trace/cursor/cursor_list.rs", D + "trace/cursor/mod.rs", D + "trace/wrappers/enter.rs", D + "trace/wrappers/enter_at.rs", D + "trace/wrappers/frontier.rs"],
  [("minimum keys and values over cursors", D + "trace/cursor/cursor_list.rs"), ("wrappers delegate with mapped times", D + "trace/wrappers/enter.rs")])

P("C15", "Record-wise collection operators act on each update exactly as defined",
  "Mapping, filtering, exploding, negating, concatenating, delaying, entering and leaving scopes, consolidating, and reading an arrangement as a collection each transform every update exactly as defined: the record by the user's function, the weight multiplied, negated or kept, the time mapped or kept, and nothing lost or repeated. "
  "Derived operators (semijoin, antijoin, inspection, equality assertion) mean what they are defined to mean in terms of these.",
  ["inputs", "programs"], "every collection, user function and composition of operators",
  "The guarantee quantifies over all functions, times and weights; tests use small examples with unit weights.",
  [(D + r"collection\.rs", r"."), (D + r"operators/arrange/arrangement\.rs", r"Arranged::(enter|enter_region|enter_at|as_|flat_map|leave_region)|trait Arrange"),
   (D + r"lib\.rs", r".")],
  [D + "collection.rs", D + "operators/arrange/arrangement.rs"],
  [("per-update transformations", D + "collection.rs"), ("arrangement views", D + "operators/arrange/arrangement.rs")])

P("C16", "Iteration computes the fixed point of its body",
  "The result of an iteration at every outer time is the limit of applying the body to the previous iterate starting from the given collection, and a recursively defined variable equals its definition, delayed by one step. "
  "The value seen at each iteration is the accumulated definition at the previous one, starting from the source or from nothing, however the updates are delivered.",
  ["programs", "inputs", "schedules"], "every loop body, every initial collection and every schedule",
  "Quantifies over bodies and iteration counts; tests run reachability-like loops that converge to the right limit even from wrong intermediate iterates.",
  [(D + r"operators/iterate\.rs", r"."), (D + r"collection\.rs", r"enter|leave|results_in|negate|concat"),
   (D + r"dynamic/.*\.rs", r"feedback_summary|enter_dynamic|leave_dynamic")],
  [D + "operators/iterate.rs", D + "collection.rs"],
  [("variables add and subtract their source across the feedback edge", D + "operators/iterate.rs"), ("feedback shifts time by the step", D + "collection.rs")])

P("C17", "An input session introduces exactly the given updates at the given times",
  "Every change given to an input session appears exactly once, with its weight, at the session's time when it was given or at the explicit later time asked for, whether buffered, flushed or still pending when the session is advanced, closed or dropped. "
  "A session never announces a time as complete before the changes given for it, and attempts to move backwards or write in the past are refused.",
  ["histories", "inputs"], "every sequence of insert, remove, update, update-at, advance, flush, close and drop calls",
  "Buffer-full and drop moments combine with advances; tests flush regularly.",
  [(D + r"input\.rs", r".")],
  [D + "input.rs"],
  [("buffer flushed before the time moves, and on drop", D + "input.rs")])

P("C18", "Captured updates are restored exactly, whatever order messages arrive in",
  "A stream of captured update and progress messages that may be duplicated, reordered and repeated is restored to exactly the captured collection: each update introduced once, and a time announced complete only when all the updates announced for it, and all earlier progress, have been received. "
  "Conversely, capturing a stream announces for each interval exactly the number of updates emitted at each time, eventually and in a form any replay restores, and never drops an announcement because a destination was busy.",
  ["schedules", "fault_sequences", "histories"], "every duplication, reordering and interleaving of messages from any number of writers, and every pattern of sink back-pressure",
  "The space of reorderings and duplications is unbounded; tests replay one order.",
  [(D + r"capture\.rs", r".")],
  [D + "capture.rs"],
  [("deduplication and progress completion", D + "capture.rs"), ("sink writers with retry queues", D + "capture.rs")])

P("C19", "Dynamic nesting keeps scopes' coordinates apart and truncates them on exit",
  "Dynamically nested scopes extend, advance and truncate time coordinates exactly: entering a level adds a least coordinate, feedback advances only that level, and leaving removes it and any deeper ones from times, capabilities and progress summaries alike. "
  "Equal moments compare equal whatever trailing least coordinates they were written with, and the order agrees with the coordinate-wise one.",
  ["inputs", "programs"], "all coordinate sequences, nesting depths and summaries",
  "Quantifies over depths and coordinates; tests nest once or twice.",
  [(D + r"dynamic/.*\.rs", r".")],
  [D + "dynamic/mod.rs", D + "dynamic/pointstamp.rs"],
  [("truncation on leave with matching summary", D + "dynamic/mod.rs"), ("coordinate-wise order with implicit minimum", D + "dynamic/pointstamp.rs")],
  skip=r"PointStampContainer|PointStampStack|as Clone|as Hash")

P("C20", "A half join responds to each change with the state its time may see",
  "Each change presented to a half join is matched against exactly those arranged updates whose times the given comparison admits, producing each match once with the product of weights at the join of times, and never before the arrangement is complete for that time. "
  "Changes that must wait are kept, in order, with their capability, and the lookup variants likewise answer each request exactly once from the completed arrangement.",
  ["schedules", "histories", "inputs"], "every arrival order of changes and batches, every comparison and every yield decision",
  "Wrong answers need a change to be deferred across frontier movements or split by yielding; tests do not reach it.",
  [(G + r"operators/(half_join|half_join2|lookup_map)\.rs", r".")],
  [G + "operators/half_join.rs", G + "operators/half_join2.rs", G + "operators/lookup_map.rs"],
  [("stash of waiting proposals", G + "operators/half_join.rs"), ("comparison of arranged times with the change's time", G + "operators/half_join2.rs")],
  crates=["differential_dogs3"])

P("C21", "Delta queries extend each prefix by exactly the agreed values",
  "Worst-case optimal extension proposes values from the relation that offers fewest, validates them with all the others, and yields every extension supported by all relations exactly once with the product of weights. "
  "The old/new time refinement makes each derived delta see the earlier relations' changes and not the later ones', so the deltas sum to the change of the full query, and differentiating then integrating gives back the collection.",
  ["inputs", "programs", "histories"], "every set of relations, prefixes and update histories",
  "Ties among relations and simultaneous changes are what break the sum; tests run single static graphs.",
  [(G + r"(lib|altneu|calculus)\.rs", r"."), (G + r"operators/(count|propose|validate|lookup_map)\.rs", r".")],
  [G + "lib.rs", G + "altneu.rs", G + "calculus.rs", G + "operators/count.rs", G + "operators/propose.rs", G + "operators/validate.rs"],
  [("count, propose and validate through lookups", G + "lib.rs"), ("alt and neu orders", G + "altneu.rs")],
  skip=r"AltNeuContainer|as Hash|as Clone", crates=["differential_dogs3"])

P("C22", "Graph and sequence algorithms compute what they name",
  "For every input at every time, the provided algorithms return: shortest distances from the roots, shortest distances between goal pairs, least reachable labels along edges, the edges inside strongly connected components, greedy sequential assignments in order, distinct identifiers per record, and sums of all elements up to each requested position. "
  "Results follow every change of the input.",
  ["inputs", "histories"], "every graph, sequence and change history",
  "Quantifies over all graphs; tests cover random small ones for some of the algorithms and none for others.",
  [(D + r"algorithms/.*\.rs", r"."), (D + r"hashable\.rs", r".")],
  [D + "algorithms/graphs/bfs.rs", D + "algorithms/graphs/bijkstra.rs", D + "algorithms/graphs/propagate.rs", D + "algorithms/graphs/scc.rs", D + "algorithms/graphs/sequential.rs", D + "algorithms/identifiers.rs", D + "algorithms/prefix_sum.rs"],
  [("iterative dataflows", D + "algorithms/graphs/propagate.rs")])

P("C23", "Equal keys always meet on the same worker",
  "Whenever an operator needs all updates of a key together, updates with equal keys are routed to the same worker, by a function of the key alone that is the same in every worker and every operator, for rows, columns and trace lookups alike. "
  "Routing a container among workers delivers every update to exactly one worker.",
  ["configurations", "inputs"], "any number of workers and all keys",
  "Tests run with one or two workers and integers; disagreement between two routing sites shows only for particular pairs of operators and worker counts.",
  [(D + r"hashable\.rs", r"."), (D + r"columnar/collection/exchange\.rs", r"."),
   (D + r"(collection|capture)\.rs", r"."), (D + r"operators/.*\.rs", r"."),
   (G + r"operators/(half_join|half_join2|lookup_map)\.rs", r".")],
  [D + "hashable.rs", D + "columnar/collection/exchange.rs", D + "operators/arrange/arrangement.rs", D + "operators/arrange/upsert.rs", D + "collection.rs", G + "operators/half_join.rs", G + "operators/lookup_map.rs"],
  [("one hash per key", D + "hashable.rs"), ("exchange contracts at arrangement inputs", D + "operators/arrange/arrangement.rs"),
   ("columnar distribution", D + "columnar/collection/exchange.rs")],
  facet=r"^pact ", full=r"hashable\.rs|exchange\.rs", crates=["differential_dataflow", "differential_dogs3"])

P("C24", "Lowering and optimising an interpreted program preserve its meaning",
  "Lowering a parsed program and optimising it yield a program that computes the same named results for all inputs: statement order does not matter, duplicate or cyclic definitions are refused, references resolve to the definition in scope, and merging, fusing or removing steps changes no result. "
  "No step is merged across a scope boundary, and shared steps keep every consumer.",
  ["programs", "inputs"], "every program and input",
  "Quantifies over all programs; tests run a few sample programs.",
  [(I + r"(lower|scope_ir|lib)\.rs", r".")],
  [I + "lower.rs", I + "scope_ir.rs", I + "lib.rs"],
  [("dependency-ordered lowering", I + "lower.rs"), ("rewrites of the scope tree", I + "scope_ir.rs")],
  skip=r"as Clone>|dump|hash_u64|gen_row", crates=["interactive"])

P("C25", "Rendering executes an interpreted program as its definition says",
  "Executing an interpreted program yields, for each step, exactly the defined result: projections and filters evaluate their terms as defined, joins, reductions (minimum, count, distinct and the rest) and list unfolding act per key as defined, iteration scopes advance and truncate their own time coordinate, and regions change nothing. "
  "Term evaluation is deterministic and leaves its environment as it found it.",
  ["programs", "inputs"], "every program, term, row and change history",
  "Quantifies over programs and nested values; tests run a few programs.",
  [(I + r"ir\.rs", r"."), (I + r"backend/.*\.rs", r"."), (I + r"lib\.rs", r"hash_u64|gen_row")],
  [I + "ir.rs", I + "backend/mod.rs", I + "backend/vec.rs"],
  [("term interpreter", I + "ir.rs"), ("scope-tree walk", I + "backend/mod.rs"), ("leaf operators", I + "backend/vec.rs")],
  skip=r"LinearOp as Clone", crates=["interactive"])

P("C26", "Operators keep and release exactly the history they may still need",
  "Every operator that reads a trace holds back compaction until no future input can need the history, and then permits it: permissions only advance, follow the frontiers of what can still arrive, and are released altogether when an input completes. "
  "No operator reads a trace at a time or boundary it has already given up.",
  ["schedules", "histories"], "every interleaving of input frontiers, batches and shutdowns",
  "Reading past a released boundary needs an asymmetric frontier movement between inputs; a hold that never advances shows only as unbounded memory.",
  [(D + r"operators/(join|reduce|count|threshold)\.rs", r"."), (D + r"operators/arrange/(agent|arrangement|upsert|writer)\.rs", r"."),
   (D + r"columnar/collection/operators\.rs", r"."), (G + r"operators/(half_join|half_join2|lookup_map)\.rs", r"."), (I + r"server\.rs", r"tick|install|drop|peek")],
  [D + "operators/join.rs", D + "operators/reduce.rs", D + "operators/count.rs", D + "operators/threshold.rs", D + "operators/arrange/agent.rs", G + "operators/half_join.rs"],
  [("compaction requests at the end of each activation", D + "operators/join.rs"), ("reads bounded by acknowledged frontiers", D + "operators/reduce.rs")],
  facet=r"^call .*(compaction|cursor_through|batches_through|read_upper|downgrade|advance_upper|TraceAgent::|drop_dataflow|delayed)", crates=["differential_dataflow", "differential_dogs3", "interactive"])

P("C27", "Logged trace sizes balance what exists",
  "The sum of the logged batch, merge, drop, share and batcher events of an arrangement always equals what it currently holds: every batch gained or merged away, every reader handle opened or closed, and every record allocated or released in a batcher is logged exactly once, with its actual size. "
  "Logging never changes the computation.",
  ["schedules", "histories"], "every sequence of insertions, merges, clones and drops, with any logger installed",
  "Tests install no logger; an unbalanced event is invisible to results.",
  [(D + r"trace/implementations/(spine_fueled|merge_batcher)\.rs", r"."), (D + r"operators/arrange/(agent|arrangement)\.rs", r"."),
   (D + r"logging\.rs", r"as From>"), (D + r"trace/chunk/mod\.rs", r"."), (D + r"columnar/trace/.*\.rs", r".")],
  [D + "trace/implementations/spine_fueled.rs", D + "trace/implementations/merge_batcher.rs", D + "operators/arrange/agent.rs", D + "logging.rs"],
  [("events at introduction, merge start and end, and drop", D + "trace/implementations/spine_fueled.rs"), ("batcher accounting", D + "trace/implementations/merge_batcher.rs"),
   ("share events on new, clone and drop", D + "operators/arrange/agent.rs")],
  facet=r"^call .*(Logger::log|account)")

P("C28", "The interactive server shares, advances and retires programs safely",
  "Installing programs, feeding inputs, ticking and dropping programs keep the registry and the running dataflows consistent: a name maps to the one program that published it, a refused request changes nothing, inputs are introduced at the requested times and never in the past, and a program is torn down only when no live program reads what it published. "
  "Every worker that applies the same commands reaches the same registry.",
  ["histories", "configurations"], "every sequence of commands, valid or not, on any number of workers",
  "Tests of the server are few; refused and repeated commands and import chains vary without bound.",
  [(I + r"server\.rs", r"."), (r"^server/src/lib\.rs", r".")],
  [I + "server.rs", "server/src/lib.rs"],
  [("install, feed, tick and drop", I + "server.rs"), ("typed registry", "server/src/lib.rs")],
  skip=r"as Clone>", crates=["interactive", "dd_server"])

P("C29", "An explanation program demands exactly the inputs that support a result",
  "The program produced to explain a result computes the same named results as the original alongside, and its demand sets contain every source record, at every iteration, that the queried result depends on. "
  "Iteration coordinates lifted into data match the times they came from, and each reverse step maps a demanded output to the inputs that can produce it and no deeper time.",
  ["programs", "inputs"], "every program, query and input",
  "Quantifies over programs; tests explain a few.",
  [(I + r"explain/.*\.rs", r".")],
  [I + "explain/mod.rs", I + "explain/decouple.rs"],
  [("clone with lifted internals", I + "explain/mod.rs"), ("reverse rules", I + "explain/decouple.rs")],
  skip=r"as Clone>", crates=["interactive"])

P("C30", "Diagnostics collections reflect the events logged",
  "Each logged event changes the diagnostic collections by exactly the fact it states (operators, channels, schedules, messages, batches, records, sharing), retracted when the event is undone, at the event's time rounded up to the reporting interval. "
  "A connecting client receives the whole current state once and then each change, and nothing after it disconnects.",
  ["histories", "schedules"], "every sequence of logged events and client connections",
  "There are no tests of the event mapping; a wrong sign or key shows only in the browser.",
  [(r"^diagnostics/src/(logging|server)\.rs", r".")],
  ["diagnostics/src/logging.rs", "diagnostics/src/server.rs"],
  [("event demultiplexing", "diagnostics/src/logging.rs"), ("client join", "diagnostics/src/logging.rs"), ("wire form", "diagnostics/src/server.rs")],
  skip=r"as Clone>|as Hash>", crates=["diagnostics"])

P("C31", "Byte and spilled forms of containers restore what was stored",
  "Columnar containers restored from their byte form, or read back after being spilled, present exactly the elements stored, in order, with the same length, and pushing owned or borrowed elements is equivalent. "
  "Splitting, clearing and extending containers affects exactly the elements named.",
  ["inputs", "configurations"], "all element sequences and all spill decisions",
  "Round trips quantify over contents and alignment; tests use a few small containers.",
  [(D + r"columnar/collection/container\.rs", r"."), (D + r"columnar/trace/spill\.rs", r"."), (D + r"columnar/layout\.rs", r"."),
   (D + r"dynamic/pointstamp\.rs", r"PointStampContainer|PointStampStack|PointStampReference"), (D + r"difference\.rs", r"PresentContainer"),
   (G + r"altneu\.rs", r"AltNeuContainer"), (D + r"logging\.rs", r"DifferentialEventContainer|EventContainer")],
  [D + "columnar/collection/container.rs", D + "columnar/trace/spill.rs", D + "columnar/layout.rs", D + "dynamic/pointstamp.rs", D + "difference.rs"],
  [("byte header and body", D + "columnar/collection/container.rs"), ("spill and fetch", D + "columnar/trace/spill.rs")],
  crates=["differential_dataflow", "differential_dogs3"])

NOT_APPLICABLE = [
  ("N01", "Every computation eventually makes progress to completion",
   "Once its inputs are closed, a dataflow whose iterations converge eventually reports every time complete on every worker, and an operator with unfinished work is always scheduled again.",
   ["schedules", "programs"], "every program, schedule and number of workers",
   "Liveness quantifies over infinite schedules; tests observe only that sampled runs finish.",
   [D + "operators/join.rs", D + "operators/reduce.rs", D + "operators/arrange/arrangement.rs"],
   "Liveness over unbounded schedules and over timely's external progress protocol: no necessary structural clause beyond those already decided in C02 and C26 (capabilities downgraded, activations requested) is visible in this source."),
  ("N02", "Work per update stays proportional to the change",
   "The time and memory an operator spends on an activation are bounded by a function of the changes it received and the effort it was granted, never by the size of the retained history.",
   ["inputs", "histories"], "every update history and effort setting",
   "A cost bound cannot be read from sampled runs.",
   [D + "trace/implementations/spine_fueled.rs", D + "operators/join.rs", D + "consolidation.rs"],
   "A quantitative amortised bound over runtime sizes; a static argument in reach (loop nesting) neither implies it nor is implied by it. The fuel arithmetic itself is decided as part of C07."),
  ("N03", "Results do not depend on the number of workers or processes",
   "The same program on the same inputs produces the same accumulated outputs at every time for every number of workers and processes.",
   ["configurations", "schedules"], "all worker and process counts",
   "Only a few configurations are ever run.",
   [D + "operators/arrange/arrangement.rs", D + "hashable.rs"],
   "Whole-system determinism depends on timely's communication and progress code, which is not in this repository; the structural part that is here, agreement of all routing sites, is claimed as C23."),
]
