"""Per-property settings of the checks (see run.py)."""
PROPS = {
 "C15": dict(technique="runtime monitoring: model-based trace checker under ASan/UBSan",
             note="Random histories of map operations on the real code compared with a reference dictionary after every step; memory safety and leaks watched. Assurance is limited to the histories executed.",
             rule="a case is a random history of map operations; non-trivial = distinct sequence of operation kinds, key types and hit/miss outcomes",
             require={"lookup.checked": 20000, "set.replace": 2000, "del.present": 2000, "del.absent": 1000, "clear": 200, "caller.drop": 200, "listing.compared": 5000}),
 "C18": dict(technique="runtime monitoring: online oracle (exact set model) under UBSan",
             note="Random and boundary intervals through the real operations, compared with exact set semantics computed in wider arithmetic. Bounded by the intervals generated; NaN bounds excluded.",
             rule="a case is 12 interval pairs; non-trivial = distinct (operands, emptiness, overlap, inclusion flags)",
             require={"intersect": 50000, "union": 50000, "equal.true": 2000, "equal.false": 2000, "empty.true": 2000, "empty.false": 2000, "include.true": 2000, "include.false": 2000, "mixed.refused": 100}),
}
PROPS["C03"] = dict(technique="runtime monitoring: round-trip trace oracle (full public dump, identity pattern, user data, continued behaviour) under ASan/UBSan with allocation ledger",
    note="Random objects of all 23 kinds are serialised into exact, larger and smaller buffers and reloaded, often after the original was destroyed; the reloaded object is compared through the whole read interface, through user data deliveries and by continuing to sample. Limited to the objects generated; a user-defined tuner over a dynamic tree space is excluded (the interface takes a single callback vector).",
    rule="a case is one object of one kind; non-trivial = distinct public content of the object",
    require={"callback.error": 2500, "callback.deserialize-error": 1200, "behaviour.compared": 1000, "user-data.compared": 1000, "user-state.compared": 50, "short-buffer.refused": 20000, "handle.mapped": 3000, "original.released-first": 1000, "second-generation": 500})
PROPS["C20"] = dict(technique="runtime monitoring: online oracle (independent parameter model) under ASan/UBSan with allocation ledger",
    note="Random and boundary definitions of all parameter kinds; every probe value's verdict, validated copy, conversion, sample and ordinal comparison is compared with the definition. Limited to the definitions and values generated.",
    rule="a case is one parameter (plus 12 attempted definitions every third case) probed with about 30 values; non-trivial = distinct definitions",
    require={"default-all-values": 1200, "default-bounds": 6000, "accepted": 50000, "rejected": 50000, "sampled": 50000, "create.ok": 5000, "create.refused": 5000, "ordinal.compared": 3000, "ordinal.refused": 1000, "convert.over": 5000, "convert": 5000, "default-distribution": 1000, "incompatible.refused": 300, "binding.transient": 50000})
PROPS["C07"] = dict(technique="runtime monitoring: online oracle (independent reference evaluator) under ASan/UBSan with allocation ledger",
    note="Random well-typed, ill-typed and boundary expressions over all parameter kinds, evaluated by the library and by an independent evaluator on random assignments including inactive values; structure, variable sets and absence of side effects watched. Evaluations meeting a NaN are skipped.",
    rule="a case is 6 expressions evaluated on 6 assignments each (twice); non-trivial = distinct expressions",
    require={"evaluated": 60000, "refused": 20000, "variables.checked": 20000, "no-context": 2000, "side-effect.checked": 2000, "list.element": 500, "foreign.refused": 4000,
             **{o + ".value": 500 for o in "or and equal not_equal less greater less_or_equal greater_or_equal add substract multiply divide modulo positive negative not in".split()},
             **{o + ".inactive": 200 for o in "or and equal not_equal less greater less_or_equal greater_or_equal add substract multiply divide modulo positive negative not in".split()},
             **{o + ".error": 200 for o in "or and equal not_equal less greater less_or_equal greater_or_equal add substract multiply divide modulo positive negative not in list".split()}})
PROPS["C09"] = dict(technique="runtime monitoring: online oracle (independent distribution model, cross-entry-point differential, chi-square on observed frequencies) under ASan/UBSan",
    note="Random nested distributions: every sample checked for bounds, grid and type; single, array, strided and structure-of-array results compared under the same seed with guard words around every buffer; observed frequencies (per dimension and jointly) tested against the declared law at 7 standard deviations; oversampling verdicts against exact interval inclusion. Limited to the distributions generated; frequency tests skip ranges where double rounding dominates.",
    rule="a case is one (possibly nested) distribution; non-trivial = distinct definitions",
    require={"parameters.fresh": 200, "samples.checked": 2000000, "equivalence": 8000, "equivalence.singles": 3000, "frequency.tested": 800, "dependence.tested": 150, "oversampling.yes": 5000, "oversampling.no": 5000, "parameters.sampled": 10000, "create.ok": 2000, "create.refused": 2000})
PROPS["C06"] = dict(technique="runtime monitoring: online oracle (independent definition of validity, defaults and acyclicity) along random construction histories, under ASan/UBSan with allocation ledger",
    note="Random histories add parameters, conditions (acyclic, cyclic, foreign, repeated, out of bounds) and clauses; after each, verdicts on generated value vectors, the default configuration and the definitions read back are compared with the definition. Where a vector is both invalid and unevaluable, either outcome is allowed (the order is not specified). Limited to generated spaces (up to 40 parameters).",
    rule="a case is one construction history; non-trivial = distinct final space and operation sequence",
    require={"verdict.valid": 10000, "verdict.invalid": 10000, "verdict.error": 500, "default.compared": 3000, "condition.accepted": 3000, "condition.cycle": 300, "condition.foreign": 100, "condition.twice": 300, "clause.accepted": 1000, "clause.default": 300, "clause.foreign": 100, "changed.checked": 1000, "foreign.refused": 1000, "size.refused": 1000, "reloaded.checked": 1000, "readback": 4000})
PROPS["C05"] = dict(technique="runtime monitoring: online oracle (independent definition of validity) on every sampled configuration, under ASan/UBSan with allocation ledger",
    note="Random spaces (up to about 25 parameters) with conditions, clauses from none to almost unsatisfiable, and joint distributions; every configuration sampled alone or in batches is checked against the space's own check, the definition and the distribution attached to each parameter; partial batches are checked for contiguity and nulls. Limited to generated spaces and random states.",
    rule="a case is one space and a history of samplings, attachments and extensions; non-trivial = distinct spaces",
    require={"sample.checked": 100000, "value.inactive": 20000, "value.from-distribution": 10000, "single.unsuccessful": 300, "batch.partial": 100, "batch.none": 300, "batch.ok": 5000, "attach.joint": 1000, "attach.refused": 100, "cycle.refused": 500, "extended": 1000})
PROPS["C21"] = dict(technique="runtime monitoring: online oracle (independent objective evaluator and Pareto comparator) under ASan/UBSan with allocation ledger",
    note="Random objective spaces (0 to 6 objectives, mixed directions, well- and ill-typed) and plain, feature and tree evaluations; every ordered pair's verdict, every objective value, check and refusal is compared with the definition, before and after results and values are changed. Evaluations meeting a NaN are skipped.",
    rule="a case is a set of 3-9 evaluations of one kind compared pairwise twice; non-trivial = distinct objective space and kind",
    require={"compare.dominance": 50000, "compare.equivalent": 3000, "compare.incomparable": 10000, "compare.failed": 10000, "compare.foreign": 10000, "compare.features": 5000, "compare.error": 500, "objective.value": 50000, "objective.error": 500, "check.invalid": 1000, "check.valid": 10000, "result.changed": 5000, "value.changed": 5000})
PROPS["C11"] = dict(technique="runtime monitoring: online trace checker of tell/ask/suggest histories against the definition of history and Pareto optima, under ASan/UBSan with allocation ledger",
    note="Random histories of tells (batches, failures, repeats, ill-typed results, refused batches), asks and suggestions on plain and tree random tuners over static and dynamic tree spaces; after every step the whole history and the optimality, completeness and non-redundancy of the optima are recomputed from the definition. Evaluations are not modified after being told.",
    rule="a case is one tuner history; non-trivial = distinct sequence of told values and results",
    require={"optima.checked": 20000, "optima.several": 3000, "optima.pair": 20000, "history.covered": 100000, "told.failed": 5000, "told.success": 20000, "tell.refused": 1000, "asked": 3000, "suggest.optimal": 1000, "suggest.random": 200, "unevaluable.skipped": 500, "caller.dropped": 500})
PROPS["C12"] = dict(technique="runtime monitoring: online trace checker of per-feature histories and optima, under ASan/UBSan with allocation ledger",
    note="Random histories of tells interleaving up to 5 feature vectors (given through distinct but equal objects), asks and suggestions; after every step the history and optima of every feature vector and of all are recomputed from the definition; feature validity verdicts compared with the feature space's definition. Evaluations are not modified after being told.",
    rule="a case is one tuner history; non-trivial = distinct sequence of told features, values and results",
    require={"features.verified": 50000, "optima.several": 5000, "history.covered": 100000, "told.failed": 3000, "told.success": 20000, "tell.refused": 1000, "asked": 2000, "suggest.optimal": 1000, "suggest.random": 500, "features.invalid": 1000, "features.valid": 500, "features.foreign": 300})
PROPS["C13"] = dict(technique="runtime monitoring: model-based trace checker of tree construction histories plus frequency tests on observed selections, under ASan/UBSan with allocation ledger",
    note="Random forests grown by attaching (legally, out of bounds, occupied, second parent, cycles), reweighting and re-biasing at every depth, and dropping references; after each step structure, positions, value paths and refusals are compared with the construction history, selections with the biased subtree weights (odds of a false alarm below 1e-12 each); weights that overflow or underflow the sums, or are not finite, at every depth; reloaded trees likewise. Limited to the histories generated (up to 60 nodes).",
    rule="a case is one forest history; non-trivial = distinct operation sequence and final forest",
    require={"node.checked": 200000, "attach": 30000, "attach.subtree": 3000, "attach.deep": 3000, "attach.occupied": 1000, "attach.second-parent": 1000, "attach.cycle": 300, "attach.self": 300, "attach.bounds": 1000, "weight.deep": 300, "bias.deep": 300, "frequency.tested": 100000, "frequency.branching": 30000, "frequency.with-zero": 10000, "weights.zero": 300, "position.valid": 100000, "position.invalid": 30000, "position.absent": 30000, "drop.attached": 1000, "drop.root": 1000, "reloaded.node": 20000, "extreme.accepted": 500, "extreme.refused": 50, "nonfinite.refused": 300, "attach.unsummable": 50})
PROPS["C14"] = dict(technique="runtime monitoring: model-based checker of position queries, generator requests and samples, under ASan/UBSan with allocation ledger",
    note="Random static and dynamic tree spaces; every position query (six entry points in random order) is compared with walking the model tree, every generator request with the missing steps, samples with exact position probabilities (odds of a false alarm below 1e-12 each, impossible positions never), equality with equality of positions; failing and empty generators are injected. Limited to generated spaces (depth up to 6).",
    rule="a case is one space and a history of queries, samplings and extensions; non-trivial = distinct tree and operation sequence",
    require={"static.valid": 10000, "static.invalid": 5000, "static.declared-only": 300, "dynamic.valid": 10000, "dynamic.invalid": 5000, "requested": 2000, "reused": 20000, "refused": 10000, "node-and-values": 30000, "generator.failed": 300, "sample.checked": 50000, "sample.zero": 100, "frequency.tested": 1000, "equal.distinct": 5000, "unequal": 50000, "foreign.refused": 500, "extended": 500, "children.generated": 5000})
PROPS["C16"] = dict(technique="runtime monitoring: online oracle (content equality, order axioms, hash dependence) under ASan/UBSan with allocation ledger",
    note="Groups of 4-9 configurations, features, evaluations of the three kinds and tree configurations with equal, neighbouring and unrelated contents, produced by creation, by setting values through every route, from the default and by reloading; every pair's comparison and hash and every triple's transitivity are checked, and each part's influence on the hash. NaN and signed zero are excluded. Limited to generated groups.",
    rule="a case is one group of objects; non-trivial = distinct contents",
    require={"equal": 100000, "different": 300000, "different.space": 50000, "transitivity": 500000, "hash.part": 20000, "changed": 8000, "produced.by-setting": 50000, "produced.whole": 50000, "produced.reloaded": 30000, "kinds.compared": 2500})
PROPS["C24"] = dict(technique="runtime monitoring: size-protocol monitor with canaries on every array query under ASan/UBSan",
    note="Every public array query (54 entry points, parallel arrays included) is driven on random objects of all kinds with absent, exact, larger and smaller buffers; counts, order, surplus neutrality, refusals without writes and agreement with indexed and by-name queries are checked, buffer ends guarded by canaries and ASan. Limited to generated objects; the neutral value of surplus objective types is not asserted.",
    rule="a case is one object with all its array queries; non-trivial = every case (distinct random object)",
    require={"protocol": 100000, "protocol.empty": 10000, "filled.exact": 100000, "filled.larger": 200000, "small.refused": 30000, "indexed": 40000, "lookup": 20000, "binding.lookup": 5000, "objective.values": 1000, "objective": 1000, "per-features": 500, "parameter.values": 2000, "bulk-indexes": 3000, "map.lookup": 1000})
PROPS["C04"] = dict(technique="runtime monitoring: mutation and truncation of real streams, with ASan/UBSan, allocation ledger, bystander and reference-count monitors as oracle",
    note="Streams of random objects of all 23 kinds are truncated (every length when short), modified (bit and byte changes, blocks, insertions, deletions, splices with other streams, garbage) and loaded from memory, file and descriptor; whatever is accepted is read through the whole interface, used, saved and released. Limited to generated streams; drawing from a generator whose opaque GSL state was altered is not done.",
    rule="a case is one object stream with about 60-75 truncations, or 60 modifications, 20 grafts and up to 50 rewirings of its parts and handles; non-trivial = distinct streams",
    require={"graft": 40000, "rewired": 80000, "unmapped": 900, "mismapped": 2500, "no-callbacks.refused": 600, "truncation": 150000, "mutation": 150000, "accepted": 20000, "exercised": 6000, "saved-again": 15000, "intact.reloaded": 6000, "garbage": 9000})

PROPS["C10"] = dict(technique="runtime monitoring: differential replay of twin and reloaded objects with generator-state monitors, GSL used directly as reference",
    note="Two objects of every sampling kind are built from one description among other allocations, given equal generators of any GSL type and driven through the same draws while one of them is also read, saved and checked and unrelated objects draw in between; values and generator states must agree, also when the second is a copy restored mid-way. Plain generators are compared with GSL itself.",
    rule="a case is one twin pair (or one generator history) with 4-10 compared draws; non-trivial = distinct objects",
    require={"compared": 20000, "drawn.configuration": 20000, "drawn.distribution": 5000, "drawn.parameter": 5000, "drawn.raw": 5000, "drawn.tree": 5000, "reading": 10000, "bystander.draw": 5000, "reloaded": 3000, "restored.rng": 1000, "generator.replaced": 800})

PROPS["C02"] = dict(technique="runtime monitoring: destroy-callback life-cycle monitor against reference reachability, allocation ledger and ASan",
    note="Every object reachable from a random object of each kind carries destroy callbacks; the caller's references are retained and dropped in random order between operations that move references (sampling, telling, asking, replacing generators and distributions, maps, children, reloading). After each step exactly the objects reachable from the caller's references, through the getters, are alive; callbacks run once, latest first, with the object readable; at the end nothing of the library remains allocated.",
    rule="a case is one life of an object graph until everything is released; non-trivial = distinct schedules",
    require={"callback": 100000, "checked.objects": 300000, "destroyed": 60000, "release": 60000, "retain": 5000, "operation": 10000, "read-in-callback": 30000, "with-reloaded": 1500})

PROPS["C17"] = dict(technique="runtime monitoring: refusal monitor (returned code, error stack, outputs, object dumps and reference counts) over the whole interface, and differential comparison with untouched twins",
    note="In worlds holding objects of every kind, every public call is made with NULL and wrong-type handles, NULL pointers, indices out of range, unknown names, foreign objects, small buffers and invalid definitions; after each refusal the code, the error stack, the outputs, and the content and reference counts of all objects are compared with before, and afterwards the whole world is driven and compared with a twin that saw no refusal. List additions are judged as sequences of single additions.",
    opt="-O0", # thousands of call sites: compile time
    rule="a case is one world and one area of the interface (about 400 refused calls); non-trivial = distinct worlds",
    require={"create.transient-refused": 150, "error-after-error": 5000, "error-stack.read": 4500, "error-stack.set": 800, "error-stack.taken": 800, "refusals": 140000, "semantic-refusals": 16000, "functions": 23000, "twins-compared": 350, "transient-refused": 250, "second-condition": 40, "cycle-refused": 20})

PROPS["C22"] = dict(technique="runtime monitoring: delivery monitor recording every callback (object, arguments, outputs, order, count) against the calls made, under ASan/UBSan with allocation ledger",
    note="Up to three user-defined tuners (plain, features, tree) and dynamic spaces live side by side with every subset of optional callbacks; every ask, tell, suggest, optima, history and position query must reach exactly its own callback once with the caller's arguments, outputs and errors coming back unchanged; saving and loading (memory and file, also into a vector with other optional callbacks, also with failing callbacks) must restore state, history and optima; deletion runs once. Callback vectors are scrambled after creation. Optima are members of the history.",
    rule="a case is one history of 6-20 operations on 1-3 user-defined objects; non-trivial = distinct histories",
    require={"bad-child.refused": 4500, "delivered": 25000, "delivered.ask": 6000, "delivered.tell": 6000, "delivered.suggest": 3000, "delivered.get_optima": 6000, "delivered.get_history": 6000, "delivered.get_child": 8000, "error.propagated": 7000, "suggest.absent": 3000, "load.callback": 2400, "load.state": 900, "load.told.some": 500, "load.failed": 1000, "save.failed": 1900, "deleted": 6000, "deleted.reloaded": 5000, "driven.reloaded": 8000})
PROPS["C25"] = dict(technique="runtime monitoring: I/O fault injection (short transfers, EINTR, EAGAIN, errors, end of input) with byte-exact stream, descriptor and allocation monitors under ASan/UBSan",
    note="Objects of all 23 kinds are written and read through descriptors whose every transfer is decided by a random schedule, through real non-blocking pipes and sockets with several interleaved streams, and through files; streams must equal memory serialisation byte for byte, reads consume exactly one object, errors and truncation at any point must be reported with nothing leaked (memory, descriptors, mappings). Zero-byte writes are not injected.",
    rule="a case is 1-4 objects and one transfer mode; non-trivial = distinct objects and schedules",
    require={"again.read": 20000, "again.write": 15000, "written": 800, "streamed": 4000, "read-back": 11000, "write.error": 3000, "read.error": 1800, "read.eof": 1200, "read.truncated": 3000, "file.written": 2000, "file.truncated": 6000, "partial": 50000, "interrupted": 35000, "would-block": 35000, "end": 800})
PROPS["C26"] = dict(technique="runtime monitoring: systematic allocation-failure injection with state, reference and allocation-ledger monitors under ASan/UBSan",
    note="56 families of calls (creation, extension, sampling, evaluation, tell/ask, trees, maps, saving and loading through memory, descriptors and files, refused calls) are each run once normally and then with every one of their allocations failing in turn: the call must report out of memory or complete with the same result, leave every object and reference count involved as before, lose no block, and still work afterwards. Whole scripts (build, use, save, reload for each of 23 kinds of object) run with one failure anywhere; what survives must stay usable. A failing generator allocation is modelled as gsl_rng_alloc returning NULL (GSL with its error handler off); leaks are judged in the single calls only.",
    rule="a case is one call with all its allocation points, or one script with 12 random failing points; non-trivial = distinct calls and arguments",
    require={"injected": 24000, "reported": 22000, "survived": 1200, "calls": 5600, "script.stopped": 22000, "script.survived": 7000, "ledger.checked": 7000}, opt="-O0")
PROPS["C19"] = dict(technique="runtime monitoring: ThreadSanitizer plus a sequential-equivalence monitor over recorded observations, with delays injected at allocation points",
    note="2-6 threads build, use, save, reload and release their own objects of all kinds at the same time (generators, distributions, expressions, spaces, trees, tuners, maps, streams, refused calls), with random delays at allocation points; ThreadSanitizer must report no race, every thread must see exactly its own errors, and everything each thread observed must equal what the same job observes when run alone afterwards. Objects are never shared between threads: reference counts are not atomic and the documentation promises nothing there. ccs_init is called once, before the threads.",
    rule="a case is one group of threads with their jobs; non-trivial = distinct groups and schedules",
    require={"threads": 3000, "compared": 3000, "errors": 14000, "operations": 24000, "steps": 90000, "switches": 4000}, flavour="tsan", assumptions=["clang 18 ThreadSanitizer instrumentation of the library objects", "GSL and libc are trusted"])

PROPS["C01"] = dict(technique="runtime monitoring: random programs over the whole interface under ASan/UBSan, with hang and abort monitors and allocation ledger",
    note="Programs of 20-120 calls over about 300 public calls (table generated from the headers), on pools of live objects of every type grown from random objects, with related and unrelated arguments, extreme integers, floats and indices, odd names, empty arrays, spaces extended after bindings exist, large spaces, trees, maps and distributions, dropped references, saving and loading; up to 8% of the arguments are deliberately wrong (NULL, wrong type, out of range). Buffers have exactly the announced size. String values are non-NULL; samples given to conversion without oversampling lie in the sampling interval (documented).",
    rule="a case is one program; non-trivial = distinct programs",
    require={"calls": 2000000, "accepted": 1000000, "refused": 700000, "new": 300000, "new.array": 100000, "borrowed": 25000, "dropped": 200000, "saved": 20000, "loaded": 15000, "bulk.parameters": 80000, "deep.tree": 900, "large.map": 500, "large.distribution": 1000}, opt="-O0")

PROPS["C08"] = dict(python="C08.py", technique="runtime monitoring: differential monitor of the textual interface (printed, re-read and written expressions against a reference evaluator and an independent reader of the published syntax), on the sanitizer-instrumented library with lifetime ledger",
    note="Random expression trees over parameters of every kind are built from constructors, printed, read back through every public way (parse, objectives, forbidden clauses), printed and read again, and written by an independent writer with minimal or surplus parentheses, spacing and literal spellings; every expression is evaluated on several assignments and compared with a reference evaluator. Infinite and not-a-number literals, inactive literals, strings holding NUL, names that are not identifiers or are keywords, and lists of compound items have no published spelling and are not generated.",
    rule="a case is three trees, each printed, re-read and written twice, on four assignments; non-trivial = distinct trees",
    require={"eval.built": 24000, "eval.reparsed": 24000, "eval.reparsed-again": 24000, "eval.written": 48000, "print.read": 6000, "mutated.refused": 8000, "mutated.accepted": 2000, "outcome.error": 6000, "outcome.bool": 9000, "outcome.int": 2800, "outcome.float": 4500, "outcome.inactive": 600, "tree.large": 3200},
    assumptions=["clang 18 ASan/UBSan instrumentation of the library objects", "CPython 3.12 and parglare 0.12 are trusted", "GSL and libc are trusted"])

PROPS["C23"] = dict(python="C23.py", technique="runtime monitoring: Python programs checked against Python models and against direct calls of the sanitizer-instrumented library, with lifetime ledger, reference counts and exactly-once callbacks",
    note="Seventeen families of random Python programs (maps, generators, intervals, distributions, parameters, spaces and bindings, features, objectives and evaluations, random and user-defined tuners, trees, dynamic tree spaces, saving and reloading in every way, lifetimes with aliases, user data and destruction callbacks, errors, expressions, constants) are compared with Python models, and their draws with direct calls of the library in the same generator state. Refusals must raise the library's error; exceptions thrown in user callbacks must come back; the library's live blocks, the interface's own store and unraisable exceptions are checked after every program. The parser keeps its last result alive (a parse is made before each count). The Ruby interface cannot run here (its gems are absent).",
    rule="a case is one program; non-trivial = distinct programs by content",
    require={'refused': 24000, 'map.set': 2300, 'map.list': 600, 'refcount': 550, 'user.tell': 280, 'user.loaded': 350, 'user.deleted': 1000, 'callback.error': 390, 'parameter.checked': 2700, 'parameter.samples': 900, 'told': 2500, 'optima': 2000, 'outlived': 1200, 'expression.eval': 200, 'life.destroyed': 130, 'life.released': 700, 'sampled': 1600, 'check.valid': 1000, 'check.invalid': 370, 'binding.read': 5300, 'compared': 340, 'features.valid': 420, 'bounds': 4700, 'save.callback': 75, 'save.handle.map': 220, 'save.needs': 90, 'save.truncated': 75, 'position.valid': 1100, 'position.invalid': 1600, 'creation.refused': 1000, 'dominance': 4000, 'dynamic.reloaded': 170, 'constant': 4000, 'interval.include': 4800, 'expression.wide': 15, 'list.variable': 300, 'callback.error.OUT_OF_BOUNDS': 50, 'sampling.failed': 100, 'sampling.rare': 40, 'life.callback.fails': 30, 'distribution.given': 80},
    assumptions=["clang 18 ASan/UBSan instrumentation of the library objects", "CPython 3.12 and parglare 0.12 are trusted", "GSL and libc are trusted"])

PROPS["C27"] = dict(technique="runtime monitoring: the tuning connector driven as Kokkos drives it, with online monitors of proposals, reports, fences and elapsed (virtual) time, under ASan/UBSan with allocation ledger",
    note="Sessions of 3 to 1400 contexts, nested up to 4 deep over 1-4 regions of 1-10 variables (sets of ints, doubles and strings up to 63 characters in all four categories; int and double ranges with all combinations of open and closed ends, steps, partial steps and single values; unbounded context variables), variables in random order in every request, kernels of the three kinds, contexts without a request, repeated sessions in one process. Time is virtual (jumps from 0 to hours, system-time steps, and a cost per library allocation that must not be charged to the application); buffers are exact-size and overwritten after each call. Contexts end innermost first and request values once, as Kokkos does; ranges touching the ends of int64, infinite or NaN context values, and redeclared ids are not generated; the last partial step of a stepped range with an open end may be left out.",
    rule="a case is one session from initialisation to finalisation; non-trivial = distinct sessions by declarations and reported times",
    require={"proposed": 600000, "end.told": 200000, "end.converged": 50000, "best.checked": 50000, "kernel.fenced": 120000, "kernel.free": 40000, "context.plain": 50000, "coverage.checked": 400, "session.long": 250, "session": 1000, "held.checked": 1000, "ledger.checked": 1000},
    repo_src=["connectors/kokkos/ccs-kokkos-connector.cpp"], repo_inc=["connectors/kokkos/include"], wraps=["clock_gettime", "ccs_features_tuner_tell"],
    assumptions=["clang 18 ASan/UBSan instrumentation of the library and connector objects", "the bundled Kokkos tool headers describe the caller", "GSL, libc and libstdc++ are trusted"])
