"""Writes properties.jsonl (kept as a program so that the lines stay valid JSON)."""
import json, os
G = "graphblas_algorithms/"
P = []


def add(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": [G + f if not f.startswith("/") else f[1:] for f in files],
         "mechanism": [{"name": n, "where": G + w} for n, w in mech]}
    if state:
        a["state"] = [{"name": s} for s in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


add("C01", "Answers do not depend on what a graph was asked before",
    "Whatever sequence of algorithm calls and named-property reads a client has made on its graphs (repeated, failing "
    "and masked ones included), the next answer equals the one a freshly built equal graph gives, and equals NetworkX's "
    "answer wherever the two libraries are meant to agree. At the end of every such history the graphs still have the "
    "nodes, edges, weights and node order they were built with.",
    ["histories", "inputs"],
    "all histories of calls and property reads over all graphs (directed or not, weighted or not, with or without "
    "self-edges, negative weights, isolated nodes)",
    "Each graph derives about 60 properties from one another lazily, by shortcuts that depend on which others are "
    "already known; a test reaches one order on one graph, and the orders are factorially many.",
    ["classes/_caching.py", "classes/graph.py", "classes/digraph.py", "algorithms/cluster.py", "classes/_utils.py"],
    [("cached reductions and their shortcuts", "classes/_caching.py:get_reduce_to_vector,get_reduce_to_scalar"),
     ("derived properties of undirected graphs", "classes/graph.py:get_*"),
     ("derived properties of directed graphs", "classes/digraph.py:get_*"),
     ("order in which several properties are computed", "classes/_utils.py:get_properties"),
     ("results memoised by algorithms", "algorithms/cluster.py, classes/_utils.py:_cacheit")],
    ["Graph._cache", "Graph._id_to_key"], ["return values of the public functions", "to_networkx() of the graph"])

add("C02", "Caller threads sharing graphs get the answers of a serial run",
    "When several caller threads query the same graphs at once, first-time queries that fill in lazily derived data "
    "included, every call returns what it returns when it runs alone, under every interleaving of the threads. No call "
    "raises, blocks or leaves wrong derived data on a graph because another thread was in the middle of a call.",
    ["schedules", "histories"],
    "all interleavings of 2-4 caller threads at the granularity of source lines and engine calls, over all workloads of "
    "read-only calls on shared graphs",
    "The test-suite is single-threaded; a check-then-act window of one source line is hit by one schedule in "
    "thousands, and never on demand.",
    ["classes/_caching.py", "classes/graph.py", "classes/digraph.py", "classes/_utils.py", "interface.py"],
    [("check-then-fill of the derived-data cache", "classes/_caching.py:get_reduction"),
     ("lazy key tables", "classes/_utils.py:id_to_key"),
     ("dispatch tables filled on first use", "classes/graph.py:AutoDict.__missing__, classes/digraph.py:AutoDict.__missing__")],
    ["Graph._cache", "Graph._id_to_key", "Graph._get_property (class level)"], ["return values in every thread"])

add("C03", "A failed or interrupted call leaves no trace",
    "If a call ends early at any point (the engine runs out of memory or panics, the caller is interrupted, Python "
    "memory runs out, an iterator supplied by the client raises), that failure reaches the caller or the call still "
    "returns the right answer, and every graph keeps its nodes, edges and weights. Every later call on these graphs "
    "returns what it would have returned had the failed call never been made.",
    ["crash_points", "fault_sequences", "histories"],
    "all points at which a call can be cut short (every engine call, every source line, every item drawn from a client "
    "iterator), all kinds of failure, and all histories around them",
    "Tests inject no fault; partially filled caches only show when a later, different call trusts them.",
    ["classes/_caching.py", "classes/graph.py", "classes/digraph.py", "classes/_utils.py", "nxapi/_utils.py",
     "algorithms/shortest_paths/weighted.py"],
    [("multi-step updates of derived data", "classes/graph.py:get_diag,get_offdiag; classes/digraph.py"),
     ("exceptions used as control flow", "algorithms/exceptions.py, nxapi/"),
     ("temporary state inside chunked algorithms", "algorithms/shortest_paths/dense.py, algorithms/cluster.py")],
    ["Graph._cache", "Graph._A"], ["the exception that reaches the caller", "answers of later calls"])

add("C04", "Arguments stay as they are and results stay what they were",
    "No call changes the graphs, mappings, lists or sets that a client passes to it. A result that was handed out keeps "
    "its value whatever is asked afterwards, and changing a result that is a mapping, a set or a list never changes a "
    "graph, another result or a later answer.",
    ["histories", "inputs"],
    "all histories that interleave calls, later calls on the same graphs, and client mutations of the results",
    "A leak of a cached vector or of an argument is invisible until someone writes to it and then asks again; tests "
    "look at each result once, immediately.",
    ["classes/_utils.py", "classes/nodemap.py", "classes/nodeset.py", "nxapi/", "classes/_caching.py"],
    [("wrapping of engine vectors as mappings without copying", "classes/_utils.py:vector_to_nodemap,vector_to_nodeset"),
     ("in-place fill of missing values", "classes/_utils.py:vector_to_nodemap,vector_to_dict"),
     ("sharing of node-key tables between graph and results", "classes/_utils.py, classes/nodemap.py")],
    ["Graph._A", "Graph._cache", "key tables shared by graphs and containers"],
    ["values of earlier results and of arguments after every step"])

add("C05", "Lazily produced results equal eagerly produced ones",
    "However the steps of lazy results (all-pairs path lengths, breadth-first layers, edge boundaries) are interleaved "
    "with each other and with other calls, each yields every item of the eager answer exactly once. Abandoning one or "
    "failing in the middle of a step affects no graph, no other iterator and no later call, and the size of the "
    "internal batches never changes the result.",
    ["schedules", "histories", "fault_sequences", "configurations"],
    "all interleavings of the steps of several live iterators with calls, closes and faults, and all batch sizes",
    "Tests consume an iterator at once, in one batch size, with nothing in between.",
    ["algorithms/shortest_paths/generic.py", "algorithms/shortest_paths/unweighted.py",
     "algorithms/shortest_paths/weighted.py", "algorithms/traversal/breadth_first_search.py", "nxapi/shortest_paths/",
     "nxapi/_utils.py", "algorithms/_bfs.py"],
    [("batching of sources", "nxapi/_utils.py:partition,get_all_chunks"),
     ("generator state across yields", "nxapi/shortest_paths/unweighted.py, nxapi/shortest_paths/weighted.py"),
     ("frontier and visited vectors", "algorithms/_bfs.py")],
    ["generator frames"], ["items yielded by each iterator"])

add("C06", "Node containers behave like Python's dict and set",
    "Under every sequence of operations the sets and mappings that algorithms return agree, result for result and "
    "error for error, with a Python set or dict of the same content. If an operation fails or is interrupted, the "
    "container holds its content from before or from after that operation (a bulk update: each element from before or "
    "after), and its length, membership, iteration and look-up still agree with each other.",
    ["histories", "fault_sequences"],
    "all sequences of container operations (inherited ones included), on all contents, with a failure at any point",
    "Containers override some inherited methods and not others and keep redundant row indexes; tests exercise single "
    "operations on fixed content.",
    ["classes/nodemap.py", "classes/nodeset.py", "classes/_utils.py"],
    [("mapping of nodes to values", "classes/nodemap.py:NodeMap"),
     ("mapping of integers to values", "classes/nodemap.py:VectorMap"),
     ("nested mappings with a row index", "classes/nodemap.py:VectorNodeMap,NodeNodeMap"),
     ("set of nodes", "classes/nodeset.py:NodeSet")],
    ["NodeMap.vector", "NodeNodeMap.matrix and _rows", "NodeSet.vector"],
    ["return values and exceptions of container methods"])

add("C07", "Answers do not depend on how the engine stores or picks values",
    "Equal graphs give equal answers whichever storage the engine holds their data in (sparse, hypersparse, bitmap or "
    "full, by row or by column, iso-valued or not, with pending changes or not) at any moment of a history. Neither "
    "does an answer depend on which of several allowed values an engine operator that may pick any of them picks.",
    ["configurations", "schedules", "histories"],
    "all storage representations and free choices of the engine, changing at arbitrary moments of all histories",
    "The engine picks one representation and one value for the small graphs of the tests, by heuristics that real "
    "sizes, thread counts and versions flip.",
    ["classes/graph.py", "algorithms/", "nxapi/"],
    [("shortcuts for iso-valued matrices", "classes/graph.py:is_iso,get_iso_value; algorithms/shortest_paths/weighted.py"),
     ("direct access to storage arrays", "classes/_utils.py:matrix_to_dicts, algorithms/_bfs.py"),
     ("any-operators", "algorithms/_bfs.py, algorithms/shortest_paths/weighted.py, classes/nodemap.py")],
    ["storage of Graph._A and of cached matrices"], ["return values of the public functions"])

add("C08", "Sessions through every route agree with NetworkX",
    "While a client keeps changing NetworkX graphs and calling algorithms on them, on converted graphs directly, "
    "through NetworkX's dispatching, or by naming the backend in the call, every answer equals NetworkX's own answer "
    "for the graph as it was at that call (at its conversion, for converted graphs). Errors are raised where NetworkX "
    "raises them, with a compatible exception type.",
    ["histories", "inputs", "configurations"],
    "all sessions mixing graph changes, conversions and calls of the dispatched functions through the three routes, "
    "within the domain where the backend documents agreement",
    "Dispatch, conversion defaults and state carried between calls interact; tests use one fresh graph per call.",
    ["interface.py", "nxapi/", "algorithms/", "__init__.py"],
    [("table of dispatched functions", "interface.py:Dispatcher"),
     ("conversion of arguments and results", "interface.py:Dispatcher.convert_from_nx,convert_to_nx"),
     ("argument handling per function", "nxapi/"), ("algorithms", "algorithms/")],
    ["NetworkX graphs of the session", "converted graphs and their caches"],
    ["return values and exceptions of each call"])

add("C09", "Conversions are faithful snapshots",
    "Converting a graph to the backend and back at any moment of a history preserves directedness, node order, edges "
    "and weights (1 where the attribute is absent), and so do copying, reversing and changing directedness within the "
    "backend, by the rules of NetworkX. A snapshot never changes when its source changes afterwards, nor the source "
    "when the snapshot is used, and a conversion that fails leaves its source unchanged.",
    ["histories", "inputs", "fault_sequences"],
    "all histories of changes, conversions, re-conversions and failed conversions, over all graphs",
    "Aliasing between source and snapshot, and conversions from a graph whose derived data is partly known, only show "
    "in histories.",
    ["classes/_utils.py", "classes/graph.py", "classes/digraph.py", "interface.py"],
    [("from NetworkX", "classes/_utils.py:from_networkx, interface.py:convert_from_nx"),
     ("to NetworkX", "classes/_utils.py:to_networkx, interface.py:convert_to_nx"),
     ("within the backend", "classes/digraph.py:to_graph,to_undirected,reverse; classes/graph.py:__init__")],
    ["Graph._A", "Graph._key_to_id", "Graph._cache"], ["nodes, edges and weights of both sides"])

add("C10", "Node names, hash order and insertion order do not change answers",
    "Renaming the nodes of a graph (other key types, other hash values and so other iteration orders of sets and "
    "dicts) or adding its nodes in another order changes an answer only by that renaming. The answers stay the same "
    "over whole histories of calls, whichever order the client's own collections iterate in.",
    ["configurations", "inputs", "histories"],
    "all injective renamings, hash seeds, insertion orders and client collection orders, over all histories of calls",
    "Hash seeds vary per process and tests use small integers, whose set order equals their numeric order.",
    ["classes/_utils.py", "algorithms/", "nxapi/"],
    [("node-id tables", "classes/_utils.py:from_networkx,list_to_ids,renumber_key_to_id"),
     ("binary operators aligning two node tables", "algorithms/operators/binary.py"),
     ("values that are node ids", "classes/nodemap.py")],
    ["Graph._key_to_id"], ["return values of the public functions, renamed back"])

add("C11", "Every call ends within its budget and makes progress",
    "Every call on every finite graph returns or raises after a bounded number of steps, whatever the weights (negative "
    "cycles included), the history, and the faults met before. An iterative method stops within the iteration budget "
    "it was given, with a converged answer or with the documented convergence error.",
    ["inputs", "histories", "fault_sequences"],
    "all graphs, parameters and histories; the bound grows with the size of the graph",
    "A test that hangs is removed or never written; loops that end only by luck of the input need adversarial graphs.",
    ["algorithms/shortest_paths/weighted.py", "algorithms/centrality/", "algorithms/link_analysis/", "algorithms/_bfs.py",
     "algorithms/core.py"],
    [("relaxation loops", "algorithms/shortest_paths/weighted.py"), ("frontier loops", "algorithms/_bfs.py"),
     ("power iterations", "algorithms/centrality/eigenvector.py,katz.py; algorithms/link_analysis/"),
     ("pruning to a fixed point", "algorithms/core.py:k_truss")],
    ["loop state"], ["steps used by each call, measured in source lines and engine calls"])

add("N01", "Batch-size strings are parsed as documented",
    "Every documented spelling of a batch size (a number, a number of bytes with a unit, a number of chunks, none) "
    "selects the batch size it describes, and every other spelling is refused.",
    ["inputs"], "all strings", "A parser has unboundedly many inputs.", ["nxapi/_utils.py"],
    [("parser", "nxapi/_utils.py:normalize_chunksize")])
add("N02", "Every implemented algorithm is registered with the dispatcher and documented",
    "The functions that NetworkX can dispatch to are exactly the implemented ones, and the documented tree lists them.",
    ["programs"], "all functions of the package", "Needs a whole-program view, not a sample.",
    ["interface.py"], [("dispatch table", "interface.py:Dispatcher")])
add("N03", "Floating-point answers are identical for every number of engine threads",
    "An answer does not change, bit for bit, with the number of threads the engine uses internally.",
    ["schedules"], "all numbers of engine threads and their schedules",
    "Tests run with one setting of the engine.", ["algorithms/"], [("floating-point reductions", "algorithms/")])
add("N04", "Algorithms stay within their documented time and memory complexity",
    "The resources that a call uses grow with the graph as documented for sparse linear algebra.",
    ["inputs"], "all graph sizes", "Needs measurements over sizes, not assertions.", ["algorithms/"],
    [("algorithms", "algorithms/")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
